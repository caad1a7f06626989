"""Obligations over radix_mf.c (proofs/c14_rmf.c)."""
import extract


def ob(Ob, name, part, functions, stubs=(), **k):
    def prep(d):
        extract.copy(d, 'radix_internal.h', out='radix_internal.h', sub=[(r'RMF_listTail tails_8\[[^;]*;', 'RMF_listTail *tails_8;'), (r'RMF_tableHead stack\[STACK_SIZE\]', 'RMF_tableHead *stack'), (r'RMF_listTail tails_16\[[^;]*;', 'RMF_listTail *tails_16;'),
                     (r'U32 stack\[RADIX16_TABLE_SIZE\]', 'U32 *stack'), (r'RMF_tableHead list_heads\[RADIX16_TABLE_SIZE\]', 'RMF_tableHead *list_heads')])
        extract.copy(d, 'radix_mf.c', stubs=stubs, loops=[('RMF_applyParameters_internal', r'max_len', 'VF_BUILD'), ('RMF_createBuilderTable', r'builders\[i\] = NULL', 'VF_INITNULL'), ('RMF_createBuilderTable', r'RMF_createBuilder\(', 'VF_CREATE')])
    k.setdefault('unwind', 3)
    k.setdefault('unwindset', ['RMF_calBufSize.0:16'])
    k.setdefault('flags', ['--bounds-check', '--pointer-check', '--div-by-zero-check'])
    k.setdefault('replay', False)
    return Ob(name, 'c14_rmf.c', defines=['PART_' + part], functions=functions, prep=prep, **k)


def table(Ob):
    return [ob(Ob, 'apply', 'APPLY', ['RMF_applyParameters', 'RMF_applyParameters_internal', 'RMF_clampParams', 'RMF_reduceDict', 'RMF_compatibleParameters', 'RMF_calBufSize'], ['RMF_createBuilderTable', 'RMF_freeBuilderTable'], min_reach=3),
            ob(Ob, 'builder_table', 'TABLE', ['RMF_createBuilderTable'], ['RMF_createBuilder', 'RMF_freeBuilderTable'], min_reach=3),
            ob(Ob, 'bufsize', 'BUFSIZE', ['RMF_calBufSize'])]
