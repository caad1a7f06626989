"""Obligation groups over fl2_compress.c (proofs/capi.c), shared by several properties."""
import extract


def ob(Ob, name, part, stubs, functions, defs=(), unwind=3, min_reach=2, loops=(), **k):
    def prep(d):
        extract.copy(d, 'fl2_compress_internal.h', out='fl2_compress_internal.h', sub=[(r'FL2_job jobs\[1\]', 'FL2_job *jobs')])
        extract.copy(d, 'fl2_compress.c', stubs=stubs, loops=loops, sub=[(r'cctx->jobs\[([^\]]*)\]', r'VF_JOB(\1)'), (r'dictionarySize \* cctx->params\.cParams\.reset_interval', 'IN(size_t)')] if part == 'BUFFER' else [])
    k.setdefault('extra', ['--z3'])
    k.setdefault('flags', ['--signed-overflow-check'])
    return Ob(name, 'capi.c', defines=['PART_' + part] + list(defs), functions=functions, prep=prep, unwind=unwind, min_reach=min_reach, replay=False, **k)


def buffer(Ob):
    return ob(Ob, 'buffer', 'BUFFER', ['FL2_compressCurBlock'], ['FL2_compressBuffer'], min_reach=5, unwind=4, timeout=300, extra=['--slice-formula'], loops=[('FL2_compressBuffer', r'FL2_compressCurBlock', 'VF_OUTER'), ('FL2_compressBuffer', r'RMF_getTableAsOutputBuffer', 'VF_INNER')])
