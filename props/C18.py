import extract
def X(*more):
    return lambda d: extract.copy(d, 'radix_mf.c', stubs=['RMF_initTailTable', 'RMF_initListHeads'] + list(more))


def small(d):
    # the list heads and stacks are shortened (65536 -> 16 entries): no function under contract here indexes them
    extract.copy(d, 'radix_internal.h', out='radix_internal.h', sub=[(r'(#define RADIX16_TABLE_SIZE) \(\(size_t\)1 << 16\)', r'\1 ((size_t)1 << 4)')])
    X('RMF_createBuilder', 'RMF_calBufSize')(d)


R = dict(unwind=24, replay=False, native_srcs=['fl2_common.c'])
Z = dict(R, extra=['--z3'])
OBLIGATIONS = [
    Ob('builder', 'c18.c', defines=['PART_RMF', 'P_BUILDER'], functions=['RMF_createBuilder', 'RMF_calBufSize', 'RMF_memoryUsage'], prep=X(), **Z),
    Ob('buffer_monotone', 'c18.c', defines=['PART_RMF', 'P_BUF'], functions=['RMF_calBufSize'], prep=X(), **R),
    Ob('table_monotone', 'c18.c', defines=['PART_RMF', 'P_MONO'], functions=['RMF_memoryUsage', 'RMF_isStruct'], prep=X('RMF_calBufSize'), **Z),
    Ob('table_linear', 'c18.c', defines=['PART_RMF', 'P_LINEAR'], functions=['RMF_memoryUsage'], prep=X(), **Z),
    Ob('table', 'c18.c', defines=['PART_RMF', 'P_TABLE'], functions=['RMF_createMatchTable', 'RMF_createBuilderTable', 'RMF_applyParameters_internal', 'RMF_clampParams', 'RMF_reduceDict'], kind='bounded', bound='at most 3 threads', prep=small, **dict(R, unwind=5)),
    Ob('encoder', 'c18.c', defines=['PART_ENC'], functions=['LZMA2_createECtx', 'LZMA2_hashAlloc', 'LZMA_hashCreate', 'LZMA2_encMemoryUsage'], replay=False, min_reach=2, native_srcs=['fl2_common.c'], prep=lambda d: extract.copy(d, 'lzma2_enc.c', stubs=['LZMA_hashReset']), unwind=3),
    Ob('estimates', 'c18.c', defines=['PART_EST'], functions=['FL2_estimateCCtxSize', 'FL2_estimateCStreamSize', 'FL2_estimateCCtxSize_byParams', 'FL2_estimateCStreamSize_byParams', 'FL2_estimateCCtxSize_usingCCtx',
       'FL2_estimateCStreamSize_usingCStream', 'FL2_memoryUsage_internal', 'FL2_checkNbThreads', 'DICT_memUsage'], replay=False, min_reach=3, native_srcs=['fl2_common.c', 'fl2_threading.c', 'dict_buffer.c']),
    Ob('dict', 'c18.c', defines=['PART_DICT'], functions=['DICT_init', 'DICT_memUsage', 'DICT_construct', 'DICT_destruct'], replay=False),
    Ob('decoder', 'c18.c', defines=['PART_DEC'], functions=['LZMA2_initDecoder', 'LZMA2_decMemoryUsage', 'LZMA2_dictBufSize'], replay=False, min_reach=2, unwind=2, native_srcs=['fl2_common.c']),
    Ob('decoder_estimates', 'c18.c', defines=['PART_DEST'], functions=['FL2_estimateDCtxSize', 'FL2_estimateDStreamSize'], replay=False, native_srcs=['fl2_common.c', 'lzma2_dec.c'], extra=['--z3']),
]
for o in OBLIGATIONS: o.flags = ['--malloc-may-fail', '--malloc-fail-null'] if o.name in ('builder', 'table', 'encoder', 'dict', 'decoder') else []
NOTE = 'CBMC/Z3 compare the estimates with the sizes the allocating functions request, for all parameters; match-table creation bounded to 3 threads; fixed-size headers are outside the estimate.'
