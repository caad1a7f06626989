import srcs
L = srcs.but('fl2_compress.c')
OBLIGATIONS = [
    Ob('set_get', 'c06.c', defines=['PART_SET'], functions=['FL2_CCtx_setParameter', 'FL2_CCtx_getParameter', 'FL2_fillParameters', 'FL2_getLevelParameters'], unwind=33, min_reach=4, native_srcs=L),
    Ob('presets', 'c06.c', defines=['PART_LEVELS'], functions=['FL2_getLevelParameters', 'FL2_maxCLevel', 'FL2_maxHighCLevel'], unwind=33, min_reach=2, native_srcs=L),
    Ob('creation', 'c06.c', defines=['PART_CREATE'], functions=['FL2_createCCtx_internal', 'FL2_createCCtxMt', 'FL2_createCStreamMt'], unwind=33, min_reach=1, kind='bounded', bound='2 threads', replay=False,
       native_srcs=['dict_buffer.c', 'fl2_common.c']),
]
NOTE = 'CBMC proves set/get for every parameter and 64-bit value and every preset; context creation is proved for 2 threads only.'
