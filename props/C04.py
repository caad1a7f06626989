import extract
SRCS = ['dict_buffer.c', 'fl2_common.c', 'fl2_pool.c', 'fl2_threading.c', 'xxhash.c', 'util.c', 'radix_mf.c', 'radix_bitpack.c', 'radix_struct.c']
OBLIGATIONS = [
    Ob('dict_prop', 'c04_prop.c', functions=['LZMA2_getDictSizeProp', 'LZMA2_getDictSizeFromProp'], unwind=33, min_reach=3,
       native_srcs=['lzma2_enc.c', 'lzma2_dec.c', 'fl2_common.c', 'range_enc.c', 'radix_bitpack.c', 'radix_struct.c', 'radix_mf.c']),
    Ob('stream_prop', 'c04_frame.c', functions=['FL2_compressStream_internal', 'FL2_getProp', 'DICT_getBlock', 'DICT_hasUnprocessed'], unwind=3, min_reach=3,
       prep=lambda d: extract.copy(d, 'fl2_compress.c', stubs=['FL2_compressCurBlock']), native_srcs=SRCS),
    Ob('buffer_prop', 'c04_frame.c', defines=['PART_BUFFER'], functions=['FL2_compressBuffer', 'FL2_getProp'], unwind=3, min_reach=2, kind='bounded', bound='at most 3 blocks per call', flags=[], extra=['--no-unwinding-assertions'],
       prep=lambda d: extract.copy(d, 'fl2_compress.c', stubs=['FL2_compressCurBlock']), native_srcs=SRCS),
]
RAC = []
TRUSTED = []
ASSUMPTIONS = []
NOTE = 'CBMC proves the property byte functions for every dictionary size and byte, and the byte written at the start of every stream/frame; buffers of more than 3 blocks per call are bounded.'
