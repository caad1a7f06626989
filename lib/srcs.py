ALL = ['dict_buffer.c', 'fl2_common.c', 'fl2_compress.c', 'fl2_decompress.c', 'fl2_pool.c', 'fl2_threading.c', 'lzma2_dec.c',
       'lzma2_enc.c', 'radix_bitpack.c', 'radix_mf.c', 'radix_struct.c', 'range_enc.c', 'util.c', 'xxhash.c']


def but(*names):
    return [s for s in ALL if s not in names]
