"""LZMA2_encode and below: chunk level of the encoder."""
import extract


def chunks(Ob, groups=(0, 1)):
    def prep(d):
        extract.copy(d, 'lzma2_enc.c', stubs=['LZMA2_reset', 'LZMA_hashCreate', 'LZMA_hashReset', 'LZMA2_isChunkIncompressible', 'LZMA_encodeLiteral', 'LZMA2_encodeChunk'],
                     loops=[('LZMA2_encode', r'LZMA2_encodeChunk', 'VF_CHUNK')],
                     sub=[(r'literal_probs\[\(?kNum[^\]]*\]', 'literal_probs[1]'), (r'BYTE out_buf\[kTempBufferSize\]', 'BYTE *out_buf')])   # the temporary buffer is an object of its own; contents of the tables do not matter here: only copied as a whole
        extract.copy(d, 'range_enc.h', stubs=['RC_flush'], out='range_enc.h'); extract.copy(d, 'range_enc.c')
    return [Ob('encode_%s_%s' % (n, ('headers', 'space')[g]), 'c03_enc.c', prep=prep, defines=['GROUP=%d' % g] + f, functions=['LZMA2_encode'], unwind=3, replay=False, flags=['--bounds-check', '--pointer-check'] if g else [],
               extra=['--slice-formula'], min_reach=1) for n, f in (('first', ['FIRST=1']), ('later', ['FIRST=2']), ('next', ['FIRST=0'])) for g in groups]
