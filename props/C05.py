import bound
import capi
import ctx
import enc
OBLIGATIONS = bound.bound(Ob) + enc.chunks(Ob) + [ctx.compress(Ob), capi.buffer(Ob)]
RAC = [
    Rac('stream', 'stream.c', args=['--mode', '1'], jobs=2, secs=15, secs_thorough=240),
    Rac('roundtrip', 'roundtrip.c', args=[], jobs=2, secs=15, secs_thorough=240),
    Rac('stream_small', 'stream.c', args=['--mode', '3'], jobs=2, secs=15, secs_thorough=240, san='', opt='-O2'),
]
LEVEL = 'proof'
TRUSTED = ['CBMC 6.11 front end, goto-cc, MiniSat, z3']
ASSUMPTIONS = ['a chunk that is not the last of its slice has at least 59520 bytes of content (15/16 of the chunk size): adaptive coding expands by less than 1/16; checked at run time only', 'LZMA2_encodeChunk meets its assumed contract (see C16)', 'sources are at most 2^40 bytes', 'quotients by the constant average size are replaced by their definition']
NOTE = 'CBMC proves that no chunk exceeds its content plus 3 bytes, that LZMA2_compressBound exceeds the sum for the largest number of chunks, property, end marker and hash, and that FL2_compressBuffer and FL2_compressCCtx never write past the capacity and fail only when the result does not fit. The smallest size of a full chunk is an assumption checked at run time.'
