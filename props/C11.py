import capi
import ctx
OBLIGATIONS = ctx.block(Ob) + [capi.buffer(Ob)]
RAC = [
    Rac('roundtrip', 'roundtrip.c', args=[], jobs=3, secs=15, secs_thorough=240),
    Rac('roundtrip_fast', 'roundtrip.c', args=[], jobs=4, secs=15, secs_thorough=240, san='', opt='-O2'),
]
LEVEL = 'proof'
TRUSTED = ['CBMC 6.11 front end, goto-cc, MiniSat, z3', 'the pool runs each queued job once and waiting means finished (C19)']
ASSUMPTIONS = ['products of the slice size are replaced by the facts of multiplication listed in proofs/c14_ctx.c', 'LZMA2_encode compresses the slice it is given (C01, C03)']
NOTE = 'CBMC proves for every block, thread count up to 200 and context state that FL2_compressCurBlock_blocking cuts the new data into consecutive slices covering it once, builds the table before and waits for all slices, that each job compresses its own slice, and that FL2_compressBuffer emits the slices of each block in order and the blocks cover the source once. Round trips with many threads are runtime-checked.'
