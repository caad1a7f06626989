import c02
import enc
OBLIGATIONS = c02.parsers(Ob) + enc.chunks(Ob)
RAC = [
    Rac('decode_asm', 'decode.c', args=[], jobs=2, secs=15, secs_thorough=240, variant='asm'),
    Rac('decode', 'decode.c', args=[], jobs=4, secs=15, secs_thorough=240),
    Rac('roundtrip', 'roundtrip.c', args=[], jobs=2, secs=15, secs_thorough=240, san='', opt='-O2'),
]
LEVEL = 'proof'
TRUSTED = ['CBMC 6.11 front end, goto-cc and its SAT back end (MiniSat)']
ASSUMPTIONS = ['LZMA2_encodeChunk makes progress, passes `end` by at most one match (fast) or one parse (opt, ultra) and stops the packed size 20 bytes below the chunk limit; a chunk that is not the last has at least 6348 bytes: not proved for the optimal parser, only checked at run time', 'a slice starts at least 1024 positions before the end of the match table (C08, C11)', 'RC_flush adds at most 5 bytes (C01 bit_flush)', 'objects are at most 2^40 bytes']
NOTE = "CBMC proves for all bytes that LZMA2_parseInput and LZMA2_nextChunkInfo agree with each other and with the format on sizes, completeness, resets and end, and for one arbitrary iteration of LZMA2_encode's chunk loop that the header written is the one the format defines for the chunk's sizes, kind, properties and resets, that encoder and decoder state stay paired across stored chunks, and that chunks follow each other without gap. LZMA2_getUnpackSize sums the chunks up to the end marker without reading past the data."
