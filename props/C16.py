import enc
OBLIGATIONS = enc.chunks(Ob)
RAC = [
    Rac('roundtrip', 'roundtrip.c', args=[], jobs=5, secs=15, secs_thorough=240),
    Rac('roundtrip_fast', 'roundtrip.c', args=[], jobs=3, secs=15, secs_thorough=240, san='', opt='-O2'),
]
LEVEL = 'exploration'
TRUSTED = ['CBMC 6.11 front end, goto-cc and its SAT back end (MiniSat)']
ASSUMPTIONS = ['LZMA2_encodeChunk makes progress, passes `end` by at most one match (fast) or one parse (opt, ultra) and stops the packed size 20 bytes below the chunk limit; a chunk that is not the last has at least 6348 bytes: not proved for the optimal parser, only checked at run time', 'a slice starts at least 1024 positions before the end of the match table (C08, C11)', 'RC_flush adds at most 5 bytes (C01 bit_flush)']
NOTE = 'LZMA2_encode (chunk limits, temporary buffer, output behind the table position at every chunk end) is proved; the parsers, hash chains and match lists are runtime checked only.'
