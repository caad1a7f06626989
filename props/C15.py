import lz
OBLIGATIONS = lz.symbols(Ob, True) + [o for o in lz.bits(Ob) if 'encodeBit' in o.name]
RAC = [
    Rac('decode_asm', 'decode.c', args=[], jobs=2, secs=15, secs_thorough=240, variant='asm'),
    Rac('decode', 'decode.c', args=[], jobs=4, secs=15, secs_thorough=240),
    Rac('stream_small', 'stream.c', args=['--mode', '2'], jobs=2, secs=15, secs_thorough=240, san='', opt='-O2'),
]
LEVEL = 'proof'
TRUSTED = ['CBMC 6.11 front end, goto-cc and its SAT back end (MiniSat)', 'multiplication of natural numbers is monotonic']
ASSUMPTIONS = ['the bit sequences are those of the encoder functions over all literals, lengths 2 to 273, repeats and 32-bit distances, which are all the format has', 'splitting of calls above LZMA_tryDummy is only checked at run time']
NOTE = 'CBMC proves for every symbol and state that LZMA_tryDummy takes exactly the bits, probabilities and normalisations LZMA_decodeReal_3 takes and stops exactly when a byte is missing. The splitting of buffers across calls is runtime checked only.'
