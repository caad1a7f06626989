OBLIGATIONS = []
RAC = [
    Rac('decode_asm', 'decode.c', args=[], jobs=2, secs=15, secs_thorough=240, variant='asm'),
    Rac('decode', 'decode.c', args=[], jobs=7, secs=15, secs_thorough=240),
]
LEVEL = 'exploration'
TRUSTED = []
ASSUMPTIONS = []
NOTE = 'So far decided by runtime checking of the contracts on the compiled library only (bounded, not a proof).'
