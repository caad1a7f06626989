OBLIGATIONS = []
RAC = [
    Rac('stream', 'stream.c', args=['--mode', '0'], jobs=4, secs=15, secs_thorough=240),
    Rac('stream_small', 'stream.c', args=['--mode', '3'], jobs=4, secs=15, secs_thorough=240),
]
LEVEL = 'exploration'
TRUSTED = []
ASSUMPTIONS = []
NOTE = 'So far decided by runtime checking of the contracts on the compiled library only (bounded, not a proof).'
