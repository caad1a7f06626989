OBLIGATIONS = []
RAC = [
    Rac('mf', 'mf.c', args=['--mode', '0'], jobs=4, secs=15, secs_thorough=240),
    Rac('mf_struct', 'mf.c', args=['--mode', '1'], jobs=3, secs=15, secs_thorough=240, san='', opt='-O2'),
]
LEVEL = 'exploration'
TRUSTED = []
ASSUMPTIONS = []
NOTE = 'So far decided by runtime checking of the contracts on the compiled library only (bounded, not a proof).'
