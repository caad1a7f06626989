import ctx
import rmf
OBLIGATIONS = rmf.table(Ob) + [ctx.compress(Ob)] + ctx.init(Ob)
RAC = [
    Rac('stream', 'stream.c', args=['--mode', '1'], jobs=3, secs=15, secs_thorough=240),
    Rac('roundtrip', 'roundtrip.c', args=[], jobs=3, secs=15, secs_thorough=240),
    Rac('stream_small', 'stream.c', args=['--mode', '3'], jobs=2, secs=15, secs_thorough=240, san='', opt='-O2'),
]
LEVEL = 'proof'
TRUSTED = ['CBMC 6.11 front end, goto-cc, MiniSat, z3']
ASSUMPTIONS = ['contracts of DICT_init (C08), FL2_CCtx_setParameter (C06), the pool (C19)', 'the encoder starts each stream from its own reset (runtime-checked)']
NOTE = 'CBMC proves from any state of a context (finished, failed, abandoned, running) that FL2_compressCCtx and FL2_initCStream stop what is underway, apply the level given, size encoders, match table and dictionary for the parameters in force, start from zeroed state and unlock the parameters in the end or on failure, and that reusing a match table installs every parameter given as a new table would. Encoder and decoder contexts over whole histories are runtime-checked.'
