F = {'INIT': ['DICT_construct', 'DICT_init', 'DICT_destruct'], 'PUT': ['DICT_put', 'DICT_availSpace', 'DICT_hasUnprocessed', 'DICT_async', 'DICT_size'], 'UPDATE': ['DICT_update'],
     'BLOCK': ['DICT_getBlock'], 'SHIFT': ['DICT_shift', 'DICT_needShift', 'DICT_get']}
OBLIGATIONS = [Ob('dict_' + k.lower(), 'c08.c', defines=['PART_' + k], functions=v, replay=False, unwind=3, flags=['--signed-overflow-check'], min_reach=2 if k in ('INIT', 'SHIFT') else 1, extra=['--z3'] if k in ('INIT', 'BLOCK') else []) for k, v in F.items()]
RAC = [
    Rac('stream', 'stream.c', args=['--mode', '0'], jobs=3, secs=15, secs_thorough=240, san='', opt='-O2'),
    Rac('stream_dual', 'stream.c', args=['--mode', '1'], jobs=4, secs=15, secs_thorough=240),
]
LEVEL = 'proof'
TRUSTED = []
ASSUMPTIONS = []
NOTE = 'CBMC proves dict_buffer.c function by function for every state; that histories compose is by the object invariant; caller interplay is runtime-checked.'
