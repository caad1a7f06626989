
C = dict(replay=False, unwind=4)
OBLIGATIONS = [
    Ob('worker', 'c19.c', defines=['WORKER'], functions=['FL2POOL_thread'], min_reach=4, **C),
    Ob('add', 'c19.c', defines=['PART_ADD', 'MASTER'], functions=['FL2POOL_add', 'FL2POOL_addRange'], min_reach=1, **C),
    Ob('wait', 'c19.c', defines=['PART_WAIT', 'MASTER'], functions=['FL2POOL_waitAll'], min_reach=2, **C),
    Ob('life', 'c19.c', defines=['PART_LIFE'], functions=['FL2POOL_create', 'FL2POOL_free', 'FL2POOL_join', 'FL2POOL_sizeof'], min_reach=2, kind='bounded', bound='at most 3 threads', **dict(C, unwind=5, flags=['--pointer-check','--signed-overflow-check'])),
]
RAC = [
    Rac('pool', 'pool.c', jobs=3, secs=15, secs_thorough=200, san='address,undefined'),
    Rac('pool_tsan', 'pool.c', args=['--mode', '1'], jobs=3, secs=15, secs_thorough=200, san='thread'),
]
NOTE = 'Monitor-invariant proof of fl2_pool.c for any number of threads and jobs with lock/wait replaced by contracts; creation/joining bounded to 3 threads; liveness only by stress runs (ASan, TSan).'
