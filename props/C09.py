import capi
def O(*a, **k):
    return capi.ob(Ob, *a, **k)
OBLIGATIONS = [
    O('copy_output', 'COPY', [], ['FL2_copyCStreamOutput'], ['STUB_TABLE'], min_reach=3),
    O('next_buffer', 'NEXT', ['FL2_waitCStream'], ['FL2_getNextCompressedBuffer'], ['STUB_TABLE', 'STUB_WAIT', 'SLICES'], min_reach=3),
    O('next_buffer_rest', 'NEXT2', ['FL2_waitCStream'], ['FL2_getNextCompressedBuffer'], ['STUB_TABLE', 'STUB_WAIT', 'SLICES'], min_reach=1),
    O('compress_stream', 'STREAM', ['FL2_copyCStreamOutput', 'FL2_compressStream_input', 'FL2_cancelCStream'], ['FL2_compressStream', 'FL2_loopCheck'], ['STUB_COPY', 'STUB_INPUT', 'STUB_CANCEL'], min_reach=3, extra=[]),
    O('flush_stream', 'FLUSH', ['FL2_copyCStreamOutput', 'FL2_compressStream_internal', 'FL2_cancelCStream', 'FL2_waitCStream'], ['FL2_flushStream', 'FL2_flushStream_internal', 'FL2_loopCheck'], ['STUB_COPY', 'STUB_INTERNAL', 'STUB_CANCEL', 'STUB_WAIT', 'STUB_DICT'], min_reach=3, extra=[]),
    O('end_stream', 'ENDSTREAM', ['FL2_copyCStreamOutput', 'FL2_compressStream_internal', 'FL2_cancelCStream', 'FL2_waitCStream', 'FL2_writeEnd'], ['FL2_endStream', 'FL2_flushStream_internal', 'FL2_loopCheck'], ['STUB_COPY', 'STUB_INTERNAL', 'STUB_CANCEL', 'STUB_WAIT', 'STUB_DICT', 'STUB_WRITEEND'], min_reach=3, extra=[]),
    O('write_end', 'WRITEEND', [], ['FL2_writeEnd', 'FL2_getProp', 'FL2_endFrame'], ['REAL_MEMCPY'], min_reach=1),
    O('remaining', 'REMAIN', [], ['FL2_remainingOutputSize'], ['NJOBS=4'], kind='bounded', bound='at most 4 waiting slices (of 200)', unwind=6, extra=['--z3'], min_reach=2),
]
RAC = [
    Rac('stream_small', 'stream.c', args=['--mode', '2'], jobs=5, secs=15, secs_thorough=240),
    Rac('stream', 'stream.c', args=['--mode', '0'], jobs=3, secs=15, secs_thorough=240, san='', opt='-O2'),
]
LEVEL = 'proof'
TRUSTED = []
ASSUMPTIONS = []
NOTE = 'CBMC proves the position and slice bookkeeping of every compression streaming call for up to 200 threads; decompression positions and whole streams are runtime-checked only.'
