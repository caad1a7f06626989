import capi
def O(*a, **k):
    k.setdefault('extra', [])
    return capi.ob(Ob, *a, **k)
CUR = ['FL2_waitCStream', 'FL2_compressCurBlock']
OBLIGATIONS = [
    O('wait', 'WAIT', [], ['FL2_waitCStream'], ['STUB_POOL'], min_reach=3),
    O('next_block', 'INTERNAL', CUR, ['FL2_compressStream_internal', 'FL2_getProp'], ['STUB_WAIT', 'STUB_DICT', 'STUB_CUR'], min_reach=3),
    O('input', 'INPUT', ['FL2_waitCStream', 'FL2_compressStream_internal'], ['FL2_compressStream_input'], ['STUB_WAIT', 'STUB_DICT', 'STUB_INTERNAL'], min_reach=3),
    O('get_dictionary', 'GETDICT', ['FL2_waitCStream', 'FL2_compressStream_internal'], ['FL2_getDictionaryBuffer'], ['STUB_WAIT', 'STUB_DICT', 'STUB_INTERNAL'], min_reach=3),
    O('update_dictionary', 'UPDATEDICT', ['FL2_waitCStream', 'FL2_compressStream_internal'], ['FL2_updateDictionary'], ['STUB_WAIT', 'STUB_DICT', 'STUB_INTERNAL'], min_reach=1),
    O('end_stream', 'ENDSTREAM', ['FL2_copyCStreamOutput', 'FL2_compressStream_internal', 'FL2_cancelCStream', 'FL2_waitCStream', 'FL2_writeEnd'], ['FL2_endStream', 'FL2_flushStream_internal', 'FL2_loopCheck'], ['STUB_COPY', 'STUB_INTERNAL', 'STUB_CANCEL', 'STUB_WAIT', 'STUB_DICT', 'STUB_WRITEEND'], min_reach=3),
]
RAC = [
    Rac('stream_timed', 'stream.c', args=['--mode', '3'], jobs=4, secs=15, secs_thorough=240),
    Rac('stream_dual', 'stream.c', args=['--mode', '1'], jobs=4, secs=15, secs_thorough=240, san='', opt='-O2'),
]
LEVEL = 'proof'
TRUSTED = []
ASSUMPTIONS = []
NOTE = 'CBMC proves waiting, timing out, taking the next block, buffer shifts and the end marker against a ghost running flag; contract chains are composed by hand; whole-stream equality under timeouts is runtime-checked.'
