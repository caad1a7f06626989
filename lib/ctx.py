"""Obligations over fl2_compress.c: starting, slicing and finishing a compression (proofs/c14_ctx.c)."""
import extract


def ob(Ob, name, part, functions, stubs=(), **k):
    def prep(d):
        extract.copy(d, 'fl2_compress_internal.h', out='fl2_compress_internal.h', sub=[(r'FL2_job jobs\[1\]', 'FL2_job *jobs')])
        extract.copy(d, 'fl2_compress.c', stubs=stubs, sub=[(r'= encodeSize / nbThreads;', '= VF_DIV(encodeSize, nbThreads);'), (r'encodeSize / ENC_MIN_BYTES_PER_THREAD', 'VF_DIVC(encodeSize, ENC_MIN_BYTES_PER_THREAD)'), (r'cctx->jobs\[([^\]]*)\]', r'VF_JOB(\1)')] if part in ('BLOCK', 'SLICE') else [], loops=[('FL2_initEncoders', r'LZMA2_hashAlloc', 'VF_ENC'), ('FL2_compressCurBlock_blocking', r'sliceStart', 'VF_SLICE'), ('FL2_compressCurBlock_blocking', r'FL2_isError', 'VF_RES')])
    k.setdefault('unwind', 3)
    if part == 'CCTX':
        k['flags'] = ['--bounds-check', '--pointer-check']
    elif part == 'BLOCK':
        k['extra'] = ['--slice-formula']
    elif part != 'CUR':
        k['extra'] = ['--z3']
    k.setdefault('flags', ['--signed-overflow-check', '--div-by-zero-check'])
    return Ob(name, 'c14_ctx.c', defines=['PART_' + part], functions=functions, prep=prep, replay=False, **k)


CCTX = dict(part='CCTX', functions=['FL2_compressCCtx', 'FL2_preBeginFrame', 'FL2_beginFrame', 'FL2_endFrame', 'FL2_getProp'], stubs=['FL2_initEncoders', 'FL2_CCtx_setParameter', 'FL2_compressBuffer'], min_reach=4)


def compress(Ob):
    return ob(Ob, 'compress', **CCTX)


def init(Ob):
    return [ob(Ob, 'init_stream', 'INIT', ['FL2_initCStream', 'FL2_cancelCStream', 'FL2_preBeginFrame', 'FL2_beginFrame', 'FL2_endFrame'], ['FL2_initEncoders', 'FL2_CCtx_setParameter'], min_reach=2),
            ob(Ob, 'init_encoders', 'ENC', ['FL2_initEncoders'], min_reach=3)]


def block(Ob):
    return [ob(Ob, 'slices', 'BLOCK', ['FL2_compressCurBlock_blocking'], ['FL2_compressRadixChunk', 'FL2_buildRadixTable'], min_reach=3), ob(Ob, 'slice', 'SLICE', ['FL2_compressRadixChunk'], min_reach=1),
            ob(Ob, 'cur_block', 'CUR', ['FL2_compressCurBlock', 'FL2_initProgress'], ['FL2_compressCurBlock_blocking'], min_reach=2)]
