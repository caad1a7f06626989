/* fl2_compress.c, included whole; the functions named as stubs by the obligation group keep their text (as NAME__impl) and calls to them
 * meet the contracts below instead, each proved in its own group or property. The context is arbitrary within the invariant:
 * compressed slices outThread..threadCount-1 wait to be copied, outPos bytes of the first are already copied.
 * The trailing array FL2_job jobs[1] becomes a pointer to an array of its largest size (FL2_MAXTHREADS) in the extraction.
 * Ghost state: `running` = the compression thread works on a block. A running job may finish at any call of a waiting function. */
#include "vf.h"
#include <string.h>
#include "mem.h"
#include "fl2_internal.h"
#include "fl2_errors.h"
#include "fl2_compress_internal.h"
static struct { const void *d, *s; size_t n; } cp[3]; static unsigned ncp;
#ifndef REAL_MEMCPY
static void *vf_cpy(void *d, const void *s, size_t n) { if (ncp < 3) { cp[ncp].d = d; cp[ncp].s = s; cp[ncp].n = n; } ++ncp; return d; }
#define memcpy(d, s, n) vf_cpy(d, s, n)
#endif
static FL2_CCtx X; static BYTE table_mem[FL2_MAXTHREADS + 1]; static int running;
static unsigned ntab, nwait, nblock, ncomp, nshift, nput, nend, nsync;
#define MT(c) ((c)->compressThread != NULL)
static int inv(void)
{
    return X.jobCount >= 1 && X.jobCount <= FL2_MAXTHREADS && X.threadCount <= X.jobCount && X.outThread <= X.threadCount
#if !defined(STUB_COPY) && !defined(STUB_CUR) && !defined(STUB_INTERNAL)   /* the others do not look at the slices */
        && (X.outThread < X.threadCount ? X.outPos <= X.jobs[X.outThread].cSize && !FL2_isError(X.jobs[X.outThread].cSize) : X.outPos == 0)
#endif
        && X.buf.async <= 1 && (!X.buf.async || MT(&X)) && (running == 0 || (running == 1 && MT(&X) && X.threadCount == 0)) && (X.timeout == 0 || MT(&X));
}
static FL2_job J[FL2_MAXTHREADS];
static void arbitrary(void) { __CPROVER_havoc_object(&X); __CPROVER_havoc_object(J); X.jobs = J; running = IN(int) & 1; ASSUME(inv()); }
/* contract of FL2_compressCurBlock_blocking: on success the slices of the block wait to be copied; on failure an error */
static void finish_job(void)
{
    size_t e = IN(size_t), t = IN(size_t);
#ifdef SLICES
    size_t c0 = IN(size_t);
#endif
    ASSUME(e == 0 || FL2_isError(e)); ASSUME(!FL2_isTimedOut(e)); ASSUME(t >= 1 && t <= X.jobCount);
    X.asyncRes = e; if (!e) X.threadCount = t;
#ifdef SLICES
    if (!e) { ASSUME(!FL2_isError(c0)); X.jobs[0].cSize = c0; }
#endif
    running = 0;
}
#ifdef STUB_POOL
/* contract of FL2POOL_waitAll, proved in C19: without a pool nothing to wait for; 0 means no job is queued or running;
 * nonzero is only possible with a timeout and a job in progress */
int FL2POOL_waitAll(void *ctx, unsigned timeout)
{
    CHECK(ctx == X.compressThread, "waits for the compression thread"); ++nwait;
    if (!ctx || !running) return 0;
    if (timeout && (IN(int) & 1)) return 1;
    finish_job(); return 0;
}
#endif
#ifdef STUB_WAIT
static size_t wait_res; static int waited_ok; 
/* contract of FL2_waitCStream, proved in PART_WAIT */
FL2LIB_API size_t FL2LIB_CALL FL2_waitCStream(FL2_CStream *fcs)
{
    CHECK(fcs == &X, "waits for this stream"); ++nwait; waited_ok = 0;
    if (running && fcs->timeout && (IN(int) & 1)) return FL2_ERROR(timedOut);
    if (running) finish_job();
    if (FL2_isError(fcs->asyncRes)) { return fcs->asyncRes; }
    waited_ok = 1;
    return fcs->outThread < fcs->threadCount;
}
#endif
#ifdef STUB_DICT
/* contracts of dict_buffer.c, proved in C08. The order relative to the compression thread is what matters here. */
static int d_need, d_unproc; static size_t d_avail;
int DICT_async(const DICT_buffer *const buf) { return (int)buf->async; }
#ifdef PART_INPUT
static FL2_inBuffer *the_input; static size_t in_pos0; static unsigned nneed;
static void loop_head(void)
{   /* the state the loop starts its next pass with is one the proof starts from */
    CHECK(inv(), "the state of the stream is consistent"); CHECK(X.asyncRes == 0 || (FL2_isError(X.asyncRes) && !FL2_isTimedOut(X.asyncRes)), "the result of the last block is success or an error");
    CHECK(the_input->pos >= in_pos0 && the_input->pos < the_input->size, "input left"); REACH("next pass"); ASSUME(0);
}
#define LOOP_HEAD if (nneed++) loop_head()
#else
static FL2_inBuffer *the_input;
#define LOOP_HEAD
#endif
int DICT_needShift(DICT_buffer *const buf) { LOOP_HEAD; d_need = IN(int) & 1; if (d_unproc) d_need = 0; return d_need; }
static void shift_ok(const DICT_buffer *buf) { CHECK(buf == &X.buf, "this stream's buffer"); CHECK(!d_need || buf->async || !running, "a single buffer is not shifted while it is being compressed"); }
void DICT_shift(DICT_buffer *const buf) { shift_ok(buf); ++nshift; }
size_t DICT_get(DICT_buffer *const buf, void **const dict) { if (!d_unproc && !buf->async) d_need = d_need; shift_ok(buf); ++nshift; *dict = (void*)table_mem; return IN(size_t); }
void DICT_put(DICT_buffer *const buf, FL2_inBuffer *const input)
{
    CHECK(buf == &X.buf && input == the_input, "input goes to this stream's buffer"); ++nput;
    size_t n = IN(size_t); ASSUME(n <= input->size - input->pos); input->pos += n; d_avail = IN(size_t); ASSUME(n == 0 || 1); if (n) d_unproc = 1;
    ASSUME(d_avail == 0 || input->pos == input->size);   /* put fills the buffer or takes all input */
    ASSUME(d_avail != 0 || d_unproc || n == 0);
}
size_t DICT_availSpace(const DICT_buffer *const buf) { return d_avail; }
int DICT_hasUnprocessed(const DICT_buffer *const buf) { return d_unproc; }
static FL2_dataBlock taken; static int pending_block;
void DICT_getBlock(DICT_buffer *const buf, FL2_dataBlock *const block)
{
    CHECK(buf == &X.buf && block == &X.curBlock, "the block of this stream");
    CHECK(!running, "the block being compressed is not replaced");
    CHECK(X.outThread == X.threadCount, "no output of the previous block is left to be copied");
    CHECK(d_unproc, "there is new data"); ++nblock; pending_block = 1; d_unproc = 0;
    block->data = table_mem; block->start = IN(size_t); block->end = IN(size_t); ASSUME(block->start < block->end && block->end <= (1u << 30)); taken = *block;
}
int DICT_update(DICT_buffer *const buf, size_t added) { d_unproc = 1; return IN(int) & 1; }
#endif
#ifdef STUB_CUR
static int the_prop;
static size_t FL2_compressCurBlock(FL2_CCtx *const cctx, int const prop)
{
    CHECK(cctx == &X && pending_block && cctx->curBlock.start == taken.start && cctx->curBlock.end == taken.end && cctx->curBlock.data == taken.data, "the block taken from the buffer is the one compressed");
    CHECK(!running, "one block at a time"); CHECK(X.outThread == X.threadCount, "no compressed output exists");
    pending_block = 0; ++ncomp; the_prop = prop;
    X.outThread = 0; X.threadCount = 0; X.outPos = 0;
    if (MT(cctx)) { running = 1; if (IN(int) & 1) finish_job(); else if (IN(int) & 1) X.asyncRes = X.asyncRes; }
    else finish_job();
    return X.asyncRes;
}
#endif
#ifdef STUB_INTERNAL
static unsigned ninternal; static int int_end;
/* contract of FL2_compressStream_internal, proved in PART_INTERNAL */
static size_t FL2_compressStream_internal(FL2_CStream *const fcs, int const ending)
{
    CHECK(fcs == &X, "this stream"); ++ninternal; int_end = ending;
    if (running && fcs->timeout && (IN(int) & 1)) return FL2_ERROR(timedOut);
    if (running) finish_job();
    if (FL2_isError(fcs->asyncRes)) return fcs->asyncRes;
    if (fcs->outThread == fcs->threadCount && d_unproc) {
        d_unproc = 0; X.outThread = 0; X.threadCount = 0; X.outPos = 0;
        if (MT(fcs)) running = 1; else finish_job();
        return X.asyncRes;
    }
    return 0;
}
#endif
#ifdef STUB_TABLE
static size_t tab_u;
static void second_pass(void);
BYTE *RMF_getTableAsOutputBuffer(FL2_matchTable *const tbl, size_t const pos)
{
    CHECK(tbl == X.matchTable, "this stream's table");
    if (ntab++ == 1) { second_pass(); ASSUME(0); }
    return table_mem;
}
#endif
#ifdef STUB_COPY
static unsigned ncopy; static FL2_outBuffer *the_output; static size_t copied;
/* contract of FL2_copyCStreamOutput, proved in PART_COPY */
FL2LIB_API size_t FL2LIB_CALL FL2_copyCStreamOutput(FL2_CStream *fcs, FL2_outBuffer *output)
{
    CHECK(fcs == &X && output == the_output && output != NULL, "this stream's output"); ++ncopy;
    size_t n = IN(size_t), u = IN(size_t), p = IN(size_t); ASSUME(n <= output->size - output->pos && u >= X.outThread && u <= X.threadCount);
    ASSUME(u < X.threadCount ? (output->pos + n == output->size) : p == 0);
    output->pos += n; copied += n; X.outThread = u; X.outPos = p;
    return u < X.threadCount;
}
#endif
#ifdef STUB_INPUT
static unsigned ninput; static int input_moved;
static size_t FL2_compressStream_input(FL2_CStream *fcs, FL2_inBuffer *input)
{
    ++ninput; size_t n = IN(size_t); ASSUME(n <= input->size - input->pos); input->pos += n; input_moved = n != 0;
    if (FL2_isError(X.asyncRes)) return X.asyncRes;
    if (IN(int) & 1) return FL2_ERROR(timedOut);
    X.outThread = 0; X.outPos = 0; X.threadCount = IN(size_t); ASSUME(X.threadCount <= X.jobCount);
    return 0;
}
#endif
#ifdef STUB_CANCEL
static unsigned ncancel;
FL2LIB_API void FL2LIB_CALL FL2_cancelCStream(FL2_CStream *fcs) { CHECK(fcs == &X, "this stream"); ++ncancel; running = 0; fcs->dictMax = 0; fcs->asyncRes = 0; fcs->lockParams = 0; fcs->canceled = 0; }
#endif
#if defined(PART_BUFFER)
/* FL2_compressBuffer with its two loops annotated. Ghost: `used` = bytes of the source already given to the compressor as new data,
 * `made` = bytes already written to the destination. */
static const BYTE *SRC; static BYTE *DST; static size_t N, CAP, used, made, D0, OV, the_block, slice_done; static int first_block, the_prop, want_prop, outer_pass, inner_pass, over;
static size_t cur_total;
/* the job array is seen through the cell of the slice being written */
static FL2_job CJ; static size_t cell; static FL2_job *vf_job(size_t k) { CHECK(k == cell, "the slice being written"); return &CJ; }
#define VF_JOB(k) (*vf_job(k))
static int outer_inv(const BYTE *dstBuf, size_t srcSize, size_t dstCapacity, int streamProp)
{
    return srcSize == N - used && srcSize != 0 && used <= N && X.curBlock.data + X.curBlock.start == SRC + used && (X.curBlock.start == 0 || (X.curBlock.start == OV && used >= OV))
        && (X.curBlock.start == 0 || OV < D0) && dstBuf == DST + made && made <= CAP && dstCapacity == CAP - made && (first_block ? streamProp == want_prop && used == 0 && made == 0 : streamProp == -1);
}
#define VF_OUTER if (outer_pass++ == 0) { \
        CHECK(outer_inv(dstBuf, srcSize, dstCapacity, streamProp), "before the first block nothing is consumed or written"); \
        if (IN(int) & 1) { first_block = 0; used = IN(size_t); made = IN(size_t); srcSize = IN(size_t); dstCapacity = IN(size_t); dstBuf = DST + made; streamProp = IN(int); blockTotal = IN(size_t); \
            size_t vs_ = (IN(int) & 1) ? OV : 0; ASSUME(used < N && used >= vs_); X.curBlock.start = vs_; X.curBlock.data = SRC + used - vs_; } \
        ASSUME(outer_inv(dstBuf, srcSize, dstCapacity, streamProp)); \
    } else { CHECK(used == the_block, "every block starts where the previous one ended"); CHECK(outer_inv(dstBuf, srcSize, dstCapacity, streamProp), "each block takes the next source bytes and its output follows the previous block's"); REACH("next block"); ASSUME(0); }
#define VF_INNER if (inner_pass++ == 0) { \
        CHECK(u == 0, "starts with the first slice"); \
        if (IN(int) & 1) { u = IN(size_t); made = IN(size_t); dstCapacity = IN(size_t); dstBuf = DST + made; ASSUME(u < X.threadCount); } \
        slice_done = cell = u; CJ.cSize = IN(size_t); CJ.block.start = IN(size_t); ASSUME(made <= CAP && dstCapacity == CAP - made && dstBuf == DST + made); \
    } else { CHECK(u == slice_done, "slices are written in order, each once"); CHECK(made <= CAP && dstCapacity == CAP - made && dstBuf == DST + made, "the output position follows what was written"); REACH("next slice"); ASSUME(0); }
static size_t FL2_compressCurBlock(FL2_CCtx *const cctx, int const prop)
{
    CHECK(cctx == &X && prop == (first_block ? want_prop : -1), "the property goes with the first block"); CHECK(X.curBlock.end <= D0, "a block does not exceed the dictionary"); CHECK(X.curBlock.start < X.curBlock.end, "a block has new data");
    CHECK(X.curBlock.data + X.curBlock.start == SRC + used && X.curBlock.end - X.curBlock.start <= N - used, "the block is the next part of the source");
    CHECK(X.curBlock.data >= SRC, "the history kept is inside the source");
    CHECK(X.curBlock.end == D0 || X.curBlock.data + X.curBlock.end == SRC + N, "a block is short only at the end of the source");
    used += X.curBlock.end - X.curBlock.start; the_block = used; inner_pass = 0; first_block = 0;
    if (IN(int) & 1) { size_t e = IN(size_t); ASSUME(FL2_isError(e)); return e; }
    X.threadCount = IN(size_t); ASSUME(X.threadCount >= 1 && X.threadCount <= X.jobCount); return 0;
}
static size_t tab_pos; static int tab_valid;
BYTE *RMF_getTableAsOutputBuffer(FL2_matchTable *const tbl, size_t const pos) { CHECK(tbl == X.matchTable, "this table"); CHECK(pos == CJ.block.start, "the output of this slice"); tab_valid = 1; return table_mem; }
static void *buf_cpy(void *d, const void *s, size_t n)
{
    CHECK(tab_valid && s == table_mem && n == CJ.cSize, "copies the slice"); tab_valid = 0;
    CHECK((BYTE*)d == DST + made && n <= CAP - made, "never writes past the capacity"); made += n; ++slice_done; return d;
}
#undef memcpy
#define memcpy(d, s, n) buf_cpy(d, s, n)
/* overlap: (d / 16) * fraction with a fraction of at most 14 is less than the dictionary */
#undef OVERLAP_FROM_DICT_SIZE
static size_t vf_overlap(size_t d, unsigned f) { CHECK(d == D0 && f == X.params.rParams.overlap_fraction, "the overlap in force"); return OV; }
#define OVERLAP_FROM_DICT_SIZE(d, f) vf_overlap(d, f)
#endif
#ifdef STUB_WRITEEND
/* contract of FL2_writeEnd, proved in PART_WRITEEND */
static void FL2_writeEnd(FL2_CStream *const fcs)
{
    CHECK(fcs == &X && !running, "the end is not written while compression is underway"); ++nend;
    if (X.outThread == X.threadCount) { X.outThread = 0; X.threadCount = 1; }
    X.endMarked = 1; X.wroteProp = 1; X.dictMax = 0; X.asyncRes = 0; X.lockParams = 0;
}
#endif
/* contract of LZMA2_getDictSizeProp, proved in C04: a property from 0 to 40, the smallest one for nothing */
static BYTE the_size_prop(size_t n) { static size_t n0; static BYTE p0; static int set; if (set && n == n0) return p0; BYTE p = IN(BYTE); ASSUME(p <= 40); if (n == 0) p = 0; if (!set) { set = 1; n0 = n; p0 = p; } return p; }
BYTE LZMA2_getDictSizeProp(size_t const dictionary_size) { return the_size_prop(dictionary_size); }
#include "fl2_common.c"
#include "x_fl2_compress.c"
#undef memcpy

#if defined(PART_COPY)
static FL2_outBuffer out; static struct { size_t outPos, threadCount, asyncRes; BYTE lockParams, endMarked; } X0; static size_t pos0, n0, u0;
static void second_pass(void)
{   /* reached only if the slice was finished: the invariant holds again for the next slice */
    CHECK(X.outThread == u0 + 1 && X.outThread < X.threadCount && X.outPos == 0 && out.pos == pos0 + n0, "the next slice starts from its beginning, right behind in the output");
    CHECK(ncp == 1, "each byte is copied once");
}
void harness(void)
{
    BYTE *dst = table_mem; arbitrary(); X.matchTable = NULL;
    out.dst = dst; out.size = IN(size_t); out.pos = IN(size_t); ASSUME(out.pos <= out.size && out.size <= (size_t)1 << 40);
    u0 = X.outThread; pos0 = out.pos; X0.outPos = X.outPos; X0.threadCount = X.threadCount; X0.asyncRes = X.asyncRes; X0.lockParams = X.lockParams; X0.endMarked = X.endMarked; size_t const size0 = out.size;
    size_t const left = u0 < X.threadCount ? X.jobs[u0].cSize - X.outPos : 0; n0 = left < out.size - out.pos ? left : out.size - out.pos;
    ASSUME(X.jobs[u0 < FL2_MAXTHREADS ? u0 : 0].cSize <= (size_t)1 << 40);
    size_t const r = FL2_copyCStreamOutput(&X, &out);
    CHECK(out.size == size0 && out.dst == dst, "the caller's buffer description keeps its size and address");
    CHECK(X.threadCount == X0.threadCount && X.asyncRes == X0.asyncRes && X.lockParams == X0.lockParams && X.endMarked == X0.endMarked, "only the output position moves");
    if (u0 == X0.threadCount) { CHECK(r == 0 && ncp == 0 && out.pos == pos0 && X.outPos == 0 && X.outThread == u0, "nothing to copy"); REACH("empty"); return; }
    CHECK(ncp == 1 && cp[0].d == dst + pos0 && cp[0].s == table_mem + X0.outPos && cp[0].n == n0, "copies the next bytes of the slice to the output position, as many as fit");
    CHECK(out.pos == pos0 + n0 && out.pos <= out.size, "the output position advances by what was written");
    if (r) { CHECK(X.outThread == u0 && X.outPos == X0.outPos + n0 && X.outPos < X.jobs[u0].cSize && out.pos == out.size, "data is left only if the output is full"); REACH("full"); }
    else { CHECK(X.outThread == u0 + 1 && X.outThread == X.threadCount && X.outPos == 0 && n0 == left, "0 means all is copied"); REACH("done"); }
}
#elif defined(PART_REMAIN)
static size_t S[FL2_MAXTHREADS + 1];
void harness(void)
{
    arbitrary(); ASSUME(X.jobCount <= NJOBS);
    for (unsigned i = 0; i < NJOBS; ++i) { ASSUME(X.jobs[i].cSize <= (size_t)1 << 40); S[i + 1] = S[i] + (i < X.threadCount && i >= X.outThread ? X.jobs[i].cSize : 0); }
    size_t const r = FL2_remainingOutputSize(&X);
    if (FL2_isError(X.asyncRes)) { CHECK(r == X.asyncRes, "a failure is reported"); REACH("failed"); return; }
    CHECK(r == S[NJOBS] - X.outPos, "exactly what is left to be copied"); REACH("size");
}
#elif defined(PART_WAIT)
void harness(void)
{
    arbitrary(); size_t const u0 = X.outThread, a0 = X.asyncRes; ASSUME(a0 == 0 || (FL2_isError(a0) && !FL2_isTimedOut(a0)));
    size_t const r = FL2_waitCStream(&X);
    if (FL2_isTimedOut(r) && !FL2_isTimedOut(a0)) { CHECK(running && X.timeout, "timed out only while compression is underway with a timeout set"); CHECK(X.asyncRes == a0 && X.outThread == u0, "nothing changed"); REACH("timed out"); return; }
    CHECK(!running, "no job is underway after a wait");
    if (FL2_isError(r)) { CHECK(r == X.asyncRes, "the job's failure is reported"); REACH("failed"); return; }
    CHECK(X.asyncRes == 0 && r == (X.outThread < X.threadCount) && X.outThread == u0, "tells whether output exists"); REACH("done");
}
#elif defined(PART_INTERNAL)
void harness(void)
{
    arbitrary(); d_unproc = IN(int) & 1; int const ending = IN(int) & 1, unproc = d_unproc; ASSUME(X.asyncRes == 0 || FL2_isError(X.asyncRes)); ASSUME(!FL2_isTimedOut(X.asyncRes));
    ASSUME(X.wroteProp <= 1 && X.params.omitProp <= 1 && X.params.rParams.dictionary_size <= (size_t)1 << 30 && X.dictMax <= (size_t)1 << 30);
    BYTE const wrote = X.wroteProp; size_t const dm = X.dictMax; U64 const total = X.streamTotal; size_t const cs = X.curBlock.start, ce = X.curBlock.end;
    size_t const r = FL2_compressStream_internal(&X, ending);
    CHECK(nwait >= 1, "waits for the block being compressed first");
    if (FL2_isTimedOut(r)) { CHECK(nblock == 0 && ncomp == 0 && d_unproc == unproc && X.wroteProp == wrote && X.curBlock.start == cs && X.curBlock.end == ce && X.streamTotal == total, "nothing is taken when the wait times out"); REACH("timed out"); return; }
    CHECK(nblock == ncomp && nblock <= 1, "a block taken is compressed, once");
    if (nblock) {
        CHECK(the_prop == -1 || (!wrote && !X.params.omitProp && X.wroteProp == 1), "the property byte goes in front of the first block only");
        CHECK(wrote || X.params.omitProp || the_prop >= 0, "the property byte is written with the first block unless omitted");
        if (the_prop >= 0) CHECK(the_prop <= 0xFF && (the_prop >> 7) == (X.params.doXXH != 0), "property byte with the hash bit");
        CHECK(X.streamTotal == total + (ce - cs), "progress counts the finished block");
        CHECK(unproc, "only new data is compressed"); REACH("block");
    }
    else { CHECK(FL2_isError(r) || !unproc || X.outThread < X.threadCount, "new data is compressed unless output is waiting"); CHECK(X.wroteProp == wrote, "no property without a block"); REACH("no block"); }
    CHECK(r == 0 || FL2_isError(r), "success or an error"); CHECK(r != 0 || X.asyncRes == 0 || running, "a failed block is reported");
}
#elif defined(PART_INPUT) || defined(PART_GETDICT) || defined(PART_UPDATEDICT)
void harness(void)
{
    arbitrary(); d_unproc = IN(int) & 1; d_avail = IN(size_t); ASSUME(d_avail != 0 || d_unproc || 1); ASSUME(X.asyncRes == 0 || FL2_isError(X.asyncRes)); ASSUME(!FL2_isTimedOut(X.asyncRes));
    size_t const a0 = X.asyncRes;
#if defined(PART_INPUT)
    FL2_inBuffer in; in.src = table_mem; in.size = IN(size_t); in.pos = IN(size_t); ASSUME(in.pos <= in.size); size_t const p0 = in.pos, z0 = in.size; the_input = &in; in_pos0 = p0;
    size_t const r = FL2_compressStream_input(&X, &in);
    CHECK(in.src == table_mem && in.size == z0 && in.pos >= p0 && in.pos <= in.size, "the input position only grows, up to the size");
    CHECK(in.pos == p0 || nput, "input is consumed only by the buffer");
    if (r) { CHECK(FL2_isError(r), "nonzero is an error"); REACH("error"); return; }
    CHECK(in.pos == in.size || X.outThread < X.threadCount || d_avail == 0 || running, "stops early only if output is waiting");
    REACH("ok");
#elif defined(PART_GETDICT)
    FL2_dictBuffer d; size_t const r = FL2_getDictionaryBuffer(&X, &d);
    if (!X.lockParams && ninternal == 0 && nshift == 0) { CHECK(FL2_isError(r), "only for a stream underway"); REACH("no stream"); return; }
    if (r) { CHECK(FL2_isError(r) && nshift == 0, "an error gives no buffer"); REACH("error"); return; }
    CHECK(nshift == 1 && d.dst == table_mem, "hands out the space behind the data"); REACH("ok");
#else
    size_t const r = FL2_updateDictionary(&X, IN(size_t));
    CHECK(FL2_isError(r) || r == (X.outThread < X.threadCount), "tells whether output exists"); REACH("ok");
#endif
}
#elif defined(PART_NEXT)
static void second_pass(void) { CHECK(0, "one slice per call"); }
void harness(void)
{
    FL2_cBuffer b; arbitrary(); X.matchTable = NULL; ASSUME(X.asyncRes == 0 || FL2_isError(X.asyncRes)); ASSUME(!FL2_isTimedOut(X.asyncRes));
    size_t const r = FL2_getNextCompressedBuffer(&X, &b);
    if (FL2_isError(r) && (FL2_isTimedOut(r) || FL2_isError(X.asyncRes))) { CHECK(b.size == 0 && b.src == NULL && ntab == 0, "no buffer on error"); REACH("error"); return; }
    CHECK(!running, "the slices are complete");
    CHECK(r == b.size, "returns the size"); CHECK(X.outPos == 0 && X.outThread <= X.threadCount, "the next slice starts at its beginning");
    if (!ntab) { CHECK(b.size == 0 && b.src == NULL && X.outThread == X.threadCount, "nothing left"); REACH("none"); return; }
    REACH("slice");
}
#elif defined(PART_NEXT2)
static void second_pass(void) { CHECK(0, "one slice per call"); }
void harness(void)
{   /* the rest of the first waiting slice, not counting what is already copied */
    FL2_cBuffer b; arbitrary(); X.matchTable = NULL; ASSUME(!running && X.asyncRes == 0 && X.outThread < X.threadCount);
    size_t const u = X.outThread, p = X.outPos, c = X.jobs[u].cSize;
    size_t const r = FL2_getNextCompressedBuffer(&X, &b);
    CHECK(b.src == table_mem + p && b.size == c - p && r == b.size, "exactly the bytes of the slice which are not copied yet");
    CHECK(X.outThread == u + 1 && X.outPos == 0, "and then the next slice"); REACH("slice");
}
#elif defined(PART_STREAM)
void harness(void)
{
    arbitrary(); FL2_outBuffer out, *o = IN(int) & 1 ? &out : NULL; FL2_inBuffer in; the_output = &out;
    in.src = table_mem; in.size = IN(size_t); in.pos = IN(size_t); out.dst = table_mem; out.size = IN(size_t); out.pos = IN(size_t); ASSUME(in.pos <= in.size && out.pos <= out.size);
    size_t const i0 = in.pos, o0 = out.pos, os = out.size, is = in.size; ASSUME(X.asyncRes == 0 || FL2_isError(X.asyncRes)); ASSUME(!FL2_isTimedOut(X.asyncRes)); BYTE const lock = X.lockParams, lc = X.loopCount;
    size_t const r = FL2_compressStream(&X, o, &in);
    CHECK(out.size == os && in.size == is && in.pos >= i0 && in.pos <= is && out.pos >= o0 && out.pos <= os, "positions only grow, up to the size");
    CHECK(out.pos == o0 + copied, "the output position moves only by what was copied");
    if (!lock) { CHECK(FL2_isError(r) && ninput == 0 && ncopy == 0, "not before initialisation"); REACH("init missing"); return; }
    if (FL2_isError(r)) { REACH("error"); return; }
    CHECK(ninput == 1, "takes input once"); CHECK(r == (X.outThread < X.threadCount), "tells whether output is waiting");
    CHECK(!r || o == NULL || out.pos == os || ncopy == 0, "output is left only if the buffer is full");
    CHECK(!(in.pos == i0 && (o == NULL || out.pos == o0)) || X.loopCount == (BYTE)(lc + 1), "calls without progress are counted");
    REACH("ok");
}
#elif defined(PART_FLUSH) || defined(PART_ENDSTREAM)
static unsigned nwend; static size_t w_end(void) { return 0; }
void harness(void)
{
    arbitrary(); FL2_outBuffer out, *o = IN(int) & 1 ? &out : NULL; the_output = &out; d_unproc = IN(int) & 1;
    out.dst = table_mem; out.size = IN(size_t); out.pos = IN(size_t); ASSUME(out.pos <= out.size);
    size_t const o0 = out.pos, os = out.size; ASSUME(X.asyncRes == 0 || FL2_isError(X.asyncRes)); ASSUME(!FL2_isTimedOut(X.asyncRes)); ASSUME(X.endMarked <= 1); BYTE const lock = X.lockParams, em = X.endMarked;
#ifdef PART_FLUSH
    size_t const r = FL2_flushStream(&X, o);
    int const allowed = lock;
#else
    size_t const r = FL2_endStream(&X, o);
    int const allowed = lock || em;
#endif
    CHECK(out.size == os && out.pos == o0 + copied && out.pos <= os, "the output position moves only by what was copied");
    if (!allowed) { CHECK(FL2_isError(r) && ninternal == 0 && ncopy == 0, "not before initialisation"); REACH("init missing"); return; }
    CHECK(ninternal <= 1, "compresses at most one block");
    if (FL2_isError(r)) {
#ifdef PART_ENDSTREAM
        CHECK(nend == 0 || ncancel, "the end is not written by a call that fails");
#endif
        REACH("error"); return; }
    CHECK(r <= 1, "0 or 1");
#ifdef PART_FLUSH
    CHECK(int_end == 0 && nend == 0, "no end marker"); CHECK(r == (X.outThread < X.threadCount), "tells whether output is waiting");
#else
    CHECK(int_end == 1, "the last block"); CHECK(!running, "endStream waits for compression");
    CHECK(nend == (!em && !d_unproc), "the end is written exactly once, after all data is compressed");
    CHECK(r || (X.outThread == X.threadCount && !d_unproc && X.endMarked), "0 only when the whole stream is copied, including its end");
#endif
    REACH("ok");
}
#elif defined(PART_WRITEEND)
XXH32_hash_t DICT_getDigest(const DICT_buffer *const buf) { CHECK(buf == &X.buf, "hash of this stream"); return 0xA1B2C3D4u; }
void XXH32_canonicalFromHash(XXH32_canonical_t *dst, XXH32_hash_t h) { dst->digest[0] = h >> 24; dst->digest[1] = h >> 16; dst->digest[2] = h >> 8; dst->digest[3] = h; }   /* contract proved in C07 */
static size_t the_thread; static BYTE room[16];
BYTE *RMF_getTableAsOutputBuffer(FL2_matchTable *const tbl, size_t const pos)
{
    CHECK(tbl == X.matchTable, "this stream's table"); ++ntab;
    CHECK(pos == X.jobs[the_thread].block.start, "the last slice"); return room - X.jobs[the_thread].cSize;
}
void harness(void)
{
    arbitrary(); ASSUME(!running && X.threadCount >= 1 || X.outThread == X.threadCount); ASSUME(X.params.omitProp <= 1 && X.params.doXXH <= 1 && X.wroteProp <= 1);
    ASSUME(X.jobs[0].block.start < (1u << 30));
    int const fresh = X.outThread == X.threadCount; the_thread = fresh ? 0 : X.threadCount - 1; if (!fresh) ASSUME(X.jobs[the_thread].cSize <= (size_t)1 << 40);
    size_t const c0 = fresh ? 0 : X.jobs[the_thread].cSize, t0 = X.threadCount, o0 = X.outThread, p0 = X.outPos; BYTE const wrote = X.wroteProp; size_t const dm = X.dictMax;
    FL2_writeEnd(&X);
    size_t n = 0;
    if (!wrote && !X.params.omitProp) { CHECK(room[0] == (X.params.doXXH << 7), "property byte of an empty stream"); n = 1; }
    CHECK(room[n] == 0, "end marker"); ++n;
    if (X.params.doXXH && !X.params.omitProp) { CHECK(room[n] == 0xA1 && room[n + 1] == 0xB2 && room[n + 2] == 0xC3 && room[n + 3] == 0xD4, "content hash, big endian"); n += 4; }
    CHECK(X.jobs[the_thread].cSize == c0 + n, "appended to the last slice");
    CHECK(fresh ? (X.outThread == 0 && X.threadCount == 1 && X.outPos == 0) : (X.outThread == o0 && X.threadCount == t0 && X.outPos == p0), "slices not yet copied stay");
    CHECK(X.endMarked == 1 && X.wroteProp >= wrote && X.lockParams == 0, "the stream is complete and the parameters are free"); REACH("end");
}
#elif defined(PART_BUFFER)
void harness(void)
{
    __CPROVER_havoc_object(&X); X.jobs = J; X.matchTable = NULL; first_block = 1;
    ASSUME(X.jobCount >= 1 && X.jobCount <= FL2_MAXTHREADS && X.params.omitProp <= 1);
    D0 = X.params.rParams.dictionary_size; ASSUME(D0 >= 1 << 20 && D0 <= (size_t)1 << 30); ASSUME(X.params.rParams.overlap_fraction <= 14); ASSUME(X.params.cParams.reset_interval <= 16);
    OV = IN(size_t); ASSUME(OV < D0);
    N = IN(size_t); CAP = IN(size_t); ASSUME(N <= (size_t)1 << 40 && CAP <= (size_t)1 << 40); SRC = table_mem + 64; DST = table_mem + 128;
    BYTE const hashbit = (BYTE)((X.params.doXXH != 0) << 7);
    want_prop = X.params.omitProp ? -1 : -2;
    if (!X.params.omitProp) want_prop = the_size_prop(N < D0 ? N : D0) | hashbit;
    size_t const r = FL2_compressBuffer(&X, SRC, N, DST, CAP);
    if (N == 0) { CHECK(r == 0 && outer_pass == 0, "nothing to compress"); REACH("empty"); return; }
    if (FL2_isError(r)) { REACH("error"); return; }
    CHECK(used == N, "the whole source is compressed"); CHECK(slice_done == X.threadCount, "every slice of the last block is written"); CHECK(r == made && made <= CAP, "returns the bytes written"); REACH("done");
}
#endif
