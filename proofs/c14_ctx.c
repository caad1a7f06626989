/* fl2_compress.c, included whole: starting, slicing and finishing a compression on a context in any state.
 * The trailing array FL2_job jobs[1] becomes a pointer to an array of its largest size (FL2_MAXTHREADS) in the extraction.
 * Callees outside the file meet the contracts below. Ghost state: `running` = the compression thread works on a block. */
#include "vf.h"
#include <string.h>
#include <stdlib.h>
#include "mem.h"
#include "fl2_internal.h"
#include "fl2_errors.h"
#include "fl2_compress_internal.h"
static FL2_CCtx X, X0; static FL2_job J[FL2_MAXTHREADS]; static int running, compat; static BYTE TBL[1], TBL2[1], SRC[1];
static unsigned nlevel, nfreed, ncreated, napplied, nalloc, nbegin, nhash, ndict, ndest; static size_t reduce_want; static int level_given;
#define NEWTABLE ((FL2_matchTable*)(void*)TBL2)
static unsigned g;
static void arbitrary(void)
{
    __CPROVER_havoc_object(&X); __CPROVER_havoc_object(J); X.jobs = J; running = IN(int) & 1; compat = IN(int) & 1; g = IN(unsigned);
    ASSUME(X.jobCount >= 1 && X.jobCount <= FL2_MAXTHREADS && g < X.jobCount); X.matchTable = (IN(int) & 1) ? (FL2_matchTable*)(void*)TBL : NULL;
    ASSUME(!running || X.compressThread != NULL); ASSUME(X.params.omitProp <= 1 && X.params.rParams.dictionary_size <= (size_t)1 << 30 && X.params.rParams.overlap_fraction <= 14);
}
#if defined(PART_CCTX) || defined(PART_INIT)
/* contract of the pool, proved in C19 */
static void finish_job(void) { size_t e = IN(size_t); ASSUME(e == 0 || FL2_isError(e)); X.asyncRes = e; if (!e) { X.threadCount = IN(size_t); ASSUME(X.threadCount >= 1 && X.threadCount <= X.jobCount); } running = 0; }
int FL2POOL_waitAll(void *ctx, unsigned timeout) { CHECK(ctx == X.compressThread, "waits for the compression thread"); if (running) { CHECK(timeout == 0, "waits until it is done"); finish_job(); } return 0; }
void FL2POOL_free(FL2POOL_ctx *ctx) { CHECK(ctx == X.compressThread, "the compression thread"); if (running) finish_job(); }
void RMF_cancelBuild(FL2_matchTable *const tbl) { CHECK(tbl == X.matchTable, "this table"); }
/* contracts of radix_mf.c (proofs/c14_rmf.c) */
static void same_params(const RMF_parameters *p, size_t reduce) { CHECK(p == &X.params.rParams, "the parameters in force"); CHECK(reduce == reduce_want, "the table is sized for this source"); CHECK(!running, "the table is not touched while it is in use"); CHECK(nlevel == (level_given > 0), "the level given is applied before anything is sized"); }
BYTE RMF_compatibleParameters(const FL2_matchTable *const tbl, const RMF_parameters *const p, size_t const reduce) { CHECK(tbl == X.matchTable && tbl != NULL, "this table"); same_params(p, reduce); return (BYTE)compat; }
void RMF_freeMatchTable(FL2_matchTable *const tbl) { CHECK(tbl == X.matchTable && !running, "the table is free to go"); CHECK(!compat || nfreed, "a table that fits is kept"); ++nfreed; }
FL2_matchTable *RMF_createMatchTable(const RMF_parameters *const p, size_t const reduce, unsigned const n) { same_params(p, reduce); CHECK(n == X.jobCount, "one builder per thread"); ++ncreated; return (IN(int) & 1) ? NEWTABLE : NULL; }
size_t RMF_applyParameters(FL2_matchTable *const tbl, const RMF_parameters *const p, size_t const reduce) { CHECK(tbl == X.matchTable && tbl && compat, "only a table that fits is kept"); same_params(p, reduce); ++napplied; return (IN(int) & 1) ? FL2_ERROR(memory_allocation) : 0; }
void RMF_initProgress(FL2_matchTable *const tbl) { CHECK(tbl == X.matchTable, "this table"); }
static int FL2_initEncoders(FL2_CCtx *const cctx) { CHECK(cctx == &X && !running, "the encoders are not touched while in use"); CHECK(nlevel == (level_given > 0), "the level given is applied before the encoders are prepared"); ++nalloc; return IN(int) & 1; }
/* contract of FL2_CCtx_setParameter, proved in C06 */
FL2LIB_API size_t FL2LIB_CALL FL2_CCtx_setParameter(FL2_CCtx *c, FL2_cParameter param, size_t value)
{
    CHECK(c == &X && param == FL2_p_compressionLevel && value == (size_t)level_given && level_given > 0, "only the level given is set"); CHECK(!X.lockParams, "the level given is not refused"); CHECK(!running, "parameters do not change while in use"); ++nlevel;
    X.params.rParams.dictionary_size = IN(size_t); X.params.rParams.overlap_fraction = IN(unsigned); ASSUME(X.params.rParams.dictionary_size <= (size_t)1 << 30 && X.params.rParams.overlap_fraction <= 14); X.params.cParams.second_dict_bits = IN(unsigned); return 0;
}
static void begun(void)
{
    CHECK(X.asyncRes == 0 && X.outThread == 0 && X.threadCount == 0 && X.outPos == 0, "nothing is left of an earlier result"); CHECK(X.dictMax == 0 && X.streamTotal == 0 && X.streamCsize == 0 && X.progressIn == 0 && X.progressOut == 0, "counters start at zero");
    CHECK(X.curBlock.start == 0 && X.curBlock.end == 0, "no block is pending"); CHECK(X.lockParams == 1, "parameters are locked during compression"); CHECK(!running, "no earlier compression is underway");
    CHECK(X.matchTable != NULL && napplied + ncreated == 1 && nalloc == 1 && nlevel == (level_given > 0), "encoders and match table are set up for the parameters in force");
    CHECK(napplied ? X.matchTable == X0.matchTable && !nfreed : X.matchTable == NEWTABLE && (X0.matchTable == NULL || nfreed == 1), "the table is the one just set up and an unsuitable one is released once");
}
#endif
#ifdef PART_CCTX
static size_t CAP, N, CS; static BYTE *DST; 
static size_t FL2_compressBuffer(FL2_CCtx *const c, const void *const src, size_t srcSize, void *const dst, size_t dstCapacity)
{
    CHECK(c == &X && src == SRC && srcSize == N && dst == DST && dstCapacity == CAP, "the whole source goes to the destination"); ++nbegin; begun();
    X.asyncRes = IN(size_t); X.threadCount = IN(size_t); X.dictMax = IN(size_t);
    return CS;
}
XXH32_hash_t XXH32(const void *in, size_t len, unsigned seed) { CHECK(in == SRC && len == N && seed == 0, "the hash is over the whole source"); ++nhash; return 0xA1B2C3D4u; }
void XXH32_canonicalFromHash(XXH32_canonical_t *dst, XXH32_hash_t h) { dst->digest[0] = h >> 24; dst->digest[1] = h >> 16; dst->digest[2] = h >> 8; dst->digest[3] = h; }   /* contract proved in C07 */
BYTE LZMA2_getDictSizeProp(size_t const d) { CHECK(d == 0, "an empty stream needs no dictionary"); return 0; }
#endif
#ifdef PART_INIT
static size_t dict_size;
size_t DICT_size(const DICT_buffer *const b) { CHECK(b == &X.buf && !running, "this buffer"); return dict_size; }
void DICT_destruct(DICT_buffer *const b) { CHECK(b == &X.buf && !running, "the buffer is released only when unused"); ++ndest; }
int DICT_init(DICT_buffer *const b, size_t const dictSize, size_t const overlap, unsigned const reset, int const doHash)
{
    CHECK(b == &X.buf && !running, "the buffer is not in use"); CHECK(nlevel == (level_given > 0), "the level given comes first"); ++ndict;
    CHECK(dictSize == X.params.rParams.dictionary_size && overlap == (dictSize >> 4) * X.params.rParams.overlap_fraction && reset == X.params.cParams.reset_interval, "the buffer is set up for the parameters in force");
    CHECK((doHash != 0) == (X.params.doXXH && !X.params.omitProp), "content is hashed if a hash is to be written"); return IN(int) & 1;
}
#endif
#ifdef PART_ENC
static unsigned pass; static int fail;
int LZMA2_hashAlloc(LZMA2_ECtx *const enc, const FL2_lzma2Parameters *const options) { CHECK(enc == X.jobs[g].enc && options == &X.params.cParams, "each encoder gets the parameters in force"); fail = IN(int) & 1; return fail ? 1 : 0; }
#define VF_ENC if (pass++ == 0) { CHECK(u == 0, "starts with the first encoder"); if (IN(int) & 1) u = g; else ASSUME(g == 0); } else { CHECK(u == g + 1 && !fail, "the next encoder, unless one failed"); REACH("next"); u = X.jobCount; break; }
#else
#define VF_ENC
#endif
#if defined(PART_BLOCK) || defined(PART_SLICE)
/* slices: ghost index g is an arbitrary slice; the loop that sets them is verified for one arbitrary slice */
/* The array of jobs is seen through four cells: the first, the ghost g, the last, and all others (whose content nothing is claimed about). */
static FL2_job C0, CG, CL, CO; static size_t NB;
#ifdef PART_BLOCK
static FL2_job *vf_job(size_t k) { CHECK(k < X.jobCount, "a job there is an encoder for"); return k == 0 ? &C0 : k == g ? &CG : k == NB - 1 ? &CL : &CO; }
#else
static FL2_job *vf_job(size_t k) { CHECK(k == g, "this job"); return &CG; }
#endif
#define VF_JOB(k) (*vf_job(k))
static size_t S0, E0; static unsigned pass, rpass, ninit, nbuild, nenc, nwait, queued, nb_range, nb_enc; static int prop_want; static size_t range_end;
static size_t SZ, MG, MN;
/* k * SZ for the numbers k that matter: 0, 1, g-1..g+1, NB-1, NB. The facts of multiplication used are the ones assumed in vf_div. */
static size_t mul(size_t k) { return k == 0 ? 0 : k == g ? MG : k == g + 1 ? MG + SZ : k == NB ? MN : k == NB - 1 ? MN - SZ : k == g - 1 ? MG - SZ : SZ; }
/* quotient of a block and a number of threads, by the definition of division */
#ifdef VF_CBMC
static size_t vf_div(size_t e, size_t n)
{
    CHECK(n >= 1 && n <= X.jobCount, "at least one slice, at most one per job"); SZ = IN(size_t); MG = IN(size_t); MN = IN(size_t); NB = n;
    ASSUME(SZ <= e && MN <= e && e - MN < n && SZ <= MN); ASSUME(MG <= (size_t)1 << 40);                       /* MN == NB * SZ */
    ASSUME(NB != 1 || MN == SZ); ASSUME(g != 0 || MG == 0); ASSUME(g != 1 || MG == SZ); ASSUME(g + 1 != NB || MG + SZ == MN); ASSUME(g + 1 >= NB || MG + SZ <= MN - SZ); ASSUME(g < 1 || MG >= SZ);   /* MG == g * SZ */
    ASSUME(e < n || SZ >= 1); return SZ;
}
#define VF_DIV(e, n) vf_div(e, n)
static size_t vf_divc(size_t e, size_t n) { size_t q = IN(size_t); ASSUME(q <= e && q * n <= e && e - q * n < n); return q; }   /* by a constant; e is at most 2^30 */
#define VF_DIVC(e, n) vf_divc(e, n)
#else
#define VF_DIV(e, n) ((e) / (n))
#define VF_DIVC(e, n) ((e) / (n))
#endif
static int slice_ok(size_t k) { return VF_JOB(k).block.data == X.curBlock.data && VF_JOB(k).block.start == S0 + mul(k) && VF_JOB(k).block.end == (k + 1 == NB ? E0 : S0 + mul(k + 1)); }
#define VF_SLICE if (pass++ == 0) { \
        CHECK(u == 1 && sliceStart == S0 && NB >= 1 && NB <= X.jobCount && MN <= E0 - S0 && sliceSize == SZ && NB == nbThreads, "the slices fit the block"); \
        CHECK(VF_JOB(0).block.data == X.curBlock.data && VF_JOB(0).block.start == S0 && VF_JOB(0).block.end == S0 + SZ, "the first slice starts the new data"); \
        u = IN(size_t); ASSUME(u == NB || (u == g && g >= 1 && g < NB)); sliceStart = S0 + mul(u - 1); if (u == NB && g < NB && g) { VF_JOB(g).block.data = X.curBlock.data; VF_JOB(g).block.start = S0 + mul(g); VF_JOB(g).block.end = S0 + mul(g + 1); \
            VF_JOB(NB - 1).block.data = X.curBlock.data; VF_JOB(NB - 1).block.start = S0 + mul(NB - 1); VF_JOB(NB - 1).block.end = S0 + mul(NB); } \
        if (u == NB) break; u0_ = u; \
    } else { CHECK(u == u0_ + 1 && sliceStart == S0 + mul(u0_) && VF_JOB(u0_).block.data == X.curBlock.data && VF_JOB(u0_).block.start == S0 + mul(u0_) && VF_JOB(u0_).block.end == S0 + mul(u0_ + 1), "each slice follows the one before"); REACH("next slice"); ASSUME(0); }
static size_t u0_;
#define VF_RES if (rpass++ == 0) { CHECK(u == 0, "all results are looked at"); u = g; ASSUME(g < nbThreads); } else { CHECK(u == g + 1, "all results are looked at"); u = nbThreads; break; }
void RMF_initTable(FL2_matchTable *const tbl, const void *const data, size_t const end) { CHECK(tbl == X.matchTable && data == X.curBlock.data && end == X.curBlock.end, "the table is made for the whole block"); ++ninit; X.canceled = IN(int) & 1; }
void RMF_resetIncompleteBuild(FL2_matchTable *const tbl) { CHECK(tbl == X.matchTable, "this table"); }
size_t RMF_threadCount(const FL2_matchTable *const tbl) { return IN(size_t); }
static void FL2_buildRadixTable(void *const j, ptrdiff_t const n); static void FL2_compressRadixChunk(void *const j, ptrdiff_t const n);
static int in_pool;
void FL2POOL_addRange(void *ctx, FL2POOL_function fn, void *opaque, ptrdiff_t first, ptrdiff_t end)
{
    CHECK(ctx == X.factory && opaque == &X && first == 1, "the other jobs go to the pool"); CHECK(!queued, "one kind of job at a time"); queued = 1; in_pool = nbuild ? 2 : 1; range_end = (size_t)end;
    if (in_pool == 1) { CHECK(fn == FL2_buildRadixTable && ninit == 1, "the table is built first"); nb_range = (unsigned)end; }
    else { CHECK(fn == FL2_compressRadixChunk, "then the slices are compressed"); CHECK(pass > 0 || NB == 1 || 1, "slices"); CHECK((size_t)end == NB, "every slice has a job"); CHECK(g >= NB || slice_ok(g), "every slice follows the one before it and the last one ends the block"); }
}
int FL2POOL_waitAll(void *ctx, unsigned timeout) { CHECK(ctx == X.factory && timeout == 0, "waits until all is done"); ++nwait; queued = 0; if (in_pool == 2) { VF_JOB(g).cSize = IN(size_t); } return 0; }
static int build_err;
int RMF_buildTable(FL2_matchTable *const tbl, size_t const job, unsigned const multi, FL2_dataBlock const block)
{
    CHECK(tbl == X.matchTable && job == 0 && ninit == 1 && block.data == X.curBlock.data && block.start == X.curBlock.start && block.end == X.curBlock.end, "the table is built over this block"); CHECK(multi || !queued || range_end <= 1, "the builders know they are not alone"); ++nbuild; build_err = IN(int) & 1; return build_err;
}
size_t LZMA2_encode(LZMA2_ECtx *const enc, FL2_matchTable *const tbl, FL2_dataBlock const block, const FL2_lzma2Parameters *const options, int prop, FL2_atomic *const pin, FL2_atomic *const pout, int *const canceled)
{
#ifdef PART_BLOCK
    CHECK(nwait == 1 && nbuild == 1 && !build_err, "the table is complete before it is used"); size_t const k = 0;
#else
    size_t const k = g;
#endif
    CHECK(enc == VF_JOB(k).enc && tbl == X.matchTable && block.data == VF_JOB(k).block.data && block.start == VF_JOB(k).block.start && block.end == VF_JOB(k).block.end, "each encoder gets its own slice"); CHECK(options == &X.params.cParams && pin == &X.progressIn && pout == &X.progressOut && canceled == &X.canceled, "parameters and progress are this context's");
    CHECK(prop == prop_want, "the property byte goes in front of the first slice only"); ++nenc; return IN(size_t);
}
#else
#define VF_SLICE
#define VF_RES
#endif
#ifdef PART_CUR
static unsigned nadd, nblock_; static int prop_want; static size_t res_want;
static size_t FL2_compressCurBlock_blocking(FL2_CCtx *const c, int const prop) { CHECK(c == &X && prop == prop_want && !running, "compresses the block here"); CHECK(X.outThread == 0 && X.threadCount == 0 && X.outPos == 0, "no earlier output is left"); CHECK(X.canceled == 0, "not cancelled yet"); ++nblock_; res_want = IN(size_t); return res_want; }
static void FL2_compressCurBlock_async(void *const j, ptrdiff_t const n);
void FL2POOL_add(void *ctx, FL2POOL_function fn, void *opaque, ptrdiff_t n) { CHECK(ctx == X.compressThread && fn == FL2_compressCurBlock_async && opaque == &X && (int)n == prop_want, "the block is compressed by the compression thread"); CHECK(X.outThread == 0 && X.threadCount == 0 && X.outPos == 0 && X.canceled == 0, "no earlier output is left"); ++nadd; }
void RMF_initProgress(FL2_matchTable *const tbl) { CHECK(tbl == X.matchTable, "this table"); }
#endif
#include "fl2_common.c"
#include "x_fl2_compress.c"

#if defined(PART_CCTX)
void harness(void)
{
    arbitrary(); X0 = X; CS = IN(size_t); CAP = IN(size_t); N = IN(size_t); level_given = IN(int); reduce_want = N; ASSUME(level_given <= 10 && CAP <= (size_t)1 << 40);
    ASSUME(FL2_isError(CS) || CS <= CAP); ASSUME((N == 0) == (CS == 0)); DST = malloc(CAP);
    size_t const r = FL2_compressCCtx(&X, DST, CAP, SRC, N, level_given);
    unsigned const omit = X0.params.omitProp, hash = X0.params.doXXH && !omit; size_t const need = CS + 1 + (CS == 0 && !omit) + 4 * hash;
    if (CAP >= 2 - omit) CHECK(X.lockParams == 0 && X.asyncRes == 0 && !running && X.compressThread == NULL && X.timeout == 0, "whatever the outcome the context is free for the next call");
    if (FL2_isError(r)) {
        if (nbegin && !FL2_isError(CS)) { CHECK(r == FL2_ERROR(dstSize_tooSmall) && CAP < need, "fails only for lack of space"); REACH("no room"); }
        else if (nbegin) { CHECK(r == CS, "the failure is reported"); REACH("failed"); }
        else { CHECK(CAP < 2 - omit ? r == FL2_ERROR(dstSize_tooSmall) : r == FL2_ERROR(memory_allocation), "fails only for lack of space or memory"); REACH("not begun"); }
        return;
    }
    CHECK(nbegin == 1 && r == need && r <= CAP, "returns the bytes written"); size_t n = 0;
    if (CS == 0 && !omit) { CHECK(DST[CS] == (hash << 7), "property byte of an empty stream"); n = 1; }
    CHECK(DST[CS + n] == 0, "end marker"); ++n;
    if (hash) CHECK(nhash == 1 && DST[CS + n] == 0xA1 && DST[CS + n + 1] == 0xB2 && DST[CS + n + 2] == 0xC3 && DST[CS + n + 3] == 0xD4, "content hash, big endian");
    REACH("done");
}
#elif defined(PART_INIT)
void harness(void)
{
    arbitrary(); X0 = X; level_given = IN(int); reduce_want = 0; ASSUME(level_given <= 10); dict_size = IN(size_t);
    size_t const r = FL2_initCStream(&X, level_given);
    CHECK(!running, "nothing is underway after (re)initialisation");
    if (FL2_isError(r)) { CHECK(X.lockParams == 0, "a stream that could not be started does not lock its parameters"); CHECK(r == FL2_ERROR(memory_allocation), "fails only for lack of memory"); REACH("failed"); return; }
    CHECK(ndict == 1 && ndest == (dict_size < X.params.rParams.dictionary_size), "a buffer that is too small is replaced"); begun();
    CHECK(X.endMarked == 0 && X.wroteProp == 0 && X.loopCount == 0, "a fresh stream"); CHECK(X.compressThread == X0.compressThread && X.timeout == X0.timeout && X.jobCount == X0.jobCount && X.factory == X0.factory, "thread set-up stays");
    REACH("started");
}
#elif defined(PART_ENC)
void harness(void)
{
    arbitrary(); int const r = FL2_initEncoders(&X); CHECK((r != 0) == (fail != 0), "fails if an encoder cannot get memory"); if (r) { REACH("failed"); } else { REACH("done"); }
}
#elif defined(PART_BLOCK)
void harness(void)
{
    arbitrary(); prop_want = IN(int); S0 = X.curBlock.start; E0 = X.curBlock.end; ASSUME(S0 < E0 && E0 <= (size_t)1 << 30); X.curBlock.data = SRC; size_t const t0 = X.threadCount;
    size_t const r = FL2_compressCurBlock_blocking(&X, prop_want);
    CHECK(X.curBlock.start == S0 && X.curBlock.end == E0 && X.curBlock.data == SRC, "the block stays");
    CHECK(!queued, "no job is left in the pool");
    if (r == 0) {
        CHECK(nenc == 1 && ninit == 1 && nbuild == 1 && nwait == 2, "table, then slices, both waited for"); CHECK(X.threadCount == NB && NB >= 1 && NB <= X.jobCount, "the slices made are the ones output");
        CHECK(g >= NB || !FL2_isError(VF_JOB(g).cSize), "no slice failed"); REACH("done");
    } else { CHECK(FL2_isError(r) && X.threadCount == t0, "a failure is an error"); REACH("failed"); }
}
#elif defined(PART_SLICE)
void harness(void)
{
    arbitrary(); prop_want = -1; VF_JOB(g).cSize = 0; nwait = nbuild = 1; FL2_compressRadixChunk(&X, g); CHECK(nenc == 1, "compresses its slice"); REACH("done");
}
#elif defined(PART_CUR)
void harness(void)
{
    arbitrary(); running = 0; prop_want = IN(int); ASSUME(X.params.cParams.second_dict_bits <= 30 && X.params.cParams.fast_length >= 6 && X.params.cParams.fast_length <= 273 && X.params.rParams.depth <= 254 && X.params.cParams.strategy <= 2); ASSUME(X.curBlock.start <= X.curBlock.end && X.curBlock.end <= (size_t)1 << 30);
    X0 = X; size_t const r = FL2_compressCurBlock(&X, prop_want);
    CHECK(X.progressIn == 0 && X.progressOut == 0 && X.canceled == 0, "progress starts again");
    if (X0.curBlock.start == X0.curBlock.end) { CHECK(r == 0 && !nadd && !nblock_, "nothing to do"); REACH("empty"); return; }
    CHECK(X.dictMax >= X.curBlock.end && X.dictMax >= X0.dictMax && (X.dictMax == X.curBlock.end || X.dictMax == X0.dictMax), "the largest dictionary used is remembered");
    CHECK(nadd + nblock_ == 1 && (nadd != 0) == (X0.compressThread != NULL), "the block is compressed once"); CHECK(nadd ? r == X.asyncRes : r == res_want && X.asyncRes == res_want, "its result is reported");
    CHECK(X.rmfWeight + X.encWeight == 16, "progress weights add up"); REACH("done");
}
#elif defined(PART_BOUND)
void harness(void)
{   /* kChunkSize etc. are not visible here: the numbers are those of the chunk format. See DESIGN C05. */
}
#endif
