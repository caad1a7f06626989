/* The decoder above LZMA_decodeReal_3, function by function: each callee is replaced by the contract that its own part discharges
 * (LZMA_decodeReal_3 and LZMA_tryDummy: c02.c). See c02.c for the decoder invariant.
 * Ghost: h_full, g_init_n (number of probabilities initialised), g_fresh (none changed since), g_dummy (LZMA_tryDummy found the
 * next symbol complete in this very state). */
#include "vf.h"
/* an obligation is decided in groups: an assertion of another group is assumed, in program order, where it stands */
#ifdef VF_CBMC
#define GCHECK(g, c, t) do { if (!defined_group || GROUP == (g)) __CPROVER_assert((c), t); else ASSUME(c); } while (0)
#ifdef GROUP
#define defined_group 1
#else
#define defined_group 0
#define GROUP 0
#endif
#undef CHECK
#define CHECK(c, t) GCHECK(0, c, t)
#if GROUP != 0
#undef REACH
#define REACH(t)
#endif
#else
#define GCHECK(g, c, t) CHECK(c, t)
#define __CPROVER_r_ok(p, n) 1
#define __CPROVER_w_ok(p, n) 1
#endif
#define memcpy vf_memcpy
#define memset vf_memset
static void *vf_memcpy(void *d, const void *s, size_t n); static void *vf_memset(void *d, int c, size_t n);
#ifdef PART_REM
#define VF_REM rem_iter(&dic_pos, &len, (unsigned)rep0)
static void rem_iter(size_t *dic_pos, unsigned *len, unsigned rep0);
#else
#define VF_REM
#endif
#ifdef PART_REAL2
static void in_iter(size_t limit2); static void out_iter(void);
#define VF_R2_IN in_iter(limit2)
#define VF_R2_OUT out_iter()
#else
#define VF_R2_IN
#define VF_R2_OUT
#endif
#ifdef PART_TODIC
static void td_iter(const unsigned char **src, size_t *in_size, size_t *src_len);
#define VF_TD td_iter(&src, &in_size, src_len)
#else
#define VF_TD
#endif
#ifdef PART_L2
static void l2_iter(size_t *in_pos);
#define VF_L2 l2_iter(&in_pos)
#else
#define VF_L2
#endif
#ifdef PART_BUF
static void buf_iter(unsigned char **dest, size_t *out_size, size_t *in_size, const unsigned char **src, size_t *dest_len, size_t *src_len);
#define VF_BUF buf_iter(&dest, &out_size, &in_size, &src, dest_len, src_len)
#else
#define VF_BUF
#endif
#ifdef PART_SIZE
static void size_iter(size_t *pos, unsigned long long *total);
#define VF_SIZE size_iter(&pos, &unpack_total)
#else
#define VF_SIZE
#endif
#include "x_lzma2_dec.c"
unsigned FL2_isError(size_t code) { return code > (size_t)-FL2_error_maxCode; }   /* C17 */
static LZMA2_DCtx D; static int h_full, g_fresh, g_dummy; static U32 g_init_n; static size_t bs; static BYTE *dic;
#define HIST (D.check_dic_size ? D.check_dic_size : D.processed_pos)
#ifdef PART_REM
#define REPS_OK(h) (D.reps[0] >= 1 && D.reps[1] >= 1 && D.reps[2] >= 1 && D.reps[3] >= 1 && D.reps[0] <= (h) && D.reps[1] <= (h) && D.reps[2] <= (h) && D.reps[3] <= (h))
#else   /* shown for one arbitrary distance, so for each of them */
static unsigned gi;
#define REPS_OK(h) (D.reps[gi] >= 1 && D.reps[gi] <= (h))
#endif
#define HIST_OK(h, pos) ((h) <= (pos) || (h_full && (h) <= bs))
#define NPROBS (D.prop.lc + (U32)D.prop.lp)   /* the number of probabilities is a function of lc + lp */
/* the decoder invariant, clause by clause */
#define I_FRAME (D.dic == dic && D.dic_buf_size == bs && D.probs_1664 == D.probs + 1664)
#define I_PROP (D.prop.lc <= 4 && D.prop.lp <= 4 && D.prop.lc + D.prop.lp <= 4 && D.prop.pb <= 4 && D.prop.dic_size >= 4096)
#define I_POS (D.dic_pos <= bs)
#define I_HIST ((D.check_dic_size == 0 || D.check_dic_size == D.prop.dic_size) && (D.check_dic_size || D.processed_pos < D.prop.dic_size) && (!h_full || D.prop.dic_size <= bs) && HIST_OK(HIST, D.dic_pos))
#define I_STATE (D.need_init_state || (D.state < 12 && g_init_n == NPROBS && (HIST ? REPS_OK(HIST) : D.state == 0 && REPS_OK(1) && g_fresh)))
#define I_REM (D.remain_len <= 272 && (D.remain_len == 0 || (HIST && !D.need_init_state && !D.need_flush)))
#define I_RANGE (HIST || D.need_flush || D.range == 0xFFFFFFFF)
#define DINV (I_FRAME && I_PROP && I_POS && I_HIST && I_STATE && I_REM && I_RANGE)
static void check_inv(void)
{
    GCHECK(1, I_FRAME && I_PROP, "dictionary and properties"); GCHECK(1, I_POS, "the output position is inside the dictionary"); GCHECK(2, I_HIST, "the history consists of written bytes");
    GCHECK(3, I_STATE, "the coder state is valid for the history"); GCHECK(1, I_REM, "the rest of a match is valid"); GCHECK(1, I_RANGE, "the first symbol meets the initial range");
}
static void coder(void)   /* any coder state */
{
    D.state = IN(unsigned); for (int i = 0; i < 4; ++i) D.reps[i] = IN(U32);
    D.range = IN(U32); D.code = IN(U32); D.remain_len = IN(unsigned); D.processed_pos = IN(U32); D.dic_pos = IN(size_t);
}
static void any(void)
{
    bs = IN(size_t); ASSUME(bs >= 1 && bs <= (size_t)1 << 48); dic = malloc(bs); ASSUME(dic); h_full = IN(int) & 1; g_fresh = IN(int) & 1; g_init_n = IN(U32);
    D.dic = dic; D.dic_buf_size = bs; D.probs_1664 = D.probs + 1664;
    D.prop.lc = IN(BYTE); D.prop.lp = IN(BYTE); D.prop.pb = IN(BYTE); D.prop.dic_size = IN(U32);
    coder(); D.check_dic_size = IN(U32);
#ifndef PART_REM
    gi = IN(unsigned) & 3;
#endif
    D.state2 = IN(unsigned); D.pack_size = IN(size_t); D.unpack_size = IN(size_t); D.control = IN(BYTE);
    D.need_init_dic = IN(BYTE); D.need_init_state = IN(BYTE); D.need_init_state2 = IN(BYTE); D.need_init_prop = IN(BYTE); D.need_flush = IN(BYTE);
    ASSUME(DINV);
#ifdef HC
    ASSUME(HC == 2 ? D.check_dic_size != 0 : D.check_dic_size == 0 && h_full == HC);
#endif
}
static size_t lim;
static void *vf_memcpy(void *d, const void *s, size_t n) { CHECK(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "the copy stays inside both buffers"); return d; }
static void *vf_memset(void *d, int c, size_t n) { CHECK(n == 0 || __CPROVER_w_ok(d, n), "the fill stays inside the buffer"); return d; }

/* ---- contract of LZMA_writeRem: discharged by PART_REM ---- */
#ifndef PART_REM
static void LZMA_writeRem(LZMA2_DCtx *const p, size_t const limit)
{
    CHECK(p == &D && limit <= bs && D.dic_pos <= limit, "the limit is inside the dictionary"); check_inv();
    if (D.remain_len == 0) return;
    size_t const n = limit - D.dic_pos < D.remain_len ? limit - D.dic_pos : D.remain_len;
    if (D.check_dic_size == 0 && D.prop.dic_size - D.processed_pos <= n) D.check_dic_size = D.prop.dic_size;
    D.processed_pos += (U32)n; D.remain_len -= (unsigned)n; D.dic_pos += n;
}
#endif
/* ---- contract of LZMA_decodeReal2: discharged by PART_REAL2 ---- */
static const BYTE *r2_buf;
#ifndef PART_REAL2
static size_t LZMA_decodeReal2(LZMA2_DCtx *const p, size_t const limit, const BYTE *const buf_limit)
{
    CHECK(p == &D && limit <= bs && D.dic_pos < limit, "there is room for a byte"); check_inv();
    CHECK(!D.need_init_state && !D.need_flush && D.remain_len == 0, "the coder is initialised and no match is unfinished");
    size_t const ahead = (size_t)(buf_limit - D.buf);
    CHECK(ahead < (size_t)1 << 62 && __CPROVER_r_ok(D.buf, ahead + 19), "19 bytes behind the limit can be read");
    size_t const dp = D.dic_pos; U32 const ck = D.check_dic_size;
    coder(); g_fresh = 0; g_dummy = 0;
    if (IN(int) & 1) { ASSUME(D.dic_pos >= dp && D.dic_pos <= limit); return FL2_ERROR(corruption_detected); }
    if (!ck && IN(int) & 1) D.check_dic_size = D.prop.dic_size;
    size_t const used = IN(size_t); ASSUME(used <= ahead + 19); D.buf += used;
    ASSUME(D.dic_pos > dp && D.dic_pos <= limit && HIST && (D.remain_len == 0 || D.dic_pos == limit) && DINV);
    return FL2_error_no_error;
}
#endif
/* ---- contract of LZMA_initStateReal: discharged by init_dec of C01 and the frame here ---- */
static void LZMA_initStateReal(LZMA2_DCtx *const p)
{
    CHECK(p == &D, "decoder");
    g_fresh = 1; g_init_n = NPROBS; D.reps[0] = D.reps[1] = D.reps[2] = D.reps[3] = 1; D.state = 0; D.need_init_state = 0;
}
/* ---- contract of LZMA_decodeToDic: discharged by PART_TODIC ---- */
#ifndef PART_TODIC
static size_t LZMA_decodeToDic(LZMA2_DCtx *const p, size_t const dic_limit, const BYTE *src, size_t *const src_len, LZMA2_finishMode finish_mode)
{
    CHECK(p == &D && dic_limit <= bs && D.dic_pos <= dic_limit, "the limit is inside the dictionary"); check_inv();
    CHECK(*src_len == 0 || __CPROVER_r_ok(src, *src_len), "the input can be read");
    size_t const n = *src_len, dp = D.dic_pos, used = IN(size_t); ASSUME(used <= n); *src_len = used;
    U32 const ck = D.check_dic_size;
    coder(); D.need_flush = IN(BYTE); D.need_init_state = IN(BYTE); g_fresh = IN(int) & 1; g_init_n = IN(U32); if (!ck && IN(int) & 1) D.check_dic_size = D.prop.dic_size;
    ASSUME(D.dic_pos >= dp && D.dic_pos <= dic_limit);
    size_t const r = IN(size_t);
    ASSUME(r == LZMA_STATUS_FINISHED || r == LZMA_STATUS_NOT_FINISHED || r == LZMA_STATUS_NEEDS_MORE_INPUT || FL2_isError(r));
    if (FL2_isError(r)) return r;
    ASSUME(DINV);
    if (r == LZMA_STATUS_NEEDS_MORE_INPUT) ASSUME(n - used <= 20 && D.dic_pos <= dic_limit);
    else ASSUME(D.dic_pos == dic_limit);
    return r;
}
#endif

#ifdef PART_REM
#define BACK(p, r) ((p) >= (r) ? (p) - (r) : bs + (p) - (r))
static unsigned pass, n0, left0; static size_t k, p0;
static void rem_iter(size_t *dic_pos, unsigned *len, U32 rep0)
{
    if (pass == 0) {
        pass = 1; n0 = *len; CHECK(*dic_pos == p0 && n0 >= 1 && p0 + n0 <= lim && rep0 == D.reps[0], "the rest of the match is written at the current position, up to the limit");
        k = IN(size_t); ASSUME(k < n0); *dic_pos += k; *len -= (unsigned)k;
        size_t const s = *dic_pos - rep0 + (*dic_pos < rep0 ? bs : 0);
        CHECK(s < bs && (s < *dic_pos || h_full), "the byte copied has been written");
    } else { CHECK(*dic_pos == p0 + k + 1 && *len == n0 - k - 1 && *len > 0, "one byte after the other"); ASSUME(0); }
}
void harness(void)
{
    any(); lim = IN(size_t); ASSUME(lim <= bs && D.dic_pos <= lim); p0 = D.dic_pos; left0 = D.remain_len; U32 const ck = D.check_dic_size, pr = D.processed_pos;
    LZMA_writeRem__impl(&D, lim);
    size_t const n = left0 < lim - p0 ? left0 : lim - p0;
    CHECK(D.dic_pos == p0 + n && D.remain_len == left0 - n && D.processed_pos == (U32)(pr + n), "as much of the match as there is room for");
    CHECK(D.check_dic_size == (ck == 0 && left0 && D.prop.dic_size - pr <= n ? D.prop.dic_size : ck), "the full dictionary is noticed");
    check_inv(); if (n) { REACH("rest written"); } else { REACH("nothing"); }
}
#elif defined PART_REAL2
static const BYTE *bl; static size_t l2; static unsigned in_pass, out_pass; static int reals; static size_t at;
/* contract of LZMA_tryDummy: c02.c try_*, c01_sym.c try_* */
static BYTE LZMA_tryDummy(const LZMA2_DCtx *const p)
{
    check_inv(); CHECK(p == &D && !D.need_init_state && !D.need_flush && D.dic_pos < lim, "the coder is initialised");
    g_dummy = IN(int) & 1; return (BYTE)g_dummy;
}
/* contract of LZMA_decodeReal_3: c02.c real_* */
static int LZMA_decodeReal_3(LZMA2_DCtx *p, size_t limit, const BYTE *buf_limit)
{
    GCHECK(5, p == &D && limit <= bs && D.dic_pos < limit && (D.check_dic_size || limit - D.dic_pos <= D.prop.dic_size - D.processed_pos), "there is room, and no more than a dictionary of history");
    CHECK(limit <= lim && D.dic_pos < limit, "there is room for a byte"); check_inv(); CHECK(!D.need_init_state && !D.need_flush && D.remain_len == 0, "the coder is initialised");
    if (!HIST) CHECK(D.code < kBadRepCode, "a repeat as the first symbol has been excluded");
    GCHECK(4, buf_limit == bl && (D.buf < bl || (D.buf == bl && g_dummy)), "the next symbol is complete, or 20 bytes are there");
    size_t const dp = D.dic_pos, ahead = (size_t)(bl - D.buf);
    U32 const pr = D.processed_pos;
    coder(); g_fresh = 0; ++reals; size_t const got = IN(size_t); ASSUME(got <= limit - dp); D.dic_pos = dp + got; D.processed_pos = pr + (U32)got;
    if (IN(int) & 1) return 1;
    size_t const used = IN(size_t); ASSUME(g_dummy && ahead == 0 ? used == 0 : used <= ahead + 19); D.buf += used; g_dummy = 0;
    ASSUME(got > 0 && D.state < 12 && HIST && HIST_OK(HIST, D.dic_pos) && REPS_OK(HIST) && D.remain_len <= 272 && (D.remain_len == 0 || D.dic_pos == limit));
    return 0;
}
static void in_iter(size_t limit2)
{
    if (in_pass == 0) {
        in_pass = 1;
        if (IN(int) & 1) {    /* a later iteration: at the end of the input, and the next symbol is complete */
            coder(); g_fresh = 0; g_dummy = 1; D.buf = bl;
            ASSUME(D.dic_pos > at && D.dic_pos < limit2 && HIST && DINV && D.remain_len == 0 && (D.check_dic_size || limit2 - D.dic_pos <= D.prop.dic_size - D.processed_pos));
        }
        l2 = D.dic_pos;
    } else {
        CHECK(D.dic_pos > l2, "each symbol gives at least one byte"); GCHECK(4, D.dic_pos < limit2 && HIST && D.buf == bl && g_dummy && D.remain_len == 0, "the next symbol is complete");
        GCHECK(5, D.check_dic_size || limit2 - D.dic_pos <= D.prop.dic_size - D.processed_pos, "no more than a dictionary of history"); check_inv(); ASSUME(0);
    }
}
static void out_iter(void)
{
    if (out_pass == 0) {
        out_pass = 1;
        if (IN(int) & 1) {    /* a later iteration */
            U32 const ck = D.check_dic_size; coder(); if (!ck && IN(int) & 1) D.check_dic_size = D.prop.dic_size;
            g_fresh = 0; g_dummy = 0; size_t const u = IN(size_t); ASSUME(u < (size_t)(bl - D.buf)); D.buf += u;
            ASSUME(D.dic_pos > at && D.dic_pos < lim && HIST && D.remain_len == 0 && DINV);
        }
        l2 = D.dic_pos;
    } else {
        GCHECK(4, D.dic_pos > at && D.dic_pos < lim && HIST && D.remain_len == 0 && D.buf < bl && D.buf >= r2_buf, "the loop goes on with room and input left"); check_inv(); ASSUME(0);
    }
}
void harness(void)
{
    any(); lim = IN(size_t); ASSUME(lim <= bs && D.dic_pos < lim && !D.need_init_state && !D.need_flush && D.remain_len == 0);
    size_t const n = IN(size_t); ASSUME(n <= (size_t)1 << 48); BYTE *const in = malloc(n + 19); ASSUME(in); D.buf = r2_buf = in; bl = in + n; at = D.dic_pos;
    size_t const r = LZMA_decodeReal2(&D, lim, bl);
    CHECK(D.dic_pos >= at && D.dic_pos <= lim, "the output stays within the limit");
    if (FL2_isError(r)) { REACH("refused"); return; }
    CHECK(r == FL2_error_no_error && reals && D.dic_pos > at, "progress");
    GCHECK(4, D.buf >= in && D.buf <= in + n + 19, "at most 19 bytes behind the limit are read");
    CHECK(HIST && (D.remain_len == 0 || D.dic_pos == lim), "a match is unfinished only at the limit");
    check_inv(); REACH("decoded");
}
#elif defined PART_TODIC
static size_t n0, dp0; static const BYTE *s0; static unsigned pass; static size_t l2; static LZMA2_finishMode fin;
static void td_iter(const BYTE **src, size_t *in_size, size_t *src_len)
{
    if (pass == 0) {
        pass = 1; CHECK(*src == s0 + *src_len && *in_size == n0 - *src_len && *src_len <= n0, "the input position is the number of bytes used");
        if (IN(int) & 1) {
            U32 const ck = D.check_dic_size; coder(); if (!ck && IN(int) & 1) D.check_dic_size = D.prop.dic_size; if (D.need_init_state) { D.need_init_state = 0; g_init_n = NPROBS; } g_fresh = 0;
            size_t const u = IN(size_t); ASSUME(u <= n0); *src = s0 + u; *in_size = n0 - u; *src_len = u;
            ASSUME(D.dic_pos > dp0 && D.dic_pos <= lim && HIST && (D.remain_len == 0 || D.dic_pos == lim) && DINV);
        }
        l2 = D.dic_pos;
    } else {
        CHECK(D.dic_pos > l2, "each round gives at least one byte"); CHECK(*src_len <= n0 && *src == s0 + *src_len && *in_size == n0 - *src_len, "the input position is the number of bytes used");
        CHECK(D.dic_pos > dp0 && D.dic_pos <= lim && HIST && (D.remain_len == 0 || D.dic_pos == lim) && !D.need_init_state, "the output stays within the limit"); check_inv(); ASSUME(0);
    }
}
void harness(void)
{
    any(); lim = IN(size_t); ASSUME(lim <= bs && D.dic_pos <= lim); dp0 = D.dic_pos; fin = IN(int) & 1 ? LZMA_FINISH_END : LZMA_FINISH_ANY;
    n0 = IN(size_t); ASSUME(n0 <= (size_t)1 << 48); BYTE *const in = malloc(n0); ASSUME(in); s0 = in;
    size_t n = n0;
    size_t const r = LZMA_decodeToDic__impl(&D, lim, in, &n, fin);
    CHECK(n <= n0, "no more input is used than there is"); CHECK(D.dic_pos >= dp0 && D.dic_pos <= lim, "the output stays within the limit");
    CHECK(r == LZMA_STATUS_FINISHED || r == LZMA_STATUS_NOT_FINISHED || r == LZMA_STATUS_NEEDS_MORE_INPUT || FL2_isError(r), "a status or an error");
    if (FL2_isError(r)) { REACH("refused"); return; }
    check_inv();
    if (r == LZMA_STATUS_NEEDS_MORE_INPUT) { CHECK(n0 - n <= 20 && (fin == LZMA_FINISH_ANY || n0 < 5), "more input is asked for only at its end"); REACH("more input"); }
    else CHECK(D.dic_pos == lim, "otherwise the output is complete");
    if (r == LZMA_STATUS_FINISHED) { CHECK(D.code == 0 && D.remain_len == 0, "finished with nothing left in the range coder"); REACH("finished"); }
}
#elif defined PART_CHUNK || defined PART_L2 || defined PART_BUF
/* chunk state: inside a chunk there is something left to unpack, and its first header has reset the dictionary */
#define C_INV (D.state2 == LZMA2_STATE_FINISHED || D.state2 == LZMA2_STATE_CONTROL || (D.state2 == LZMA2_STATE_DATA && D.unpack_size >= 1 && D.unpack_size <= (size_t)1 << 21 && !D.need_init_dic))
#define H_INV (!D.need_init_dic || HIST == 0)
#endif
#ifdef PART_CHUNK
void harness(void)
{
    any(); ASSUME(C_INV && H_INV); lim = IN(size_t); ASSUME(lim <= bs && D.dic_pos <= lim);
    size_t const n0 = IN(size_t), dp0 = D.dic_pos; ASSUME(n0 <= (size_t)1 << 48); BYTE *const in = malloc(n0); ASSUME(in);
    LZMA2_finishMode const fin = IN(int) & 1 ? LZMA_FINISH_END : LZMA_FINISH_ANY; size_t n = n0; unsigned const st = D.state2, dic0 = D.need_init_dic, st0 = D.need_init_state2, pr0 = D.need_init_prop;
    size_t const r = LZMA2_decodeChunkToDic__impl(&D, lim, in, &n, fin);
    if (st == LZMA2_STATE_FINISHED) { CHECK(r == LZMA_STATUS_FINISHED && D.dic_pos == dp0, "nothing happens after the end"); return; }
    CHECK(n <= n0, "no more input is used than there is"); CHECK(D.dic_pos >= dp0 && D.dic_pos <= lim, "the output stays within the limit");
    CHECK(r == LZMA_STATUS_FINISHED || r == LZMA_STATUS_NOT_FINISHED || r == LZMA_STATUS_NEEDS_MORE_INPUT || r == LZMA_STATUS_OUTPUT_FULL || FL2_isError(r), "a status or an error");
    if (FL2_isError(r)) { REACH("refused"); return; }
    check_inv(); CHECK(C_INV && H_INV, "the chunk state is valid");
    if (r == LZMA_STATUS_NOT_FINISHED) { CHECK(n > 0 || D.dic_pos > dp0, "progress"); REACH("progress"); }
    if (r == LZMA_STATUS_OUTPUT_FULL) { CHECK(dp0 == lim && D.state2 == LZMA2_STATE_DATA && fin == LZMA_FINISH_ANY, "full"); REACH("full"); }
    if (r == LZMA_STATUS_FINISHED) { CHECK(D.state2 == LZMA2_STATE_FINISHED && D.dic_pos == dp0 && n == 1, "the end marker is one byte"); REACH("end"); }
    if (r == LZMA_STATUS_NEEDS_MORE_INPUT) REACH("more input");
    /* resets */
    if (st == LZMA2_STATE_CONTROL && D.state2 == LZMA2_STATE_DATA) {
        CHECK(!dic0 || in[0] == 1 || in[0] >= 0xE0, "the first chunk resets the dictionary");
        CHECK(!(in[0] & 0x80) || !st0 || in[0] >= 0xA0, "a state reset precedes a chunk that uses the state");
        CHECK(!(in[0] & 0x80) || !pr0 || in[0] >= 0xC0, "properties precede a chunk that uses them");
        CHECK(in[0] <= 2 || in[0] >= 0x80, "control bytes 3 to 127 do not exist"); REACH("header");
    }
}
#elif defined PART_L2
/* contract of LZMA2_decodeChunkToDic: PART_CHUNK */
static size_t n0, dp0, used0; static unsigned pass; static size_t m2; static const BYTE *s0;
static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit, const BYTE *src, size_t *const src_len, LZMA2_finishMode const finish_mode)
{
    check_inv(); CHECK(p == &D && dic_limit == lim && D.dic_pos <= lim && C_INV && H_INV, "the decoder is in a valid state");
    CHECK(*src_len == 0 || __CPROVER_r_ok(src, *src_len), "the input can be read"); CHECK((size_t)(src - s0) + *src_len == n0, "all of the remaining input is offered");
    size_t const n = *src_len, dp = D.dic_pos;
    if (D.state2 == LZMA2_STATE_FINISHED) { return LZMA_STATUS_FINISHED; }
    size_t const u = IN(size_t); ASSUME(u <= n); *src_len = u;
    coder(); D.check_dic_size = IN(U32); D.need_flush = IN(BYTE); D.need_init_state = IN(BYTE); D.need_init_dic = IN(BYTE); g_fresh = IN(int) & 1; g_init_n = IN(U32); D.state2 = IN(unsigned); D.unpack_size = IN(size_t); D.pack_size = IN(size_t);
    D.prop.lc = IN(BYTE); D.prop.lp = IN(BYTE); D.prop.pb = IN(BYTE); size_t const r = IN(size_t);
    ASSUME(D.dic_pos >= dp && D.dic_pos <= lim && (r == LZMA_STATUS_FINISHED || r == LZMA_STATUS_NOT_FINISHED || r == LZMA_STATUS_NEEDS_MORE_INPUT || r == LZMA_STATUS_OUTPUT_FULL || FL2_isError(r)));
    if (FL2_isError(r)) return r;
    ASSUME(DINV && C_INV && H_INV);
    if (r == LZMA_STATUS_NOT_FINISHED) ASSUME(u > 0 || D.dic_pos > dp);
    return r;
}
static void l2_iter(size_t *in_pos)
{
    if (pass == 0) {
        pass = 1; CHECK(*in_pos == 0, "from the start");
        if (IN(int) & 1) {
            coder(); D.check_dic_size = IN(U32); D.need_flush = IN(BYTE); D.need_init_state = IN(BYTE); D.need_init_dic = IN(BYTE); g_fresh = IN(int) & 1; g_init_n = IN(U32); D.state2 = IN(unsigned); D.unpack_size = IN(size_t); D.pack_size = IN(size_t);
            D.prop.lc = IN(BYTE); D.prop.lp = IN(BYTE); D.prop.pb = IN(BYTE);
            *in_pos = IN(size_t); ASSUME(*in_pos <= n0 && D.dic_pos >= dp0 && D.dic_pos <= lim && DINV && C_INV && H_INV);
        }
        m2 = *in_pos; used0 = D.dic_pos;
    } else { CHECK(*in_pos > m2 || D.dic_pos > used0, "each round makes progress"); CHECK(*in_pos <= n0 && D.dic_pos >= dp0 && D.dic_pos <= lim && C_INV && H_INV, "positions stay within the limits"); check_inv(); ASSUME(0); }
}
void harness(void)
{
    any(); int const bad = IN(int) & 1; if (bad) D.state2 = LZMA2_STATE_ERROR; else ASSUME(C_INV && H_INV);
    lim = IN(size_t); ASSUME(lim <= bs && D.dic_pos <= lim); dp0 = D.dic_pos;
    n0 = IN(size_t); ASSUME(n0 <= (size_t)1 << 48); BYTE *const in = malloc(n0); ASSUME(in); s0 = in; size_t n = n0;
    size_t const r = LZMA2_decodeToDic__impl(&D, lim, in, &n, IN(int) & 1 ? LZMA_FINISH_END : LZMA_FINISH_ANY);
    if (bad) { CHECK(FL2_isError(r) && D.dic_pos == dp0, "after an error every call fails"); return; }
    CHECK(n <= n0, "no more input is used than there is"); CHECK(D.dic_pos >= dp0 && D.dic_pos <= lim, "the output stays within the limit");
    if (FL2_isError(r)) { CHECK(D.state2 == LZMA2_STATE_ERROR, "the error is kept"); REACH("refused"); return; }
    CHECK(r == LZMA_STATUS_FINISHED || r == LZMA_STATUS_NEEDS_MORE_INPUT || r == LZMA_STATUS_OUTPUT_FULL, "it goes on until the end, the input or the output is used up");
    check_inv(); CHECK(C_INV && H_INV, "the chunk state is valid"); REACH("decoded");
}
#elif defined PART_BUF
/* contract of LZMA2_decodeToDic: PART_L2 */
static size_t n0, o0; static unsigned pass; static BYTE *d0; static const BYTE *s0; static size_t m_in, m_out; static int decs;
size_t LZMA2_decodeToDic(LZMA2_DCtx *const p, size_t const dic_limit, const BYTE *const src, size_t *const src_len, LZMA2_finishMode const finish_mode)
{
    CHECK(p == &D && dic_limit <= bs && D.dic_pos <= dic_limit, "the limit is inside the dictionary"); ++decs;
    if (D.dic_pos == 0 && bs && IN(int) & 1) { }
    if (D.state2 != LZMA2_STATE_ERROR) { check_inv(); CHECK(C_INV && H_INV, "the chunk state is valid"); }
    CHECK(*src_len == 0 || __CPROVER_r_ok(src, *src_len), "the input can be read");
    size_t const n = *src_len, dp = D.dic_pos;
    size_t const u = IN(size_t); ASSUME(u <= n); *src_len = u; size_t const r = IN(size_t);
    coder(); D.check_dic_size = IN(U32); D.need_flush = IN(BYTE); D.need_init_state = IN(BYTE); D.need_init_dic = IN(BYTE); g_fresh = IN(int) & 1; g_init_n = IN(U32); D.state2 = IN(unsigned); D.unpack_size = IN(size_t); D.pack_size = IN(size_t);
    D.prop.lc = IN(BYTE); D.prop.lp = IN(BYTE); D.prop.pb = IN(BYTE);
    ASSUME(D.dic_pos >= dp && D.dic_pos <= dic_limit);
    ASSUME(FL2_isError(r) || r == LZMA_STATUS_FINISHED || r == LZMA_STATUS_NEEDS_MORE_INPUT || r == LZMA_STATUS_OUTPUT_FULL);
    if (FL2_isError(r)) { D.state2 = LZMA2_STATE_ERROR; return r; }
    ASSUME(DINV && C_INV && H_INV);
    return r;
}
static void buf_iter(BYTE **dest, size_t *out_size, size_t *in_size, const BYTE **src, size_t *dest_len, size_t *src_len)
{
    if (pass == 0) {
        pass = 1; CHECK(*dest == d0 && *src == s0 && *out_size == o0 && *in_size == n0 && *dest_len == 0 && *src_len == 0, "from the start");
        if (IN(int) & 1) {
            coder(); D.check_dic_size = IN(U32); D.need_flush = IN(BYTE); D.need_init_state = IN(BYTE); D.need_init_dic = IN(BYTE); g_fresh = IN(int) & 1; g_init_n = IN(U32); D.state2 = IN(unsigned); D.unpack_size = IN(size_t); D.pack_size = IN(size_t);
            D.prop.lc = IN(BYTE); D.prop.lp = IN(BYTE); D.prop.pb = IN(BYTE); h_full |= IN(int) & 1;
            size_t const a = IN(size_t), b = IN(size_t); ASSUME(a < o0 && a > 0 && b <= n0);
            *dest = d0 + a; *dest_len = a; *out_size = o0 - a; *src = s0 + b; *src_len = b; *in_size = n0 - b;
            ASSUME(DINV && C_INV && H_INV);
        }
        m_out = *dest_len;
        /* the dictionary is complete once its end has been reached */
        if (D.dic_pos == bs) { h_full = 1; }
    } else {
        CHECK(*dest_len > m_out, "each round gives at least one byte");
        CHECK(*dest_len < o0 && *src_len <= n0 && *dest == d0 + *dest_len && *src == s0 + *src_len && *out_size == o0 - *dest_len && *in_size == n0 - *src_len, "positions are the numbers of bytes used and given");
        check_inv(); CHECK(C_INV && H_INV, "the chunk state is valid"); ASSUME(0);
    }
}
void harness(void)
{
    any(); ASSUME(D.prop.dic_size <= bs);   /* the decoder's own dictionary */
    int const bad = IN(int) & 1; if (bad) D.state2 = LZMA2_STATE_ERROR; else ASSUME(C_INV && H_INV);
    n0 = IN(size_t); o0 = IN(size_t); ASSUME(n0 <= (size_t)1 << 48 && o0 <= (size_t)1 << 48); BYTE *const in = malloc(n0), *const out = malloc(o0); ASSUME(in && out); s0 = in; d0 = out; size_t n = n0, o = o0;
    size_t const r = LZMA2_decodeToBuf(&D, out, &o, in, &n, IN(int) & 1 ? LZMA_FINISH_END : LZMA_FINISH_ANY);
    CHECK(n <= n0 && o <= o0 && decs, "no more is used or given than there is");
    CHECK(r == FL2_error_no_error || r == LZMA_STATUS_FINISHED || FL2_isError(r), "going on, finished or an error");
    if (!FL2_isError(r) && !bad) { check_inv(); CHECK(C_INV && H_INV, "the chunk state is valid"); }
    if (r == LZMA_STATUS_FINISHED) REACH("finished"); if (r == 0) REACH("going on"); if (FL2_isError(r)) REACH("refused");
}
#elif defined PART_INIT
void harness(void)
{
    /* a constructed decoder, used before or not; the decoder's own dictionary and the caller's are never mixed in one decoder (C14) */
    LZMA_constructDCtx(&D); int const own = IN(int) & 1; size_t const old = IN(size_t); ASSUME(old >= 1 && old <= (size_t)1 << 33);
    if (IN(int) & 1) { D.dic = malloc(old); ASSUME(D.dic); D.dic_buf_size = old; D.ext_dic = !own; }
    bs = IN(size_t); ASSUME(bs <= (size_t)1 << 48); BYTE *ext = NULL; if (!own) { ext = malloc(bs); ASSUME(ext); }
    D.state = IN(unsigned); D.need_init_state = IN(BYTE); D.remain_len = IN(unsigned); D.dic_pos = IN(size_t); D.processed_pos = IN(U32); D.check_dic_size = IN(U32); D.state2 = IN(unsigned);
    BYTE const prop = IN(BYTE);
    size_t const r = LZMA2_initDecoder(&D, prop, ext, bs);
    if (FL2_isError(r)) { CHECK(prop > 40 || own, "an invalid property or no memory"); REACH("refused"); return; }
    CHECK(r == 0 && prop <= 40, "a valid property"); h_full = 0; g_fresh = 0; g_init_n = 0;
    if (own) { bs = D.dic_buf_size; CHECK(D.prop.dic_size <= bs && !D.ext_dic, "the decoder's own dictionary holds what the property says"); } else CHECK(D.ext_dic && D.dic == ext && D.dic_buf_size == bs, "the caller's buffer is the dictionary");
    dic = D.dic; CHECK(bs == 0 || __CPROVER_w_ok(dic, bs), "the dictionary can be written");
    check_inv(); CHECK(D.state2 == LZMA2_STATE_CONTROL && D.need_init_dic && D.need_init_state && D.need_init_state2 && D.need_init_prop && D.need_flush && D.remain_len == 0 && D.dic_pos == 0 && HIST == 0, "a new stream needs all its resets"); REACH("initialised");
}
#elif defined PART_PARSE
/* the two header parsers on the same bytes, reading no further than told */
void harness(void)
{
#ifdef SMALL   /* the same on a small buffer of recorded bytes, so that a counterexample can be replayed */
    size_t const n = IN(size_t), pos = IN(size_t); ASSUME(n <= 8 && pos <= n); BYTE in[8]; for (int i = 0; i < 8; ++i) in[i] = IN(BYTE);
#else
    size_t const n = IN(size_t), pos = IN(size_t); ASSUME(n <= (size_t)1 << 40 && pos <= n); BYTE *const in = malloc(n); ASSUME(in);
#endif
    ptrdiff_t len = IN(ptrdiff_t); ASSUME(len <= (ptrdiff_t)(n - pos)); ptrdiff_t const len0 = len;
    LZMA2_chunk inf; int const a = LZMA2_parseInput(in, pos, len, &inf);
    BYTE control = IN(BYTE); size_t un = 0, pk = 0; LZMA2_props prop; prop.lc = 3; prop.lp = 0; prop.pb = 2;
    unsigned const b = LZMA2_nextChunkInfo(&control, &un, &pk, &prop, in + pos, &len);
    CHECK(len >= 0 && len <= 6 && (len0 < 0 || len <= len0), "a header has at most 6 bytes and is read only when it is complete");
    if (len0 <= 0) { CHECK(a == CHUNK_ERROR && b == LZMA2_STATE_CONTROL, "nothing to parse"); REACH("empty"); return; }
    CHECK((a == CHUNK_FINAL) == (b == LZMA2_STATE_FINISHED) && (a == CHUNK_FINAL) == (in[pos] == 0), "both see the end of the stream");
    if (a == CHUNK_FINAL) { CHECK(inf.pack_size == 1 && inf.unpack_size == 0 && len == 1, "the end marker is one byte"); REACH("end"); }
    CHECK((a == CHUNK_MORE_DATA) == (b == LZMA2_STATE_CONTROL), "both find the same headers incomplete");
    if (a == CHUNK_MORE_DATA) { CHECK(len == 0 && inf.pack_size == 0 && inf.unpack_size == 0, "nothing is taken from an incomplete header"); REACH("more"); }
    if (a == CHUNK_ERROR) { CHECK(b == LZMA2_STATE_ERROR, "what the locating parser refuses is refused by the decoder"); REACH("error"); }
    if (b == LZMA2_STATE_DATA) {
        CHECK(a == CHUNK_CONTINUE || a == CHUNK_DICT_RESET, "what is decoded is located");
        CHECK(un == inf.unpack_size && un >= 1 && un <= (size_t)1 << 21, "the same unpacked size");
        if (control & 0x80) { CHECK(inf.pack_size == pk + (size_t)len && pk <= (size_t)1 << 16 && (a == CHUNK_DICT_RESET) == (control >= 0xE0), "the same packed size and reset"); CHECK(len == (control >= 0xC0 ? 6 : 5), "header size"); }
        else { CHECK(inf.pack_size == un + 3 && len == 3 && a == CHUNK_CONTINUE && control <= 2, "a stored chunk"); }
        CHECK(prop.lc <= 4 && prop.lp <= 4 && prop.lc + prop.lp <= 4 && prop.pb <= 4, "properties within the format"); REACH("data");
        /* the format: sizes of the header fields, independent of both */
        CHECK(un == ((control & 0x80 ? (size_t)(control & 31) << 16 : 0) | (size_t)in[pos + 1] << 8 | in[pos + 2]) + 1, "the unpacked size the format defines");
        if (control & 0x80) CHECK(pk == ((size_t)in[pos + 3] << 8 | in[pos + 4]) + 1, "the packed size the format defines");
        if (control >= 0xC0) CHECK(in[pos + 5] == (prop.pb * 5 + prop.lp) * 9 + prop.lc, "the properties the format defines"); else CHECK(prop.lc == 3 && prop.lp == 0 && prop.pb == 2, "properties are kept");
    }
}
#elif defined PART_SIZE
/* LZMA2_getUnpackSize: sum of the chunk sizes up to the end marker; it reads nothing behind the data */
static size_t n0, s_pos; static unsigned pass; static U64 s_total; static int last; static LZMA2_chunk last_inf;
/* contract of LZMA2_parseInput: PART_PARSE */
LZMA2_parseRes LZMA2_parseInput(const BYTE* const in_buf, size_t const pos, ptrdiff_t const len, LZMA2_chunk *const inf)
{
    CHECK(pos < n0 && len == (ptrdiff_t)(n0 - pos) && __CPROVER_r_ok(in_buf + pos, (size_t)len), "only bytes of the data are parsed");
    inf->pack_size = IN(size_t); inf->unpack_size = IN(size_t); last = IN(int); last_inf = *inf;
    ASSUME(last == CHUNK_MORE_DATA || last == CHUNK_CONTINUE || last == CHUNK_DICT_RESET || last == CHUNK_FINAL || last == CHUNK_ERROR);
    ASSUME(inf->pack_size <= ((size_t)1 << 16) + 6 && inf->unpack_size <= (size_t)1 << 21);
    if (last == CHUNK_CONTINUE || last == CHUNK_DICT_RESET) ASSUME(inf->pack_size >= 4 && inf->unpack_size >= 1);
    last_inf = *inf; return (LZMA2_parseRes)last;
}
static void size_iter(size_t *pos, U64 *total)
{
    if (pass == 0) {
        pass = 1; CHECK(*pos == 1 && *total == 0, "the chunks begin behind the property byte");
        s_pos = *pos; s_total = *total;
        if (IN(int) & 1) { s_pos = IN(size_t); s_total = IN(U64); ASSUME(s_pos >= 1 && s_pos < n0 && s_total <= (s_pos << 21)); }
        *pos = s_pos; *total = s_total;
    } else {
        CHECK((last == CHUNK_CONTINUE || last == CHUNK_DICT_RESET) && *pos == s_pos + last_inf.pack_size && *total == s_total + last_inf.unpack_size && *pos < n0 && *total <= (*pos << 21), "each chunk is counted once"); ASSUME(0);
    }
}
void harness(void)
{
    n0 = IN(size_t); ASSUME(n0 <= (size_t)1 << 40); BYTE *const in = malloc(n0); ASSUME(in);
    U64 const r = LZMA2_getUnpackSize(in, n0);
    if (pass && last == CHUNK_FINAL) { CHECK(r == s_total, "the size is the sum of the chunks before the end marker"); REACH("end"); }
    else { CHECK(r == LZMA2_CONTENTSIZE_ERROR, "without end marker there is no size"); REACH("error"); }
}
#endif
