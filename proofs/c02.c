/* Memory safety of the LZMA/LZMA2 decoder for arbitrary input, function by function.
 *
 * Ghost: h_full = the whole dictionary has been written (it is circular and has wrapped), otherwise only [0, dic_pos) has.
 * Decoder invariant DINV (see dinv): properties within the format; dic_pos within the dictionary; the history H (check_dic_size,
 * or processed_pos while that is 0) consists of bytes that have been written; distances are within H; without history the
 * state is the initial one, so that the first symbol cannot be a repeat. */
#include "vf.h"
#if defined PART_REAL || defined PART_TRY
/* contracts of the bit macros: any bit, from a probability inside the table; c01_bit.c has what they do to range and code */
#define NORMALIZE { vf_norm(); }
#define IF_BIT_0(p) ttt = 0; bound = 0; if (!vf_bit((p) - p_probs))
#define UPDATE_0(p)
#define UPDATE_1(p)
#define NORMALIZE_CHECK if (vf_missing()) { return 0; }
#define IF_BIT_0_CHECK(p) ttt = 0; bound = 0; if (vf_missing()) { return 0; } if (!vf_bit((p) - p_probs))
#define UPDATE_0_CHECK
#define UPDATE_1_CHECK
extern unsigned *p_probs;
static unsigned n_bits, n_norm, n_probs, b_last, first_symbol;
static int vf_bit(long i)
{
    CHECK(i >= 0 && i < (long)n_probs, "the probability lies inside the table initialised for lc and lp");
    ++n_bits;
    int b = IN(int) & 1;
    /* nothing decoded yet: code < kBadRepCode and fresh probabilities exclude match + repeat (bit_first) */
    if (first_symbol && n_bits == 2 && b_last) b = 0;
    b_last = (unsigned)b;
    return b;
}
static void vf_norm(void) { ++n_norm; }
static int vf_missing(void) { ++n_norm; return IN(int) & 1; }
#endif
#ifdef PART_REAL
static void real_iter(unsigned *state, unsigned *rep0, unsigned *rep1, unsigned *rep2, unsigned *rep3, size_t *dic_pos, unsigned *processed_pos, unsigned *len, const unsigned char **buf);
#define VF_ITER real_iter(&state, &rep0, &rep1, &rep2, &rep3, &dic_pos, &processed_pos, &len, &buf)
static void copy_iter(unsigned char **dest, const unsigned char *end, ptrdiff_t src, size_t dic_pos, unsigned rep0);
#define VF_COPY copy_iter(&dest, end, src, dic_pos, rep0)
static void wrap_iter(size_t *dic_pos, size_t *pos, unsigned *cur_len, unsigned rep0);
#define VF_COPY_WRAP wrap_iter(&dic_pos, &pos, &cur_len, rep0)
#define VF_DIRECT direct_iter(&num_direct_bits, &distance)
static void direct_iter(unsigned *n, unsigned *distance);
#else
#define VF_ITER
#define VF_COPY
#define VF_COPY_WRAP
#define VF_DIRECT
#endif
#if defined PART_REAL
/* the values of the bytes in the dictionary do not matter here: every read of one gives an arbitrary value (--nondet-volatile) */
#include "fl2_errors.h"
#include "fl2_internal.h"
#include "lzma2_dec.h"
#include "platform.h"
typedef volatile unsigned char vf_byte;
#define BYTE vf_byte
#include "x_lzma2_dec.c"
#undef BYTE
#else
#include "x_lzma2_dec.c"
#endif
static LZMA2_DCtx D; static int h_full; static size_t bs, pos0; static BYTE *dic;
#define HIST (D.check_dic_size ? D.check_dic_size : D.processed_pos)
static int hist_ok(U32 h, size_t pos) { return h <= pos || (h_full && h <= bs); }
#define REPS_OK(a, b, c, d, h) ((a) >= 1 && (b) >= 1 && (c) >= 1 && (d) >= 1 && (a) <= (h) && (b) <= (h) && (c) <= (h) && (d) <= (h))
#if defined PART_REAL || defined PART_TRY
unsigned *p_probs;
static size_t lim; static U32 proc0, check0;
/* state in which a symbol can be decoded */
static void setup(void)
{
    bs = IN(size_t); ASSUME(bs >= 1 && bs <= (size_t)1 << (HC ? 33 : 48)); dic = malloc(bs); ASSUME(dic); h_full = HC == 2 ? IN(int) & 1 : HC;
    D.dic = dic; D.dic_buf_size = bs; D.probs_1664 = D.probs + 1664; p_probs = D.probs;
    D.prop.lc = IN(BYTE); D.prop.lp = IN(BYTE); D.prop.pb = IN(BYTE); D.prop.dic_size = IN(U32); ASSUME(D.prop.lc + D.prop.lp <= 4 && D.prop.lc <= 4 && D.prop.lp <= 4 && D.prop.pb <= 4 && D.prop.dic_size >= 4096);
    n_probs = LzmaProps_GetNumProbs(&D.prop);
    D.dic_pos = pos0 = IN(size_t); lim = IN(size_t); ASSUME(pos0 < lim && lim <= bs);
    D.processed_pos = proc0 = IN(U32); D.check_dic_size = check0 = HC == 2 ? D.prop.dic_size : 0;   /* the three kinds of history: see HC in lib/c02.py */
    if (check0 == 0) ASSUME(proc0 < D.prop.dic_size && lim - pos0 <= D.prop.dic_size - proc0);
    ASSUME(!h_full || D.prop.dic_size <= bs);   /* only the decoder's own dictionary is circular */
    ASSUME(hist_ok(HIST, pos0));
    D.state = IN(unsigned); ASSUME(D.state < 12);
    for (int i = 0; i < 4; ++i) D.reps[i] = IN(U32);
    first_symbol = HIST == 0;
    if (first_symbol) ASSUME(D.state == 0 && REPS_OK(D.reps[0], D.reps[1], D.reps[2], D.reps[3], 1));
    else ASSUME(REPS_OK(D.reps[0], D.reps[1], D.reps[2], D.reps[3], HIST));
    D.range = IN(U32); D.code = IN(U32);
}
#endif
#ifdef PART_REAL
static unsigned pass, n_dir, d_pass, left; static BYTE in[2]; static size_t it_pos; static U32 it_proc;
/* the obligations are discharged in three groups; each group assumes those of the others where the execution meets them first
 * (on an execution that violates one, the first violated is met with all earlier ones holding) */
#define GCHECK(g, c, t) do { if (GROUP == (g)) __CPROVER_assert(c, t); else __CPROVER_assume(c); } while (0)
#undef CHECK
#define CHECK(c, t) GCHECK(0, c, t)
/* one symbol needs at most 20 bytes: each adaptive bit takes 387 units of the range, a direct bit 65, a byte gives 512 (pot) */
static void symbol_done(void)
{
    CHECK(n_bits * 387 + n_dir * 65 < 20 * 512, "a symbol needs at most 20 bytes of input");
}
static void inv(unsigned state, U32 r0, U32 r1, U32 r2, U32 r3, size_t pos, U32 proc)
{
    U32 const h = check0 ? check0 : proc;
    CHECK(state < 12, "the state is one of the 12");
    CHECK(pos >= pos0 && pos <= lim, "the output position stays within the limit");
    CHECK(pos - it_pos <= 273 && proc - it_proc == (U32)pos - (U32)it_pos, "the bytes decoded are counted");
    GCHECK(1, check0 || proc <= D.prop.dic_size, "the history does not exceed the dictionary");
    GCHECK(1, hist_ok(h, pos), "the history consists of written bytes");
    if (h) GCHECK(2, REPS_OK(r0, r1, r2, r3, h), "the last four distances stay within the history");
}
static void real_iter(unsigned *state, U32 *r0, U32 *r1, U32 *r2, U32 *r3, size_t *pos, U32 *proc, unsigned *len, const BYTE **buf)
{
    if (pass == 0) { it_pos = pos0; it_proc = proc0; }
    inv(*state, *r0, *r1, *r2, *r3, *pos, *proc);
    if (pass == 0) {
        CHECK(*pos == pos0 && *len == 0, "first symbol at the current position");
        pass = 1;
        if (IN(int) & 1) {     /* a later symbol, in any state that satisfies the invariant */
            *state = IN(unsigned); *r0 = IN(U32); *r1 = IN(U32); *r2 = IN(U32); *r3 = IN(U32); size_t const delta = HC == 2 ? IN(size_t) : IN(U32); ASSUME(delta < lim - pos0 && delta > 0); *pos = pos0 + delta; *proc = (U32)(proc0 + delta);
            ASSUME(*state < 12 && *pos > pos0 && *pos < lim); U32 const h = check0 ? check0 : *proc; ASSUME(hist_ok(h, *pos) && REPS_OK(*r0, *r1, *r2, *r3, h));
            first_symbol = 0;
        }
        it_pos = *pos; it_proc = *proc; n_bits = n_norm = n_dir = 0;
    } else {
        CHECK(*pos > it_pos, "each symbol gives at least one byte"); CHECK(*len == 0, "a match not finished ends the loop"); CHECK(*pos < lim, "the loop ends at the limit");
        symbol_done(); ASSUME(0);
    }
}
/* direct bits: only their number matters, the value is arbitrary */
static void direct_iter(unsigned *n, U32 *distance)
{
    if (d_pass == 0) { d_pass = 1; CHECK(*n >= 1 && *n <= 26, "1 to 26 direct bits"); n_dir = *n; *n = 1; *distance = IN(U32); } else { CHECK(0, "the loop counts the direct bits down"); ASSUME(0); }
}
#define BACK(p, r) ((p) >= (r) ? (p) - (r) : bs + (p) - (r))
static int c_pass; static size_t c_k, c_start; static unsigned c_n;
static void copy_iter(BYTE **dest, const BYTE *end, ptrdiff_t src, size_t dic_pos, unsigned rep0)
{
    size_t const at = (size_t)(*dest - dic);
    if (c_pass == 0) {
        c_pass = 1; c_start = at; c_n = (unsigned)(end - *dest);
        CHECK(at == it_pos && c_n >= 1 && c_n <= 273 && at + c_n <= lim && dic_pos == at + c_n, "the match is written at the current position, up to the limit");
        U32 const h = check0 ? check0 : it_proc;
        CHECK(rep0 >= 1 && rep0 <= h, "the distance lies within the history");
        c_k = IN(size_t); ASSUME(c_k < c_n); *dest += c_k;
        size_t const s = at + c_k + (size_t)src;
        GCHECK(2, s < bs && s == BACK(at + c_k, rep0), "each byte is copied from the byte at the distance");
        CHECK(s < at + c_k || h_full, "the byte copied has been written");
    } else { CHECK(at == c_start + c_k + 1 && c_k + 1 < c_n, "one byte after the other"); ASSUME(0); }
}
static void wrap_iter(size_t *dic_pos, size_t *pos, unsigned *cur_len, unsigned rep0)
{
    if (c_pass == 0) {
        c_pass = 1; c_start = *dic_pos; c_n = *cur_len;
        CHECK(*dic_pos == it_pos && c_n >= 1 && c_n <= 273 && *dic_pos + c_n <= lim, "the match is written at the current position, up to the limit");
        U32 const h = check0 ? check0 : it_proc;
        CHECK(rep0 >= 1 && rep0 <= h, "the distance lies within the history");
        c_k = IN(size_t); ASSUME(c_k < c_n);
        CHECK(*pos == BACK(*dic_pos, rep0), "the copy starts at the distance");
        *dic_pos += c_k; *cur_len -= (unsigned)c_k; *pos = BACK(*dic_pos, rep0);
        CHECK(*pos < bs && (*pos < *dic_pos || h_full), "the byte copied has been written");
    } else { CHECK(*dic_pos == c_start + c_k + 1 && *pos == BACK(*dic_pos, rep0) && *cur_len == c_n - c_k - 1 && *cur_len > 0, "one byte after the other, each from the byte at the distance"); ASSUME(0); }
}
void harness(void)
{
    setup();
    D.buf = in; const BYTE *limit_buf = in + (IN(int) & 1);
    U32 const dsz = D.prop.dic_size; BYTE const lc = D.prop.lc, lp = D.prop.lp, pb = D.prop.pb;
    int const e = LZMA_decodeReal_3(&D, lim, limit_buf);
    symbol_done();
    CHECK(D.dic == dic && D.dic_buf_size == bs && D.prop.dic_size == dsz && D.prop.lc == lc && D.prop.lp == lp && D.prop.pb == pb && D.check_dic_size == check0 && D.need_flush == 0, "only the coder state changes");
    if (e == 0) {
        inv(D.state, D.reps[0], D.reps[1], D.reps[2], D.reps[3], D.dic_pos, D.processed_pos);
        CHECK(D.dic_pos > pos0, "progress"); CHECK(D.remain_len <= 272 && (D.remain_len == 0 || D.dic_pos == lim), "a match is cut only at the limit");
        CHECK(HIST > 0, "history"); REACH("symbol");
    } else { CHECK(D.dic_pos >= pos0 && D.dic_pos <= lim, "the output position stays within the limit"); REACH("refused"); }
}
#elif defined PART_TRY
void harness(void)
{
    setup();
    LZMA2_DCtx const *const p = &D;
    unsigned const r = LZMA_tryDummy(p);
    CHECK(r <= 1, "yes or no"); REACH("symbol tested");
}
#endif
