/* The range coder, bit by bit, on the real functions and macros: the contracts c01_sym.c relies on.
 *
 * Encoder state: A = the number made of the bytes so far (written ones, the cache byte, cache_size bytes FF) and low; R = range.
 * Invariant EINV: low + R <= 2^33, 2^24 <= R < 2^32, and the final number, which lies in [A, A + R), cannot carry out of the cache
 * byte nor into the first byte:  (cache <= 0xFE or low + R <= 2^32)  and  (nothing written yet => cache == 0 and low + R <= 2^32).
 * Decoder state: range R, code C = (window of the final number) - A, 0 <= C < R.
 * The bit function narrows [A, A + R); the number ends inside what is left, so C picks the same half, and C stays in [0, R). */
#include "vf.h"
/* Multiplication of the range by a probability: all that is used of it is that it is a function, and that 31 <= p <= 2017 gives
 * 31 a <= a p <= 2017 a (arithmetic of natural numbers, taken as known; nothing overflows, a is below 2^21). */
#ifdef PART_BIT
static unsigned vf_mul(unsigned a, unsigned p);
#define VF_MUL(a, p) vf_mul(a, p)
#else
#define VF_MUL(a, p) ((a) * (p))
#endif
static void iteration(unsigned *bit_count); static void pending(unsigned char h);
#ifdef PART_DIRECT
#define VF_ITER iteration(&bit_count)
#else
#define VF_ITER
#endif
#if defined PART_SHIFT && defined VF_CBMC
#define VF_PENDING pending(high)
#else
#define VF_PENDING
#endif
#include "x_range_enc.c"
typedef LZMA2_prob enc_prob;
#define LZMA2_prob dec_prob
#undef kNumTopBits
#undef kTopValue
#undef kNumBitModelTotalBits
#undef kBitModelTotal
#undef kNumMoveBits
#undef kNumStates
#undef kNumLenToPosStates
#undef kNumPosSlotBits
#undef kNumAlignBits
#undef kAlignTableSize
#undef kStartPosModelIndex
#undef kEndPosModelIndex
#undef kNumFullDistances
#undef kLenNumLowBits
#undef kLenNumLowSymbols
#undef kLenNumHighBits
#undef kLenNumHighSymbols
#include "x_lzma2_dec.c"
#define TOP (1u << 24)
#define TWO32 (1ull << 32)
#define PROB_OK(p) ((p) >= 31 && (p) <= 2017)
static RC_encoder E; static enc_prob ep;
#define EINV(low, R, cache, first) ((low) < 2 * TWO32 && (low) + (R) <= 2 * TWO32 && (R) >= TOP && ((cache) <= 0xFE || (low) + (R) <= TWO32) && (!(first) || ((cache) == 0 && (low) + (R) <= TWO32)))
static U64 low0; static U32 R0; static BYTE cache0; static int first0;

#ifndef VF_CBMC
size_t LZMA2_compressBound(size_t n) { return n; }
#if !(defined PART_BIT || defined PART_DIRECT || defined PART_FLUSH)
void RC_shiftLow(RC_encoder *const rc) { RC_shiftLow__impl(rc); }
#endif
#endif
#if defined PART_BIT || defined PART_DIRECT || defined PART_FLUSH
/* contract of RC_shiftLow, discharged by PART_SHIFT: one more byte of A is fixed */
static unsigned shifts; static U64 s_low; static U32 s_range;
void RC_shiftLow(RC_encoder *const rc)
{
    CHECK(rc == &E, "coder");
    ++shifts; s_low = rc->low; s_range = rc->range;
    CHECK((rc->low >> 33) == 0, "at most one carry");
    rc->low = (rc->low << 8) & 0xFFFFFFFF;
}
#endif

#if defined PART_BIT
static unsigned m_a, m_p, m_r, m_n;
static unsigned vf_mul(unsigned a, unsigned p)
{
#ifndef VF_CBMC
    return a * p;
#endif
    CHECK(a < 1u << 21 && PROB_OK(p), "the range is cut to 21 bits and multiplied by a probability between 31 and 2017");
    if (m_n && a == m_a && p == m_p) return m_r;
    m_a = a; m_p = p; m_n = 1; m_r = IN(unsigned); ASSUME(m_r >= a * 31 && m_r <= a * 2017);
    return m_r;
}
/* one bit, encoded and decoded (also by LZMA_tryDummy's macros) */
static dec_prob dp; static int d_bit, c_bit; static const BYTE *buf; static U32 range, code;
static void dec_bit(void)
{
    U32 bound; unsigned ttt; dec_prob *const p = &dp;
    IF_BIT_0(p) { UPDATE_0(p); d_bit = 0; } else { UPDATE_1(p); d_bit = 1; }
}
static U32 c_range, c_code;
static int try_bit(U32 range, U32 code)   /* 0 when a byte is missing */
{
    U32 bound; unsigned ttt; const dec_prob *const p = &dp;
    IF_BIT_0_CHECK(p) { UPDATE_0_CHECK; c_bit = 0; } else { UPDATE_1_CHECK; c_bit = 1; }
    c_range = range; c_code = code; return 1;
}
void harness(void)
{
    low0 = IN(U64); R0 = IN(U32); cache0 = IN(BYTE); first0 = IN(int) & 1; ASSUME(EINV(low0, R0, cache0, first0));
    ep = IN(enc_prob); ASSUME(PROB_OK(ep)); dp = ep;
    unsigned const bit = IN(unsigned);
    E.low = low0; E.range = R0; E.cache = cache0;
    /* before: the decoder may still have to take the byte the encoder's last shift stood for */
    BYTE in[2]; in[0] = IN(BYTE); in[1] = IN(BYTE); buf = in;
    int const need = NEED; U32 C;
    if (need) { range = IN(U32); code = IN(U32); ASSUME(range < TOP && range >= TOP >> 8 && code < range); R0 = range << 8; ASSUME(EINV(low0, R0, cache0, first0)); E.range = R0; C = code << 8 | in[0]; }
    else { C = IN(U32); ASSUME(C < R0); range = R0; code = C; }
#if WHICH == 0
    ASSUME(bit == 0); RC_encodeBit0(&E, &ep);
#elif WHICH == 1
    ASSUME(bit == 1); RC_encodeBit1(&E, &ep);
#else
    RC_encodeBit(&E, &ep, bit);
#endif
    unsigned const b = bit != 0;
    U64 const low1 = shifts ? s_low : E.low; U32 const R1 = shifts ? s_range >> 8 : E.range;
    CHECK(shifts <= 1, "at most one byte is shifted out");
    if (shifts) CHECK(s_range == R1 << 8 && R1 < TOP && R1 >= TOP >> 8, "the range is normalised by one byte");
    CHECK(R1 > 0 && low1 >= low0 && low1 + R1 <= low0 + R0, "the interval of a bit lies inside the interval before it");
    CHECK(PROB_OK(ep), "probabilities stay between 31 and 2017");
    CHECK(E.range >= TOP, "the range stays normalised");
    if (!shifts) CHECK(EINV(E.low, E.range, cache0, first0), "no carry can leave the pending bytes");
    /* the final number lies in the interval of the bit; C is its distance from low0 */
    ASSUME(low0 + C >= low1 && low0 + C < low1 + R1);
    int const t = try_bit(range, code);
    CHECK(t == !need, "LZMA_tryDummy stops exactly when a byte is missing");
    dec_prob const dp0 = dp;
    dec_bit();
    CHECK(buf == in + need, "the decoder takes a byte when the encoder shifted one out");
    CHECK(d_bit == (int)b, "the decoder reads the bit that was encoded");
    CHECK(range == R1 && code == (U32)(low0 + C - low1) && code < range, "the ranges agree and the code is the distance of the number from low");
    CHECK(dp == ep, "the probability is updated alike");
    if (t) CHECK(c_bit == d_bit && c_range == range && c_code == code, "LZMA_tryDummy reads the same bit");
    CHECK(dp0 <= 2017, "prob"); REACH("bit");
    if (shifts) REACH("bit with a shift");
}
#elif defined PART_DIRECT
/* RC_encodeDirect, one iteration of its loop from any state within the invariant (bits value >> n - 1 .. value >> 0, in this order) */
static unsigned value, n, at, pass, it_n; static U64 l0; static U32 r0;
static void after(void)
{
    unsigned const b = value >> (it_n - 1) & 1;
    U64 const low1 = shifts ? s_low : E.low; U32 const R1 = shifts ? s_range >> 8 : E.range;
    CHECK(shifts <= 1, "at most one byte per direct bit");
    if (shifts) CHECK(s_range == R1 << 8 && R1 < TOP && R1 >= TOP >> 8, "the range is normalised by one byte");
    CHECK(R1 == r0 >> 1 && low1 == l0 + (b ? R1 : 0), "a direct bit halves the interval");
    if (!shifts) CHECK(EINV(E.low, E.range, cache0, first0), "no carry can leave the pending bytes");
    CHECK(E.range >= TOP, "the range stays normalised");
}
static void iteration(unsigned *bit_count)
{
    if (pass == 0) {
        CHECK(*bit_count == n && E.low == low0 && E.range == R0, "the first bit is the top one");
        pass = 1; l0 = IN(U64); r0 = IN(U32); cache0 = IN(BYTE); first0 = IN(int) & 1; it_n = IN(unsigned);
        ASSUME(it_n >= 1 && it_n <= n && EINV(l0, r0, cache0, first0));
        E.low = l0; E.range = r0; *bit_count = it_n; shifts = 0;
    } else {
        CHECK(*bit_count == it_n - 1 && it_n > 1, "one bit after the other");
        after(); ASSUME(0);
    }
}
#elif defined PART_SHIFT
/* RC_shiftLow: the written bytes, the cache, the pending bytes and low stand for the same number before and after */
static BYTE *out; static size_t osize, idx0, g; static U64 cs0; static unsigned pass, high; static U64 j;
static void pending(unsigned char h)
{
    if (pass == 0) {
        CHECK(h == (BYTE)(0xFF + high), "a pending byte is FF, or 00 after a carry");
        CHECK(E.out_index == idx0 + 1 && E.cache_size == cs0 && cs0 > 0, "the pending bytes follow the cache byte");
        CHECK(E.out_buffer[idx0] == (BYTE)(cache0 + high), "the cache byte is written with the carry");
        pass = 1; j = IN(U64); ASSUME(j < cs0);
        E.out_index = idx0 + 1 + (size_t)j; E.cache_size = cs0 - j;
        /* of the bytes written so far only the one at the arbitrary place g is looked at */
        if (g > idx0 && g < idx0 + 1 + j) out[g] = (BYTE)(0xFF + high);
    } else {
        CHECK(h == (BYTE)(0xFF + high), "a pending byte is FF, or 00 after a carry");
        CHECK(E.out_index == idx0 + 2 + j && E.cache_size == cs0 - j - 1 && E.cache_size > 0, "one byte written for each pending byte");
        if (g > idx0 && g < idx0 + 2 + j) CHECK(out[g] == (BYTE)(0xFF + high), "each pending byte is written");
        ASSUME(0);
    }
}
void harness(void)
{
    osize = IN(size_t); idx0 = IN(size_t); cs0 = IN(U64); low0 = IN(U64); R0 = IN(U32); cache0 = IN(BYTE); g = IN(size_t);
    first0 = idx0 == 0 && IN(int) & 1;
    /* called with the range below 2^24 (already shifted), or by RC_flush */
    ASSUME(osize <= TWO32 && idx0 < osize && cs0 < osize - idx0 && low0 < 2 * TWO32 && g < osize);
    U32 const R1 = IN(U32); ASSUME(R1 < TOP);
    ASSUME(low0 + R1 <= 2 * TWO32 && (cache0 <= 0xFE || low0 + R1 <= TWO32) && (!first0 || (cache0 == 0 && low0 + R1 <= TWO32)));
    ASSUME(low0 < TWO32 || (cache0 <= 0xFE && !first0));
    out = malloc(osize); ASSUME(out); BYTE const og = out[g];
    E.low = low0; E.cache = cache0; E.cache_size = cs0; E.out_buffer = out; E.out_index = idx0; E.range = R1 << 8;
    high = (unsigned)(low0 >> 32);
    RC_shiftLow__impl(&E);
    U64 const low = E.low;
    CHECK(E.range == R1 << 8 && E.out_buffer == out, "only the output and low change");
    CHECK(low == (low0 << 8 & 0xFFFFFFFF), "low moves up by one byte");
    BYTE const top = (BYTE)(low0 >> 24);
    if (E.out_index == idx0) {
        CHECK(high == 0 && top == 0xFF && E.cache == cache0 && E.cache_size == cs0 + 1 && out[g] == og, "a byte FF without carry stays pending");
        REACH("kept");
    } else {
        CHECK(E.out_index == idx0 + 1 + cs0 && E.cache_size == 0 && E.cache == top, "the cache byte and all pending bytes are written, the new byte is cached");
        if (g < idx0 || g >= idx0 + 1 + cs0) CHECK(out[g] == og, "earlier output and the space behind are not touched");
        if (g == idx0) CHECK(out[g] == cache0 + high, "the cache byte is written with the carry, which does not overflow it");
        if (g > idx0 && g < idx0 + 1 + cs0) CHECK(out[g] == (BYTE)(0xFF + high), "the pending bytes take the carry on");
        CHECK(!first0 || out[0] == 0, "the first byte of a chunk is 0");
        if (high) { REACH("carry"); } else { REACH("no carry"); }
    }
    if (R1) CHECK(E.cache <= 0xFE || low + ((U64)R1 << 8) <= TWO32, "no later carry can leave the cache byte");
    if (first0 && E.out_index == idx0) CHECK(low + ((U64)R1 << 8) <= TWO32, "no carry can reach the first byte");
}
#elif defined PART_FLUSH
/* RC_reset + RC_setOutputBuffer establish the invariant; RC_flush shifts out all of low */
void harness(void)
{
    BYTE b[1];
    E.low = IN(U64); E.range = IN(U32); E.cache = IN(BYTE); E.cache_size = IN(U64); E.out_index = IN(size_t);
    RC_reset(&E); RC_setOutputBuffer(&E, b);
    CHECK(EINV(E.low, E.range, E.cache, 1) && E.range == 0xFFFFFFFF && E.low == 0 && E.cache_size == 0 && E.out_index == 0 && E.out_buffer == b, "a reset coder starts a new number");
    U64 const l = IN(U64); ASSUME(l < 2 * TWO32); E.low = l; shifts = 0; E.range = 1 << 24;
    RC_flush(&E);
    CHECK(shifts == 5 && E.low == 0, "five bytes are shifted out: all four of low and the cache");
    CHECK(s_low == 0, "the last byte of low was shifted before the cache: nothing stays pending");
    REACH("flush");
}
#elif defined PART_FIRST
/* start of a chunk: the decoder's first code and range are those of the encoder's reset coder; and the first symbol of a stream
 * cannot be a repeat when code < kBadRepCode (probabilities 1024) */
void harness(void)
{
    U32 range = 0xFFFFFFFF, code = IN(U32); U32 bound; unsigned ttt; BYTE in[2]; const BYTE *buf = in; dec_prob a = kBitModelTotal >> 1, b = kBitModelTotal >> 1, *p = &a;
    ASSUME(code < kBadRepCode);
    int match = 0, rep = 0;
    IF_BIT_0(p) { UPDATE_0(p); } else { UPDATE_1(p); match = 1; }
    if (match) { p = &b; IF_BIT_0(p) { UPDATE_0(p); } else { UPDATE_1(p); rep = 1; } }
    CHECK(!rep, "a stream cannot start with a repeated distance"); CHECK(buf == in, "no byte is needed");
    REACH("first symbol");
}
#endif
#ifdef PART_DIRECT
void harness(void)
{
    low0 = IN(U64); R0 = IN(U32); cache0 = IN(BYTE); first0 = IN(int) & 1; ASSUME(EINV(low0, R0, cache0, first0));
    value = IN(unsigned); n = IN(unsigned); ASSUME(n >= 1 && n <= 26); E.low = low0; E.range = R0;
    RC_encodeDirect(&E, value, n);
    CHECK(pass == 1 && it_n == 1, "all bits are encoded");
    after(); REACH("direct bit");
}
#endif
