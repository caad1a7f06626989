/* Every symbol: the (probability, bit) sequence the encoder's real function emits, read back by the real LZMA_decodeReal_3,
 * decodes to the same symbol and leaves both in matching states.
 * Contracts in use: RC_encodeBit0/1/RC_encodeBit/RC_encodeDirect append to the trace; the decoder's IF_BIT_0 etc. take the next
 * bit of the trace and require the same probability. Probabilities are identified by the decoder's index. */
#include "vf.h"
#ifdef PART_INIT
static void lit_loop(size_t *i, size_t num); static void dec_loop(size_t *i, size_t num_probs);
#define VF_LIT lit_loop(&i, num)
#define VF_DINIT dec_loop(&i, num_probs)
#else
#define VF_LIT
#define VF_DINIT
#endif
#include "x_range_enc.c"
#include "x_lzma2_enc.c"
typedef LZMA2_prob enc_prob;
#define LZMA2_prob dec_prob
#define NORMALIZE { vf_norm(&range, &code); }
#define IF_BIT_0(p) ttt = 0; bound = 0; if (!vf_bit((p) - vf_dprobs, range, code))
#define UPDATE_0(p)
#define UPDATE_1(p)
#define NORMALIZE_CHECK { vf_norm(&range, &code); }
#define IF_BIT_0_CHECK(p) ttt = 0; bound = 0; if (!vf_bit((p) - vf_dprobs, range, code))
#define UPDATE_0_CHECK
#define UPDATE_1_CHECK
#define DIRECT 1000000
#define NT 64
static int t_id[NT], t_bit[NT]; static unsigned t_n, t_k;
static void vf_norm(unsigned *range, unsigned *code);
static int vf_bit(long id, unsigned range, unsigned code);
static int g_dir; static unsigned g_range, g_code, t_norms;
static unsigned it; static int copied; static size_t c_dest, c_len;
#define VF_ITER CHECK(it == 0, "one symbol is decoded"); ++it
#define VF_COPY copied = 1; c_dest = (size_t)(dest - dic); c_len = (size_t)(end - dest); break
#define VF_COPY_WRAP copied = 1; c_dest = dic_pos; c_len = cur_len; dic_pos += cur_len; break
#undef kNumTopBits
#undef kTopValue
#undef kNumBitModelTotalBits
#undef kBitModelTotal
#undef kNumMoveBits
#undef kNumStates
#undef kNumLenToPosStates
#undef kNumPosSlotBits
#undef kNumAlignBits
#undef kAlignTableSize
#undef kStartPosModelIndex
#undef kEndPosModelIndex
#undef kNumFullDistances
#undef kLenNumLowBits
#undef kLenNumLowSymbols
#undef kLenNumHighBits
#undef kLenNumHighSymbols
extern unsigned *vf_dprobs;
#include "x_lzma2_dec.c"
unsigned *vf_dprobs;
static LZMA2_ECtx E; static LZMA2_DCtx D;
static unsigned rev(unsigned m)   /* heap index of a reverse bit tree -> index with the bits in reading order */
{
    unsigned top = 1, r = 0;
    for (int i = 0; i < 6; ++i) if (m >= (2u << i)) { r = r << 1 | (m >> i & 1); top = 2u << i; }
    return top | r;
}
/* The cases are split by length class and distance slot; the solver is told which bits these fix, after a check that they have that value. */
static int g_class, g_rep, g_slot;
#define OFS(f) ((unsigned)(size_t)&((LZMA2_ECtx *)0)->states.f)
#define IN_(f) if (o >= OFS(f) && o < OFS(f) + sizeof E.states.f) { unsigned const i = (o - OFS(f)) / sizeof(enc_prob);
static int canon(enc_prob *p)
{
#ifdef VF_CBMC
    CHECK(__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(&E), "the probability belongs to the encoder");
    unsigned const o = (unsigned)__CPROVER_POINTER_OFFSET(p);
#else
    CHECK((char *)p >= (char *)&E && (char *)p < (char *)(&E + 1), "the probability belongs to the encoder");
    unsigned const o = (unsigned)((char *)p - (char *)&E);
#endif
    IN_(is_match) return IsMatch + (int)(i % 16 * 16 + i / 16); }
    IN_(is_rep) return IsRep + (int)i; }
    IN_(is_rep_G0) return IsRepG0 + (int)i; }
    IN_(is_rep_G1) return IsRepG1 + (int)i; }
    IN_(is_rep_G2) return IsRepG2 + (int)i; }
    IN_(is_rep0_long) return IsRep0Long + (int)(i % 16 * 16 + i / 16); }
    IN_(len_states.choice) return LenCoder + LenChoice; }
    IN_(rep_len_states.choice) return RepLenCoder + LenChoice; }
    IN_(len_states.low) CHECK(i == 0 || (i & 7), "length tree index"); return LenCoder + (i ? (int)i : LenChoice2); }
    IN_(rep_len_states.low) CHECK(i == 0 || (i & 7), "length tree index"); return RepLenCoder + (i ? (int)i : LenChoice2); }
    IN_(len_states.high) return LenCoder + LenHigh + (int)i; }
    IN_(rep_len_states.high) return RepLenCoder + LenHigh + (int)i; }
    IN_(dist_slot_encoders) return PosSlot + (int)i; }
    IN_(dist_align_encoders) return Align + (int)rev((unsigned)i); }
    IN_(dist_encoders)
        unsigned const s = (unsigned)g_slot, base = (2 | (s & 1)) << (s / 2 - 1), n = (1u << (s / 2 - 1)) - 1;
        CHECK(s >= 4 && s < 14 && i >= base - s && i < base - s + n, "each slot has its own distance probabilities");
        return SpecPos + (int)(base + rev((unsigned)i - (base - s) + 1));
    }
    IN_(literal_probs) return Literal + (int)i; }
    CHECK(0, "every bit uses a probability of the model");
    return -1;
}
static void put(int id, int bit)
{
    if (id == LenCoder + LenChoice || id == RepLenCoder + LenChoice) { CHECK(bit == (g_class > 0), "first length bit"); ASSUME(bit == (g_class > 0)); }
    if (id == LenCoder + LenChoice2 || id == RepLenCoder + LenChoice2) { CHECK(bit == (g_class > 1), "second length bit"); ASSUME(bit == (g_class > 1)); }
    CHECK(t_n < NT, "a symbol has at most 64 bits"); t_id[t_n] = id; t_bit[t_n] = bit; ++t_n; }
void RC_encodeBit0(RC_encoder *const rc, enc_prob *const p) { CHECK(rc == &E.rc, "coder"); put(canon(p), 0); }
void RC_encodeBit1(RC_encoder *const rc, enc_prob *const p) { CHECK(rc == &E.rc, "coder"); put(canon(p), 1); }
void RC_encodeBit(RC_encoder *const rc, enc_prob *const p, unsigned const bit) { CHECK(rc == &E.rc, "coder"); put(canon(p), bit != 0); }
void RC_encodeDirect(RC_encoder *const rc, unsigned value, unsigned n)
{
    CHECK(n > 0 && n <= 26, "1 to 26 direct bits");
    for (unsigned i = 0; i < 26; ++i) if (i < n) put(DIRECT, value >> (n - 1 - i) & 1);
}
/* after a direct bit: range halved, code reduced by it when the bit is one */
static void direct_done(unsigned range, unsigned code) { if (g_dir) CHECK(range == g_range && code == g_code, "a direct bit halves the range and takes its part off the code"); g_dir = 0; }
static int vf_bit(long id, unsigned range, unsigned code)
{
    direct_done(range, code); ++t_norms;
    CHECK(id >= SpecPos && id < Literal + (0x300 << 4), "probability index");
    CHECK(t_k < t_n && t_id[t_k] == (int)id, "the decoder uses the same probability for each bit");
    ASSUME(t_k < t_n);
    return t_bit[t_k++];
}
/* NORMALIZE outside a bit: in front of a direct bit, or at the end of the symbol. The coder is in any state where the bit is
 * the one of the trace: one when the code reaches half of the range. */
static void vf_norm(unsigned *range, unsigned *code)
{
    direct_done(*range, *code); ++t_norms;
    if (t_k < t_n) {
        CHECK(t_id[t_k] == DIRECT, "direct bits at the same place");
        unsigned const R = IN(unsigned), C = IN(unsigned); ASSUME(R >= 1 << 24 && C < R && (C >= R >> 1) == t_bit[t_k]);
        g_range = R >> 1; g_code = C - (t_bit[t_k] ? g_range : 0); g_dir = 1;
        *range = R; *code = C; ++t_k;
    }
}
#define LEN_OK (g_class == 0 ? len >= 2 && len < 10 : g_class == 1 ? len >= 10 && len < 18 : len >= 18 && len <= 273)
static int slot_ok(U32 dist, size_t slot)
{
    if (slot < 4) return dist == slot;
    unsigned const n = (unsigned)slot / 2 - 1; U32 const base = (U32)(2 | (slot & 1)) << n;
    return dist >= base && dist - base < (U32)1 << n;
}
/* contract of LZMA_getDistSlot, proved as dist_slot */
static size_t LZMA_getDistSlot(U32 const distance) { CHECK(slot_ok(distance, (size_t)g_slot), "slot of the distance"); return (size_t)g_slot; }
static BYTE *dic, *data; static size_t size, epos;
static void one_case(void)
{
    D.probs_1664 = D.probs + 1664; vf_dprobs = D.probs_1664;
    unsigned lc = IN(unsigned), lp = IN(unsigned), pb = IN(unsigned); ASSUME(lc <= 4 && lp <= 4 && lc + lp <= 4 && pb <= 4);
    E.lc = lc; E.lp = lp; E.pb = pb; E.lit_pos_mask = ((size_t)1 << lp) - 1; E.pos_mask = ((size_t)1 << pb) - 1;
    D.prop.lc = (BYTE)lc; D.prop.lp = (BYTE)lp; D.prop.pb = (BYTE)pb;
    unsigned state = IN(unsigned); ASSUME(state < 12); E.states.state = state; D.state = state;
    /* the decoder's dictionary, which can be circular, and the encoder's block of data with the same bytes behind the position */
    size_t pos = IN(size_t), limit = IN(size_t);
    ASSUME(pos < size && limit > pos && limit <= size && (epos & 15) == (pos & 15));
    D.dic = dic; D.dic_buf_size = size; D.dic_pos = pos;
    U32 done = IN(U32), check = IN(U32); ASSUME((done & 15) == (pos & 15)); D.processed_pos = done; D.check_dic_size = check;
    U32 reps[4]; for (int i = 0; i < 4; ++i) { reps[i] = IN(U32); ASSUME(reps[i] < 0xFFFFFFFF); E.states.reps[i] = reps[i]; D.reps[i] = reps[i] + 1; }
    BYTE buf[1]; D.buf = buf; t_n = 0; t_k = 0; t_norms = 0; g_dir = 0; it = 0; copied = 0;
    U32 const have = check ? check : done;
    ASSUME(have == 0 || pos > 0 || check);   /* history behind position 0 is a full circular dictionary */
    unsigned len = 1, dist = 0; int valid = 1; unsigned symbol = 0;
    U32 r[4] = { reps[0], reps[1], reps[2], reps[3] };
#ifdef VF_CBMC
#define SAME(x, y) ASSUME((x) == (y))
#else
#define SAME(x, y) (x) = (y)
#endif
#define BACK(d) (pos > (d) ? pos - (d) - 1 : size + pos - (d) - 1)
#if defined PART_LITERAL
    ASSUME(epos >= 1 && have >= 1);
    ASSUME(reps[0] < size && (state < 7 || reps[0] < epos));
    SAME(dic[BACK(0)], data[epos - 1]); if (state >= 7) SAME(dic[BACK(reps[0])], data[epos - reps[0] - 1]);
    symbol = data[epos];
    LZMA_encodeLiteralBuf(&E, data, epos);
#elif defined PART_FIRST
    ASSUME(epos == 0 && have == 0 && state == 0);
    symbol = data[0];
    LZMA_encodeLiteral(&E, 0, data[0], 0);
#elif defined PART_SHORTREP
    ASSUME(have >= 1 && reps[0] < size);
    symbol = dic[BACK(reps[0])];
    LZMA_encodeRepMatchShort(&E, pos & E.pos_mask);
#elif defined PART_REP
    len = IN(unsigned); unsigned const i = (unsigned)g_rep; ASSUME(LEN_OK && have >= 1);
    dist = reps[i]; ASSUME(dist < size);
    for (unsigned j = 0; j < 4; ++j) r[j] = j == 0 ? reps[i] : j <= i ? reps[j - 1] : reps[j];
    LZMA_encodeRepMatchLong(&E, len, i, pos & E.pos_mask);
#elif defined PART_MATCH
    /* any distance at all, so that every bit sequence the decoder can meet is covered */
    len = IN(unsigned); dist = IN(U32); ASSUME(LEN_OK && slot_ok(dist, (size_t)g_slot)); valid = dist < have;
    if (valid) ASSUME(dist < size);
    r[0] = dist; r[1] = reps[0]; r[2] = reps[1]; r[3] = reps[2];
    LZMA_encodeNormalMatch(&E, len, dist, pos & E.pos_mask);
#endif
    CHECK(E.states.reps[0] == r[0] && E.states.reps[1] == r[1] && E.states.reps[2] == r[2] && E.states.reps[3] == r[3], "the encoder keeps the last four distances");
#ifdef DUMMY
    BYTE const complete = LZMA_tryDummy(&D);
    CHECK(complete && t_k == t_n && !g_dir, "LZMA_tryDummy takes exactly the bits of the symbol");
    CHECK(t_norms == t_n + 1, "LZMA_tryDummy tests for a missing byte at each of them and at the end");
    REACH("symbol tested");
#else
    int e = LZMA_decodeReal_3(&D, limit, buf);
    CHECK(t_k == t_n, "the decoder takes exactly the bits of the symbol");
    if (!valid) { CHECK(e == 1 && !copied && D.processed_pos == done, "a distance beyond the history is refused"); return; }
    CHECK(t_norms == t_n + 1, "a byte can be read at each bit and at the end");
    CHECK(e == 0, "the symbol is accepted");
    size_t const n = limit - pos < len ? limit - pos : len;
    CHECK(D.dic_pos == pos + n && D.processed_pos == (U32)(done + n) && D.remain_len == len - n, "the length decodes to itself");
    if (len == 1) CHECK(!copied && dic[pos] == (BYTE)symbol, "the byte decodes to itself");
    else CHECK(copied && c_dest == pos && c_len == n, "the match decodes to the same length (its source is the last distance: dec_real)");
    CHECK(D.reps[0] == r[0] + 1 && D.reps[1] == r[1] + 1 && D.reps[2] == r[2] + 1 && D.reps[3] == r[3] + 1, "the last four distances agree");
    CHECK(D.state == E.states.state, "the states agree");
    REACH("symbol decoded");
#endif
}
#ifdef PART_INIT
/* cut of the two initialisation loops: g is an arbitrary probability, the loops are at an arbitrary iteration */
static size_t g, passes[2];
static void cut(size_t *i, size_t n, int k, unsigned ok)
{
    if (passes[k]++ == 0) {
        CHECK(*i == 0, "from the first probability"); *i = IN(size_t); ASSUME(*i < n);
        if (g < *i) { if (k) D.probs[g] = kBitModelTotal >> 1; else E.states.literal_probs[g] = 1024; }
    } else { CHECK(g >= *i || ok, "each probability is set"); CHECK(*i <= n, "within the table"); ASSUME(0); }
}
static void lit_loop(size_t *i, size_t num) { cut(i, num, 0, E.states.literal_probs[g] == 1024); }
static void dec_loop(size_t *i, size_t num_probs) { cut(i, num_probs, 1, D.probs[g] == 1024); }
static void init_case(void)
{
    unsigned lc = IN(unsigned), lp = IN(unsigned), pb = IN(unsigned); ASSUME(lc <= 4 && lp <= 4 && lc + lp <= 4 && pb <= 4);
    unsigned const n = 0x300u << (lc + lp);
    D.prop.lc = (BYTE)lc; D.prop.lp = (BYTE)lp; D.prop.pb = (BYTE)pb; D.probs_1664 = D.probs + 1664;
    g = IN(size_t);
    D.state = IN(unsigned); D.reps[0] = IN(U32); D.reps[1] = IN(U32); D.reps[2] = IN(U32); D.reps[3] = IN(U32);
    E.states.state = IN(unsigned); for (int i = 0; i < 4; ++i) E.states.reps[i] = IN(U32);
#if WHICH == 0
    ASSUME(g < n);
    LZMA_encoderStates_Reset(&E.states, lc, lp, 32);
    CHECK(E.states.literal_probs[g] == 1024, "every literal probability starts at one half");
    unsigned const a = IN(unsigned), b = IN(unsigned); ASSUME(a < 12 && b < 16);
    CHECK(E.states.is_match[a][b] == 1024 && E.states.is_rep0_long[a][b] == 1024 && E.states.is_rep[a] == 1024 && E.states.is_rep_G0[a] == 1024 && E.states.is_rep_G1[a] == 1024 && E.states.is_rep_G2[a] == 1024, "every flag probability starts at one half");
    unsigned const c = IN(unsigned); ASSUME(c < 256);
    CHECK(E.states.len_states.high[c] == 1024 && E.states.rep_len_states.high[c] == 1024 && E.states.len_states.low[c] == 1024 && E.states.rep_len_states.low[c] == 1024 && E.states.len_states.choice == 1024 && E.states.rep_len_states.choice == 1024, "every length probability starts at one half");
    CHECK(E.states.dist_slot_encoders[c >> 6][c & 63] == 1024 && E.states.dist_align_encoders[b] == 1024 && (c >= 114 || E.states.dist_encoders[c] == 1024), "every distance probability starts at one half");
    CHECK(E.states.state == 0 && E.states.reps[0] == 0 && E.states.reps[1] == 0 && E.states.reps[2] == 0 && E.states.reps[3] == 0, "the encoder starts in state 0 with distances 0");
#else
    ASSUME(g < 1664 + Literal + n);
    LZMA_initStateReal(&D);
    CHECK(D.probs[g] == 1024, "every probability the decoder can use starts at one half");
    CHECK(D.state == 0 && D.reps[0] == 1 && D.reps[1] == 1 && D.reps[2] == 1 && D.reps[3] == 1 && !D.need_init_state, "the decoder starts in the same state");
#endif
    REACH("states reset");
}
#endif
void harness(void)
{
#ifdef PART_INIT
    init_case();
#elif defined PART_SLOT
    U32 const d = IN(U32); size_t const r = LZMA_getDistSlot__impl(d);
    CHECK(r < 64 && slot_ok(d, r), "the slot of every distance is the one the format defines"); REACH("slot");
#else
    size = IN(size_t); epos = IN(size_t); ASSUME(size >= 1 && size <= 1ull << 32 && epos < 1ull << 32);
    dic = malloc(size); data = malloc(epos + 1); ASSUME(dic && data);
#if defined PART_REP
    g_class = CLASS; g_rep = REP;
#elif defined PART_MATCH
    g_class = CLASS; g_slot = SLOT;
#endif
    one_case();
#endif
}
