/* LZMA2_encode: the chunks of one slice. One iteration of the chunk loop, from any state within the invariant (FIRST: the first one).
 * Callees are replaced by contracts; LZMA2_encodeChunk moves forward by at least a symbol, past `end` by at most one match or one
 * parse, and keeps the packed size within the chunk limit (assumed: see DESIGN.md).
 * Ghost: enc->states.reps[0] names the coder state (RESET = the initial one), dec_tok the decoder's. */
#include "vf.h"
#ifdef GROUP
#undef CHECK
#define CHECK(c, t) do { if (GROUP == 0) __CPROVER_assert((c), t); else ASSUME(c); } while (0)
#define SPACE(c, t) do { if (GROUP == 1) __CPROVER_assert((c), t); else ASSUME(c); } while (0)
#endif
#define memcpy vf_memcpy
static void *vf_memcpy(void *d, const void *s, size_t n);
static void chunk_iter(size_t *pos, unsigned char **out_dest, unsigned char *incompressible, unsigned char *encode_properties, int *stream_prop);
#define VF_CHUNK chunk_iter(&pos, &out_dest, &incompressible, &encode_properties, &stream_prop)
#include "x_lzma2_enc.c"
#include "x_range_enc.c"
#undef memcpy
#define RESET 77u
#define MIN_UNC 6348   /* kChunkSize / 10: two bytes take at most 20 */
static LZMA2_ECtx ENC, *const enc = &ENC; static FL2_matchTable tbl; static FL2_dataBlock blk; static FL2_lzma2Parameters par; static int sprop;
static BYTE *tab, hb[64], temp_buf[kTempBufferSize]; static size_t tab_size;
static size_t pos0, w0, copied_n, copied_at, copied_from; static int chunks, pass, enc_calls, first; static BYTE props0; static unsigned dec_tok, tok0; static BYTE inc0;
static size_t CAP;   /* packed size limit before the final flush */
/* output area of the slice; the header group has only the bytes of the header, at their place */
#if GROUP == 0
#define OUT (hb - w0)
#else
#define OUT tab
#endif
#define STATE (enc->states.reps[0])
static void *vf_memcpy(void *d, const void *s, size_t n)
{
    SPACE(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "the copy stays inside both buffers");
    copied_n = n; copied_at = (size_t)((BYTE *)d - OUT); copied_from = __CPROVER_same_object(s, blk.data) ? (size_t)((const BYTE *)s - blk.data) : (size_t)-1;
    return d;
}
static void LZMA2_reset(LZMA2_ECtx *const e, size_t const max_distance) { CHECK(e == enc && max_distance == blk.end, "distances reach back to the start of the data"); RC_reset(&e->rc); STATE = RESET; }
static int LZMA_hashCreate(LZMA2_ECtx *const e, unsigned const bits) { return IN(int) & 1; }
static void LZMA_hashReset(LZMA2_ECtx *const e, unsigned const bits) { }
static BYTE LZMA2_isChunkIncompressible(const FL2_matchTable* const t, FL2_dataBlock const block, size_t const start, unsigned const strategy) { CHECK(start <= blk.end, "the next chunk is inside the block"); CHECK(strategy == par.strategy, "strategy"); return IN(BYTE) & 1; }
void RMF_limitLengths(FL2_matchTable* const t, size_t const e) { CHECK(e == blk.end, "matches end with the slice"); }
BYTE *RMF_getTableAsOutputBuffer(FL2_matchTable* const t, size_t const p) { CHECK(p == blk.start, "output replaces the table from the start of the slice"); return OUT; }
/* contract of the symbol encoders: c01 */
static void LZMA_encodeLiteral(LZMA2_ECtx *const e, size_t const pos, U32 symbol, unsigned const prev_symbol)
{
    CHECK(pos == 0 && pos0 == 0 && symbol == blk.data[0] && prev_symbol == 0 && e->rc.out_index == 0, "the first byte has no history"); STATE = IN(U32); enc->rc.out_index = IN(size_t); ASSUME(enc->rc.out_index <= 1);
}
static size_t LZMA2_encodeChunk(LZMA2_ECtx *const e, FL2_matchTable* const t, FL2_dataBlock const block, size_t const pos, size_t const end)
{
    CHECK(pos >= pos0 && pos <= blk.end && end <= blk.end && end > pos0, "the chunk is inside the slice"); ++enc_calls;
    int const temp = !__CPROVER_same_object(e->rc.out_buffer, OUT);
    size_t const cap = temp ? kTempBufferSize - 8 : CAP;
    CHECK(e->chunk_limit + 2 * kMaxMatchEncodeSize <= (temp ? kTempBufferSize : kMaxChunkCompressedSize) && e->chunk_size <= e->chunk_limit, "the limits leave room for a symbol and the flush");
    SPACE(e->rc.out_index <= cap && (temp ? e->rc.out_buffer + cap <= e->out_buf + kTempBufferSize : e->rc.out_buffer > OUT), "the packed bytes have room");
    STATE = IN(U32);
    size_t const out = IN(size_t), next = IN(size_t); ASSUME(out >= e->rc.out_index && out <= cap); e->rc.out_index = out;
    size_t const over = e->strategy == FL2_fast ? kMatchLenMax - 1 : kOptimizerBufferSize - 2;
    ASSUME(next >= pos && next <= blk.end && (next <= end + over || next == pos)); if (pos < end) ASSUME(next > pos); if (!temp && next < end) ASSUME(next - pos0 >= MIN_UNC);
    return next;
}
void RC_flush(RC_encoder* const rc) { CHECK(rc == &enc->rc, "flush"); size_t const n = IN(size_t); ASSUME(n >= rc->out_index && n >= 5 && n <= rc->out_index + 5); rc->out_index = n; }   /* c01 bit_flush */
static void check_chunk(size_t pos, size_t w)
{
    size_t const unc = pos - pos0;
    CHECK(pos > pos0 && pos <= blk.end && w > w0, "every chunk makes progress");
    SPACE(w - w0 - (first && sprop >= 0) <= unc + 3, "no chunk takes more than its bytes and 3");
#if GROUP == 0
    BYTE const *h = hb; size_t total;
    if (first && sprop >= 0) { CHECK(*h == (BYTE)sprop, "the stream begins with its property byte"); ++h; }
    size_t const hw = w0 + (first && sprop >= 0);
    BYTE const c = h[0]; size_t const u = ((size_t)(c & 0x80 ? c & 31 : 0) << 16 | (size_t)h[1] << 8 | h[2]) + 1;
    CHECK(u == unc, "the header holds the unpacked size");
    CHECK((c & 0x80) || c == 1 || c == 2, "a control byte of the format");
    if (c & 0x80) {
        size_t const pk = ((size_t)h[3] << 8 | h[4]) + 1; total = 5 + (c >= 0xC0) + pk;
        CHECK(pk == enc->rc.out_index && enc_calls, "the header holds the packed size");
        CHECK((pos0 == 0) == (c >= 0xE0), "the dictionary is reset by the first chunk of the data and no other");
        CHECK((c >= 0xC0) == (props0 != 0), "the first packed chunk of a slice has the properties");
        if (c >= 0xC0) CHECK(h[5] == (enc->pb * 5 + enc->lp) * 9 + enc->lc && enc->lc + enc->lp <= 4 && enc->lp <= 4 && enc->pb <= 4, "the properties are those used, and valid");
        CHECK(tok0 == (c >= 0xA0 ? RESET : dec_tok), "the encoder's state before the chunk is the decoder's"); dec_tok = STATE; REACH("packed chunk");
    } else {
        total = 3 + unc;
        CHECK(unc <= 65536 && (pos0 == 0) == (c == 1), "a stored chunk");
        CHECK(copied_n == unc && copied_at == hw + 3 && copied_from == pos0, "the stored bytes are those of the chunk");
        CHECK(STATE == tok0, "a stored chunk leaves the coder state alone"); REACH("stored chunk");
    }
    CHECK(w == hw + total, "the next chunk follows");
#endif
}
static void chunk_iter(size_t *pos, BYTE **out_dest, BYTE *incompressible, BYTE *encode_properties, int *stream_prop)
{
    if (pass == 0) {
        pass = 1; enc_calls = 0;
        CHECK(*pos == blk.start && *incompressible == 0 && *encode_properties == 1 && *stream_prop == sprop && STATE == RESET && *out_dest == enc->out_buf, "the first chunk"); 
        CHECK(enc->lc + enc->lp <= 4 && enc->lp <= 4 && enc->pb <= 4 && (enc->lc == par.lc || (par.lc + par.lp > 4 && enc->lc <= par.lc)), "literal parameters within the format");
        CHECK(enc->fast_length <= kMatchLenMax && enc->match_cycles < kMatchesMax && enc->strategy == par.strategy, "parameters within the encoder's tables");
        w0 = 0;
#if FIRST
        first = 1; pos0 = *pos; props0 = 1; tok0 = RESET; inc0 = 0;
#else
        *pos = pos0 = IN(size_t); w0 = IN(size_t); ASSUME(pos0 > blk.start && pos0 < blk.end && pos0 - blk.start >= MIN_UNC && w0 <= 2 * (pos0 - blk.start));
        *out_dest = OUT + w0; *incompressible = inc0 = IN(BYTE) & 1; props0 = *encode_properties = IN(BYTE) & 1; *stream_prop = -1;
        enc->chunk_size = kChunkSize; enc->chunk_limit = kMaxChunkCompressedSize - kMaxMatchEncodeSize * 2;
        dec_tok = IN(unsigned); STATE = tok0 = props0 ? RESET : dec_tok;
#endif
    } else {
        size_t const w = (size_t)(*out_dest - OUT);
        check_chunk(*pos, w);
        CHECK(*pos < blk.end && *stream_prop == -1, "the loop goes on inside the slice");
        CHECK(*encode_properties ? STATE == RESET : STATE == dec_tok, "both coders are in the same state");
        CHECK(*encode_properties <= 1 && *incompressible <= 1 && enc->chunk_size == kChunkSize && enc->chunk_limit == kMaxChunkCompressedSize - kMaxMatchEncodeSize * 2, "full chunks from now on");
        CHECK(*pos - blk.start >= MIN_UNC, "a chunk before the last one is not small"); SPACE(w <= 2 * (*pos - blk.start), "at the end of a chunk the output is behind the table position still to be read");
        REACH("next chunk"); ASSUME(0);
    }
}
void harness(void)
{
    enc->out_buf = temp_buf;
    blk.start = IN(size_t); blk.end = IN(size_t); ASSUME(blk.start < blk.end && blk.end <= (size_t)1 << 31); blk.data = malloc(blk.end); ASSUME(blk.data);
#if FIRST == 2
    ASSUME(blk.start > 0);
#elif FIRST == 1
    blk.start = 0;
#endif
    par.lc = IN(unsigned); par.lp = IN(unsigned); par.pb = IN(unsigned); par.strategy = IN(unsigned); ASSUME(par.lc <= 4 && par.lp <= 4 && par.pb <= 4 && par.strategy <= FL2_ultra);   /* C06 */
    par.fast_length = IN(unsigned); par.match_cycles = IN(unsigned); par.second_dict_bits = IN(unsigned); ASSUME(par.second_dict_bits <= 22);
    sprop = IN(int); ASSUME(sprop >= -1 && sprop < 256); if (blk.start) ASSUME(sprop == -1);
#if GROUP
    tab_size = 4 * (blk.end - blk.start > 1024 ? blk.end - blk.start : 1024); tab = malloc(tab_size); ASSUME(tab);   /* C08, C11: a slice starts well before the end of the table */
#endif
    CAP = kMaxChunkCompressedSize - 20;
    if (sprop >= 0) ASSUME(blk.end - blk.start >= 1);
    FL2_atomic pin = 0, pout = 0; int canceled = IN(int) & 1;
    size_t const r = LZMA2_encode(enc, &tbl, blk, &par, sprop, &pin, &pout, &canceled);
    if (!pass) { CHECK(r == FL2_ERROR(memory_allocation), "only the hash chain can be missing"); return; }
    if (canceled) { CHECK(r == FL2_ERROR(canceled), "cancelled"); return; }
    /* the contracts above leave no way to an internal error */
    check_chunk(blk.end, r); CHECK(r <= 2 * (blk.end - blk.start) + 4, "no internal error"); REACH("last chunk");
}
