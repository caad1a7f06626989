/* Decoding arbitrary bytes: valid streams, mutated streams and random bytes through every decoder; under AddressSanitizer with exact-size
 * buffers. Contracts: one-shot single-threaded, one-shot multithreaded, streaming single and multithreaded with any split agree on success,
 * bytes, and end; the size query returns what decompression returns. */
#include "drv.h"
#include "symgen.h"
#define MAXOUT (1u << 20)
static u8 *pool_data[64]; static size_t pool_len[64], pool_plain[64]; static u8 *pool_src[64]; static int npool;
static FL2_DCtx *dc[2]; static FL2_DStream *ds[3]; static FL2_CCtx *cc;
static void make_pool(void)
{
    cc = FL2_createCCtxMt(1);
    while (npool < 64) {
        size_t n = npool < 40 ? rn(3000) : rn(200000);
        if (npool == 63) n = 1300000; /* more than one block */
        u8 *s = xmalloc(n); gen(s, n, npool % NKINDS);
        if (npool & 1) { size_t a = rn(n), l = rn(n - a); gen(s + a, l, (int)rn(NKINDS)); }
        gen_params(cc, 1); case_note[0] = 0;
        FL2_CCtx_setParameter(cc, FL2_p_omitProperties, 0);
        FL2_CCtx_setParameter(cc, FL2_p_doXXHash, rn(2));
        FL2_CCtx_setParameter(cc, FL2_p_resetInterval, rr(1, 2));
        size_t cap = FL2_compressBound(n); u8 *d = xmalloc(cap);
        size_t r = FL2_compressCCtx(cc, d, cap, s, n, 0);
        if (FL2_isError(r)) { fprintf(stderr, "pool: %s\n", FL2_getErrorName(r)); _exit(1); }
        pool_data[npool] = d; pool_len[npool] = r; pool_src[npool] = s; pool_plain[npool] = n; ++npool;
    }
}
/* chunk offsets of a stream produced by the encoder */
static size_t chunks(const u8 *p, size_t n, size_t *at, size_t max)
{
    size_t i = 1, k = 0;
    while (i < n && p[i] != 0 && k < max) {
        at[k++] = i;
        if (p[i] >= 0x80) { if (i + 6 > n) break; i += 5 + (p[i] >= 0xC0) + 1 + ((size_t)p[i + 3] << 8 | p[i + 4]); }
        else { if (i + 3 > n) break; i += 3 + 1 + ((size_t)p[i + 1] << 8 | p[i + 2]); }
    }
    return k;
}
static size_t stream_dec(int which, const u8 *in, size_t n, u8 *out, size_t cap, size_t *produced, size_t *consumed, int prop, int style, size_t *lastin)
{
    FL2_DStream *z = ds[which];
    size_t r = prop >= 0 ? FL2_initDStream_withProp(z, (unsigned char)prop) : FL2_initDStream(z);
    *produced = *consumed = 0;
    if (FL2_isError(r)) return r;
    size_t ip = 0, op = 0, idle = 0;
    for (;;) {
        size_t ic = style == 0 ? n - ip : style == 1 ? 1 : style == 2 ? rn(4) : chance(50) ? rn(25) : rn(n - ip + 1);
        size_t oc = style == 0 ? cap - op : style == 3 ? rn(5) : style == 4 ? rn(300) : chance(30) ? rn(2000) : cap - op;
        if (idle && 1) { ic = n - ip; oc = cap - op; }
        if (ic > n - ip) ic = n - ip;
        if (oc > cap - op) oc = cap - op;
        /* exact-size copies so that any access outside the buffers given is caught */
        u8 *ib = xmalloc(ic), *ob = xmalloc(oc); memcpy(ib, in + ip, ic);
        FL2_inBuffer ibuf = { ib, ic, 0 }; FL2_outBuffer obuf = { ob, oc, 0 };
        r = FL2_decompressStream(z, &obuf, &ibuf);
        REQUIRE(ibuf.pos <= ic && obuf.pos <= oc, "stream positions pass the buffer sizes");
        memcpy(out + op, ob, obuf.pos); free(ib); free(ob);
        ip += ibuf.pos; op += obuf.pos;
        if (FL2_isError(r) || r == 0) break;
        idle = (ibuf.pos | obuf.pos) ? 0 : idle + 1;
        if (idle > 8) break; /* needs more of something that is not there */
    }
    *produced = op; *consumed = ip; *lastin = n - ip;
    return r;
}
static void one_case(void)
{
    rule_text = "a case counts when at least one decoder got past the first chunk header of the input";
    if (!npool) { u64 s = rs; rs = 4242; make_pool(); rs = s; case_note[0] = 0; }
    for (int i = 0; i < 2; ++i) if (!dc[i]) dc[i] = FL2_createDCtxMt(i ? 3 : 1);
    for (int i = 0; i < 2; ++i) if (!ds[i]) ds[i] = FL2_createDStreamMt(i ? 3 : 1);
    int k = chance(3) ? 63 : (int)(chance(75) ? rn(40) : rn(63));
    size_t n = pool_len[k]; int mut = (int)rn(10), pure = 0;
    u8 *in = xmalloc(n + 64); memcpy(in, pool_data[k], n);
    size_t at[400], nc = chunks(in, n, at, 400);
    note("base%d mut%d n%zu", k, mut, n);
    if (nc == 0 && (mut == 3 || mut == 4 || mut == 6)) mut = 2;
    switch (mut) {
    case 0: case 1: pure = 1; break;
    case 2: { int m = (int)rr(1, 4); while (m--) in[rn(n)] ^= (u8)(1 << rn(8)); break; }
    case 3: { size_t c = at[rn(nc)]; in[c + rn(6) % (n - c)] = (u8)rnd(); break; }                 /* header byte */
    case 4: { size_t c = at[rn(nc)]; size_t o = c + (in[c] >= 0x80 ? rr(1, 4) : rr(1, 2)); if (o < n) in[o] += chance(50) ? 1 : 255; break; } /* size field by one */
    case 5: n = rn(n + 1); break;                                                              /* truncated */
    case 6: { size_t c = at[rn(nc)]; static const u8 ctl[] = {0, 1, 2, 3, 0x7F, 0x80, 0xA0, 0xC0, 0xE0, 0xFF}; in[c] = ctl[rn(10)]; break; }
    case 7: { size_t l = rr(1, 40); in = realloc(in, n + 64); for (size_t i = 0; i < l; ++i) in[n + i] = (u8)rnd(); n += l; break; } /* trailing bytes */
    case 8: { size_t l = rr(1, 200); if (l < n) { for (size_t i = l; i < n && i < l + 30; ++i) in[i] = (u8)rnd(); } if (chance(50) && n > 600) n = 600; break; }
    default: { n = rn(600) + 1; if (n > pool_len[k]) n = pool_len[k]; gen(in, n, 0); if (n > 3) { in[0] = (u8)rn(20); in[1] = chance(50) ? 1 : 0xE0 | (u8)rn(4); if (chance(60) && n > 8) { in[2] = (u8)rn(2); in[6] = 0x5D; in[7] = 0; } } }
    }
    u8 *sym_out = NULL; size_t sym_plain = 0; int sym_valid = 0;
    if (chance(40)) { free(in); in = xmalloc(70000); sym_out = xmalloc(120000); pure = 0; n = symgen(in, 69000, sym_out, chance(80) ? rr(1, 3000) : rr(1, 120000), &sym_plain, &sym_valid); note(" symbols valid%d plain%zu", sym_valid, sym_plain); }
    u8 *src = xmalloc(n); memcpy(src, in, n); free(in); in = src;
    if (n && (in[0] & 0x3F) > 24) in[0] = (in[0] & 0xC0) | 18 | (in[0] & 1);   /* no huge dictionaries here */
    size_t cap = pure ? pool_plain[k] : chance(60) ? pool_plain[k] + rn(5) : rn(70000);
    if (sym_out) cap = chance(60) ? sym_plain : sym_plain + rn(70000);
    if (!pure && chance(10)) cap = rn(20);
    u8 *o1 = xmalloc(cap), *o2 = xmalloc(cap);
    memset(o1, 0xA5, cap); memset(o2, 0x5A, cap);
    note(" -> n%zu cap%zu", n, cap);
    size_t r1 = FL2_decompressDCtx(dc[0], o1, cap, in, n);
    size_t r2 = FL2_decompressDCtx(dc[1], o2, cap, in, n);
    if (!FL2_isError(r1)) REQUIRE(r1 <= cap, "more decompressed than fits");
    REQUIRE(FL2_isError(r1) == FL2_isError(r2), "single-threaded: %s (%zu); multithreaded: %s (%zu)", FL2_getErrorName(r1), r1, FL2_getErrorName(r2), r2);
    unsigned long long q = FL2_findDecompressedSize(in, n);
    if (!FL2_isError(r1)) {
        REQUIRE(r1 == r2 && !memcmp(o1, o2, r1), "single and multithreaded results differ (%zu, %zu)", r1, r2);
        REQUIRE(q == r1, "size query %llu, decompressed %zu", q, r1);
        for (size_t i = r1; i < cap; ++i) REQUIRE(o1[i] == 0xA5 && o2[i] == 0x5A, "byte written past the reported size");
    }
    if (sym_out) {
        if (sym_valid && cap >= sym_plain) REQUIRE(r1 == sym_plain && !memcmp(o1, sym_out, r1), "valid symbols: %s (%zu for %zu)", FL2_getErrorName(r1), r1, sym_plain);
        else if (!sym_valid) REQUIRE(FL2_isError(r1), "an invalid symbol is accepted: %zu", r1);
        free(sym_out);
    }
    if (pure) REQUIRE(r1 == pool_plain[k] && !memcmp(o1, pool_src[k], r1), "valid stream: %s", FL2_getErrorName(r1));
    if (n > 8 && q != FL2_CONTENTSIZE_ERROR) ++nontriv;
    /* streaming: the capacity is not limiting unless it was in one shot */
    size_t cap3 = cap + 70000; if (q != FL2_CONTENTSIZE_ERROR && q < MAXOUT * 2 && q + 10 > cap3) cap3 = q + 10;
    u8 *o3 = xmalloc(cap3); size_t prod, cons, left;
    int first_prod_set = 0; size_t fprod = 0, fcons = 0, fr = 0; u8 *o4 = xmalloc(cap3);
    for (int z = 0; z < 3; ++z) {
        int which = z == 2 ? 1 : 0, style = z == 0 ? 0 : (int)rn(6);
        if (n > 20000 && (style >= 1 && style <= 3)) style = 5;
        if (which == 1 && style == 1) style = 2;
        size_t r = stream_dec(which, in, n, o3, cap3, &prod, &cons, -1, style, &left);
        note(" s%d/%d=%d", which, style, FL2_isError(r) ? (int)FL2_getErrorCode(r) : (int)(r != 0));
        if (!FL2_isError(r1)) {
            REQUIRE(!FL2_isError(r), "one-shot succeeds with %zu bytes, streaming (%d threads) reports %s", r1, which ? 3 : 1, FL2_getErrorName(r));
            REQUIRE(r == 0, "streaming does not finish");
            REQUIRE(prod == r1 && !memcmp(o3, o1, r1), "streaming gives %zu bytes, one-shot %zu, or other content", prod, r1);
        } else if (FL2_getErrorCode(r1) != FL2_error_dstSize_tooSmall && cap >= (q == FL2_CONTENTSIZE_ERROR ? 0 : q)) {
            REQUIRE(FL2_isError(r) || r != 0 || FL2_getErrorCode(r1) == FL2_error_dstSize_tooSmall, "one-shot reports %s, streaming (%d) succeeds with %zu bytes", FL2_getErrorName(r1), which, prod);
        }
        if (which == 0) {
            if (!first_prod_set) { first_prod_set = 1; fprod = prod; fcons = cons; fr = r; memcpy(o4, o3, prod); }
            else if (!FL2_isError(fr) && fr == 0) REQUIRE(prod == fprod && cons == fcons && r == 0 && !memcmp(o3, o4, prod), "split dependence: %zu/%zu bytes, consumed %zu/%zu, %s", prod, fprod, cons, fcons, FL2_getErrorName(r));
            else REQUIRE(FL2_isError(fr) == FL2_isError(r), "split dependence of the status: %s / %s", FL2_getErrorName(fr), FL2_getErrorName(r));
        }
    }
    free(in); free(o1); free(o2); free(o3); free(o4);
}
