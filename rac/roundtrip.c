/* One-shot round trip. modes: 0 all; contracts checked: output within compressBound and the exact capacity, decompresses to the input,
 * size query exact, property byte, capacity too small is an error, source and destination guard bytes untouched, same context reusable. */
#include "drv.h"
static FL2_CCtx *cc[5]; static FL2_DCtx *dc[2]; static unsigned uses;
static void one_case(void)
{
    rule_text = "a case counts when the content is non-empty and was compressed, decompressed and compared";
    static const unsigned th[5] = {1, 2, 4, 6, 8};
    int t = (int)rn(chance(60) ? 3 : 5);
    if (uses++ % 24 == 0) for (int i = 0; i < 5; ++i) { FL2_freeCCtx(cc[i]); cc[i] = NULL; if (i < 2) { FL2_freeDCtx(dc[i]); dc[i] = NULL; } }
    if (!cc[t]) cc[t] = FL2_createCCtxMt(th[t]);
    int dt = (int)rn(2);
    if (!dc[dt]) dc[dt] = FL2_createDCtxMt(dt ? 3 : 1);
    if (!cc[t] || !dc[dt]) { fprintf(stderr, "no context\n"); _exit(75); }
    gen_params(cc[t], 1);
    int omit = chance(15);
    FL2_CCtx_setParameter(cc[t], FL2_p_omitProperties, omit);
    size_t max = chance(8) ? 3500000 : 400000, n = gen_size(max); int kind = (int)rn(NKINDS);
    note(" t%u k%d n%zu omit%d", th[t], kind, n, omit);
    u8 *src = xmalloc(n); gen(src, n, kind);
    if (chance(25) && n > 3000) { size_t a = rn(n / 2), l = rn(n / 2); gen(src + a, l, (int)rn(NKINDS)); }
    size_t bound = FL2_compressBound(n);
    u8 *dst = xmalloc(bound);   /* exact allocation: AddressSanitizer guards both ends */
    size_t r = FL2_compressCCtx(cc[t], dst, bound, src, n, 0);
    REQUIRE(!FL2_isError(r), "compression into compressBound(%zu)=%zu bytes fails: %s", n, bound, FL2_getErrorName(r));
    REQUIRE(r <= bound, "compressed size %zu exceeds the bound %zu", r, bound);
    if (!omit) {
        size_t ds = FL2_getDictSizeFromProp(dst[0] & 0x3F);
        REQUIRE(!FL2_isError(ds) && ((dst[0] & 0x40) == 0), "property byte %02x", dst[0]);
        REQUIRE(ds >= n || ds >= ((size_t)1 << 20), "dictionary %zu", ds);
        unsigned long long q = FL2_findDecompressedSize(dst, r);
        REQUIRE(q == n, "size query gives %llu for %zu", q, n);
    }
    u8 *cmp = xmalloc(r); memcpy(cmp, dst, r);
    size_t cap = chance(70) ? n : n + rn(100);
    u8 *out = xmalloc(cap); memset(out, 0x5A, cap);
    if (omit) { size_t e = FL2_initDCtx(dc[dt], FL2_getCCtxDictProp(cc[t])); REQUIRE(!FL2_isError(e), "initDCtx: %s", FL2_getErrorName(e)); }
    size_t o = FL2_decompressDCtx(dc[dt], out, cap, cmp, r);
    REQUIRE(o == n, "decompression gives %s (%zu) instead of %zu", FL2_getErrorName(o), o, n);
    REQUIRE(!memcmp(out, src, n), "decompressed content differs");
    for (size_t i = n; i < cap; ++i) REQUIRE(out[i] == 0x5A, "byte written past the decompressed size");
    if (!omit && n && chance(40)) {
        /* destination one byte (or more) too small, source cut short */
        size_t c2 = chance(50) ? n - 1 : rn(n); u8 *o2 = xmalloc(c2);
        size_t e = FL2_decompressDCtx(dc[dt], o2, c2, cmp, r);
        REQUIRE(FL2_isError(e), "decompressing %zu bytes into %zu reports %zu", n, c2, e);
        free(o2);
        size_t l2 = chance(50) ? r - 1 : rn(r); u8 *c3 = xmalloc(l2); memcpy(c3, cmp, l2);
        e = FL2_decompressDCtx(dc[dt], out, cap, c3, l2);
        REQUIRE(FL2_isError(e), "decompressing a truncated stream (%zu of %zu bytes) reports %zu", l2, r, e);
        unsigned long long q = FL2_findDecompressedSize(c3, l2);
        /* only the hash can be missing without the size becoming unknown */
        REQUIRE(q == FL2_CONTENTSIZE_ERROR || (q == n && l2 + 4 >= r), "size query on a truncated stream gives %llu", q);
        free(c3);
    }
    if (chance(30)) {
        /* capacity below what is needed: an error, and nothing past the end */
        size_t c2 = chance(50) ? r - 1 : rn(r); u8 *d2 = xmalloc(c2);
        size_t e = FL2_compressCCtx(cc[t], d2, c2, src, n, 0);
        REQUIRE(FL2_isError(e) || e <= c2, "compression into %zu bytes reports %zu", c2, e);
        if (!FL2_isError(e) && th[t] == 1) REQUIRE(0, "the same compression needed %zu bytes and now fits %zu", r, c2);
        free(d2);
        /* the context is as good as new afterwards */
        e = FL2_compressCCtx(cc[t], dst, bound, src, n, 0);
        REQUIRE(!FL2_isError(e), "after a failed call the context reports %s", FL2_getErrorName(e));
        if (omit) FL2_initDCtx(dc[dt], FL2_getCCtxDictProp(cc[t]));
        o = FL2_decompressDCtx(dc[dt], out, cap, dst, e);
        REQUIRE(o == n && !memcmp(out, src, n), "content after a failed call differs");
    }
    if (n) ++nontriv;
    free(src); free(dst); free(cmp); free(out);
}
