/* Streaming compression and decompression: random call sequences, buffer splits, flushes, dictionary push/pull, timeouts, cancel, abandon,
 * parameter changes, failed calls in between. mode bit 0: timeouts and dual buffering; bit 1: small content only.
 * Contracts: positions, exact remaining size, bytes independent of the output split, hash exact, content restored by every decoder. */
#include "drv.h"
static u32 xxh32(const u8 *p, size_t n)   /* independent XXH32, seed 0 */
{
    const u32 P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
    const u8 *e = p + n; u32 h;
#define RD(q) ((u32)(q)[0] | (u32)(q)[1] << 8 | (u32)(q)[2] << 16 | (u32)(q)[3] << 24)
#define ROL(x, r) ((x) << (r) | (x) >> (32 - (r)))
    if (n >= 16) { u32 v[4] = {P1 + P2, P2, 0, 0 - P1}; for (; e - p >= 16; p += 16) for (int i = 0; i < 4; ++i) { v[i] += RD(p + 4 * i) * P2; v[i] = ROL(v[i], 13) * P1; } h = ROL(v[0], 1) + ROL(v[1], 7) + ROL(v[2], 12) + ROL(v[3], 18); }
    else h = P5;
    h += (u32)n;
    for (; e - p >= 4; p += 4) { h += RD(p) * P3; h = ROL(h, 17) * P4; }
    for (; p < e; ++p) { h += *p * P5; h = ROL(h, 11) * P1; }
    h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16; return h;
}
static FL2_CStream *cs[4]; static unsigned used[4]; static FL2_DStream *ds[2]; static FL2_DCtx *dc; static unsigned dused;
static u8 *acc; static size_t accn, acccap;
static void push(const void *p, size_t n) { if (!n) return; if (accn + n > acccap) { acccap = (accn + n) * 2; acc = realloc(acc, acccap); } memcpy(acc + accn, p, n); accn += n; }
static int timed, asyncs;
/* wait out a timeout; returns non-timeout result */
#define CALL(r, expr) do { unsigned long spins_ = 0; for (;;) { r = (expr); if (!FL2_isTimedOut(r)) break; REQUIRE(timed, "timed out without a timeout"); if (++spins_ % 64 == 0) usleep(200); } } while (0)
static size_t drain_one(FL2_CStream *z)
{
    /* one output call of some kind; returns what the library says */
    size_t r; int k = (int)rn(3);
    if (k == 0) {
        FL2_cBuffer cb; CALL(r, FL2_getNextCompressedBuffer(z, &cb)); REQUIRE(!FL2_isError(r), "getNextCompressedBuffer: %s", FL2_getErrorName(r));
        REQUIRE(r == cb.size, "size of the compressed buffer"); push(cb.src, cb.size); return r != 0;
    }
    size_t cap = chance(60) ? 1000000 : rn(50); u8 *o = xmalloc(cap); FL2_outBuffer ob = { o, cap, 0 };
    if (k == 1 && !asyncs) {
        size_t rem = FL2_remainingOutputSize(z);
        if (chance(30) && cap) { ob.pos = rn(cap); }
        size_t p0 = ob.pos;
        r = FL2_copyCStreamOutput(z, &ob);
        REQUIRE(ob.pos >= p0 && ob.pos <= cap, "output position"); REQUIRE(ob.pos - p0 == (rem < cap - p0 ? rem : cap - p0), "remaining output said %zu, copied %zu of %zu", rem, ob.pos - p0, cap - p0);
        REQUIRE(r == (rem > cap - p0), "copy result %zu", r); REQUIRE(FL2_remainingOutputSize(z) == rem - (ob.pos - p0), "remaining output after the copy");
        push(o + p0, ob.pos - p0);
    } else { CALL(r, FL2_waitCStream(z)); if (!FL2_isError(r)) r = FL2_copyCStreamOutput(z, &ob); push(o, ob.pos); }
    free(o); REQUIRE(!FL2_isError(r), "copying output: %s", FL2_getErrorName(r)); return r;
}
static void drain(FL2_CStream *z) { for (int i = 0; i < 2000000; ++i) { size_t r; CALL(r, FL2_waitCStream(z)); REQUIRE(!FL2_isError(r), "wait: %s", FL2_getErrorName(r)); if (r == 0) return; drain_one(z); } fail("output never ends"); }
/* feed n bytes; plain: one call style without flushes */
static void feed(FL2_CStream *z, const u8 *p, size_t n, int plain, int abandon)
{
    size_t i = 0, r; size_t stop = abandon ? rn(n + 1) : n; unsigned long steps = 0;
    while (i < stop) {
        REQUIRE(++steps < 3000000, "no progress");
        size_t c = plain ? stop - i : chance(20) ? rn(30) : chance(50) ? rn(5000) : rn(stop - i + 1);
        if (n > 500000 && c < 3000) c = rn(100000);
        if (c > stop - i) c = stop - i;
        int k = plain ? 0 : (int)rn(4);
        if (k == 3) {
            FL2_dictBuffer d; CALL(r, FL2_getDictionaryBuffer(z, &d)); REQUIRE(!FL2_isError(r), "getDictionaryBuffer: %s", FL2_getErrorName(r));
            if (d.size == 0) { drain(z); continue; }
            if (c > d.size) c = d.size;
            memcpy(d.dst, p + i, c); i += c;
            r = FL2_updateDictionary(z, c); if (FL2_isTimedOut(r)) continue; REQUIRE(!FL2_isError(r), "updateDictionary: %s", FL2_getErrorName(r));
            if (r) drain(z);
        } else {
            u8 *ib = xmalloc(c); memcpy(ib, p + i, c); size_t off = chance(10) && c ? rn(c) : 0;
            FL2_inBuffer in = { ib, c, off }; memcpy(ib + off, p + i, c - off);
            size_t cap = plain == 2 ? 1 + rn(200) : k == 1 ? rn(2000) : 2000000; u8 *o = k == 2 ? NULL : xmalloc(cap); FL2_outBuffer ob = { o, cap, 0 };
            if (k == 2) drain(z);
            for (;;) {
                size_t p0 = in.pos, o0 = ob.pos;
                r = FL2_compressStream(z, k == 2 ? NULL : &ob, &in);
                REQUIRE(in.pos >= p0 && in.pos <= c, "input position"); REQUIRE(ob.pos >= o0 && ob.pos <= cap, "output position");
                if (!FL2_isTimedOut(r)) break;
                REQUIRE(timed, "timed out without a timeout"); usleep(100);
            }
            REQUIRE(!FL2_isError(r), "compressStream: %s", FL2_getErrorName(r));
            if (k != 2) { push(o, ob.pos); free(o); }
            i += in.pos - off; free(ib);
            if (in.pos == off && c > off) drain(z);
            else if (in.pos < c && chance(30)) drain(z);
        }
        if (!plain && chance(4)) {
            for (;;) { u8 o[3000]; FL2_outBuffer ob = { o, chance(50) ? sizeof o : 1 + rn(100), 0 }; int nul = chance(30); if (nul) drain(z); CALL(r, FL2_flushStream(z, nul ? NULL : &ob)); REQUIRE(!FL2_isError(r), "flush: %s", FL2_getErrorName(r)); push(o, ob.pos); if (nul) drain(z); if (r == 0) break; REQUIRE(++steps < 3000000, "flush never ends"); }
            /* a flushed stream decodes up to here: checked at the end by the whole */
        }
        if (!plain && chance(10)) { unsigned long long os; (void)FL2_getCStreamProgress(z, &os); }
    }
}
static void finish(FL2_CStream *z, int plain)
{
    size_t r; unsigned long steps = 0;
    for (;;) {
        size_t cap = plain == 2 ? 1 + rn(100) : plain || chance(50) ? 2000000 : 1 + rn(3000); u8 *o = xmalloc(cap); FL2_outBuffer ob = { o, cap, 0 };
        int nul = !plain && chance(30); if (nul) drain(z);
        CALL(r, FL2_endStream(z, nul ? NULL : &ob)); REQUIRE(!FL2_isError(r), "endStream: %s", FL2_getErrorName(r));
        push(o, ob.pos); free(o);
        if (nul) drain(z);
        if (r == 0) break;
        REQUIRE(++steps < 3000000, "end of stream never comes");
    }
    drain(z);
}
static void check_decode(const u8 *src, size_t n, int omit, int prop, int hash)
{
    /* exact-size copy of what was emitted */
    u8 *in = xmalloc(accn); memcpy(in, acc, accn);
    u8 *out = xmalloc(n);
    if (!dc) dc = FL2_createDCtx();
    if (omit) FL2_initDCtx(dc, (u8)prop);
    size_t o = FL2_decompressDCtx(dc, out, n, in, accn);
    REQUIRE(o == n && !memcmp(out, src, n), "decompressing the stream: %s (%zu of %zu)", FL2_getErrorName(o), o, n);
    if (hash) {
        REQUIRE(accn >= 6 && (in[0] & 0x80), "no hash flag"); u32 h = xxh32(src, n); u8 *q = in + accn - 4;
        REQUIRE(q[0] == (u8)(h >> 24) && q[1] == (u8)(h >> 16) && q[2] == (u8)(h >> 8) && q[3] == (u8)h, "stored hash differs from XXH32 of the content");
    } else if (!omit) REQUIRE(!(in[0] & 0x80), "hash flag without a hash");
    int which = (int)rn(2);
    if (dused++ % 20 == 0) for (int i = 0; i < 2; ++i) { FL2_freeDStream(ds[i]); ds[i] = NULL; }
    if (!ds[which]) ds[which] = FL2_createDStreamMt(which ? 3 : 1);
    FL2_DStream *z = ds[which]; int dtimed = (opt_mode & 1) && chance(40); size_t r;
    if (which && chance(20)) FL2_setDStreamMemoryLimitMt(z, chance(50) ? 1 : rn(10000000)); else FL2_setDStreamMemoryLimitMt(z, (size_t)1 << 40);
    note(" D%d%s", which, dtimed ? "t" : "");
    for (int pass = 0; pass < 2; ++pass) {
        int bad = pass == 0 && hash && chance(50), aband = pass == 0 && !bad && chance(30);
        size_t badpos = 0;
        if (pass == 0 && !bad && !aband) continue;
        if (bad) { badpos = accn - 4 + rn(4); in[badpos] ^= (u8)(1 << rn(8)); }
        r = FL2_setDStreamTimeout(z, dtimed ? 1 : 0); REQUIRE(!FL2_isError(r), "setDStreamTimeout: %s", FL2_getErrorName(r));
        r = omit ? FL2_initDStream_withProp(z, (u8)prop) : FL2_initDStream(z); REQUIRE(!FL2_isError(r), "initDStream: %s", FL2_getErrorName(r));
        size_t ip = 0, op = 0; int idle = 0; memset(out, 0x77, n);
        size_t stop_at = aband ? rn(accn + 1) : (size_t)-1; int style = (int)rn(4);
        for (;;) {
            size_t ic = style == 0 ? accn - ip : rn(style == 1 ? 3000 : accn - ip + 1), oc = style == 0 ? n - op : rn(style == 2 ? 3000 : n - op + 1);
            if (n > 500000 && style) { if (ic < 2000) ic += rn(30000); if (oc < 2000) oc += rn(100000); }
            if (idle || ic > accn - ip) ic = accn - ip;
            if (idle || oc > n - op) oc = n - op;
            u8 *ib = xmalloc(ic), *ob = xmalloc(oc); memcpy(ib, in + ip, ic);
            FL2_inBuffer ibuf = { ib, ic, 0 }; FL2_outBuffer obuf = { ob, oc, 0 };
            r = FL2_decompressStream(z, &obuf, &ibuf);
            if (FL2_isTimedOut(r)) { REQUIRE(dtimed, "timed out without a timeout"); do r = FL2_waitDStream(z); while (FL2_isTimedOut(r)); if (FL2_isError(r)) REQUIRE(bad, "waitDStream: %s", FL2_getErrorName(r)); }
            REQUIRE(ibuf.pos <= ic && obuf.pos <= oc, "stream positions");
            memcpy(out + op, ob, obuf.pos); free(ib); free(ob); ip += ibuf.pos; op += obuf.pos;
            if (FL2_isError(r)) { REQUIRE(bad && FL2_getErrorCode(r) == FL2_error_checksum_wrong, "decompressStream: %s after %zu of %zu, %zu of %zu", FL2_getErrorName(r), ip, accn, op, n); break; }
            if (r == 0) { REQUIRE(!bad, "a wrong hash is accepted"); REQUIRE(op == n && !memcmp(out, src, n), "streamed content differs (%zu of %zu)", op, n); REQUIRE(ip == accn, "consumed %zu of %zu", ip, accn); if (!which) REQUIRE(FL2_getDStreamProgress(z) == n, "progress"); break; }
            if (ip >= stop_at) { if (chance(50)) FL2_cancelDStream(z); break; }
            idle = ibuf.pos == 0 && obuf.pos == 0;
        }
        if (bad) in[badpos] = acc[badpos];
    }
    free(in); free(out);
}
static void one_case(void)
{
    rule_text = "a case counts when the content was non-empty and the stream it produced was decoded and compared";
    int w = (int)rn(4); /* 0: one thread, 1: three threads, 2: one thread dual, 3: two threads dual */
    if (!(opt_mode & 1)) w &= 1;
    if (used[w]++ % 16 == 0) { FL2_freeCStream(cs[w]); cs[w] = FL2_createCStreamMt(w == 1 ? 3 : w == 3 ? 2 : 1, w >= 2); }
    FL2_CStream *z = cs[w]; if (!z) { fprintf(stderr, "no stream\n"); _exit(75); }
    timed = (opt_mode & 1) && chance(40); asyncs = w >= 2 || timed;
    size_t r = FL2_setCStreamTimeout(z, timed ? 1 : 0); REQUIRE(!FL2_isError(r), "setCStreamTimeout");
    note("w%d%s ", w, timed ? "t" : "");
    gen_params(z, 1);
    int omit = chance(15), hash = chance(50);
    FL2_CStream_setParameter(z, FL2_p_omitProperties, omit); FL2_CStream_setParameter(z, FL2_p_doXXHash, hash);
    size_t max = (opt_mode & 2) ? 200000 : 2600000, n = chance((opt_mode & 2) ? 90 : 50) ? gen_size(max < 300000 ? max : 300000) : rn(max); int kind = (int)rn(NKINDS);
    note(" k%d n%zu o%d h%d", kind, n, omit, hash);
    if (n > 600000) { FL2_CStream_setParameter(z, FL2_p_searchDepth, rr(6, 30)); if (chance(80)) FL2_CStream_setParameter(z, FL2_p_strategy, rn(2)); }
    u8 *src = xmalloc(n); gen(src, n, kind);
    if (n > 1000) for (int i = 0; i < 3; ++i) { size_t a = rn(n - 500), l = rn(n - a); if (chance(50)) gen(src + a, l, (int)rn(NKINDS)); else { size_t b = rn(a + 1); memmove(src + a, src + b, l < n - a ? l : n - a); } }
    int level = 0;
    if (chance(15)) { /* leave something behind first: an abandoned, cancelled or failed stream */
        r = FL2_initCStream(z, 0); REQUIRE(!FL2_isError(r), "initCStream: %s", FL2_getErrorName(r));
        accn = 0; feed(z, src, n, 0, 1); int how = (int)rn(4); note(" ab%d", how);
        if (how == 0) FL2_cancelCStream(z);
        else if (how == 1) { u8 d[10]; r = FL2_compressCCtx(z, d, sizeof d, src, n, 0); (void)r; }
        else if (how == 2) { FL2_CStream_setParameter(z, FL2_p_dictionaryLog, 21); }
        if (how == 3 && chance(50)) { FL2_outBuffer ob = { NULL, 0, 0 }; for (int i = 0; i < 20; ++i) FL2_endStream(z, &ob); }
    }
    r = FL2_initCStream(z, level); REQUIRE(!FL2_isError(r), "initCStream: %s", FL2_getErrorName(r));
    accn = 0; feed(z, src, n, 0, 0); finish(z, 0);
    check_decode(src, n, omit, omit ? FL2_getCCtxDictProp(z) : -1, hash && !omit);
    if (chance(30) && w != 1 && w != 3) {
        /* whatever the output buffers, the same bytes */
        u8 *one = NULL; size_t onen = 0;
        for (int i = 0; i < 2; ++i) {
            r = FL2_initCStream(z, 0); REQUIRE(!FL2_isError(r), "initCStream: %s", FL2_getErrorName(r));
            accn = 0; feed(z, src, n, i ? 2 : 1, 0); finish(z, i ? 2 : 1);
            if (!i) { onen = accn; one = xmalloc(onen); memcpy(one, acc, onen); }
        }
        REQUIRE(accn == onen && !memcmp(one, acc, onen), "the stream depends on the output buffers");
        free(one);
    }
    if (n) ++nontriv;
    free(src);
}
