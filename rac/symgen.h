/* An LZMA2 writer independent of the library: random symbols, valid or deliberately not, with the content they stand for. */
typedef uint16_t u16;
typedef struct { u8 *o; size_t n, cap; u64 low, csz; u32 range; u8 cache; } src_rc;
typedef struct { u16 ch, ch2, lo[16][8], mid[16][8], hi[256]; } s_len;
typedef struct { u16 match[12][16], rep[12], g0[12], g1[12], g2[12], l0[12][16], slot[4][64], spec[128], align[16], lit[0x300 << 4]; s_len len, rlen; unsigned st; u32 r[4]; unsigned lc, lp, pb; } s_st;
static void s_shift(src_rc *c)
{
    if ((u32)c->low < 0xFF000000u || c->low >> 32) {
        u8 x = c->cache; do { if (c->n < c->cap) c->o[c->n++] = (u8)(x + (u8)(c->low >> 32)); x = 0xFF; } while (--c->csz);
        c->cache = (u8)(c->low >> 24);
    }
    ++c->csz; c->low = (c->low & 0x00FFFFFF) << 8;
}
static void s_bit(src_rc *c, u16 *p, unsigned b)
{
    u32 bound = (c->range >> 11) * *p;
    if (!b) { c->range = bound; *p += (2048 - *p) >> 5; } else { c->low += bound; c->range -= bound; *p -= *p >> 5; }
    while (c->range < 1u << 24) { c->range <<= 8; s_shift(c); }
}
static void s_tree(src_rc *c, u16 *p, int n, unsigned v) { unsigned m = 1; while (n--) { unsigned b = v >> n & 1; s_bit(c, p + m, b); m = m * 2 + b; } }
static void s_rtree(src_rc *c, u16 *p, int n, unsigned v) { unsigned m = 1; for (int i = 0; i < n; ++i) { unsigned b = v >> i & 1; s_bit(c, p + m, b); m = m * 2 + b; } }
static void s_init(s_st *s) { u16 *p = (u16 *)s; for (size_t i = 0; i < offsetof(s_st, st) / 2; ++i) p[i] = 1024; s->st = 0; memset(s->r, 0, sizeof s->r); }
static void s_length(src_rc *c, s_len *l, unsigned ps, unsigned n)
{
    n -= 2;
    if (n < 8) { s_bit(c, &l->ch, 0); unsigned m = 1; for (int i = 2; i >= 0; --i) { unsigned b = n >> i & 1; s_bit(c, &l->lo[ps][m], b); m = m * 2 + b; } }
    else if (n < 16) { s_bit(c, &l->ch, 1); s_bit(c, &l->ch2, 0); n -= 8; unsigned m = 1; for (int i = 2; i >= 0; --i) { unsigned b = n >> i & 1; s_bit(c, &l->mid[ps][m], b); m = m * 2 + b; } }
    else { s_bit(c, &l->ch, 1); s_bit(c, &l->ch2, 1); s_tree(c, l->hi, 8, n - 16); }
}
static void s_dist(src_rc *c, s_st *s, unsigned len, u32 d)
{
    unsigned ls = len < 6 ? len - 2 : 3, slot;
    if (d < 4) slot = d; else { int hb = 31 - __builtin_clz(d); slot = (unsigned)hb * 2 + (d >> (hb - 1) & 1); }
    s_tree(c, s->slot[ls], 6, slot);
    if (slot >= 4) {
        int f = (int)(slot >> 1) - 1; u32 base = (2 | (slot & 1)) << f, red = d - base;
        if (slot < 14) { unsigned m = 1; u16 *p = s->spec + base - slot; for (int i = 0; i < f; ++i) { unsigned b = red >> i & 1; s_bit(c, p + m, b); m = m * 2 + b; } }
        else {
            for (int i = f - 1; i >= 4; --i) { c->range >>= 1; if (red >> i & 1) c->low += c->range; while (c->range < 1u << 24) { c->range <<= 8; s_shift(c); } }
            s_rtree(c, s->align, 4, red & 15);
        }
    }
}
/* a stream of up to `maxout` bytes in out[]; returns its size in in[]; *valid tells whether it denotes *plain bytes */
static size_t symgen(u8 *in, size_t incap, u8 *out, size_t maxout, size_t *plain, int *valid)
{
    static s_st s; size_t w = 0, pos = 0, from = 0; unsigned prop = (unsigned)rn(6); size_t dict = (size_t)(2 | (prop & 1)) << (prop / 2 + 11);
    int nch = (int)rr(1, 6), first = 1, noprop = 1, nostate = 1; *valid = 1;
    in[w++] = (u8)prop;
    for (int k = 0; k < nch && *valid && w + 200 < incap; ++k) {
        int mode = first ? 3 : chance(8) ? 3 : (int)rn(3);
        if (noprop && mode < 2) mode = 2; if (nostate && mode == 0) mode = 1 + noprop;
        int stored = chance(15);
        if (stored) {
            size_t n = rr(1, 300); if (n > maxout - pos) n = maxout - pos; if (!n) break;
            int rd = first || chance(10); in[w++] = rd ? 1 : 2; in[w++] = (u8)((n - 1) >> 8); in[w++] = (u8)(n - 1);
            if (rd) { from = pos; noprop = nostate = 1; }
            while (n--) in[w++] = out[pos++] = (u8)(rn(4) ? rn(3) : rnd());
            first = 0; continue;
        }
        if (mode == 3) from = pos;
        if (mode >= 2) { s.lc = (unsigned)rn(5); s.lp = (unsigned)rn(5 - s.lc); s.pb = (unsigned)rn(5); noprop = 0; }
        if (mode) { s_init(&s); nostate = 0; }
        first = 0;
        size_t h = w, p0 = pos, hl = 5 + (mode >= 2); src_rc c = { in + w + hl, 0, incap - w - hl - 16, 0, 1, 0xFFFFFFFFu, 0 };
        int syms = (int)rr(1, chance(10) ? 3000 : 60), bad = chance(12) ? (int)rn(syms) : -1;
        for (int i = 0; i < syms && pos < maxout && c.n + 64 < c.cap && c.n < 60000; ++i) {
            size_t done = pos - from, hist = done < dict ? done : dict; unsigned ps = (unsigned)done & ((1u << s.pb) - 1);
            unsigned kind = hist ? (unsigned)rn(8) : 0; int isbad = i == bad;
            if (isbad) kind = 6;
            if (kind >= 3 && kind < 6) { /* repeats: only when the distance exists */ unsigned q = (unsigned)rn(4); if (s.r[q] >= hist) kind = 0; else {
                s_bit(&c, &s.match[s.st][ps], 1); s_bit(&c, &s.rep[s.st], 1);
                if (q == 0) { s_bit(&c, &s.g0[s.st], 0);
                    if (chance(40)) { s_bit(&c, &s.l0[s.st][ps], 0); s.st = s.st < 7 ? 9 : 11; out[pos] = out[pos - s.r[0] - 1]; ++pos; continue; }
                    s_bit(&c, &s.l0[s.st][ps], 1);
                } else { s_bit(&c, &s.g0[s.st], 1); s_bit(&c, &s.g1[s.st], q > 1); if (q > 1) s_bit(&c, &s.g2[s.st], q > 2); u32 d = s.r[q]; for (unsigned j = q; j; --j) s.r[j] = s.r[j - 1]; s.r[0] = d; }
                unsigned len = chance(80) ? (unsigned)rr(2, 20) : (unsigned)rr(2, 273); if (len > maxout - pos) len = (unsigned)(maxout - pos); if (len < 2) { *valid = 0; len = 2; }
                s_length(&c, &s.rlen, ps, len); s.st = s.st < 7 ? 8 : 11;
                while (len-- && pos < maxout) { out[pos] = out[pos - s.r[0] - 1]; ++pos; } continue; } }
            if (kind >= 6) {
                u32 d; unsigned len = chance(80) ? (unsigned)rr(2, 20) : (unsigned)rr(2, 273);
                if (len > maxout - pos) len = (unsigned)(maxout - pos);
                if (len < 2) kind = 0; else {
                    d = isbad ? (chance(50) ? (u32)hist : chance(50) ? (u32)(hist + rn(70000)) : (u32)rnd()) : chance(30) ? (u32)(hist - 1) : (u32)rn(hist);
                    if (d >= hist && !(done >= dict && d < done && 0)) *valid = 0;
                    s_bit(&c, &s.match[s.st][ps], 1); s_bit(&c, &s.rep[s.st], 0); s_length(&c, &s.len, ps, len); s_dist(&c, &s, len, d);
                    s.r[3] = s.r[2]; s.r[2] = s.r[1]; s.r[1] = s.r[0]; s.r[0] = d; s.st = s.st < 7 ? 7 : 10;
                    while (len-- && pos < maxout) { out[pos] = d < pos - from ? out[pos - d - 1] : 0; ++pos; } if (!*valid) i = syms; continue;
                }
            }
            { u8 b = (u8)(chance(60) ? 'a' + rn(3) : rnd()), prev = done || p0 ? (pos > 0 ? out[pos - 1] : 0) : 0; if (done == 0) prev = 0;
              u16 *p = s.lit + 0x300 * (((done & ((1u << s.lp) - 1)) << s.lc) + (prev >> (8 - s.lc)));
              s_bit(&c, &s.match[s.st][ps], 0);
              if (s.st < 7) s_tree(&c, p, 8, b);
              else { unsigned mb = (u32)s.r[0] < pos ? out[pos - s.r[0] - 1] : 0, off = 0x100, m = 1; for (int j = 7; j >= 0; --j) { unsigned bit = b >> j & 1; mb <<= 1; s_bit(&c, p + off + (mb & off) + m, bit); m = m * 2 + bit; off &= bit ? mb : ~mb; } }
              s.st = s.st < 4 ? 0 : s.st < 10 ? s.st - 3 : s.st - 6; out[pos++] = b; }
        }
        for (int i = 0; i < 5; ++i) s_shift(&c);
        size_t u = pos - p0; if (!u) { w = h; break; }
        in[h] = (u8)(0x80 | mode << 5 | (u - 1) >> 16); in[h + 1] = (u8)((u - 1) >> 8); in[h + 2] = (u8)(u - 1); in[h + 3] = (u8)((c.n - 1) >> 8); in[h + 4] = (u8)(c.n - 1);
        if (mode >= 2) in[h + 5] = (u8)((s.pb * 5 + s.lp) * 9 + s.lc);
        w = h + hl + c.n;
    }
    in[w++] = 0; *plain = pos; return w;
}
