/* Match finder contracts on the built table: every entry is a true repeat within the block, extended and limited matches too; several threads
 * build exactly the table one thread builds; list heads are all released. mode bit 0: structured tables (large dictionaries) as well. */
#include "drv.h"
#include <pthread.h>
#include "mem.h"
#include "util.h"
#include "fl2_internal.h"
#include "radix_internal.h"
#ifndef kMatchLenMin
#define kMatchLenMin 2U
#define kMatchLenMax 273U
#endif
#include "radix_get.h"
typedef struct { FL2_matchTable *t; size_t job; FL2_dataBlock b; int r; } job_t;
static void *worker(void *p) { job_t *j = p; if (j->job & 1) sched_yield(); j->r = RMF_buildTable(j->t, j->job, 1, j->b); return NULL; }
static void entry(FL2_matchTable *t, size_t pos, u32 *link, u32 *len)
{
    if (t->is_struct) { RMF_unit *u = (RMF_unit*)t->table; *link = u[pos >> 2].links[pos & 3]; *len = u[pos >> 2].lengths[pos & 3]; }
    else { u32 v = t->table[pos]; *link = v == RADIX_NULL_LINK ? v : v & RADIX_LINK_MASK; *len = v >> RADIX_LINK_BITS; }
    if (*link == RADIX_NULL_LINK) *len = 0;
}
static FL2_matchTable *tt[2][2]; static unsigned uses;
static void one_case(void)
{
    rule_text = "a case counts when the built table holds at least one match; every entry of it is compared with the data";
    RMF_parameters p; memset(&p, 0, sizeof p);
    int st = (opt_mode & 1) && chance(30); unsigned nt = (unsigned)rr(2, 4); if (nt > 4) nt = 4;
    p.dictionary_size = st ? ((size_t)1 << 26) + 4096 : (size_t)1 << 20;
    p.match_buffer_resize = (unsigned)rn(5); p.divide_and_conquer = (unsigned)rn(2); p.depth = chance(50) ? (unsigned)rr(6, 30) : (unsigned)rr(6, 254); p.overlap_fraction = 0;
    size_t n = chance(30) ? gen_size(60000) : gen_size(600000); if (!n) n = 1;
    int kind = (int)rn(NKINDS);
    size_t start = chance(40) ? rn(n) : 0;
    note("struct%d buf%u dc%u depth%u n%zu start%zu k%d", st, p.match_buffer_resize, p.divide_and_conquer, p.depth, n, start, kind);
    u8 *d = xmalloc(n); gen(d, n, kind); if (chance(30) && n > 3000) gen(d + n / 3, n / 3, (int)rn(NKINDS));
    if (chance(20)) { size_t k = rr(1, 60); for (size_t i = n > k ? n - k : 0; i < n; ++i) d[i] = d[0]; }
    if (uses++ % 40 == 0) for (int i = 0; i < 4; ++i) { RMF_freeMatchTable(tt[i & 1][i >> 1]); tt[i & 1][i >> 1] = NULL; }
    FL2_matchTable *t[2];
    for (int i = 0; i < 2; ++i) {
        if (tt[st][i] && !RMF_compatibleParameters(tt[st][i], &p, 0)) { RMF_freeMatchTable(tt[st][i]); tt[st][i] = NULL; }
        if (!tt[st][i]) tt[st][i] = RMF_createMatchTable(&p, 0, i ? 4 : 1);
        else { size_t e = RMF_applyParameters(tt[st][i], &p, 0); REQUIRE(!FL2_isError(e), "applyParameters: %s", FL2_getErrorName(e)); }
        t[i] = tt[st][i]; if (!t[i]) { fprintf(stderr, "no table\n"); _exit(75); }
        REQUIRE(t[i]->params.dictionary_size >= n, "dictionary");
        REQUIRE(!!t[i]->is_struct == st, "kind of table");
        if (chance(5)) { /* cancelled before: the table must recover */ RMF_initProgress(t[i]); RMF_initTable(t[i], d, n); RMF_cancelBuild(t[i]); FL2_dataBlock b = { d, start, n }; int r = RMF_buildTable(t[i], 0, 0, b); REQUIRE(r, "a cancelled build says so"); }
        RMF_initProgress(t[i]);
        RMF_initTable(t[i], d, n);
    }
    FL2_dataBlock b = { d, start, n };
    REQUIRE(RMF_buildTable(t[0], 0, 0, b) == 0, "build fails");
    { job_t j[4]; pthread_t th[4]; for (unsigned i = 0; i < nt; ++i) { j[i].t = t[1]; j[i].job = i; j[i].b = b; j[i].r = -1; if (i && pthread_create(&th[i], NULL, worker, &j[i])) _exit(75); }
      worker(&j[0]); for (unsigned i = 1; i < nt; ++i) pthread_join(th[i], NULL); for (unsigned i = 0; i < nt; ++i) REQUIRE(j[i].r == 0, "multithreaded build fails"); }
    for (int i = 0; i < 2; ++i) for (size_t k = 0; k < RADIX16_TABLE_SIZE; ++k) REQUIRE(t[i]->list_heads[k].head == RADIX_NULL_LINK, "list head %zu left behind", k);
    size_t found = 0; u32 link, len, l2, n2;
    for (size_t pos = start; pos < n; ++pos) {
        entry(t[0], pos, &link, &len); entry(t[1], pos, &l2, &n2);
        REQUIRE(link == l2 && len == n2, "position %zu: link %u length %u alone, link %u length %u with %u threads", pos, link, len, l2, n2, nt);
        if (link == RADIX_NULL_LINK) continue;
        REQUIRE(link < pos, "position %zu links forward to %u", pos, link);
        REQUIRE(len >= 2, "position %zu: length %u link %u (data %02x%02x%02x%02x%02x%02x)", pos, len, link, d[pos], d[pos+1], d[pos+2], d[pos+3], d[pos+4], d[pos+5]);
        /* extends past the end only what RMF_limitLengths cuts */
        size_t m = len > n - pos ? n - pos : len;
        REQUIRE(!memcmp(d + pos, d + link, m), "position %zu: link %u length %u is not a repeat", pos, link, len);
        ++found;
    }
    /* the encoder's view of a few slices, last one first as a slice end cuts the entries before it */
    unsigned depth = p.depth & ~1u; size_t e = n;
    for (int k = 0; k < 3 && e > start; ++k) {
        RMF_limitLengths(t[0], e);
        size_t s = e - start > 3000 && chance(70) ? e - rr(1, 3000) : start;
        FL2_dataBlock sb = { d, s, e };
        for (size_t pos = s; pos < e; ++pos) for (int nx = 0; nx < 2; ++nx) {
            if (pos == 0 && nx) continue;
            RMF_match m = nx ? RMF_getNextMatch(sb, t[0], depth, st, pos) : RMF_getMatch(sb, t[0], depth, st, pos);
            if (m.length < 2) { REQUIRE(m.length == 0, "length 1"); continue; }
            REQUIRE(m.dist < pos, "distance %u at %zu", m.dist, pos);
            REQUIRE(m.length <= e - pos, "position %zu: length %u passes the slice end %zu", pos, m.length, e);
            REQUIRE(m.length <= kMatchLenMax, "length %u", m.length);
            REQUIRE(!memcmp(d + pos, d + pos - m.dist - 1, m.length), "position %zu: distance %u length %u is not a repeat", pos, m.dist, m.length);
        }
        e = s > start + 2000 ? s - rn(1000) : s;
    }
    if (found) ++nontriv;
    free(d);
}
