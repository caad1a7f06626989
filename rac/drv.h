/* Runtime checking of the contracts on the compiled library: case loop, content and parameter generators. */
#ifndef DRV_H
#define DRV_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include "fast-lzma2.h"
#include "fl2_errors.h"
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
static u64 rs;
static u64 rnd(void) { rs += 0x9E3779B97F4A7C15ull; u64 z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u64 rn(u64 n) { return n ? rnd() % n : 0; }           /* 0..n-1 */
static u64 rr(u64 a, u64 b) { return a + rn(b - a + 1); }
static int chance(unsigned pc) { return rn(100) < pc; }
static const char *status_file; static char case_note[512];
static u64 case_no; static u64 evals, nontriv; static char samples[4][300]; static int nsamp;
static int note_fd = -1;
static void note(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); size_t l = strlen(case_note);
    if (l < sizeof(case_note) - 2) vsnprintf(case_note + l, sizeof(case_note) - l, fmt, ap);
    va_end(ap);
}
static void fail(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "CONTRACT VIOLATED (case %llu: %s): ", (unsigned long long)case_no, case_note); vfprintf(stderr, fmt, ap); fputc('\n', stderr);
    va_end(ap); fflush(stderr); _exit(1);
}
#define REQUIRE(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
static void on_alarm(int s) { (void)s; static const char m[] = "CONTRACT VIOLATED: the call does not terminate\n"; if (write(2, m, sizeof m - 1)) {} _exit(1); }
static void *xmalloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) { fprintf(stderr, "driver out of memory\n"); _exit(75); } return p; }
#ifndef ALARM_SECS
#define ALARM_SECS 100
#endif

/* ---- content ---- */
#define NKINDS 12
static const char *words[] = {"the ", "compression ", "of ", "a ", "stream ", "block ", "dictionary", "\n", ", ", "match", "er ", "ing ", "0x", "12", "int ", "return ", ";\n", "(", ")", "<td>"};
static void gen(u8 *p, size_t n, int kind)
{
    size_t i = 0;
    switch (kind) {
    case 0: while (i < n) p[i++] = (u8)rnd(); break;                                      /* incompressible */
    case 1: memset(p, chance(50) ? 0 : (int)rnd(), n); break;                             /* one byte */
    case 2: while (i < n) { const char *w = words[rn(20)]; while (*w && i < n) p[i++] = (u8)*w++; } break; /* text */
    case 3: { size_t per = rr(1, chance(50) ? 8 : 600); for (; i < n; ++i) p[i] = i < per ? (u8)rnd() : p[i - per]; break; }
    case 4: while (i < n) { size_t l = rr(1, 700); u8 c = (u8)rn(4); while (l-- && i < n) p[i++] = c; } break; /* runs */
    case 5: { u32 a = (u32)rnd(); while (i < n) { a += (u32)rn(7); for (int k = 0; k < 4 && i < n; ++k) p[i++] = (u8)(a >> 8 * k); } break; } /* records */
    case 6: while (i < n) { /* copies from anywhere behind, with edits */
            if (i < 4 || chance(20)) { size_t l = rr(1, 20); while (l-- && i < n) p[i++] = (u8)rnd(); }
            else { size_t d = chance(30) ? rr(1, i < 64 ? i : 64) : rr(1, i), l = chance(10) ? rr(200, 700) : rr(2, 40); while (l-- && i < n) { p[i] = p[i - d]; ++i; } if (chance(30) && i < n) p[i++] = (u8)rnd(); }
        } break;
    case 7: { size_t d[4] = {1, 2, 3, 4}; while (i < n) { /* few distances: repeat matches */
            int k = (int)rn(4); if (chance(5)) d[k] = rr(1, i + 1); size_t l = chance(60) ? rr(1, 4) : rr(1, 300);
            if (d[k] > i) { p[i++] = (u8)rn(5); continue; }
            while (l-- && i < n) { p[i] = p[i - d[k]]; ++i; } if (chance(50) && i < n) p[i++] = (u8)rn(3); } break; }
    case 8: while (i < n) p[i++] = (u8)rn(2); break;                                      /* two symbols */
    case 9: { int b = (int)rn(8); while (i < n) { size_t l = rr(1, 3000); int r = (int)rn(5); size_t s = i; for (; l-- && i < n; ++i) p[i] = r == 0 ? (u8)rnd() : r == 1 ? (u8)b : r == 2 && i > 2048 ? p[i - 2048] : r == 3 ? (u8)(i - s) : (u8)(rn(6) + 'a'); } break; } /* mixture */
    case 10: while (i < n) p[i++] = chance(97) ? 0 : (u8)rn(3); break;                    /* sparse */
    default: { size_t a = rr(2, 40); u8 t[64]; for (size_t k = 0; k < a; ++k) t[k] = (u8)rnd(); while (i < n) { size_t s = rn(a - 1), l = rr(2, 3); for (; l-- && i < n && s < a; ++s) p[i++] = t[s]; } } /* many short matches */
    }
}
static size_t gen_size(size_t max)
{
    static const size_t edge[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 64, 256, 4095, 4096, 29760, 65535, 65536, 65537, 131072};
    size_t r;
    switch (rn(6)) { case 0: r = edge[rn(20)]; break; case 1: r = rn(64); break; case 2: r = rn(4096); break; case 3: r = rn(70000); break; case 4: r = rn(300000); break; default: r = rn(max + 1); }
    return r > max ? max : r;
}
/* ---- parameters ---- */
typedef struct { FL2_cParameter p; size_t v; } pset;
static int gen_params(FL2_CCtx *c, int small_dict)
{
    int level = (int)rr(1, 10);
    if (chance(30)) { FL2_CCtx_setParameter(c, FL2_p_highCompression, 1); }
    FL2_CCtx_setParameter(c, FL2_p_compressionLevel, level);
    if (small_dict || chance(70)) FL2_CCtx_setParameter(c, FL2_p_dictionaryLog, 20);
    note("L%d", level);
#define SP(P, V) do { size_t v_ = (V); size_t e_ = FL2_CCtx_setParameter(c, P, v_); REQUIRE(!FL2_isError(e_), "parameter %d rejects %zu", (int)P, v_); note(" p%d=%zu", (int)P, v_); } while (0)
    if (chance(40)) SP(FL2_p_strategy, rn(3));
    if (chance(30)) SP(FL2_p_overlapFraction, rn(15));
    if (chance(30)) SP(FL2_p_resetInterval, rr(1, 16));
    if (chance(20)) SP(FL2_p_bufferResize, rn(5));
    if (chance(20)) SP(FL2_p_hybridChainLog, rr(4, 14));
    if (chance(20)) SP(FL2_p_hybridCycles, rr(1, 64));
    if (chance(40)) SP(FL2_p_searchDepth, chance(50) ? rr(6, 20) : rr(6, 254));
    if (chance(30)) SP(FL2_p_fastLength, chance(50) ? rr(6, 20) : rr(6, 273));
    if (chance(30)) SP(FL2_p_divideAndConquer, rn(2));
    if (chance(40)) { size_t lc = rn(5), lp = rn(5 - lc); SP(FL2_p_literalPosBits, 0); SP(FL2_p_literalCtxBits, lc); SP(FL2_p_literalPosBits, lp); }
    if (chance(40)) SP(FL2_p_posBits, rn(5));
    if (chance(20)) SP(FL2_p_doXXHash, rn(2));
    return level;
}
static void one_case(void);          /* the driver's body */
static const char *rule_text;
static int opt_mode; static double opt_scale = 1;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void run_case(u64 c)
{
    case_no = c; case_note[0] = 0; rs = c * 0x2545F4914F6CDD1Dull + 7777;
    rnd();
    if (status_file) { FILE *f = fopen(status_file, "w"); if (f) { fprintf(f, "%llu\n", (unsigned long long)c); fclose(f); } }
    alarm(ALARM_SECS);
    one_case();
    alarm(0);
    ++evals;
    if (nsamp < 4 && case_note[0]) { snprintf(samples[nsamp], sizeof samples[0], "case %llu: %.250s", (unsigned long long)c, case_note); ++nsamp; }
}
int main(int argc, char **argv)
{
    double secs = 5; u64 seed = 1, only = 0; int have_case = 0;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--secs")) secs = atof(argv[++i]);
        else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--status")) status_file = argv[++i];
        else if (!strcmp(argv[i], "--case")) { only = strtoull(argv[++i], 0, 10); have_case = 1; }
        else if (!strcmp(argv[i], "--mode")) opt_mode = atoi(argv[++i]);
    }
    signal(SIGALRM, on_alarm);
    if (have_case) run_case(only);
    else {
        double t0 = now();
        for (u64 c = seed * 1000000; evals == 0 || now() - t0 < secs; ++c) run_case(c);
    }
    printf("{\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"rule\": \"%s\", \"samples\": [", (unsigned long long)evals, (unsigned long long)nontriv, rule_text ? rule_text : "");
    for (int i = 0; i < nsamp; ++i) { printf("%s\"", i ? ", " : ""); for (char *q = samples[i]; *q; ++q) if (*q >= 32 && *q != '"' && *q != '\\') putchar(*q); putchar('"'); }
    printf("]}\n");
    return 0;
}
#endif
