/* Thread pool: random ranges, waits and timeouts; every job runs exactly once with its own index and object, before the wait that reports completion returns. */
#define ALARM_SECS 40
#include "drv.h"
#include "fl2_pool.h"
#include <sched.h>
static unsigned *ran; static long nj, base; static int style; static void *want; static int bad; static unsigned inside; static u64 jr;
static void spin(unsigned n) { for (volatile unsigned i = 0; i < n; ++i) ; }
static void job(void *op, ptrdiff_t n)
{
    __atomic_add_fetch(&inside, 1, __ATOMIC_SEQ_CST);
    if (op != want || n < base || n >= base + nj) __atomic_store_n(&bad, 1, __ATOMIC_SEQ_CST);
    else {
        u64 h = (jr + (u64)n) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
        if (style == 1) sched_yield(); else if (style == 2) spin((unsigned)(h % 3000)); else if (style == 3 && h % 8 == 0) usleep((unsigned)(h >> 8) % 1500); else if (style == 4 && n == base + nj - 1) usleep(3000);
        if (__atomic_add_fetch(&ran[n - base], 1, __ATOMIC_SEQ_CST) != 1) __atomic_store_n(&bad, 2, __ATOMIC_SEQ_CST);
    }
    __atomic_sub_fetch(&inside, 1, __ATOMIC_SEQ_CST);
}
static void complete(const char *how)
{
    REQUIRE(__atomic_load_n(&inside, __ATOMIC_SEQ_CST) == 0, "%s: a job is still running", how);
    REQUIRE(!bad, "%s: %s", how, bad == 2 ? "a job ran twice" : "a job ran with another index or object");
    for (long i = 0; i < nj; ++i) REQUIRE(__atomic_load_n(&ran[i], __ATOMIC_SEQ_CST) == 1, "%s: job %ld of %ld ran %u times", how, i, nj, ran[i]);
}
static void one_case(void)
{
    rule_text = "a case counts when several ranges were run through a pool of at least two threads";
    size_t threads = rr(1, 8); int rounds = (int)rr(1, 60);
    if (opt_mode & 1) { threads = rr(1, 4); rounds = (int)rr(1, 8); }
    note("threads%zu rounds%d", threads, rounds);
    FL2POOL_ctx *p = FL2POOL_create(threads); if (!p) { fprintf(stderr, "no pool\n"); _exit(75); }
    REQUIRE(FL2POOL_create(0) == NULL, "a pool of no threads");
    REQUIRE(FL2POOL_waitAll(p, (unsigned)rn(2)) == 0, "an idle pool has nothing to wait for");
    for (int k = 0; k < rounds; ++k) {
        nj = chance(30) ? 1 : (long)rr(1, chance(20) ? 300 : 12); base = (long)rn(4); style = (int)rn(5); jr = rnd(); bad = 0;
        ran = calloc((size_t)nj, sizeof *ran); want = ran;
        if (nj == 1 && chance(60)) FL2POOL_add(p, job, want, base); else FL2POOL_addRange(p, job, want, base, base + nj);
        if (chance(30)) spin((unsigned)rn(5000));
        if (chance(60)) { unsigned long n = 0; while (FL2POOL_waitAll(p, (unsigned)rr(1, 3))) { if (++n > 100000) fail("never complete"); } complete("timed wait"); if (chance(30)) { REQUIRE(FL2POOL_waitAll(p, 0) == 0, "second wait"); } }
        else { REQUIRE(FL2POOL_waitAll(p, 0) == 0, "a wait without timeout returns unfinished"); complete("wait"); }
        REQUIRE(FL2POOL_threadsBusy(p) == 0, "busy threads in an idle pool");
        free(ran); ran = NULL; nj = 0;
    }
    /* leave at once, or with a range under way: the jobs started finish before the memory goes */
    if (chance(50)) { nj = (long)rr(1, 20); base = 0; style = 3; bad = 0; ran = calloc((size_t)nj, sizeof *ran); want = ran; FL2POOL_addRange(p, job, want, 0, nj); if (chance(50)) usleep(200); }
    FL2POOL_free(p);
    REQUIRE(inside == 0 && !bad, "a job outlives the pool");
    for (long i = 0; i < nj; ++i) REQUIRE(ran[i] <= 1, "job ran %u times", ran[i]);
    free(ran); ran = NULL; nj = 0;
    if (threads > 1 && rounds > 1) ++nontriv;
}
