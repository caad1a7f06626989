/* C19: the worker pool as a monitor. fl2_pool.c is included whole; its mutex and condition-variable operations are replaced by their contracts:
 *   lock           the shared state becomes arbitrary within the monitor invariant (whatever other threads did), the lock is held
 *   unlock, wait   the lock is held, the invariant holds again, nobody whose condition became true is left without a signal; wait = unlock + lock
 *   create, join   thread k is created / joined
 * Exactly-once is stated for an arbitrary job J of the range in force. Loops end at a wait or a signal that re-establishes
 * the invariant: the state there is again an arbitrary state within the invariant, so one pass stands for every pass. */
#include "vf.h"
#include "fl2_threading.h"
#undef FL2_pthread_mutex_lock
#undef FL2_pthread_mutex_unlock
#undef FL2_pthread_mutex_init
#undef FL2_pthread_mutex_destroy
#undef FL2_pthread_cond_init
#undef FL2_pthread_cond_destroy
#undef FL2_pthread_cond_wait
#undef FL2_pthread_cond_signal
#undef FL2_pthread_cond_broadcast
#undef FL2_pthread_create
#undef FL2_pthread_join
#define FL2_pthread_cond_timedwait m_timedwait
static void m_lock(void *), m_unlock(void *), m_wait(void *, void *), m_timedwait(void *, void *, unsigned), m_signal(void *), m_broadcast(void *);
static int m_create(size_t idx, void *(*f)(void *), void *arg); static void m_join(size_t idx);
#define FL2_pthread_mutex_lock(a) m_lock(a)
#define FL2_pthread_mutex_unlock(a) m_unlock(a)
#define FL2_pthread_mutex_init(a, b) (++inits, 0)
#define FL2_pthread_mutex_destroy(a) m_destroy()
#define FL2_pthread_cond_init(a, b) (++inits, 0)
#define FL2_pthread_cond_destroy(a) m_destroy()
#define FL2_pthread_cond_wait(a, b) m_wait(a, b)
#define FL2_pthread_cond_signal(a) m_signal(a)
#define FL2_pthread_cond_broadcast(a) m_broadcast(a)
static unsigned inits; static void m_destroy(void);
#define FL2_pthread_create(t, b, f, a) m_create((size_t)((t) - ((FL2POOL_ctx*)(a))->threads), f, a)
#define FL2_pthread_join(t, b) m_join((size_t)(&(t) - ctx->threads))
#ifdef PART_LIFE
static void *m_calloc(size_t n, size_t s); static void m_free(void *p);
#define calloc m_calloc
#define free m_free
#endif
#include "fl2_pool.c"
#undef calloc
#undef free


static union { FL2POOL_ctx c; char room[sizeof(FL2POOL_ctx) + 4 * sizeof(FL2_pthread_t)]; } pool_mem;
#define pool (&pool_mem.c)
/* ghost state: the range in force, an arbitrary job J of it, what happened to J, how many threads are inside a job besides this one */
static ptrdiff_t g_first, g_end, J, q_old; static unsigned g_popped, g_done; static int g_mine, g_mine_J; static size_t g_others; static int held;
static FL2POOL_function g_fn; static void *g_op; static int g_new, g_done_sig, g_w_old, g_b_old, owe_new, owe_done, waits, ran, g_shut, quiet, adding;
static ptrdiff_t a_first, a_end; static FL2POOL_function a_fn; static void *a_op;
#define WORK(c) ((c)->queueIndex < (c)->queueEnd || (c)->shutdown)
#define IDLE(c) (!((c)->numThreadsBusy || (c)->queueIndex < (c)->queueEnd) || (c)->shutdown)
static int inv(void)
{
    FL2POOL_ctx *c = pool;
    size_t const out = (size_t)c->queueIndex - (size_t)g_first;
    return g_first <= c->queueIndex && c->queueIndex <= g_end && c->queueEnd == g_end && c->function == g_fn && c->opaque == g_op
        && c->numThreadsBusy == g_others + (size_t)g_mine && g_others <= out && c->numThreadsBusy <= out
        && g_popped == (J >= g_first && J < c->queueIndex) && g_done <= g_popped
        && (g_popped == g_done || g_mine_J == 1 || g_others > 0)   /* J taken and not done: a thread is inside it */
        && (g_mine_J == 0 || (g_mine && g_popped == 1 && g_done == (g_mine_J == 2))) && (c->shutdown == 0 || c->shutdown == 1);
}
static void job(void *op, ptrdiff_t n);
static void havoc(void)
{
    pool->queueIndex = IN(ptrdiff_t); pool->numThreadsBusy = IN(size_t); g_others = IN(size_t); g_popped = IN(unsigned); g_done = IN(unsigned);
    pool->shutdown = IN(int);
    if (!g_mine) { g_first = IN(ptrdiff_t); g_end = IN(ptrdiff_t); g_fn = job; g_op = (void*)IN(size_t); } /* a new range starts only when nobody is inside a job */
    pool->queueEnd = g_end; pool->function = g_fn; pool->opaque = g_op;
    ASSUME(g_first >= -(PTRDIFF_MAX / 4) && g_end <= PTRDIFF_MAX / 4 && g_first <= g_end);
#ifdef MASTER
    ASSUME(pool->shutdown == 0); /* the caller is the only one that adds ranges, waits and shuts down */
    if (quiet) ASSUME(pool->numThreadsBusy == 0 && pool->queueIndex == pool->queueEnd);
#endif
    ASSUME(inv());
    q_old = pool->queueIndex; g_new = g_done_sig = 0; g_w_old = WORK(pool); g_b_old = IDLE(pool);
}
static void no_owe(void) { CHECK(!owe_new, "threads waiting for work are woken when there is some"); CHECK(!owe_done, "the thread waiting for completion is woken"); }
static void release(void)
{
    CHECK(held, "the lock is held");
#ifdef WORKER
    if (ran) { ran = 2; g_mine = 0; g_mine_J = 0; }
    CHECK(pool->queueIndex == q_old || pool->queueIndex == q_old + 1, "one job is taken at a time");
    if (pool->queueIndex == q_old + 1) { g_mine = 1; if (J == q_old) { CHECK(!g_popped, "a job is taken once"); g_popped = 1; g_mine_J = 1; } }
#endif
    if (adding) { adding = 2; g_first = a_first; g_end = a_end; g_fn = a_fn; g_op = a_op; g_popped = g_done = 0; }
    CHECK(inv(), "the monitor invariant holds when the lock is released");
    if (WORK(pool) && !g_w_old && !g_new) owe_new = 1;
    if (IDLE(pool) && !g_b_old && !g_done_sig && !pool->shutdown) owe_done = 1;
    held = 0;
}
#ifdef PART_LIFE
static int was_shut;
static void m_lock(void *m) { CHECK(!held && m == &pool->queueMutex, "the lock is taken once"); held = 1; g_w_old = WORK(pool); g_new = 0; }
static void m_unlock(void *m) { CHECK(held && m == &pool->queueMutex, "the right lock"); if (pool->shutdown && !g_new) owe_new = 1; was_shut = pool->shutdown; held = 0; }
#else
static void m_lock(void *m) { no_owe(); CHECK(!held && m == &pool->queueMutex, "the lock is taken once"); held = 1; havoc(); }
static void m_unlock(void *m) { CHECK(m == &pool->queueMutex, "the right lock"); release(); }
#endif
static void m_wait(void *c, void *m)
{
    CHECK(m == &pool->queueMutex, "the wait names the lock"); release(); no_owe();
#ifdef MASTER
    CHECK(c == &pool->busyCond, "waits for completion"); CHECK(!IDLE(pool), "waits only when there is something to wait for");
#else
    CHECK(c == &pool->newJobsCond, "waits for work"); CHECK(!WORK(pool), "waits only without work");
    if (ran) REACH("back to waiting");
#endif
    held = 1; havoc();
    if (++waits > 1) ASSUME(0); /* the loop is back in an arbitrary state within the invariant: covered by the first pass */
}
static void m_timedwait(void *c, void *m, unsigned t) { CHECK(t != 0, "a timeout"); m_wait(c, m); }
static void m_signal(void *c) { if (c == &pool->busyCond) { g_done_sig = 1; owe_done = 0; } else if (g_end - g_first <= 1) { g_new = 1; owe_new = 0; } }
static void m_broadcast(void *c) { if (c == &pool->newJobsCond) { g_new = 1; owe_new = 0; } else { g_done_sig = 1; owe_done = 0; } }

static void job(void *op, ptrdiff_t n)
{
#ifdef WORKER
    CHECK(!held, "the job runs without the lock");
    CHECK(op == g_op, "the job gets the object of its range");
    CHECK(n >= g_first && n < g_end, "the job is one of the range");
    CHECK(g_mine, "the thread counts as busy while the job runs");
    CHECK((n == J) == (g_mine_J == 1), "the job run is the one taken from the queue");
    no_owe();
    if (n == J) { REACH("J runs"); CHECK(g_popped == 1 && g_done == 0, "the job runs once"); g_done = 1; g_mine_J = 2; }
    if (ran) { REACH("next job"); ASSUME(0); } /* second pass: same state as the first */
    ran = 1; waits = 0;
#endif
}
#if !defined(PART_LIFE)
static void m_destroy(void) {}
static int m_create(size_t k, void *(*f)(void *), void *a) { return 0; }
static void m_join(size_t k) {}
#endif

#if defined(WORKER)
void harness(void)
{
    J = IN(ptrdiff_t);
    void *r = FL2POOL_thread(pool);
    CHECK(!held, "the lock is released at the end"); CHECK(pool->shutdown, "a thread ends only at shutdown"); CHECK(r != NULL, "result"); CHECK(!g_mine, "no job is left behind"); no_owe();
    REACH("ends");
}
#elif defined(PART_ADD)
void harness(void)
{
    int one = IN(int) & 1; J = IN(ptrdiff_t); a_first = IN(ptrdiff_t); a_fn = job; a_op = (void*)IN(size_t); ASSUME(a_first >= 0 && a_first < PTRDIFF_MAX / 4); a_end = one ? a_first + 1 : IN(ptrdiff_t);
    ASSUME( a_first <= a_end && a_end <= PTRDIFF_MAX / 4);
    quiet = 1; adding = 1;       /* callers add when the previous range has been waited for */
    if (one) FL2POOL_add(pool, a_fn, a_op, a_first); else FL2POOL_addRange(pool, a_fn, a_op, a_first, a_end);
    CHECK(!held && adding == 2, "the range is queued under the lock"); no_owe();
    FL2POOL_addRange(NULL, a_fn, a_op, 0, 1);
    REACH("added");
}
#elif defined(PART_WAIT)
void harness(void)
{
    unsigned timeout = IN(unsigned); J = IN(ptrdiff_t);
    int r = FL2POOL_waitAll(pool, timeout);
    CHECK(!held, "the lock is released"); no_owe();
    CHECK(timeout != 0 || r == 0, "a wait without timeout always completes");
    /* the state when the lock was released: */
    if (r == 0) { CHECK(!(J >= g_first && J < g_end) || g_done == 1, "every job of the range has run when the wait reports completion"); CHECK(g_others == 0, "no thread is inside a job"); REACH("complete"); }
    else { CHECK(pool->numThreadsBusy || pool->queueIndex < pool->queueEnd, "reports unfinished only what is unfinished"); REACH("timed out"); }
    CHECK(FL2POOL_waitAll(NULL, timeout) == 0, "no pool, nothing to wait for");
}
#endif
#if defined(PART_LIFE)
#define NT 3
static unsigned created[NT], joined[NT]; static size_t asked; static int alive, destroyed;
static void *m_calloc(size_t n, size_t s) { if (n * s < sizeof(FL2POOL_ctx) + (asked - 1) * sizeof(FL2_pthread_t)) CHECK(0, "room for the threads"); if (IN(int) & 1) return NULL; alive = 1; return pool; }
static void m_free(void *p) { CHECK(p == pool && alive, "frees the pool once"); alive = 0; for (int k = 0; k < NT; ++k) CHECK(created[k] == joined[k], "every thread created has been joined before the memory is freed"); CHECK(destroyed == 3, "lock and conditions destroyed"); }
static void m_destroy(void) { for (int k = 0; k < NT; ++k) CHECK(created[k] == joined[k], "threads are joined before the lock goes"); ++destroyed; }
static int m_create(size_t k, void *(*f)(void *), void *a) { CHECK(inits == 3, "lock and conditions exist before a thread starts"); CHECK(k < asked && k < NT && !created[k] && f == FL2POOL_thread && a == pool, "thread k is started once on the pool"); CHECK(pool->queueIndex >= pool->queueEnd && !pool->shutdown && !pool->numThreadsBusy, "the queue is empty when threads start"); if (IN(int) & 1) return 1; created[k] = 1; return 0; }
static void m_join(size_t k) { CHECK(!held, "joins without holding the lock"); CHECK(pool->shutdown && was_shut, "shut down first"); no_owe(); CHECK(k < NT && created[k] && !joined[k], "only created threads are joined, once"); joined[k] = 1; }

void harness(void)
{
    asked = IN(size_t); ASSUME(asked <= NT);
    FL2POOL_ctx *p = FL2POOL_create(asked);
    if (asked == 0) CHECK(p == NULL, "no threads, no pool");
    if (!p) { CHECK(!alive, "nothing is left behind on failure"); for (int k = 0; k < NT; ++k) CHECK(created[k] == joined[k], "threads started before the failure are joined"); REACH("fails"); return; }
    for (size_t k = 0; k < NT; ++k) CHECK(created[k] == (k < asked), "every thread asked for is started once");
    CHECK(FL2POOL_sizeof(p) >= asked * sizeof(FL2_pthread_t), "size");
    FL2POOL_free(p);
    CHECK(!alive, "the pool is freed"); for (size_t k = 0; k < NT; ++k) CHECK(joined[k] == created[k], "every thread is joined");
    FL2POOL_free(NULL);
    REACH("freed");
}
#endif
