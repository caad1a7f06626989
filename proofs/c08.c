/* C08/C07: dict_buffer.c, included whole, from an arbitrary state within the representation invariant. memcpy, memmove, malloc and the XXH32 functions
 * are replaced by their contracts, which record what was copied or hashed. Ghost state: which buffer the compressor was given last and up to where
 * (it may still be reading it when there are two buffers). */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
static struct { const void *d, *s; size_t n; int move; } cp[2]; static unsigned ncp;
static void *vf_cpy(void *d, const void *s, size_t n, int mv) { if (ncp < 2) { cp[ncp].d = d; cp[ncp].s = s; cp[ncp].n = n; cp[ncp].move = mv; } ++ncp; return d; }
static void *vf_alloc(size_t n); static void vf_release(void *p);
#include "mem.h"
#include "xxhash.h"
#include "fl2_internal.h"
#include "fl2_compress_internal.h"
static unsigned nhash, nreset, ncreate, nfree; static const void *h_p; static size_t h_n; static XXH32_state_t hstate; static unsigned hinit;
static XXH_errorcode vf_update(XXH32_state_t *s, const void *p, size_t n) { CHECK(s == &hstate, "hash state"); h_p = p; h_n = n; ++nhash; return XXH_OK; }
static XXH_errorcode vf_reset(XXH32_state_t *s, unsigned seed) { CHECK(s == &hstate && seed == 0, "XXH32 with seed 0"); ++nreset; return XXH_OK; }
static XXH32_state_t *vf_create(void) { if (IN(int) & 1) return NULL; ++ncreate; return &hstate; }
static XXH_errorcode vf_free(XXH32_state_t *s) { if (s) { CHECK(s == &hstate, "frees its own state"); ++nfree; } return XXH_OK; }
static XXH32_hash_t vf_digest(const XXH32_state_t *s) { CHECK(s == &hstate, "hash state"); return 0x12345678u; }
#define memcpy(d, s, n) vf_cpy(d, s, n, 0)
#define memmove(d, s, n) vf_cpy(d, s, n, 1)
#define malloc vf_alloc
#define free vf_release
#define XXH32_update vf_update
#define XXH32_reset vf_reset
#define XXH32_createState vf_create
#define XXH32_freeState vf_free
#define XXH32_digest vf_digest
#include "dict_buffer.c"
#undef memcpy
#undef memmove
#undef malloc
#undef free
static DICT_buffer b; static BYTE mem0[1], mem1[1]; static size_t a_size[2]; static int a_live[2], nalloc, nrel;
/* addresses inside the two buffers are compared as base + offset; the buffers themselves are never dereferenced here */
static void *vf_alloc(size_t n) { int k = nalloc; ++nalloc; CHECK(nalloc <= 2, "at most two buffers"); if (IN(int) & 1) return NULL; a_size[k] = n; a_live[k] = 1; return k ? mem1 : mem0; }
static void vf_release(void *p) { if (p) { CHECK(p == mem0 || p == mem1, "frees its own buffer"); CHECK(a_live[p == mem1], "frees once"); a_live[p == mem1] = 0; ++nrel; } }
static size_t busy_idx, busy_end; static int busy; /* the compressor was given data[busy_idx][..busy_end) last */

static int inv(void)
{
    return b.async <= 1 && b.index <= b.async && b.size >= ((size_t)1 << 20) && b.size <= ((size_t)1 << 30) && b.overlap <= (b.size >> 4) * 14
        && b.start <= b.end && b.end <= b.size && b.data[0] == mem0 && b.data[1] == (b.async ? mem1 : NULL)
        && b.reset_interval >= b.size && b.reset_interval <= (size_t)1 << 34
        && b.total <= b.reset_interval && b.total + b.size - b.start <= b.reset_interval && (b.end != 0 || b.total == 0)
        && (b.xxh == NULL || b.xxh == &hstate)
        /* what the compressor may still read is not where the next bytes go */
        && (!busy || (busy_idx <= b.async && busy_end <= b.size && (b.index == busy_idx ? (b.end >= busy_end) : 1)))
        /* with two buffers, once switched, no second switch is due until new data was handed over */
        && (!(busy && b.async) || b.index == busy_idx || b.start < b.end || b.end == 0
            || (b.overlap != 0 && b.end < b.overlap + ALIGNMENT_SIZE && b.total + b.size - b.overlap <= b.reset_interval));
}
static void arbitrary(void)
{
    b.data[0] = mem0; b.async = IN(size_t); b.data[1] = b.async ? mem1 : NULL; b.index = IN(size_t); b.overlap = IN(size_t); b.start = IN(size_t); b.end = IN(size_t); b.size = IN(size_t);
    b.total = IN(size_t); b.reset_interval = IN(size_t); b.xxh = IN(int) & 1 ? &hstate : NULL; busy = IN(int) & 1; busy_idx = IN(size_t); busy_end = IN(size_t);
    ASSUME(inv());
}
void harness(void)
{
    FL2_inBuffer in; FL2_dataBlock blk; void *d; size_t r;
#if defined(PART_INIT)
    int async = IN(int) & 1, hash = IN(int) & 1; size_t const size = IN(size_t); unsigned const frac = IN(unsigned), mult = IN(unsigned);
    ASSUME(size >= ((size_t)1 << 20) && size <= ((size_t)1 << 30) && frac <= 14 && mult <= 16);
    if (IN(int) & 1) { DICT_construct(&b, async); }
    else { arbitrary(); a_live[0] = 1; a_live[1] = (int)b.async; a_size[0] = a_size[1] = b.size; async = (int)b.async; ncreate = b.xxh != NULL; }
    size_t const old = b.data[0] ? b.size : 0;
    int e = DICT_init(&b, size, (size >> 4) * frac, mult, hash);
    if (e) { CHECK(!b.data[0] && !b.data[1] && !b.xxh && b.size == 0 && !a_live[0] && !a_live[1] && ncreate == nfree, "nothing is kept when allocation fails"); REACH("no memory"); return; }
    busy = 0;
    CHECK(b.data[0] && a_live[0] && (async ? b.data[1] && a_live[1] && b.data[0] != b.data[1] : b.data[1] == NULL), "the buffers exist");
    CHECK((nalloc == 0 && size <= old) || (a_size[b.data[0] == mem1] >= size && (!async || a_size[b.data[1] == mem1] >= size)), "the buffers hold the dictionary size");
    CHECK(inv(), "a new buffer satisfies the representation invariant");
    CHECK(b.start == 0 && b.end == 0 && b.total == 0 && b.index == 0 && b.size == size && b.overlap == (size >> 4) * frac, "starts empty");
    CHECK(hash ? (b.xxh == &hstate && nreset == 1 && ncreate == nfree + 1) : (b.xxh == NULL && ncreate == nfree), "the hash restarts");
    CHECK(b.reset_interval == (mult ? size * mult : (size_t)1 << 31), "reset interval");
    REACH("init");
    DICT_destruct(&b);
    CHECK(!a_live[0] && !a_live[1] && !b.data[0] && !b.data[1] && !b.xxh && ncreate == nfree, "everything is freed");
#elif defined(PART_PUT)
    arbitrary(); DICT_buffer const o = b;
    BYTE src[1]; in.src = src; in.size = IN(size_t); in.pos = IN(size_t); ASSUME(in.pos <= in.size && in.size < ((size_t)1 << 40)); size_t const p0 = in.pos;
    CHECK(DICT_availSpace(&b) == b.size - b.end && DICT_hasUnprocessed(&b) == (b.start < b.end) && DICT_async(&b) == (int)b.async && DICT_size(&b) == b.size, "observers");
    DICT_put(&b, &in);
    size_t const n = in.pos - p0;
    CHECK(in.pos >= p0 && in.pos <= in.size && (in.pos == in.size || b.end == b.size), "takes as much as fits");
    CHECK(b.end == o.end + n && b.start == o.start && b.index == o.index && b.total == o.total, "only the end moves, by what was taken");
    CHECK(ncp == 1 && cp[0].n == n && (uintptr_t)cp[0].d == (uintptr_t)b.data[b.index] + o.end && (uintptr_t)cp[0].s == (uintptr_t)src + p0, "the bytes taken are appended in order");
    CHECK(o.end + n <= b.size, "the write stays inside the buffer"); CHECK(inv(), "representation invariant");
    REACH("put");
#elif defined(PART_UPDATE)
    arbitrary(); DICT_buffer const o = b; size_t n = IN(size_t); ASSUME(n <= b.size - b.end);
    int f = DICT_update(&b, n);
    CHECK(b.end == o.end + n && b.start == o.start && b.index == o.index && f == (b.end == b.size), "the bytes added are counted"); CHECK(inv(), "representation invariant");
    REACH("update");
#elif defined(PART_BLOCK)
    arbitrary(); DICT_buffer const o = b; ASSUME(b.start < b.end); /* the compressor only takes a block when there is something in it */
    DICT_getBlock(&b, &blk);
    CHECK(blk.data == b.data[o.index] && blk.start == o.start && blk.end == o.end, "the block is the new data with what precedes it");
    CHECK(b.start == o.end && b.end == o.end && b.index == o.index && b.total == o.total + (o.end - o.start), "each byte is handed over once");
    CHECK(o.xxh ? (nhash == 1 && (uintptr_t)h_p == (uintptr_t)o.data[o.index] + o.start && h_n == o.end - o.start) : nhash == 0, "the new bytes are hashed once, in order");
    busy = 1; busy_idx = o.index; busy_end = o.end; CHECK(inv(), "representation invariant"); CHECK(ncp == 0, "nothing is moved");
    REACH("block");
#elif defined(PART_SHIFT)
    arbitrary(); DICT_buffer const o = b; int const need = DICT_needShift(&b); int const get = IN(int) & 1;
    if (need && !b.async) busy = 0; /* with one buffer callers wait for the compressor first: obligation of their own */
    if (get) { r = DICT_get(&b, &d); CHECK(r == b.size - b.end && (uintptr_t)d == (uintptr_t)b.data[b.index] + b.end, "the space offered is the free part of the buffer in use"); }
    else DICT_shift(&b);
    int const moved = b.start != o.start || b.end != o.end || b.index != o.index || b.total != o.total;
    CHECK(!(o.start < o.end) || !moved, "unprocessed data is never shifted");
    CHECK(need || !moved, "a shift is announced, so that the compressor can be waited for");
    CHECK(ncp <= 1, "one copy at most");
    if (ncp) {
        size_t const n = cp[0].n, from = (size_t)((uintptr_t)cp[0].s - (uintptr_t)o.data[o.index]);
        CHECK((uintptr_t)cp[0].d == (uintptr_t)b.data[b.index], "the overlap goes to the start of the buffer in use next");
        CHECK(from <= o.end && from + n == o.end && b.end == n && b.start == n, "the overlap is the most recent bytes");
        CHECK(n >= o.overlap && n <= b.size, "the overlap is at least the one set and fits");
        CHECK(cp[0].move || b.index != o.index || n <= from, "memcpy is not used on overlapping ranges");
        CHECK(!b.async || b.index != o.index, "with two buffers the copy goes to the other one");
        CHECK(b.total == o.total, "no dictionary reset");
        REACH("overlap kept");
    } else if (moved) { CHECK((b.start == 0 && b.end == 0 && b.total == 0) || (b.start == o.end && b.end == o.end && b.index != o.index && 0), "without overlap the buffer starts empty: a dictionary reset"); REACH("reset"); }
    if (o.end == 0 && !moved) REACH("empty");
    if (busy && b.async && moved && o.end > 0) CHECK(b.index != o.index, "the buffer the compressor holds is left alone");
    CHECK(inv(), "representation invariant");
    /* the chance to get a full buffer forever: there is room after a shift that was due */
    CHECK(o.start < o.end || b.size - b.end > 0, "room for input once everything is processed");
#endif
}
