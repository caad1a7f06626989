/* C18: the estimates against the sizes the allocating functions really request. malloc/calloc are replaced by their
 * contract (any size, sum recorded in ghost state, may fail). Fixed-size parts that no parameter influences
 * (the FL2_matchTable header with its list heads, the builder pointer array, the context structs) are not part of the estimate. */
#include "vf.h"
static size_t vf_total; static unsigned vf_calls; static size_t vf_last;
static void *vf_malloc(size_t n) { vf_total += n; vf_last = n; ++vf_calls; return malloc(n); }

#if defined(PART_RMF)
static size_t first;
#ifdef P_TABLE
/* only the header of the table object is touched by the functions under contract, so a header-sized object stands for it */
static void *vf_malloc1(size_t n);
#define free(p) ((void)0)
#else
static void *vf_malloc1(size_t n) { if (!first) first = n; ++vf_calls; vf_total += n; return malloc(n); }
#endif
#define malloc vf_malloc1
#include "x_radix_mf.c"
#undef malloc
#ifdef P_TABLE
#undef free
static FL2_matchTable the_table; static RMF_builder *the_builders[4], one_builder; static size_t arr;
static void *vf_malloc1(size_t n) { if (!first) { first = n; return IN(int) ? &the_table : NULL; } arr = n; return IN(int) ? the_builders : NULL; }
#endif
#ifndef P_BUILDER_TAIL
static void RMF_initTailTable(RMF_builder* const tbl) { (void)tbl; }
#endif
static void RMF_initListHeads(FL2_matchTable* const tbl) { (void)tbl; }
#if defined(P_TABLE)
static unsigned builders; static size_t max_buf;
/* contract of RMF_createBuilder, proved in P_BUILDER: takes at most the share of the buffer size it is given */
static RMF_builder* RMF_createBuilder(size_t n) { CHECK(n <= max_buf, "a builder gets no more than the buffer size counted"); ++builders; return IN(int) ? &one_builder : NULL; }
#endif
#if defined(P_TABLE)
/* contract of RMF_calBufSize, proved in P_BUF: one value per dictionary size, growing with it */
static size_t b_top, b_dict, b_low;
static size_t RMF_calBufSize(size_t d, unsigned r) { return d >= b_dict ? b_top : b_low; }
#endif
#if defined(P_MONO)
static size_t m_d[2], m_b[2]; /* contract of RMF_calBufSize, proved in P_BUF: grows with the dictionary, at least 256 */
static size_t RMF_calBufSize(size_t d, unsigned r) { return d == m_d[0] ? m_b[0] : m_b[1]; }
#endif
void harness(void)
{
    RMF_parameters p;
    p.dictionary_size = IN(size_t); p.match_buffer_resize = IN(unsigned); p.overlap_fraction = 2; p.divide_and_conquer = 1; p.depth = 42;
    ASSUME(p.dictionary_size >= FL2_DICTSIZE_MIN && p.dictionary_size <= FL2_DICTSIZE_MAX && p.match_buffer_resize <= FL2_BUFFER_RESIZE_MAX);
    size_t dict = p.dictionary_size;
#if defined(P_BUILDER)
    size_t const e1 = RMF_memoryUsage(dict, p.match_buffer_resize, 1), e0 = RMF_memoryUsage(dict, p.match_buffer_resize, 0);
    size_t sz = RMF_calBufSize(dict, p.match_buffer_resize);
    RMF_builder *b = RMF_createBuilder(sz);
    CHECK(e1 > e0 && vf_calls == 1 && vf_total <= e1 - e0, "one builder takes no more than the estimate's share per thread");
    if (b) { CHECK(sizeof(RMF_builder) + (b->match_buffer_size - 1) * sizeof(RMF_buildMatch) <= vf_total && b->match_buffer_limit <= b->match_buffer_size, "the builder's match buffer fits its allocation"); }
    REACH("builder");
#elif defined(P_TABLE)
    size_t reduce = IN(size_t);
    unsigned threads = IN(unsigned char) & 3;
    b_dict = dict; b_top = IN(size_t); b_low = IN(size_t);
    ASSUME(b_low >= MIN_MATCH_BUFFER_SIZE && b_low <= b_top && b_top <= MAX_MATCH_BUFFER_SIZE);
    max_buf = b_top;
    FL2_matchTable *t = RMF_createMatchTable(&p, reduce, threads);
    threads += !threads;
    CHECK(first <= sizeof(FL2_matchTable) + RMF_memoryUsage(dict, p.match_buffer_resize, 0), "the match table takes no more than the estimate");
    CHECK(builders <= threads && (arr == 0 || arr == threads * sizeof(RMF_builder*)), "one builder per thread");
    if (t) {
        size_t d = t->params.dictionary_size;
        CHECK(d >= MIN(dict, reduce ? MAX(reduce, DICTIONARY_SIZE_MIN) : dict), "the table holds the whole block");
        CHECK(first >= sizeof(FL2_matchTable) - sizeof(U32) + (t->is_struct ? ((d + 3) / 4) * sizeof(RMF_unit) : d * sizeof(U32)), "the table has room for every position");
        REACH("table");
    }
#elif defined(P_BUF)
    size_t d2 = IN(size_t);
    ASSUME(d2 <= dict && d2 >= FL2_DICTSIZE_MIN);
    size_t b1 = RMF_calBufSize(dict, p.match_buffer_resize), b2 = RMF_calBufSize(d2, p.match_buffer_resize);
    CHECK(b2 <= b1, "the match buffer grows with the dictionary");
    CHECK(b2 >= MIN_MATCH_BUFFER_SIZE && b1 <= MAX_MATCH_BUFFER_SIZE, "the match buffer size is within its limits");
    REACH("buf");
#elif defined(P_MONO)
    size_t d2 = IN(size_t);
    ASSUME(d2 < dict && d2 >= FL2_DICTSIZE_MIN);
    m_d[0] = d2; m_b[0] = IN(size_t); m_d[1] = dict; m_b[1] = IN(size_t);
    ASSUME(m_b[0] >= 256 && m_b[0] <= m_b[1] && m_b[1] <= MAX_MATCH_BUFFER_SIZE);
    size_t const f1 = RMF_memoryUsage(d2, p.match_buffer_resize, 1), f0 = RMF_memoryUsage(d2, p.match_buffer_resize, 0);
    size_t const e1 = RMF_memoryUsage(dict, p.match_buffer_resize, 1), e0 = RMF_memoryUsage(dict, p.match_buffer_resize, 0);
    CHECK(f0 <= e0 && f1 - f0 <= e1 - e0 && f1 >= f0 && e1 >= e0, "both parts of the estimate grow with the dictionary size");
    REACH("mono");
#elif defined(P_LINEAR)
    unsigned n = IN(unsigned);
    ASSUME(n >= 1 && n <= 200);
    size_t const e1 = RMF_memoryUsage(dict, p.match_buffer_resize, 1), e0 = RMF_memoryUsage(dict, p.match_buffer_resize, 0);
    CHECK(RMF_memoryUsage(dict, p.match_buffer_resize, n) == e0 + (e1 - e0) * n, "the estimate is linear in the thread count");
    REACH("lin");
#endif
}
#elif defined(PART_ENC)
static void *vf_malloc2(size_t n);
#define malloc vf_malloc2
#include "x_lzma2_enc.c"
#undef malloc
static void LZMA_hashReset(LZMA2_ECtx *const enc, unsigned const b) { (void)enc; (void)b; }
static LZMA2_ECtx the_enc; static LZMA2_hc3 the_hash;
static void *vf_malloc2(size_t n) { vf_total += n; vf_last = n; if (++vf_calls > 1) { return IN(int) ? &the_hash : NULL; } CHECK(n == sizeof(LZMA2_ECtx), "encoder object"); return IN(int) ? &the_enc : NULL; }
void harness(void)
{
    unsigned chain = IN(unsigned), n = IN(unsigned); FL2_strategy s = (FL2_strategy)(IN(unsigned) & 3);
    ASSUME(chain >= FL2_CHAINLOG_MIN && chain <= FL2_CHAINLOG_MAX && s <= FL2_ultra && n >= 1 && n < 200);
    size_t e1 = LZMA2_encMemoryUsage(chain, s, 1);
    CHECK(LZMA2_encMemoryUsage(chain, s, n) <= LZMA2_encMemoryUsage(chain, s, n + 1) && LZMA2_encMemoryUsage(chain, s, n) == e1 * n, "the encoder estimate counts each thread");
    if (chain < FL2_CHAINLOG_MAX) CHECK(e1 <= LZMA2_encMemoryUsage(chain + 1, s, 1), "the encoder estimate grows with the chain");
    LZMA2_ECtx *enc = LZMA2_createECtx();
    if (!enc) return;
    FL2_lzma2Parameters o;
    o.strategy = s; o.second_dict_bits = chain;
    int r = LZMA2_hashAlloc(enc, &o);
    CHECK(vf_total <= e1, "an encoder takes no more than its estimate");
    if (r == 0 && s == FL2_ultra) { CHECK(enc->hash_buf != NULL && enc->hash_alloc_3 >= (ptrdiff_t)1 << chain && sizeof(LZMA2_hc3) + ((size_t)enc->hash_alloc_3 - 1) * sizeof(S32) <= vf_last, "the hash chain has room for every position it indexes"); REACH("hash"); }
    REACH("enc");
}
#elif defined(PART_EST)
#include "fl2_compress.c"
static unsigned cores;
int UTIL_countPhysicalCores(void) { return (int)cores; }
/* contracts of the two share functions, proved above: a fixed part plus a share per thread, both growing with their arguments */
static size_t rd, sz_fixed, sz_share, ench; static unsigned rb, rt, ec, et; static FL2_strategy es;
size_t RMF_memoryUsage(size_t const d, unsigned const b, unsigned const t) { rd = d; rb = b; rt = t; return sz_fixed; }
size_t LZMA2_encMemoryUsage(unsigned const c, FL2_strategy const s, unsigned const t) { ec = c; es = s; et = t; return ench; }
void harness(void)
{
    cores = IN(unsigned char);
    sz_fixed = IN(size_t); ench = IN(size_t); ASSUME(sz_fixed <= (size_t)1 << 40 && ench <= (size_t)1 << 40);
    int level = IN(int); unsigned n = IN(unsigned); int dual = IN(int);
    unsigned want = n == 0 ? (cores ? cores : 1) : n; if (want > 200) want = 200;
    CHECK(FL2_checkNbThreads(n) == want, "thread count in force");
    FL2_compressionParameters q;
    size_t r = FL2_estimateCCtxSize(level, n);
    int lv = level == 0 ? 6 : level;
    CHECK(FL2_isError(r) == (lv < 1 || lv > FL2_maxCLevel()), "exactly the invalid levels give an error");
    if (!FL2_isError(r)) {
        FL2_getLevelParameters(lv, 0, &q);
        CHECK(r == sz_fixed + ench && rd == q.dictionarySize && rb == FL2_BUFFER_RESIZE_DEFAULT && rt == want && ec == q.chainLog && es == q.strategy && et == want, "the estimate for a level uses its preset");
        REACH("level");
    } else CHECK(FL2_getErrorCode(r) == FL2_error_parameter_outOfBound, "error code");
    rd = 0;
    r = FL2_estimateCStreamSize(level, n, dual);
    CHECK(FL2_isError(r) == (lv < 1 || lv > FL2_maxCLevel()), "exactly the invalid levels give an error (stream)");
    if (!FL2_isError(r)) {
        FL2_getLevelParameters(lv, 0, &q);
        CHECK(rd == q.dictionarySize && rt == want && et == want && r == sz_fixed + ench + q.dictionarySize * (dual ? 2 : 1), "the stream estimate adds one or two dictionary buffers");
        REACH("stream");
    }
    q.dictionarySize = IN(size_t); q.chainLog = IN(unsigned); q.strategy = (FL2_strategy)(IN(unsigned) & 3);
    ASSUME(q.dictionarySize <= FL2_DICTSIZE_MAX);
    r = FL2_estimateCCtxSize_byParams(&q, n);
    CHECK(r == sz_fixed + ench && rd == q.dictionarySize && rt == want && ec == q.chainLog && es == q.strategy && et == want, "the estimate by parameters uses them");
    r = FL2_estimateCStreamSize_byParams(&q, n, dual);
    CHECK(r == sz_fixed + ench + q.dictionarySize * (dual ? 2 : 1) && rd == q.dictionarySize && rt == want, "the stream estimate by parameters uses them");
    static FL2_CCtx c;
    c.jobCount = IN(unsigned char); c.params.rParams.dictionary_size = IN(size_t); c.params.rParams.match_buffer_resize = IN(unsigned char) & 7;
    c.params.cParams.second_dict_bits = IN(unsigned char) & 15; c.params.cParams.strategy = (FL2_strategy)(IN(unsigned) & 1);
    c.buf.size = IN(size_t); c.buf.async = IN(unsigned char) & 1;
    ASSUME(c.buf.size <= FL2_DICTSIZE_MAX);
    r = FL2_estimateCStreamSize_usingCStream(&c);
    CHECK(r == sz_fixed + ench + c.buf.size * (1 + c.buf.async) && rd == c.params.rParams.dictionary_size && rb == c.params.rParams.match_buffer_resize && rt == c.jobCount && et == c.jobCount
        && ec == c.params.cParams.second_dict_bits && es == c.params.cParams.strategy, "the estimate for a context uses its parameters and buffers");
    CHECK(FL2_estimateCCtxSize_usingCCtx(&c) == r, "both context estimates agree");
    REACH("end");
}
#elif defined(PART_DICT)
#define malloc vf_malloc
#include "dict_buffer.c"
#undef malloc
XXH32_state_t* XXH32_createState(void) { return NULL; }
XXH_errorcode XXH32_freeState(XXH32_state_t* s) { return XXH_OK; }
XXH_errorcode XXH32_reset(XXH32_state_t* s, unsigned int seed) { return XXH_OK; }
void harness(void)
{
    static DICT_buffer b;
    DICT_construct(&b, IN(int));
    size_t n = IN(size_t);
    ASSUME(n >= FL2_DICTSIZE_MIN && n <= FL2_DICTSIZE_MAX);
    int r = DICT_init(&b, n, 0, 4, 0);
    if (r == 0) {
        CHECK(DICT_memUsage(&b) == vf_total && b.size == n && b.data[0] != NULL && (!b.async || b.data[1] != NULL), "the buffers allocated are the ones counted");
        CHECK(vf_total == n * (1 + b.async), "one or two buffers of the dictionary size");
        REACH("dict");
    } else CHECK(b.data[0] == NULL && b.data[1] == NULL && b.size == 0, "nothing is kept when the allocation fails");
}
#elif defined(PART_DEC)
#define malloc vf_malloc
#include "lzma2_dec.c"
#undef malloc
void harness(void)
{
    static LZMA2_DCtx d;
    unsigned char prop = IN(unsigned char) & 63;
    LZMA_constructDCtx(&d);
    size_t dict = LZMA2_getDictSizeFromProp(prop);
    ASSUME(!FL2_isError(dict) && dict <= (size_t)1 << 32);
    size_t r = LZMA2_initDecoder(&d, prop, NULL, 0);
    if (!FL2_isError(r)) {
        CHECK(vf_total + sizeof(LZMA2_DCtx) <= LZMA2_decMemoryUsage(dict), "a stream decoder takes no more than its estimate");
        CHECK(d.dic_buf_size >= dict && vf_total == d.dic_buf_size, "the dictionary buffer holds the whole dictionary");
        REACH("dec");
    }
    size_t a = IN(size_t), b = IN(size_t);
    ASSUME(a <= b && b <= (size_t)1 << 32);
    CHECK(LZMA2_decMemoryUsage(a) <= LZMA2_decMemoryUsage(b), "the decoder estimate grows with the dictionary");
    REACH("mono");
}
#elif defined(PART_DEST)
#include "fl2_decompress.c"
/* contract of FL2_checkNbThreads, proved in group `estimates`; a count within 1..200 is returned unchanged */
unsigned FL2_checkNbThreads(unsigned n) { CHECK(n >= 1 && n <= 200, "count in range"); return n; }
static size_t a_arg;
void harness(void)
{
    /* the estimate is (threads) x (a share per thread), and the share grows with the dictionary: so it grows with both */
    unsigned n = IN(unsigned); size_t a = IN(size_t), b = IN(size_t);
    ASSUME(n >= 1 && n <= 200 && a <= b && b <= (size_t)1 << 32);
    CHECK(FL2_estimateDCtxSize(1) >= sizeof(FL2_DCtx), "single-threaded decoder");
    CHECK(n == 1 || FL2_estimateDCtxSize(n) == n * (sizeof(FL2_blockDecMt) + sizeof(FL2_DCtx)), "multithreaded decoder: the threads' blocks and decoders");
    CHECK(FL2_estimateDStreamSize(a, 1) <= FL2_estimateDStreamSize(b, 1) && FL2_estimateDStreamSize(a, 1) >= a, "the single-threaded stream decoder estimate grows with the dictionary");
#define SHARE(d) (sizeof(FL2_DCtx) + ((d) + (d) / 2) * 4)
    CHECK(n == 1 || FL2_estimateDStreamSize(a, n) == n * sizeof(FL2_DCtx) + (a + a / 2) * 4 * n, "stream decoder: a share per thread");
    CHECK(SHARE(a) <= SHARE(b) && SHARE(a) >= a, "the share grows with the dictionary");
    REACH("end");
}
#endif
