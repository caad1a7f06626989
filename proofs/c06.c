/* C06: FL2_CCtx_setParameter / getParameter / level presets, for every parameter id, value and prior setting. */
#include "vf.h"
#include "fl2_compress.c"

static const FL2_cParameter ids[] = {
    FL2_p_compressionLevel, FL2_p_highCompression, FL2_p_dictionaryLog, FL2_p_dictionarySize, FL2_p_overlapFraction,
    FL2_p_resetInterval, FL2_p_bufferResize, FL2_p_hybridChainLog, FL2_p_hybridCycles, FL2_p_searchDepth, FL2_p_fastLength,
    FL2_p_divideAndConquer, FL2_p_strategy, FL2_p_literalCtxBits, FL2_p_literalPosBits, FL2_p_posBits, FL2_p_omitProperties, FL2_p_doXXHash };
#define N (sizeof ids / sizeof ids[0])

/* documented range of each parameter */
static int in_range(FL2_cParameter p, size_t v)
{
    switch (p) {
    case FL2_p_compressionLevel: return v >= 1 && v <= 10;
    case FL2_p_dictionaryLog: return v >= FL2_DICTLOG_MIN && v <= FL2_DICTLOG_MAX;
    case FL2_p_dictionarySize: return v >= FL2_DICTSIZE_MIN && v <= FL2_DICTSIZE_MAX;
    case FL2_p_overlapFraction: return v <= FL2_BLOCK_OVERLAP_MAX;
    case FL2_p_resetInterval: return v <= FL2_RESET_INTERVAL_MAX;
    case FL2_p_bufferResize: return v <= FL2_BUFFER_RESIZE_MAX;
    case FL2_p_hybridChainLog: return v >= FL2_CHAINLOG_MIN && v <= FL2_CHAINLOG_MAX;
    case FL2_p_hybridCycles: return v >= FL2_HYBRIDCYCLES_MIN && v <= FL2_HYBRIDCYCLES_MAX;
    case FL2_p_searchDepth: return v >= FL2_SEARCH_DEPTH_MIN && v <= FL2_SEARCH_DEPTH_MAX;
    case FL2_p_fastLength: return v >= FL2_FASTLENGTH_MIN && v <= FL2_FASTLENGTH_MAX;
    case FL2_p_strategy: return v <= FL2_ultra;
    case FL2_p_literalCtxBits: return v <= FL2_LC_MAX;
    case FL2_p_literalPosBits: return v <= FL2_LP_MAX;
    case FL2_p_posBits: return v <= FL2_PB_MAX;
    default: return v <= 1; /* flags */
    }
}
static int is_flag(FL2_cParameter p)
{
    return p == FL2_p_highCompression || p == FL2_p_divideAndConquer || p == FL2_p_omitProperties || p == FL2_p_doXXHash;
}
static int by_level(FL2_cParameter p) /* parameters a level replaces */
{
    return p != FL2_p_highCompression && p != FL2_p_resetInterval && p != FL2_p_omitProperties && p != FL2_p_doXXHash;
}
static size_t preset(const FL2_compressionParameters *q, FL2_cParameter p, size_t level, int *known)
{
    *known = 1;
    switch (p) {
    case FL2_p_compressionLevel: return level;
    case FL2_p_dictionarySize: return q->dictionarySize;
    case FL2_p_overlapFraction: return q->overlapFraction;
    case FL2_p_hybridChainLog: return q->chainLog;
    case FL2_p_hybridCycles: return (size_t)1 << q->cyclesLog;
    case FL2_p_searchDepth: return q->searchDepth;
    case FL2_p_fastLength: return q->fastLength;
    case FL2_p_divideAndConquer: return q->divideAndConquer;
    case FL2_p_strategy: return q->strategy;
    case FL2_p_literalCtxBits: return 3;
    case FL2_p_literalPosBits: return 0;
    case FL2_p_posBits: return 2;
    default: *known = 0; return 0;
    }
}

#if defined(PART_SET)
static FL2_CCtx c;
void harness(void)
{
    /* any prior setting: start from the creation defaults and set any subset of the parameters to any accepted value */
    c.params.doXXH = 1;
    if (IN(unsigned char) & 1) FL2_CCtx_setParameter(&c, FL2_p_highCompression, 1);
    { size_t l = IN(size_t); ASSUME(l >= 1 && l <= 10); CHECK(FL2_CCtx_setParameter(&c, FL2_p_compressionLevel, l) == l, "every level is accepted"); }
    c.params.cParams.reset_interval = 4;
    for (unsigned i = 3; i < N; ++i)
        if (IN(unsigned char) & 1) {
            size_t v = IN(size_t), r = FL2_CCtx_setParameter(&c, ids[i], v);
            int ok = is_flag(ids[i]) || in_range(ids[i], v);
            CHECK(ok ? (r == (is_flag(ids[i]) ? (v != 0) : v) || FL2_getErrorCode(r) == FL2_error_lclpMax_exceeded) : FL2_getErrorCode(r) == FL2_error_parameter_outOfBound, "the value is accepted exactly if it is in range");
        }
    size_t before[N], after[N];
    for (unsigned i = 0; i < N; ++i) before[i] = FL2_CCtx_getParameter(&c, ids[i]);
    int locked = IN(unsigned char) & 1;
    c.lockParams = (BYTE)locked;

    int p = IN(int); size_t v = IN(size_t);
    size_t r = FL2_CCtx_setParameter(&c, (FL2_cParameter)p, v);
    for (unsigned i = 0; i < N; ++i) after[i] = FL2_CCtx_getParameter(&c, ids[i]);
    int k = -1;
    for (unsigned i = 0; i < N; ++i) if (p == (int)ids[i]) k = (int)i;
    int lclp = FL2_isError(r) && FL2_getErrorCode(r) == FL2_error_lclpMax_exceeded;
    int lcpb = p == FL2_p_literalCtxBits || p == FL2_p_literalPosBits || p == FL2_p_posBits;

    for (unsigned i = 0; i < N; ++i) CHECK(in_range(ids[i], after[i]), "every parameter in force is in its documented range");
    if (FL2_isError(r) && !lclp) {
        for (unsigned i = 0; i < N; ++i) CHECK(after[i] == before[i], "a rejected setting changes nothing");
        CHECK(k < 0 || (locked && !lcpb) || (!is_flag(p) && !in_range(p, v)), "a valid setting is not rejected");
        CHECK(FL2_getErrorCode(r) == (locked && !lcpb ? FL2_error_stage_wrong : k < 0 ? FL2_error_parameter_unsupported : FL2_error_parameter_outOfBound), "the error tells the reason");
        REACH("rejected");
    } else {
        CHECK(k >= 0 && (!locked || lcpb), "unknown or locked parameters are rejected");
        size_t want = is_flag(p) ? (v != 0) : v;
        CHECK(is_flag(p) || in_range(p, v), "values out of range are rejected");
        CHECK(after[k] == want, "the stored value is read back");
        CHECK(lclp || r == want, "the value in force is returned");
        size_t lc = FL2_CCtx_getParameter(&c, FL2_p_literalCtxBits), lp = FL2_CCtx_getParameter(&c, FL2_p_literalPosBits);
        if (p == FL2_p_literalCtxBits || p == FL2_p_literalPosBits) CHECK(lclp == (lc + lp > FL2_LCLP_MAX), "an lc/lp sum above the limit is reported");
        else CHECK(!lclp, "the lc/lp error only comes from lc or lp");
        if (p != FL2_p_compressionLevel && p != FL2_p_highCompression) {
            for (unsigned i = 0; i < N; ++i) {
                int dict = ids[i] == FL2_p_dictionaryLog || ids[i] == FL2_p_dictionarySize;
                int pd = p == FL2_p_dictionaryLog || p == FL2_p_dictionarySize;
                CHECK((int)i == k || (dict && pd) || after[i] == before[i], "the other parameters keep their values");
            }
            REACH("single");
        } else {
            FL2_compressionParameters q;
            int high = (int)FL2_CCtx_getParameter(&c, FL2_p_highCompression);
            size_t level = FL2_CCtx_getParameter(&c, FL2_p_compressionLevel);
            CHECK(FL2_getLevelParameters((int)level, high, &q) == 0, "preset exists");
            for (unsigned i = 0; i < N; ++i) {
                int known; size_t w = preset(&q, ids[i], level, &known);
                if (known) CHECK(after[i] == w, "a level installs exactly its preset");
                if (!by_level(ids[i]) && (int)i != k) CHECK(after[i] == before[i], "a level leaves the other parameters alone");
            }
            REACH("level");
        }
    }
    size_t log = FL2_CCtx_getParameter(&c, FL2_p_dictionaryLog), size = FL2_CCtx_getParameter(&c, FL2_p_dictionarySize);
    CHECK(((size_t)1 << log) >= size && (log == FL2_DICTLOG_MIN || ((size_t)1 << (log - 1)) < size), "dictionary log and size agree");
    REACH("end");
}
#elif defined(PART_LEVELS)
void harness(void)
{
    FL2_compressionParameters q;
    int level = IN(int), high = IN(int), known;
    size_t r = FL2_getLevelParameters(level, high, &q);
    int max = high ? FL2_maxHighCLevel() : FL2_maxCLevel();
    CHECK(FL2_isError(r) == !(level >= 0 && level <= max), "levels beyond the maximum are rejected");
    if (FL2_isError(r)) { CHECK(FL2_getErrorCode(r) == FL2_error_parameter_outOfBound, "error"); REACH("bad"); return; }
    if (level == 0) return;
    for (unsigned i = 0; i < N; ++i) {
        size_t w = preset(&q, ids[i], (size_t)level, &known);
        if (known) CHECK(in_range(ids[i], w), "every value of a preset is valid");
    }
    CHECK(q.divideAndConquer <= 1 && q.cyclesLog <= 6, "preset flags");
    if (high) CHECK(q.dictionarySize == (size_t)1 << (19 + level), "high compression levels 1..10 use dictionary log 20..29");
    REACH("good");
}
#elif defined(PART_CREATE)
static unsigned made, freed;
static char dummy[64];
LZMA2_ECtx* LZMA2_createECtx(void) { ++made; return (LZMA2_ECtx*)dummy; }
void LZMA2_freeECtx(LZMA2_ECtx *const e) { ++freed; }
FL2POOL_ctx* FL2POOL_create(size_t n) { return (FL2POOL_ctx*)(n ? dummy : NULL); }
void FL2POOL_free(FL2POOL_ctx *p) {}
unsigned FL2_checkNbThreads(unsigned n) { return 2; }
void harness(void)
{
    FL2_CCtx *c = (IN(unsigned char) & 1) ? FL2_createCStreamMt(2, IN(unsigned char) & 1) : FL2_createCCtxMt(2);
    ASSUME(c != NULL);
    FL2_compressionParameters q;
    int known;
    CHECK(FL2_CCtx_getParameter(c, FL2_p_compressionLevel) == 6, "documented default level");
    CHECK(FL2_getLevelParameters(6, 0, &q) == 0, "preset");
    for (unsigned i = 0; i < N; ++i) {
        size_t w = preset(&q, ids[i], 6, &known);
        if (known) CHECK(FL2_CCtx_getParameter(c, ids[i]) == w, "a new context has the default level's preset");
        CHECK(in_range(ids[i], FL2_CCtx_getParameter(c, ids[i])), "defaults are valid");
    }
    CHECK(FL2_CCtx_getParameter(c, FL2_p_doXXHash) == 1 && FL2_CCtx_getParameter(c, FL2_p_omitProperties) == 0 && FL2_CCtx_getParameter(c, FL2_p_highCompression) == 0, "flag defaults");
    CHECK(FL2_CCtx_getParameter(c, FL2_p_resetInterval) == 4, "reset interval default");
    REACH("end");
}
#endif
