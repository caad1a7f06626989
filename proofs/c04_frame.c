/* C04: the property byte FL2_compressBuffer / FL2_compressStream_internal ask for covers every block they compress.
 * FL2_compressCurBlock is replaced by its contract: requires the current block to lie within the dictionary the
 * property byte of this stream denotes. */
#include "vf.h"
#include "x_fl2_compress.c"
/* Contract of LZMA2_getDictSizeProp, proved in c04_prop.c: the byte it returns covers its argument and is minimal.
 * The size a returned byte covers is the ghost value prop_size. */
static size_t prop_size;
BYTE LZMA2_getDictSizeProp(size_t size) { prop_size = size; return (BYTE)(IN(unsigned char) & FL2_LZMA_PROP_MASK); }
static int prop_seen = -1;
static size_t covered;
static unsigned calls;
static size_t the_dict;

static size_t FL2_compressCurBlock(FL2_CCtx* const cctx, int const streamProp)
{
    ++calls;
    if (streamProp >= 0) {
        CHECK(prop_seen < 0, "the property byte is requested at most once per stream");
        CHECK(calls == 1, "the property byte comes with the first block");
        prop_seen = streamProp;
        CHECK((streamProp & ~(FL2_LZMA_PROP_MASK | (1u << FL2_PROP_HASH_BIT))) == 0, "only property and hash bits");
        CHECK(((streamProp >> FL2_PROP_HASH_BIT) != 0) == (cctx->params.doXXH != 0), "the hash flag is set exactly if a hash will follow");
    }
    CHECK(cctx->curBlock.start <= cctx->curBlock.end, "block is ordered");
    CHECK(cctx->curBlock.end <= the_dict, "block fits the dictionary");
    if (streamProp >= 0)
        covered = prop_size;
    if (prop_seen >= 0)
        CHECK(covered >= cctx->curBlock.end, "the property byte covers every block");
    cctx->threadCount = 0;
    cctx->outThread = 0;
    cctx->dictMax = MAX(cctx->dictMax, cctx->curBlock.end);
    REACH("block");
    return 0;
}

#ifdef PART_BUFFER
void harness(void)
{
    static FL2_CCtx c;
    static unsigned char dst[4], src[4];
    size_t dict = IN(size_t), n = IN(size_t);
    ASSUME(dict >= FL2_DICTSIZE_MIN && dict <= FL2_DICTSIZE_MAX);
    ASSUME(n >= 1 && n <= (size_t)1 << 62);
    c.params.rParams.dictionary_size = the_dict = dict;
    c.params.rParams.overlap_fraction = IN(unsigned) & 15;
    ASSUME(c.params.rParams.overlap_fraction <= FL2_BLOCK_OVERLAP_MAX);
    c.params.cParams.reset_interval = IN(unsigned) & 31;
    ASSUME(c.params.cParams.reset_interval <= FL2_RESET_INTERVAL_MAX);
    c.params.doXXH = IN(unsigned char) & 1;
    c.params.omitProp = IN(unsigned char) & 1;
    size_t r = FL2_compressBuffer(&c, src, n, dst, sizeof dst);
    CHECK(r == 0, "result");
    CHECK((prop_seen >= 0) == !c.params.omitProp, "the property byte is requested unless omitted");
    CHECK(c.params.omitProp || covered == MIN(n, dict), "the property is the smallest that covers the input");
    REACH("end");
}
#else
/* any number of calls: one call from an arbitrary reachable state, with the ghost invariant
 * wroteProp => prop covers dictionary_size or (ending) everything that can still come */
void harness(void)
{
    static FL2_CCtx c;
    static unsigned char data[2][1];
    size_t dict = IN(size_t);
    ASSUME(dict >= FL2_DICTSIZE_MIN && dict <= FL2_DICTSIZE_MAX);
    c.params.rParams.dictionary_size = the_dict = dict;
    c.params.doXXH = IN(unsigned char) & 1;
    c.params.omitProp = IN(unsigned char) & 1;
    c.wroteProp = IN(unsigned char) & 1;
    c.buf.size = dict;
    c.buf.async = IN(unsigned char) & 1;
    c.buf.index = IN(unsigned char) & 1;
    ASSUME(c.buf.index <= c.buf.async);
    c.buf.data[0] = data[0]; c.buf.data[1] = data[1];
    c.buf.start = IN(size_t); c.buf.end = IN(size_t);
    ASSUME(c.buf.start <= c.buf.end && c.buf.end <= dict);
    c.dictMax = IN(size_t);
    ASSUME(c.dictMax <= dict);
    ASSUME(c.wroteProp || c.params.omitProp || c.dictMax == 0);
    c.outThread = c.threadCount = IN(unsigned char);
    int ending = IN(unsigned char) & 1;
    unsigned char wrote = c.wroteProp;
    int had = c.buf.start < c.buf.end;
    size_t end = c.buf.end;
    size_t r = FL2_compressStream_internal(&c, ending);
    CHECK(r == 0, "result");
    CHECK(calls == (unsigned)had, "a block is compressed exactly if there is unprocessed data");
    if (had && !wrote && !c.params.omitProp) {
        CHECK(prop_seen >= 0 && c.wroteProp, "the first block carries the property byte");
        CHECK(covered == (ending ? end : dict), "the property is the smallest that covers every later block, or this last one");
        REACH("prop");
    } else
        CHECK(prop_seen < 0, "no second property byte");
    REACH("end");
}
#endif
