/* radix_mf.c: creation and reconfiguration of the match table, included whole. TABLE_SPLIT etc. constants are the source's.
 * Invariant TINV: params.dictionary_size is what the table was allocated for, alloc_struct its layout; builders is null or one builder per thread,
 * each at least as large as its limit. The builder array's loops are cut at the iteration of a ghost index. */
#include "vf.h"
#include <stdlib.h>
#include "mem.h"
#include "fl2_internal.h"
#include "fl2_errors.h"
#include "radix_internal.h"
static FL2_matchTable T, T0; static RMF_builder B0, BG, BO; static RMF_builder *BT[FL2_MAXTHREADS], *NEWT[FL2_MAXTHREADS]; static unsigned g, nfree, ncreate, pass;
static size_t want_size, new_size; static unsigned want_len; static int create_ok;
static RMF_parameters P, Q; static size_t reduce;
#define LEN_OF(s) ((s) ? STRUCTURED_MAX_LENGTH : BITPACK_MAX_LENGTH)
#ifdef PART_APPLY
#define VF_BUILD if (pass++ == 0) { CHECK(i == 0, "starts with the first builder"); if (IN(int) & 1) i = g; else ASSUME(g == 0); } else { CHECK(i == g + 1, "next builder"); i = T.thread_count; break; }
/* contract of RMF_createBuilderTable, proved in PART_TABLE */
static RMF_builder **RMF_createBuilderTable(U32 *const match_table, size_t const match_buffer_size, unsigned const max_len, unsigned const size)
{
    CHECK(match_table == T.table && size == T.thread_count, "one builder per thread on this table"); ++ncreate; want_size = match_buffer_size; want_len = max_len;
    create_ok = IN(int) & 1; if (!create_ok) return NULL;
    new_size = IN(size_t); ASSUME(new_size >= 256 && new_size <= (1u << 24) && (match_buffer_size < 256 || match_buffer_size > (1u << 24) || new_size == match_buffer_size));
    NEWT[0] = &B0; NEWT[g] = &BG; B0.match_buffer_size = B0.match_buffer_limit = BG.match_buffer_size = BG.match_buffer_limit = new_size; B0.max_len = BG.max_len = max_len; B0.table = BG.table = match_table;
    return NEWT;
}
static void RMF_freeBuilderTable(RMF_builder **const builders, unsigned const size) { CHECK(builders == T0.builders && size == T.thread_count, "the old builders are released"); ++nfree; }
#else
#define VF_BUILD
#endif
#ifdef PART_TABLE
static size_t asked, nmade; static unsigned cpass, ipass, nf; static RMF_builder *made_g;
static RMF_builder *RMF_createBuilder(size_t match_buffer_size)
{
    CHECK(match_buffer_size == asked, "each builder has the size asked for"); ++nmade;
    if (IN(int) & 1) return NULL;
    RMF_builder *b = &BG; b->match_buffer_size = b->match_buffer_limit = asked; made_g = b; return b;
}
static void *vf_malloc(size_t n) { CHECK(n == T.thread_count * sizeof(RMF_builder*), "room for one pointer per thread"); if (IN(int) & 1) return NULL; return BT; }

static void RMF_freeBuilderTable(RMF_builder **const builders, unsigned const size) { CHECK(builders == BT && size == g, "after a failure exactly the builders already made are released"); ++nfree; }
#define malloc(n) vf_malloc(n)
#define VF_INITNULL if (ipass++ == 0) { CHECK(i == 0, "all entries"); i = size - 1; } else break;
#define VF_CREATE if (cpass++ == 0) { CHECK(i == 0, "starts with the first builder"); if (IN(int) & 1) i = g; else ASSUME(g == 0); } else { CHECK(i == g + 1 && BT[g] == &BG, "the builder is stored, then the next"); CHECK(BG.table == T.table && BG.max_len == want_len && BG.match_buffer_limit == asked, "every builder has the table, the length limit and the buffer"); REACH("next builder"); ASSUME(0); }
#else
#define VF_INITNULL
#define VF_CREATE
#endif
#include "fl2_common.c"
#include "x_radix_mf.c"
#undef malloc
static RMF_parameters any_params(void)
{
    RMF_parameters p; p.dictionary_size = IN(size_t); p.match_buffer_resize = IN(unsigned); p.overlap_fraction = IN(unsigned); p.divide_and_conquer = IN(unsigned); p.depth = IN(unsigned);
#ifdef RMF_REFERENCE
    p.use_ref_mf = IN(unsigned);
#endif
    return p;
}
static size_t clampz(size_t v, size_t lo, size_t hi) { return v < lo ? lo : v > hi ? hi : v; }
static void spec(void)
{   /* what the documented ranges make of the parameters */
    Q = P; Q.dictionary_size = clampz(P.dictionary_size, (size_t)1 << 20, (size_t)1 << 30); if (Q.match_buffer_resize > FL2_BUFFER_RESIZE_MAX) Q.match_buffer_resize = FL2_BUFFER_RESIZE_MAX;
    if (Q.overlap_fraction > FL2_BLOCK_OVERLAP_MAX) Q.overlap_fraction = FL2_BLOCK_OVERLAP_MAX; Q.depth = (unsigned)clampz(P.depth, FL2_SEARCH_DEPTH_MIN, FL2_SEARCH_DEPTH_MAX);
    if (reduce && Q.dictionary_size > reduce) Q.dictionary_size = reduce < ((size_t)1 << 20) ? (size_t)1 << 20 : reduce;
}
static void table(void)
{
    g = IN(unsigned);
    T.params = any_params(); T.thread_count = IN(unsigned); T.unreduced_dict_size = IN(size_t); T.alloc_struct = IN(int) & 1; T.is_struct = IN(int) & 1; T.progress = IN(size_t); T.end_index = IN(long);
    ASSUME(T.thread_count >= 1 && T.thread_count <= FL2_MAXTHREADS && g < T.thread_count);
    ASSUME(T.params.dictionary_size >= ((size_t)1 << 20) && T.params.dictionary_size <= T.unreduced_dict_size && T.unreduced_dict_size <= ((size_t)1 << 30));
    ASSUME(T.alloc_struct == (T.params.dictionary_size > ((size_t)1 << RADIX_LINK_BITS)) && T.is_struct <= T.alloc_struct);
    BT[0] = &B0; BT[g] = &BG; T.builders = (IN(int) & 1) ? BT : NULL;
    B0.match_buffer_size = IN(size_t); B0.match_buffer_limit = IN(size_t); B0.max_len = IN(unsigned); B0.table = T.table; if (g) { BG = B0; } else BT[0] = &BG, BG = B0;
    ASSUME(B0.match_buffer_size >= 256 && B0.match_buffer_size <= (1u << 24) && B0.match_buffer_limit <= B0.match_buffer_size);
    T0 = T;
}
#if defined(PART_APPLY)
void harness(void)
{
    table(); P = any_params(); reduce = IN(size_t); RMF_parameters given = P; spec();
    BYTE compat = RMF_compatibleParameters(&T, &P, reduce);
    size_t r = RMF_applyParameters(&T, &P, reduce);
    int const st = Q.dictionary_size > ((size_t)1 << RADIX_LINK_BITS);
    CHECK(P.dictionary_size == given.dictionary_size && P.depth == given.depth && P.overlap_fraction == given.overlap_fraction && P.match_buffer_resize == given.match_buffer_resize, "the caller's parameters are not changed");
    CHECK(T.alloc_struct == T0.alloc_struct && T.thread_count == T0.thread_count && T.params.dictionary_size == T0.params.dictionary_size && T.unreduced_dict_size == T0.unreduced_dict_size, "what the table was allocated for stays");
    if (FL2_isError(r) && FL2_getErrorCode(r) == FL2_error_parameter_unsupported) {
        CHECK(!compat, "only incompatible parameters are refused");
        CHECK(T.params.depth == T0.params.depth && T.params.overlap_fraction == T0.params.overlap_fraction && T.params.match_buffer_resize == T0.params.match_buffer_resize && T.params.divide_and_conquer == T0.params.divide_and_conquer && T.is_struct == T0.is_struct && T.builders == T0.builders && !nfree && !ncreate, "refused parameters change nothing");
        REACH("refused"); return;
    }
    CHECK(compat, "incompatible parameters are refused"); CHECK(Q.dictionary_size <= T.params.dictionary_size, "the table is large enough");
    CHECK(T.params.depth == Q.depth, "the search depth given takes effect"); CHECK(T.params.overlap_fraction == Q.overlap_fraction, "the overlap given takes effect");
    CHECK(T.params.match_buffer_resize == Q.match_buffer_resize, "the buffer size given takes effect"); CHECK(T.params.divide_and_conquer == Q.divide_and_conquer, "the build method given takes effect");
    CHECK(T.is_struct == st && T.is_struct <= T.alloc_struct, "the layout is the one for this dictionary and fits the allocation");
    if (r == 0) {
        CHECK(T.builders == (ncreate ? NEWT : BT) && T.builders != NULL, "there are builders"); CHECK(ncreate == (nfree != 0) && nfree == ncreate, "the old builders are released when new ones are made");
        CHECK(T.builders[g]->max_len == LEN_OF(st), "every builder limits lengths to what the layout holds");
        CHECK(T.builders[g]->match_buffer_limit <= T.builders[g]->match_buffer_size && T.builders[g]->match_buffer_limit >= 256, "every builder's limit is within its buffer");
        CHECK(ncreate ? want_size == RMF_calBufSize(T.unreduced_dict_size, Q.match_buffer_resize) && want_len == LEN_OF(st) : T.builders[g]->match_buffer_limit == RMF_calBufSize(T.unreduced_dict_size, Q.match_buffer_resize), "the buffer limit is the one the parameters ask for");
        REACH("applied");
    } else {
        CHECK(FL2_getErrorCode(r) == FL2_error_memory_allocation && ncreate && !create_ok, "only lack of memory fails otherwise"); CHECK(T.builders == NULL, "released builders are not kept"); REACH("no memory");
    }
}
#elif defined(PART_TABLE)
void harness(void)
{
    table(); asked = IN(size_t); want_len = IN(unsigned); BT[g] = NULL;
    RMF_builder **r = RMF_createBuilderTable(T.table, asked, want_len, T.thread_count);
    if (r == NULL) { CHECK(nmade == nfree, "a builder that cannot be made releases the others"); REACH("no memory"); }
    else { REACH("made"); }
}
#elif defined(PART_BUFSIZE)
void harness(void)
{   /* the estimate of a builder's size used everywhere: never zero, bounded */
    size_t d = IN(size_t); unsigned z = IN(unsigned); ASSUME(d >= ((size_t)1 << 20) && d <= ((size_t)1 << 30) && z <= FL2_BUFFER_RESIZE_MAX);
    size_t s = RMF_calBufSize(d, z); CHECK(s >= 256 && s <= (1u << 24), "a match buffer is within what links can address"); REACH("end");
}
#elif defined(PART_CREATE)
#endif
