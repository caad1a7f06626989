/* LZMA2_compressBound against what the encoder can emit: property byte, chunks with at most 3 bytes more than their content (proved in group space of the
 * chunk loop), end marker, hash. Number of chunks: see DESIGN C05. All source sizes up to 2^46 and all numbers of chunks. */
#include "vf.h"
#include <stddef.h>
#include "mem.h"
#include "fl2_internal.h"
#include "fl2_errors.h"
size_t LZMA2_compressBound(size_t src_size);
#define HALF ((kChunkSize - (kChunkSize / 16U)) / 2U)
#define FULL (2U * HALF)
#ifdef VF_CBMC
/* division by its definition: the quotient of K * d + R with R < d is K */
static size_t K, R; static size_t vf_div(size_t e, size_t d) { CHECK(R < d && e == K * d + R, "chunks are counted by the average size, rounded up"); return K; }
#define VF_DIV(e, d) vf_div(e, d)
#else
#define VF_DIV(e, d) ((e) / (d))
#endif
#include "x_lzma2_enc.c"
#ifdef PART_BOUND
void harness(void)
{
    size_t k = IN(U32), r = IN(U32), c = IN(size_t); ASSUME(r >= 1 && r <= HALF); if (IN(int) & 1) { k = 0; r = 0; }
    size_t const n = k ? (k - 1) * HALF + r : 0;                      /* every size, written as k = ceil(n / HALF) parts */
#ifdef VF_CBMC
    K = k; R = k ? r - 1 : HALF - 1;
#endif
    ASSUME(k || r == 0); ASSUME(c <= n + 3 * k);                                         /* all chunks */
    size_t const b = LZMA2_compressBound(n);
    CHECK(b >= 1 + c + 1 + 4, "the bound covers property, chunks, end marker and hash"); CHECK(b > n, "the bound exceeds the source"); REACH("end");
}
#else
void harness(void)
{   /* a slice of s bytes, at least ENC_MIN_BYTES_PER_THREAD when there are several, has ceil(s / FULL) chunks or less: not more than s / HALF */
    U32 s = IN(U32), k = IN(U32), h = IN(U32); ASSUME(s >= ENC_MIN_BYTES_PER_THREAD && s <= 1u << 30); ASSUME(k <= 1u << 16 && k >= 1 && (U64)(k - 1) * FULL < s && s <= (U64)k * FULL);   /* k = ceil(s / FULL) */
    ASSUME(h <= 1u << 16 && (U64)h * HALF <= s && s < (U64)(h + 1) * HALF); CHECK(k <= h, "slices do not need more chunks than the bound counts"); REACH("end");
}
#endif
