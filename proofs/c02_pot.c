/* How far a bit can narrow the range, in units of 1/64 octave: T[j] = ceil(2^(16 + j/64)). A coder whose range is at least T[j]
 * has, after an adaptive bit (c01_bit.c: at least (range >> 11) * 31 is left), a range of at least T[j - 387]; after a direct bit
 * of at least T[j - 65]; a byte of input takes T[j] to T[j + 512], and is taken only below T[512] = 2^24. With fewer than
 * 20 * 512 units per symbol (c02.c: distance group) and the last bit of a symbol being adaptive, at most 20 bytes are taken. */
#include "vf.h"
#ifndef PART_BIT
#include "x_pot.h"
void harness(void)
{
    unsigned const j = IN(unsigned); ASSUME(j <= 1024);
    uint32_t const r = IN(uint32_t); ASSUME(r >= T[j]);
    if (j < 1024) CHECK(T[j] <= T[j + 1], "a larger potential is a larger range");
    CHECK(T[512] == 1u << 24, "a byte is taken below 2^24");
    if (j >= 512) {
        CHECK((uint64_t)(r >> 11) * 31 >= T[j - 387], "an adaptive bit takes at most 387 units"); CHECK((r >> 1) >= T[j - 65], "a direct bit takes at most 65 units"); REACH("normalised");
    } else { CHECK((uint64_t)r << 8 >= T[j + 512], "a byte gives 512 units"); REACH("needs a byte"); }
}
#else
/* the bit macros for any range, code (also one no encoder produces), probability and input */
static unsigned a31; static unsigned vf_mul(unsigned a, unsigned p) { CHECK(a < 1u << 21 && p >= 31 && p <= 2017, "factors (mul.c)"); unsigned const e = IN(unsigned), r = (a << 11) - ((a << 5) - a) - e; a31 = (a << 5) - a; ASSUME(e <= (a << 11) - a31 - a31); return r; }
#define VF_MUL(a, p) vf_mul(a, p)
#include "x_lzma2_dec.c"
void harness(void)
{
    U32 range = IN(U32), code = IN(U32), bound; unsigned ttt; LZMA2_prob pr = IN(LZMA2_prob), *const p = &pr; ASSUME(pr >= 31 && pr <= 2017);
    BYTE in[1]; in[0] = IN(BYTE); const BYTE *buf = in; U32 const r0 = range; ASSUME(r0 >= 1u << 16); int bit;
    U32 const norm = r0 < 1u << 24 ? r0 << 8 : r0;
    IF_BIT_0(p) { UPDATE_0(p); bit = 0; } else { UPDATE_1(p); bit = 1; }
    CHECK(buf == in + (r0 < 1u << 24), "a byte is taken when the range is below 2^24, and only one");
    CHECK(bit ? range == norm - bound : range == bound, "the interval of the bit");
    CHECK(a31 == ((norm >> 11) << 5) - (norm >> 11) && bound >= a31 && norm - bound >= a31, "a bit leaves at least 31/2048 of the range");
    CHECK(pr >= 31 && pr <= 2017, "probabilities stay between 31 and 2017"); REACH("bit");
}
#endif
