/* C04: LZMA2_getDictSizeProp (encoder) against LZMA2_getDictSizeFromProp (decoder) and the format's table. */
#include "vf.h"
#include "fast-lzma2.h"
#include "fl2_errors.h"
#include "fl2_internal.h"
#include "lzma2_enc.h"
#include "lzma2_dec.h"

static size_t spec_size(unsigned p) /* LZMA2 format: 2 or 3 times a power of two, 40 means 4 GiB - 1 */
{
    if (p == 40) return 0xFFFFFFFF;
    return ((p & 1) ? (size_t)3 : (size_t)2) << (p / 2 + 11);
}

void harness(void)
{
    unsigned char p = IN(unsigned char);
    size_t d = LZMA2_getDictSizeFromProp(p);
    if (p > 40) { CHECK(FL2_isError(d), "property bytes above 40 are rejected"); REACH("invalid"); }
    else { CHECK(d == spec_size(p), "a property byte denotes the size the format defines"); REACH("valid"); }

    size_t n = IN(size_t);
    ASSUME(n <= (size_t)FL2_DICTSIZE_MAX);
    unsigned char q = LZMA2_getDictSizeProp(n);
    CHECK(q < 40, "the property written is valid");
    CHECK(spec_size(q) >= n, "the property covers the dictionary");
    CHECK(LZMA2_getDictSizeFromProp(q) >= n, "the decoder's dictionary covers the encoder's");
    if (q > 0) { CHECK(spec_size(q - 1) < n, "no smaller property would do"); REACH("min"); }
    CHECK((q & FL2_LZMA_PROP_MASK) == q, "the property leaves the hash flag bit clear");
    size_t m = IN(size_t);
    ASSUME(m <= n);
    CHECK(LZMA2_getDictSizeProp(m) <= q, "the property is monotone in the size");
}
