/* the product of a 21 bit number and a probability is between 31 and 2017 times the number; LZMA's range coders rely on it for every bit */
#include "vf.h"
void harness(void)
{
    unsigned const a = IN(unsigned), p = IN(unsigned); ASSUME(a < 1u << 21 && p >= 31 && p <= 2017);
#ifdef PART_LOW
    CHECK(a * p >= a * 31, "at least 31 times"); REACH("low");
#else
    CHECK(a * p <= a * 2017, "at most 2017 times"); REACH("high");
#endif
}
