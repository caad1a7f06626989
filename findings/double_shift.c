/* C08: dual buffers and overlapFraction 0: asking for the dictionary buffer twice without adding data in between switched back to the
 * buffer being compressed, so that the caller overwrote it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fast-lzma2.h"
int main(void)
{
    size_t n = 8u << 20, blk = 1u << 20; unsigned char *a = malloc(n), *b = malloc(n), *c = malloc(n * 2); unsigned s = 7; size_t r, i = 0;
    for (size_t k = 0; k < n; ++k) { s = s * 1664525u + 1013904223u; a[k] = (unsigned char)(s >> 27); }
    FL2_CStream *cs = FL2_createCStreamMt(1, 1);
    FL2_CStream_setParameter(cs, FL2_p_compressionLevel, 4); FL2_CStream_setParameter(cs, FL2_p_dictionaryLog, 20); FL2_CStream_setParameter(cs, FL2_p_overlapFraction, 0);
    FL2_initCStream(cs, 0);
    FL2_outBuffer o = { c, n * 2, 0 };
    while (i < n) {
        FL2_dictBuffer d; r = FL2_getDictionaryBuffer(cs, &d); if (FL2_isError(r)) return 2;
        r = FL2_getDictionaryBuffer(cs, &d); if (FL2_isError(r)) return 2;   /* nothing added in between */
        size_t k = d.size < n - i ? d.size : n - i; memcpy(d.dst, a + i, k); i += k;
        r = FL2_updateDictionary(cs, k); if (FL2_isError(r)) return 2;
        if (r) { do r = FL2_copyCStreamOutput(cs, &o); while (r); }
    }
    do r = FL2_endStream(cs, &o); while (!FL2_isError(r) && r);
    FL2_freeCStream(cs);
    r = FL2_decompress(b, n, c, o.pos);
    printf("%zu: %s, same %d\n", n, FL2_isError(r) ? FL2_getErrorName(r) : "ok", r == n && !memcmp(a, b, n));
    return !(r == n && !memcmp(a, b, n));
}
