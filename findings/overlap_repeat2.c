/* C10/C01: with a structured match table (dictionary > 64 MB), a two-byte repeat crossing the start of a block whose overlap region precedes it
 * kept the lengths the previous block left in the table; the compressed stream then decodes to different bytes. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fast-lzma2.h"
int main(void)
{
    size_t dict = 68u << 20, ov = (dict * 2 / 16) & ~(size_t)15, n = dict + (8u << 20);
    unsigned char *a = malloc(n), *b = malloc(n + 1); unsigned s = 1;
    for (size_t i = 0; i < n; ++i) { s = s * 1664525u + 1013904223u; a[i] = (unsigned char)(s >> 28); }
    size_t start1 = dict - ov;               /* first new byte of the second block's overlap is start1; new data starts at dict */
    memset(a + ov - 4096, 0, 8192);          /* long lengths left in the table around the position where the second block starts */
    for (int i = -100; i < 200; ++i) a[dict + i] = (i & 1) ? 0x5a : 0xa5;
    (void)start1;
    size_t bound = FL2_compressBound(n); unsigned char *c = malloc(bound);
    FL2_CStream *cs = FL2_createCStreamMt(4, 0);
    FL2_CStream_setParameter(cs, FL2_p_compressionLevel, 1);
    FL2_CStream_setParameter(cs, FL2_p_dictionarySize, dict);
    FL2_CStream_setParameter(cs, FL2_p_overlapFraction, 2);
    FL2_initCStream(cs, 0);
    FL2_outBuffer o = { c, bound, 0 }; FL2_inBuffer in = { a, n, 0 };
    while (in.pos < in.size) { size_t r = FL2_compressStream(cs, &o, &in); if (FL2_isError(r)) { puts(FL2_getErrorName(r)); return 2; } }
    size_t r; do r = FL2_endStream(cs, &o); while (!FL2_isError(r) && r);
    if (FL2_isError(r)) { puts(FL2_getErrorName(r)); return 2; }
    FL2_freeCStream(cs);
    r = FL2_decompressMt(b, n, c, o.pos, 4);
    printf("%zu -> %zu, decode %s\n", n, o.pos, FL2_isError(r) ? FL2_getErrorName(r) : "ok");
    if (r != n || memcmp(a, b, n)) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) { printf("first difference at %zu (dict end %zu)\n", i, dict); break; } return 1; }
    return 0;
}
