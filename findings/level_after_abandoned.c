/* A level given to FL2_compressCCtx after a stream on the same object was abandoned is dropped. exit 1 = dropped. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fast-lzma2.h"
int main(void)
{
    size_t n = 1 << 20; unsigned char *s = malloc(n), *d = malloc(n + 100000); for (size_t i = 0; i < n; ++i) s[i] = (unsigned char)(i * i >> 7);
    FL2_CStream *f = FL2_createCStreamMt(1, 0); FL2_initCStream(f, 1);
    FL2_inBuffer in = { s, 100, 0 }; FL2_outBuffer out = { d, 100, 0 }; FL2_compressStream(f, &out, &in);   /* abandoned here */
    size_t r = FL2_compressCCtx(f, d, n + 100000, s, n, 9); size_t lev = FL2_CCtx_getParameter(f, FL2_p_compressionLevel);
    printf("%zu level %zu\n", r, lev); FL2_freeCStream(f); return lev != 9;
}
