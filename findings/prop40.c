#include "fast-lzma2.h"
#include <stdio.h>
#include <string.h>
int main(void){ char s[1000], d[1000], c[2000]; for(int i=0;i<1000;i++) s[i]=(char)(i*i); size_t n=FL2_compress(c,2000,s,1000,5); c[0]=40|(c[0]&~0x3f);
 size_t r=FL2_decompress(d,1000,c,n); printf("%s\n", FL2_isError(r)?FL2_getErrorName(r):"ok"); 
 FL2_DStream*z=FL2_createDStream(); FL2_initDStream(z); FL2_inBuffer i={c,n,0}; FL2_outBuffer o={d,1000,0}; r=FL2_decompressStream(z,&o,&i); printf("%zu %zu %s\n", r,o.pos,FL2_getErrorName(r));
 return FL2_isError(r)|| memcmp(s,d,1000);}
