#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fast-lzma2.h"
int main(int ac,char**av){
 int mode=atoi(av[1]); size_t D=4<<20;
 unsigned char*in=malloc(D*3); for(size_t i=0;i<D*3;i++) in[i]=rand()%7;
 unsigned char*out=malloc(D*4); 
 if(mode<2||mode==4){
 FL2_CStream*s=FL2_createCStreamMt(2,mode==0||mode==4);
 if(mode==1) FL2_setCStreamTimeout(s,1);
 FL2_CStream_setParameter(s,FL2_p_compressionLevel,5);
 FL2_CStream_setParameter(s,FL2_p_dictionarySize,4<<20);
 FL2_initCStream(s,0);
 FL2_outBuffer o={out,D*4,0};
 FL2_inBuffer i={in,D,0};
 size_t r=FL2_compressStream(s,&o,&i); printf("%zu %s\n",r,FL2_getErrorName(r));
 if(mode==4){ FL2_initCStream(s,8); }
 FL2_freeCStream(s);} else {
  size_t c=FL2_compress(out,D*4,in,D*3,1);
  FL2_DStream*d=FL2_createDStreamMt(mode==3?2:1);
  FL2_setDStreamTimeout(d,1);
  FL2_initDStream(d);
  unsigned char*o2=malloc(D*3);
  FL2_outBuffer o={o2,D*3,0}; FL2_inBuffer i={out,c,0};
  size_t r=FL2_decompressStream(d,&o,&i); printf("%zu %s\n",r,FL2_getErrorName(r));
  FL2_freeDStream(d);
 }
 return 0;}
