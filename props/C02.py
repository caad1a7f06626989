import c02
OBLIGATIONS = c02.reals(Ob) + c02.calls(Ob) + c02.pot(Ob)
RAC = [
    Rac('decode_asm', 'decode.c', args=[], jobs=2, secs=15, secs_thorough=240, variant='asm'),
    Rac('decode', 'decode.c', args=[], jobs=4, secs=15, secs_thorough=240),
    Rac('roundtrip', 'roundtrip.c', args=[], jobs=2, secs=15, secs_thorough=240),
]
LEVEL = 'proof'
TRUSTED = ['CBMC 6.11 front end, goto-cc and its back ends (MiniSat; z3 4.8.12 and cvc5 1.1.2 where a group names them)', 'a probability table initialised for lc + lp has the size LzmaProps_GetNumProbs gives (C01: init_dec)']
ASSUMPTIONS = ['objects are at most 2^48 bytes', 'the assembler decoder lzma_dec_x86_64.S and the threads of FL2_decompressDCtxMt and FL2_DStream are only checked at run time (sanitizers, guard pages)', 'reads of dictionary bytes give arbitrary values in the proof of LZMA_decodeReal_3 (their content does not matter for safety)', 'an upper bound of the product of range and probability (mul_high) is decided in the thorough tier']
NOTE = 'CBMC proves function by function, for any input bytes, dictionary and output sizes: LZMA_decodeReal_3 (every symbol, copies of any length by cut loops), LZMA_tryDummy, LZMA_writeRem, LZMA_decodeReal2, LZMA_decodeToDic, the LZMA2 chunk and stream level, LZMA2_decodeToBuf and LZMA2_initDecoder keep the decoder invariant, access only their buffers, copy only from written history and make progress. The assembler decoder, FL2_decompressDCtxMt and the threads of the streaming decoder are only runtime checked.'
