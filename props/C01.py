import lz
OBLIGATIONS = lz.bits(Ob) + lz.symbols(Ob, False)
RAC = [
    Rac('roundtrip', 'roundtrip.c', args=[], jobs=4, secs=15, secs_thorough=240),
    Rac('roundtrip_asm', 'roundtrip.c', args=[], jobs=2, secs=15, secs_thorough=240, variant='asm'),
    Rac('stream', 'stream.c', args=['--mode', '2'], jobs=2, secs=15, secs_thorough=240, san='', opt='-O2'),
]
LEVEL = 'proof'
TRUSTED = ['CBMC 6.11 front end, goto-cc and its SAT back end (MiniSat)', 'multiplication of natural numbers is monotonic (31a <= pa <= 2017a for 31 <= p <= 2017)',
           'the composition of the per-bit, per-symbol and initial-state contracts over a chunk (induction on the symbols, written out in DESIGN.md)']
ASSUMPTIONS = ['the encoder asks for a literal, repeat or match that describes the data (C10 for the matches; the choice made by the optimal parser is only checked at run time)',
               'the bytes of a match are copied from the last distance: obligation group real of C02', 'the assembler decoder lzma_dec_x86_64.S is only checked at run time',
               'match copying in the decoder is checked for its destination and length here, its loop in C02']
NOTE = ('Proved by CBMC, function by function: each range coder bit, direct bit, shift with carry and flush against the real decoder macros; each symbol kind (all literals, short repeats, 4 repeats by length class, matches by slot and length class) '
        'encoded by the real encoder functions and decoded by the real LZMA_decodeReal_3; initial states. The quick tier leaves out some of the (slot, length class) pairs, the thorough tier has all. The choice of symbols and the assembler decoder are only runtime checked.')
