import os
import lz, extract


def real(Ob, name, part, functions, defs=(), **k):
    def prep(d):
        lz.dec(d, loops=[('LZMA_decodeReal_3', r'LenChoice', 'VF_ITER'), ('LZMA_decodeReal_3', r'dest \+ src', 'VF_COPY'), ('LZMA_decodeReal_3', r'dic\[dic_pos\+\+\] = dic\[pos\]', 'VF_COPY_WRAP'),
                         ('LZMA_decodeReal_3', r'range >>= 1', 'VF_DIRECT')])
    k.setdefault('unwind', 10)
    if part == 'REAL':
        k.setdefault('unwindset', ['LZMA_decodeReal_3.%d:3' % i for i in (2, 3, 4, 5)])
    k.setdefault('replay', False)
    if part == 'REAL':
        k.setdefault('instrument', [('--nondet-volatile',)])
    return Ob(name, 'c02.c', defines=['PART_' + part] + list(defs), functions=functions, prep=prep, **k)


def reals(Ob):
    """HC: 0 = less than a dictionary of history, buffer not wrapped; 1 = the same, buffer wrapped; 2 = a full dictionary of history."""
    o = []
    for hc in range(3):
        for g in range(3):
            o.append(real(Ob, 'real_h%d_%s' % (hc, ('memory', 'history', 'distance')[g]), 'REAL', ['LZMA_decodeReal_3'], defs=['HC=%d' % hc, 'GROUP=%d' % g], flags=None if g == 0 else [],
                          extra=['--slice-formula'], more=28))
        o.append(real(Ob, 'try_h%d' % hc, 'TRY', ['LZMA_tryDummy'], defs=['HC=%d' % hc], more=28))
    return o


def pot(Ob):
    def bitprep(d):
        extract.copy(d, 'lzma2_dec.c', sub=[(r'\((range >> kNumBitModelTotalBits)\) \* (\w+)', r'VF_MUL(\1, \2)')])

    def prep(d):
        def ceil_root(n):      # least x with x**64 >= n
            lo, hi = 0, 1 << 33
            while lo < hi:
                m = (lo + hi) // 2
                lo, hi = (lo, m) if m ** 64 >= n else (m + 1, hi)
            return lo
        open(os.path.join(d, 'x_pot.h'), 'w').write('static const uint64_t T[1025] = {%s};\n' % ','.join(str(ceil_root(1 << (16 * 64 + j))) for j in range(1025)))
    return [Ob('potential', 'c02_pot.c', prep=prep, functions=['LZMA_REQUIRED_INPUT_MAX'], unwind=3, replay=False),
            Ob('mul_low', 'mul.c', defines=['PART_LOW'], functions=['product of range and probability'], unwind=3, replay=False, extra=['--cvc5'], min_reach=0),
            Ob('mul_high', 'mul.c', functions=['product of range and probability'], unwind=3, replay=False, extra=['--cvc5'], timeout=400, tier='thorough', min_reach=0),
            Ob('bit_any_code', 'c02_pot.c', prep=bitprep, defines=['PART_BIT'], functions=['IF_BIT_0', 'UPDATE_0', 'UPDATE_1'], unwind=3, flags=['--bounds-check', '--pointer-check'], replay=False, tier='thorough', timeout=400)]


STUBS = dict(REM=['LZMA_writeRem'], REAL2=['LZMA_writeRem', 'LZMA_tryDummy', 'LZMA_decodeReal_3'], TODIC=['LZMA_writeRem', 'LZMA_decodeReal2', 'LZMA_initStateReal', 'LZMA_decodeToDic'],
             CHUNK=['LZMA_decodeToDic', 'LZMA2_decodeChunkToDic'], L2=['LZMA2_decodeChunkToDic', 'LZMA2_decodeToDic'], BUF=['LZMA2_decodeToDic'], INIT=[], PARSE=[], SIZE=['LZMA2_parseInput'])
BASE = ['LZMA_writeRem', 'LZMA_decodeReal2', 'LZMA_initStateReal', 'LZMA_decodeToDic']


def call(Ob, name, part, functions, defs=(), **k):
    def prep(d):
        stubs = [s for s in BASE if not (part == 'REAL2' and s == 'LZMA_decodeReal2')] + [s for s in STUBS[part] if s not in BASE]
        extract.copy(d, 'lzma2_dec.c', stubs=stubs, loops=[('LZMA_writeRem', r'dic\[dic_pos', 'VF_REM'), ('LZMA_decodeReal2', r'LZMA_tryDummy|LZMA_writeRem', 'VF_R2_OUT'), ('LZMA_decodeReal2', r'LZMA_decodeReal_3', 'VF_R2_IN'),
                     ('LZMA_decodeToDic', r'LZMA_decodeReal2', 'VF_TD'), ('LZMA2_decodeToDic', r'LZMA2_decodeChunkToDic', 'VF_L2'), ('LZMA2_decodeToBuf', r'LZMA2_decodeToDic', 'VF_BUF'),
                     ('LZMA2_getUnpackSize', r'LZMA2_parseInput', 'VF_SIZE')])
    k.setdefault('unwind', 5)
    k.setdefault('replay', False)
    k.setdefault('flags', ['--bounds-check', '--pointer-check'])
    k.setdefault('extra', ['--slice-formula'])
    return Ob(name, 'c02_calls.c', defines=['PART_' + part] + list(defs), functions=functions, prep=prep, **k)


def split(Ob, name, part, functions, groups=(0, 1, 2, 3), **k):
    """An obligation case by case over the history (HC) and group by group."""
    return [call(Ob, '%s_h%d_%d' % (name, h, g), part, functions, defs=['HC=%d' % h, 'GROUP=%d' % g], **(k if g == 0 else dict(k, flags=[], min_reach=0, extra=['--slice-formula'] + (['--z3'] if g == 5 else [])))) for h in range(3) for g in groups]


def calls(Ob):
    return [call(Ob, 'writeRem', 'REM', ['LZMA_writeRem'])] + split(Ob, 'decodeReal2', 'REAL2', ['LZMA_decodeReal2'], groups=range(6)) + split(Ob, 'decodeToDic', 'TODIC', ['LZMA_decodeToDic']) + \
        split(Ob, 'decodeChunk', 'CHUNK', ['LZMA2_decodeChunkToDic', 'LZMA2_nextChunkInfo', 'LZMA_initDicAndState', 'LZMA_updateWithUncompressed']) + split(Ob, 'lzma2_decodeToDic', 'L2', ['LZMA2_decodeToDic']) + \
        [call(Ob, 'decodeToBuf', 'BUF', ['LZMA2_decodeToBuf']), call(Ob, 'initDecoder', 'INIT', ['LZMA2_initDecoder', 'LZMA_init', 'LZMA_initDicAndState', 'LZMA_freeDict', 'LZMA2_dictBufSize', 'LZMA2_getDictSizeFromProp'])]


def parsers(Ob):
    return [call(Ob, 'parsers', 'PARSE', ['LZMA2_parseInput', 'LZMA2_nextChunkInfo']), call(Ob, 'parsers_small', 'PARSE', ['LZMA2_parseInput', 'LZMA2_nextChunkInfo'], defs=['SMALL'], replay=True, unwind=10, extra=[]), call(Ob, 'getUnpackSize', 'SIZE', ['LZMA2_getUnpackSize'])]
