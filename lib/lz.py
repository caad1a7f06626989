"""Obligation groups over the LZMA symbol coder: the encoder's functions and LZMA_decodeReal_3 / LZMA_tryDummy.

The decoder's bit macros are replaced by their contracts (proofs/*.c define them), the encoder's bit functions are renamed and
replaced by theirs; both contracts are discharged on the real macros and functions by the bit-level obligations (c01_bit.c)."""
import extract
DEC_MACROS = ['NORMALIZE', 'IF_BIT_0', 'UPDATE_0', 'UPDATE_1', 'NORMALIZE_CHECK', 'IF_BIT_0_CHECK', 'UPDATE_0_CHECK', 'UPDATE_1_CHECK']
NAT = ['fl2_common.c', 'radix_bitpack.c', 'radix_mf.c', 'radix_struct.c', 'dict_buffer.c', 'util.c', 'fl2_pool.c', 'fl2_threading.c', 'xxhash.c']
RC = ['RC_encodeBit0', 'RC_encodeBit1', 'RC_encodeBit', 'RC_encodeDirect']


def dec(d, strip=True, stubs=(), loops=()):
    extract.copy(d, 'lzma2_dec.c', strip=DEC_MACROS if strip else (), stubs=stubs, loops=loops)


def enc(d, rc=True, stubs=(), loops=()):
    if rc:
        extract.copy(d, 'range_enc.h', stubs=RC[:3], out='range_enc.h')
        extract.copy(d, 'range_enc.c', stubs=RC[3:])
    extract.copy(d, 'lzma2_enc.c', stubs=stubs, loops=loops)


def sym(Ob, name, part, functions, defs=(), **k):
    def prep(d):
        enc(d, stubs=['LZMA_getDistSlot'], loops=[('LZMA_encoderStates_Reset', r'literal_probs', 'VF_LIT')])
        dec(d, loops=[('LZMA_initStateReal', r'probs', 'VF_DINIT'), ('LZMA_decodeReal_3', r'LenChoice', 'VF_ITER'), ('LZMA_decodeReal_3', r'dest \+ src', 'VF_COPY'), ('LZMA_decodeReal_3', r'dic\[dic_pos\+\+\] = dic\[pos\]', 'VF_COPY_WRAP')])
    k.setdefault('unwind', 10)
    k.setdefault('unwindset', ['LZMA_decodeReal_3.2:28', 'LZMA_tryDummy.4:28', 'RC_encodeDirect.0:27', 'harness.0:65', 'harness.1:65'])
    k.setdefault('flags', [])
    k.setdefault('more', 28)
    k.setdefault('native_only', NAT)
    return Ob(name, 'c01_sym.c', defines=['PART_' + part] + list(defs), functions=functions, prep=prep, **k)


ENC = ['LZMA_encodeLiteralBuf', 'LZMA_encodeLiteral', 'LZMA_encodeLiteralMatched', 'LZMA_encodeLength', 'LZMA_encodeLength_MidHigh', 'LZMA_encodeRepMatchShort',
       'LZMA_encodeRepMatchLong', 'LZMA_encodeNormalMatch', 'RC_encodeBitTree', 'RC_encodeBitTreeReverse']


def symbols(Ob, dummy):
    """All kinds of symbols; the cases are complete: every literal, short repeat, repeat (4) by length class (3), match by length class (3) and distance slot (64)."""
    d, fn = (['DUMMY'], ['LZMA_tryDummy']) if dummy else ([], ['LZMA_decodeReal_3'])
    pre = 'try_' if dummy else 'sym_'
    o = [sym(Ob, pre + 'literal', 'LITERAL', ENC[:3] + fn, d), sym(Ob, pre + 'first', 'FIRST', ENC[1:2] + fn, d), sym(Ob, pre + 'shortrep', 'SHORTREP', ENC[5:6] + fn, d)]
    if not dummy:
        o += [sym(Ob, 'init_enc', 'INIT', ['LZMA_encoderStates_Reset', 'LZMA_lengthStates_Reset'], ['WHICH=0'], unwind=260), sym(Ob, 'init_dec', 'INIT', ['LZMA_initStateReal'], ['WHICH=1']), sym(Ob, 'slot', 'SLOT', ['LZMA_getDistSlot'])]
    for c in range(3):
        for r in range(4):
            o.append(sym(Ob, pre + 'rep%d_len%d' % (r, c), 'REP', ENC[3:5] + ENC[6:7] + ENC[8:9] + fn, d + ['CLASS=%d' % c, 'REP=%d' % r]))
        for s in range(64):
            o.append(sym(Ob, pre + 'match_slot%d_len%d' % (s, c), 'MATCH', ENC[3:5] + ENC[7:] + fn, d + ['CLASS=%d' % c, 'SLOT=%d' % s], tier='quick' if (c == 0 and (not dummy or s < 16 or s % 7 == 0)) or s in (3, 4, 13, 63) else 'thorough'))
    return o


def bit(Ob, name, part, functions, defs=(), **k):
    def prep(d):
        mul = (r'\((rc->range >> kNumBitModelTotalBits)\) \* (\w+)', r'VF_MUL(\1, \2)')
        extract.copy(d, 'range_enc.h', sub=[mul], out='range_enc.h')
        extract.copy(d, 'lzma2_dec.c', sub=[(r'\((range >> kNumBitModelTotalBits)\) \* (\w+)', r'VF_MUL(\1, \2)')])
        extract.copy(d, 'range_enc.c', stubs=['RC_shiftLow'], loops=[('RC_encodeDirect', r'bit_count', 'VF_ITER'), ('RC_shiftLow', r'out_index', 'VF_PENDING')])
    k.setdefault('unwind', 7)
    k.setdefault('native_only', NAT[:1])
    return Ob(name, 'c01_bit.c', defines=['PART_' + part] + list(defs), functions=functions, prep=prep, **k)


def bits(Ob):
    mac = ['IF_BIT_0', 'UPDATE_0', 'UPDATE_1', 'NORMALIZE', 'IF_BIT_0_CHECK', 'UPDATE_0_CHECK', 'UPDATE_1_CHECK', 'NORMALIZE_CHECK']
    o = [bit(Ob, 'bit_%s%s' % (f, '_byte' if n else ''), 'BIT', ['RC_' + f] + mac, ['WHICH=%d' % w, 'NEED=%d' % n])
         for w, f in enumerate(('encodeBit0', 'encodeBit1', 'encodeBit')) for n in (0, 1)]
    return o + [
            bit(Ob, 'bit_direct', 'DIRECT', ['RC_encodeDirect'], replay=False),
            bit(Ob, 'bit_shiftLow', 'SHIFT', ['RC_shiftLow'], unwind=3),
            bit(Ob, 'bit_flush', 'FLUSH', ['RC_reset', 'RC_setOutputBuffer', 'RC_flush']),
            bit(Ob, 'bit_first', 'FIRST', ['IF_BIT_0', 'UPDATE_0', 'UPDATE_1', 'NORMALIZE'])]
