import extract


def bound(Ob):
    def prep(d):
        extract.copy(d, 'lzma2_enc.c', sub=[(r'\(src_size \+ chunk_min_avg - 1\) / chunk_min_avg', 'VF_DIV(src_size + chunk_min_avg - 1, chunk_min_avg)')])
    def prep2(d):
        extract.copy(d, 'lzma2_enc.c')
    return [Ob('bound', 'c05.c', defines=['PART_BOUND'], functions=['LZMA2_compressBound'], prep=prep, unwind=3, extra=['--z3'], replay=False),
            Ob('chunk_count', 'c05.c', defines=['PART_COUNT'], functions=['ENC_MIN_BYTES_PER_THREAD'], prep=prep2, unwind=3, replay=False)]
