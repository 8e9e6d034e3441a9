"""Bits <-> symbols: documented bit order and flags, lossless inverse, trimming."""
import itertools
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word, shapes_of, forms

BOUNDS = {
    'quick': 'constellations of 2,4,8,16,32,64,256 symbols x all 16 flag settings x every bit word of <=10 bits and every symbol word of <=2 symbols, '
             'every length 0..140 with a de Bruijn word, constellations of 128..2^20 symbols for lengths 0..69, every shape of 24 bits up to 3-D, 5 memory layouts, integer widths, float/bool bits; every subset of flags left at its default; 140003-bit patterns',
    'thorough': 'bit words of <=13 bits, symbol words of <=3, lengths 0..600 plus 4095..4100 and 70001',
}
ASSUMPTIONS = ['reference model: per-symbol arithmetic on Python integers']
FLAGS = [dict(bit_order_inv=a, inv_msb=b, inv_lsb=c, pn_inv=d) for a, b, c, d in itertools.product([False, True], repeat=4)]


def ref_b2s(bits, m, bit_order_inv, inv_msb, inv_lsb, pn_inv):
    k = m.bit_length() - 1
    out = []
    for i in range(len(bits) // k):
        g = list(bits[i * k:(i + 1) * k])
        if k > 1:
            if bit_order_inv:
                g = g[::-1]
            if inv_msb:
                g[-1] ^= 1
            if inv_lsb:
                g[0] ^= 1
        if pn_inv:
            g = [1 - v for v in g]
        out.append(sum(v << j for j, v in enumerate(g)))
    return out


def ref_s2b(syms, m, bit_order_inv, inv_msb, inv_lsb, pn_inv):
    k = m.bit_length() - 1
    out = []
    for s in syms:
        g = [(s >> j) & 1 for j in range(k)]
        if pn_inv:
            g = [1 - v for v in g]
        if k > 1:
            if inv_msb:
                g[-1] ^= 1
            if inv_lsb:
                g[0] ^= 1
            if bit_order_inv:
                g = g[::-1]
        out.extend(g)
    return out


def check_bits(ctx, bits, arr, m, fl, msg=''):
    sy = cdsp.tx.bin2symbol(arr, m, **fl)
    ctx.step()
    ctx.ints(sy, np.array(ref_b2s(bits, int(m), **fl), dtype=int), 'bits to symbols' + msg, bits=bits, m=m, flags=fl)
    back = cdsp.rx.symbol2bin(np.asarray(sy), m, **fl)
    ctx.step()
    k = int(m).bit_length() - 1
    ctx.ints(back, np.array(bits[:len(bits) - len(bits) % k], dtype=int), 'symbols back to bits' + msg, bits=bits, m=m, flags=fl)
    ctx.trace()


def check_syms(ctx, syms, arr, m, fl, msg=''):
    b = cdsp.rx.symbol2bin(arr, m, **fl)
    ctx.step()
    ctx.ints(b, np.array(ref_s2b(syms, int(m), **fl), dtype=int), 'symbols to bits' + msg, symbols=syms, m=m, flags=fl)
    back = cdsp.tx.bin2symbol(np.asarray(b), m, **fl)
    ctx.step()
    ctx.ints(back, np.array(syms, dtype=int), 'bits back to symbols' + msg, symbols=syms, m=m, flags=fl)
    ctx.trace()


def bit_words(ctx, m, lo, hi, f):
    fl = FLAGS[f]
    for n in range(lo, hi + 1):
        for w in words((0, 1), n):
            check_bits(ctx, list(w), np.array(w, dtype=int), m, fl)
            ctx.state(m, f, w)
    ctx.sample(m=m, flags=fl, word=w)


def symbol_words(ctx, m, length, f):
    fl = FLAGS[f]
    for w in words(range(m), length):
        check_syms(ctx, list(w), np.array(w, dtype=int), m, fl)
        ctx.state(m, f, w)


def lengths(ctx, m, lens, f):
    fl = FLAGS[f]
    base = long_word(2, max(lens) + 1)
    sy = long_word(m, max(lens) + 1) if m <= 256 else [(i * i * 7919 + 5 * i + m - 1) % m for i in range(max(lens) + 1)]
    for n in lens:
        check_bits(ctx, base[:n], np.array(base[:n], dtype=int), m, fl, f' (length {n})')
        check_syms(ctx, sy[:n], np.array(sy[:n], dtype=int), m, fl, f' (length {n})')
        ctx.state(m, f, n)


def layouts(ctx, m, f):
    fl = FLAGS[f]
    bits = long_word(2, 24)
    syms = [(5 * s + 1) % m for s in range(24)]
    for shp in shapes_of(24):
        check_bits(ctx, bits, np.array(bits).reshape(shp), m, fl, f' shape {shp}')
        check_syms(ctx, syms, np.array(syms).reshape(shp), m, fl, f' shape {shp}')
        ctx.state(m, f, shp)
    for dt in (np.int64, np.int32, np.int16):
        for shp in ((24,), (4, 6)):
            for name, a in forms(np.array(bits, dtype=dt).reshape(shp)):
                check_bits(ctx, bits, a, m, fl, f' {name} {dt}')
            for name, a in forms(np.array(syms, dtype=dt).reshape(shp)):
                check_syms(ctx, syms, a, m, fl, f' {name} {dt}')
            ctx.state(m, f, str(dt), shp)
    check_bits(ctx, bits, np.array(bits), float(m), fl, ' float symbol count')
    for dt in (float, bool, np.uint8):
        for shp in ((24,), (4, 6), (2, 3, 4)):
            check_bits(ctx, bits, np.array(bits, dtype=dt).reshape(shp), m, fl, f' bits held as {dt}')


def defaults(ctx):
    """Every subset of the flags may be left out; what is left out is off."""
    names = list(FLAGS[0])
    for m in (2, 4, 8, 32):
        bits = long_word(2, 60)
        syms = [(7 * s + 3) % m for s in range(30)]
        for given in itertools.product([None, False, True], repeat=4):
            kw = {k: v for k, v in zip(names, given) if v is not None}
            full = {k: bool(v) for k, v in zip(names, given)}
            ctx.ints(cdsp.tx.bin2symbol(np.array(bits), m, **kw), np.array(ref_b2s(bits, m, **full)), 'bits to symbols with default flags', m=m, given=kw)
            ctx.ints(cdsp.rx.symbol2bin(np.array(syms), m, **kw), np.array(ref_s2b(syms, m, **full)), 'symbols to bits with default flags', m=m, given=kw)
            ctx.ints(cdsp.tx.bin2symbol(np.array(bits), m, *[full[k] for k in names]), np.array(ref_b2s(bits, m, **full)), 'positional flags', m=m, flags=full)
            ctx.ints(cdsp.rx.symbol2bin(np.array(syms), m, *[full[k] for k in names]), np.array(ref_s2b(syms, m, **full)), 'positional flags', m=m, flags=full)
            ctx.step(4)
            ctx.state(m, given)
    ctx.trace()


def rejects(ctx):
    for m in list(range(3, 70)) + [96, 100, 127, 129, 255, 1000]:
        if m & (m - 1):
            for n in (0, 1, 5, 12, 20):
                for fl in (FLAGS[0], FLAGS[15]):
                    ctx.raises(ValueError, lambda: cdsp.tx.bin2symbol(np.array(long_word(2, n), dtype=int), m, **fl), f'{m} symbols is not a power of two', m=m, n=n)
                    ctx.step()
            ctx.state(m)
    ctx.trace()


def large(ctx, m, n):
    base = long_word(2, 1024)
    bits = (base * (n // 1024 + 1))[:n]
    for fl in (dict(bit_order_inv=False, inv_msb=False, inv_lsb=False, pn_inv=False), dict(bit_order_inv=True, inv_msb=True, inv_lsb=False, pn_inv=True)):
        check_bits(ctx, bits, np.array(bits), m, fl, ' (long)')
        ctx.state('large', m, n, str(fl))


CASES = {f.__name__: f for f in (bit_words, symbol_words, lengths, layouts, defaults, rejects, large)}


def tasks(tier):
    for m in (2, 4, 16, 1024):
        yield 'large', dict(m=m, n=140003)
    thorough = tier == 'thorough'
    yield 'rejects', {}
    yield 'defaults', {}
    for m in (128, 512, 1024, 4096, 65536, 2 ** 20):
        for f in (range(16) if thorough else (0, 5, 10, 15)):
            yield 'lengths', dict(m=m, lens=list(range(0, 70)), f=f)
    for f in range(16):
        for m in (2, 4, 8, 16, 32, 64, 256):
            top = (13 if m <= 8 else 12) if thorough else 10
            yield 'bit_words', dict(m=m, lo=0, hi=top, f=f)
            if m <= 64:
                yield 'symbol_words', dict(m=m, length=1, f=f)
                if m <= 16 or thorough:
                    yield 'symbol_words', dict(m=m, length=2, f=f)
                if thorough and m <= 16:
                    yield 'symbol_words', dict(m=m, length=3, f=f)
            else:
                yield 'symbol_words', dict(m=m, length=1, f=f)
            yield 'lengths', dict(m=m, lens=list(range(0, 141)), f=f)
            if thorough:
                yield 'lengths', dict(m=m, lens=list(range(141, 601)) + list(range(4095, 4101)) + [70001], f=f)
            elif f in (0, 15):
                yield 'lengths', dict(m=m, lens=[256, 257, 511, 512, 1000, 1023, 1025, 4099], f=f)
            yield 'layouts', dict(m=m, f=f)
