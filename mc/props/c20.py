"""Bit-level and signal helpers: exact inverses and definitions."""
import math
import itertools
import numpy as np
import CommDspy as cdsp
from CommDspy import auxiliary as aux
from mc.core import words, long_word, shapes_of, forms

BOUNDS = {
    'quick': 'every integer below 2^n for n=1..12 bits, every bit word of <=12 bits, all shapes of 24 elements to 3-D; structured words of 14..62 bits; binary permutations for 1..13 bits; Hamming distances of words to 70000 bits, Hamming distances of every pair of words of <=6 bits and every pair of 2-word blocks of 3 bits; '
             'upsampling / zero-order hold of every word of <=5 samples x rates 1..8; power and RMS of every word of <=4 values from 5 (real and complex); power of integer samples of 7 widths to the ends of their range',
    'thorough': '16 bits, words of <=7 bits, rates to 20',
}
ASSUMPTIONS = ['most significant bit first']


def ints(ctx, n):
    v = np.arange(2 ** n)
    b = np.asarray(aux.uint2bin(v, n))
    ctx.ints(b, [[(i >> (n - 1 - k)) & 1 for k in range(n)] for i in range(2 ** n)], 'integer to bits', bits=n)
    ctx.ints(aux.bin2uint(b), v, 'bits to integer does not invert', bits=n)
    ctx.ints(aux.get_bin_perm(n), b, 'binary permutations are not all words in counting order', bits=n)
    ctx.step(3)
    ctx.extra_states += 2 ** n
    for i in (range(2 ** n) if n <= 8 else range(0, 2 ** n, 2 ** (n - 7) - 1)):
        one = np.asarray(aux.uint2bin(np.array([i]), n))
        ctx.ints(one, [[(i >> (n - 1 - k)) & 1 for k in range(n)]], 'single integer to bits', bits=n, value=i)
        ctx.ints(aux.bin2uint(one), [i], 'single word to integer', bits=n, value=i)
        ctx.ints(aux.bin2uint(one[0]), i, 'single 1-D word to integer', bits=n, value=i)
        ctx.step(3)
    ctx.trace()
    ctx.sample(bits=n, last=b[-1])


def shapes(ctx, n):
    base = [(i * 37 + 5) % 2 ** n for i in range(24)]
    for shp in shapes_of(24):
        a = np.array(base).reshape(shp)
        want = np.array([[(i >> (n - 1 - k)) & 1 for k in range(n)] for i in base]).reshape(tuple(shp) + (n,))
        for fn, arr in forms(a):
            b = aux.uint2bin(arr, n)
            ctx.ints(b, want, f'integer to bits, {fn}', shape=shp, bits=n)
            ctx.ints(aux.bin2uint(np.asarray(b)), a, f'bits to integer, {fn}', shape=shp, bits=n)
            ctx.step(2)
        ctx.state(n, shp)
    ctx.trace()


def wide(ctx, n):
    """Words wider than the exhaustive ones: every single bit, every run and alternating words of up to 62 bits."""
    vals = sorted({0, 2 ** n - 1} | {1 << i for i in range(n)} | {(1 << i) - 1 for i in range(n)} | {(2 ** n - 1) ^ (1 << i) for i in range(n)} | {int('10' * n, 2) % 2 ** n, int('110' * n, 2) % 2 ** n})
    b = aux.uint2bin(np.array(vals), n)
    want = [[(v >> (n - 1 - k)) & 1 for k in range(n)] for v in vals]
    ctx.ints(b, want, 'integer to bits', bits=n)
    ctx.ints(aux.bin2uint(np.array(want)), vals, 'bits to integer', bits=n)
    ctx.step(2)
    for v in vals:
        ctx.state(n, v)
    ctx.trace()


def long_distance(ctx, n):
    """Distances of long words, and of many words at a time."""
    base = np.array(long_word(2, n))
    inv = 1 - base
    half = base.copy()
    half[: n // 2] ^= 1
    cb = np.array([inv, half, base])
    for a, want in ((base, [n, n // 2, 0]), (inv, [0, n - n // 2, n]), (half, [n - n // 2, 0, n // 2])):
        for dt in (int, np.int8, float):
            h, idx = aux.hamming(a[None, :].astype(dt), cb.astype(dt))
            ctx.same(np.asarray(h).reshape(-1), want, 'Hamming distances of long words', n=n)
            ctx.check(want[int(np.asarray(idx)[0])] == min(want), 'closest codeword of long words', n=n)
            ctx.step()
    rows = np.array(list(words((0, 1), 8)))
    h, idx = aux.hamming(np.tile(rows, (3, 1)), rows)
    ctx.check(np.array_equal(np.asarray(idx), np.tile(np.arange(256), 3)), 'closest codeword of many words')
    ctx.state(n)
    ctx.trace()


def hamming(ctx, n, rows):
    ws = list(words((0, 1), n))
    for blk in itertools.product(ws, repeat=rows):
        pb = np.array(blk)
        for cb in ((ws,) if rows > 1 else (ws, ws[::-1], ws[:1], ws[1:3])):
            if not cb:
                continue
            h, idx = aux.hamming(pb, np.array(cb))
            want = np.array([[sum(x != y for x, y in zip(p, c)) for c in cb] for p in blk])
            h = np.asarray(h)
            ctx.check((h.shape == want.shape and np.array_equal(h, want)) or (h.shape == want.T.shape and np.array_equal(h, want.T)), 'Hamming distances', block=blk, codebook=cb, got=h)
            ctx.check(np.shape(idx) == (rows,) and all(want[i][int(j)] == want[i].min() for i, j in enumerate(idx)), 'closest codeword', block=blk, codebook=cb, got=idx)
            ctx.step()
        ctx.state(n, blk)
    ctx.trace()


def rates(ctx, length, top):
    for w in words((-1.5, 0.0, 2.0), length):
        a = np.array(w)
        for r in range(1, top + 1):
            want = []
            for v in w:
                want += [v] + [0.0] * (r - 1)
            ctx.same(aux.upsample(a, r), want, 'upsampling', word=w, rate=r)
            ctx.same(aux.zoh(a, r), [v for v in w for _ in range(r)], 'zero order hold', word=w, rate=r)
            ctx.step(2)
        ctx.state(w)
        ctx.trace()


def rates_kinds(ctx):
    for n in (1, 2, 3, 10, 100, 1000):
        for r in (1, 2, 3, 7, 16, 33):
            base = np.array(long_word(4, n)) + 1
            for a in (base, base.astype(float) / 3, base + 2j, base.astype(np.int8)):
                u = np.asarray(aux.upsample(a, r))
                ctx.check(u.shape == (n * r,), 'upsampled length', n=n, rate=r)
                ctx.same(u[::r], a, 'upsampling keeps the samples', n=n, rate=r)
                m = np.ones(n * r, dtype=bool)
                m[::r] = False
                ctx.check(not u[m].any(), 'upsampling inserts zeros', n=n, rate=r)
                ctx.same(aux.zoh(a, r), np.repeat(a, r), 'zero order hold', n=n, rate=r)
                ctx.step(2)
            ctx.state(n, r)
    ctx.trace()


def powers(ctx, length):
    al = (-2.0, -0.5, 0.0, 1.0, 3.0)
    for w in words(al, length):
        p = sum(v * v for v in w) / length
        ctx.close(aux.power(np.array(w)), p, 'power', word=w)
        ctx.close(aux.rms(np.array(w)), math.sqrt(p), 'rms', word=w)
        c = np.array([complex(v, u) for v, u in zip(w, w[::-1])])
        ctx.close(aux.power(c), 2 * p, 'power of a complex signal', word=w)
        ctx.close(aux.rms(c), math.sqrt(2 * p), 'rms of a complex signal', word=w)
        ctx.step(4)
        ctx.state(w)
        ctx.trace()


def narrow_powers(ctx):
    """Integer samples of every width, up to the ends of their range."""
    for dt in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64):
        i = np.iinfo(dt)
        for top in (10, 12, 100, 127, 200, 255, 1000, 32767, 65535, 10 ** 6, 2 ** 31 - 1):
            if top > i.max:
                continue
            for vals in ([top], [top, 0], [top, top // 2, 1], [max(-top, i.min), top, 3, 7], [top] * 300, [i.min if i.min < 0 and top > 100 else 1, top]):
                a = np.array(vals, dtype=dt)
                p = sum(int(v) ** 2 for v in a.tolist()) / len(vals)
                ctx.check(abs(float(aux.power(a)) - p) <= 1e-9 * p, 'power of integer samples', dtype=np.dtype(dt).name, values=vals[:4], got=float(aux.power(a)), want=p)
                ctx.check(abs(float(aux.rms(a)) - math.sqrt(p)) <= 1e-9 * math.sqrt(p), 'rms of integer samples', dtype=np.dtype(dt).name, values=vals[:4])
                ctx.step(2)
                ctx.state('narrow', np.dtype(dt).name, top, len(vals))
    ctx.trace()


CASES = {f.__name__: f for f in (ints, shapes, wide, long_distance, hamming, rates, rates_kinds, powers, narrow_powers)}


def tasks(tier):
    th = tier == 'thorough'
    yield 'narrow_powers', {}
    for n in range(1, (16 if th else 13) + 1):
        yield 'ints', dict(n=n)
    for n in (1, 2, 3, 5, 8, 12, 16):
        yield 'shapes', dict(n=n)
    for n in range(1, (8 if th else 7)):
        yield 'hamming', dict(n=n, rows=1)
    for n in range(1, 4):
        yield 'hamming', dict(n=n, rows=2)
    yield 'hamming', dict(n=2, rows=3)
    for n in range(1, 6):
        yield 'rates', dict(length=n, top=20 if th else 8)
    yield 'rates_kinds', {}
    for n in range(14, 63):
        yield 'wide', dict(n=n)
    for n in (100, 127, 128, 129, 200, 255, 256, 257, 300, 600, 40000, 70000):
        yield 'long_distance', dict(n=n)
    for n in range(1, 6 if th else 5):
        yield 'powers', dict(length=n)
