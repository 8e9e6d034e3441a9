"""Manchester and differential Manchester line codes."""
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word, shapes_of, forms

BOUNDS = {
    'quick': 'every bit word of <=10 bits encoded and decoded, every received word of <=10 half-bits decoded, every length 1..260 and selected ones to 140001, every shape of 24 bits to 3-D, '
             '5 memory layouts, 9 element types; received half-bits in 6 element types',
    'thorough': 'words of <=14 bits, received words of <=16 half-bits, lengths to 600 and 70001',
}
ASSUMPTIONS = ['integer, boolean or float bit arrays; the last axis holds whole bit cells',
               'differential Manchester starts at level 0, a cell of a 1 has no mid transition, every cell boundary has a transition']


def man_enc(bits):
    out = []
    for b in bits:
        out += [1, 0] if b else [0, 1]
    return out


def man_dec(h):
    out = []
    for i in range(0, len(h), 2):
        a, b = h[i], h[i + 1]
        out.append(0.5 if a == b else float(a))
    return out


def dm_enc(bits):
    """Two-state machine: the level after the cell boundary toggles; a 0 toggles once more in the middle."""
    lvl, out = 1, []
    for b in bits:
        lvl ^= 1
        out.append(lvl)
        if not b:
            lvl ^= 1
        out.append(lvl)
    return out


def dm_dec(h):
    return [1 if h[i] == h[i + 1] else 0 for i in range(0, len(h), 2)]


def dbl(shp):
    return tuple(shp[:-1]) + (2 * shp[-1],)


def enc_one(ctx, w, arr, msg=''):
    e = cdsp.tx.coding_manchester(arr)
    ctx.step()
    ctx.ints(e, np.array(man_enc(w), dtype=int).reshape(dbl(arr.shape)), 'manchester coding' + msg, word=w)
    d = cdsp.rx.decoding_manchester(np.asarray(e))
    ctx.step()
    ctx.same(d, np.array(w, dtype=int).reshape(arr.shape), 'manchester round trip' + msg, word=w)
    e = cdsp.tx.coding_differential_manchester(arr)
    ctx.step()
    ctx.ints(e, np.array(dm_enc(w), dtype=int).reshape(dbl(arr.shape)), 'differential manchester coding' + msg, word=w)
    d = cdsp.rx.decoding_differential_manchester(np.asarray(e))
    ctx.step()
    ctx.ints(d, np.array(w, dtype=int).reshape(arr.shape), 'differential manchester round trip' + msg, word=w)
    d = cdsp.rx.decoding_differential_manchester(1 - np.asarray(e))
    ctx.step()
    ctx.ints(d, np.array(w, dtype=int).reshape(arr.shape), 'differential manchester must not depend on polarity' + msg, word=w)
    ctx.trace()


def dec_one(ctx, h, arr, msg=''):
    half = tuple(arr.shape[:-1]) + (arr.shape[-1] // 2,)
    d = cdsp.rx.decoding_manchester(arr)
    ctx.step()
    ctx.same(d, np.array(man_dec(h)).reshape(half), 'manchester decoding' + msg, received=h)
    d = cdsp.rx.decoding_differential_manchester(arr)
    ctx.step()
    ctx.ints(d, np.array(dm_dec(h), dtype=int).reshape(half), 'differential manchester decoding' + msg, received=h)
    ctx.trace()


def enc_words(ctx, length, prefix):
    for r in words((0, 1), length - len(prefix)):
        w = tuple(prefix) + r
        enc_one(ctx, w, np.array(w, dtype=int))
        ctx.state('e', w)
    ctx.sample(word=w, manchester=man_enc(w), differential=dm_enc(w))


def dec_words(ctx, length, prefix):
    for r in words((0, 1), length - len(prefix)):
        h = tuple(prefix) + r
        dec_one(ctx, h, np.array(h, dtype=int))
        ctx.state('d', h)


def lengths(ctx, lens):
    base = long_word(2, 2 * max(lens) + 2)
    for n in lens:
        for w in (base[:n], [1] * n, [0] * n):
            enc_one(ctx, w, np.array(w, dtype=int), f' (length {n})')
        h = base[:2 * n]
        dec_one(ctx, h, np.array(h, dtype=int), f' (length {n})')
        ctx.state('len', n)


def layouts(ctx):
    w = long_word(2, 24)
    for shp in shapes_of(24):
        enc_one(ctx, w, np.array(w).reshape(shp), f' shape {shp}')
        if shp[-1] % 2 == 0:
            dec_one(ctx, w, np.array(w).reshape(shp), f' shape {shp}')
        ctx.state(shp)
    for dt in (np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32, bool, np.float64):
        for shp in ((24,), (4, 6), (2, 3, 4), (3, 2, 4)):
            for fn, a in forms(np.array(w, dtype=dt).reshape(shp)):
                enc_one(ctx, w, a, f' {fn} {dt}')
                dec_one(ctx, w, a, f' {fn} {dt}')
                ctx.state(str(dt), shp, fn)


def received_types(ctx, n):
    """Received half-bits in every element type a slicer or a file may deliver."""
    for h in words((0, 1), n):
        for dt in (np.uint8, np.uint16, np.int8, bool, np.float64, np.float32):
            a = np.array(h).astype(dt)
            ctx.same(np.asarray(cdsp.rx.decoding_manchester(a), dtype=float), np.array(man_dec(h), dtype=float), 'manchester decoding', received=h, dtype=np.dtype(dt).name)
            ctx.same(np.asarray(cdsp.rx.decoding_differential_manchester(a), dtype=float), np.array(dm_dec(h), dtype=float), 'differential manchester decoding', received=h, dtype=np.dtype(dt).name)
            ctx.step(2)
        ctx.state('types', h)
        ctx.trace()


CASES = {f.__name__: f for f in (enc_words, dec_words, lengths, layouts, received_types)}


def tasks(tier):
    th = tier == 'thorough'
    for n in (2, 4, 6, 8):
        yield 'received_types', dict(n=n)
    for n in range(1, (14 if th else 10) + 1):
        if n >= 12:
            for p in words((0, 1), 3):
                yield 'enc_words', dict(length=n, prefix=list(p))
        else:
            yield 'enc_words', dict(length=n, prefix=[])
    for n in range(2, (16 if th else 12) + 1, 2):
        if n >= 12:
            for p in words((0, 1), 3):
                yield 'dec_words', dict(length=n, prefix=list(p))
        else:
            yield 'dec_words', dict(length=n, prefix=[])
    for a in range(1, 261, 65):
        yield 'lengths', dict(lens=list(range(a, a + 65)))
    yield 'lengths', dict(lens=[511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097])
    yield 'lengths', dict(lens=[70001, 140001])
    if th:
        yield 'lengths', dict(lens=list(range(261, 600)) + [70001])
    yield 'layouts', {}
