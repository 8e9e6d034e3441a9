"""Gray and differential coding."""
import itertools
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word, shapes_of, forms

BOUNDS = {
    'quick': 'gray tables for every level count 2..600; gray coding of every word of <=5 symbols; differential coding of every word (m=2: <=10, m=3: <=6, '
             'm=4: <=5), every length 1..260, 1000..4097, 140001 and one stream of 7..21 million symbols, all shapes of 24 symbols to 3-D; every single-symbol channel error at every position; every constant rotation',
    'thorough': 'level counts to 4096, words two symbols longer, lengths to 600 and 70001',
}
ASSUMPTIONS = ['reference model: modulo-m accumulator with zero initial state; gray code i^(i>>1)',
               'gray coding is claimed for constellations with a power-of-two number of levels (PAM3 is a recorded finding)']
M = {'NRZ': 2, 'OOK': 2, 'PAM3': 3, 'PAM4': 4}


def gray_table(ctx, counts):
    for n in counts:
        v = np.asarray(cdsp.get_gray_level_vec(n))
        ctx.step()
        ctx.ints(v, [i ^ (i >> 1) for i in range(n)], 'gray level vector', levels=n)
        ctx.state('table', n)
    ctx.trace()
    ctx.sample(levels=n, last=v[-4:])


def gray_words(ctx, name, length):
    c = cdsp.ConstellationEnum[name]
    m = M[name]
    g = [i ^ (i >> 1) for i in range(m)]
    for w in words(range(m), length):
        a = np.array(w, dtype=int)
        enc = cdsp.tx.coding_gray(a, c)
        ctx.step()
        ctx.ints(enc, [g[i] for i in w], 'gray coding', word=w, constellation=name)
        dec = cdsp.rx.decoding_gray(np.array(enc, copy=True), c)
        ctx.step()
        ctx.ints(dec, a, 'gray decoding does not invert the coding', word=w, constellation=name)
        ctx.ints(cdsp.rx.decoding_gray(a.copy(), c), [g.index(i) for i in w], 'gray decoding', word=w, constellation=name)
        ctx.state('gray', name, w)
        ctx.trace()


def gray_neighbours(ctx, name):
    """A slicing error to a neighbouring level costs exactly one bit after decoding."""
    c = cdsp.ConstellationEnum[name]
    m = M[name]
    for i in range(m - 1):
        d = np.asarray(cdsp.rx.decoding_gray(np.array([i, i + 1]), c))
        e = np.asarray(cdsp.tx.coding_gray(np.array([i, i + 1]), c))
        for f in range(2):
            bits = np.asarray(cdsp.rx.symbol2bin(d, m, bit_order_inv=bool(f))).reshape(2, -1)
            ctx.check(np.sum(bits[0] != bits[1]) == 1, 'neighbouring levels differ in more than one bit', i=i, constellation=name)
        ctx.check(bin(int(e[0]) ^ int(e[1])).count('1') == 1, 'neighbouring codes differ in more than one bit', i=i, constellation=name)
        ctx.step(2)
        ctx.state(name, i)
    ctx.trace()


def gray_layout(ctx, name):
    c = cdsp.ConstellationEnum[name]
    m = M[name]
    w = long_word(m, 24)
    g = [i ^ (i >> 1) for i in range(m)]
    for shp in shapes_of(24):
        for fn, a in forms(np.array(w).reshape(shp)):
            e = cdsp.tx.coding_gray(a, c)
            ctx.ints(e, np.array([g[i] for i in w]).reshape(shp), f'gray coding, {fn}', shape=shp)
            ctx.ints(cdsp.rx.decoding_gray(np.asarray(e), c), np.array(w).reshape(shp), f'gray decoding, {fn}', shape=shp)
            ctx.step(2)
        ctx.state(name, shp)
    for n in list(range(0, 200)) + [255, 256, 257, 1023, 1024, 1025, 4096, 10001]:
        w = long_word(m, n) if n else []
        e = cdsp.tx.coding_gray(np.array(w, dtype=int), c)
        ctx.ints(e, np.array([g[i] for i in w], dtype=int), 'gray coding', length=n)
        ctx.ints(cdsp.rx.decoding_gray(np.asarray(e), c), np.array(w, dtype=int), 'gray decoding', length=n)
        ctx.step(2)
        ctx.state(name, n)
    if m == 4:
        e = cdsp.tx.coding_gray(np.array(long_word(4, 40)))
        ctx.ints(e, [g[i] for i in long_word(4, 40)], 'default constellation is PAM4')
        ctx.ints(cdsp.rx.decoding_gray(np.asarray(e)), long_word(4, 40), 'default constellation is PAM4')
    ctx.trace()


def gray_pam3(ctx):
    """PAM3 has three levels: its gray coding must stay inside the constellation and be invertible."""
    c = cdsp.ConstellationEnum.PAM3
    e = np.asarray(cdsp.tx.coding_gray(np.array([0, 1, 2]), c))
    ctx.check(e.min() >= 0 and e.max() <= 2, 'gray coded PAM3 index outside the constellation', coded=e)
    ctx.ints(cdsp.rx.decoding_gray(e, c), [0, 1, 2], 'PAM3 gray round trip')


def ref_enc(w, m):
    s, out = 0, []
    for v in w:
        s = (s + v) % m
        out.append(s)
    return out


def ref_dec(w, m):
    p, out = 0, []
    for v in w:
        out.append((v - p) % m)
        p = v
    return out


def diff_one(ctx, w, arr, name, msg=''):
    c = cdsp.ConstellationEnum[name]
    m = M[name]
    e = cdsp.tx.coding_differential(arr, c)
    ctx.step()
    ctx.ints(e, np.array(ref_enc(w, m), dtype=int).reshape(np.shape(arr)), 'differential coding' + msg, word=w, constellation=name)
    d = cdsp.rx.decoding_differential(np.asarray(e), c)
    ctx.step()
    ctx.ints(d, np.array(w, dtype=int).reshape(np.shape(arr)), 'differential decoding does not invert the coding' + msg, word=w, constellation=name)
    d = cdsp.rx.decoding_differential(arr, c)
    ctx.step()
    ctx.ints(d, np.array(ref_dec(w, m), dtype=int).reshape(np.shape(arr)), 'differential decoding' + msg, word=w, constellation=name)
    ctx.trace()


def diff_words(ctx, name, length):
    for w in words(range(M[name]), length):
        diff_one(ctx, w, np.array(w, dtype=int), name)
        ctx.state('diff', name, w)
    ctx.sample(word=w, constellation=name)


def diff_lengths(ctx, name, lens):
    base = long_word(M[name], max(lens) + 1)
    hot = [M[name] - 1] * (max(lens) + 1)
    for n in lens:
        diff_one(ctx, base[:n], np.array(base[:n], dtype=int), name, f' (length {n})')
        diff_one(ctx, hot[:n], np.array(hot[:n], dtype=int), name, f' (length {n})')
        ctx.state('diff', name, n)


def diff_huge(ctx, name, n):
    """The coder must not wear out: a stream long enough to leave the exact range of single precision."""
    c, m = cdsp.ConstellationEnum[name], M[name]
    a = np.full(n, m - 1, dtype=int)
    a[::7] = 0
    e = np.asarray(cdsp.tx.coding_differential(a, c))
    ctx.check(e.shape == a.shape and np.array_equal(e, np.cumsum(a) % m), 'differential coding of a very long stream', constellation=name, length=n)
    ctx.check(np.array_equal(np.asarray(cdsp.rx.decoding_differential(e, c)), a), 'differential decoding of a very long stream', constellation=name, length=n)
    ctx.step(2)
    ctx.state('huge', name, n)
    ctx.trace()


def diff_layout(ctx, name):
    w = long_word(M[name], 24)
    for shp in shapes_of(24):
        diff_one(ctx, w, np.array(w).reshape(shp), name, f' shape {shp}')
        ctx.state('diff', name, shp)
    for dt in (np.int64, np.int32, np.int16, np.int8, np.uint8):
        for shp in ((24,), (4, 6), (2, 3, 4)):
            for fn, a in forms(np.array(w, dtype=dt).reshape(shp)):
                diff_one(ctx, w, a, name, f' {fn} {dt}')
    if name == 'PAM4':
        e = cdsp.tx.coding_differential(np.array(w))
        ctx.ints(e, ref_enc(w, 4), 'default constellation is PAM4')
        ctx.ints(cdsp.rx.decoding_differential(np.asarray(e)), w, 'default constellation is PAM4')


def diff_errors(ctx, name, length):
    """One wrong received symbol touches at most itself and its successor; a constant rotation only the first."""
    c = cdsp.ConstellationEnum[name]
    m = M[name]
    for w in words(range(m), length):
        e = np.asarray(cdsp.tx.coding_differential(np.array(w, dtype=int), c))
        for pos in range(length):
            for delta in range(1, m):
                r = e.copy()
                r[pos] = (r[pos] + delta) % m
                d = np.asarray(cdsp.rx.decoding_differential(r, c))
                ctx.step()
                bad = set(np.nonzero(d != np.array(w))[0].tolist())
                want = {pos, pos + 1} & set(range(length))
                ctx.check(bad == want, 'error propagation of differential decoding', word=w, pos=pos, delta=delta, wrong=sorted(bad))
        for delta in range(1, m):
            d = np.asarray(cdsp.rx.decoding_differential((e + delta) % m, c))
            ctx.step()
            ctx.check(length == 0 or (np.array_equal(d[1:], np.array(w)[1:]) and d[0] == (w[0] + delta) % m), 'constant rotation must only change the first symbol', word=w, delta=delta, got=d)
        ctx.state('err', name, w)
        ctx.trace()


CASES = {f.__name__: f for f in (gray_table, gray_words, gray_neighbours, gray_layout, gray_pam3, diff_words, diff_lengths, diff_huge, diff_layout, diff_errors)}


def tasks(tier):
    th = tier == 'thorough'
    yield 'gray_pam3', {}
    top = 4096 if th else 600
    for a in range(2, top, 64):
        yield 'gray_table', dict(counts=list(range(a, min(top, a + 64) + 1)))
    yield 'gray_table', dict(counts=[1, 2, 3, 1023, 1024, 1025, 2048, 4096])
    for name in ('NRZ', 'OOK', 'PAM4'):
        for n in range(0, (7 if th else 5) + 1):
            yield 'gray_words', dict(name=name, length=n)
        yield 'gray_neighbours', dict(name=name)
        yield 'gray_layout', dict(name=name)
    for name in M:
        top = {2: 10, 3: 6, 4: 5}[M[name]] + (2 if th else 0)
        for n in range(1, top + 1):
            yield 'diff_words', dict(name=name, length=n)
        yield 'diff_lengths', dict(name=name, lens=list(range(1, 261)) + [511, 512, 513, 1000, 1023, 1024, 1025, 4097, 140001])
        if th:
            yield 'diff_lengths', dict(name=name, lens=list(range(261, 600)) + [70001])
        yield 'diff_layout', dict(name=name)
        yield 'diff_huge', dict(name=name, n={2: 21000000, 3: 11000000, 4: 7000000}[M[name]])
        for n in range(1, {2: 7, 3: 5, 4: 4}[M[name]] + (1 if th else 0)):
            yield 'diff_errors', dict(name=name, length=n)
