"""PRBS generator = linear feedback shift register, resumable at any point, maximal period."""
import itertools
import numpy as np
import CommDspy as cdsp
from mc.core import lfsr, primitive_polys, compositions, forms, long_word

TAPS = {7: (6, 7), 9: (5, 9), 11: (9, 11), 13: (1, 2, 12, 13), 15: (14, 15), 31: (28, 31)}
BOUNDS = {
    'quick': 'every one of the 2^n-1 register states of PRBS7/9/11/13/15 (one-step and n+1-step calls), PRBS7 every length 0..700 and '
             'PRBS9 0..1100 over several seeds, period-straddling lengths of PRBS11/13/15, every chunking of 9 bits and every two-way split of two periods, every '
             'primitive polynomial of degree 2..6 x every seed x every length up to 3 periods, every polynomial of degree <=5 inside one '
             'period, PRBS31 by GF(2) matrix order plus chained prefixes; registers of 17..64 bits for 5000..150000 bits; PRBS7/9/11/15 for up to 36 million bits',
    'thorough': 'as quick, plus every seed x several chunk lengths for every register and every three-way split of 1.5 periods of PRBS7',
}
ASSUMPTIONS = ['the reference model is a bit-serial LFSR written from the documented recurrence',
               'lengths beyond one period are claimed for maximal-length (primitive) polynomials, the only ones the library ships']


def poly_of(n):
    return np.array([1 if i + 1 in TAPS[n] else 0 for i in range(n)])


def gen(poly, seed, n):
    return cdsp.tx.prbs_gen(poly, seed, n)


def check_call(ctx, poly, seed, n):
    want, wseed = lfsr(poly, seed, n)
    got, gseed = gen(np.array(poly), np.array(seed), n)
    ctx.step(n)
    ctx.ints(got, np.array(want, dtype=int), 'sequence differs from the shift register', poly=poly, seed=seed, length=n)
    ctx.same(gseed, wseed, 'returned seed is not the register state after the last bit', poly=poly, seed=seed, length=n)
    if n and isinstance(got, np.ndarray) and got.flags.writeable:
        got[...] = 1 - got                        # bit errors injected into the sent bits do not reach the generator
        ctx.same(gseed, wseed, 'the returned seed changes with the returned bits', poly=poly, seed=seed, length=n)
    return want, wseed


def polynomials(ctx, n):
    e = [p for p in cdsp.PrbsEnum if p.value == n]
    ctx.check(len(e) == 1, f'PRBS{n} missing')
    got = cdsp.get_polynomial(e[0])
    ctx.same(got, poly_of(n), f'PRBS{n} polynomial')
    # maximal period: order of the companion matrix over GF(2), matrices as lists of int rows
    m = [[int(v) for v in got]] + [[1 if j == i else 0 for j in range(n)] for i in range(n - 1)]
    rows = [sum(b << j for j, b in enumerate(r)) for r in m]

    def mul(a, b):  # row-vector convention: (a*b)[i] = xor of b rows selected by a[i]
        out = []
        for r in a:
            acc, j = 0, 0
            while r:
                if r & 1:
                    acc ^= b[j]
                r >>= 1
                j += 1
            out.append(acc)
        return out

    def power(a, k):
        res = [1 << i for i in range(n)]
        while k:
            if k & 1:
                res = mul(res, a)
            a = mul(a, a)
            k >>= 1
        return res
    ident = [1 << i for i in range(n)]
    order = 2 ** n - 1
    ctx.check(power(rows, order) == ident, f'PRBS{n}: register does not return after 2^n-1 steps')
    f = order
    primes = []
    d = 2
    while d * d <= f:
        if f % d == 0:
            primes.append(d)
            while f % d == 0:
                f //= d
        d += 1
    if f > 1:
        primes.append(f)
    for p in primes:
        ctx.step()
        ctx.check(power(rows, order // p) != ident, f'PRBS{n}: period is shorter than 2^n-1')
    ctx.state('poly', n)
    ctx.trace()
    ctx.sample(prbs=n, taps=TAPS[n], prime_factors=primes)


def full_cycle(ctx, n):
    """One call over a whole period and a bit: the walk visits every non-zero state exactly once."""
    poly = poly_of(n)
    per = 2 ** n - 1
    want, _ = check_call(ctx, poly, [1] * n, per + n)
    seq = [1] * n + want
    seen = set()
    v = 0
    for b in [1] * n:
        v = (v << 1) | b
    for b in want[:per]:
        seen.add(v)
        v = ((v << 1) | b) & (2 ** n - 1)
    ctx.check(len(seen) == per and 0 not in seen and v == 2 ** n - 1, f'PRBS{n} is not maximal length')
    for s in seen:
        ctx.state(n, s)
    ctx.trace()
    ctx.sample(prbs=n, first_bits=seq[n:n + 24], states=len(seen))


def all_states(ctx, n, lo, hi, lens):
    """Every register state as a seed, with these call lengths."""
    poly = poly_of(n)
    for s in range(lo, hi):
        seed = [(s >> i) & 1 for i in range(n)]
        for k in lens:
            check_call(ctx, poly, seed, k)
            ctx.trace()
        ctx.state(n, s)


def lengths(ctx, n, seed, lens):
    poly = poly_of(n)
    top = max(lens)
    want, _ = lfsr(poly, seed, top)
    full = list(seed)[::-1] + want
    for k in lens:
        got, gseed = gen(poly.copy(), np.array(seed), k)
        ctx.step(k)
        ctx.ints(got, want[:k], 'sequence differs from the shift register', n=n, seed=seed, length=k)
        ctx.same(gseed, full[k:k + n][::-1], 'returned seed is not the register state', n=n, seed=seed, length=k)
        ctx.state('len', n, tuple(seed), k)
        ctx.trace()
    ctx.sample(prbs=n, seed=list(seed), lengths=len(lens))


def chunkings(ctx, n, seed, total, parts_list=None, cuts=None):
    """Every way of cutting the stream into calls that hand the seed over."""
    poly = poly_of(n)
    want, wseed = lfsr(poly, seed, total)
    if parts_list is None:
        if cuts == 2:
            parts_list = [(a, total - a) for a in range(total + 1)]
        elif cuts == 3:
            parts_list = [(a, b, total - a - b) for a in range(0, total + 1) for b in range(0, total + 1 - a)]
        else:
            parts_list = list(compositions(total))
    for parts in parts_list:
        s = np.array(seed)
        out = []
        for p in parts:
            o, s = gen(poly, s, p)
            out.append(np.asarray(o))
            ctx.step(p)
        ctx.same(np.concatenate(out), want, 'chunked stream differs from the single call', n=n, seed=seed, chunks=parts)
        ctx.same(s, wseed, 'seed after the chunks differs', n=n, seed=seed, chunks=parts)
        ctx.state('chunks', n, tuple(seed), tuple(parts))
        ctx.trace()
    ctx.sample(prbs=n, total=total, chunkings=len(parts_list), last=parts_list[-1])


def small_polys(ctx, deg, idx, k):
    """Every primitive polynomial of this degree, every seed, every length up to three periods."""
    polys = primitive_polys(deg)
    per = 2 ** deg - 1
    for poly in polys[idx::k]:
        for s in range(2 ** deg):
            seed = [(s >> i) & 1 for i in range(deg)]
            want, _ = lfsr(poly, seed, 3 * per + 2)
            full = seed[::-1] + want
            for n in range(3 * per + 3):
                got, gs = gen(np.array(poly), np.array(seed), n)
                ctx.step(n)
                ctx.same(got, want[:n], 'sequence differs from the shift register', poly=poly, seed=seed, length=n)
                ctx.same(gs, full[n:n + deg][::-1], 'returned seed', poly=poly, seed=seed, length=n)
            ctx.state('poly', tuple(poly), s)
            ctx.trace()


def any_polys(ctx, deg):
    """Every polynomial (also reducible ones) and every seed, up to one period."""
    for poly in itertools.product([0, 1], repeat=deg):
        for s in range(2 ** deg):
            seed = [(s >> i) & 1 for i in range(deg)]
            for n in range(2 ** deg):
                check_call(ctx, poly, seed, n)
            ctx.state('any', poly, s)
            ctx.trace()


def prbs31(ctx, seeds, total, parts):
    poly = poly_of(31)
    for seed in seeds:
        want, ws = lfsr(poly, seed, total)
        for ps in parts:
            s = np.array(seed)
            out = []
            for p in ps:
                o, s = gen(poly, s, p)
                out.append(np.asarray(o))
                ctx.step(p)
            ctx.same(np.concatenate(out), want[:sum(ps)], 'PRBS31 stream', seed=seed, chunks=ps)
            if sum(ps) == total:
                ctx.same(s, ws, 'PRBS31 seed', seed=seed, chunks=ps)
            ctx.state(31, tuple(seed), tuple(ps))
            ctx.trace()


def array_forms(ctx, n):
    """Memory layout and integer width of the inputs do not matter, nor does the type of the length."""
    seed = [1, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 0, 1, 0, 1][:n]
    poly = poly_of(n)
    want, ws = lfsr(poly, seed, 40)
    for dt in (np.int64, np.int32, np.int8, np.uint8):
        for name, p in forms(poly.astype(dt)):
            for name2, s in forms(np.array(seed, dtype=dt)):
                for ln in (40, np.int64(40), np.int32(40)):
                    got, gs = gen(p, s, ln)
                    ctx.step(40)
                    ctx.same(got, want, 'sequence', dtype=str(dt), form=(name, name2))
                    ctx.same(gs, ws, 'seed', dtype=str(dt), form=(name, name2))
                    ctx.trace()
                ctx.state(n, str(dt), name, name2)


def large(ctx, taps, total):
    """Long streams of wide registers: one call, and the same stream cut in unequal pieces."""
    n = max(taps)
    poly = [1 if i + 1 in taps else 0 for i in range(n)]
    for seed in ([1] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [1], long_word(2, n + 3)[3:]):
        if not any(seed):
            continue
        want, ws = check_call(ctx, poly, seed, total)
        s, out = np.array(seed), []
        for p in (total // 3, 1, total // 2, n):
            o, s = gen(np.array(poly), s, p)
            out.append(np.asarray(o))
            ctx.step(p)
        got = np.concatenate(out)
        ctx.same(got, want[:len(got)], 'chunks of a long stream', taps=taps, seed=seed)
        ctx.state(tuple(taps), tuple(seed), total)
        ctx.trace()


def many_periods(ctx, n, lens):
    """Lengths of hundreds of periods."""
    poly, P = poly_of(n), 2 ** n - 1
    for seed in ([1] * n, [0] * (n - 1) + [1]):
        per, _ = lfsr(poly, seed, P)
        per = np.array(per)
        for L in lens:
            got, s = gen(poly, np.array(seed), L)
            want = np.tile(per, L // P + 1)[:L]
            ctx.step(L)
            ctx.ints(got, want, 'sequence of many periods', prbs=n, length=L)
            ctx.same(s, np.tile(per, L // P + 2)[L - n:L][::-1], 'seed after many periods', prbs=n, length=L)
            ctx.state('many', n, L, tuple(seed))
            ctx.trace()


CASES = {f.__name__: f for f in (polynomials, full_cycle, all_states, lengths, chunkings, small_polys, any_polys, prbs31, array_forms, large, many_periods)}


def tasks(tier):
    yield 'many_periods', dict(n=7, lens=[127 * 64, 127 * 64 + 1, 127 * 100, 10000, 100003, 127 * 1000, 300000])
    yield 'many_periods', dict(n=7, lens=[127 * 2 ** 17 + 1, 127 * 2 ** 16 - 1])
    yield 'many_periods', dict(n=15, lens=[32767 * 1100 + 1])
    yield 'many_periods', dict(n=9, lens=[511 * 33, 50000, 200001])
    yield 'many_periods', dict(n=11, lens=[100000])
    yield 'many_periods', dict(n=15, lens=[300000])
    for taps, total in (([31, 28], 150000), ([23, 18], 70001), ([20, 17], 70001), ([29, 27], 5000), ([17, 14], 140000), ([33, 20], 40000), ([63, 62], 20000), ([64, 63, 61, 60], 20000)):
        yield 'large', dict(taps=taps, total=total)
    thorough = tier == 'thorough'
    for n in (15, 13, 11, 9, 7):
        yield 'full_cycle', dict(n=n)
    for n in (7, 9, 11, 13, 15, 31):
        yield 'polynomials', dict(n=n)
    for n in (7, 9, 11, 13, 15):
        size = 2 ** n
        lens = [1, n + 1] if not thorough else [1, 2, n - 1, n, n + 1, 2 * n + 3, 40]
        step = max(64, size // 16)
        for lo in range(0, size, step):
            yield 'all_states', dict(n=n, lo=lo, hi=min(size, lo + step), lens=lens if n < 15 or thorough else [1, 16])
    for seed in ([1] * 7, [0] * 6 + [1], [1] + [0] * 6, [0, 1, 0, 1, 1, 0, 1]):
        for a in range(0, 700, 100):
            yield 'lengths', dict(n=7, seed=seed, lens=list(range(a, a + 101)))
    for seed in ([1] * 9, [0, 1, 0, 0, 1, 1, 0, 1, 0]):
        for a in range(0, 1100, 100):
            yield 'lengths', dict(n=9, seed=seed, lens=list(range(a, a + 101)))
    for n in (11, 13, 15):
        per = 2 ** n - 1
        seed = [(i * 5 // 3) % 2 for i in range(n)]
        reps = (1, 2, 3) if n == 11 or thorough else (1,)
        for r in reps:
            ks = [r * per + d for d in range(-n - 2, n + 3)] if n == 11 or thorough else [r * per + d for d in (-n - 1, -n, -n + 1, -1, 0, 1, n - 1, n, n + 1)]
            for i in range(0, len(ks), 5):
                yield 'lengths', dict(n=n, seed=seed, lens=ks[i:i + 5])
        yield 'lengths', dict(n=n, seed=[1] * n, lens=list(range(0, 200)))
    for n in (7, 9, 15):
        yield 'chunkings', dict(n=n, seed=[1] * n, total=9)
        yield 'chunkings', dict(n=n, seed=[0] * (n - 1) + [1], total=9)
    for seed in ([1] * 7, [1, 0, 0, 1, 0, 1, 1]):
        yield 'chunkings', dict(n=7, seed=seed, total=2 * 127 + 3, cuts=2)
    yield 'chunkings', dict(n=7, seed=[1] * 7, total=48, cuts=3)
    yield 'chunkings', dict(n=7, seed=[1, 1, 0, 1, 0, 0, 1], total=1290, parts_list=[[130, 260, 400, 500], [127, 127, 1, 254, 381, 400], [1000, 290], [6, 1284], [7, 8, 1275], [1290]])
    for deg in (2, 3, 4):
        yield 'small_polys', dict(deg=deg, idx=0, k=1)
    for i in range(4):
        yield 'small_polys', dict(deg=5, idx=i, k=4)
    for i in range(6):
        yield 'small_polys', dict(deg=6, idx=i, k=6)
    for deg in (1, 2, 3, 4, 5):
        yield 'any_polys', dict(deg=deg)
    base = [[1] * 31, [1] + [0] * 30, [0] * 30 + [1], [(i // 2) % 2 for i in range(31)]]
    yield 'prbs31', dict(seeds=base, total=1200, parts=[[1200], [31, 1169], [30, 1, 1169], [32, 1168], [600, 600], [1, 1199]] + [[k, 1200 - k] for k in range(0, 80, 7)])
    for i in range(31):
        yield 'prbs31', dict(seeds=[[1 if j == i else 0 for j in range(31)]], total=100, parts=[[100], [29, 71], [62, 38], [5, 90, 5]])
    for n in (7, 9, 11, 13, 15):
        yield 'array_forms', dict(n=n)
    if thorough:
        for seed in ([1] * 7, [0, 1, 1, 0, 1, 0, 0]):
            yield 'chunkings', dict(n=7, seed=seed, total=190, cuts=3)
