"""Pattern locking finds the true alignment for every rotation and up to the correctable number of errors."""
import itertools
import numpy as np
import CommDspy as cdsp
from mc.core import words, primitive_polys, lfsr, long_word
from mc.props.c01 import poly_of

BOUNDS = {
    'quick': 'PRBS of every primitive polynomial of degree 2..6 and PRBS7: every rotation, every error pattern of the largest correctable weight up to weight 2 (degree <=5) and a structured family above, every signal length '
             'from n bits to two periods; every binary pattern of <=8 bits and every ternary pattern of <=5 symbols, every rotation and every signal length: returned alignment is a best one; every pair of a pattern of <=9 bits and a signal of <=7 bits, 16 families of unbalanced patterns of 11..40 bits x every signal of 7..9 bits; long float patterns up to 45000 symbols, also with bursts of up to 45 percent errors at 4 places; every pattern of <=5 symbols over 5 alphabets (on-off, offset) x every signal of <=5 symbols over 5 alphabets; 7 element types of pattern and signal for PRBS7/9/11',
    'thorough': 'patterns of <=10 bits, PRBS9 every rotation x every single error, weight 3 errors for degree 5',
}
ASSUMPTIONS = ['integer or +-1/float patterns; among equally correlated alignments any may be returned']


def lock_b(p, s):
    return cdsp.rx.lock_pattern_to_signal_binary(p, s)


def lock(p, s):
    return cdsp.rx.lock_pattern_to_signal(p, s)


def best_rotations(p, s):
    p = np.asarray(p, dtype=float)
    s = np.asarray(s, dtype=float)[:len(p)]
    n = len(p)
    pp = np.tile(p, 2)
    c = np.array([np.dot(pp[i:i + len(s)], s) for i in range(n)])
    return c, n


def check(ctx, got, p, s, msg, nrz=False, **kw):
    q = np.asarray(p) * 2 - 1 if nrz else np.asarray(p)
    t = np.asarray(s) * 2 - 1 if nrz else np.asarray(s)
    c, n = best_rotations(q, t)
    tol = 1e-9 * max(1.0, float(np.abs(c).max()))
    ok = [i for i in range(n) if c[i] >= c.max() - tol]
    got = np.asarray(got)
    ctx.check(got.shape == (n,), msg + ': length of the aligned pattern', got=got, n=n, **kw)
    ctx.check(any(np.array_equal(np.roll(p, -i), got) for i in ok), msg + ': not a best alignment', pattern=p, signal=s, got=got, **kw)


def all_patterns(ctx, n, alphabet, binary):
    for p in words(alphabet, n):
        a = np.array(p)
        for r in range(n):
            full = np.tile(np.roll(a, -r), 3)
            for D in range(1, 2 * n + 2):
                s = full[:D]
                g, x = (lock_b if binary else lock)(a, s)
                ctx.step()
                check(ctx, g, a, s, 'pattern lock', binary, rotation=r, length=D)
                ctx.state(p, r, D)
        ctx.trace()
    ctx.sample(pattern=p)


def all_pairs(ctx, n, D):
    """Arbitrary (not matching) signals: the best correlated alignment is returned."""
    for p in words((0, 1), n):
        for s in words((0, 1), D):
            a, b = np.array(p), np.array(s)
            g, _ = lock_b(a, b)
            check(ctx, g, a, b, 'binary pattern lock', True)
            g, _ = lock(a * 2 - 1, b * 2 - 1)
            check(ctx, g, a * 2 - 1, b * 2 - 1, 'pattern lock')
            ctx.step(2)
            ctx.state(p, s)
        ctx.trace()


def mixed_pairs(ctx, n, D, pal, sal):
    """Every pattern over one alphabet (on-off levels, offsets) against every signal over another (also of the other polarity)."""
    for p in words(pal, n):
        for s in words(sal, D):
            a, b = np.array(p), np.array(s)
            g, _ = lock(a, b)
            check(ctx, g, a, b, 'pattern lock')
            ctx.step()
            ctx.state(p, s)
        ctx.trace()


def biased(ctx, n, D, ones):
    """Unbalanced patterns of n bits (every position of a block of ones beside a fixed texture), every signal of D bits."""
    for i in range(n):
        p = np.array([0] * n)
        p[[(i + k) % n for k in range(ones)]] = 1
        p[(i + ones + n // 3) % n] ^= 1
        for s in words((0, 1), D):
            b = np.array(s)
            g, _ = lock_b(p, b)
            check(ctx, g, p, b, 'binary pattern lock', True)
            q, t = np.where(p == 1, 2.5, -0.5), np.where(b == 1, 3.0, -1.0)
            g, _ = lock(q, t)
            check(ctx, g, q, t, 'pattern lock')
            ctx.step(2)
            ctx.state(n, ones, i, s)
        ctx.trace()


def prbs(poly, n):
    return np.array(lfsr(poly, [1] * len(poly), n)[0])


def prbs_lock(ctx, poly, errs, rots=None, lens=None):
    deg = len(poly)
    n = 2 ** deg - 1
    p = prbs(poly, n)
    for r in (range(n) if rots is None else rots):
        true = np.roll(p, -r)
        for D in (range(deg, 2 * n + 1) if lens is None else lens):
            s = np.tile(true, 3)[:D]
            g, _ = lock_b(p, s)
            ctx.step()
            ctx.same(g, true, 'clean PRBS: wrong alignment', degree=deg, rotation=r, length=D)
            ctx.state(tuple(poly), r, D)
        for w in range(0, errs + 1):
            if 4 * w >= n + 1:
                break
            for pos in itertools.combinations(range(n), w):
                s = true.copy()
                for q in pos:
                    s[q] ^= 1
                g, _ = lock_b(p, s)
                ctx.step()
                ctx.same(g, true, 'PRBS with errors: wrong alignment', degree=deg, rotation=r, errors=pos)
                ctx.extra_states += 1
                for lv in ((-1., 1.), (-3., 3.)):
                    if w == errs and r % 5:
                        continue
                    m = np.where(p == 1, lv[1], lv[0])
                    g, _ = lock(m, np.where(s == 1, 0.4 * lv[1], 0.4 * lv[0]))
                    ctx.same(g, np.roll(m, -r), 'PRBS levels with errors: wrong alignment', degree=deg, rotation=r, errors=pos)
                    ctx.step()
        ctx.trace()
    # many errors, structured: burst at the start / end, spread evenly
    top = (n + 1 - 1) // 4
    for e in range(0, top + 1):
        if 4 * e >= n + 1:
            break
        for pos in (range(e), range(n - e, n), [(i * n) // e for i in range(e)] if e else []):
            for r in range(0, n, max(1, n // 16)):
                s = np.roll(p, -r)
                s[list(pos)] ^= 1
                g, _ = lock_b(p, s)
                ctx.same(g, np.roll(p, -r), 'PRBS with many errors: wrong alignment', degree=deg, rotation=r, errors=e)
                ctx.step()
                ctx.extra_states += 1


def long_float(ctx, P, scale, offset):
    """Long floating point patterns (FFT correlation), signals shorter than, equal to and longer than the pattern."""
    p, _ = lfsr(poly_of(15).tolist(), [1] * 15, P)
    pat = (np.array(p) * 2 - 1) * scale + offset
    for D in (P // 3, P // 2, P // 2 + 7, P - 1, P, P + 5, 2 * P):
        for i in range(13):
            r = (i * P) // 13 + i
            s = np.tile(np.roll(pat, -r), 2)[:D]
            g, _ = lock(pat, s)
            ctx.step()
            ctx.check(np.shape(g) == (P,), 'the aligned pattern is truncated', P=P, D=D, rotation=r, got_length=len(g))
            ctx.close(g, np.roll(pat, -r), 'wrong alignment of a long pattern', P=P, D=D, rotation=r)
            ctx.state(P, D, r, scale)
            ctx.trace()
            if offset == 0 and scale == 1:
                b = np.array(p)
                g, _ = lock_b(b, np.tile(np.roll(b, -r), 2)[:D])
                ctx.same(g, np.roll(b, -r), 'wrong alignment of a long binary pattern', P=P, D=D, rotation=r)


def long_bursts(ctx, P, frac):
    """A long received signal of which one stretch (anywhere) is inverted is still aligned by the rest of it."""
    p = np.array(lfsr(poly_of(15).tolist(), [1] * 15, P)[0])
    pat = p * 2.0 - 1
    e = int(frac * P)
    for D in (P, P + 11, 2 * P, P - P // 8):
        n = min(D, P)
        for start in sorted({0, n // 3, n // 2, n - e}):
            for r in (0, 1, P // 3, P - 2, P // 2 + 5):
                good = np.tile(np.roll(pat, -r), 2)[:D]
                bad = good.copy()
                bad[start:start + e] *= -1
                f = np.fft.rfft(np.tile(pat, 2))
                c = np.fft.irfft(f * np.conj(np.fft.rfft(bad[:n], 2 * P)), 2 * P)[:P]
                others = np.delete(c, r)
                if c[r] < others.max() + 0.02 * n:
                    ctx.extra_skipped = getattr(ctx, 'extra_skipped', 0) + 1
                    continue
                g, _ = lock(pat, bad)
                ctx.close(g, np.roll(pat, -r), 'wrong alignment of a long pattern with a burst of errors', P=P, D=D, rotation=r, start=start, errors=e)
                g, _ = lock_b(p, (bad > 0).astype(int))
                ctx.same(g, np.roll(p, -r), 'wrong alignment of a long binary pattern with a burst of errors', P=P, D=D, rotation=r, start=start, errors=e)
                ctx.step(2)
                ctx.state('burst', P, D, start, r, frac)
                ctx.trace()


def filtered(ctx, poly, taps):
    """A PRBS sent through a dispersive channel is aligned to its main cursor for every rotation."""
    n = 2 ** len(poly) - 1
    p = prbs(poly, n) * 2 - 1
    main = int(np.argmax(np.abs(taps)))
    for r in range(n):
        s = np.tile(np.roll(p, -r), 3).astype(float)
        y = np.convolve(s, taps)[n + main:2 * n + main]
        g, _ = lock(p, y)
        ctx.same(g, np.roll(p, -r), 'alignment through a channel', taps=taps, rotation=r)
        ctx.step()
        ctx.state(tuple(poly), tuple(taps), r)
    ctx.trace()


def types(ctx, n, rots):
    """The element type of the bits or symbols does not change the alignment, also when their correlation exceeds its range."""
    p = prbs(poly_of(n).tolist(), 2 ** n - 1)
    for r in rots:
        true = np.roll(p, -r)
        for D in (len(p), 3 * n, 2 * len(p)):
            s = np.tile(true, 3)[:D].copy()
            s[[D // 2, D - 2]] ^= 1
            for dp in (np.int64, np.int8, np.uint8, np.uint16, bool, np.float32):
                for ds in (np.int64, np.int8, np.uint8, np.int16, np.uint32, bool, np.float64):
                    if dp is not np.int64 and ds is not np.int64 and dp is not ds:
                        continue
                    g, _ = lock_b(p.astype(dp), s.astype(ds))
                    ctx.step()
                    ctx.same(np.asarray(g).astype(int), true, 'binary pattern lock', prbs=n, rotation=r, length=D, types=(np.dtype(dp).name, np.dtype(ds).name))
                    for lv in ((-3, 3), (0, 5), (-100, 100)):
                        if min(lv) < 0 and (np.dtype(dp).kind in 'ub' or np.dtype(ds).kind in 'ub') or lv == (0, 5) and (dp is bool or ds is bool):
                            continue
                        a, b = np.where(p == 1, lv[1], lv[0]), np.where(s == 1, lv[1], lv[0])
                        if min(lv) == 0 and D < len(p):
                            continue
                        g, _ = lock(a.astype(dp), b.astype(ds))
                        ctx.step()
                        ctx.same(np.asarray(g).astype(int), np.roll(a, -r), 'symbol pattern lock', prbs=n, rotation=r, length=D, levels=lv, types=(np.dtype(dp).name, np.dtype(ds).name))
        ctx.state('types', n, r)
        ctx.trace()


CASES = {f.__name__: f for f in (mixed_pairs, all_patterns, all_pairs, biased, prbs_lock, long_float, long_bursts, filtered, types)}


def tasks(tier):
    th = tier == 'thorough'
    for n in (7, 9, 11):
        yield 'types', dict(n=n, rots=[0, 1, 5, 64, 100])
    for P in (4000, 9001, 20000):
        for sc, of in ((0.33, 0.01), (1, 0), (3.0, -0.2)):
            yield 'long_float', dict(P=P, scale=sc, offset=of)
    for P in (300, 1500, 4000, 9001, 20000, 45000) + ((32767, 70001) if th else ()):
        for fr in (0.05, 0.25, 0.4, 0.45):
            yield 'long_bursts', dict(P=P, frac=fr)
    for n in range(1, (9 if th else 7) + 1):
        yield 'all_patterns', dict(n=n, alphabet=[0, 1], binary=True)
        yield 'all_patterns', dict(n=n, alphabet=[-1, 1], binary=False)
    for n in range(1, 6):
        yield 'all_patterns', dict(n=n, alphabet=[-1, 0, 2], binary=False)
    for n in range(1, 6 + (1 if th else 0)):
        for D in range(1, 7):
            yield 'all_pairs', dict(n=n, D=D)
    for n, D in ((7, 5), (8, 5), (9, 5), (8, 6), (8, 7)):
        yield 'all_pairs', dict(n=n, D=D)
    for pal in ([0, 1], [0, 2, 5], [-1, 0, 1], [1, 3], [-4, -1]):
        for sal in ([-1, 1], [-1, 0, 1], [-3, -1], [0, 1], [-0.25, 0.75]):
            for n, D in ((2, 2), (3, 3), (4, 3), (3, 5), (5, 5 if len(pal) + len(sal) < 6 else 4)):
                yield 'mixed_pairs', dict(n=n, D=D, pal=pal, sal=sal)
    for n, D in ((11, 7), (16, 7), (19, 9), (40, 7)):
        for ones in (2, n // 3, n // 2, n - 3):
            yield 'biased', dict(n=n, D=D, ones=ones)
    for deg in range(2, 7):
        for poly in primitive_polys(deg):
            yield 'prbs_lock', dict(poly=poly, errs={2: 0, 3: 1, 4: 3, 5: 2, 6: 1}[deg] + (1 if th and deg in (5,) else 0))
            if deg >= 5:
                for taps in ([1.0, 0.3], [0.1, 1.0, -0.3, 0.1], [-0.2, 1.0, 0.4]):
                    yield 'filtered', dict(poly=poly, taps=taps)
    p7 = poly_of(7).tolist()
    for a in range(0, 127, 16):
        yield 'prbs_lock', dict(poly=p7, errs=1, rots=list(range(a, min(a + 16, 127))), lens=list(range(7, 135)) + [254, 255, 381])
    if th:
        p9 = poly_of(9).tolist()
        for a in range(0, 511, 8):
            yield 'prbs_lock', dict(poly=p9, errs=1, rots=list(range(a, min(a + 8, 511))), lens=[9, 10, 100, 510, 511, 512, 1022])
