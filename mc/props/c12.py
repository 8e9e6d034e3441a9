"""Slicer and quantizer return the nearest allowed level for every input."""
import itertools
import numpy as np
import CommDspy as cdsp
from mc.core import words, forms

BOUNDS = {
    'quick': 'every strictly increasing level set of 1..5 values out of {-4..4} and the constellation level vectors (plain and full scale) x every multiple of 1/16 in [-6,6]; every 2-D shape of 12 values; every '
             'word of <=4 received values from a 7-value alphabet; quantizer: u/s/ss x 1..8 bits x -3..5 fractional bits, every value on a grid of an eighth of the step from below to above the range; signals of up to 140000 samples and 2..64 levels; quantizers of 9..14 bits and -30..40 fractional bits at their borders; values 1e-11..1e-3 from every threshold of 2..256 levels',
    'thorough': 'grid of 1/64, words of <=5 values from a 9-value alphabet, 1..10 bits',
}
ASSUMPTIONS = ['1-D or 2-D data, strictly increasing levels given as a numpy array', 'a value exactly half way between two levels may go to either']


def ok(ctx, out, vals, levels, msg, **kw):
    out = np.asarray(out, dtype=float)
    vals = np.asarray(vals, dtype=float)
    ctx.check(out.shape == vals.shape, msg + ': shape', got=out, want=vals.shape, **kw)
    lv = np.asarray(levels, dtype=float)
    d = np.abs(vals[..., None] - lv)
    best = d.min(axis=-1)
    dd = np.abs(out - vals)
    member = np.abs(out[..., None] - lv).min(axis=-1) <= 1e-12 * max(1.0, np.abs(lv).max())
    tol = 1e-12 * max(1.0, np.abs(lv).max(), np.abs(vals).max() if vals.size else 1.0)
    bad = ~(member & (dd <= best + tol))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.fail(msg, index=i, value=float(vals[i]), got=float(out[i]), nearest=float(lv[int(np.argmin(d[i]))]), **kw)


def level_sets(ctx, size, den):
    grid = np.arange(-6 * den, 6 * den + 1) / den
    for lv in itertools.combinations(range(-4, 5), size):
        for scale in (1, 0.3):
            levels = np.array(lv) * scale
            out = cdsp.rx.slicer(grid.copy(), levels)
            ok(ctx, out, grid, levels, 'slicer does not return the nearest level', level_set=lv, scale=scale)
            ctx.same(cdsp.rx.slicer(np.asarray(out), levels), out, 'slicing is not idempotent', levels=lv)
            ctx.step(2)
            ctx.extra_states += len(grid)
            ctx.trace()
    ctx.sample(levels=levels, grid_points=len(grid))


def constellations(ctx, den):
    grid = np.arange(-6 * den, 6 * den + 1) / den
    ok(ctx, cdsp.rx.slicer(grid), grid, [-3, -1, 1, 3], 'default levels')
    ok(ctx, cdsp.rx.slicer(grid.tolist()), grid, [-3, -1, 1, 3], 'default levels, list')
    for c in cdsp.ConstellationEnum:
        for fs in (False, True):
            lv = cdsp.get_levels(c, fs)
            for g in (grid, grid * 1e-3, grid * 1e6, grid + 1e-9, grid.astype(int)):
                ok(ctx, cdsp.rx.slicer(g, lv), g, lv, 'slicer', constellation=c.name, full_scale=fs)
                ok(ctx, cdsp.rx.slicer(g.tolist(), lv), g, lv, 'slicer of a list', constellation=c.name, full_scale=fs)
                ctx.step(2)
                ctx.extra_states += len(grid)
            a = np.asarray(cdsp.rx.slicer(np.asarray(lv, dtype=float), lv))
            ctx.same(a, lv, 'a constellation point is its own decision', constellation=c.name)
        ctx.trace()


def value_words(ctx, length, alphabet):
    lv = np.array([-3., -1., 1., 3.])
    for w in words(alphabet, length):
        ok(ctx, cdsp.rx.slicer(np.array(w), lv), w, lv, 'slicer', word=w)
        if length % 2 == 0:
            ok(ctx, cdsp.rx.slicer(np.array(w).reshape(2, -1), lv), np.array(w).reshape(2, -1), lv, 'slicer', word=w)
            ctx.step()
        ok(ctx, cdsp.rx.quantize(np.array(w), 3, 0, 's'), w, np.arange(-4, 4), 'quantizer', word=w)
        ctx.step(2)
        ctx.state(w)
        ctx.trace()


def shapes(ctx):
    vals = np.array([-3.2, -0.7, 0.4, 1.9, 2.1, 7.0, -9.0, 0.9, -2.1, -1.9, 3.3, 0.1])
    lv = np.array([-3., -1., 1., 3.])
    for n in range(1, 13):
        v = vals[:n]
        for a in range(1, n + 1):
            if n % a == 0:
                for fn, arr in forms(v.reshape(a, n // a)):
                    ok(ctx, cdsp.rx.slicer(arr, lv), arr, lv, f'2-D, {fn}', shape=(a, n // a))
                    ok(ctx, cdsp.rx.quantize(arr, 4, 1, 'ss'), arr, np.arange(-7, 8) / 2, f'2-D quantizer, {fn}', shape=(a, n // a))
                    ctx.step(2)
                ok(ctx, cdsp.rx.slicer(v.reshape(a, n // a).tolist(), lv), v.reshape(a, n // a), lv, 'nested list')
                ctx.state(n, a)
        for fn, arr in forms(v):
            ok(ctx, cdsp.rx.slicer(arr, lv), arr, lv, f'1-D, {fn}', n=n)
            ok(ctx, cdsp.rx.quantize(arr, 4, 1, 'ss'), arr, np.arange(-7, 8) / 2, f'1-D quantizer, {fn}', n=n)
            ctx.step(2)
    for n in (1000, 1024, 4096, 4097, 30000):
        v = np.tile(vals, n // 12 + 1)[:n]
        ok(ctx, cdsp.rx.slicer(v, lv), v, lv, 'long', n=n)
        ctx.step()
        ctx.state('long', n)
    ctx.trace()


def quantizer(ctx, kind, bits, frac, den):
    raw = {'u': np.arange(0, 2 ** bits), 's': np.arange(-2 ** (bits - 1), 2 ** (bits - 1)), 'ss': np.arange(-2 ** (bits - 1) + 1, 2 ** (bits - 1))}[kind]
    lv = raw * 2.0 ** -frac
    stp = 2.0 ** -frac
    lo, hi = lv[0] - 3.5 * stp, lv[-1] + 3.5 * stp
    grid = np.arange(round(lo / stp * den), round(hi / stp * den) + 1) * (stp / den)
    for args in ((bits, frac, kind),) + (((bits, frac),) if kind == 'u' else ()) + (((bits,),) if kind == 'u' and frac == 0 else ()):
        out = np.asarray(cdsp.rx.quantize(grid.copy(), *args))
        ok(ctx, out, grid, lv, 'quantizer does not return the nearest level', kind=kind, bits=bits, frac=frac)
        ctx.step()
    inside = (grid >= lv[0]) & (grid <= lv[-1])
    ctx.check(np.all(np.abs(out - grid)[inside] <= stp / 2 * (1 + 1e-12)), 'more than half a step of error inside the range', kind=kind, bits=bits, frac=frac)
    ctx.check(np.all(out[grid < lv[0]] == lv[0]) and np.all(out[grid > lv[-1]] == lv[-1]), 'does not saturate', kind=kind, bits=bits, frac=frac)
    ctx.check(np.all(np.diff(out) >= 0), 'not monotone', kind=kind, bits=bits, frac=frac)
    ctx.same(cdsp.rx.quantize(out.copy(), bits, frac, kind), out, 'quantizing twice changes the result', kind=kind, bits=bits, frac=frac)
    ctx.check(len(np.unique(out)) == len(lv), 'number of output levels', kind=kind, bits=bits, frac=frac)
    ctx.step(2)
    ctx.extra_states += len(grid)
    ctx.trace()
    ctx.sample(kind=kind, bits=bits, frac=frac, levels=lv)


def kinds(ctx):
    for k in ('U', 'S', 'SS', '', None, 'x', 0, True, False):
        ctx.raises(ValueError, lambda: cdsp.rx.quantize(np.array([0.3]), 3, 0, k), 'unknown fixed point type', kind=k)
        ctx.step()
        ctx.state(str(k))
    ctx.trace()


def large(ctx, n):
    base = np.array([-3.2, -0.7, 0.4, 1.9, 2.1, 7.0, -9.0, 0.9, -2.1, -1.9, 3.3, 0.1, 55.5, -63.4, 31.49])
    v = np.tile(base, n // len(base) + 1)[:n] + np.arange(n) % 7 * 0.01
    for lv in (np.array([-3., -1., 1., 3.]), np.arange(-63., 64., 2.), np.array([-1., 1.]), np.cumsum(1 + np.arange(17) % 3) - 16.5):
        for w in (v, v.reshape(-1, 2) if n % 2 == 0 else v.reshape(1, -1), v.reshape(2, -1) if n % 2 == 0 else v.reshape(-1, 1)):
            ok(ctx, cdsp.rx.slicer(w, lv), w, lv, 'slicer of a long signal', n=n, level_count=len(lv), shape=w.shape)
            ctx.step()
            ctx.state('large', n, len(lv), w.shape)
    ok(ctx, cdsp.rx.quantize(v, 6, 2, 's'), v, np.arange(-32, 32) / 4, 'quantizer of a long signal', n=n)
    ctx.trace()


def wide(ctx, kind, bits, frac):
    raw = {'u': (0, 2 ** bits - 1), 's': (-2 ** (bits - 1), 2 ** (bits - 1) - 1), 'ss': (-2 ** (bits - 1) + 1, 2 ** (bits - 1) - 1)}[kind]
    stp = 2.0 ** -frac
    pos = sorted({raw[0] + o for o in (-9, -1, 0, 1, 2, 77)} | {raw[1] + o for o in (9, 1, 0, -1, -3, -130)} | {-1, 0, 1, 5, 127, 128, 255, 256} | {2 ** k + o for k in range(8, bits) for o in (-1, 0, 1)})
    vals = np.array([(p + d) for p in pos for d in (0, 0.25, -0.25, 0.4375, -0.4375)])
    want = np.clip(np.round(vals), *raw) * stp
    got = np.asarray(cdsp.rx.quantize(vals * stp, bits, frac, kind))
    ctx.close(got, want, 'wide quantizer', kind=kind, bits=bits, frac=frac)
    ctx.step()
    ctx.state('wide', kind, bits, frac)
    ctx.trace()


def near_ties(ctx):
    """Values a hair away from the decision thresholds of few and many levels."""
    for lv in (np.array([-1., 1.]), np.array([-1., 0., 1.]), np.array([-2., 0.5, 3.5]), np.array([-4., -1., 0., 2., 3.]), np.arange(-5., 6., 2.), np.arange(7.), np.array([-3., -1., 1., 3.]), np.arange(-7., 8.), np.arange(-15., 16., 2.), np.linspace(-1, 1, 33), np.arange(-64., 64.), np.cumsum(1. + np.arange(20) % 3)):
        mid = (lv[1:] + lv[:-1]) / 2
        for d in (1e-3, 1e-6, 1e-9, 1e-11):
            for sg in (1, -1):
                v = mid + sg * d
                ctx.close(cdsp.rx.slicer(v, lv), lv[1:] if sg > 0 else lv[:-1], 'value near a threshold', level_count=len(lv), distance=sg * d, tol=1e-9)
                ctx.step()
        ctx.state('ties', len(lv))
    for kind, lo, hi in (('u', 0, 255), ('s', -128, 127), ('ss', -127, 127)):
        for frac in (-1, 0, 4):
            lv = np.arange(lo, hi + 1) * 2.0 ** -frac
            mid = (lv[1:] + lv[:-1]) / 2
            for d in (1e-3, 1e-9):
                ctx.close(cdsp.rx.quantize(mid + d, 8, frac, kind), lv[1:], 'quantizer near a threshold', kind=kind, frac=frac)
                ctx.close(cdsp.rx.quantize(mid - d, 8, frac, kind), lv[:-1], 'quantizer near a threshold', kind=kind, frac=frac)
                ctx.step(2)
            ctx.state('ties', kind, frac)
    ctx.trace()


CASES = {f.__name__: f for f in (level_sets, constellations, value_words, shapes, quantizer, kinds, large, wide, near_ties)}


def tasks(tier):
    th = tier == 'thorough'
    yield 'near_ties', {}
    for n in (65536, 100001, 140000):
        yield 'large', dict(n=n)
    for kind in ('u', 's', 'ss'):
        for bits in (9, 10, 12, 14):
            for frac in (-30, -12, -9, -8, -5, 0, 3, bits - 1, bits, bits + 3, 16, 24, 40):
                yield 'wide', dict(kind=kind, bits=bits, frac=frac)
    den = 64 if th else 16
    for s in range(1, 6):
        yield 'level_sets', dict(size=s, den=den)
    yield 'constellations', dict(den=den)
    al = [-4.5, -2.01, -1.99, 0.01, 0.75, 1.5, 9.0] + ([-0.01, 2.01] if th else [])
    for n in range(1, (5 if th else 4) + 1):
        yield 'value_words', dict(length=n, alphabet=al)
    yield 'shapes', {}
    yield 'kinds', {}
    for kind in ('u', 's', 'ss'):
        for bits in range(2 if kind == 'ss' else 1, (10 if th else 8) + 1):
            for frac in range(-3, 6):
                yield 'quantizer', dict(kind=kind, bits=bits, frac=frac, den=8)
