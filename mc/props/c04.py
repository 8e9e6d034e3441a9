"""Mapping to constellation levels and back."""
import itertools
import math
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word, shapes_of, forms

BOUNDS = {
    'quick': '4 constellations x full-scale x polarity x every index word of <=6 symbols (<=5 for PAM4), every length 0..130, all shapes of 24 symbols, '
             'received values displaced by 41 offsets strictly inside half the level distance, custom level vectors, memory layouts',
    'thorough': 'index words of <=8, lengths 0..520 and up to 70001, 401 offsets',
}
ASSUMPTIONS = ['levels are the documented ones: NRZ -1,1; OOK 0,1; PAM3 -1,0,1; PAM4 -3,-1,1,3; floating point compared within 1e-12 relative',
               'demapping inputs lie strictly within half a level distance of a constellation point']
LV = {'NRZ': [-1, 1], 'OOK': [0, 1], 'PAM3': [-1, 0, 1], 'PAM4': [-3, -1, 1, 3]}


def ref_levels(name, fs):
    lv = LV[name]
    if fs:
        s = math.sqrt(sum(v * v for v in lv) / len(lv))
        return [v / s for v in lv]
    return [float(v) for v in lv]


def one(ctx, idx, arr, name, fs, pn, msg='', offs=()):
    c = cdsp.ConstellationEnum[name]
    lv = ref_levels(name, fs)
    sg = -1.0 if pn else 1.0
    out = cdsp.tx.mapping(arr, c, full_scale=fs, pn_inv=pn)
    ctx.step()
    want = np.array([sg * lv[i] for i in idx], dtype=float).reshape(np.shape(arr))
    ctx.close(out, want, 'mapping' + msg, tol=1e-12, idx=idx, constellation=name, full_scale=fs, pn_inv=pn)
    back = cdsp.rx.demapping(np.array(out, copy=True), c, full_scale=fs, pn_inv=pn)
    ctx.step()
    ctx.ints(back, np.array(idx, dtype=int).reshape(np.shape(arr)), 'demapping does not invert mapping' + msg, idx=idx, constellation=name, full_scale=fs, pn_inv=pn)
    d = lv[1] - lv[0]
    for o in offs:
        back = cdsp.rx.demapping(want + o * d, c, full_scale=fs, pn_inv=pn)
        ctx.step()
        ctx.ints(back, np.array(idx, dtype=int).reshape(np.shape(arr)), 'demapping of a displaced level' + msg, idx=idx, constellation=name, full_scale=fs, pn_inv=pn, offset=o)
    ctx.trace()


def index_words(ctx, name, fs, pn, length):
    for w in words(range(len(LV[name])), length):
        one(ctx, list(w), np.array(w, dtype=int), name, fs, pn)
        ctx.state(name, fs, pn, w)
    ctx.sample(constellation=name, full_scale=fs, pn_inv=pn, word=w)


def offsets(ctx, name, fs, pn, n):
    m = len(LV[name])
    offs = [-0.49 + 0.98 * i / (n - 1) for i in range(n)] + [-0.499999, -0.499, 0.499, 0.499999]
    idx = list(range(m)) + list(range(m))[::-1]
    one(ctx, idx, np.array(idx), name, fs, pn, offs=offs)
    c = cdsp.ConstellationEnum[name]
    lv = ref_levels(name, fs)
    d = lv[1] - lv[0]
    # every combination of a level with its own displacement
    for w in words(range(m), 3):
        for o in itertools.product((-0.45, -0.2, 0.3, 0.45), repeat=3):
            sig = np.array([(-1 if pn else 1) * lv[i] + x * d for i, x in zip(w, o)])
            got = cdsp.rx.demapping(sig.copy(), c, full_scale=fs, pn_inv=pn)
            ctx.step()
            ctx.ints(got, w, 'demapping of displaced levels', word=w, offsets=o, constellation=name)
            ctx.state(name, fs, pn, w, o)
    ctx.trace()


def lengths(ctx, name, fs, pn, lens):
    base = long_word(len(LV[name]), max(lens) + 1)
    for n in lens:
        one(ctx, base[:n], np.array(base[:n], dtype=int), name, fs, pn, f' (length {n})')
        ctx.state(name, fs, pn, n)


def layouts(ctx, name, fs, pn):
    idx = long_word(len(LV[name]), 24)
    for shp in shapes_of(24):
        one(ctx, idx, np.array(idx).reshape(shp), name, fs, pn, f' shape {shp}')
        ctx.state(name, fs, pn, shp)
    c = cdsp.ConstellationEnum[name]
    for dt in (np.int64, np.int32, np.int8, np.uint8):
        for shp in ((24,), (4, 6), (2, 3, 4)):
            for fname, a in forms(np.array(idx, dtype=dt).reshape(shp)):
                one(ctx, idx, a, name, fs, pn, f' {fname} {dt}')
    sig = np.array([(-1 if pn else 1) * ref_levels(name, fs)[i] for i in idx])
    for shp in ((24,), (4, 6), (2, 3, 4)):
        for fname, a in forms(sig.reshape(shp)):
            ctx.ints(cdsp.rx.demapping(a, c, full_scale=fs, pn_inv=pn), np.array(idx).reshape(shp), f'demapping {fname}', constellation=name)
            ctx.step()
    if not fs:
        for shp in ((24,), (4, 6)):
            a = np.array([(-1 if pn else 1) * LV[name][i] for i in idx]).reshape(shp)
            ctx.ints(cdsp.rx.demapping(a, c, pn_inv=pn), np.array(idx).reshape(shp), 'demapping of integer levels', constellation=name)
    ctx.trace()


def defaults(ctx):
    """Every subset of the options may be left out: plain levels, not inverted."""
    for name in LV:
        c = cdsp.ConstellationEnum[name]
        idx = np.array(long_word(len(LV[name]), 20))
        for fs, pn in itertools.product([None, False, True], repeat=2):
            kw = {k: v for k, v in (('full_scale', fs), ('pn_inv', pn)) if v is not None}
            want = np.array([(-1 if pn else 1) * ref_levels(name, fs)[i] for i in idx])
            ctx.close(cdsp.tx.mapping(idx.copy(), c, **kw), want, 'mapping with default options', constellation=name, given=kw)
            ctx.ints(cdsp.rx.demapping(want.copy(), c, **kw), idx, 'demapping with default options', constellation=name, given=kw)
            ctx.close(cdsp.tx.mapping(idx.copy(), c, bool(fs), None, bool(pn)), want, 'mapping with positional options', constellation=name)
            ctx.ints(cdsp.rx.demapping(want.copy(), c, bool(fs), bool(pn)), idx, 'demapping with positional options', constellation=name)
            ctx.step(4)
            ctx.state(name, fs, pn)
    ctx.trace()


def custom(ctx, name, pn):
    """Custom levels replace the default ones; a vector of the wrong size is rejected."""
    m = len(LV[name])
    c = cdsp.ConstellationEnum[name]
    vals = [-2.5, -1, 0, 0.75, 3, 4]
    for lv in itertools.product(vals, repeat=m):
        for fs in (False, True):
            idx = list(range(m)) + [m - 1, 0]
            got = cdsp.tx.mapping(np.array(idx), c, full_scale=fs, levels=np.array(lv), pn_inv=pn)
            ctx.step()
            ctx.close(got, [(-1 if pn else 1) * lv[i] for i in idx], 'custom levels', levels=lv, constellation=name)
        ctx.state(name, pn, lv)
    for n in range(0, 9):
        if n != m:
            ctx.raises(ValueError, lambda: cdsp.tx.mapping(np.array([0, 1]), c, levels=np.linspace(-1, 1, n), pn_inv=pn), 'wrong number of custom levels', n=n, constellation=name)
            ctx.step()
    ctx.trace()


def levels(ctx):
    for name in LV:
        for fs in (False, True):
            c = cdsp.ConstellationEnum[name]
            got = cdsp.get_levels(c, fs)
            ctx.step()
            ctx.close(got, ref_levels(name, fs), 'levels', tol=1e-12, constellation=name, full_scale=fs)
            if fs:
                ctx.close(np.mean(np.asarray(got, dtype=float) ** 2), 1.0, 'full scale levels do not have unit mean power', tol=1e-12, constellation=name)
                ctx.close(cdsp.power(np.asarray(got)), 1.0, 'power of full scale levels', tol=1e-12)
            ctx.state(name, fs)
    ctx.same(cdsp.get_levels(cdsp.ConstellationEnum.PAM4), [-3, -1, 1, 3], 'default scale')
    for bad in (None, 0, 'NRZ', cdsp.PrbsEnum.PRBS7):
        ctx.raises(ValueError, lambda: cdsp.get_levels(bad), 'unknown constellation', bad=bad)
    ctx.trace()


CASES = {f.__name__: f for f in (index_words, offsets, lengths, layouts, defaults, custom, levels)}


def tasks(tier):
    thorough = tier == 'thorough'
    yield 'levels', {}
    yield 'defaults', {}
    for name in LV:
        m = len(LV[name])
        top = {2: 10, 3: 7, 4: 6}[m] + (2 if thorough and m > 2 else 0) + (3 if thorough and m == 2 else 0) - (0 if thorough else 1)
        for pn in (False, True):
            yield 'custom', dict(name=name, pn=pn)
            for fs in (False, True):
                for n in range(0, top + 1):
                    yield 'index_words', dict(name=name, fs=fs, pn=pn, length=n)
                yield 'offsets', dict(name=name, fs=fs, pn=pn, n=401 if thorough else 41)
                yield 'lengths', dict(name=name, fs=fs, pn=pn, lens=list(range(0, 131)) + [255, 256, 257, 1000, 1024, 4097, 70001])
                if thorough:
                    yield 'lengths', dict(name=name, fs=fs, pn=pn, lens=list(range(131, 521)) + [8191, 8192, 70001])
                yield 'layouts', dict(name=name, fs=fs, pn=pn)
