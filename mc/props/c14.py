"""Streaming filter objects: difference equation, chunk invariance, independence of objects."""
import itertools
import json
from collections import deque
import numpy as np
import CommDspy as cdsp
from CommDspy.misc.help_classes import Filter, FilterTII, FfeDfeFilterTII
from mc.core import words, long_word, compositions, split

BOUNDS = {
    'quick': '3 filter classes x 14 coefficient sets (FIR length 1..5, IIR order 0..4, a0 != 1): every input word of <=5 samples from a 4-value alphabet, every chunking of 7 samples, every interleaving of two objects '
             'over 6 chunks, explicit initial memories (also of fine fractions and extreme magnitudes), integer/complex/list chunks, complex memories and coefficients, lengths 0..60; orders up to 33 and streams of 500..20000 samples; signals scaled by 1e-12..1e9 and decaying tails',
    'thorough': 'words of <=6 samples, every chunking of 10 samples, interleavings of two objects over 9 chunks',
}
ASSUMPTIONS = ['reference model: scalar difference equation in Python floats, tolerance 1e-9',
               'FFE-DFE runs in which a slicer input lies within 1e-9 of a decision threshold are excluded (counted)']
COEF = [([1.], [1.]), ([0.5], [2.]), ([1., 0.5], [1.]), ([0.25, -0.5, 1.], [1.]), ([1.], [1., -0.5]), ([1., 0.5], [1., 0.25]), ([0.5, 0.25, -1.], [1., -0.5]), ([1., 2.], [2., 0.5, -0.25]),
        ([1., 0., 0.5, -0.25, 0.125], [4., 1.]), ([0.3], [1., 0.2, -0.1, 0.05, 0.3]), ([0., 1.], [1., 0., 0.5]), ([1., -1., 0.5], [-2., 0.5, 0.25]), ([0.1, 0.2, 0.3], [0.5, 0.1, -0.2, 0.1]), ([1., 1., 1., 1.], [1., 0.9])]
LV = [-3., -1., 1., 3.]


def ref(x, b, a, zx=None, zy=None):
    hx = list(zx) if zx is not None else [0.0] * len(b)
    hy = list(zy) if zy is not None else [0.0] * (len(a) - 1)
    out = []
    for v in x:
        hx = ([v] + hx)[:len(b)]
        y = (sum(p * q for p, q in zip(b, hx)) - sum(p * q for p, q in zip(a[1:], hy))) / a[0]
        hy = ([y] + hy)[:len(a) - 1]
        out.append(y)
    return out


def ref_dfe(x, f, d):
    hx = [0.0] * len(f)
    hd = [0.0] * (len(d) - 1)
    out = []
    margin = 1e9
    for v in x:
        hx = ([v] + hx)[:len(f)]
        y = (sum(p * q for p, q in zip(f, hx)) - sum(p * q for p, q in zip(d[1:], hd))) / d[0]
        margin = min(margin, *(abs(y - t) for t in (-2., 0., 2.)))
        hd = ([min(LV, key=lambda l: (abs(l - y), l))] + hd)[:len(d) - 1]
        out.append(y)
    return out, margin


def make(cls, b, a):
    b, a = np.array(b), np.array(a)
    return {'Filter': lambda: Filter(b, a), 'FilterTII': lambda: FilterTII(b, a), 'FfeDfe': lambda: FfeDfeFilterTII(b, a, np.array(LV))}[cls]()


def expect(ctx, cls, x, b, a):
    if cls == 'FfeDfe':
        w, m = ref_dfe(x, b, a)
        if m < 1e-9:
            ctx.skip()
            return None
        return w
    return ref(x, b, a)


def in_words(ctx, cls, b, a, length):
    for w in words((-3.1, -0.9, 0.3, 2.2), length):
        want = expect(ctx, cls, w, b, a)
        if want is None:
            continue
        ctx.close(make(cls, b, a)(np.array(w)), want, f'{cls}: difference equation', b=b, a=a, word=w)
        ctx.step()
        ctx.state(cls, json.dumps([b, a]), w)
        ctx.trace()
    ctx.sample(cls=cls, b=b, a=a, word=w)


def stream(n):
    return [0.37 * p - 0.9 * q + 0.05 * ((i * 7) % 11) for i, (p, q) in enumerate(zip(long_word(4, n), long_word(3, n)))]


def chunkings(ctx, cls, b, a, n):
    x = stream(n)
    want = expect(ctx, cls, x, b, a)
    if want is None:
        return
    for parts in compositions(n):
        f = make(cls, b, a)
        got = [f(np.array(c)) for c in split(x, parts)]
        ctx.step(len(parts))
        ctx.close(np.concatenate(got), want, f'{cls}: chunked run differs from the whole', b=b, a=a, parts=parts)
        f = make(cls, b, a)
        got = []
        for c in split(x, parts):      # with empty chunks in between
            got.append(f(np.array(c)))
            e = f(np.array([]))
            ctx.check(np.shape(e) == (0,), 'empty chunk', got=e)
        ctx.close(np.concatenate(got), want, f'{cls}: an empty chunk disturbs the state', b=b, a=a, parts=parts)
        ctx.state(cls, json.dumps([b, a]), parts)
        ctx.trace()
    ctx.sample(cls=cls, parts=parts)


def interleave(ctx, cls, n):
    """Two live objects with different coefficients, every order of their chunk calls, each with its own stream."""
    (b1, a1), (b2, a2) = ([0.5, 0.25, -1.], [1., -0.5]), ([1., 2.], [2., 0.5, -0.25])
    for same in (False, True):
        B2, A2 = (b1, a1) if same else (b2, a2)
        for order in itertools.product((0, 1), repeat=n):
            fs = [make(cls, b1, a1), make(cls, B2, A2)]
            pos, outs, ins = [0, 0], [[], []], [stream(3 * n), stream(3 * n + 5)[5:]]
            for i, o in enumerate(order):
                L = 1 + i % 3
                c = ins[o][pos[o]:pos[o] + L]
                outs[o].append(fs[o](np.array(c)))
                pos[o] += L
                ctx.step()
            for o, (b, a) in enumerate(((b1, a1), (B2, A2))):
                if outs[o]:
                    want = expect(ctx, cls, ins[o][:pos[o]], b, a)
                    if want is not None:
                        ctx.close(np.concatenate(outs[o]), want, f'{cls}: two objects influence each other', order=order)
            ctx.state(cls, same, order)
            ctx.trace()


def shared(ctx, cls, b, a, n, ints, queue=False):
    """Two objects built from the very same coefficient, level and memory arrays, every order of their chunk calls."""
    zl = max(len(b), len(a)) - 1
    scale = 4 if ints else 1
    z0 = [(i * 3 % 5 - 2) * scale / 4 for i in range(zl)]
    zx0 = [(i * 3 % 5 - 1) * scale / 4 for i in range(len(b))]
    zy0 = [(i * 2 % 3 - 1) * scale / 4 for i in range(len(a) - 1)]
    ty = int if ints else float

    def run(fs, order):
        pos, outs, ins = [0, 0], [[], []], [stream(3 * n), stream(3 * n + 5)[5:]]
        for i, o in enumerate(order):
            L = 1 + i % 3
            outs[o].append(np.asarray(fs[o](np.array(ins[o][pos[o]:pos[o] + L]))))
            pos[o] += L
            ctx.step()
        return [np.concatenate(v) if v else np.zeros(0) for v in outs]

    for order in itertools.product((0, 1), repeat=n):
        B, A, L = np.array(b), np.array(a), np.array(LV)
        Z, ZX, ZY = np.array(z0, dtype=ty), np.array(zx0, dtype=ty), np.array(zy0, dtype=ty)
        if queue:
            ZX, ZY = deque(ZX.tolist(), maxlen=len(ZX)), deque(ZY.tolist(), maxlen=max(1, len(ZY)))
        mk = {'Filter': lambda: Filter(B, A, ZX, ZY), 'FilterTII': lambda: FilterTII(B, A, Z), 'FfeDfe': lambda: FfeDfeFilterTII(B, A, L, Z)}[cls]
        got = run([mk(), mk()], order)
        for v, w in ((B, b), (A, a), (L, LV), (Z, np.array(z0, dtype=ty)), (ZX, np.array(zx0, dtype=ty)), (ZY, np.array(zy0, dtype=ty))):
            ctx.same(np.array(v), w, f'{cls}: an array passed to the object was changed', order=order, b=b, a=a)
        for o in (0, 1):     # each object alone, from fresh private arrays
            fresh = {'Filter': lambda: Filter(np.array(b), np.array(a), [float(v) for v in zx0], [float(v) for v in zy0]), 'FilterTII': lambda: FilterTII(np.array(b), np.array(a), np.array(z0, dtype=float)),
                     'FfeDfe': lambda: FfeDfeFilterTII(np.array(b), np.array(a), np.array(LV), np.array(z0, dtype=float))}[cls]()
            L3 = [1 + i % 3 for i, q in enumerate(order) if q == o]
            ins = [stream(3 * n), stream(3 * n + 5)[5:]][o][:sum(L3)]
            want = np.asarray(fresh(np.array(ins))) if L3 else np.zeros(0)
            ctx.close(got[o], want, f'{cls}: objects built from the same arrays influence each other', order=order, b=b, a=a, ints=ints)
        ctx.state(cls, json.dumps([b, a]), order, ints)
        ctx.trace()


def lengths(ctx, cls, b, a):
    for n in list(range(0, 61)) + [128, 255, 256, 257, 1000]:
        x = stream(n) if n else []
        want = expect(ctx, cls, x, b, a)
        if want is not None:
            ctx.close(make(cls, b, a)(np.array(x, dtype=float)), np.array(want, dtype=float), f'{cls}: length', b=b, a=a, n=n)
        xi = [int(round(3 * v)) for v in x]
        want = expect(ctx, cls, xi, b, a)
        if want is not None:
            ctx.close(make(cls, b, a)(np.array(xi, dtype=int)), np.array(want, dtype=float), f'{cls}: integer samples', b=b, a=a, n=n)
            ctx.close(make(cls, b, a)(xi), np.array(want, dtype=float), f'{cls}: list of integers', b=b, a=a, n=n)
            ctx.close(make(cls, b, a)(np.array(xi, dtype=np.int16)), np.array(want, dtype=float), f'{cls}: 16 bit samples', b=b, a=a, n=n)
            ctx.step(3)
        ctx.step()
        ctx.state(cls, json.dumps([b, a]), n)
        ctx.trace()
    if cls != 'FfeDfe':
        x = [complex(p, q) for p, q in zip(stream(20), stream(20)[::-1])]
        ctx.close(make(cls, b, a)(np.array(x)), ref(x, b, a), f'{cls}: complex samples', b=b, a=a)


def initial(ctx, b, a):
    """Direct form: explicit input and output history (most recent first)."""
    x = stream(8)
    for k in range(16):
        e = 0 if k < 12 else (1 / 3, 1e-9 / 7, 1e7 / 3, -2e-5 / 9)[k - 12]          # fine fractions and extreme magnitudes
        zx = [((k * 5 + i * 3) % 7 - 3) / 2 + e * (i + 1) for i in range(len(b))]
        zy = [((k * 3 + i * 5) % 7 - 3) / 4 - e * (i + 2) for i in range(len(a) - 1)]
        want = ref(x, b, a, zx, zy)
        ctx.close(Filter(np.array(b), np.array(a), list(zx), list(zy))(np.array(x)), want, 'Filter: initial memory', b=b, a=a, z_fir=zx, z_iir=zy)
        f = Filter(np.array(b), np.array(a))
        f(np.array(stream(5)))
        f.set_z_fir(list(zx))
        f.set_z_iir(list(zy))
        ctx.close(f(np.array(x)), want, 'Filter: memory set later', b=b, a=a, z_fir=zx, z_iir=zy)
        f.set_z_fir(None)
        f.set_z_iir(None)
        ctx.close(f(np.array(x)), ref(x, b, a), 'Filter: memory reset', b=b, a=a)
        ctx.step(3)
        # transposed form: the state that the same history leads to, obtained by superposition of unit responses
        n = max(len(b), len(a)) - 1
        z = [((k * 5 + i * 3) % 7 - 3) / 2 + e * (i + 1) for i in range(n)]
        # a0*y = z[0] + ... : state z contributes z[i] to a0*y[i] before recursion
        y, want = [], None
        hx, hy = [0.0] * len(b), [0.0] * (len(a) - 1)
        for t, v in enumerate(x):
            hx = ([v] + hx)[:len(b)]
            acc = sum(p * q for p, q in zip(b, hx)) - sum(p * q for p, q in zip(a[1:], hy)) + (z[t] if t < n else 0.0)
            yy = acc / a[0]
            hy = ([yy] + hy)[:len(a) - 1]
            y.append(yy)
        ctx.close(FilterTII(np.array(b), np.array(a), np.array(z))(np.array(x)), y, 'FilterTII: initial memory', b=b, a=a, z=z)
        f = FilterTII(np.array(b), np.array(a))
        f(np.array(stream(5)))
        f.set_z(np.array(z))
        ctx.close(f(np.array(x)), y, 'FilterTII: memory set later', b=b, a=a, z=z)
        f.set_z(None)
        ctx.close(f(np.array(x)), ref(x, b, a), 'FilterTII: memory reset', b=b, a=a)
        ctx.step(3)
        ctx.state(json.dumps([b, a]), k)
        ctx.trace()


def complex_memory(ctx, b, a):
    """Complex streams: complex samples, and a complex memory under real samples."""
    n = max(len(b), len(a)) - 1
    x = stream(12)
    for xs in (x, [v + 1j * w for v, w in zip(x, x[::-1])]):
        for k in range(4):
            zx = [(k - 1.5) * (i + 1) / 4 + 1j * ((k * 3 + i) % 5 - 2) / 3 for i in range(len(b))]
            zy = [(k - 0.5) * (i + 1) / 8 - 1j * ((k * 5 + i) % 7 - 3) / 5 for i in range(len(a) - 1)]
            want = ref(xs, b, a, zx, zy)
            got = Filter(np.array(b), np.array(a), list(zx), list(zy))(np.array(xs))
            ctx.close(got, want, 'Filter: complex memory', b=b, a=a, z_fir=zx, z_iir=zy)
            # the transposed memory that the same history leaves behind
            z = []
            for i in range(n):
                z.append(sum(b[j] * zx[j - i - 1] for j in range(i + 1, len(b))) - sum(a[j] * zy[j - i - 1] for j in range(i + 1, len(a))))
            got = FilterTII(np.array(b), np.array(a), np.array(z))(np.array(xs))
            ctx.close(got, want, 'FilterTII: complex memory', b=b, a=a, z=z)
            f = FilterTII(np.array(b), np.array(a))
            f(np.array(stream(3)))
            f.set_z(np.array(z))
            out = []
            for c in split(xs, (5, 1, 6)):
                out += list(np.asarray(f(np.array(c))).reshape(-1))
            ctx.close(out, want, 'FilterTII: complex memory set later, in chunks', b=b, a=a, z=z)
            bc, ac = [v * (1 + 0.5j * (k - 1)) for v in b], [a[0]] + [v * (0.6 - 0.3j * k) for v in a[1:]]
            want = ref(xs, bc, ac)
            for cls in (Filter, FilterTII):
                f = cls(np.array(bc), np.array(ac))
                out = []
                for c in split(xs, (5, 1, 6)):
                    out += list(np.asarray(f(np.array(c))).reshape(-1))
                ctx.close(out, want, cls.__name__ + ': complex coefficients', b=bc, a=ac)
            f = make('FilterTII', b, a)         # a complex chunk followed by a real one
            out = list(np.asarray(f(np.array(xs[:4]) * 1j))) + list(np.asarray(f(np.array(x[4:]))))
            ctx.close(out, ref([v * 1j for v in xs[:4]] + x[4:], b, a), 'FilterTII: complex chunk before a real one', b=b, a=a)
            f = make('Filter', b, a)
            out = list(np.asarray(f(np.array(xs[:4]) * 1j))) + list(np.asarray(f(np.array(x[4:]))))
            ctx.close(out, ref([v * 1j for v in xs[:4]] + x[4:], b, a), 'Filter: complex chunk before a real one', b=b, a=a)
            ctx.step(9)
            ctx.state('complex', json.dumps([b, a]), k)
            ctx.trace()


def equivalence(ctx, ffe, dfe):
    """The streaming FFE-DFE object and the block function are the same equalizer."""
    x = stream(60)
    r = cdsp.rx.ffe_dfe(np.array(x), np.array(ffe), np.array(dfe), levels=np.array(LV))
    _, m = ref_dfe(x, ffe, [1.0] + list(dfe))
    if m < 1e-9:
        ctx.skip()
        return
    got = FfeDfeFilterTII(np.array(ffe), np.array([1.0] + list(dfe)), np.array(LV))(np.array(x))
    ctx.close(got, r[0], 'FfeDfeFilterTII differs from ffe_dfe', ffe=ffe, dfe=dfe)
    ctx.step(2)
    ctx.state(json.dumps([ffe, dfe]))
    ctx.trace()


def large(ctx, cls, order, n):
    """Long chunks and filters of high order."""
    b = [0.9 ** i * (-1) ** (i // 2) / (1 + i % 3) for i in range(order + 1)]
    a = [1.0] + [0.4 / (order + i) * (-1) ** i for i in range(1, order + 1)]
    for bb, aa in ((b, a), (b, [1.0]), (b[:1], a), (b, a[:3]), (b[:3], a)):
        x = (stream(200) * (n // 200 + 1))[:n]
        x = [v + 0.01 * (i % 11) for i, v in enumerate(x)]
        want = expect(ctx, cls, x, bb, aa)
        if want is None:
            continue
        for parts in ([n], [1, n - 1], [n // 2, n - n // 2], [order, n - order], [max(order - 1, 1), 1, n - order - 3, 3] if order > 1 else [n]):
            if sum(parts) != n:
                continue
            f = make(cls, bb, aa)
            out = []
            for c in split(x, parts):
                out += list(np.asarray(f(np.array(c))).reshape(-1))
                ctx.step()
            ctx.close(out, want, 'long stream', tol=1e-8, cls=cls, order=order, parts=parts, b=len(bb), a=len(aa))
            ctx.trace()
        ctx.state('large', cls, order, n, len(bb), len(aa))


def scales(ctx, b, a):
    """Linear at every signal level: tiny and huge samples, and memories that decay far below the signal."""
    x = stream(40)
    burst = x[:5] + [0.0] * 120
    for cls in ('Filter', 'FilterTII'):
        want, wb = np.array(ref(x, b, a)), np.array(ref(burst, b, a))
        for k in (1e-12, 1e-9, 1e-4, 1e5, 1e9):
            ctx.rel(make(cls, b, a)(np.array(x) * k), want * k, f'{cls}: scaled signal', b=b, a=a, scale=k)
            ctx.step()
            ctx.state('scale', cls, json.dumps([b, a]), k)
        got = np.asarray(make(cls, b, a)(np.array(burst)))
        big = np.max(np.abs(wb))
        for i in range(0, len(burst), 10):          # the decaying tail, piece by piece
            w = wb[i:i + 10]
            if np.max(np.abs(w)) > 1e-11 * big:
                ctx.rel(got[i:i + 10], w, f'{cls}: decaying tail', tol=1e-4, b=b, a=a, at=i)
        ctx.step()
        ctx.trace()
    w, m = ref_dfe(x, b, a)
    if m > 1e-9:
        for k in (1e-12, 1e-9, 1e5, 1e9):
            got = FfeDfeFilterTII(np.array(b), np.array(a), np.array(LV) * k)(np.array(x) * k)
            ctx.rel(got, np.array(w) * k, 'FfeDfe: signal and levels scaled together', b=b, a=a, scale=k)
            ctx.step()


CASES = {f.__name__: f for f in (in_words, chunkings, interleave, shared, lengths, initial, complex_memory, equivalence, large, scales)}


def tasks(tier):
    th = tier == 'thorough'
    for cls in ('Filter', 'FilterTII', 'FfeDfe'):
        for order, n in ((6, 2000), (12, 600), (33, 500), (2, 20000)) + (((100, 2000),) if th else ()):
            yield 'large', dict(cls=cls, order=order, n=n)
    for cls in ('Filter', 'FilterTII', 'FfeDfe'):
        yield 'interleave', dict(cls=cls, n=9 if th else 6)
        for b, a in (COEF if th else COEF[3::3]):
            for ints in (False, True):
                yield 'shared', dict(cls=cls, b=b, a=a, n=6 if th else 4, ints=ints)
            if cls == 'Filter':
                yield 'shared', dict(cls=cls, b=b, a=a, n=6 if th else 4, ints=False, queue=True)
        for b, a in COEF:
            for n in range(1, (6 if th else 5) + 1):
                yield 'in_words', dict(cls=cls, b=b, a=a, length=n)
            yield 'chunkings', dict(cls=cls, b=b, a=a, n=10 if th else 7)
            yield 'lengths', dict(cls=cls, b=b, a=a)
    for b, a in COEF:
        yield 'initial', dict(b=b, a=a)
        yield 'complex_memory', dict(b=b, a=a)
        yield 'scales', dict(b=b, a=a)
    for ffe in ([1.], [1., -0.25], [0.125, 1., -0.25], [0.25, 0.5, 0.25, -0.125]):
        for dfe in ([0.5], [0.25, -0.5], [0.5, 0.25, 0.125]):
            yield 'equivalence', dict(ffe=ffe, dfe=dfe)
