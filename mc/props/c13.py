"""FFE-DFE block: its difference equation, and invariance under every chunking of the stream."""
import itertools
import json
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word, compositions, split, forms

BOUNDS = {
    'quick': 'FFE of 1..4 and DFE of 0..3 taps (13 configurations), 4 level sets: every input word of <=5 samples from a 4-value alphabet, every chunking of 7 samples x 2 memory forms per boundary, every two-way split '
             'of 40 samples, lengths 1..60; oversampling 1..6 x every phase on 24-symbol inputs, every chunking into whole symbols of 5 symbols; equalizers of up to 24 FFE and 12 DFE taps over every two-way split with their final memories; signals of 5001..70000 samples in one call; defaults, integer taps and integer initial memories for rates 1..8; explicit memories at every rate and phase; signals scaled by 1e-12..1e9',
    'thorough': 'words of <=6 samples, every chunking of 9 samples, lengths to 200',
}
ASSUMPTIONS = ['reference model: scalar difference equation; the decision taken at the sampling phase enters the DFE half a symbol (osr//2 samples) later',
               'runs in which a slicer input lies within 1e-9 of a decision threshold are excluded (counted)', 'chunks are non-empty and hold whole symbols',
               'with oversampling the chunked runs use phases whose decision falls inside the same symbol (the others are a recorded finding)']
LEVELS = {'pam4': [-3., -1., 1., 3.], 'nrz': [-1., 1.], 'odd': [-2., 0.5, 3.5], 'unit': [-3 / 5 ** 0.5, -1 / 5 ** 0.5, 1 / 5 ** 0.5, 3 / 5 ** 0.5]}
CONF = [([1.], [0.5]), ([0.75], [0.25, -0.5]), ([1., -0.25], None), ([0.125, 1., -0.25], None), ([0.5, -0.25, 0.125, 0.0625], None), ([1., -0.25], [0.5]),
        ([0.125, 1., -0.25], [0.5]), ([0.125, 1., -0.25], [0.375, -0.25]), ([-0.25, 1.], [0.25, 0.125, -0.5]), ([0.25, 0., 1., 0.5], [0.5, 0.25, 0.125]), ([1., 0.], [1.]),
        ([0., 0., 1.], None), ([0., 1., 0.], [0.0, 0.75])]


def slice1(v, levels):
    return min(levels, key=lambda l: (abs(l - v), l))


def ref(x, ffe, dfe, levels, osr=1, phase=0, zx=None, zd=None):
    """-> outputs, smallest distance of a slicer input from a decision threshold"""
    zx = list(zx) if zx is not None else [0.0] * (len(ffe) - 1)      # most recent first
    mem = list(zd) if zd is not None else [0.0] * len(dfe or [])
    thr = [(a + b) / 2 for a, b in zip(levels, levels[1:])]
    hist = zx
    out, dec = [], []
    margin = 1e9
    for n, v in enumerate(x):
        reg = [v] + hist
        y = sum(f * r for f, r in zip(ffe, reg)) - (sum(d * m for d, m in zip(dfe, mem)) if dfe else 0.0)
        hist = reg[:len(ffe) - 1]
        out.append(y)
        dec.append(slice1(y, levels))
        if dfe:
            margin = min([margin] + [abs(y - t) for t in thr])
            if n % osr == (phase + osr // 2) % osr and n - osr // 2 >= 0:
                mem = [dec[n - osr // 2]] + mem[:-1]
    return out, margin


def call(x, conf, levels, osr=1, phase=0, zf=None, zd=None):
    """-> slicer input, FFE memory, DFE memory (None when the block has none)"""
    ffe, dfe = conf
    kw = {}
    if zf is not None:
        kw['zi_ffe'] = zf
    if zd is not None:
        kw['zi_dfe'] = zd
    r = cdsp.rx.ffe_dfe(np.array(x, dtype=float) if not isinstance(x, np.ndarray) else x, ffe_taps=np.array(ffe), dfe_taps=None if dfe is None else np.array(dfe),
                        levels=np.array(levels), osr=osr, phase=phase, **kw)
    if not isinstance(r, tuple):
        return r, None, None
    if len(r) == 3:
        return r
    if dfe is None:
        return r[0], r[1], None
    return r[0], None, r[1]


def run_chunks(ctx, x, parts, conf, levels, forms_, osr=1, phase=0):
    zf = zd = None
    out = []
    for i, c in enumerate(split(x, parts)):
        if zf is not None and forms_[i % len(forms_)]:
            zf = zf[-(len(conf[0]) - 1):]
        y, zf, zd = call(c, conf, levels, osr, phase, zf, zd)
        ctx.step()
        if len(conf[0]) > 1:
            ctx.check(zf is not None, 'FFE memory is not returned', conf=conf)
        if conf[1] is not None:
            ctx.check(zd is not None, 'DFE memory is not returned', conf=conf)
        out.append(np.asarray(y))
    return np.concatenate(out)


def compare(ctx, got, x, conf, levels, msg, osr=1, phase=0, **kw):
    want, margin = ref(x, conf[0], conf[1], levels, osr, phase)
    if margin < 1e-9:
        ctx.skip()
        return False
    ctx.close(got, want, msg, conf=conf, levels=levels, input=x if len(x) < 30 else len(x), osr=osr, phase=phase, **kw)
    return True


def in_words(ctx, conf, lname, length):
    lv = LEVELS[lname]
    for w in words((-3.1, -0.9, 0.3, 2.2), length):
        y, zf, zd = call(w, conf, lv)
        ctx.step()
        if compare(ctx, y, w, conf, lv, 'FFE-DFE difference equation'):
            ctx.state(json.dumps(conf), lname, w)
            ctx.trace()
            # the memories continue the stream exactly
            if len(conf[0]) > 1 or conf[1]:
                y2, _, _ = call([1.4, -0.6, 0.2, -2.7], conf, lv, 1, 0, zf, zd)
                ctx.step()
                compare(ctx, np.concatenate([y, y2]), list(w) + [1.4, -0.6, 0.2, -2.7], conf, lv, 'continuing from the returned memory')
    ctx.sample(conf=conf, word=w, out=y)


def stream(n):
    return [0.37 * a - 0.9 * b + 0.05 * ((i * 7) % 11) for i, (a, b) in enumerate(zip(long_word(4, n), long_word(3, n)))]


def chunkings(ctx, conf, lname, n):
    lv = LEVELS[lname]
    x = stream(n)
    for parts in compositions(n):
        for fm in ((0,), (1,), (0, 1)):
            got = run_chunks(ctx, x, parts, conf, lv, fm)
            compare(ctx, got, x, conf, lv, 'chunked run differs from the whole', parts=parts, memory_form=fm)
        ctx.state(json.dumps(conf), lname, parts)
        ctx.trace()
    ctx.sample(conf=conf, parts=parts)


def splits(ctx, conf, lname, n):
    lv = LEVELS[lname]
    x = stream(n)
    for a in range(1, n):
        got = run_chunks(ctx, x, (a, n - a), conf, lv, (a % 2,))
        compare(ctx, got, x, conf, lv, 'chunked run differs from the whole', parts=(a, n - a))
        ctx.state(json.dumps(conf), lname, n, a)
        ctx.trace()


def lengths(ctx, conf, lname, lens):
    lv = LEVELS[lname]
    for n in lens:
        x = stream(n)
        y, _, _ = call(x, conf, lv)
        ctx.step()
        compare(ctx, y, x, conf, lv, 'length')
        xi = np.array([int(round(3 * v)) for v in x])
        y, _, _ = call(xi, conf, lv)
        compare(ctx, y, xi.tolist(), conf, lv, 'integer samples')
        ctx.state(json.dumps(conf), lname, n)
        ctx.trace()
    for fn, a in forms(np.array(stream(30))):
        y, _, _ = call(a, conf, lv)
        compare(ctx, y, stream(30), conf, lv, f'memory layout {fn}')


def initial(ctx, conf, lname):
    """Explicit initial memories: FFE memory oldest first, DFE memory most recent first."""
    lv = LEVELS[lname]
    ffe, dfe = conf
    x = stream(9)
    if len(ffe) == 1 and not dfe:
        return
    for zf in itertools.product((0.0, -1.25, 2.0), repeat=len(ffe) - 1):
        for zd in itertools.product((0.0, lv[0], lv[-1]), repeat=len(dfe or [])):
            want, margin = ref(x, ffe, dfe, lv, 1, 0, zf[::-1], zd)
            if margin < 1e-9:
                ctx.skip()
                continue
            for lead in ((), (9.0,)):
                z = np.array(list(lead) + list(zf)) if len(ffe) > 1 else None
                y, _, _ = call(x, conf, lv, 1, 0, z, np.array(zd) if dfe else None)
                ctx.step()
                ctx.close(y, want, 'initial memory', conf=conf, zi_ffe=z, zi_dfe=zd)
            ctx.state(json.dumps(conf), lname, zf, zd)
            ctx.trace()
    for zd in itertools.product((0, 1, -1), repeat=len(dfe or [])):          # memories given as integers
        zf = [(2, -1, 3, 1)[i] for i in range(len(ffe) - 1)]
        want, margin = ref(x, ffe, dfe, lv, 1, 0, zf[::-1], zd)
        if margin < 1e-9:
            ctx.skip()
            continue
        y, _, _ = call(x, conf, lv, 1, 0, np.array(zf, dtype=int) if zf else None, np.array(zd, dtype=int) if dfe else None)
        ctx.step()
        ctx.close(y, want, 'integer initial memory', conf=conf, zi_ffe=zf, zi_dfe=zd, levels=lname)
        ctx.state(json.dumps(conf), lname, 'int', zd)


def oversampled(ctx, conf, lname, osr, phase, sym):
    lv = LEVELS[lname]
    x = stream(sym * osr)
    y, _, _ = call(x, conf, lv, osr, phase)
    ctx.step()
    compare(ctx, y, x, conf, lv, 'oversampled FFE-DFE', osr, phase)
    hold = np.repeat(stream(sym), osr).tolist()
    y, _, _ = call(hold, conf, lv, osr, phase)
    compare(ctx, y, hold, conf, lv, 'oversampled FFE-DFE', osr, phase)
    ctx.state(json.dumps(conf), lname, osr, phase, sym)
    if phase < osr - osr // 2:
        x = stream(5 * osr)
        for parts in compositions(5):
            got = run_chunks(ctx, x, tuple(p * osr for p in parts), conf, lv, (0, 1), osr, phase)
            compare(ctx, got, x, conf, lv, 'chunked oversampled run differs from the whole', osr, phase, parts=parts)
            ctx.state(json.dumps(conf), lname, osr, phase, parts)
            ctx.trace()
    ctx.trace()


def defaults(ctx, osr):
    """Options left out: phase 0, oversampling 1, PAM4 levels; integer taps and levels."""
    x = stream(12 * osr)
    for ffe, dfe in CONF:
        for lname, lv in LEVELS.items():
            kw = dict(ffe_taps=np.array(ffe), dfe_taps=None if dfe is None else np.array(dfe))
            if osr > 1:
                kw['osr'] = osr
            if lname != 'pam4':
                kw['levels'] = np.array(lv)
            r = cdsp.rx.ffe_dfe(np.array(x), **kw)
            ctx.step()
            if compare(ctx, r[0] if isinstance(r, tuple) else r, x, (ffe, dfe), lv, 'default options', osr, 0):
                ctx.state(json.dumps([ffe, dfe]), lname, osr)
    for ffe, dfe in (([1, 2], [1]), ([1], [2, 1]), ([2, -1, 1], None), ([1, 1, 1], [1, -1])):
        for lv in ([-3, -1, 1, 3], [-2, 5]):
            for xs in (x, [int(round(2 * v)) for v in x]):
                xs = [v + 0.25 for v in xs] if dfe else xs
                r = cdsp.rx.ffe_dfe(np.array(xs), np.array(ffe), None if dfe is None else np.array(dfe), np.array(lv), osr)
                ctx.step()
                compare(ctx, r[0], xs, (ffe, dfe), lv, 'integer taps', osr, 0)
    ctx.trace()


def many_taps(ctx, nf, nd, lname='pam4'):
    """Long equalizers, whole and chunked; the final memories of every two-way split agree with those of one call."""
    ffe = [round(0.9 ** i * (-1) ** (i * i // 3) / (1 + abs(i - nf // 3)), 4) for i in range(nf)]
    dfe = [round(0.3 * (-0.8) ** i + 0.01, 4) for i in range(nd)] or None
    n = 2 * max(nf, nd) + 9
    x = stream(n)
    lv = LEVELS[lname]
    want, margin = ref(x, ffe, dfe, lv)
    if margin < 1e-9:
        ctx.skip()
        return
    y, zf, zd = call(x, (ffe, dfe), lv)
    ctx.close(y, want, 'long equalizer', ffe=ffe, dfe=dfe)
    ctx.step()
    for a in range(1, n):
        y1, f1, d1 = call(x[:a], (ffe, dfe), lv)
        y2, f2, d2 = call(x[a:], (ffe, dfe), lv, 1, 0, f1, d1)
        ctx.step(2)
        ctx.close(np.concatenate([y1, y2]), want, 'long equalizer in two chunks', ffe=ffe, dfe=dfe, cut=a)
        if nf > 1:
            ctx.close(f2[-(nf - 1):], zf[-(nf - 1):], 'final FFE memory depends on the chunking', cut=a)
            ctx.close(f2[-(nf - 1):], x[-(nf - 1):], 'final FFE memory is not the last samples', cut=a)
        if nd:
            ctx.close(d2, zd, 'final DFE memory depends on the chunking', cut=a)
            ctx.close(d2, [slice1(v, lv) for v in want[::-1][:nd]], 'final DFE memory is not the last decisions', cut=a)
        ctx.state(nf, nd, a)
        ctx.trace()


def very_long(ctx, n):
    """Tens of thousands of samples in one call: full precision and no drift."""
    x = np.array((stream(211) * (n // 211 + 1))[:n]) + 0.001 * (np.arange(n) % 97) + 1e-7 * (np.arange(n) % 13)
    for ffe in ([1., -0.25], [0.125, 1., -0.25], [0.5, -0.25, 0.125, 0.0625], [round(0.7 ** i * (-1) ** i, 3) for i in range(17)]):
        want = sum(np.concatenate([np.zeros(i), x[:n - i]]) * c for i, c in enumerate(ffe))
        y, zf, _ = call(x, (ffe, None), LEVELS['pam4'])
        ctx.step()
        ctx.close(y, want, 'long signal through the FFE', tol=1e-11, ffe=ffe, n=n)
        ctx.close(np.asarray(zf)[-(len(ffe) - 1):], x[-(len(ffe) - 1):], 'final FFE memory of a long signal', tol=0, ffe=ffe, n=n)
        k = n // 2 + 1
        y1, zf, _ = call(x[:k], (ffe, None), LEVELS['pam4'])
        y2, _, _ = call(x[k:], (ffe, None), LEVELS['pam4'], 1, 0, zf)
        ctx.close(np.concatenate([y1, y2]), want, 'long signal in two chunks', tol=1e-11, ffe=ffe, n=n)
        ctx.step(2)
        ctx.state('very_long', n, len(ffe))
    for ffe, dfe in (([1.], [0.5]), ([0.125, 1., -0.25], [0.375, -0.25])):
        xs = x[:min(n, 12000)].tolist()
        y, _, _ = call(xs, (ffe, dfe), LEVELS['pam4'])
        ctx.step()
        compare(ctx, y, xs, (ffe, dfe), LEVELS['pam4'], 'long signal through FFE and DFE')
    ctx.trace()


def initial_over(ctx, conf, lname, osr, phase):
    """Explicit initial memories at every oversampling rate and phase."""
    lv = LEVELS[lname]
    ffe, dfe = conf
    x = stream(7 * osr)
    for zd in itertools.product((0.0, lv[0], lv[-1], 0.7), repeat=len(dfe)):
        for zf in ([0.0] * (len(ffe) - 1), [(-1.25, 2.0, 0.5)[i % 3] for i in range(len(ffe) - 1)]):
            want, margin = ref(x, ffe, dfe, lv, osr, phase, zf[::-1], zd)
            if margin < 1e-9:
                ctx.skip()
                continue
            y, _, _ = call(x, conf, lv, osr, phase, np.array(zf) if zf else None, np.array(zd))
            ctx.step()
            ctx.close(y, want, 'initial memory', conf=conf, zi_ffe=zf, zi_dfe=zd, osr=osr, phase=phase)
            ctx.state(json.dumps(conf), lname, osr, phase, zd, tuple(zf))
            ctx.trace()


def scales(ctx, conf, osr):
    """The feed-forward filter is linear at every signal level; the whole block scales with its levels."""
    ffe, dfe = conf
    x = stream(30 * osr)
    for k in (1e-12, 1e-9, 1e-4, 1e5, 1e9):
        want = ref(x, ffe, None, LEVELS['pam4'], osr)[0]
        y = call([v * k for v in x], (ffe, None), LEVELS['pam4'], osr)[0]
        ctx.rel(y, [v * k for v in want], 'FFE of a scaled signal', ffe=ffe, scale=k)
        ctx.step()
        for lname, lv in LEVELS.items():
            want, margin = ref(x, ffe, dfe, lv, osr)
            if margin < 1e-9:
                ctx.skip()
                continue
            y = call([v * k for v in x], conf, [l * k for l in lv], osr)[0]
            ctx.rel(y, [v * k for v in want], 'signal and levels scaled together', conf=conf, levels=lv, scale=k)
            ctx.step()
            ctx.state(json.dumps(conf), lname, osr, k)
        ctx.trace()


def late_phase(ctx):
    """A phase whose decision would enter the DFE in the next symbol: the last decision of a chunk is lost."""
    conf = ([1.], [0.5])
    lv = [-1., 1.]
    x = [0.9, -0.8, 1.1, -1.2]
    got = run_chunks(ctx, x, (2, 2), conf, lv, (0,), 2, 1)
    ctx.close(got, call(x, conf, lv, 2, 1)[0], 'chunked oversampled run differs from the whole')


def transparent(ctx):
    """No FFE (or a single tap) and no DFE: a plain gain."""
    for n in range(1, 40):
        x = np.array(stream(n))
        ctx.close(cdsp.rx.ffe_dfe(x), x, 'default taps must be transparent')
        ctx.close(cdsp.rx.ffe_dfe(x, ffe_taps=None), x, 'no FFE must be transparent')
        for g in (1., -0.5, 2., 0.):
            ctx.close(cdsp.rx.ffe_dfe(x, ffe_taps=np.array([g])), g * x, 'single tap is a gain', gain=g)
            ctx.step()
        ctx.step(2)
        for dfe in ([0.5], [0.25, -0.5]):
            for l in LEVELS.values():
                r = cdsp.rx.ffe_dfe(x, ffe_taps=None, dfe_taps=np.array(dfe), levels=np.array(l))
                w, m = ref(x.tolist(), [1.0], dfe, l)
                if m > 1e-9:
                    ctx.close(r[0], w, 'DFE without FFE')
            w, m = ref(x.tolist(), [1.0], dfe, LEVELS['pam4'])
            ctx.step()
            if m > 1e-9:
                ctx.close(cdsp.rx.ffe_dfe(x, dfe_taps=np.array(dfe))[0], w, 'default levels are PAM4')
        ctx.state('transparent', n)
    ctx.trace()


CASES = {f.__name__: f for f in (in_words, chunkings, splits, lengths, initial, oversampled, defaults, many_taps, very_long, initial_over, scales, late_phase, transparent)}


def tasks(tier):
    th = tier == 'thorough'
    yield 'late_phase', {}
    for n in (5001, 8192, 20000, 70000):
        yield 'very_long', dict(n=n)
    yield 'transparent', {}
    for osr in range(1, 9):
        yield 'defaults', dict(osr=osr)
    for nf in (1, 2, 3, 4, 5, 6, 8, 11, 16, 24):
        for nd in (0, 1, 2, 3, 4, 5, 7, 12):
            if nf > 1 or nd:
                yield 'many_taps', dict(nf=nf, nd=nd)
                yield 'many_taps', dict(nf=nf, nd=nd, lname='unit')
    for conf in CONF[5:10]:
        for osr, ph in ((8, 0), (8, 3), (8, 7), (16, 5), (32, 15), (32, 31)):
            yield 'oversampled', dict(conf=[list(conf[0]), None if conf[1] is None else list(conf[1])], lname='nrz', osr=osr, phase=ph, sym=6)
    for conf in CONF:
        conf = [list(conf[0]), None if conf[1] is None else list(conf[1])]
        for l in LEVELS:
            for n in range(1, (6 if th else 5) + 1):
                if n < 5 or l == 'pam4':
                    yield 'in_words', dict(conf=conf, lname=l, length=n)
            yield 'chunkings', dict(conf=conf, lname=l, n=9 if th else 7)
            yield 'splits', dict(conf=conf, lname=l, n=40)
            yield 'lengths', dict(conf=conf, lname=l, lens=list(range(1, 200 if th else 60)) + [255, 256, 257, 1000])
            yield 'initial', dict(conf=conf, lname=l)
        if conf[1]:
            for osr in (1, 2, 5):
                yield 'scales', dict(conf=conf, osr=osr)
            for osr in range(1, 7):
                for ph in range(osr):
                    yield 'initial_over', dict(conf=conf, lname='odd' if ph % 2 else 'pam4', osr=osr, phase=ph)
        for osr in range(1, 7):
            for ph in range(osr):
                yield 'oversampled', dict(conf=conf, lname='pam4', osr=osr, phase=ph, sym=24)
