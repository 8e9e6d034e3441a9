"""Adaptation: LMS gradients and the Mueller-Muller timing step follow their definitions."""
import itertools
import json
import math
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word

BOUNDS = {
    'quick': 'every input/output word pair of 3 samples from a 4-value alphabet x 3 level sets x tap sets, 24-sample streams with every FFE tap index -5..8 and DFE tap index 1..8, symmetric tap pairs up to +-47 on 48-sample and +-40 on 200-sample streams, sliced and given references (also off the levels, records of up to 1100 samples), soft gradient for 3 sigmas; '
             'Mueller-Muller: every pair of words of 2..4 samples over 3 values, weights and tolerances; samples of 5 narrow integer types at full scale; soft gradient up to 24 deviations from the levels; weights 0.05..100',
    'thorough': 'words of 4 samples, FFE taps -10..15, tap pairs up to +-120',
}
ASSUMPTIONS = ['gradients are averages over the samples for which the tap sees the stream, with the documented factor 1/2', 'samples on a decision threshold and timing metrics within 1e-9 of the tolerance are excluded']
LV = {'nrz': [-1., 1.], 'pam4': [-3., -1., 1., 3.], 'ook': [0., 1.]}


def near(v, lv):
    return min(lv, key=lambda l: (abs(l - v), l))


def model(x, y, ref, e, ffe, dfe):
    N = len(x)
    gf = []
    for i in ffe:
        t = [e[n] * x[n - i] for n in range(N) if 0 <= n - i < N]
        gf.append(0.5 * sum(t) / len(t))
    gd = []
    for j in dfe:
        t = [e[n] * ref[n - j] for n in range(j, N)]
        gd.append(-0.5 * sum(t) / len(t))
    return gf, gd


def unpack(ctx, r, ffe, dfe):
    if not ffe and not dfe:
        ctx.check(np.ndim(r) == 0, 'only the loss must be returned', got=r)
        return float(r), [], []
    want = 1 + bool(ffe) + bool(dfe)
    ctx.check(isinstance(r, tuple) and len(r) == want, 'number of returned values', got=r)
    r = list(r)
    return float(r[0]), r[1] if ffe else [], r[-1] if dfe else []


def hard(ctx, x, y, lname, ffe, dfe, given):
    lv = LV[lname]
    ref = given if given is not None else [near(v, lv) for v in y]
    e = [a - b for a, b in zip(y, ref)]
    r = cdsp.rx.ddlms_grad(np.array(x), np.array(y), np.array(lv), np.array(ffe, dtype=int), np.array(dfe, dtype=int), None if given is None else np.array(given))
    ctx.step()
    mse, gf, gd = unpack(ctx, r, ffe, dfe)
    kw = dict(x=x, y=y, levels=lname, ffe=ffe, dfe=dfe, given=given is not None)
    ctx.close(mse, sum(v * v for v in e) / len(e), 'mean squared error', **kw)
    wf, wd = model(x, y, ref, e, ffe, dfe)
    ctx.close(gf, wf, 'FFE gradient', **kw)
    ctx.close(gd, wd, 'DFE gradient', **kw)


def soft(ctx, x, y, lname, sigma, ffe, dfe, given):
    lv = LV[lname]
    ref = given if given is not None else [near(v, lv) for v in y]
    loss, e = 0.0, []
    for v in y:
        g = [math.exp(-(v - l) ** 2 / (2 * sigma ** 2)) for l in lv]
        f = sum(g) / len(lv) / math.sqrt(2 * math.pi * sigma ** 2)
        loss -= math.log(f) / len(y)
        e.append(sum((v - l) / sigma ** 2 * q for l, q in zip(lv, g)) / f)
    r = cdsp.rx.soft_ddlms_grad(np.array(x), np.array(y), np.array(lv), sigma, np.array(ffe, dtype=int), np.array(dfe, dtype=int), None if given is None else np.array(given))
    ctx.step()
    got, gf, gd = unpack(ctx, r, ffe, dfe)
    kw = dict(x=x, y=y, levels=lname, sigma=sigma, ffe=ffe, dfe=dfe)
    ctx.close(got, loss, 'soft loss', **kw)
    wf, wd = model(x, y, ref, e, ffe, dfe)
    ctx.close(gf, wf, 'soft FFE gradient', **kw)
    ctx.close(gd, wd, 'soft DFE gradient', **kw)


def short_words(ctx, lname, n):
    al = (-2.3, -0.4, 0.3, 1.7)
    lv = LV[lname]
    sets = [([], []), ([0], []), ([0, 1, -1], []), ([], [1]), ([0, -1], [1, 2]), ([1, 0], [2])]
    for x in words(al, n):
        for y in words(al, n):
            if any(abs(v - (a + b) / 2) < 1e-9 for v in y for a, b in zip(lv, lv[1:])):
                ctx.skip()
                continue
            for ffe, dfe in sets:
                if max([abs(i) for i in ffe + dfe] or [0]) >= n:
                    continue
                hard(ctx, x, y, lname, ffe, dfe, None)
                hard(ctx, x, y, lname, ffe, dfe, [lv[-1], lv[0], lv[-1], lv[0], lv[0]][:n])
            soft(ctx, x, y, lname, 0.5, [0, 1] if n > 1 else [0], [1] if n > 1 else [], None)
            ctx.state(lname, x, y)
            ctx.trace()
    ctx.sample(x=x, y=y)


def streams(ctx, lname, N, lo, hi):
    lv = LV[lname]
    x = [0.4 * a - 0.55 + 0.03 * i for i, a in enumerate(long_word(4, N))]
    y = [near(0.9 * a - 1.3, lv) + 0.11 * ((i * 5) % 7 - 3) * 0.3 for i, a in enumerate(long_word(4, N))]
    given = [lv[(i * 3 + 1) % len(lv)] for i in range(N)]
    for g in (None, given):
        for i in range(lo, hi + 1):
            hard(ctx, x, y, lname, [i], [], g)
            soft(ctx, x, y, lname, 0.7, [i], [], g)
            for j in range(1, hi + 1):
                hard(ctx, x, y, lname, [i], [j], g)
                ctx.state(lname, i, j, g is None)
        for j in range(1, hi + 1):
            hard(ctx, x, y, lname, [], [j], g)
            soft(ctx, x, y, lname, 1.3, [], [j], g)
        hard(ctx, x, y, lname, list(range(lo, hi + 1)), list(range(1, hi + 1)), g)
        hard(ctx, x, y, lname, [3, -1, 0, 0, 2], [4, 1, 1], g)
        hard(ctx, x, y, lname, [], [], g)
        for s in (0.3, 1, 2.5):
            soft(ctx, x, y, lname, s, list(range(lo, hi + 1)), list(range(1, hi + 1)), g)
            soft(ctx, x, y, lname, s, [], [], g)
        ctx.trace()


def far_taps(ctx, lname, N, reach):
    """Tap positions far from the main one on a longer stream."""
    lv = LV[lname]
    x = [0.4 * a - 0.55 + 0.003 * i for i, a in enumerate(long_word(4, N))]
    y = [near(0.9 * a - 1.3, lv) + 0.11 * ((i * 5) % 7 - 3) * 0.3 for i, a in enumerate(long_word(4, N))]
    for g in (None, [lv[(i * 3 + 1) % len(lv)] for i in range(N)]):
        for i in range(1, reach + 1):
            hard(ctx, x, y, lname, [-i, i], [i], g)
            soft(ctx, x, y, lname, 0.7, [i, -i], [i], g)
            ctx.state(lname, N, i, g is None)
        hard(ctx, x, y, lname, list(range(-reach, reach + 1)), list(range(1, reach + 1)), g)
        soft(ctx, x, y, lname, 0.8, list(range(reach, -reach - 1, -1)), list(range(reach, 0, -1)), g)
        ctx.trace()


def descent(ctx, ffe, dfe):
    """A step against the FFE/DFE gradient lowers the error of the equalizer it was computed for."""
    lv = LV['pam4']
    sym = [lv[i] for i in long_word(4, 300)]
    h = [0.15, 1.0, 0.3, -0.1]
    x = np.convolve(sym, h)[1:301]
    f, d = np.array(ffe), np.array(dfe)
    pre = int(np.argmax(np.abs(f)))

    def run(f, d):
        y = np.convolve(x, f)[pre:pre + 300]
        for j, v in enumerate(d):
            y = y - v * np.concatenate([np.zeros(j + 1), sym])[:300]
        return y
    y = run(f, d)
    fi = np.arange(len(f)) - pre
    dj = np.arange(1, len(d) + 1)
    r = cdsp.rx.ddlms_grad(x, y, np.array(lv), fi, dj, np.array(sym))
    ctx.step()
    y2 = run(f - 1e-3 * np.asarray(r[1]), d - 1e-3 * np.asarray(r[2]))
    a, b = np.mean((y - sym) ** 2), np.mean((y2 - sym) ** 2)
    ctx.check(b < a, 'a step against the gradient does not lower the error', before=a, after=b, ffe=ffe, dfe=dfe)
    ctx.state(json.dumps([ffe, dfe]))
    ctx.trace()


def mm(ctx, n, vals):
    for s in words(vals, n):
        for r in words((-1., 1., 3.), n):
            pre = sum(r[i + 1] * s[i] for i in range(n - 1)) / (n - 1)
            post = sum(r[i] * s[i + 1] for i in range(n - 1)) / (n - 1)
            for wp, wq, tol in ((1, 1, 1e-3), (1, 1, 0.4), (2, 0.5, 1e-3), (0, 1, 1e-3), (1, 0, 0.01)):
                m = post * wq - pre * wp
                if abs(abs(m) - tol) < 1e-9:
                    ctx.skip()
                    continue
                want = 0 if abs(m) < tol else (1 if m > 0 else -1)
                g = cdsp.rx.mueller_muller_step(np.array(s), np.array(r), wp, wq, tol)
                ctx.step()
                ctx.check(int(g) == want and float(g) == want, 'timing step', signal=s, reference=r, weights=(wp, wq), tol=tol, got=g, want=want)
            if abs(abs(post - pre) - 1e-3) > 1e-9:
                g = cdsp.rx.mueller_muller_step(np.array(s), np.array(r))
                ctx.check(int(g) == (0 if abs(post - pre) < 1e-3 else (1 if post > pre else -1)), 'timing step, default weights', signal=s, reference=r, got=g)
                ctx.step()
            ctx.state(s, r)
            ctx.trace()


def mm_fine(ctx, n):
    """Small imbalances and small tolerances: the step has the sign of the exact metric."""
    for k in range(1, 40):
        for e in (1e-7, 1e-5, 3e-4, 7e-4, 1e-3, 1e-2):
            s = [((i * k) % 5 - 2) * 0.5 for i in range(n)]
            s[k % n] += e
            r = [[-3., -1., 1., 3.][(i * i + k) % 4] for i in range(n)]
            pre = sum(r[i + 1] * s[i] for i in range(n - 1)) / (n - 1)
            post = sum(r[i] * s[i + 1] for i in range(n - 1)) / (n - 1)
            m = post - pre
            for base in (0.0, round(m, 2), round(m, 1)):        # a third sample carries the bulk of the imbalance away
                q = list(s)
                if base and r[-2]:
                    q[-1] -= base * (n - 1) / r[-2]
                pre = sum(r[i + 1] * q[i] for i in range(n - 1)) / (n - 1)
                post = sum(r[i] * q[i + 1] for i in range(n - 1)) / (n - 1)
                for tol in (1e-12, 1e-8, 1e-6, 5e-4, 1e-3):
                    mm_ = post - pre
                    if abs(abs(mm_) - tol) < 1e-9 * max(1, abs(mm_)) or abs(mm_) < 1e-10:
                        ctx.skip()
                        continue
                    g = cdsp.rx.mueller_muller_step(np.array(q), np.array(r), 1, 1, tol)
                    ctx.step()
                    want = 0 if abs(mm_) < tol else (1 if mm_ > 0 else -1)
                    ctx.check(int(g) == want, 'timing step of a small imbalance', metric=mm_, tol=tol, got=g, want=want)
                ctx.state('fine', n, k, e, base)
    ctx.trace()


def mm_phase(ctx, osr, tau):
    """A symmetric pulse sampled late shows more postcursor-side correlation than early: the step has the sign of the imbalance."""
    sym = np.array([[-3., -1., 1., 3.][i] for i in long_word(4, 400)])
    t = np.arange(-8, 9)
    p = np.asarray(cdsp.channel.rcos_pulse(1, 8, 0.5, (t + tau).astype(float)))
    x = np.convolve(sym, p)[8:8 + len(sym)]
    g = cdsp.rx.mueller_muller_step(x, sym)
    pre, post = p[7], p[9]
    m = np.dot(sym[:-1], x[1:]) / 399 - np.dot(sym[1:], x[:-1]) / 399
    ctx.check(int(g) == (0 if abs(m) < 1e-3 else int(np.sign(m))), 'timing step of a sampled pulse', tau=tau, metric=m, got=g)
    ctx.step()
    ctx.state('phase', tau)
    ctx.trace()


def narrow(ctx, dt, lname):
    """Samples straight from a converter, in a narrow integer type whose products and sums do not fit into it."""
    top = np.iinfo(dt).max
    lo = 0 if np.dtype(dt).kind == 'u' else -top
    lv = {'nrz': [lo, top], 'pam4': [lo, lo + (top - lo) // 3, top - (top - lo) // 3, top]}[lname]
    N = 40
    x = [int(lo + (top - lo) * ((i * 37 + 11) % 41) / 41) for i in range(N)]
    y = [int(v) for v in (np.array(lv)[np.array(long_word(len(lv), N))])]
    y = [min(top, max(lo, v + (i * 5) % 7 - 3)) for i, v in enumerate(y)]
    ref = [int(v) for v in np.array(lv)[np.array(long_word(len(lv), N + 3))[3:]]]
    ffe, dfe = [0, 1, -1, 3], [1, 2]
    for given in (ref, None):
        r0 = ref if given is not None else [near(v, lv) for v in y]
        e = [a - b for a, b in zip(y, r0)]
        wf, wd = model(x, y, r0, e, ffe, dfe)
        for xa, ya, ra in itertools.product((dt, float), repeat=3):
            r = cdsp.rx.ddlms_grad(np.array(x, dtype=xa), np.array(y, dtype=ya), np.array(lv, dtype=float), np.array(ffe), np.array(dfe), None if given is None else np.array(given, dtype=ra))
            ctx.step()
            kw = dict(types=[np.dtype(t).name for t in (xa, ya, ra)], levels=lname, given=given is not None)
            ctx.close(r[0], sum(v * v for v in e) / N, 'mean squared error of narrow integers', **kw)
            ctx.close(r[1], wf, 'FFE gradient of narrow integers', **kw)
            ctx.close(r[2], wd, 'DFE gradient of narrow integers', **kw)
            ctx.state('narrow', np.dtype(dt).name, lname, str(kw))
    for k in range(1, 30):
        s = [int(lo + (top - lo) * ((i * k * 3 + i * i) % 23) / 23) for i in range(N)]
        pre = sum(ref[i + 1] * s[i] for i in range(N - 1)) / (N - 1)
        post = sum(ref[i] * s[i + 1] for i in range(N - 1)) / (N - 1)
        if abs(post - pre) < 1e-2:
            ctx.skip()
            continue
        for sa, ra in itertools.product((dt, float), repeat=2):
            g = cdsp.rx.mueller_muller_step(np.array(s, dtype=sa), np.array(ref, dtype=ra))
            ctx.step()
            ctx.check(int(g) == (1 if post > pre else -1), 'timing step of narrow integers', types=[np.dtype(t).name for t in (sa, ra)], metric=post - pre, got=int(g))
    ctx.trace()


def mm_weights(ctx, n):
    """Weights above and below one with the metric on both sides of the tolerance."""
    r = [[-3., -1., 1., 3.][(i * i + 1) % 4] for i in range(n)]
    s = [((i * 3) % 5 - 2) * 0.5 for i in range(n)]
    for wp, wq in ((3, 3), (5, 2), (2, 5), (0.2, 0.3), (10, 10), (1, 4), (0.5, 0.5), (0.05, 0.07), (100, 90)):
        pre = wp * sum(r[i + 1] * s[i] for i in range(n - 1)) / (n - 1)
        for m in (1e-4, -1e-4, 9e-4, -9e-4, 1.1e-3, -1.1e-3, 2e-3, -2e-3, 5e-3, -9e-3, 0.02, 0.3, -3.0):
            q = list(s)
            now = wq * sum(r[i] * q[i + 1] for i in range(n - 1)) / (n - 1) - pre
            q[-1] += (m - now) * (n - 1) / (wq * r[-2])          # the last sample enters the postcursor only
            for tol in (None, 1e-3, 1e-2, 1e-5, 1.0):
                g = cdsp.rx.mueller_muller_step(np.array(q), np.array(r), wp, wq, *(() if tol is None else (tol,)))
                ctx.step()
                want = 0 if abs(m) < (1e-3 if tol is None else tol) else (1 if m > 0 else -1)
                ctx.check(int(g) == want, 'weighted timing step', metric=m, weights=(wp, wq), tol=tol, got=g, want=want)
            ctx.state('weights', n, wp, wq, m)
        ctx.trace()


def soft_far(ctx, lname, sigma, reach):
    """Outputs many standard deviations away from every level."""
    lv = LV[lname]
    N = 16
    x = [0.4 * a - 0.55 + 0.03 * i for i, a in enumerate(long_word(4, N))]
    for k in range(1, reach + 1):
        y = [lv[i % len(lv)] + k * sigma * ((-1) ** i if 0 < i % len(lv) < len(lv) - 1 else 1 if i % len(lv) else -1) for i in range(N)]
        ffe, dfe = [0, 1, -1, 2], [1, 3]
        ref = [near(v, lv) for v in y]
        if any(abs(v - (a + b) / 2) < 1e-9 for v in y for a, b in zip(lv, lv[1:])):
            ctx.skip()
            continue
        loss, e = 0.0, []
        for v in y:
            g = [math.exp(-(v - l) ** 2 / (2 * sigma ** 2)) for l in lv]
            f = sum(g) / len(lv) / math.sqrt(2 * math.pi * sigma ** 2)
            loss -= math.log(f) / N
            e.append(sum((v - l) / sigma ** 2 * q for l, q in zip(lv, g)) / f)
        r = cdsp.rx.soft_ddlms_grad(np.array(x), np.array(y), np.array(lv), sigma, np.array(ffe), np.array(dfe))
        ctx.step()
        wf, wd = model(x, y, ref, e, ffe, dfe)
        kw = dict(levels=lname, sigma=sigma, deviations=k)
        ctx.rel(r[0], loss, 'soft loss far from the levels', tol=1e-7, **kw)
        ctx.rel(r[1], wf, 'soft FFE gradient far from the levels', tol=1e-7, **kw)
        ctx.rel(r[2], wd, 'soft DFE gradient far from the levels', tol=1e-7, **kw)
        ctx.state('far', lname, sigma, k)
        ctx.trace()


def long_given(ctx, lname, N):
    """Longer records with a given reference that takes other values than the levels (both gradients, with and without it)."""
    lv = LV[lname]
    y = [lv[i % len(lv)] + 0.31 * math.sin(1.7 * i + 0.4) for i in long_word(4, N)]
    y = [v + 0.02 * (i % 9) - 0.07 for i, v in enumerate(y)]
    x = [0.8 * v + 0.3 * math.cos(0.9 * i) for i, v in enumerate(y)]
    given = [near(v, lv) + (0.25 if i % 7 == 3 else 0.0) for i, v in enumerate(y)]
    for g in (given, [1.5] * N, [near(v, lv) for v in y], None):
        for ffe, dfe in (([0], []), ([-2, 0, 1, 3], [1, 2, 5]), ([], [1])):
            hard(ctx, x, y, lname, ffe, dfe, g)
            for sigma in (0.3, 1.0):
                soft(ctx, x, y, lname, sigma, ffe, dfe, g)
        ctx.state('long', lname, N, g is None or g[3])
        ctx.trace()


CASES = {f.__name__: f for f in (narrow, short_words, streams, far_taps, descent, mm, mm_fine, mm_phase, mm_weights, soft_far, long_given)}


def tasks(tier):
    th = tier == 'thorough'
    for dt in ('int8', 'uint8', 'int16', 'uint16', 'int32'):
        for l in ('nrz', 'pam4'):
            yield 'narrow', dict(dt=dt, lname=l)
    for l in LV:
        for N in (90, 130, 300, 1100) + ((5000,) if th else ()):
            yield 'long_given', dict(lname=l, N=N)
        for n in (1, 2, 3):
            yield 'short_words', dict(lname=l, n=n)
        yield 'streams', dict(lname=l, N=24, lo=-5, hi=8)
        for N, reach in ((48, 47), (200, 40)):
            yield 'far_taps', dict(lname=l, N=N, reach=reach)
        if th:
            yield 'far_taps', dict(lname=l, N=400, reach=120)
            yield 'streams', dict(lname=l, N=64, lo=-10, hi=15)
            yield 'short_words', dict(lname=l, n=4)
    for ffe in ([1.0], [0.0, 1.0, 0.0], [-0.1, 1.0, -0.2], [0.8, 0.1]):
        for dfe in ([0.0], [0.1, 0.0], [0.3, -0.1, 0.0]):
            yield 'descent', dict(ffe=ffe, dfe=dfe)
    for n in (2, 3):
        yield 'mm', dict(n=n, vals=[-1.3, 0.0, 0.2, 1.1])
    yield 'mm', dict(n=4, vals=[-1.3, 0.2, 1.1])
    for n in (5, 30):
        yield 'mm_weights', dict(n=n)
    for l in LV:
        for sigma in (0.01, 0.05, 0.1, 0.5, 2.0):
            yield 'soft_far', dict(lname=l, sigma=sigma, reach=24)
    for n in (5, 17, 100):
        yield 'mm_fine', dict(n=n)
    for k in range(-20, 21):
        yield 'mm_phase', dict(osr=1, tau=k / 40)
