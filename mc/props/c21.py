"""Fractional delay filters and digital oversampling."""
import math
import json
import numpy as np
import CommDspy as cdsp
from CommDspy.digital_delay import dig_delay_rcos_coeffs
from mc.core import words, long_word
from mc.props.c16 import ift

BOUNDS = {
    'quick': 'Lagrange / sinc / raised-cosine coefficients for order 1..9, forward and backward, every delay k/32 and k/3,5,6,7,10,12 in [0,1], 7 roll-offs and every roll-off that puts a singularity on a tap; oversampling by 1..8 of impulses at every position, of every polynomial basis of degree <= order and of '
             'de Bruijn words, lengths order+1..order+14; coefficients of order 10..40 at 12 delays; signals of 1280 samples oversampled by up to 32 with filters of order up to 25',
    'thorough': 'order to 14, delays k/64, rates to 16; coefficients to order 80',
}
ASSUMPTIONS = ['filter taps are ordered by sample index, index 0 being the sample the delay is measured from', 'order >= 1; floating point tolerance grows with the order of the Lagrange polynomial']


def idx(n, forward):
    if n % 2 == 0:
        return list(range(-(n // 2), n // 2 + 1))
    return list(range(-(n // 2), n // 2 + 2)) if forward else list(range(-(n // 2) - 1, n // 2 + 1))


def lag(n, al, forward):
    ii = idx(n, forward)
    out = []
    for i in ii:
        v = 1.0
        for j in ii:
            if j != i:
                v *= (al - j) / (i - j)
        out.append(v)
    return out


def taps(method, n, al, forward, beta):
    ii = np.array(idx(n, forward))
    if method == 'lagrange':
        return np.array(lag(n, al, forward))
    if method == 'sinc':
        return ift(ii - al, 0.0, False)
    return ift(ii - al, beta, False)


def coefficients(ctx, n, den):
    for forward in (True, False):
        ii = np.array(idx(n, forward))
        grid = {k / den for k in range(den + 1)} | {k / d for d in (3, 5, 6, 7, 10, 12) for k in range(d + 1)}
        for al in sorted(grid):
            c = np.asarray(cdsp.dig_delay_lagrange_coeffs(n, al, forward))
            ctx.close(c, lag(n, al, forward), 'Lagrange coefficients', tol=1e-9, order=n, alpha=al, forward=forward)
            for d in range(0, n + 1):
                got = float(np.dot(c, ii.astype(float) ** d))
                ctx.check(abs(got - al ** d) < 1e-8 * max(1.0, float(np.max(np.abs(ii))) ** d), 'a polynomial is not interpolated exactly', order=n, degree=d, alpha=al, got=got, want=al ** d)
            s = np.asarray(cdsp.dig_delay_sinc_coeffs(n, al, forward))
            ctx.close(s, ift(ii - al, 0.0, False), 'sinc coefficients', tol=1e-7, order=n, alpha=al, forward=forward)
            sing = {1 / (2 * abs(i - al)) for i in ii if abs(i - al) >= 0.5}      # roll-offs with a removable singularity on a tap
            for beta in sorted({0.0, 0.1, 0.25, 0.3, 0.5, 0.75, 1.0} | sing):
                r = np.asarray(dig_delay_rcos_coeffs(n, al, forward, beta))
                ctx.close(r, ift(ii - al, beta, False), 'raised cosine coefficients', tol=1e-7, order=n, alpha=al, forward=forward, beta=beta)
                ctx.step()
            ctx.step(2)
            ctx.state(n, forward, al)
            if forward:
                ctx.same(cdsp.dig_delay_lagrange_coeffs(n, al), c, 'default direction', order=n)
                ctx.same(cdsp.dig_delay_sinc_coeffs(n, al), s, 'default direction', order=n)
                ctx.close(dig_delay_rcos_coeffs(n, al), ift(ii - al, 0.5, False), 'default direction and roll-off', tol=1e-7, order=n)
        z = (ii == 0).astype(float)
        ctx.close(cdsp.dig_delay_lagrange_coeffs(n, 0.0, forward), z, 'no delay must be transparent', order=n)
        ctx.close(cdsp.dig_delay_sinc_coeffs(n, 0.0, forward), z, 'no delay must be transparent', order=n)
        ctx.trace()
    ctx.sample(order=n, alpha=al, taps=c)


def ref(x, osr, n, method, beta):
    pre, post = n // 2, n // 2 + n % 2
    m = len(x) - pre - post
    out = np.zeros((m, osr))
    ii = idx(n, True)
    xx = np.asarray(x, dtype=float)
    for a in range(osr):
        c = (np.array(ii) == 0).astype(float) if a == 0 else taps(method, n, a / osr, True, beta)
        for k in range(m):
            out[k, a] = sum(cv * xx[pre + k + i] for cv, i in zip(c, ii))
    return out.reshape(-1)


def over(ctx, x, osr, n, method, beta, msg, **kw):
    r = cdsp.digital_oversample(np.array(x), osr, n, method, beta) if method == 'rcos' else cdsp.digital_oversample(np.array(x), osr, n, method)
    y, t = r[0], r[1]
    want = ref(x, osr, n, method, beta)
    ctx.step()
    ctx.close(y, want, msg, tol=1e-7, osr=osr, order=n, method=method, beta=beta, **kw)
    ctx.close(t, np.arange(len(want)) / osr, 'time axis', osr=osr, order=n, length=len(x))
    return np.asarray(y)


def oversample(ctx, osr, n, method, beta):
    for L in range(n + 1, n + 15):
        x = [0.7 * a - 1.0 + 0.01 * i for i, a in enumerate(long_word(4, L))]
        over(ctx, x, osr, n, method, beta, 'oversampling', length=L)
        ctx.state(osr, n, method, beta, L)
    L = n + 8
    for p in range(L):
        x = [0.0] * L
        x[p] = 1.0
        over(ctx, x, osr, n, method, beta, 'oversampling of an impulse', position=p)
        ctx.state(osr, n, method, beta, 'imp', p)
    over(ctx, [(i * 5) % 7 for i in range(L)], osr, n, method, beta, 'oversampling of integers')
    over(ctx, long_word(4, 200), osr, n, method, beta, 'oversampling of a long signal')
    if method == 'lagrange':
        for d in range(n + 1):
            x = [((i - L / 2) / L) ** d for i in range(L)]
            y = over(ctx, x, osr, n, method, beta, 'oversampling of a polynomial')
            tt = np.arange(len(y)) / osr + n // 2
            ctx.close(y, ((tt - L / 2) / L) ** d, 'a polynomial is not oversampled exactly', tol=1e-7, osr=osr, order=n, degree=d)
    if method == 'rcos' and beta == 0:
        x = [0.3 * a - 0.2 for a in long_word(4, 40)]
        ctx.close(cdsp.digital_oversample(np.array(x), osr, n, 'rcos')[0], ref(x, osr, n, 'rcos', 0), 'default roll-off', tol=1e-7, osr=osr, order=n)
    ctx.trace()
    ctx.sample(osr=osr, order=n, method=method)


def high_order(ctx, n):
    for forward in (True, False):
        ii = np.array(idx(n, forward))
        for al in sorted({k / 8 for k in range(9)} | {0.1, 1 / 3, 0.9, 0.999}):
            want = np.array(lag(n, al, forward))
            c = np.asarray(cdsp.dig_delay_lagrange_coeffs(n, al, forward))
            ctx.check(c.shape == want.shape and bool(np.all(np.abs(c - want) <= 1e-10 * max(1.0, np.max(np.abs(want))))), 'Lagrange coefficients of a high order', order=n, alpha=al, forward=forward, got=c, want=want)
            ctx.close(cdsp.dig_delay_sinc_coeffs(n, al, forward), ift(ii - al, 0.0, False), 'sinc coefficients', tol=1e-7, order=n, alpha=al, forward=forward)
            ctx.close(dig_delay_rcos_coeffs(n, al, forward, 0.35), ift(ii - al, 0.35, False), 'raised cosine coefficients', tol=1e-7, order=n, alpha=al, forward=forward)
            ctx.step(3)
            ctx.state('high', n, forward, al)
    ctx.trace()


def large(ctx, osr, n, method, beta):
    over(ctx, [v - 1.5 + 0.01 * (i % 7) for i, v in enumerate(long_word(4, 256) * 5)], osr, n, method, beta, 'oversampling of a long signal')
    ctx.state('large', osr, n, method, beta)
    ctx.trace()


CASES = {f.__name__: f for f in (coefficients, oversample, high_order, large)}


def tasks(tier):
    th = tier == 'thorough'
    for n in range(10, (80 if th else 40) + 1):
        yield 'high_order', dict(n=n)
    for osr in (2, 3, 16, 32):
        for n, method in ((1, 'lagrange'), (3, 'lagrange'), (5, 'lagrange'), (10, 'sinc'), (25, 'sinc'), (10, 'rcos')):
            yield 'large', dict(osr=osr, n=n, method=method, beta=0.5)
    for n in range(1, (14 if th else 9) + 1):
        yield 'coefficients', dict(n=n, den=64 if th else 32)
        for osr in range(1, (16 if th else 8) + 1):
            for m, b in (('lagrange', 0), ('sinc', 0), ('rcos', 0), ('rcos', 0.5), ('rcos', 0.25), ('rcos', 0.3), ('rcos', 1.0)):
                yield 'oversample', dict(osr=osr, n=n, method=m, beta=b)
