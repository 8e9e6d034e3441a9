"""The pulses are the documented ones at every sample, including their removable singularities."""
import math
import numpy as np
import CommDspy as cdsp
from mc.core import words

BOUNDS = {
    'quick': 'rect/sinc/rcos/rrc for osr 1..20,32 x span 1..10 x roll-off in multiples of 0.05 and the roll-offs that put a singularity on a sample (osr/(2k), osr/(4k)); custom time axes around every singularity',
    'thorough': 'osr to 48, span to 20, roll-off in multiples of 0.01',
}
ASSUMPTIONS = ['oracle: inverse Fourier transform of the (root) raised cosine spectrum by Gauss-Legendre quadrature, tolerance 1e-7', 'time axes are floating point arrays']
_X, _W = np.polynomial.legendre.leggauss(220)


def ift(t, beta, root):
    """2*integral_0^(1+beta)/2 H(f) cos(2 pi f t) df"""
    t = np.asarray(t, dtype=float).reshape(-1)
    f1, f2 = (1 - beta) / 2, (1 + beta) / 2
    out = np.where(np.abs(t) < 1e-12, 2 * f1, np.sin(2 * np.pi * f1 * t) / np.where(np.abs(t) < 1e-12, 1, np.pi * t))
    if beta > 0:
        f = f1 + (f2 - f1) * (_X + 1) / 2
        h = 0.5 * (1 + np.cos(np.pi / beta * (f - f1)))
        if root:
            h = np.sqrt(h)
        out = out + 2 * (np.cos(2 * np.pi * np.outer(t, f)) @ (_W * h)) * (f2 - f1) / 2
    return out


def grid(osr, span):
    return np.arange(-osr * span, osr * span) / osr


def family(ctx, osr, spans, betas):
    ch = cdsp.channel
    for span in spans:
        k = np.arange(-osr * span, osr * span)
        t = grid(osr, span)
        ctx.same(ch.rect_pulse(osr, span), ((2 * k < osr) & (2 * k >= -osr)).astype(float), 'rect pulse', osr=osr, span=span)
        ctx.close(ch.sinc_pulse(osr, span), ift(t, 0.0, False), 'sinc pulse', tol=1e-7, osr=osr, span=span)
        ctx.step(2)
        ctx.state('rect', osr, span)
        for beta in betas:
            for nm, fn, root in (('rcos', ch.rcos_pulse, False), ('rrc', ch.rrc_pulse, True)):
                p = np.asarray(fn(osr, span, beta))
                ctx.step()
                ctx.check(p.shape == (2 * span * osr,) and np.all(np.isfinite(p)), f'{nm}: length or not finite', osr=osr, span=span, beta=beta, got=p)
                want = ift(t, beta, root)
                err = np.abs(p - want)
                if not np.all(err < 1e-7):
                    i = int(np.argmax(err))
                    ctx.fail(f'{nm} pulse', osr=osr, span=span, beta=beta, t=float(t[i]), got=float(p[i]), want=float(want[i]))
                ctx.state(nm, osr, span, beta)
                if not root:
                    c = p[k % osr == 0]
                    ctx.close(c, (k[k % osr == 0] == 0).astype(float), 'raised cosine is not a Nyquist pulse', tol=1e-9, osr=osr, span=span, beta=beta)
        ctx.trace()
    ctx.sample(osr=osr, span=span, beta=beta)


def custom(ctx, betas):
    ch = cdsp.channel
    for beta in betas:
        pts = [0.0, 1.0, -1.0, 0.5, -0.5, 0.3, 2.25, 3.7, -6.1, 0.01, -0.005, 0.002, -0.0011, 1e-4]
        for s in ([1 / (2 * beta), 1 / (4 * beta)] if beta > 0 else []):
            for d in (0.0, 1e-3, -1e-3, 1e-2, 2e-5, -2e-5):
                pts += [s + d, -s + d]
        t = np.array(pts)
        for nm, fn, root in (('rcos', ch.rcos_pulse, False), ('rrc', ch.rrc_pulse, True)):
            for perm in (t, t[::-1].copy()):
                ctx.close(fn(1, 1, beta, perm), ift(perm, beta, root), f'{nm} on a custom time axis', tol=1e-6, beta=beta)
                ctx.step()
            for v in t:
                ctx.close(fn(4, 2, beta, np.array([v])), ift([v], beta, root), f'{nm} at one time', tol=1e-6, beta=beta, t=v)
                ctx.step()
                ctx.state(nm, beta, float(v))
            whole = np.arange(-9, 10)
            ctx.close(fn(1, 1, beta, whole), ift(whole, beta, root), f'{nm} on a whole-number time axis', tol=1e-6, beta=beta)
            a, b = np.asarray(fn(1, 1, beta, t)), np.asarray(fn(1, 1, beta, -t))
            ctx.close(a, b, f'{nm} is not symmetric', tol=1e-9, beta=beta)
        ctx.close(ch.sinc_pulse(1, 1, t), ift(t, 0.0, False), 'sinc on a custom time axis', tol=1e-7)
        ctx.same(ch.rect_pulse(1, 1, t), ((t < 0.5) & (t >= -0.5)).astype(float), 'rect on a custom time axis')
        ctx.trace()


def matched(ctx, osr, beta):
    """Root raised cosine against itself is the raised cosine (within the truncation)."""
    span = 64
    p = np.asarray(cdsp.channel.rrc_pulse(osr, span, beta))
    q = np.asarray(cdsp.channel.rcos_pulse(osr, span, beta))
    c = np.convolve(p, p[::-1]) / osr
    mid = len(p) - 1
    for k in range(-4 * osr, 4 * osr + 1):
        ctx.close(c[mid + k], q[len(q) // 2 + k], 'rrc matched with itself is not rcos', tol=2e-3, osr=osr, beta=beta, k=k)
    ctx.step(2)
    ctx.state('matched', osr, beta)
    ctx.trace()


CASES = {f.__name__: f for f in (family, custom, matched)}


def tasks(tier):
    th = tier == 'thorough'
    for osr in list(range(1, 49 if th else 21)) + [32, 64]:
        betas = {round(i * (0.01 if th else 0.05), 4) for i in range(0, 101 if th else 21)}
        for k in range(1, 12 * osr + 1):
            for b in (osr / (2 * k), osr / (4 * k)):
                if 0 < b <= 1 and (th or osr <= 8 or k % 7 == 0):
                    betas.add(b)
        betas = sorted(betas)
        spans = list(range(1, 21 if th else 11)) if osr <= 8 else [1, 2, 3, 8, 10]
        for i in range(0, len(betas), 24):
            yield 'family', dict(osr=osr, spans=spans, betas=betas[i:i + 24])
    bl = [round(i * 0.01, 4) for i in range(0, 101)]
    for i in range(0, 101, 20):
        yield 'custom', dict(betas=bl[i:i + 20])
    for osr in (2, 3, 4, 8):
        for beta in (0.2, 0.35, 0.5, 0.75, 1.0):
            yield 'matched', dict(osr=osr, beta=beta)
