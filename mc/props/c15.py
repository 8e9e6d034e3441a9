"""Pulse shaping, noise-free channel and CTLE are linear time-invariant streams that can be cut anywhere."""
import cmath
import itertools
import json
import math
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word, compositions, split, forms
from mc.props.c14 import ref as difference_equation

BOUNDS = {
    'quick': '5 pulses x osr 1..6 x span 1..4 x 3 roll-offs: every symbol word of <=4 symbols (PAM4), every chunking of 6 symbols; channel: 12 coefficient sets incl. scalar/list/array denominators, every word of <=5 samples, every '
             'chunking of 7 samples; CTLE: 1..2 zeros x 1..5 poles x signs x 4 gains x fs x osr: response compared on 24 frequencies, DC gain, stability, every chunking of 7 samples; oversampling to 64, spans to 50, complex symbols, signals of up to 144000 samples, scaled by 1e-12..1e9; channels of order up to 64, repeated poles and zeros',
    'thorough': 'symbol words of <=5, osr to 9, span to 8, every chunking of 9',
}
ASSUMPTIONS = ['reference model: scalar convolution / difference equation, tolerance 1e-9 (1e-7 for CTLE responses)', 'chunks are non-empty; jitter is checked for its vanishing-sigma limit only',
               'CTLE corner frequencies enter the analog prototype as rad/s, as the code has always done']
PULSES = ('rect', 'sinc', 'rcos', 'rrc', 'imp')


def pulse(name, osr, span, beta):
    ch = cdsp.channel
    return {'rect': lambda: ch.rect_pulse(osr, span), 'sinc': lambda: ch.sinc_pulse(osr, span), 'rcos': lambda: ch.rcos_pulse(osr, span, beta),
            'rrc': lambda: ch.rrc_pulse(osr, span, beta), 'imp': lambda: np.array([1.0])}[name]()


def conv_ref(sym, p, osr):
    up = []
    for s in sym:
        up += [s] + [0] * (osr - 1)
    out = np.zeros(len(up), dtype=np.result_type(np.asarray(sym), float))
    for i, s in enumerate(up):
        if s != 0:
            k = min(len(p), len(up) - i)
            out[i:i + k] += s * np.asarray(p[:k])
    return out


def shape_words(ctx, name, osr, span, beta, length):
    p = np.asarray(pulse(name, osr, span, beta), dtype=float)
    for w in words((-3, -1, 1, 3), length):
        y, zo = cdsp.channel.pulse_shape(np.array(w), osr=osr, span=span, pulse=name, beta=beta)
        ctx.step()
        ctx.close(y, conv_ref(w, p, osr), 'pulse shaping is not the convolution of the upsampled symbols with the pulse', pulse=name, osr=osr, span=span, word=w)
        ctx.state(name, osr, span, beta, w)
        ctx.trace()
    ctx.sample(pulse=name, osr=osr, span=span, word=w)


def shape_stream(ctx, name, osr, span, beta, n):
    p = np.asarray(pulse(name, osr, span, beta), dtype=float)
    sy = [1.5 * a - 2.2 + 0.1 * i for i, a in enumerate(long_word(4, n))]
    want = conv_ref(sy, p, osr)
    for parts in compositions(n):
        z, out = None, []
        for c in split(sy, parts):
            y, z = cdsp.channel.pulse_shape(np.array(c), osr=osr, span=span, pulse=name, beta=beta, zi=z)
            out.append(y)
            ctx.step()
        ctx.close(np.concatenate(out), want, 'chunked pulse shaping differs from the whole', pulse=name, osr=osr, span=span, parts=parts)
        ctx.state(name, osr, span, beta, parts)
        ctx.trace()
    y, z = cdsp.channel.pulse_shape(np.array(sy), osr=osr, span=span, pulse=name, beta=beta)
    # flushing with zeros brings out the whole tail
    y2, _ = cdsp.channel.pulse_shape(np.zeros(2 * span + 1), osr=osr, span=span, pulse=name, beta=beta, zi=z)
    ctx.close(np.concatenate([y, y2]), conv_ref(sy + [0] * (2 * span + 1), p, osr), 'tail of the pulse', pulse=name, osr=osr, span=span)
    for N in (1, 2, 37, 100, 257):
        sy = [1.5 * a - 2.2 for a in long_word(4, N)]
        y, _ = cdsp.channel.pulse_shape(np.array(sy), osr, span, name, beta)
        ctx.close(y, conv_ref(sy, p, osr), 'pulse shaping', pulse=name, osr=osr, span=span, n=N)
        ctx.step()
    for fn, a in forms(np.array(sy[:20])):
        y, _ = cdsp.channel.pulse_shape(a, osr, span, name, beta)
        ctx.close(y, conv_ref(sy[:20], p, osr), f'layout {fn}', pulse=name, osr=osr, span=span)
    if N > 20 and name != 'imp':
        y, z0 = cdsp.channel.pulse_shape(np.array(sy[:60]), osr, span, name, beta)
        yj, zj = cdsp.channel.pulse_shape(np.array(sy[:60]), osr, span, name, beta, rj_sigma=1e-7)
        if name != 'rect':
            ctx.close(yj, y, 'vanishing jitter must vanish', tol=1e-4, pulse=name, osr=osr, span=span)
        ctx.close(zj, z0, 'the jitter must not enter the memory', pulse=name, osr=osr, span=span)
        ctx.step(2)


def shape_defaults(ctx):
    """Every parameter left out behaves as its documented default."""
    doc = dict(osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0, zi=None)
    for w in words((-3, 1, 3), 3):
        for n in range(len(doc) + 1):
            for given in itertools.combinations(doc, n):
                for osr, span, name, beta in ((3, 2, 'rrc', 0.25), (2, 3, 'rcos', 0.75), (4, 1, 'sinc', 0.1)):
                    val = dict(osr=osr, span=span, pulse=name, beta=beta, rj_sigma=0, zi=None)
                    kw = {k: val[k] for k in given}
                    full = {**doc, **kw}
                    y, _ = cdsp.channel.pulse_shape(np.array(w), **kw)
                    p = np.asarray(pulse(full['pulse'], full['osr'], full['span'], full['beta']), dtype=float)
                    ctx.close(y, conv_ref(w, p, full['osr']), 'a default of pulse_shape differs', given=kw, word=w)
                    ctx.step()
                    ctx.state('defaults', w, given, osr)
    ctx.trace()


COEF = [([1.], [1.]), ([0.5], [2.]), ([1., 0.5], [1.]), ([0.25, -0.5, 1.], [1.]), ([1.], [1., -0.5]), ([1., 0.5], [1., 0.25]), ([0.5, 0.25, -1.], [1., -0.5]), ([1., 2.], [2., 0.5, -0.25]),
        ([1., 0., 0.5, -0.25, 0.125], [4., 1.]), ([0., 0., 1.], [1.]), ([0.3], [1., 0.2, -0.1, 0.05, 0.3]), ([0.1, 0.2, 0.3], [0.5, 0.1, -0.2, 0.1])]


def den_forms(a):
    yield 'array', np.array(a)
    yield 'list', list(a)
    if len(a) == 1:
        yield 'scalar', a[0]
        if a[0] == int(a[0]):
            yield 'int', int(a[0])


def channel_words(ctx, b, a, length):
    for w in words((-3., -0.5, 0.75, 2.), length):
        want = difference_equation(w, b, a)
        for nm, den in den_forms(a):
            y, zo = cdsp.channel.awgn_channel(np.array(w), np.array(b), den)
            ctx.step()
            ctx.close(y, want, f'noise-free channel ({nm} denominator)', b=b, a=a, word=w)
        ctx.state(json.dumps([b, a]), w)
        ctx.trace()
    ctx.sample(b=b, a=a, word=w)


def channel_stream(ctx, b, a, n):
    x = [0.7 * v - 1.1 + 0.05 * i for i, v in enumerate(long_word(4, n))]
    want = difference_equation(x, b, a)
    for parts in compositions(n):
        for nm, den in den_forms(a):
            z, out = None, []
            for c in split(x, parts):
                y, z = cdsp.channel.awgn_channel(np.array(c), b, den, zi=z)
                out.append(y)
                ctx.step()
            ctx.close(np.concatenate(out), want, f'chunked channel differs from the whole ({nm} denominator)', b=b, a=a, parts=parts)
        ctx.state(json.dumps([b, a]), parts)
        ctx.trace()
    for N in (1, 3, 64, 255, 1000):
        x = [0.7 * v - 1.1 for v in long_word(4, N)]
        ctx.close(cdsp.channel.awgn_channel(np.array(x), np.array(b), np.array(a))[0], difference_equation(x, b, a), 'noise-free channel', b=b, a=a, n=N)
        ctx.step()


def roots(sign, vals):
    return [s * v for s, v in zip(itertools.cycle(sign), vals)]


def ctle_filter(ctx, zeros, poles, dc, fs, osr):
    base = None
    for sz in ([1], [-1], [1, -1]):
        for sp in ([1], [-1], [-1, 1]):
            b, a = cdsp.rx.get_ctle_filter(roots(sz, zeros), roots(sp, poles), dc, fs, osr)
            ctx.step()
            b, a = np.atleast_1d(np.asarray(b, dtype=float)), np.atleast_1d(np.asarray(a, dtype=float))
            ctx.check(np.all(np.isfinite(b)) and np.all(np.isfinite(a)), 'coefficients are not finite', zeros=zeros, poles=poles, b=b, a=a)
            r = np.roots(a)
            ctx.check(np.all(np.abs(r) < 1), 'the CTLE is unstable', zeros=roots(sz, zeros), poles=roots(sp, poles), poles_z=r)
            g = np.sum(b) / np.sum(a)
            ctx.close(g, 10 ** (dc / 20), 'DC gain', tol=1e-7, zeros=zeros, poles=poles, dc=dc)
            for k in range(1, 25):
                w = math.pi * k / 25
                z1 = cmath.exp(-1j * w)
                h = sum(c * z1 ** i for i, c in enumerate(b)) / sum(c * z1 ** i for i, c in enumerate(a))
                s = 1j * 2 * fs * osr * math.tan(w / 2)
                hc = 10 ** (dc / 20)
                for z in zeros:
                    hc *= 1 + s / z
                for p in poles:
                    hc /= 1 + s / p
                ctx.close(abs(h - hc) / max(abs(hc), 1e-3), 0.0, 'frequency response differs from the analog prototype (bilinear)', tol=1e-6, zeros=roots(sz, zeros), poles=roots(sp, poles), k=k)
            ctx.state(json.dumps([zeros, poles, dc, fs, osr, sz, sp]))
    ctx.trace()
    ctx.sample(zeros=zeros, poles=poles, b=b, a=a)


def ctle_stream(ctx, zeros, poles, dc, fs, osr, n):
    b, a = cdsp.rx.get_ctle_filter(zeros, poles, dc, fs, osr)
    b, a = np.atleast_1d(b), np.atleast_1d(a)
    x = [0.7 * v - 1.1 + 0.05 * i for i, v in enumerate(long_word(4, n))]
    want = difference_equation(x, list(b), list(a))
    y = cdsp.rx.ctle(np.array(x), zeros, poles, dc, fs, osr)
    y = y[0] if isinstance(y, tuple) else y
    ctx.close(y, want, 'CTLE is not the filter it designs', zeros=zeros, poles=poles)
    for parts in compositions(n):
        z, out = np.zeros(max(len(a), len(b)) - 1), []
        for c in split(x, parts):
            y, z = cdsp.rx.ctle(np.array(c), zeros, poles, dc, fs, osr, zi=z)
            out.append(y)
            ctx.step()
        ctx.close(np.concatenate(out), want, 'chunked CTLE differs from the whole', zeros=zeros, poles=poles, parts=parts)
        ctx.state(json.dumps([zeros, poles, dc, fs, osr]), parts)
        ctx.trace()


def large(ctx, name, osr, span, n, tol=1e-8):
    """Long signals, long pulses, high oversampling; also with complex symbols."""
    sy = [1.5 * a - 2.2 + 0.01 * (i % 13) for i, a in enumerate((long_word(4, 256) * (n // 256 + 1))[:n])]
    for beta in (0.3,) if name in ('rcos', 'rrc') else (0.5,):
        p = np.asarray(pulse(name, osr, span, beta), dtype=float)
        for v in (np.array(sy), np.array(sy) * (1 + 0.5j)):
            up = np.zeros(n * osr, dtype=v.dtype)
            up[::osr] = v
            want = np.zeros(n * osr, dtype=v.dtype)
            for i, c in enumerate(p):
                if i < len(want):
                    want[i:] += c * up[:len(want) - i]
            y, z = cdsp.channel.pulse_shape(v, osr, span, name, beta)
            ctx.close(y, want, 'long signal', tol=tol, pulse=name, osr=osr, span=span, n=n)
            zz, out = None, []
            for c in split(v, [n // 3, 1, n - n // 3 - 1]):
                o, zz = cdsp.channel.pulse_shape(np.array(c), osr, span, name, beta, zi=zz)
                out.append(o)
            ctx.close(np.concatenate(out), want, 'long signal in chunks', tol=tol, pulse=name, osr=osr, span=span, n=n)
            ctx.close(zz, z, 'memory after chunks', tol=1e-8, pulse=name, osr=osr, span=span, n=n)
            ctx.step(4)
    ctx.state('large', name, osr, span, n)
    ctx.trace()


def large_channel(ctx, order, n):
    b = [0.9 ** i * (-1) ** (i // 2) / (1 + i % 3) for i in range(order + 1)]
    a = [1.0] + [0.4 / (order + i) * (-1) ** i for i in range(1, order + 1)]
    base = [0.7 * v - 1.1 for v in long_word(4, 256)]
    for bb, aa in ((b, a), (b, [1.0]), (b[:1], a), (b, [2.5, 0.5]), (b[:2], a)):
        for cplx in (False, True):
            x = [(v + 0.01 * (i % 7)) * ((1 + 0.25j) if cplx else 1) for i, v in enumerate((base * (n // 256 + 1))[:n])]
            want = difference_equation(x, bb, aa)
            ctx.close(cdsp.channel.awgn_channel(np.array(x), np.array(bb), np.array(aa))[0], want, 'long signal', tol=1e-8, order=order, n=n)
            z, out = None, []
            for c in split(x, [n // 3, 1, n - n // 3 - 1]):
                y, z = cdsp.channel.awgn_channel(np.array(c), np.array(bb), np.array(aa), zi=z)
                out.append(y)
            ctx.close(np.concatenate(out), want, 'long signal in chunks', tol=1e-8, order=order, n=n)
            ctx.step(4)
    ctx.state('large_channel', order, n)
    ctx.trace()


def scales(ctx):
    """Linear at every signal level."""
    sy = np.array([1.5 * a - 2.2 + 0.1 * (i % 5) for i, a in enumerate(long_word(4, 40))])
    for k in (1e-12, 1e-9, 1e-4, 1e5, 1e9):
        for name in PULSES:
            for osr, span in ((1, 2), (4, 3), (7, 5)):
                p = np.asarray(pulse(name, osr, span, 0.3), dtype=float)
                want = conv_ref(sy.tolist(), p, osr) * k
                y, z = cdsp.channel.pulse_shape(sy * k, osr, span, name, 0.3)
                ctx.rel(y, want, 'scaled symbols', pulse=name, osr=osr, span=span, scale=k)
                y1, z1 = cdsp.channel.pulse_shape(sy[:17] * k, osr, span, name, 0.3)
                y2, _ = cdsp.channel.pulse_shape(sy[17:] * k, osr, span, name, 0.3, zi=z1)
                ctx.rel(np.concatenate([y1, y2]), want, 'scaled symbols in chunks', pulse=name, osr=osr, span=span, scale=k)
                ctx.step(3)
                ctx.state('scale', name, osr, span, k)
        for b, a in COEF:
            want = np.array(difference_equation(sy.tolist(), b, a)) * k
            ctx.rel(cdsp.channel.awgn_channel(sy * k, np.array(b), np.array(a))[0], want, 'scaled channel input', b=b, a=a, scale=k)
            y1, z1 = cdsp.channel.awgn_channel(sy[:9] * k, np.array(b), np.array(a))
            y2, _ = cdsp.channel.awgn_channel(sy[9:] * k, np.array(b), np.array(a), zi=z1)
            ctx.rel(np.concatenate([y1, y2]), want, 'scaled channel input in chunks', b=b, a=a, scale=k)
            ctx.step(3)
        for zs, ps in (([0.3e9], [0.5e9, 1.1e9]), ([0.2e9], [0.6e9])):
            one = cdsp.rx.ctle(sy, zs, ps, -3, 1e9, 4)
            out = cdsp.rx.ctle(sy * k, zs, ps, -3, 1e9, 4)
            ctx.rel(out[0] if isinstance(out, tuple) else out, np.asarray(one[0] if isinstance(one, tuple) else one) * k, 'scaled CTLE input', scale=k)
            ctx.step(2)
    ctx.trace()


CASES = {f.__name__: f for f in (shape_words, shape_stream, shape_defaults, channel_words, channel_stream, ctle_filter, ctle_stream, large, large_channel, scales)}


def tasks(tier):
    th = tier == 'thorough'
    for name in PULSES:
        for osr, span, n in ((32, 8, 200), (16, 16, 300), (3, 50, 200), (1, 4, 20000), (4, 3, 6000), (64, 2, 100)):
            yield 'large', dict(name=name, osr=osr, span=span, n=n)
    for order, n in ((3, 8000), (20, 800), (64, 300)):
        yield 'large_channel', dict(order=order, n=n)
    yield 'shape_defaults', {}
    yield 'scales', {}
    for name in PULSES:
        for osr, span, n in ((1, 4, 70000), (4, 2, 20000), (16, 3, 9000)):
            yield 'large', dict(name=name, osr=osr, span=span, n=n, tol=1e-11)
    for name in PULSES:
        betas = (0.0, 0.25, 0.5, 1.0) if name in ('rcos', 'rrc') else (0.5,)
        for beta in betas:
            for osr in range(1, (9 if th else 6) + 1):
                for span in (1, 2, 3, 4) + ((8,) if th else ()):
                    if osr in (1, 2, 3, 4) and span in (1, 2):
                        for n in range(1, (5 if th else 4) + 1):
                            yield 'shape_words', dict(name=name, osr=osr, span=span, beta=beta, length=n)
                    yield 'shape_stream', dict(name=name, osr=osr, span=span, beta=beta, n=8 if th else 6)
    for b, a in COEF:
        for n in range(1, (6 if th else 5) + 1):
            yield 'channel_words', dict(b=b, a=a, length=n)
        yield 'channel_stream', dict(b=b, a=a, n=9 if th else 7)
    GZ = ([0.3], [0.1, 0.7], [0.2, 0.2])
    GP = ([0.5], [0.4, 1.1], [0.2, 0.6, 1.4], [0.6, 0.6], [0.3, 0.9, 0.9], [0.4, 0.4, 0.4], [0.3, 0.5, 0.8, 1.3], [0.2, 0.4, 0.7, 1.1, 1.6])
    for zs in GZ:
        for ps in GP:
            if len(zs) > len(ps):
                continue
            for fs, osr in ((1.0, 1), (1.0, 4), (1e9, 1), (53.125e9, 16), (2.5e9, 8)):
                z, p = [v * fs for v in zs], [v * fs for v in ps]
                for dc in (0, -6, 3.5, -20):
                    yield 'ctle_filter', dict(zeros=z, poles=p, dc=dc, fs=fs, osr=osr)
                yield 'ctle_stream', dict(zeros=z, poles=p, dc=-3, fs=fs, osr=osr, n=9 if th else 7)
