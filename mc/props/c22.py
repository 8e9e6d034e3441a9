"""Eye diagram: every in-range sample is counted exactly once, in its phase column and amplitude bin."""
import itertools
import json
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word
from mc.props.c21 import ref as oversample_ref

BOUNDS = {
    'quick': 'diagram rates 1..8, quantizations 1..257, six full scales from 1e-6 to 1e6: every word of <=5 samples from a 5-value alphabet (two out of range), every single sample position, signals of 1..40 symbols; interpolated diagrams for 7 rate pairs; linear and log scale; a sample on every bin border; signals of up to 140000 samples; default options',
    'thorough': 'words of <=7 samples, signals to 200 symbols',
}
ASSUMPTIONS = ['samples on a bin border may go to either of the two bins; the diagram rate is a multiple of the input rate; the signal holds whole symbols']


def ref(sig, osr, fs, q):
    h = np.zeros((q, osr))
    edge = False
    for i, v in enumerate(sig):
        if -fs <= v <= fs:
            x = (v + fs) / (2 * fs) * q
            if abs(x - round(x)) < 1e-6 and 0 < round(x) < q:
                edge = True
            h[min(q - 1, int(x)), i % osr] += 1
        if min(abs(v - fs), abs(v + fs)) < 1e-9 and v not in (fs, -fs):
            edge = True
    return np.hstack([h, h]), edge


def one(ctx, sig, osr, fs, q, msg, arr=None):
    want, edge = ref(sig, osr, fs, q)
    if edge:
        ctx.skip()
        return
    a = np.array(sig) if arr is None else arr
    e, amp = cdsp.eye_diagram(a, osr, osr, fs, q)
    ctx.step()
    ctx.close(e, want, msg, osr=osr, fs=fs, q=q, signal=sig if len(sig) < 30 else len(sig))
    ctx.close(amp, np.linspace(-fs, fs, q), 'amplitude axis', fs=fs, q=q)
    l, _ = cdsp.eye_diagram(a, osr, osr, fs, q, True)
    ctx.close(l, np.log10(want + 0.1), 'log scale', osr=osr, fs=fs, q=q)
    ctx.step()
    inr = sum(1 for v in sig if -fs <= v <= fs)
    ctx.check(int(round(np.sum(e))) == 2 * inr, 'samples lost or invented', osr=osr, total=float(np.sum(e)), in_range=inr)


def sample_words(ctx, osr, sym, fs, q):
    al = (-1.37 * fs, -0.71 * fs, 0.013 * fs, 0.52 * fs, 1.21 * fs)
    for w in words(al, osr * sym):
        one(ctx, w, osr, fs, q, 'eye diagram')
        ctx.state(osr, fs, q, w)
        ctx.trace()
    ctx.sample(osr=osr, q=q, word=w)


def signals(ctx, osr, fs, q, syms):
    for n in syms:
        N = n * osr
        one(ctx, [fs * ((i * 0.6180339887 * 2.3 + 0.1) % 2.4 - 1.2) for i in range(N)], osr, fs, q, 'eye diagram')
        one(ctx, [fs * 0.911] * N, osr, fs, q, 'constant signal')
        one(ctx, [fs] * N, osr, fs, q, 'signal at full scale')
        one(ctx, [-fs] * N, osr, fs, q, 'signal at negative full scale')
        one(ctx, [fs * 1.5] * N, osr, fs, q, 'signal out of range')
        ctx.state(osr, fs, q, n)
        ctx.trace()
    N = 5 * osr
    for p in range(N):
        s = [2.0 * fs] * N
        s[p] = 0.237 * fs
        one(ctx, s, osr, fs, q, 'a single sample in range')
        ctx.state(osr, fs, q, 'pos', p)


def edges(ctx, osr, fs, q):
    """Samples exactly on the border of two bins are counted once, in one of the two; the outer borders are in range."""
    for k in range(q + 1):
        v = -fs + 2 * fs * k / q
        v = -fs if k == 0 else fs if k == q else v
        for ph in range(osr):
            s = np.full(3 * osr, 7.0 * fs)
            s[osr + ph] = v
            e = np.asarray(cdsp.eye_diagram(s, osr, osr, fs, q)[0])
            ctx.step()
            at = np.argwhere(e)
            ok = e.sum() == 2 and len(at) == 2 and at[0][0] == at[1][0] and at[0][0] in (k - 1, k) and sorted(a[1] for a in at) == [ph, ph + osr]
            ctx.check(ok, 'a sample on a bin border is not counted exactly once', border=k, value=v, osr=osr, q=q, found=at)
            ctx.state(osr, fs, q, k, ph)
    ctx.trace()


def defaults(ctx):
    for osr in (1, 2, 3, 8, 16):
        for n in (1, 7, 40):
            sig = [1.1 * np.sin(0.7391 * i + 0.3) for i in range(n * osr)]
            want, edge = ref(sig, osr, 1, 256)
            if edge:
                ctx.skip()
                continue
            e, amp = cdsp.eye_diagram(np.array(sig), osr, osr)
            ctx.close(e, want, 'eye diagram with default options', osr=osr)
            ctx.close(amp, np.linspace(-1, 1, 256), 'amplitude axis', osr=osr)
            ctx.close(cdsp.eye_diagram(np.array(sig), osr, osr, logscale=True)[0], np.log10(want + 0.1), 'log scale with default options', osr=osr)
            ctx.close(cdsp.eye_diagram(np.array(sig), osr, osr, quantization=31)[0], ref(sig, osr, 1, 31)[0], 'default full scale', osr=osr)
            ctx.close(cdsp.eye_diagram(np.array(sig), osr, osr, fs_value=2)[0], ref(sig, osr, 2, 256)[0], 'default quantization', osr=osr)
            ctx.step(5)
            ctx.state(osr, n)
    ctx.trace()


def long_signals(ctx, osr, n):
    one(ctx, [0.3] * (osr * n), osr, 1.0, 5, 'long constant signal')
    one(ctx, [0.91 * ((-1) ** i) for i in range(osr * n)], osr, 1.0, 4, 'long alternating signal')
    ctx.state(osr, n)
    ctx.trace()


def interpolated(ctx, osr_in, rate, fs, q, sym):
    n = osr_in * sym
    sig = [0.8 * fs * np.cos(0.37 * i + 0.2) + 0.05 * fs * ((i * 7) % 5) for i in range(n)]
    up = oversample_ref(sig, rate, osr_in, 'sinc', 0)
    want, edge = ref(up.tolist(), osr_in * rate, fs, q)
    e, amp = cdsp.eye_diagram(np.array(sig), osr_in, osr_in * rate, fs, q)
    ctx.step()
    ctx.check(np.shape(e) == (q, 2 * osr_in * rate), 'shape of an interpolated diagram', got=np.shape(e))
    e = np.asarray(e)
    ctx.same(e[:, :osr_in * rate], e[:, osr_in * rate:], 'the two unit intervals differ')
    if edge:
        ctx.skip()
    else:
        ctx.close(e, want, 'interpolated eye diagram', osr_in=osr_in, rate=rate, q=q)
    ctx.state(osr_in, rate, q, sym)
    ctx.trace()


CASES = {f.__name__: f for f in (sample_words, signals, edges, defaults, long_signals, interpolated)}


def tasks(tier):
    th = tier == 'thorough'
    yield 'defaults', {}
    for osr, n in ((1, 300), (1, 40000), (2, 35000), (4, 33000), (1, 140000), (1, 4097), (1, 10001), (3, 1367), (4, 4095), (8, 1025), (5, 2001)):
        yield 'long_signals', dict(osr=osr, n=n)
    for osr in (1, 2, 3, 4):
        for fs in (1, 3, 0.5, 2.0):
            for q in (1, 2, 3, 4, 7, 8, 16, 100, 256):
                yield 'edges', dict(osr=osr, fs=fs, q=q)
    for fs in (1e-6, 1e-4, 1e6):
        for q in (2, 7, 256):
            for osr in (1, 2, 3):
                yield 'signals', dict(osr=osr, fs=fs, q=q, syms=[1, 2, 5, 17])
    for fs in (1, 0.37, 3.0):
        for q in (1, 2, 7, 256):
            for osr, sym in ((1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (3, 1), (5, 1)) + (((2, 3), (3, 2)) if th else ()):
                yield 'sample_words', dict(osr=osr, sym=sym, fs=fs, q=q)
        for osr in range(1, 9):
            for q in (1, 3, 16, 100, 256, 257):
                yield 'signals', dict(osr=osr, fs=fs, q=q, syms=list(range(1, 200 if th else 41)))
    for osr_in, rate in ((2, 2), (4, 2), (4, 4), (3, 3), (8, 2), (2, 8), (5, 2), (1, 4), (1, 2)):
        for q in (5, 64, 256):
            for sym in (2, 3, 10, 30):
                yield 'interpolated', dict(osr_in=osr_in, rate=rate, fs=2.0, q=q, sym=sym)
