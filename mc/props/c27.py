"""Noise and jitter: the disturbance has the requested strength, for every disturbance word the random source may produce."""
import itertools
import numpy as np
from scipy.interpolate import CubicSpline
import CommDspy as cdsp
from mc.core import words, long_word

BOUNDS = {
    'quick': 'random source replaced by an enumerated one: every noise word over {-1,0,1} of 6 samples x 6 signals x 11 SNR values (-60..150 dB); long signals of 20..5000 samples, 1-D and 2-D, with offset, amplitudes 1e-9..1e9, -60..200 dB; channel + noise for 5 filters with and without memory; '
             'jitter: every displacement word over {-1,0,1} of 5 symbols x 4 pulses x 3 oversampling rates x deviations from 1e-6 to 0.8 symbols, jittered chunks of a stream; no randomness unless asked for, fresh randomness per call',
    'thorough': 'noise words of 8 samples, jitter words of 7 symbols',
}
ASSUMPTIONS = ['the noise power estimate may use the biased or unbiased variance (tolerance 2/(N-1))',
               'an implementation that draws its noise from elsewhere than numpy is judged on 400000 samples with a tolerance of 2 percent instead']


class Source:
    """Stands in for numpy's random source: hands out the chosen word (cyclically)."""
    NAMES = ('normal', 'randn', 'standard_normal', 'default_rng')

    def __init__(self, word):
        self.word = np.asarray(word, dtype=float)
        self.used = 0

    def draw(self, size):
        self.used += 1
        if size is None or size == ():
            return float(self.word[0])
        n = int(np.prod(size))
        return np.resize(self.word, n).reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale * self.draw(size)

    def randn(self, *shape):
        return self.draw(shape if shape else None)

    def standard_normal(self, size=None, *a, **k):
        return self.draw(size)

    def default_rng(self, *a, **k):
        return self

    def __enter__(self):
        self.saved = {n: getattr(np.random, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(np.random, n, getattr(self, n))
        return self

    def __exit__(self, *e):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


def judge(ctx, clean, out, word, snr, msg, **kw):
    """out = clean + sigma*word with sigma^2 = power/snr up to the freedom of the power estimate."""
    clean = np.asarray(clean, dtype=float)
    ctx.check(np.shape(out) == clean.shape, msg + ': shape', got=np.shape(out), want=clean.shape, **kw)
    w = np.resize(np.asarray(word, dtype=float), clean.size).reshape(clean.shape)
    n = np.asarray(out) - clean
    p = np.mean(clean ** 2)
    sig = np.sqrt(p / 10 ** (snr / 10))
    N = clean.size
    scale = max(1.0, float(np.max(np.abs(clean))))
    ctx.check(np.all(np.abs(n[w == 0]) <= 1e-9 * scale), msg + ': changed where the noise is zero', got=n, word=w, **kw)
    if np.any(w != 0) and p > 0:
        r = n[w != 0] / w[w != 0]
        ctx.check(np.ptp(r) <= 1e-9 * max(scale, float(np.max(np.abs(r)))), msg + ': noise is not proportional to the source', got=n, word=w, **kw)
        ratio = (float(np.mean(np.abs(r))) / sig) ** 2
        ctx.check(abs(ratio - 1) <= 2.0 / (N - 1) + 1e-6, msg + ': signal to noise ratio', wanted_db=snr, got_db=snr - 10 * np.log10(ratio) if ratio > 0 else None, samples=N, **kw)


def statistical(ctx, f, clean_power, snr, msg):
    """Fallback for another random source: f(n) returns the noise of a long run."""
    noise = f()
    ratio = np.mean(noise ** 2) / (clean_power / 10 ** (snr / 10))
    ctx.check(abs(ratio - 1) < 0.02, msg + ' (measured)', ratio=ratio, snr=snr)


SNR = [-20, -3, 0, 0.5, 10, 17.3, 30, 60]
WIDE = [-60, -40, 90, 120, 150, 200]


def noise_words(ctx, sig, n):
    x = np.array(sig, dtype=float)[:n]
    for snr in SNR + WIDE[::2]:
        for w in words((-1, 0, 1), n):
            src = Source(w)
            keep = x.copy()
            with src:
                y = cdsp.channel.awgn(x, snr)
            ctx.step()
            ctx.same(x, keep, 'the signal was modified')
            if not src.used:
                L = np.resize(x, 400000)
                statistical(ctx, lambda: cdsp.channel.awgn(L, snr) - L, np.mean(L ** 2), snr, 'signal to noise ratio')
                break
            judge(ctx, x, y, w, snr, 'awgn', signal=x)
            ctx.state(tuple(sig), snr, w)
        ctx.trace()
    ctx.sample(signal=x, snr=snr)


def noise_long(ctx, kind, N, snr):
    w = np.array(long_word(7, 4096)) - 3.0
    base = {'nrz': np.array(long_word(2, N)) * 2.0 - 1, 'ook': np.array(long_word(2, N)) * 1.0, 'pam4': np.array(long_word(4, N)) * 2.0 - 3, 'offset': np.array(long_word(2, N)) * 0.1 + 5.0,
            'small': (np.array(long_word(4, N)) * 2.0 - 3) * 1e-3, 'int': np.array(long_word(4, N)) * 2 - 3,
            'tiny': (np.array(long_word(4, N)) * 2.0 - 3) * 1e-9, 'huge': (np.array(long_word(4, N)) * 2.0 - 3) * 1e9}[kind]
    for x in (base, base.reshape(2, -1), base.reshape(-1, 2), base.reshape(-1, 1), base.reshape(1, -1), base.reshape(2, -1, 1)) if N % 2 == 0 else (base,):
        src = Source(w)
        with src:
            y = cdsp.channel.awgn(x, snr)
        ctx.step()
        if src.used:
            judge(ctx, x, y, w, snr, 'awgn', kind=kind, N=N)
        else:
            L = np.resize(x, 400000)
            statistical(ctx, lambda: cdsp.channel.awgn(L, snr) - L, np.mean(L ** 2.0), snr, 'signal to noise ratio')
    ctx.state(kind, N, snr)
    ctx.trace()


def noisy_channel(ctx, b, a, snr, z):
    n = 200
    x = np.array(long_word(4, n)) * 2.0 - 3
    w = np.array(long_word(7, 4096)) - 3.0
    zi = None if not z else np.linspace(0.5, -0.7, max(len(b), len(a)) - 1)
    clean, zo = cdsp.channel.awgn_channel(x, b, a, None, zi)
    src = Source(w)
    with src:
        y, zn = cdsp.channel.awgn_channel(x, b, a, snr, zi)
    ctx.step(2)
    ctx.close(zn, zo, 'the channel memory depends on the noise')
    want = []
    zz = list(np.zeros(max(len(b), len(a)) - 1) if zi is None else zi)
    bb = [v / a[0] for v in b] + [0.0] * len(a)
    aa = [v / a[0] for v in a] + [0.0] * len(b)
    for v in x:
        o = bb[0] * v + (zz[0] if zz else 0.0)
        for i in range(len(zz)):
            zz[i] = (zz[i + 1] if i + 1 < len(zz) else 0.0) + bb[i + 1] * v - aa[i + 1] * o
        want.append(o)
    ctx.close(clean, want, 'channel without noise', b=b, a=a)
    if src.used:
        judge(ctx, np.array(want), y, w, snr, 'noisy channel', b=b, a=a)
    else:
        L = np.resize(x, 400000)
        c = cdsp.channel.awgn_channel(L, b, a)[0]
        statistical(ctx, lambda: cdsp.channel.awgn_channel(L, b, a, snr)[0] - c, np.mean(c ** 2), snr, 'noisy channel')
    ctx.state(tuple(b), tuple(a), snr, z)
    ctx.trace()


def jitter(ctx, pulse, osr, span, sigma, n):
    x = np.array(long_word(4, n)) * 2.0 - 3
    clean, zo = cdsp.channel.pulse_shape(x, osr, span, pulse, 0.5)
    t = np.arange(len(clean)) / osr
    sp = CubicSpline(t, clean)
    for w in words((-1, 0, 1), n):
        src = Source(w)
        with src:
            y, zn = cdsp.channel.pulse_shape(x, osr, span, pulse, 0.5, sigma)
        ctx.step()
        ctx.check(np.shape(y) == clean.shape, 'shape of a jittered signal', got=np.shape(y), want=clean.shape)
        ctx.close(zn, zo, 'the pulse memory depends on the jitter')
        if not src.used:
            y, _ = cdsp.channel.pulse_shape(x, osr, span, pulse, 0.5, sigma)
            ctx.check(np.max(np.abs(np.asarray(y) - clean)) > 1e-3 * sigma * np.ptp(clean), 'no jitter although it was asked for', pulse=pulse, osr=osr, sigma=sigma)
            break
        tj = t + np.repeat(np.array(w) * sigma, osr)
        inside = (tj >= t[0]) & (tj <= t[-1])
        ctx.close(np.asarray(y)[inside], sp(tj)[inside], 'jitter displaces the sampling instants of each symbol', tol=1e-6, word=w, pulse=pulse, osr=osr, sigma=sigma)
        if sigma < 0.01:  # relative to the displacement
            ctx.close((np.asarray(y) - clean)[inside] / sigma, (sp(tj) - clean)[inside] / sigma, 'small jitter displaces the sampling instants of each symbol', tol=1e-3, word=w, pulse=pulse, osr=osr, sigma=sigma)
        z = np.repeat(np.array(w) == 0, osr)
        ctx.close(np.asarray(y)[z], clean[z], 'symbols without jitter change', tol=1e-9, word=w, pulse=pulse, osr=osr)
        ctx.state(pulse, osr, span, sigma, w)
    ctx.trace()


def jitter_stream(ctx, pulse, osr, sigma):
    """A jittered chunk continues from the memory of the stream and hands on the memory of the clean stream."""
    x = np.array(long_word(4, 14)) * 2.0 - 3
    for cut in range(4, 11):
        _, z = cdsp.channel.pulse_shape(x[:cut], osr, 2, pulse, 0.3)
        clean, zc = cdsp.channel.pulse_shape(x[cut:], osr, 2, pulse, 0.3, zi=z)
        w = (np.array(long_word(3, 14 - cut)) - 1.0)
        src = Source(w)
        with src:
            y, zn = cdsp.channel.pulse_shape(x[cut:], osr, 2, pulse, 0.3, sigma, z)
        ctx.step(3)
        ctx.close(zn, zc, 'the pulse memory depends on the jitter')
        if src.used:
            t = np.arange(len(clean)) / osr
            tj = t + np.repeat(w * sigma, osr)
            inside = (tj >= t[0]) & (tj <= t[-1])
            ctx.close(np.asarray(y)[inside], CubicSpline(t, clean)(tj)[inside], 'jittered chunk of a stream', tol=1e-6, cut=cut, pulse=pulse, osr=osr)
        ctx.state(pulse, osr, sigma, cut)
    ctx.trace()


def quiet(ctx):
    """Nothing random happens unless it is asked for, and what is asked for is drawn anew for every call."""
    x = np.array(long_word(4, 40)) * 2.0 - 3
    for pulse in ('rect', 'sinc', 'rcos', 'rrc'):
        src = Source([1.0, -2.0, 3.0])
        with src:
            a = cdsp.channel.pulse_shape(x, 4, 2, pulse)[0]
            b = cdsp.channel.pulse_shape(x, 4, 2, pulse, rj_sigma=0)[0]
            c = cdsp.channel.awgn_channel(x, [1.0, 0.2], [1.0])[0]
            d = cdsp.channel.awgn_channel(x, [1.0, 0.2], [1.0], snr=None)[0]
        ctx.step(4)
        ctx.check(src.used == 0, 'randomness was drawn without being asked for')
        ctx.same(a, b, 'default jitter is none')
        ctx.same(c, d, 'default noise is none')
        a = cdsp.channel.pulse_shape(x, 4, 2, pulse, rj_sigma=0.1)[0]
        b = cdsp.channel.pulse_shape(x, 4, 2, pulse, rj_sigma=0.1)[0]
        ctx.check(not np.array_equal(a, b), 'two jittered signals are equal')
        ctx.state(pulse)
    for f in (lambda: cdsp.channel.awgn(x, 10), lambda: cdsp.channel.awgn_channel(x, [1.0, 0.2], [1.0], 10)[0]):
        n1, n2 = f(), f()
        ctx.step(2)
        ctx.check(not np.array_equal(n1, n2), 'two calls add the same noise')
        ctx.check(len(set(np.round(np.asarray(n1) - np.asarray(n2), 12).tolist())) > 30, 'the noise of a call is not drawn per sample')
    ctx.trace()


CASES = {f.__name__: f for f in (noise_words, noise_long, noisy_channel, jitter, jitter_stream, quiet)}


def tasks(tier):
    th = tier == 'thorough'
    n = 8 if th else 6
    for s in ([1, -1, 1, 1, -1, -1, 1, -1], [3, -3, 1, -1, 3, 1, -1, -3], [0, 1, 0, 0, 1, 1, 0, 1], [5.1, 5.0, 5.2, 5.0, 5.1, 5.1, 5.0, 5.0], [0.001, -0.002, 0.001, 0.003, -0.001, 0.0, 0.002, 0.001], [100, -50, 20, 0, 0, 1, 2, 3]):
        yield 'noise_words', dict(sig=s, n=n)
    for k in ('nrz', 'ook', 'pam4', 'offset', 'small', 'int', 'tiny', 'huge'):
        for N in (20, 101, 1000, 5000):
            for snr in SNR + WIDE:
                yield 'noise_long', dict(kind=k, N=N, snr=snr)
    for b, a in (([1.0], [1.0]), ([0.1, 1.0, 0.3], [1.0]), ([1.0, 0.5], [2.0, -0.4]), ([0.5], [1.0, -0.3, 0.1]), ([0.1, 0.2, 0.9, 0.1], [1.0, 0.2])):
        for snr in SNR + WIDE:
            for z in (False, True):
                yield 'noisy_channel', dict(b=b, a=a, snr=snr, z=z)
    for p in ('rect', 'sinc', 'rcos', 'rrc'):
        for osr in (2, 4, 8):
            for sg in (1e-6, 1e-4, 9e-4, 0.01, 0.1, 0.8):
                yield 'jitter', dict(pulse=p, osr=osr, span=3, sigma=sg, n=7 if th else 5)
            yield 'jitter_stream', dict(pulse=p, osr=osr, sigma=0.05)
    yield 'quiet', {}
    for p, osr, span in (('rect', 32, 4), ('rcos', 16, 10), ('rrc', 10, 25), ('sinc', 64, 8)):
        yield 'jitter', dict(pulse=p, osr=osr, span=span, sigma=0.05, n=5)
    for osr in (1, 3, 16):
        yield 'jitter', dict(pulse='rcos', osr=osr, span=2, sigma=0.03, n=5)
