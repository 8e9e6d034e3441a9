"""Power spectrum: levels, normalisation modes and frequencies of the spectrum analyser are consistent."""
import itertools
import numpy as np
from CommDspy.psa import psa
from mc.core import long_word

BOUNDS = {
    'quick': 'tones at every multiple of the resolution, 2 record lengths, 3 sampling rates, 6 windows; all 8 modes x both sideband modes x gains x loads x full scales x occupied bandwidths, real and complex signals; resolution bandwidth of the default window; every single option and pair of options left at its default; complex tones at every second half-multiple of the resolution; uneven records of up to 40000 samples; integer samples of 4 widths, plotting on and off; 9 overlaps x 5 zero paddings x 3 windows against a periodogram average written from its definition, real, complex and real-valued complex arrays',
    'thorough': 'additionally 4 overlaps, 4 oversampling ratios and longer records',
}
ASSUMPTIONS = ['returned powers are linear quantities (the decibel conversion is left to the plot)', 'records hold at least one analysis window']
MODES = ['dBm', 'dBm/Hz', 'dBc', 'dBuv', 'dBuv/sqrt(Hz)', 'dB', 'dBFs']


def sig(n):
    return (np.array(long_word(7, n)) - 3.0) * 0.3 + np.sin(np.arange(n) * 0.7)


def rel(ctx, got, want, msg, **kw):
    got, want = np.asarray(got), np.asarray(want)
    ctx.check(got.shape == want.shape, msg + ': shape', got=got.shape, want=want.shape, **kw)
    ctx.check(np.all(np.abs(got - want) <= 1e-9 * np.abs(want) + 1e-12 * np.max(np.abs(want))), msg, got=got, want=want, **kw)


def tones(ctx, n, fs, rbw, window):
    t = np.arange(n) / fs
    k = 0
    for i in range(4, int(fs / 2 / rbw) - 4):
        f0 = i * rbw
        for amp in (1.0, 0.01):
            f, p = psa(amp * np.sin(2 * np.pi * f0 * t + 0.3), fs, rbw=rbw, window=window)
            ctx.step()
            ctx.check(len(f) == len(p) and f[0] == 0 and abs(f[-1] - fs / 2) < 1e-9 * fs and np.all(np.diff(f) > 0), 'frequency axis', got=f)
            ctx.check(np.all(p >= 0), 'negative power')
            ctx.check(abs(f[int(np.argmax(p))] - f0) <= rbw, 'frequency of the peak', tone=f0, got=f[int(np.argmax(p))], rbw=rbw, fs=fs)
            ctx.check(abs(np.max(p) / (amp ** 2 / 2) - 1) < 0.02, 'power of the peak', tone=f0, got=np.max(p), want=amp ** 2 / 2, window=window)
        ctx.state(n, fs, rbw, window, i)
    ctx.trace()
    ctx.sample(fs=fs, rbw=rbw, f0=f0, peak=float(np.max(p)))


def modes(ctx, n, fs, rbw, sb, extra):
    x = sig(n)
    keep = x.copy()
    kw = dict(rbw=rbw, sb_mode=sb, **extra)
    eff = fs / 2 if sb == 'DSB' else fs
    f0, p0 = psa(x, fs, mode='dB', **kw)
    vr = np.mean(x ** 2)
    for r in (50, 75):
        for full in (1, 0.5):
            for obw in (None, 3 * rbw):
                for mode in MODES:
                    f, p = psa(x, fs, mode=mode, obw=obw, r=r, fullscale=full, **kw)
                    ctx.step()
                    rel(ctx, f, f0, 'frequency axis depends on the mode')
                    m = 'dBc' if obw is not None else mode
                    o = obw if obw is not None else rbw
                    g = {'dB': 1.0, 'dBm': 1000 / r * rbw / eff, 'dBm/Hz': 1000 / r / eff, 'dBuv': rbw / eff * 1e12, 'dBuv/sqrt(Hz)': 1e12 / eff, 'dBc': o / eff / vr, 'dBFs': o / eff / full ** 2}[m]
                    rel(ctx, p, p0 * g, 'normalisation of the mode', mode=mode, r=r, fullscale=full, obw=obw, sb=sb)
                    for c in (2.0, -1.0, 1e-3):
                        q = psa(c * x, fs, mode=mode, obw=obw, r=r, fullscale=full, **kw)[1]
                        ctx.step()
                        rel(ctx, q, p if m == 'dBc' else p * c * c, 'scaling of the signal', mode=mode, gain=c, obw=obw)
                    ctx.state(n, fs, rbw, sb, repr(extra), r, full, obw, mode)
    ctx.trace()
    rel(ctx, psa(x.reshape(2, -1), fs, mode='dB', **kw)[1], p0, 'multi-dimensional signal')
    ctx.same(x, keep, 'the signal was modified')
    for bad in ('dbm', '', 'dBW', None):
        ctx.raises(ValueError, lambda: psa(x, fs, mode=bad, **kw), 'unknown mode')


def long_records(ctx, n, kind):
    """The level of the whole record counts: power concentrated at its beginning, its end or its middle."""
    i = np.arange(n)
    env = {'fade': np.exp(-3.0 * i / n), 'rise': np.exp(-3.0 * i[::-1] / n), 'burst': np.where((i > n // 3) & (i < n // 2), 5.0, 0.2), 'spike': np.where(i == n - 7, 50.0, 1.0)}[kind]
    x = sig(n) * env
    for sb in ('DSB', 'SSB'):
        f0, p0 = psa(x, 1.0, rbw=0.02, mode='dB', sb_mode=sb)
        eff = 0.5 if sb == 'DSB' else 1.0
        for obw in (None, 0.05):
            f, p = psa(x, 1.0, rbw=0.02, mode='dBc', obw=obw, sb_mode=sb)
            rel(ctx, p, p0 * ((obw or 0.02) / eff / np.mean(x ** 2)), 'dBc of a long record', n=n, kind=kind, sb=sb, obw=obw)
            ctx.step(2)
        c = x + 1j * x[::-1]
        f0, p0 = psa(c, 1.0, rbw=0.02, mode='dB', sb_mode=sb)
        f, p = psa(c, 1.0, rbw=0.02, mode='dBc', sb_mode=sb)
        rel(ctx, p, p0 * (0.02 / 1.0 / np.mean(np.abs(c) ** 2)), 'dBc of a long complex record', n=n, kind=kind, sb=sb)
        ctx.state('long', n, kind, sb)
    ctx.trace()


def rates(ctx, n, rbw_frac):
    """Only the ratio of resolution and sampling rate matters."""
    x = sig(n)
    f0, p0 = psa(x, 1.0, rbw=rbw_frac)
    for fs in (10.0, 1e3, 53.125e9):
        f, p = psa(x, fs, rbw=rbw_frac * fs)
        ctx.step()
        rel(ctx, f, f0 * fs, 'frequency axis scales with the sampling rate')
        rel(ctx, p, p0, 'powers do not depend on the unit of frequency')
        ctx.state(n, rbw_frac, fs)
    # a stationary sum of separate tones
    t = np.arange(n)
    a = psa(np.sin(2 * np.pi * 0.1 * t), 1.0, rbw=rbw_frac)[1]
    b = psa(3 * np.sin(2 * np.pi * 0.35 * t), 1.0, rbw=rbw_frac)[1]
    c = psa(np.sin(2 * np.pi * 0.1 * t) + 3 * np.sin(2 * np.pi * 0.35 * t), 1.0, rbw=rbw_frac)[1]
    f = f0
    for f1, ref in ((0.1, a), (0.35, b)):
        i = int(np.argmin(np.abs(f - f1)))
        ctx.check(abs(c[i] / ref[i] - 1) < 1e-2, 'separate tones influence each other', tone=f1, got=c[i], want=ref[i])
    ctx.trace()


def resolution(ctx, n, fs, rbw):
    """The default window resolves what was asked for: the equivalent noise bandwidth of a tone is the requested resolution."""
    t = np.arange(n) / fs
    for i in range(8, int(fs / 2 / rbw) - 8, 3):
        f, p = psa(np.sin(2 * np.pi * i * rbw * t), fs, rbw=rbw)
        bw = float(np.sum(p) * (f[1] - f[0]) / np.max(p))
        ctx.step()
        ctx.check(0.8 * rbw <= bw <= 1.3 * rbw, 'resolution bandwidth', wanted=rbw, got=bw, tone=i * rbw)
        # two tones six resolutions apart are separated by a deep notch
        f, p = psa(np.sin(2 * np.pi * i * rbw * t) + np.sin(2 * np.pi * (i + 6) * rbw * t), fs, rbw=rbw)
        ctx.step()
        mid = p[int(np.argmin(np.abs(f - (i + 3) * rbw)))]
        ctx.check(mid < 1e-4 * np.max(p), 'two tones are not resolved', tone=i * rbw, notch=mid, peak=np.max(p))
        ctx.state(n, fs, rbw, i)
    ctx.trace()


def defaults(ctx, n, fs):
    """Options that are left out: plain mode, 50 Ohm, full scale 1, both side bands, a thousandth of the sampling rate."""
    x = sig(n)
    full = dict(rbw=fs / 1000, mode='dB', obw=None, r=50, osr=4, window='blackmanharris', overlap=0.75, fullscale=1, sb_mode='DSB')
    for given in [()] + [(k,) for k in full] + list(itertools.combinations(full, 2)):
        a = psa(x, fs, **{k: full[k] for k in given})
        b = psa(x, fs, **full)
        rel(ctx, a[0], b[0], 'frequency axis with default options', given=given)
        rel(ctx, a[1], b[1], 'powers with default options', given=given)
        ctx.step(2)
        ctx.state(n, fs, given)
    for mode in MODES:
        rel(ctx, psa(x, fs, mode=mode)[1], psa(x, fs, **dict(full, mode=mode))[1], 'powers with default options', mode=mode)
        ctx.step(2)
    ctx.trace()


def complex_tones(ctx, n, fs, rbw):
    """Complex signals have a two-sided spectrum: a tone shows at its signed frequency with its full power."""
    t = np.arange(n) / fs
    lim = int(fs / 2 / rbw) - 4
    for i in range(-lim, lim + 1, 2):
        f0 = i * rbw + rbw / 2
        if abs(f0) < 4 * rbw:
            continue  # the mean is removed before the analysis: too close to DC for a power reading
        z = 0.5 * np.exp(2j * np.pi * f0 * t)
        f, p = psa(z, fs, rbw=rbw)
        f, p = np.asarray(f), np.asarray(p)
        ctx.step()
        ctx.check(abs(f[int(np.argmax(p))] - f0) <= rbw / 4, 'frequency of a complex tone', tone=f0, got=f[int(np.argmax(p))])
        ctx.check(abs(np.max(p) / 0.25 - 1) < 0.02, 'power of a complex tone', tone=f0, got=np.max(p))
        for sb in ('DSB', 'SSB'):
            for mode, g in (('dBm', 1000 / 50 * rbw / fs), ('dBm/Hz', 1000 / 50 / fs), ('dBc', rbw / fs / 0.25), ('dBFs', rbw / fs)):
                rel(ctx, np.real(psa(z, fs, rbw=rbw, mode=mode, sb_mode=sb)[1]), p * g, 'normalisation of a complex signal', mode=mode, sb=sb)
                ctx.step()
        ctx.state(n, fs, rbw, i)
    ctx.trace()


def welch_ref(x, fs, rbw, window, overlap, osr):
    """Averaged modified periodograms, straight from the definition."""
    from scipy.signal import get_window
    m = int(1.9 * np.ceil(fs / rbw))
    w = get_window(window, m)
    step = m - int(np.floor(m * overlap))
    nfft = 1
    while nfft < m * osr:
        nfft *= 2
    two = np.iscomplexobj(x)
    acc = []
    for s in range(0, len(x) - m + 1, step):
        seg = x[s:s + m]
        q = np.abs((np.fft.fft if two else np.fft.rfft)((seg - seg.mean()) * w, nfft)) ** 2 / w.sum() ** 2
        if not two:
            q[1:-1] *= 2
        acc.append(q)
    return (np.fft.fftfreq if two else np.fft.rfftfreq)(nfft, 1 / fs), np.mean(acc, axis=0)


def averaging(ctx, n, fs, rbw, window):
    """Every overlap and zero padding: which parts of the record are averaged, and on which grid of frequencies."""
    x = sig(n) * np.linspace(0.1, 2.0, n) ** 2                   # not stationary: every segment counts
    for overlap in (0, 0.1, 0.25, 0.5, 0.6, 0.75, 0.8, 0.9, 0.95):
        for osr in (1, 2, 3, 4, 8):
            for y in (x, x * np.exp(1j * np.arange(n) * 0.4), x.astype(complex)):
                f, p = welch_ref(y, fs, rbw, window, overlap, osr)
                g, q = psa(y, fs, rbw=rbw, window=window, overlap=overlap, osr=osr)
                ctx.step()
                rel(ctx, g, f, 'frequencies', overlap=overlap, osr=osr, window=window)
                rel(ctx, np.real(q), p, 'averaged power spectrum', overlap=overlap, osr=osr, window=window)
            ctx.state(n, fs, rbw, window, overlap, osr)
    ctx.trace()
    for mode in MODES:                                               # a complex array without imaginary part is a real signal
        for sb in ('DSB', 'SSB'):
            eff = fs / 2 if sb == 'DSB' else fs
            f, p = welch_ref(x.astype(complex), fs, rbw, window, 0.75, 4)
            g = {'dB': 1.0, 'dBm': 1000 / 50 * rbw / eff, 'dBm/Hz': 1000 / 50 / eff, 'dBuv': rbw / eff * 1e12, 'dBuv/sqrt(Hz)': 1e12 / eff, 'dBc': rbw / eff / np.mean(x ** 2), 'dBFs': rbw / eff}[mode]
            rel(ctx, np.real(psa(x.astype(complex), fs, rbw=rbw, window=window, mode=mode, sb_mode=sb)[1]), p * g, 'real signal in a complex array', mode=mode, sb=sb)
            ctx.step()


def forms_and_plot(ctx, n):
    """Integer samples and the plotting option leave the numbers alone."""
    import matplotlib.pyplot as plt
    show = plt.show
    shown = []
    try:
        plt.show = lambda *a, **k: shown.append(1)
        t = np.arange(n)
        for dt in (np.int8, np.int16, np.int32, np.int64):
            x = np.round(100 * np.sin(2 * np.pi * 0.123 * t))
            for mode in MODES:
                f, p = psa(x, 1.0, rbw=0.01, mode=mode)
                g, q = psa(x.astype(dt), 1.0, rbw=0.01, mode=mode)
                ctx.step(2)
                rel(ctx, g, f, 'frequencies of integer samples', mode=mode, dtype=np.dtype(dt).name)
                ctx.check(np.shape(q) == np.shape(p) and bool(np.all(np.abs(np.asarray(q) - p) <= 1e-4 * np.max(p))), 'integer samples', mode=mode, dtype=np.dtype(dt).name)
                if dt is np.int8:
                    for sb in ('DSB', 'SSB'):
                        f, p = psa(x, 1.0, rbw=0.01, mode=mode, sb_mode=sb)
                        g, q = psa(x, 1.0, rbw=0.01, mode=mode, sb_mode=sb, plot=True)
                        plt.close('all')
                        rel(ctx, g, f, 'plotting changes the frequencies', mode=mode)
                        rel(ctx, q, p, 'plotting changes the powers', mode=mode)
                        ctx.step()
                ctx.state('forms', n, mode, np.dtype(dt).name)
    finally:
        plt.show = show
    ctx.trace()


CASES = {f.__name__: f for f in (long_records, tones, modes, rates, resolution, defaults, complex_tones, averaging, forms_and_plot)}


def tasks(tier):
    th = tier == 'thorough'
    yield 'forms_and_plot', dict(n=3000)
    for n in (2000, 12000, 40000) + ((300000,) if th else ()):
        for k in ('fade', 'rise', 'burst', 'spike'):
            yield 'long_records', dict(n=n, kind=k)
    for n in (500, 1001):
        for fs, d in ((1.0, 50), (8e9, 37)):
            for w in ('blackmanharris', 'hann', 'flattop'):
                yield 'averaging', dict(n=n, fs=fs, rbw=fs / d, window=w)
    for d in (17, 34, 67, 68, 69, 135, 137):       # the padded length just above, at and below a power of two
        yield 'averaging', dict(n=600, fs=1e3, rbw=1e3 / d, window='hann')
    for n in (1000, 4096) + ((20000,) if th else ()):
        for fs in (1.0, 100.0, 53.125e9):
            for w in ('blackmanharris', 'hann', 'flattop', 'hamming'):
                yield 'tones', dict(n=n, fs=fs, rbw=fs / 50, window=w)
            for sb in ('DSB', 'SSB'):
                for ex in [{}] + ([dict(overlap=o) for o in (0, 0.5, 0.9)] + [dict(osr=o) for o in (1, 2, 8)] if th else [dict(overlap=0.5, osr=2)]):
                    yield 'modes', dict(n=n, fs=fs, rbw=fs / 50, sb=sb, extra=ex)
        for rb in (0.01, 0.02, 0.05):
            yield 'rates', dict(n=n, rbw_frac=rb)
        for fs in (1.0, 53.125e9):
            for d in (20, 50, 33):
                yield 'resolution', dict(n=n, fs=fs, rbw=fs / d)
                yield 'complex_tones', dict(n=n, fs=fs, rbw=fs / d)
    for n in (3000, 4096):
        for fs in (1.0, 2000.0):
            yield 'defaults', dict(n=n, fs=fs)
