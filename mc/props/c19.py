"""buffer() frames a signal without losing, duplicating or inventing samples."""
import numpy as np
import CommDspy as cdsp
from mc.core import words, forms

BOUNDS = {
    'quick': 'every signal length 1..24 x frame length 1..9 x overlap -6..length-1 x delay 0..8 x clip, distinct samples (positions are observable); signals holding zeros; long signals up to 2000; integer, float, complex and list inputs (also of mixed number types); signals of up to 40000 samples with 12 frame geometries',
    'thorough': 'signal lengths to 40, frame length to 14, overlap from -12, delay to 14',
}
ASSUMPTIONS = ['frame k starts at k*(length-overlap) of the delayed signal; a frame exists while it holds a sample that is not only a repetition of the previous frame',
               'frame length >= 1, overlap < length']


def ref(sig, length, overlap, delay, clip):
    full = [0] * delay + list(sig)
    stride = length - overlap
    rows = []
    k = 0
    while k * stride < len(full) - max(overlap, 0):
        s = k * stride
        row = full[s:s + length]
        if len(row) == length:
            rows.append(row)
        elif not clip:
            rows.append(row + [0] * (length - len(row)))
        k += 1
    return np.array(rows).reshape(-1, length)


def one(ctx, sig, arr, length, overlap, delay, msg=''):
    for clip in (False, True):
        want = ref(sig, length, overlap, delay, clip)
        got = cdsp.buffer(arr, length, overlap, delay, clip)
        ctx.step()
        got = np.asarray(got)
        if want.shape[0] == 0:
            ctx.check(got.shape[0] == 0, 'frames out of nothing' + msg, signal=sig, length=length, overlap=overlap, delay=delay, clip=clip, got=got)
        else:
            ctx.same(got, want, 'framing' + msg, n=len(sig), length=length, overlap=overlap, delay=delay, clip=clip)


def grid(ctx, n, top_len, lo, top_delay):
    sig = list(range(1, n + 1))
    a = np.array(sig)
    for length in range(1, top_len + 1):
        for overlap in range(lo, length):
            for delay in range(0, top_delay + 1):
                if delay + n <= max(overlap, 0):
                    continue
                one(ctx, sig, a, length, overlap, delay)
                ctx.state(n, length, overlap, delay)
                ctx.trace()
    for length in range(1, top_len + 1):
        got = np.asarray(cdsp.buffer(a, length))
        ctx.same(got, ref(sig, length, 0, 0, False), 'default arguments', n=n, length=length)
    ctx.sample(n=n, length=length, rows=got.shape[0])


def zeros(ctx, n):
    """Signals that contain zeros: padding must not be confused with data."""
    for w in words((0, 1), n):
        for length in (1, 2, 3, 4):
            for overlap in range(-2, length):
                for delay in (0, 1, 2):
                    if delay + n > max(overlap, 0):
                        one(ctx, w, np.array(w), length, overlap, delay, ' of a signal with zeros')
        ctx.state(w)
        ctx.trace()


def kinds(ctx):
    for n in (1, 5, 12, 100, 999, 1000, 1001, 2000):
        for length, overlap, delay in ((4, 0, 0), (7, 3, 2), (5, 4, 4), (16, -5, 3), (1, 0, 0), (100, 99, 99), (64, 32, 0)):
            if delay + n <= max(overlap, 0):
                continue
            sig = [i + 1 for i in range(n)]
            one(ctx, sig, np.array(sig), length, overlap, delay, ' int')
            one(ctx, [v + 0.5 for v in sig], np.array(sig) + 0.5, length, overlap, delay, ' float')
            if n <= 100:
                one(ctx, [v + 1j for v in sig], np.array(sig) + 1j, length, overlap, delay, ' complex')
                one(ctx, [v / 7 - 0.1j * v for v in sig], np.array([v / 7 - 0.1j * v for v in sig]), length, overlap, delay, ' complex fractions')
                one(ctx, [v / 7 for v in sig], np.array([v / 7 for v in sig]), length, overlap, delay, ' fractions')
                one(ctx, [v * 10 ** 12 + 1 for v in sig], np.array(sig) * 10 ** 12 + 1, length, overlap, delay, ' large integers')
                one(ctx, sig, sig, length, overlap, delay, ' list')
                for mix in ([v if v % 2 else v / 4 for v in sig], [v / 4 if v % 3 else v for v in sig], [v % 2 == 0 if v < 3 else v for v in sig], [v if v < n else v + 0.5j for v in sig], [v if v < n else v + 0.125 for v in sig]):
                    one(ctx, mix, mix, length, overlap, delay, ' list of mixed number types')
                one(ctx, [-v for v in sig], -np.array(sig), length, overlap, delay, ' negative')
                one(ctx, [v % 100 for v in sig], (np.array(sig) % 100).astype(np.int8), length, overlap, delay, ' int8')
                one(ctx, [v % 200 for v in sig], (np.array(sig) % 200).astype(np.uint8), length, overlap, delay, ' uint8')
                one(ctx, [v % 3 == 0 for v in sig], np.array(sig) % 3 == 0, length, overlap, delay, ' bool')
                for fn, a in forms(np.array(sig)):
                    one(ctx, sig, a, length, overlap, delay, f' {fn}')
            ctx.state(n, length, overlap, delay)
            ctx.trace()


def lossless(ctx, n, length):
    """Frames without overlap, put one behind the other, are the signal."""
    sig = np.arange(1, n + 1)
    m = np.asarray(cdsp.buffer(sig, length))
    ctx.same(m.reshape(-1)[:n], sig, 'framing is not lossless', n=n, length=length)
    ctx.check(not m.reshape(-1)[n:].any(), 'padding is not zero', n=n, length=length)
    for ov in range(1, length):
        m = np.asarray(cdsp.buffer(sig, length, ov)) if n > ov else None
        if m is not None:
            ctx.same(np.concatenate([m[0]] + [r[ov:] for r in m[1:]])[:n], sig, 'overlapping frames do not rebuild the signal', n=n, length=length, overlap=ov)
            ctx.check(all(np.array_equal(m[i][-ov:], m[i + 1][:ov]) for i in range(len(m) - 1)), 'overlap is not shared', n=n, length=length, overlap=ov)
        ctx.step()
    ctx.state(n, length)
    ctx.trace()


def large(ctx, n):
    sig = [(i * 37) % 1009 + 1 for i in range(n)]
    a = np.array(sig)
    for length, overlap, delay in ((1000, 0, 0), (4096, 1, 5), (257, 256, 0), (300, -41, 17), (n, 0, 0), (n + 1, 0, 0), (n - 1, 0, 1), (n, n - 1, n - 1), (7, 0, 3), (2 * n, n // 2, n // 3), (64, -1000, 64), (128, 64, 2000)):
        if delay + n > max(overlap, 0) and (length + delay + n) * length < 3e7:
            one(ctx, sig, a, length, overlap, delay, ' of a long signal')
            ctx.state('large', n, length, overlap, delay)
            ctx.trace()


CASES = {f.__name__: f for f in (grid, zeros, kinds, lossless, large)}


def tasks(tier):
    th = tier == 'thorough'
    for n in (2500, 4096, 10007, 140000):
        yield 'large', dict(n=n)
    for n in range(1, (40 if th else 24) + 1):
        yield 'grid', dict(n=n, top_len=14 if th else 9, lo=-12 if th else -6, top_delay=14 if th else 8)
    for n in range(1, 8 if th else 7):
        yield 'zeros', dict(n=n)
    yield 'kinds', {}
    for n in (1, 2, 7, 16, 33, 64):
        for length in (1, 2, 3, 5, 8, 16):
            yield 'lossless', dict(n=n, length=length)
