"""PRBS checkers count and locate exactly the injected bit errors."""
import itertools
import numpy as np
import CommDspy as cdsp
from mc.core import lfsr
from mc.props.c01 import poly_of

BOUNDS = {
    'quick': 'PRBS7: every phase x every single error position of one period and of the following periods, every pair of errors for 4 phases, bursts, every length 7..400 (PRBS15 around one and two periods), thresholds around the error count, aligned data of every foreign phase and polarity, aligned / unaligned / '
             'supplied reference; PRBS9/11 all phases clean, errors at every position for 3 phases; economy checker: every register state of PRBS7/9 clean, every single error position, every pair inside the first 20 bits x '
             'thresholds, all 2^10 error patterns on the first 10 bits; 6 element types of data and reference; up to 131082 errors in one run',
    'thorough': 'every pair of errors in one PRBS7 period for all phases in steps of 8, PRBS13 single errors',
}
ASSUMPTIONS = ['unaligned checking: at least one register length of bits, and fewer than a quarter of a period of errors among the bits used for locking',
               'loss of lock is declared when the total number of errors reaches the threshold', 'economy checker: at least two register lengths of bits']
E = {7: 'PRBS7', 9: 'PRBS9', 11: 'PRBS11', 13: 'PRBS13', 15: 'PRBS15'}


def seq(n, start, length):
    """The PRBS bits (all-ones seed) from position start on."""
    P = 2 ** n - 1
    b = _cache(n)
    return np.array([b[(start + i) % P] for i in range(length)]) if length < 4 * P else np.tile(np.roll(b, -(start % P)), length // P + 1)[:length]


_C = {}


def _cache(n):
    if n not in _C:
        _C[n] = np.array(lfsr(poly_of(n).tolist(), [1] * n, 2 ** n - 1)[0])
    return _C[n]


def verdict(ctx, r, data, want_err, th, msg, **kw):
    lost, good, err = r
    ctx.same(np.asarray(err).astype(bool), want_err, msg + ': error positions', **kw)
    ctx.check(int(good) == len(data) - int(np.sum(want_err)), msg + ': number of correct bits', got=int(good), want=len(data) - int(np.sum(want_err)), **kw)
    ctx.check(bool(lost) == bool(np.sum(want_err) >= th), msg + ': lock verdict', lost=bool(lost), error_count=int(np.sum(want_err)), th=th, **kw)
    ctx.step()


def full(ctx, n, start, data, pos, ths=(100,)):
    """Unaligned check of a stream that starts at the given phase."""
    want = np.zeros(len(data), dtype=bool)
    want[list(pos)] = True
    d = data.copy()
    d[list(pos)] ^= 1
    pt = cdsp.PrbsEnum[E[n]]
    for th in ths:
        kw = dict(prbs=n, phase=start, errors=pos, threshold=th, length=len(data))
        verdict(ctx, cdsp.rx.prbs_checker(pt, d, False, th), d, want, th, 'checker', **kw)
    kw = dict(prbs=n, phase=start, errors=pos)
    verdict(ctx, cdsp.rx.prbs_checker(pt, d, False), d, want, 100, 'checker, default threshold', **kw)
    if start % (2 ** n - 1) == 0:
        verdict(ctx, cdsp.rx.prbs_checker(pt, d, True), d, want, 100, 'aligned checker', **kw)
    ref = np.roll(_cache(n), -start)
    verdict(ctx, cdsp.rx.prbs_checker(pt, d, True, prbs_seq=ref.copy()), d, want, 100, 'checker with aligned reference', **kw)
    verdict(ctx, cdsp.rx.prbs_checker(pt, d, False, prbs_seq=np.roll(_cache(n), -(3 * start) % (2 ** n - 1))), d, want, 100, 'checker with rotated reference', **kw)


def phases(ctx, n, starts, length):
    for s in starts:
        full(ctx, n, s, seq(n, s, length), ())
        ctx.state(n, s, length)
        ctx.trace()
    ctx.sample(prbs=n, phase=s, length=length)


def single(ctx, n, starts, length):
    for s in starts:
        data = seq(n, s, length)
        for p in range(length):
            full(ctx, n, s, data, (p,), (1, 2))
            ctx.extra_states += 1
        ctx.trace()


def pairs(ctx, start, length):
    data = seq(7, start, length)
    pt = cdsp.PrbsEnum.PRBS7
    for pos in itertools.combinations(range(length), 2):
        d = data.copy()
        d[list(pos)] ^= 1
        want = np.zeros(length, dtype=bool)
        want[list(pos)] = True
        th = 1 + sum(pos) % 3
        verdict(ctx, cdsp.rx.prbs_checker(pt, d, False, th), d, want, th, 'checker', phase=start, errors=pos)
        ctx.extra_states += 1
    ctx.trace()


def bursts(ctx, n, start):
    P = 2 ** n - 1
    data = seq(n, start, 3 * P + 5)
    for e in [x for x in list(range(0, 40)) + [60, 99, 100, 101, 200, 127, 254] if x < 2 * P]:
        for at in (P, P + 1, 2 * P, 3 * P + 5 - e):      # behind the bits used for locking
            full(ctx, n, start, data, tuple(range(at, min(at + e, len(data)))), (max(1, e - 1), max(1, e), e + 1))
            ctx.extra_states += 1
        if 4 * e < P + 1:
            full(ctx, n, start, data, tuple(range(3, 3 + e)), (max(1, e), e + 1))
            full(ctx, n, start, data, tuple((i * P) // max(e, 1) for i in range(e)), (max(1, e), e + 1))
    ctx.trace()


def lengths(ctx, n, starts, lens):
    for s in starts:
        for L in lens:
            data = seq(n, s, L)
            full(ctx, n, s, data, ())
            if L > 2 ** n - 1:
                full(ctx, n, s, data, (L - 1,))
                full(ctx, n, s, data, (2 ** n - 1,))
            ctx.state(n, s, L)
        ctx.trace()


def no_lock(ctx, n, shifts, length):
    """Told that the data is aligned, the checker compares and never re-aligns, however many bits differ."""
    pt = cdsp.PrbsEnum[E[n]]
    P = 2 ** n - 1
    for sh in shifts:
        for inv in (0, 1):
            d = seq(n, sh, length) ^ inv
            want = d != seq(n, 0, length)
            e = int(want.sum())
            for th in sorted({1, max(e - 1, 1), max(e, 1), e + 1, 100}):
                verdict(ctx, cdsp.rx.prbs_checker(pt, d.copy(), True, th), d, want, th, 'aligned checker, foreign data', prbs=n, shift=sh, inverted=inv, threshold=th)
            verdict(ctx, cdsp.rx.prbs_checker(pt, d.copy(), True), d, want, 100, 'aligned checker, foreign data, default threshold', prbs=n, shift=sh, inverted=inv)
            ref = np.roll(_cache(n), -5)
            w2 = d != np.tile(ref, length // P + 1)[:length]
            verdict(ctx, cdsp.rx.prbs_checker(pt, d.copy(), True, prbs_seq=ref.copy()), d, w2, 100, 'aligned checker with reference, foreign data', prbs=n, shift=sh, inverted=inv)
            ctx.state('no_lock', n, sh, inv, length)
    ctx.trace()


def flood(ctx, n, length):
    """More errors than a narrow counter can hold."""
    pt = cdsp.PrbsEnum[E[n]]
    d0 = seq(n, 0, length)
    for e in (length, length - 1, 32768, 65536, 65537, 40000):
        if e > length:
            continue
        d = d0.copy()
        d[length - e:] ^= 1
        want = np.zeros(length, dtype=bool)
        want[length - e:] = True
        for th in (1, 100, e, e + 1):
            verdict(ctx, cdsp.rx.prbs_checker(pt, d, True, th), d, want, th, 'aligned checker, very many errors', prbs=n, errors=e, threshold=th)
            verdict(ctx, cdsp.rx.prbs_checker(pt, d, True, th, prbs_seq=_cache(n).copy()), d, want, th, 'aligned checker with reference, very many errors', prbs=n, errors=e, threshold=th)
        eco(ctx, n, d, None, errors=e)
        eco(ctx, n, d, 40000, errors=e)
        ctx.state('flood', n, length, e)
        ctx.trace()


def eco_default(ctx, n):
    """Error bursts around the default threshold."""
    base = seq(n, 11, 600)
    for e in range(90, 112):
        for at in (n * 3, 200, 600 - e):
            d = base.copy()
            d[at:at + e] ^= 1
            eco(ctx, n, d, None, errors=e, at=at)
            eco(ctx, n, d, e, errors=e, at=at)
            eco(ctx, n, d, e + 1, errors=e, at=at)
            ctx.state('eco_default', n, e, at)
    ctx.trace()


# ---------------------------------------------------------------------------------------------- economy checker
def eco_ref(n, data, th):
    poly = poly_of(n).tolist()
    for s in range(n):
        w = [int(v) for v in data[s:s + n]]
        cont, _ = lfsr(poly, w[::-1], len(data) - s - n)
        err = np.array([int(a) != b for a, b in zip(data[s:], w + cont)])
        if err.sum() < th:
            break
    return bool(err.sum() >= th), len(data) - int(err.sum()), err


def eco(ctx, n, data, th=None, **kw):
    pt = cdsp.PrbsEnum[E[n]]
    lost, good, err = cdsp.rx.prbs_checker_econ(pt, data.copy()) if th is None else cdsp.rx.prbs_checker_econ(pt, data.copy(), th)
    wl, wg, we = eco_ref(n, data, 100 if th is None else th)
    ctx.step()
    ctx.same(np.asarray(err).astype(bool), we, 'economy checker: error positions', prbs=n, threshold=th, **kw)
    ctx.check(int(good) == wg, 'economy checker: number of correct bits', got=int(good), want=wg, prbs=n, threshold=th, **kw)
    ctx.check(bool(lost) == wl, 'economy checker: lock verdict', got=bool(lost), want=wl, prbs=n, threshold=th, **kw)


def eco_clean(ctx, n, starts, length):
    for s in starts:
        d = seq(n, s, length)
        eco(ctx, n, d, phase=s)
        eco(ctx, n, d, 1, phase=s)
        ctx.state(n, s)
        ctx.trace()


def eco_single(ctx, n, start, length):
    """One error: inside the seed windows, or later where it is reported exactly."""
    d0 = seq(n, start, length)
    for p in range(length):
        d = d0.copy()
        d[p] ^= 1
        for th in (1, 2, 5, None, 10 ** 6):
            eco(ctx, n, d, th, phase=start, errors=(p,))
        if p >= n:
            _, _, e = cdsp.rx.prbs_checker_econ(cdsp.PrbsEnum[E[n]], d)
            ctx.same(np.nonzero(np.asarray(e))[0], [p], 'economy checker: an error behind a clean seed is reported exactly', prbs=n, phase=start, error=p)
        ctx.state(n, start, p, length)
        ctx.trace()


def eco_pairs(ctx, start):
    d0 = seq(7, start, 180)
    for pos in itertools.combinations(range(20), 2):
        for extra in ((), (60,), (60, 61, 150)):
            d = d0.copy()
            d[list(pos + extra)] ^= 1
            for th in (1, 4, 50, None):
                eco(ctx, 7, d, th, phase=start, errors=pos + extra)
        ctx.state(start, pos)
        ctx.trace()


def eco_masks(ctx, start, hi):
    d0 = seq(7, start, 150)
    for m in range(128):
        m = hi * 128 + m
        d = d0.copy()
        d[:10] ^= np.array([(m >> i) & 1 for i in range(10)])
        eco(ctx, 7, d, 20, phase=start, mask=m)
        eco(ctx, 7, d, None, phase=start, mask=m)
        ctx.state(start, m)
        ctx.trace()


def eco_lengths(ctx, n, lens):
    for L in lens:
        d = seq(n, 5, L)
        eco(ctx, n, d, None, length=L)
        d[-1] ^= 1
        eco(ctx, n, d, 1, length=L)
        ctx.state(n, L)
    ctx.trace()


def types(ctx, n, starts):
    """Data and reference bits of every element type."""
    pt = cdsp.PrbsEnum[E[n]]
    for st in starts:
        data = seq(n, st, 2 ** n + 40)
        pos = (3, 2 ** n // 2, 2 ** n + 1)
        want = np.zeros(len(data), dtype=bool)
        want[list(pos)] = True
        data[list(pos)] ^= 1
        wl, wg, we = eco_ref(n, data, 100)
        for dt in (np.int8, np.uint8, np.uint16, np.int32, bool, np.float64):
            d = data.astype(dt)
            kw = dict(prbs=n, phase=st, dtype=np.dtype(dt).name)
            verdict(ctx, cdsp.rx.prbs_checker(pt, d, False), d, want, 100, 'checker', **kw)
            verdict(ctx, cdsp.rx.prbs_checker(pt, d, False, prbs_seq=_cache(n).astype(dt)), d, want, 100, 'checker with reference', **kw)
            verdict(ctx, cdsp.rx.prbs_checker(pt, data, False, prbs_seq=_cache(n).astype(dt)), data, want, 100, 'checker with reference', **kw)
            verdict(ctx, cdsp.rx.prbs_checker(pt, d, True, prbs_seq=np.roll(_cache(n), -st).astype(dt)), d, want, 100, 'checker with aligned reference', **kw)
            lost, good, err = cdsp.rx.prbs_checker_econ(pt, d)
            ctx.same(np.asarray(err).astype(bool), we, 'economy checker: error positions', **kw)
            ctx.check(bool(lost) == wl and int(good) == wg, 'economy checker: verdict', **kw)
            ctx.step()
        ctx.state('types', n, st)
        ctx.trace()


CASES = {f.__name__: f for f in (phases, single, pairs, bursts, lengths, eco_clean, eco_single, eco_pairs, eco_masks, eco_lengths, no_lock, eco_default, types, flood)}


def parts(total, k):
    return [list(range(i, min(i + k, total))) for i in range(0, total, k)]


def tasks(tier):
    th = tier == 'thorough'
    for n in (7, 11):
        for length in (300, 40000, 65536 + 50, 131072 + 10):
            yield 'flood', dict(n=n, length=length)
    for n in (7, 9, 11):
        yield 'types', dict(n=n, starts=[0, 1, 33, 100])
    for st in parts(127, 16):
        yield 'phases', dict(n=7, starts=st, length=127)
        yield 'phases', dict(n=7, starts=st, length=300)
        yield 'single', dict(n=7, starts=st, length=135)
    for st in parts(511, 128):
        yield 'phases', dict(n=9, starts=st, length=600)
    for st in parts(2047, 256):
        yield 'phases', dict(n=11, starts=st, length=2047)
    for s in (0, 100, 1000):
        yield 'single', dict(n=9, starts=[s], length=520)
    for s in ((0, 3, 64, 126) if not th else range(0, 127, 8)):
        yield 'pairs', dict(start=s, length=127)
    for n in (7, 9, 11):
        for s in (0, 1, 50, 2 ** n - 2):
            yield 'bursts', dict(n=n, start=s)
    yield 'lengths', dict(n=7, starts=[0, 1, 17, 126], lens=list(range(7, 400)))
    yield 'lengths', dict(n=9, starts=[0, 17], lens=list(range(9, 60)) + list(range(505, 520)) + [1021, 1022, 1023, 3000])
    yield 'lengths', dict(n=13, starts=[5], lens=[13, 100, 8190, 8191, 8192, 20000])
    yield 'lengths', dict(n=15, starts=[9], lens=[32766, 32767, 32768, 65535])
    if th:
        yield 'lengths', dict(n=15, starts=[5, 30000], lens=[15, 100, 32766, 32767, 32768, 70000])
        yield 'single', dict(n=11, starts=[77], length=2050)
    for n in (7, 9):
        yield 'eco_default', dict(n=n)
    for st in parts(127, 64):
        yield 'no_lock', dict(n=7, shifts=st, length=300)
        yield 'no_lock', dict(n=9, shifts=st, length=400)
    for st in parts(127, 32):
        yield 'eco_clean', dict(n=7, starts=st, length=260)
    for st in parts(511, 128):
        yield 'eco_clean', dict(n=9, starts=st, length=300)
    for s in (0, 1, 40, 126):
        yield 'eco_single', dict(n=7, start=s, length=150)
        yield 'eco_pairs', dict(start=s)
        for hi in range(8):
            yield 'eco_masks', dict(start=s, hi=hi)
    for n in (9, 11, 13):
        yield 'eco_single', dict(n=n, start=33, length=120)
    for n in (7, 9, 11, 13, 15):
        yield 'eco_lengths', dict(n=n, lens=list(range(2 * n, 2 * n + 150)) + [1000])
