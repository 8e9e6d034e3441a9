"""Calls are pure: they leave their arguments alone and their result does not depend on what was called before."""
import itertools
import copy
import os
import pickle
import sys
import numpy as np
import CommDspy as cdsp
from CommDspy import auxiliary as aux
from CommDspy.misc.help_classes import Filter, FilterTII, FfeDfeFilterTII
from CommDspy.misc.least_squares import least_squares
from CommDspy.misc.ml_decoding import Trellis
from CommDspy.digital_delay import dig_delay_rcos_coeffs
from CommDspy.psa import psa
from mc.core import words, long_word, lfsr

BOUNDS = {
    'quick': 'every ordered pair (and, for 24 operations, triple) out of 100+ public operations and argument settings: arguments unchanged by each call, last result equal to the result in a fresh process, results and arguments '
             'overwritten between the calls; 75 functions x every ordered pair of settings differing in one or two arguments, also in reused arrays, and against arguments differing in one element or by 1e-7; results never share memory with the arguments or with each other; every argument in 4..8 element types and memory layouts; every interleaving of two streaming objects of the same kind with 3 chunks each, sharing their construction arguments',
    'thorough': 'every triple of all operations that take <1 ms, interleavings of 4 chunks each and of three objects with 2 chunks',
}
ASSUMPTIONS = ['results are compared up to 1e-12 (relative); the random parts of noise and jitter are not compared']
C = cdsp.ConstellationEnum
P = cdsp.PrbsEnum
I4 = np.array(long_word(4, 30))
B = np.array(long_word(2, 36))
X = np.round(np.sin(np.arange(48) * 1.3) * 2.7 + 0.11, 3)
G = {0: np.array([[1, 1, 1], [1, 0, 1]])}
G2 = {0: np.array([[1, 0], [0, 1]])}
FB = {0: np.array([1, 1])}
UF = np.array([[0, 1]])
H = np.array([[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]])
LV = np.array([-3., -1., 1., 3.])
RAW = {C.NRZ: np.array([-1., 1.]), C.OOK: np.array([0., 1.]), C.PAM3: np.array([-1., 0., 1.]), C.PAM4: LV}
ONES = np.ones(7, dtype=int)
OPS = {}
P7, P9 = [0, 0, 0, 0, 0, 1, 1], [0, 0, 0, 0, 1, 0, 0, 0, 1]
PERM4 = np.array(list(itertools.product((0, 1), repeat=4)))


def op(name, make, call):
    assert name not in OPS
    OPS[name] = (make, call)


def fn(name, f, *args, **kw):
    op(name, lambda: (copy.deepcopy(args), copy.deepcopy(kw)), lambda a, k: f(*a, **k))


def it_prbs(poly, seed):
    it = cdsp.tx.PrbsIterator(poly, seed)
    r = [next(it) for _ in range(9)]
    return r, it.get_seed(), it.get_prev_seed()


def filt(cls, b, a, x, z, two=None):
    f = cls(b, a, z) if two is None else cls(b, a, z, two)
    return f(x[:20]), f(x[20:])


def prbs_bits(n, k):
    return np.array(lfsr(P7 if n == 7 else P9, [1] * n, k)[0])


def build():
    p7 = np.array(P7)
    fn('prbs_gen', cdsp.tx.prbs_gen, p7, ONES, 40)
    fn('prbs_gen long', cdsp.tx.prbs_gen, p7, np.array([0, 1, 0, 0, 1, 1, 0]), 300)
    fn('prbs_gen 9', cdsp.tx.prbs_gen, np.array(P9), np.ones(9, dtype=int), 20)
    fn('prbs iterator', it_prbs, p7, ONES)
    for t in P:
        fn('polynomial ' + t.name, cdsp.get_polynomial, t)
    for c in C:
        for f in (False, True):
            fn(f'levels {c.name} {f}', cdsp.get_levels, c, f)
    fn('gray levels', cdsp.get_gray_level_vec, 8)
    fn('gray levels 4', cdsp.get_gray_level_vec, 4)
    for m in (2, 4, 16):
        fn(f'bin2symbol {m}', cdsp.tx.bin2symbol, B, m)
        fn(f'bin2symbol {m} flags', cdsp.tx.bin2symbol, B.reshape(2, -1)[0], m, True, True, True, True)
        fn(f'symbol2bin {m}', cdsp.rx.symbol2bin, I4 % m, m)
        fn(f'symbol2bin {m} flags', cdsp.rx.symbol2bin, I4 % m, m, True, True, True, True)
    for c, m in ((C.NRZ, 2), (C.PAM4, 4), (C.PAM3, 3), (C.OOK, 2)):
        fn(f'mapping {c.name}', cdsp.tx.mapping, I4 % m, c)
        fn(f'mapping {c.name} full inv', cdsp.tx.mapping, I4 % m, c, True, None, True)
        fn(f'demapping {c.name}', cdsp.rx.demapping, RAW[c][I4 % m] * 1.0, c)
        fn(f'demapping {c.name} full inv', cdsp.rx.demapping, RAW[c][I4 % m] / np.sqrt(np.mean(RAW[c] ** 2)), c, True, True)
    fn('mapping levels', cdsp.tx.mapping, I4, C.PAM4, False, LV * 0.7)
    fn('mapping levels inv', cdsp.tx.mapping, I4, C.PAM4, False, LV * 0.7, True)
    fn('gray', cdsp.tx.coding_gray, I4)
    fn('gray 2d', cdsp.tx.coding_gray, I4.reshape(5, 6), C.PAM4)
    fn('ungray', cdsp.rx.decoding_gray, I4)
    fn('ungray nrz', cdsp.rx.decoding_gray, I4 % 2, C.NRZ)
    fn('diff', cdsp.tx.coding_differential, I4)
    fn('diff nrz', cdsp.tx.coding_differential, B, C.NRZ)
    fn('undiff', cdsp.rx.decoding_differential, I4)
    fn('undiff 2d', cdsp.rx.decoding_differential, I4.reshape(5, 6))
    for n, e, d in (('manchester', cdsp.tx.coding_manchester, cdsp.rx.decoding_manchester), ('bipolar', cdsp.tx.coding_bipolar, cdsp.rx.decoding_bipolar),
                    ('mlt3', cdsp.tx.coding_mlt3, cdsp.rx.decoding_mlt3), ('dmanchester', cdsp.tx.coding_differential_manchester, cdsp.rx.decoding_differential_manchester)):
        fn(n, e, B)
        y = {'manchester': np.array([0, 1, 1, 0, 0, 1]), 'dmanchester': np.array([0, 1, 1, 0, 0, 1, 0, 1]), 'bipolar': np.array([0, 1, 2, 1, 0, 1, 2, 1, 1]), 'mlt3': np.array([1, 2, 2, 1, 0, 0, 1, 2])}[n]
        fn('un' + n, d, y)
    fn('unbipolar errors', cdsp.rx.decoding_bipolar, np.array([2, 1, 2, 1, 0, 0, 1]), True)
    fn('linear', cdsp.tx.coding_linear, B, H)
    fn('unlinear', cdsp.rx.decoding_linear, B[:35], H)
    fn('unlinear p', cdsp.rx.decoding_linear, B[:35].astype(int), H, True)
    fn('conv', cdsp.tx.coding_conv, B, G)
    fn('conv fb', cdsp.tx.coding_conv, B, G2, FB, UF)
    fn('unconv', cdsp.rx.decoding_conv_viterbi, B[:24], G, 6)
    fn('unconv p', cdsp.rx.decoding_conv_viterbi, B[:24], G, 6, None, None, True)
    fn('unconv fb', cdsp.rx.decoding_conv_viterbi, B[:24], G2, 6, FB, UF)
    fn('unconv ml', cdsp.rx.decoding_conv_ml, B[:24], G, 4)
    fn('unconv ml p', cdsp.rx.decoding_conv_ml, B[:24], G, 4, None, None, True)
    fn('unconv ml fb', cdsp.rx.decoding_conv_ml, B[:24], G2, 4, FB, UF)
    fn('slicer', cdsp.rx.slicer, X)
    fn('slicer levels', cdsp.rx.slicer, X, LV)
    fn('slicer 2d', cdsp.rx.slicer, X.reshape(6, 8), LV * 0.5)
    for t in ('ss', 'u', 's'):
        fn('quantize ' + t, cdsp.rx.quantize, X, 4, 2, t)
    fn('lock', cdsp.rx.lock_pattern_to_signal, X[:20], np.roll(X[:20], 5))
    fn('lock b', cdsp.rx.lock_pattern_to_signal_binary, B[:20], np.roll(B[:20], 5))
    pb = prbs_bits(7, 200)
    pe = pb.copy()
    pe[[20, 50, 51]] ^= 1
    fn('checker', cdsp.rx.prbs_checker, P.PRBS7, pb, False)
    fn('checker errors', cdsp.rx.prbs_checker, P.PRBS7, pe, False, 20)
    fn('checker locked', cdsp.rx.prbs_checker, P.PRBS7, pe[:127], True, 20, pb[:127])
    fn('econ', cdsp.rx.prbs_checker_econ, P.PRBS7, pe, 20)
    fn('ctle filter', cdsp.rx.get_ctle_filter, [5e8], [1e9, 2e9], -3, 10e9, 2)
    fn('ctle', cdsp.rx.ctle, X, [5e8], [1e9, 2e9], -3, 10e9, 2)
    fn('ctle zi', cdsp.rx.ctle, X, [5e8], [1e9, 2e9], -3, 10e9, 2, np.array([0.1, -0.2]))
    f, d = np.array([-0.1, 1.0, -0.2]), np.array([0.2, 0.1])
    fn('ffe', cdsp.rx.ffe_dfe, X, f)
    fn('ffe default', cdsp.rx.ffe_dfe, X)
    fn('ffe dfe', cdsp.rx.ffe_dfe, X, f, d, LV)
    fn('ffe dfe osr', cdsp.rx.ffe_dfe, X, f, d, LV, 2, 0)
    fn('ffe dfe zi', cdsp.rx.ffe_dfe, X, f, d, LV, 1, 0, np.array([0.1, 0.2]), np.array([1., -3.]))
    fn('dfe', cdsp.rx.ffe_dfe, X, None, d, LV)
    fn('lms', cdsp.rx.ddlms_grad, X, X * 0.9, LV, np.arange(-1, 3), np.arange(1, 3))
    fn('lms ref', cdsp.rx.ddlms_grad, X, X * 0.9, LV, np.arange(-1, 3), np.arange(1, 3), np.ones(48))
    fn('lms default', cdsp.rx.ddlms_grad, X, X * 0.9, LV)
    fn('slms', cdsp.rx.soft_ddlms_grad, X, X * 0.9, LV, 0.5, np.arange(-1, 3), np.arange(1, 3))
    fn('slms default', cdsp.rx.soft_ddlms_grad, X, X * 0.9, LV)
    fn('mm', cdsp.rx.mueller_muller_step, X, np.round(X))
    for p in ('rect', 'sinc', 'rcos', 'rrc', 'imp'):
        fn('pulse ' + p, cdsp.channel.pulse_shape, X[:12], 4, 3, p, 0.4)
    fn('rcos', cdsp.channel.rcos_pulse, 4, 3, 0.5, np.arange(-12, 13) / 4)
    fn('rcos default', cdsp.channel.rcos_pulse, 4, 3, 0.5)
    fn('rrc', cdsp.channel.rrc_pulse, 4, 3, 0.5, np.arange(-12, 13) / 4)
    fn('sinc', cdsp.channel.sinc_pulse, 4, 3, np.arange(-12, 13) / 4)
    fn('rect', cdsp.channel.rect_pulse, 4, 3, np.arange(-12, 13) / 4)
    fn('channel', cdsp.channel.awgn_channel, X, [1, 0.5], [1, -0.2])
    fn('channel zi', cdsp.channel.awgn_channel, X, np.array([1, 0.5, 0.1]), np.array([2, -0.2]), None, np.array([0.3, 0.1]))
    op('awgn', lambda: ((X.copy(), 20), {}), lambda a, k: cdsp.channel.awgn(*a).shape)
    op('awgn channel', lambda: ((X.copy(), np.array([1., 0.2]), np.array([1.]), 20, np.array([0.5])), {}), lambda a, k: cdsp.channel.awgn_channel(*a)[0].shape)
    op('jitter', lambda: ((X[:12].copy(), 4, 3, 'rcos', 0.5, 0.1), {}), lambda a, k: cdsp.channel.pulse_shape(*a)[0].shape)
    fn('power', cdsp.power, X)
    fn('rms', cdsp.rms, X + 1j)
    fn('buffer', cdsp.buffer, X, 7, 2, 3, False)
    fn('buffer clip', cdsp.buffer, X, 7, -2, 0, True)
    fn('upsample', cdsp.upsample, X, 3)
    fn('zoh', cdsp.zoh, X, 3)
    fn('perm', cdsp.get_bin_perm, 4)
    fn('hamming', cdsp.hamming, B[:12].reshape(3, 4), PERM4)
    fn('bin2uint', cdsp.bin2uint, B.reshape(9, 4))
    fn('uint2bin', cdsp.uint2bin, I4, 3)
    fn('lagrange', cdsp.dig_delay_lagrange_coeffs, 4, 0.3)
    fn('lagrange back', cdsp.dig_delay_lagrange_coeffs, 4, 0.3, False)
    fn('sinc delay', cdsp.dig_delay_sinc_coeffs, 4, 0.3)
    fn('rcos delay', dig_delay_rcos_coeffs, 4, 0.3)
    fn('oversample', cdsp.digital_oversample, X, 3, 4, 'lagrange')
    fn('oversample sinc', cdsp.digital_oversample, X, 3, 4, 'sinc')
    fn('eye', cdsp.eye_diagram, X, 4, 8, 4, 16)
    fn('psa', psa, np.tile(X, 8), 100.0, 2.0)
    fn('psa dBc', psa, np.tile(X, 8), 100.0, 2.0, 'dBc')
    fn('least squares', least_squares, X.reshape(12, 4), X[:12])
    fn('ridge', least_squares, X.reshape(12, 4), X[:12], 'ridge', 1.0)
    fn('lasso', least_squares, X.reshape(12, 4), X[:12], 'lasso', 0.1)
    fn('filter', filt, Filter, np.array([1., 0.5]), np.array([1., -0.3, 0.1]), X, None)
    fn('filter z', filt, Filter, np.array([1., 0.5]), np.array([1., -0.3]), X, np.array([0.3, 0.2]), np.array([0.4]))
    fn('filter2', filt, FilterTII, np.array([1., 0.5]), np.array([1., -0.3, 0.1]), X, None)
    fn('filter2 z', filt, FilterTII, np.array([1., 0.5]), np.array([1., -0.3, 0.1]), X, np.array([0.3, 0.2]))
    fn('filter3 z', filt, FfeDfeFilterTII, np.array([1., 0.5]), np.array([1., -0.3, 0.1]), X, LV, np.array([0.3, 0.2]))
    op('trellis', lambda: ((copy.deepcopy(G2), copy.deepcopy(FB), UF.copy()), {}), lambda a, k: sorted((n, repr(v)) for n, v in vars(Trellis(*a)).items() if isinstance(v, (int, float))))
    s7 = np.convolve(2.0 * prbs_bits(7, 254) - 1, [0.1, 1, 0.3])[2:256]
    fn('channel estimation', cdsp.channel_estimation_prbs, P.PRBS7, s7, C.NRZ, False, 6, 3)
    fn('equalization', cdsp.equalization_estimation_prbs, P.PRBS7, s7, C.NRZ, 4, 2, 1, True, gray_coded=False)
    fn('equalization plain', cdsp.equalization_estimation, np.roll(s7, -1), s7, 3, 1, 2)
    fn('bad binary', expect_error, cdsp.tx.coding_mlt3, np.array([0, 1, 2]))
    fn('bad level', expect_error, cdsp.tx.mapping, I4, C.PAM4, False, np.array([1, 2]))


def expect_error(f, *a):
    try:
        f(*a)
    except Exception as e:
        return type(e).__name__
    return 'accepted'


build()
NAMES = list(OPS)


def freeze(x):
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return [freeze(v) for v in x]
    if isinstance(x, np.ndarray):
        return np.array(x)
    if callable(x) or isinstance(x, type):
        return getattr(x, '__name__', '?')
    return x


def equal(a, b, tol=0.0):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k], tol) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(p, q, tol) for p, q in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if tol and a.dtype.kind in 'fc':
            s = max(1.0, float(np.nanmax(np.abs(a)))) if a.size else 1.0
            return bool(np.all((np.abs(a - b) <= tol * s) | (a == b) | (np.isnan(a) & np.isnan(b))))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
    if isinstance(a, (float, complex, np.floating)):
        return a == b or (a != a and b != b) or (bool(tol) and abs(a - b) <= tol * max(1.0, abs(a)))
    return type(a) == type(b) and a == b if not isinstance(a, (int, np.integer)) else a == b


def scribble(x):
    """Overwrite everything reachable that the caller owns."""
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
    elif isinstance(x, (tuple, list)):
        for v in x:
            scribble(v)
        if isinstance(x, list) and x:
            x[:] = x[::-1]
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in 'iufcb':
        x[...] = 1 if x.dtype.kind == 'b' else x[...] * 3 + 7


_BASE = {}
_ZYGOTE = []


def lookup(name):
    return OPS[name] if name in OPS else SETTINGS[name]


def answer(name, fh):
    try:
        a, k = lookup(name)[0]()
        out = ('ok', freeze(lookup(name)[1](a, k)))
    except Exception as e:
        out = ('error', f'{type(e).__name__}: {e}')
    pickle.dump(out, fh)
    fh.flush()


def zygote():
    """A process forked before this one called anything; it forks a pristine child for every base result."""
    if _ZYGOTE:
        return _ZYGOTE[0]
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w1)
            os.close(r2)
            with os.fdopen(r1, 'rb') as req, os.fdopen(w2, 'wb') as rep:
                while True:
                    try:
                        name = pickle.load(req)
                    except EOFError:
                        break
                    pid = os.fork()
                    if pid == 0:
                        try:
                            answer(name, rep)
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _ZYGOTE.append((os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb')))
    return _ZYGOTE[0]


def base(name):
    """The result of the operation in a process where nothing else was called."""
    if name not in _BASE:
        w, r = zygote()
        pickle.dump(name, w)
        w.flush()
        try:
            _BASE[name] = pickle.load(r)
        except EOFError:
            _BASE[name] = ('error', 'no result')
    return _BASE[name]


def run(ctx, name, hist, dirty=True):
    a, k = OPS[name][0]()
    keep = freeze((a, k))
    kind, want = base(name)
    ctx.check(kind == 'ok', f'{name}: {want}')
    r = OPS[name][1](a, k)
    ctx.step()
    ctx.check(equal(keep, freeze((a, k))), f'{name} changed its arguments', before=keep, after=freeze((a, k)))
    got = freeze(r)
    ctx.check(equal(want, got, 1e-12), f'{name} gives another result than in a fresh process', history=hist, got=got, want=want)
    if dirty:
        scribble(r)
        scribble(a)
        scribble(k)


def pairs(ctx, first):
    for second in NAMES:
        run(ctx, first, (first, second))
        run(ctx, second, (first, second))
        run(ctx, first, (first, second, first), False)
        ctx.state(first, second)
        ctx.trace()
    ctx.sample(history=(first, second, first))


def triples(ctx, first, names):
    for b in names:
        for c in names:
            for n in (first, b, c):
                run(ctx, n, (first, b, c))
            ctx.state(first, b, c)
            ctx.trace()


def shared(ctx, first):
    """The same argument objects handed to the same operation again and again, and its outputs fed with earlier outputs alive."""
    a, k = OPS[first][0]()
    kind, want = base(first)
    rs = []
    for i in range(4):
        r = OPS[first][1](a, k)
        ctx.step()
        rs.append(r)
    for r in rs:
        ctx.check(equal(want, freeze(r), 1e-12), f'{first}: repeated calls with the same arguments disagree, or a later call changed an earlier result', got=freeze(r), want=want)
    ctx.state('shared', first)
    ctx.trace()


# ------------------------------------------------------------------------------------------------ streaming objects
def objs():
    z = np.array([0.3, -0.2])
    b, a = np.array([1., 0.5]), np.array([1., -0.3, 0.1])
    zf, zi = np.array([0.1, 0.7]), np.array([0.4, 0.2])
    poly, seed = np.array(P7), np.array([0, 1, 1, 0, 1, 0, 0])

    class It:
        def __init__(self):
            self.it = cdsp.tx.PrbsIterator(poly, seed)

        def __call__(self, x):
            return [next(self.it) for _ in x], self.it.get_seed().copy(), self.it.get_prev_seed().copy()

    return {'Filter': (lambda: Filter(b, a, zf, zi), (b, a, zf, zi)), 'FilterTII': (lambda: FilterTII(b, a, z), (b, a, z)),
            'FilterTII0': (lambda: FilterTII(b, a), (b, a)), 'Filter0': (lambda: Filter(b, a), (b, a)),
            'FfeDfeFilterTII': (lambda: FfeDfeFilterTII(b, a, LV, z), (b, a, z)), 'FfeDfe0': (lambda: FfeDfeFilterTII(b, a, LV), (b, a)),
            'PrbsIterator': (It, (poly, seed))}


def interleave(ctx, kind, counts):
    mk, shared_args = objs()[kind]
    keep = freeze(shared_args)
    streams = [split3(np.roll(X, 5 * i), c) for i, c in enumerate(counts)]
    solo = []
    for s in streams:
        o = mk()
        solo.append([freeze(o(c.copy())) for c in s])
    sched = set(itertools.permutations([i for i, c in enumerate(counts) for _ in range(c)]))
    for order in sorted(sched):
        os_ = [mk() for _ in counts]
        pos = [0] * len(counts)
        for i in order:
            g = os_[i](streams[i][pos[i]].copy())
            ctx.step()
            ctx.check(equal(solo[i][pos[i]], freeze(g), 1e-12), f'{kind}: interleaved objects influence each other', order=order, got=g, want=solo[i][pos[i]])
            scribble(g)
            pos[i] += 1
        ctx.check(equal(keep, freeze(shared_args)), f'{kind} changed its construction arguments', order=order)
        ctx.state(kind, order)
        ctx.trace()


def split3(x, n):
    cuts = [0] + [len(x) * i // n for i in range(1, n)] + [len(x)]
    return [x[p:q] for p, q in zip(cuts, cuts[1:])]


# ------------------------------------------------------------------------------------------------ settings of one function
GROUPS = {}


def group(name, f, base, alts=None):
    """f with its base arguments and with every single argument replaced by each alternative."""
    rows = [list(base)]
    for pos, vals in (alts or {}).items():
        for v in vals:
            row = list(base)
            while len(row) <= pos:
                raise AssertionError((name, pos))
            row[pos] = v
            rows.append(row)
    GROUPS[name] = []
    for i, row in enumerate(rows):
        key = f'{name} #{i}'
        SETTINGS[key] = (lambda row=row: (copy.deepcopy(tuple(row)), {}), lambda a, k, f=f: f(*a))
        GROUPS[name].append(key)


SETTINGS = OPS2 = {}


def groups():
    t, r, ch = cdsp.tx, cdsp.rx, cdsp.channel
    p7, p9 = np.array(P7), np.array(P9)
    s2 = np.array([0, 1, 0, 0, 1, 1, 0])
    B2, I2 = np.roll(B, 5) ^ (np.arange(36) % 3 == 0), np.roll(I4, 3)
    X2 = np.round(np.cos(np.arange(48) * 0.9) * 2.1 - 0.3, 3)
    group('prbs_gen', t.prbs_gen, [p7, ONES, 40], {0: [np.array([0, 0, 1, 0, 0, 0, 1]), np.array([1, 0, 0, 0, 0, 0, 1])], 1: [s2], 2: [41, 127, 300, 3, 0]})
    group('iterator', it_prbs, [p7, ONES], {0: [np.array([0, 0, 1, 0, 0, 0, 1])], 1: [s2]})
    group('bin2symbol', t.bin2symbol, [B, 4, False, False, False, False], {0: [B2, B[:35], B.reshape(4, 9)], 1: [2, 8, 16], 2: [True], 3: [True], 4: [True], 5: [True]})
    group('symbol2bin', r.symbol2bin, [I4, 4, False, False, False, False], {0: [I2, I4.reshape(5, 6)], 1: [8, 16], 2: [True], 3: [True], 4: [True], 5: [True]})
    group('mapping', t.mapping, [I4, C.PAM4, False, None, False], {0: [I2, I4.reshape(5, 6)], 1: [], 2: [True], 3: [LV * 0.7, LV + 0.5], 4: [True]})
    group('mapping inv', t.mapping, [I4 % 2, C.NRZ, True, None, True], {0: [I2 % 2], 1: [C.OOK], 2: [False], 4: [False]})
    group('demapping', r.demapping, [LV[I4] + 0.2, C.PAM4, False, False], {0: [LV[I2] - 0.3, (LV[I4] - 0.1).reshape(5, 6)], 2: [True], 3: [True]})
    group('demapping nrz', r.demapping, [np.sign(X) + 0.1, C.NRZ, True, True], {0: [np.sign(X2)], 1: [C.OOK, C.PAM3], 2: [False], 3: [False]})
    for nm, f in (('gray', t.coding_gray), ('ungray', r.decoding_gray), ('diff', t.coding_differential), ('undiff', r.decoding_differential)):
        group(nm, f, [I4 % 2, C.PAM4], {0: [I4, I2, I4.reshape(5, 6)], 1: [C.NRZ, C.OOK] + ([C.PAM3] if 'diff' in nm else [])})
    for nm, f in (('manchester', t.coding_manchester), ('bipolar', t.coding_bipolar), ('mlt3', t.coding_mlt3), ('dmanchester', t.coding_differential_manchester)):
        group(nm, f, [B], {0: [B2, B.reshape(6, 6), B.reshape(3, 3, 4), B.astype(float), B.astype(np.int8)]})
        e = {'manchester': np.array([0, 1, 1, 0] * 6), 'bipolar': np.array([0, 1, 2, 1, 1, 0] * 4), 'mlt3': np.array([1, 2, 1, 0] * 6), 'dmanchester': np.array([0, 1, 0, 1, 0, 0, 1, 1] * 3)}[nm]
        d = {'manchester': r.decoding_manchester, 'bipolar': r.decoding_bipolar, 'mlt3': r.decoding_mlt3, 'dmanchester': r.decoding_differential_manchester}[nm]
        group('un' + nm, d, [e], {0: [np.roll(e, 2), e.reshape(4, 6), e.reshape(2, 3, 4), e.astype(float)]})
    eb = np.array([2, 1, 2, 1, 0, 0, 1, 0, 2, 2, 1, 0])
    group('unbipolar errors', r.decoding_bipolar, [eb, True], {0: [eb[::-1].copy(), eb.reshape(3, 4), eb.astype(float)], 1: [False]})
    H2 = np.array([[1, 0, 0, 0, 1, 1, 1], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 1, 1, 0], [0, 0, 0, 1, 0, 1, 1]])
    group('linear', t.coding_linear, [B, H], {0: [B2, B[:33]], 1: [H2, H[:2]]})
    group('unlinear', r.decoding_linear, [B[:35], H, True], {0: [B2[:35], B], 1: [H2, H[:2]], 2: [False]})
    HB = np.concatenate([np.eye(8, dtype=int), np.array(long_word(2, 72))[:72].reshape(8, 9)], axis=1)
    group('linear big', t.coding_linear, [np.tile(B, 2), HB], {})
    group('unlinear big', r.decoding_linear, [np.tile(B, 2)[:68], HB, False], {})
    Gb = {0: np.array([[1, 0, 1], [0, 1, 1]])}
    GT = {0: np.array([[1, 1], [0, 1], [1, 0]]), 1: np.array([[0, 1], [1, 1], [1, 1]])}
    group('conv', t.coding_conv, [B, G], {0: [B2, B[:11]], 1: [Gb, GT]})
    Gf = {0: np.array([[1, 0, 0], [1, 0, 1]])}
    group('conv fb', t.coding_conv, [B, Gf, {0: np.array([1, 1, 1])}, UF], {0: [B2], 1: [{0: np.array([[1, 0, 0], [1, 1, 1]])}], 2: [{0: np.array([1, 0, 1])}, {0: np.array([1, 1, 0])}]})
    for nm, f in (('viterbi', r.decoding_conv_viterbi), ('ml', r.decoding_conv_ml)):
        group(nm, f, [B[:24], G, 6, None, None, False], {0: [B2[:24], B[:23]], 1: [Gb, GT], 2: [4, 12 if nm == 'viterbi' else 2], 5: [True]})
        group(nm + ' fb', f, [B[:24], Gf, 6, {0: np.array([1, 1, 1])}, UF, False], {0: [B2[:24]], 1: [{0: np.array([[1, 0, 0], [1, 1, 1]])}], 2: [4], 3: [{0: np.array([1, 0, 1])}, {0: np.array([1, 1, 0])}], 5: [True]})
    group('slicer', r.slicer, [X, LV], {0: [X2, X.reshape(6, 8), X[:, None].copy()], 1: [LV * 0.5, np.array([-1., 1.]), LV[::-1].copy()]})
    group('slicer exact', r.slicer, [LV[I4], LV], {0: [LV[I4].reshape(5, 6), LV[I4].astype(int)], 1: [None, LV.astype(int)]})
    group('quantize exact', r.quantize, [np.round(X), 4, 0, 'ss'], {0: [np.round(X).reshape(6, 8)]})
    group('channel unit', ch.awgn_channel, [X, [1.0], [1.0]], {0: [I4]})
    group('ffe unit', r.ffe_dfe, [X, np.array([1.0])], {0: [I4]})
    group('oversample 1', cdsp.digital_oversample, [X, 1, 4, 'sinc'], {0: [I4]})
    group('pulse 1', ch.pulse_shape, [X[:12], 1, 1, 'imp'], {3: ['rect', 'sinc']})
    group('bin2symbol 2', t.bin2symbol, [B, 2], {})
    group('symbol2bin 2', r.symbol2bin, [B, 2], {})
    group('quantize', r.quantize, [X, 4, 2, 'ss'], {0: [X2, X.reshape(6, 8)], 1: [3, 5], 2: [0, 1, -1], 3: ['u', 's']})
    group('lock', r.lock_pattern_to_signal, [X[:20], np.roll(X[:20], 5)], {0: [X2[:20], X[:15]], 1: [np.roll(X[:20], 9), X[3:12].copy(), np.tile(X[:20], 2)]})
    group('lock b', r.lock_pattern_to_signal_binary, [B[:20], np.roll(B[:20], 5)], {0: [B2[:20], B[:15]], 1: [np.roll(B[:20], 9), B[3:12].copy(), np.tile(B[:20], 2)]})
    pb = prbs_bits(7, 254)
    pe = pb.copy()
    pe[[20, 50, 51]] ^= 1
    group('checker', r.prbs_checker, [P.PRBS7, pe, False, 20, None], {1: [pb, pe[30:200].copy()], 2: [True], 3: [2, 3], 4: [np.roll(pb[:127], 4)]})
    group('econ', r.prbs_checker_econ, [P.PRBS7, pe, 20], {1: [pb, pe[30:200].copy()], 2: [2, 10]})
    group('checker types', r.prbs_checker, [P.PRBS7, pe, False], {0: [P.PRBS9, P.PRBS11]})
    group('econ types', r.prbs_checker_econ, [P.PRBS7, pe], {0: [P.PRBS9, P.PRBS11]})
    group('ctle filter', r.get_ctle_filter, [[5e8], [1e9, 2e9], -3, 10e9, 2], {0: [[6e8]], 1: [[1e9, 3e9], [2e9, 1.5e9]], 2: [-6, 0], 3: [20e9], 4: [1, 4]})
    group('ctle', r.ctle, [X, [5e8], [1e9, 2e9], -3, 10e9, 2, np.array([0.1, -0.2])], {0: [X2], 1: [[6e8]], 2: [[1e9, 3e9]], 3: [-6], 4: [20e9], 5: [1], 6: [np.array([0.3, 0.4]), None]})
    f, d = np.array([-0.1, 1.0, -0.2]), np.array([0.2, 0.1])
    group('ffe_dfe', r.ffe_dfe, [X, f, d, LV, 1, 0, np.array([0.1, 0.2]), np.array([1., -3.])],
          {0: [X2], 1: [f * 0.9, f[::-1].copy()], 2: [d * 0.5, None], 3: [LV * 0.5, None], 4: [2], 6: [None, np.array([0.4, 0.1])], 7: [None, np.array([3., 1.])]})
    group('ffe_dfe osr', r.ffe_dfe, [X, f, d, LV, 4, 1, None, None], {0: [X2], 1: [f * 0.9], 2: [d * 0.5], 3: [LV * 0.5], 4: [2, 3], 5: [0, 2]})
    group('lms', r.ddlms_grad, [X, X * 0.9, LV, np.arange(-1, 3), np.arange(1, 3), np.ones(48)],
          {0: [X2], 1: [X2 * 0.8], 2: [LV * 0.5], 3: [np.array([0]), np.array([])], 4: [np.array([2]), np.array([])], 5: [None, -np.ones(48)]})
    group('slms', r.soft_ddlms_grad, [X, X * 0.9, LV, 0.5, np.arange(-1, 3), np.arange(1, 3), np.ones(48)],
          {0: [X2], 1: [X2 * 0.8], 2: [LV * 0.5], 3: [0.7, 1], 4: [np.array([0])], 5: [np.array([2])], 6: [None]})
    group('mm', r.mueller_muller_step, [X, np.round(X), 1, 1, 1e-3], {0: [X2, np.roll(X, 1)], 1: [np.round(X2)], 2: [3], 3: [3], 4: [10.0]})
    for pl in ('rect', 'sinc', 'rcos', 'rrc'):
        group('pulse ' + pl, ch.pulse_shape, [X[:12], 4, 3, pl, 0.4], {0: [X2[:12], X[:3].copy(), I4[:12]], 1: [2, 8], 2: [2, 4], 4: [0.5, 0.0, 1.0]})
    group('pulse kinds', ch.pulse_shape, [X[:12], 4, 3, 'rcos', 0.4, 0.0, None], {3: ['rect', 'sinc', 'rrc'], 6: [np.arange(23) / 10., np.ones(23)]})
    tt = np.arange(-12, 13) / 4
    for nm, fu in (('rcos', ch.rcos_pulse), ('rrc', ch.rrc_pulse)):
        group('fn ' + nm, fu, [4, 3, 0.5, None], {0: [2, 8], 1: [2, 5], 2: [0.25, 0.0, 1.0], 3: [tt, tt + 0.1]})
    for nm, fu in (('sinc', ch.sinc_pulse), ('rect', ch.rect_pulse)):
        group('fn ' + nm, fu, [4, 3, None], {0: [2, 8], 1: [2, 5], 2: [tt, tt + 0.1]})
    group('channel', ch.awgn_channel, [X, np.array([1, 0.5, 0.1]), np.array([2, -0.2]), None, np.array([0.3, 0.1])],
          {0: [X2, I4], 1: [np.array([1, 0.4, 0.1])], 2: [np.array([2, 0.2]), [1, 0.3], np.array([1, 0.1, 0.2])], 4: [None, np.array([0.5, 0.2])]})
    group('power', cdsp.power, [X], {0: [X2, X + 1j * X2, X.reshape(6, 8)]})
    group('rms', cdsp.rms, [X], {0: [X2, X + 1j * X2, X.reshape(6, 8)]})
    group('buffer', cdsp.buffer, [X, 7, 2, 3, False], {0: [X2, X[:31].copy(), I4], 1: [6, 9], 2: [0, -3, 3], 3: [0, 5], 4: [True]})
    group('upsample', cdsp.upsample, [X, 3], {0: [X2, I4], 1: [1, 2]})
    group('zoh', cdsp.zoh, [X, 3], {0: [X2, I4], 1: [1, 2]})
    group('levels', cdsp.get_levels, [C.PAM4, False], {0: [C.NRZ, C.PAM3, C.OOK], 1: [True]})
    group('levels full', cdsp.get_levels, [C.PAM4, True], {0: [C.NRZ, C.PAM3, C.OOK], 1: [False]})
    group('polynomial', cdsp.get_polynomial, [P.PRBS7], {0: [t_ for t_ in P if t_ is not P.PRBS7]})
    group('gray levels', cdsp.get_gray_level_vec, [4], {0: [2, 3, 8, 5, 16]})
    group('perm', cdsp.get_bin_perm, [3], {0: [1, 2, 4, 5]})
    group('hamming', cdsp.hamming, [B[:12].reshape(3, 4), PERM4], {0: [B2[:12].reshape(3, 4)], 1: [PERM4[::-1].copy(), PERM4[3:9].copy()]})
    group('bin2uint', cdsp.bin2uint, [B.reshape(9, 4)], {0: [B2.reshape(9, 4), B.reshape(4, 9), B.reshape(3, 3, 4)]})
    group('uint2bin', cdsp.uint2bin, [I4, 3], {0: [I2, I4.reshape(5, 6)], 1: [2, 5]})
    for nm, fu in (('lagrange', cdsp.dig_delay_lagrange_coeffs), ('sinc delay', cdsp.dig_delay_sinc_coeffs)):
        group(nm, fu, [3, 0.3, True], {0: [4, 5], 1: [0.4, 0.0, 1.0], 2: [False]})
    group('rcos delay', dig_delay_rcos_coeffs, [3, 0.3, True, 0.5], {0: [4, 5], 1: [0.4, 0.0], 2: [False], 3: [0.2, 0.0]})
    group('oversample', cdsp.digital_oversample, [X, 3, 4, 'rcos', 0.3], {0: [X2, X[:20].copy(), I4], 1: [2, 5], 2: [3, 6], 3: ['sinc', 'lagrange'], 4: [0.5, 0]})
    group('eye', cdsp.eye_diagram, [X, 4, 4, 3, 16, False], {0: [X2, X[:24].copy(), I4[:28]], 1: [2], 2: [2, 8], 3: [2, 4], 4: [15, 32], 5: [True]})
    XL, XM = np.tile(X, 8), np.tile(X2, 8)
    group('psa', psa, [XL, 100.0, 2.0, 'dBm', None, 50, 4, 'hann', 0.5, 1, 'DSB'],
          {0: [XM, XL + 0.5j * XM], 1: [120.0], 2: [3.0], 3: ['dB', 'dBm/Hz', 'dBc', 'dBuv', 'dBuv/sqrt(Hz)', 'dBFs'], 4: [5.0], 5: [75], 6: [2], 7: ['hamming', 'flattop', 'blackman', 'blackmanharris'], 8: [0.75], 9: [2], 10: ['SSB']})
    A1 = X.reshape(12, 4)
    group('least squares', least_squares, [A1, X[:12], 'ridge', 1.0], {0: [X2.reshape(12, 4)], 1: [X2[:12]], 2: ['None', 'lasso'], 3: [0.1, 3.0]})
    s7 = np.convolve(2.0 * prbs_bits(7, 254) - 1, [0.1, 1, 0.3])[2:256]
    group('channel estimation', cdsp.channel_estimation_prbs, [P.PRBS7, s7, C.NRZ, False, 6, 3, False, False, False, False, False],
          {1: [np.roll(s7, 40), s7[:140].copy(), -s7], 2: [C.OOK], 3: [True], 4: [5], 5: [2], 6: [True], 8: [True], 10: [True]})
    group('equalization', cdsp.equalization_estimation_prbs, [P.PRBS7, s7, C.NRZ, 4, 2, 1, True, 'None', 0, False, False, False, False, False],
          {1: [np.roll(s7, 40), s7[:140].copy()], 2: [C.OOK], 3: [3], 4: [1], 5: [0, 2], 6: [False], 9: [True], 11: [True], 13: [True]})
    group('equalization reg', cdsp.equalization_estimation_prbs, [P.PRBS7, s7, C.NRZ, 4, 2, 1, True, 'ridge', 0.5, False, False, False, False, False], {7: ['lasso', 'None'], 8: [0.1, 0, 2.0]})
    group('equalization plain', cdsp.equalization_estimation, [np.roll(s7, -1), s7, 3, 1, 2, False, 'None', 0], {0: [np.roll(s7, -2)], 1: [np.roll(s7, 1)], 2: [4], 3: [2], 4: [0, 1], 5: [True], 6: ['ridge'], 7: [0.3]})
    for nm, cls in (('TII', FilterTII), ('DF', Filter)):
        group('filter ' + nm, filt, [cls, np.array([1., 0.5]), np.array([1., -0.3]), X, None], {1: [np.array([1., 0.4]), [1, 0.5]], 2: [np.array([2., -0.3])], 3: [X2, I4], 4: [np.array([0.3]) if nm == 'TII' else np.array([0.3, 0.2])]})
    group('filter slicer', filt, [FfeDfeFilterTII, np.array([1., 0.5]), np.array([1., -0.3, 0.1]), X, LV, np.array([0.3, 0.2])], {1: [np.array([1., 0.4])], 2: [np.array([1., 0.3, 0.1])], 3: [X2], 4: [LV * 0.5], 5: [None]})


groups()


def run2(ctx, key, hist, dirty=True):
    OPS[key] = SETTINGS[key]
    try:
        if base(key)[0] == 'ok':
            run(ctx, key, hist, dirty)
        else:  # outside the domain: refused before, refused again, and nothing is changed
            a, k = SETTINGS[key][0]()
            keep = freeze((a, k))
            try:
                SETTINGS[key][1](a, k)
                got = 'accepted'
            except Exception as e:
                got = f'{type(e).__name__}: {e}'
            ctx.step()
            ctx.check(got == base(key)[1], f'{key}: accepted or refused depending on history', history=hist, got=got, want=base(key)[1])
            ctx.check(equal(keep, freeze((a, k))), f'{key} changed its arguments')
    finally:
        del OPS[key]


def settings(ctx, name, part=0, parts=1):
    """One function called with every ordered pair of settings that differ in one or two arguments: nothing is carried over."""
    keys = GROUPS[name]
    for i, a in enumerate(keys):
        if i % parts != part:
            continue
        for b in keys:
            run2(ctx, a, (a, b))
            run2(ctx, b, (a, b))
            run2(ctx, a, (a, b, a), False)
            ctx.state(a, b)
            ctx.trace()


def near_of(x):
    """Values that differ from x only slightly or in one place."""
    if isinstance(x, (bool, str)) or x is None or isinstance(x, (C, P)) or callable(x):
        return
    if isinstance(x, (float, np.floating)):
        yield x * (1 + 1e-3) if x else 1e-3
        yield x * (1 + 1e-7) if x else 1e-7
    elif isinstance(x, (int, np.integer)):
        yield x + 1
    elif isinstance(x, dict):
        for q in x:
            for v in near_of(x[q]):
                yield {**x, q: v}
    elif isinstance(x, list):
        for i in sorted({0, len(x) - 1}):
            for v in near_of(x[i]):
                yield x[:i] + [v] + x[i + 1:]
    elif isinstance(x, np.ndarray) and x.size:
        for i in sorted({0, x.size // 2, x.size - 1}):
            if x.dtype.kind in 'fc':
                for d in (1e-3, 1e-7):
                    y = x.copy()
                    y.flat[i] += d
                    yield y
            elif x.dtype.kind in 'iu':
                vals = [v for v in np.unique(x) if v != x.flat[i]] or [1 - x.flat[i]]
                y = x.copy()
                y.flat[i] = vals[0]
                yield y


NEAR = {}


def build_near():
    for name, keys in list(GROUPS.items()):
        mk, call = SETTINGS[keys[0]]
        row = mk()[0]
        NEAR[name] = [keys[0]]
        for pos, x in enumerate(row):
            for v in near_of(x) if (name, pos) != ('pulse kinds', 5) else ():  # jitter is random
                key = f'{name} near {len(NEAR[name])}'
                new = row[:pos] + (v,) + row[pos + 1:]
                SETTINGS[key] = (lambda new=new: (copy.deepcopy(new), {}), call)
                NEAR[name].append(key)


build_near()


def near(ctx, name):
    """One function called with arguments that nearly agree: nothing is carried over from one call to the other."""
    a = NEAR[name][0]
    for b in NEAR[name][1:]:
        for h in ((a, b), (b, a)):
            for key in h:
                run2(ctx, key, h)
            ctx.state(*h)
            ctx.trace()


def owned(ctx, names):
    """A result belongs to the caller: it shares no memory with the arguments or with the other results of the call."""
    for n in names:
        mk, call = lookup(n)
        if base(n)[0] != 'ok':
            continue
        a, k = mk()
        r = call(a, k)
        keep = freeze(r)
        scribble(a)
        scribble(k)
        ctx.step()
        ctx.check(equal(keep, freeze(r)), f'{n}: writing to an argument after the call changes the result')
        m = len(arrays_of(r if isinstance(r, (tuple, list, dict, np.ndarray)) else 0, []))
        for i in range(m):
            a, k = mk()
            r = call(a, k)
            keep, karg = freeze(arrays_of(r, [])), freeze((a, k))
            scribble(arrays_of(r, [])[i])
            ctx.step()
            now = freeze(arrays_of(r, []))
            ctx.check(all(equal(p, q) for j, (p, q) in enumerate(zip(keep, now)) if j != i), f'{n}: writing to result {i} changes another result of the same call')
            ctx.check(equal(karg, freeze((a, k))), f'{n}: writing to result {i} changes an argument')
        ctx.state('owned', n)
        ctx.trace()


def arrays_of(x, out):
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, dict):
        for v in x.values():
            arrays_of(v, out)
    elif isinstance(x, (tuple, list)):
        for v in x:
            arrays_of(v, out)
    return out


def same_buffer(ctx, name):
    """The caller reuses its arrays: the second call sees the new contents of the very same array objects."""
    keys = GROUPS[name]
    for a in keys:
        for b in keys:
            if a == b:
                continue
            args, k = SETTINGS[a][0]()
            new, _ = SETTINGS[b][0]()
            if [type(v).__name__ if isinstance(v, (np.ndarray, dict)) else repr(v) for v in args] != [type(v).__name__ if isinstance(v, (np.ndarray, dict)) else repr(v) for v in new]:
                continue
            old_a, new_a = arrays_of(args, []), arrays_of(new, [])
            if len(old_a) != len(new_a) or any(p.shape != q.shape or p.dtype != q.dtype for p, q in zip(old_a, new_a)):
                continue
            OPS[a], OPS[b] = SETTINGS[a], SETTINGS[b]
            skip = 'error' in (base(a)[0], base(b)[0])
            del OPS[a], OPS[b]
            if skip:
                continue
            SETTINGS[a][1](args, k)
            for p, q in zip(old_a, new_a):
                p[...] = q
            got = freeze(SETTINGS[b][1](args, k))
            ctx.step(2)
            OPS[b] = SETTINGS[b]
            kind, want = base(b)
            del OPS[b]
            ctx.check(kind == 'ok' and equal(want, got, 1e-12), f'{name}: a call with reused arrays gives another result than in a fresh process', first=a, second=b, got=got, want=want)
            ctx.state('reuse', a, b)
            ctx.trace()


def forms_of(x):
    """The same values in other clothes."""
    yield 'read-only', frozen(x.copy())
    big = np.empty(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype) if x.ndim else None
    if big is not None and x.size:
        big[...] = 0
        v = big[..., ::2]
        v[...] = x
        yield 'strided', v
        y = x[..., ::-1].copy()[..., ::-1]
        yield 'reversed view', y
        if x.ndim > 1:
            yield 'fortran', np.asfortranarray(x)
    if x.dtype.kind in 'iu':
        for dt in (np.int32, np.int16, np.int8, float):
            yield str(np.dtype(dt)), x.astype(dt)
    elif x.dtype.kind == 'f':
        yield 'float32', x.astype(np.float32)
        yield 'complex', x.astype(complex)
        if np.all(x == np.round(x)):
            yield 'int', x.astype(int)


def frozen(x):
    x.flags.writeable = False
    return x


def forms_kept(ctx, name):
    """Whatever form an argument comes in (and whether or not the call accepts it), it is left alone; read-only and strided arguments give the ordinary result."""
    keys = GROUPS[name]
    for key in keys:
        args, k = SETTINGS[key][0]()
        n = len(arrays_of(args, []))
        OPS[key] = SETTINGS[key]
        kind, want = base(key)
        del OPS[key]
        for i in range(n):
            for form, v in forms_of(arrays_of(args, [])[i]):
                other, _ = SETTINGS[key][0]()
                box = [0]

                def put(x):
                    if isinstance(x, np.ndarray):
                        box[0] += 1
                        return v if box[0] == i + 1 else x
                    if isinstance(x, dict):
                        return {q: put(w) for q, w in x.items()}
                    if isinstance(x, (tuple, list)):
                        return type(x)(put(w) for w in x)
                    return x
                other = put(other)
                keep = freeze((other, v.base if v.base is not None else 0))
                try:
                    got = freeze(SETTINGS[key][1](other, {}))
                except Exception as e:
                    got = e
                ctx.step()
                ctx.check(equal(keep, freeze((other, v.base if v.base is not None else 0))), f'{name} changed an argument', setting=key, argument=i, form=form, before=keep)
                if form in ('read-only', 'strided', 'reversed view', 'fortran') and kind == 'ok':
                    ctx.check(not isinstance(got, Exception) and equal(want, got, 1e-9), f'{name}: the result depends on the memory layout of an argument', setting=key, argument=i, form=form, got=got, want=want)
                ctx.state(key, i, form)
        ctx.trace()


def clean(f):
    def g(ctx, **kw):
        zygote()
        return f(ctx, **kw)
    g.__name__ = f.__name__
    return g


CASES = {f.__name__: clean(f) for f in (pairs, triples, shared, interleave, settings, same_buffer, forms_kept, near, owned)}
CORE = ['prbs_gen', 'levels PAM4 False', 'levels PAM4 True', 'gray levels', 'bin2symbol 4 flags', 'mapping PAM4', 'mapping PAM4 full inv', 'mapping levels inv', 'demapping PAM4 full inv', 'gray', 'ungray', 'diff',
        'conv fb', 'unconv p', 'unlinear p', 'slicer', 'ffe default', 'ffe dfe', 'lms default', 'pulse rcos', 'pulse rrc', 'buffer', 'hamming', 'filter2 z']


def tasks(tier):
    th = tier == 'thorough'
    for n in NAMES:
        yield 'shared', dict(first=n)
    for n in NAMES:
        yield 'pairs', dict(first=n)
    for n in CORE:
        yield 'triples', dict(first=n, names=CORE)
    if th:
        fast = [n for n in NAMES if not n.startswith(('channel est', 'equaliz', 'lasso', 'ridge', 'unconv', 'eye', 'psa', 'polynomial', 'checker', 'econ'))]
        for n in fast:
            yield 'triples', dict(first=n, names=fast)
    for g in GROUPS:
        parts = 1 + len(GROUPS[g]) // 6
        for q in range(parts):
            yield 'settings', dict(name=g, part=q, parts=parts)
        yield 'same_buffer', dict(name=g)
        yield 'forms_kept', dict(name=g)
        yield 'near', dict(name=g)
    every = NAMES + [q for g in GROUPS for q in GROUPS[g]]
    for q in range(0, len(every), 40):
        yield 'owned', dict(names=every[q:q + 40])
    for k in objs():
        yield 'interleave', dict(kind=k, counts=[3, 3])
        yield 'interleave', dict(kind=k, counts=[2, 2, 2] if th else [2, 2, 1])
        if th:
            yield 'interleave', dict(kind=k, counts=[4, 4])
