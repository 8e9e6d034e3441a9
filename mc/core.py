"""Bounded exhaustive exploration of the real CommDspy code.

A property module (mc/props/<id>.py) provides

    CASES  : {case name: function(ctx, **params)}      params are JSON values
    tasks(tier) : iterable of (case name, params)      the bounded space, cut into tasks

Every task enumerates a finite sub-space completely, drives the implementation in /repo through every member of
it and compares what it observes with an independent reference model (or checks an invariant).  Nothing is sampled.
"""
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
import itertools
import warnings

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The implementation was observed to break the property."""
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Hang(BaseException):
    pass


def _short(x, n=400):
    if isinstance(x, np.ndarray):
        s = np.array2string(x, threshold=24, edgeitems=8, separator=',').replace('\n', '')
        s = f'{x.dtype}{list(x.shape)}{s}'
    elif isinstance(x, (tuple, list)):
        s = '(' + ', '.join(_short(e, n) for e in x) + ')'
    elif isinstance(x, dict):
        s = '{' + ', '.join(f'{k}: {_short(v, n)}' for k, v in x.items()) + '}'
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def _digest(key):
    h = hashlib.blake2b(digest_size=8)
    _feed(h, key)
    return int.from_bytes(h.digest(), 'little')


def _feed(h, key):
    if isinstance(key, np.ndarray):
        h.update(b'a' + str(key.dtype.kind).encode() + repr(key.shape).encode())
        h.update(np.ascontiguousarray(key).tobytes())
    elif isinstance(key, (tuple, list)):
        h.update(b'(')
        for k in key:
            _feed(h, k)
        h.update(b')')
    else:
        h.update(repr(key).encode() + b';')


class Ctx:
    """Book-keeping of one task.  All numbers end up in the evidence; they are counted, never declared."""

    def __init__(self):
        self.states = set()        # digests of distinct explored model states / inputs
        self.extra_states = 0      # distinct by construction (disjoint enumeration counted by the loop itself)
        self.transitions = 0       # implementation steps / calls driven through the space
        self.traces = 0            # complete implementation runs compared with the model
        self.outcomes = set()      # digests of distinct observed outcomes
        self.samples = []
        self.skipped = 0           # members outside the property's domain (ties etc.)

    def state(self, *key):
        self.states.add(_digest(key))

    def outcome(self, *key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(_digest(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def skip(self, n=1):
        self.skipped += n

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: _short(v, 240) for k, v in kw.items()})

    # ---------------------------------------------------------------- oracles
    def fail(self, msg, **detail):
        raise Violation(msg, {k: _short(v) for k, v in detail.items()})

    def check(self, cond, msg, **detail):
        if not cond:
            self.fail(msg, **detail)

    def same(self, got, want, msg, **detail):
        """Equal values and equal shape; the dtype is not part of any property."""
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            self.fail(msg, got=g, want=w, **detail)

    def ints(self, got, want, msg, **detail):
        """As same(), and the result can be used as integers (as indices, in integer arithmetic)."""
        self.same(got, want, msg, **detail)
        g = np.asarray(got)
        if g.size and g.dtype.kind not in 'iu':
            self.fail(msg + ' (not integers)', got=g, want=want, **detail)

    def close(self, got, want, msg, tol=1e-9, **detail):
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            self.fail(msg + ' (shape)', got=g, want=w, **detail)
        if g.size:
            scale = max(1.0, float(np.max(np.abs(w))))
            err = np.abs(g - w)
            if not np.all(err <= tol * scale):     # catches nan too
                self.fail(msg, got=g, want=w, **detail)

    def rel(self, got, want, msg, tol=1e-9, **detail):
        """As close(), relative to the largest wanted value, however small."""
        w = np.asarray(want)
        m = float(np.max(np.abs(w))) if w.size else 0.0
        if not (m > 0 and math.isfinite(m)):
            return self.close(got, want, msg, tol, **detail)
        self.close(np.asarray(got) / m, w / m, msg, tol, **detail)

    def raises(self, exc, fn, msg, **detail):
        try:
            r = fn()
        except exc:
            return
        except Exception as e:  # noqa
            self.fail(f'{msg}: raised {type(e).__name__}: {e}', **detail)
        self.fail(f'{msg}: accepted', got=r, **detail)


# ---------------------------------------------------------------------------------------------- enumeration helpers
def words(alphabet, length):
    """All words of this length, as tuples."""
    return itertools.product(alphabet, repeat=length)


def de_bruijn(k, n):
    """A cyclic word over {0..k-1} in which every length-n word occurs once (standard Lyndon construction)."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


def long_word(k, length):
    """A word of the wanted length over {0..k-1}, rich in factors: a prefix of a cyclically repeated de Bruijn word."""
    n = 2
    while k ** n < length and k ** n < 5000:
        n += 1
    s = de_bruijn(k, n)
    # a fixed rotation so that it does not begin with a long run of zeros
    r = (len(s) * 5) // 8
    s = s[r:] + s[:r]
    reps = length // len(s) + 1
    return (s * reps)[:length]


def compositions(n, max_part=None):
    """All ordered ways to write n as a sum of positive parts: every chunking of a length-n stream."""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        if max_part is not None and first > max_part:
            break
        for rest in compositions(n - first, max_part):
            yield (first,) + rest


def split(arr, parts):
    out = []
    i = 0
    for p in parts:
        out.append(arr[i:i + p])
        i += p
    return out


def shapes_of(n, max_dims=3):
    """All shapes with n elements and 1..max_dims dimensions (without unit axes beyond what is needed)."""
    res = [(n,)]
    if max_dims >= 2:
        for a in range(1, n + 1):
            if n % a == 0:
                res.append((a, n // a))
    if max_dims >= 3:
        for a in range(1, n + 1):
            if n % a:
                continue
            m = n // a
            for b in range(1, m + 1):
                if m % b == 0:
                    res.append((a, b, m // b))
    return res


def forms(a):
    """The same array value presented in different memory forms."""
    a = np.asarray(a)
    yield 'plain', a.copy()
    big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), dtype=a.dtype)
    big[..., ::2] = a
    yield 'strided', big[..., ::2]
    rev = np.ascontiguousarray(a[..., ::-1])
    yield 'reversed view', rev[..., ::-1]
    ro = a.copy()
    ro.setflags(write=False)
    yield 'read only', ro
    if a.ndim > 1:
        yield 'fortran', np.asfortranarray(a)


def primitive_polys(n):
    """All primitive feedback polynomials of degree n, in the convention of the code under test
    (poly[i] multiplies the bit produced i+1 steps ago)."""
    res = []
    for taps in itertools.product([0, 1], repeat=n - 1):
        poly = list(taps) + [1]
        s = [1] + [0] * (n - 1)
        s0 = list(s)
        per = 0
        while True:
            b = sum(p & q for p, q in zip(poly, s)) & 1
            s = [b] + s[:-1]
            per += 1
            if s == s0:
                break
            if per > 2 ** n:
                break
        if per == 2 ** n - 1:
            res.append(poly)
    return res


def lfsr(poly, seed, n):
    """Reference model: b[t] = sum poly[i] b[t-1-i] mod 2, seed[0] is the most recent bit."""
    s = [int(v) for v in seed]
    taps = [i for i, p in enumerate(poly) if p]
    out = []
    for _ in range(n):
        b = 0
        for i in taps:
            b ^= s[i]
        s.insert(0, b)
        s.pop()
        out.append(b)
    return out, s


# ---------------------------------------------------------------------------------------------- running tasks
def import_repo():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import CommDspy
    f = os.path.realpath(CommDspy.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'CommDspy imported from {f}, not from {REPO}')
    return CommDspy


def _alarm(signum, frame):
    raise Hang()


def run_task(module, case, params, limit):
    """Runs one task; returns (ctx, violation or None, seconds)."""
    ctx = Ctx()
    t0 = time.time()
    viol = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        module.CASES[case](ctx, **params)
    except Violation as v:
        viol = {'msg': v.msg, 'detail': v.detail}
    except Hang:
        viol = {'msg': f'no result after {limit} s', 'detail': None}
    except Exception as e:  # an exception escaping the code under test inside the property's domain
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else os.path.basename(f.filename)}:{f.name}' for f in tb]
        in_repo = any(f.filename.startswith(REPO) for f in tb)
        loc = {}
        fr = e.__traceback__
        while fr is not None:      # innermost harness frame: show the inputs it was working on
            if '/mc/props/' in fr.tb_frame.f_code.co_filename:
                loc = {k: _short(v, 200) for k, v in fr.tb_frame.f_locals.items() if k not in ('ctx',) and not callable(v) and not isinstance(v, type(os))}
            fr = fr.tb_next
        viol = {'msg': f'{type(e).__name__}: {e}', 'detail': {'where': where, 'locals': loc}, 'harness_error': not in_repo}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ctx, viol, time.time() - t0
