"""Least squares and the estimators built on it: they return the optimum of their problem and recover channels and equalizers."""
import itertools
import numpy as np
import CommDspy as cdsp
from CommDspy.misc import least_squares as lsq
from mc.core import words, lfsr, long_word

BOUNDS = {
    'quick': 'least squares: every matrix of 3x2, 2x2, 2x1, 1x2 and right hand side over {-1,0,2}; ridge/lasso: every 2x2 (and 3x2 over {-1,1}) for 3 factors; systems of up to 200x12 with column correlations to 0.98 and 28 correlated columns, columns scaled by 1e-7..1e7. '
             'channel estimation: PRBS7, all 127 rotations x 6 channels for NRZ, every flag combination for PAM4, 1..3 periods and partial periods, asymmetric window sizes. '
             'equalization: PRBS7 and PRBS9, all (pre 0..2, post 0..3, DFE 0..4), rotations, all flag combinations, normalisation, regularisation, averaged periods',
    'thorough': 'additionally 4x2 and 3x3 matrices over {-1,1,2}, PRBS9 rotations, PRBS11, pre 0..3, post 0..5, DFE 0..6',
}
ASSUMPTIONS = ['signals whose best correlation with the reference is not unique are outside the domain (skipped and counted)',
               'the L1 penalty may be scaled as documented or per sample']
PR = {7: cdsp.PrbsEnum.PRBS7, 9: cdsp.PrbsEnum.PRBS9, 11: cdsp.PrbsEnum.PRBS11}
POLY = {7: [0, 0, 0, 0, 0, 1, 1], 9: [0, 0, 0, 0, 1, 0, 0, 0, 1], 11: [0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1]}
CN = {'NRZ': cdsp.ConstellationEnum.NRZ, 'OOK': cdsp.ConstellationEnum.OOK, 'PAM4': cdsp.ConstellationEnum.PAM4}
LEV = {'NRZ': [-1., 1.], 'OOK': [0., 1.], 'PAM4': [-3., -1., 1., 3.]}


# ------------------------------------------------------------------------------------------------- least squares
def ols(ctx, m, n, vals, first):
    for a in words(vals, m * n - 1):
        A = np.array((first,) + a, dtype=float).reshape(m, n)
        rank = np.linalg.matrix_rank(A)
        for b in words(vals, m):
            b = np.array(b, dtype=float)
            for fn in (lambda: lsq.least_squares(A, b), lambda: lsq.least_squares(A, b, 'None', 3.0)):
                x, s = fn()
                ctx.step()
                ctx.close(A.T @ (A @ x), A.T @ b, 'least squares does not minimise', A=A, b=b, x=x)
                s = np.atleast_1d(s)
                true = float(np.sum((A @ x - b) ** 2))
                if s.size == 0:
                    ctx.check(rank < n or m <= n, 'no residual', A=A, b=b)
                else:
                    ctx.close(s, [true], 'sum of squared residuals', A=A, b=b)
            if rank == n:
                x, s = lsq.ols_manual(A, b)
                ctx.close(A.T @ (A @ x), A.T @ b, 'reference least squares does not minimise', A=A, b=b, x=x)
                ctx.close(s, np.sum((A @ x - b) ** 2), 'reference least squares residual', A=A, b=b)
                ctx.step()
            ctx.state(A, b)
            ctx.trace()
    ctx.sample(A=A, b=b, x=x)
    for bad in ('none', 'l2', 'RIDGE', '', None):
        ctx.raises(ValueError, lambda: lsq.least_squares(A, b, bad, 1.0), 'unknown regularization')


def ridge(ctx, m, n, vals, lam):
    for a in words(vals, m * n):
        A = np.array(a, dtype=float).reshape(m, n)
        for b in words(vals, m):
            b = np.array(b, dtype=float)
            want = np.linalg.solve(A.T @ A + lam * np.eye(n), A.T @ b)
            for x, s in (lsq.least_squares(A, b, 'ridge', lam), lsq.ridge_regression_manual(A, b, lam)):
                ctx.step()
                ctx.close(x, want, 'ridge solution', A=A, b=b, lam=lam, tol=1e-8)
                ctx.close(s, np.sum((A @ want - b) ** 2), 'ridge residual', A=A, b=b, lam=lam, tol=1e-7)
            ctx.state(A, b, lam)
            ctx.trace()


def lasso(ctx, m, n, vals, lam):
    for a in words(vals, m * n):
        A = np.array(a, dtype=float).reshape(m, n)
        for b in words(vals, m):
            b = np.array(b, dtype=float)
            x, s = lsq.least_squares(A, b, 'lasso', lam)
            ctx.step()
            g = A.T @ (b - A @ x)
            ok = False
            for mu in (lam * m, lam / 2):
                tol = 2e-2 * max(1, mu, np.max(np.abs(A.T @ b)))
                k = np.all(np.abs(g) <= mu + tol)
                k = k and all(abs(gj - mu * np.sign(xj)) <= tol for gj, xj in zip(g, x) if abs(xj) > 1e-9)
                ok = ok or k
            ctx.check(ok, 'lasso solution is not optimal', A=A, b=b, lam=lam, x=x, gradient=g)
            ctx.close(s, np.sum((A @ x - b) ** 2), 'lasso residual', A=A, b=b, lam=lam, tol=1e-7)
            x2, _ = lsq.least_squares(A, b, 'lasso', lam * 3)
            ctx.check(np.sum(np.abs(x2)) <= np.sum(np.abs(x)) + 1e-2, 'a larger factor does not shrink the lasso solution', A=A, b=b, lam=lam, x=x, x2=x2)
            x3, _ = lsq.least_squares(A, b, 'lasso', 100.0)
            ctx.check(np.all(x3 == 0), 'a large factor leaves lasso taps', A=A, b=b, x=x3)
            ctx.state(A, b, lam)
            ctx.trace()


def lasso_optimum(A, b, mu):
    """argmin 1/2 |Ax-b|^2 + mu |x|_1 by coordinate descent to convergence."""
    x, r, s = np.zeros(A.shape[1]), b.copy(), np.sum(A * A, axis=0)
    for _ in range(100000):
        d = 0.0
        for j in range(A.shape[1]):
            z = A[:, j] @ r + s[j] * x[j]
            v = np.sign(z) * max(abs(z) - mu, 0) / s[j]
            if v != x[j]:
                r -= A[:, j] * (v - x[j])
                d = max(d, abs(v - x[j]))
                x[j] = v
        if d < 1e-11:
            break
    return x


def lasso_descent(ctx, k):
    """The gradient descent variant ends at the optimum of its own objective from every start on a grid."""
    A, b = DESCENT[k]
    A, b = np.array(A), np.array(b)
    n = A.shape[1]
    rand = np.random.rand
    try:
        for start in itertools.product((0.0, 1.0) if n > 2 else (0.0, 0.5, 1.0), repeat=n):
            for lam in (0.05, 0.3, 1.0):
                np.random.rand = lambda *a: np.array(start)
                x, s, reached, path = lsq.lasso_regression_manual(A.copy(), b.copy(), lam, return_path=True)
                x2, s2 = lsq.lasso_regression_manual(A.copy(), b.copy(), lam)
                ctx.step(2)
                ctx.close(s, np.sum((A @ x - b) ** 2), 'descent residual', A=A, b=b, lam=lam)
                ctx.close(x2, x, 'the path changes the solution', A=A, b=b, lam=lam)
                ctx.close(s2, s, 'the path changes the residual', A=A, b=b, lam=lam)
                ctx.close(path[:, -1], x, 'the path does not end at the solution', A=A, b=b, lam=lam)
                cost = lambda w: np.sum((A @ w - b) ** 2) / 2 / n + lam * np.sum(np.abs(w))
                ctx.check(cost(x) - cost(lasso_optimum(A, b, lam * n)) <= 2e-3 * max(1.0, lam), 'the descent does not end at its optimum', A=A, b=b, lam=lam, start=start, x=x)
                ctx.state('descent', k, start, lam)
                ctx.trace()
    finally:
        np.random.rand = rand


DESCENT = [([[2., 0.5], [0., 1.5], [1., -1.]], [1., -2., 0.5]), ([[3., 1.], [-1., 2.]], [1., 4.]), ([[1.5, 0.], [0., 2.], [1., 1.], [2., -1.]], [-1., 0.2, 3., 0.]), ([[2.], [1.], [-3.]], [1., 1., -2.]), ([[2., 0., 1.], [0., 2., 0.], [1., 0., 3.], [0., -1., 1.]], [1., 3., -2., 0.5])]


def correlated(ctx, m, n, rho):
    """Badly conditioned systems: the columns share most of their content."""
    i, j = np.arange(m)[:, None], np.arange(n)[None, :]
    base = np.sign(np.sin((i * i * 0.7 + 1.3 * i) + 0 * j))
    own = np.sign(np.sin(i * (j + 1.37) * 1.9 + j * j + i * i * .31 * (j + 1)))
    A = rho * base + np.sqrt(1 - rho ** 2) * own
    for scale in (1.0, 40.0):
        b = scale * (A @ ((-1.) ** np.arange(n) * (1 + np.arange(n) % 3)) + 0.3 * np.cos(np.arange(m)))
        x, s = lsq.least_squares(A, b)
        ctx.check(np.linalg.norm(A.T @ (A @ x - b)) <= 1e-8 * np.linalg.norm(A.T @ b), 'least squares solution is not optimal', m=m, n=n, rho=rho)
        ctx.close(float(np.sum(s)), np.sum((A @ x - b) ** 2), 'least squares residual', m=m, n=n, rho=rho, tol=1e-7)
        ctx.step()
        for lam in (0.3, 0.03, 0.003):
            x, s = lsq.least_squares(A, b, 'ridge', lam)
            ctx.close(x, np.linalg.solve(A.T @ A + lam * np.eye(n), A.T @ b), 'ridge solution of a badly conditioned system', m=m, n=n, rho=rho, lam=lam, tol=1e-6)
            ctx.close(s, np.sum((A @ x - b) ** 2), 'ridge residual', m=m, n=n, rho=rho, tol=1e-7)
            x, s = lsq.least_squares(A, b, 'lasso', lam * scale)
            ctx.close(s, np.sum((A @ x - b) ** 2), 'lasso residual', m=m, n=n, rho=rho, tol=1e-7)
            excess = []
            for mu in (lam * scale * m, lam * scale / 2):
                cost = lambda w: np.sum((A @ w - b) ** 2) / 2 + mu * np.sum(np.abs(w))
                excess.append((cost(x) - cost(lasso_optimum(A, b, mu))) / (np.sum(b * b) / 2))
            ctx.check(min(excess) <= 1.5e-4, 'lasso solution of a badly conditioned system is not optimal', m=m, n=n, rho=rho, lam=lam, excess=min(excess))
            ctx.step(2)
            ctx.state(m, n, rho, scale, lam)
    ctx.trace()


def scaled(ctx, m, n, k):
    """Columns of very different size: still the optimum, column by column."""
    i, j = np.arange(m)[:, None], np.arange(n)[None, :]
    A = np.sin(i * (j + 1.37) * 1.9 + j * j + i * i * .31 * (j + 1))
    b = np.cos(np.arange(m) * 1.7) + A @ np.arange(1, n + 1)
    for col in range(n):
        for s in (1e-7, 1e-4, 1e4, 1e7) if k is None else (k,):
            B = A.copy()
            B[:, col] *= s
            for rhs in (b, b * 1e-9, b * 1e9):
                x, r = lsq.least_squares(B, rhs)
                ctx.step()
                g = np.abs(B.T @ (B @ x - rhs)) / np.linalg.norm(B, axis=0) / np.linalg.norm(rhs)
                ctx.check(bool(np.all(g <= 1e-6)), 'least squares with columns of different size is not optimal', m=m, n=n, column=col, scale=s, got=x)
                ctx.state('scaled', m, n, col, s)
    ctx.trace()


# ------------------------------------------------------------------------------------------------- reference pattern
def reference(n, cname, bit_order_inv=False, pn_pre=False, gray=False, pn_post=False, full_scale=False):
    P = 2 ** n - 1
    bits, _ = lfsr(POLY[n], [1] * n, P)
    lv = LEV[cname]
    if full_scale:
        p = np.sqrt(np.mean(np.square(lv)))
        lv = [v / p for v in lv]
    if len(lv) == 2:
        idx = [b ^ 1 if pn_pre else b for b in bits]
    else:
        b2 = bits + bits
        if pn_pre:
            b2 = [b ^ 1 for b in b2]
        pr = [(b2[2 * i], b2[2 * i + 1]) for i in range(P)]
        idx = [(p << 1 | q) if bit_order_inv else (q << 1 | p) for p, q in pr]
    if gray:
        idx = [i ^ (i >> 1) for i in idx]
    a = np.array([lv[i] for i in idx])
    return -a if pn_post else a


def circ(h, a):
    return sum(v * np.roll(a, i) for i, v in enumerate(h))


def unique_lock(a, y, want):
    """The true alignment is the unique best correlation, over the first period and over the longest prefix a lock may use."""
    P = len(a)
    for L in {min(P, len(y)), min(2 * P, len(y))}:
        c = np.array([np.dot(np.tile(np.roll(a, s), 3)[:L], y[:L]) for s in range(P)])
        o = np.sort(c)
        if int(np.argmax(c)) != want or o[-1] - o[-2] < 1e-3 * abs(o[-1]):
            return False
    return True


def stretch(y, length):
    return np.tile(y, length // len(y) + 2)[:length]


# ------------------------------------------------------------------------------------------------- channel estimation
def channel(ctx, n, cname, rot, h, pre, post, flags, length, normalize):
    P = 2 ** n - 1
    a = np.roll(reference(n, cname, **flags), rot)
    y = stretch(circ(h, a), length)
    m = int(np.argmax(h))
    if not unique_lock(a, y, m):
        ctx.skip()
        return
    kw = dict(prbs_full_scale=flags.get('full_scale', False), bit_order_inv=flags.get('bit_order_inv', False), pn_inv_precoding=flags.get('pn_pre', False),
              gray_coding=flags.get('gray', False), pn_inv_postcoding=flags.get('pn_post', False))
    keep = y.copy()
    est, err = cdsp.channel_estimation_prbs(PR[n], y, CN[cname], channel_postcursor=post, channel_precursor=pre, normalize=normalize, **kw)
    ctx.step()
    ctx.same(y, keep, 'the signal was modified')
    want = np.zeros(pre + 1 + post)
    for i, v in enumerate(h):
        want[pre + i - m] = v
    if normalize:
        want = want / np.max(want)
    ctx.close(est, want, 'channel estimate', tol=1e-7, n=n, constellation=cname, rotation=rot, h=h, pre=pre, post=post, flags=flags, length=length, normalize=normalize)
    if np.size(err):
        ctx.check(abs(float(np.ravel(err)[0])) < 1e-9 * max(1, np.sum(y ** 2)), 'residual of an exact channel', err=err)
    ctx.state(n, cname, rot, tuple(h), pre, post, sorted(flags.items()), length, normalize)
    ctx.trace()
    ctx.sample(rotation=rot, h=h, estimate=est)


def channel_rotations(ctx, n, cname, h, pre, post, lo, hi, flags, normalize=False):
    P = 2 ** n - 1
    for rot in range(lo, min(hi, P)):
        channel(ctx, n, cname, rot, h, pre, post, flags, P, normalize)


def channel_lengths(ctx, n, cname, h, pre, post, flags):
    P = 2 ** n - 1
    for length in (P, P + 1, P + 40, 2 * P - 1, 2 * P, 2 * P + 5, 3 * P - 1, 3 * P, 3 * P + 60):
        for rot in (0, 31):
            for norm in (False, True):
                channel(ctx, n, cname, rot, h, pre, post, flags, length, norm)


def channel_noisy(ctx, n, cname, h, pre, post, reps, amp, rot):
    """With disturbances the estimate is still the least squares optimum over all whole periods."""
    P = 2 ** n - 1
    a = np.roll(reference(n, cname), rot)
    m = int(np.argmax(h))
    L = reps * P
    y = stretch(circ(h, a), L) + amp * (np.array(long_word(7, L)) - 3.0)
    if not unique_lock(a, y, m):
        ctx.skip()
        return
    est, err = cdsp.channel_estimation_prbs(PR[n], y, CN[cname], channel_postcursor=post, channel_precursor=pre)
    ctx.step()
    A = np.stack([np.tile(np.roll(a, m + j - pre), reps) for j in range(pre + post + 1)], axis=1)
    want = np.linalg.lstsq(A, y, rcond=None)[0]
    ctx.close(est, want, 'the channel estimate is not the least squares optimum', tol=1e-7, n=n, constellation=cname, reps=reps, amp=amp)
    if reps == 1:
        ctx.close(np.ravel(err), [np.sum((A @ want - y) ** 2)], 'sum of squared residuals', tol=1e-6)
    ctx.state(n, cname, tuple(h), pre, post, reps, amp, rot)
    ctx.trace()


# ------------------------------------------------------------------------------------------------- equalization
def eq_signal(a, f, pre, d):
    """The periodic y with a[k] = sum_i f[i] y[k-(i-pre)] - sum_j d[j] a[k-1-j]."""
    P = len(a)
    col = np.zeros(P)
    for i, v in enumerate(f):
        col[(i - pre) % P] += v
    rhs = a + sum((v * np.roll(a, j + 1) for j, v in enumerate(d)), np.zeros(P))
    F = np.fft.fft(col)
    if np.min(np.abs(F)) < 0.05:
        return None
    return np.real(np.fft.ifft(np.fft.fft(rhs) / F))


def taps_for(pre, post, dfe):
    f = [[0.04, -0.13, 0.21][3 - pre:][i] if pre <= 3 else 0.05 for i in range(pre)] + [0.9] + [[-0.22, 0.15, -0.08, 0.05, 0.03][i] for i in range(post)]
    d = [[0.19, -0.12, 0.09, 0.06, -0.05, 0.04][i] for i in range(dfe)]
    return f, d


def check_eq(ctx, r, f, d, normalize, tol, **kw):
    ctx.check(len(r) == 5, 'number of results', got=len(r))
    ffe, dfe, gain, lerr, mse = r
    g = max(f) if normalize else 1.0
    ctx.close(ffe, np.array(f) / g, 'FFE taps', tol=tol, normalize=normalize, **kw)
    if d:
        ctx.close(dfe, np.array(d) / g, 'DFE taps', tol=tol, normalize=normalize, **kw)
    else:
        ctx.check(dfe is None or np.size(dfe) == 0, 'DFE taps without a DFE', got=dfe, **kw)
    ctx.close(gain, g, 'digital gain', tol=tol, **kw)
    if np.size(lerr):
        ctx.check(abs(float(np.ravel(lerr)[0])) < 1e-9, 'residual of an exact equalizer', got=lerr, **kw)
    ctx.check(not mse > -100, 'MSE of an exact equalizer', got=mse, **kw)


def equalizer(ctx, n, cname, rot, pre, post, dfe, flags, length, normalize, noisy=0.0):
    P = 2 ** n - 1
    a = np.roll(reference(n, cname, **flags), rot)
    f, d = taps_for(pre, post, dfe)
    y = eq_signal(a, f, pre, d)
    if y is None:
        ctx.skip()
        return
    y = stretch(y, length)
    if not unique_lock(a, y, 0):
        ctx.skip()
        return
    kw = dict(prbs_full_scale=flags.get('full_scale', False), bit_order_inv=flags.get('bit_order_inv', False), pn_inv_precoding=flags.get('pn_pre', False),
              gray_coded=flags.get('gray', False), pn_inv_postmapping=flags.get('pn_post', False))
    keep = y.copy()
    r = cdsp.equalization_estimation_prbs(PR[n], y, CN[cname], ffe_postcursor=post, ffe_precursor=pre, dfe_taps=dfe, normalize=normalize, **kw)
    ctx.step()
    ctx.same(y, keep, 'the signal was modified')
    check_eq(ctx, r, f, d, normalize, 1e-6, n=n, constellation=cname, rotation=rot, pre=pre, post=post, dfe_taps=dfe, flags=flags, length=length)
    ctx.state(n, cname, rot, pre, post, dfe, sorted(flags.items()), length, normalize)
    ctx.trace()
    ctx.sample(rotation=rot, pre=pre, post=post, ffe=r[0], dfe=r[1])


def eq_sizes(ctx, n, cname, pre, post, dmax):
    P = 2 ** n - 1
    for dfe in range(dmax + 1):
        for rot in (0, 50):
            for norm in (False, True):
                equalizer(ctx, n, cname, rot, pre, post, dfe, {}, P, norm)
        equalizer(ctx, n, cname, 13, pre, post, dfe, {}, 2 * P, False)
        equalizer(ctx, n, cname, 13, pre, post, dfe, {}, 3 * P + 33, True)
        for length in (P + 1, 2 * P - 1, 3 * P - 2, 5 * P - 3):
            equalizer(ctx, n, cname, 22, pre, post, dfe, {}, length, False)
        if n > 7:
            equalizer(ctx, n, cname, 13, pre, post, dfe, {}, P - 70, False)


def eq_averaged(ctx, n, cname, pre, post, dfe, reps):
    """Disturbances that cancel over the captured periods: the period average is what counts."""
    P = 2 ** n - 1
    a = np.roll(reference(n, cname), 9)
    f, d = taps_for(pre, post, dfe)
    y = eq_signal(a, f, pre, d)
    if y is None:
        ctx.skip()
        return
    w = np.array(long_word(7, P)) - 3.0
    for odd in range(reps):                                   # one period carries the opposite of all the others
        amp = 0.2 / reps
        sig = np.concatenate([y + amp * w * (-(reps - 1) if k == odd else 1) for k in range(reps)])
        for tail in (0, 17, P // 2, P - 1):
            s = np.concatenate([sig, 5.0 + sig[:tail]])       # an incomplete period is left out
            if not unique_lock(a, s, 0):
                ctx.skip()
                continue
            r = cdsp.equalization_estimation_prbs(PR[n], s, CN[cname], post, pre, dfe, gray_coded=False)
            ctx.step()
            check_eq(ctx, r, f, d, False, 1e-6, n=n, constellation=cname, pre=pre, post=post, dfe_taps=dfe, periods=reps, odd=odd)
            ctx.state('averaged', n, cname, pre, post, dfe, reps, odd, tail)
    ctx.trace()


def eq_rotations(ctx, n, cname, pre, post, dfe, lo, hi):
    P = 2 ** n - 1
    for rot in range(lo, min(hi, P)):
        equalizer(ctx, n, cname, rot, pre, post, dfe, {}, P, False)


def eq_flags(ctx, n, cname, pre, post, dfe, flags):
    P = 2 ** n - 1
    for rot in (0, 77):
        for norm in (False, True):
            equalizer(ctx, n, cname, rot, pre, post, dfe, flags, P, norm)


def eq_direct(ctx, n, cname, pre, post, dfe):
    P = 2 ** n - 1
    f, d = taps_for(pre, post, dfe)
    a = reference(n, cname)
    y = eq_signal(a, f, pre, d)
    if y is None:
        ctx.skip()
        return
    for rot in (0, 9, 64):
        for length in (P, P + 31, 2 * P):
            yy = stretch(np.roll(y, rot), length)
            aa = stretch(np.roll(a, rot - post), length)
            for norm in (False, True):
                r = cdsp.equalization_estimation(aa, yy, post, pre, dfe, norm)
                ctx.step()
                check_eq(ctx, r, f, d, norm, 1e-6, pre=pre, post=post, dfe_taps=dfe, rot=rot, length=length, direct=True)
                ctx.state(n, cname, pre, post, dfe, rot, length, norm)
            ctx.trace()


def eq_noisy(ctx, n, cname, pre, post, dfe, amp, lam):
    """Disturbed signals: the equalizer is (up to the few rows at the ends) the MMSE one; the penalised one the penalised optimum."""
    P = 2 ** n - 1
    a = np.roll(reference(n, cname), 20)
    f, d = taps_for(1, 1, 1)
    y = eq_signal(a, f, 1, d) + amp * (np.array(long_word(7, P)) - 3.0)
    if not unique_lock(a, y, 0):
        ctx.skip()
        return
    A = np.stack([np.roll(y, i - pre) for i in range(pre + post + 1)] + [-np.roll(a, j + 1) for j in range(dfe)], axis=1)
    kw = dict(n=n, constellation=cname, pre=pre, post=post, dfe=dfe, amp=amp, lam=lam)

    def mse(x):
        return np.mean((A @ x - a) ** 2)

    def call(reg, l):
        r = cdsp.equalization_estimation_prbs(PR[n], y, CN[cname], post, pre, dfe, False, reg, l, gray_coded=False)
        ctx.step()
        return np.concatenate([r[0], r[1] if dfe else []]), r
    opt = np.linalg.lstsq(A, a, rcond=None)[0]
    x0, r0 = call('None', 0)
    ctx.check(x0.shape == opt.shape, 'number of taps', got=x0, **kw)
    ctx.check(mse(x0) <= 1.1 * mse(opt), 'the equalizer is far from the MMSE equalizer', got=x0, want=opt, **kw)
    ctx.check(abs(r0[4] - 10 * np.log10(mse(opt) / np.mean((A @ opt) ** 2))) < 1.0, 'reported MSE', got=r0[4], **kw)
    for reg in ('ridge', 'lasso', 'None'):
        x, _ = call(reg, 0)
        ctx.close(x, x0, 'a zero factor still regularises', reg=reg, **kw)
    x, r = call('ridge', lam)
    want = np.linalg.solve(A.T @ A + lam * np.eye(A.shape[1]), A.T @ a)
    move = np.linalg.norm(opt - want)
    ctx.check(np.linalg.norm(x - want) <= 0.25 * move + 0.02, 'ridge equalizer', got=x, want=want, ols=opt, **kw)
    ctx.check(np.linalg.norm(x) < np.linalg.norm(x0), 'ridge does not shrink the equalizer', **kw)
    x, r = call('lasso', 0.05)
    ctx.check(np.sum(np.abs(x)) < np.sum(np.abs(x0)), 'lasso does not shrink the equalizer', **kw)
    x, r = call('lasso', 1e4)
    ctx.check(np.all(x == 0), 'lasso with a large factor', got=x, **kw)
    ctx.state(n, cname, pre, post, dfe, amp, lam)
    ctx.trace()


def eq_ideal(ctx, n, cname, h, pre, post, dfe):
    """Short channels make FFE and DFE taps interchangeable: any optimal equalizer may be returned, but it must equalise."""
    P = 2 ** n - 1
    a = np.roll(reference(n, cname), 11)
    y = circ(h, a)
    if not unique_lock(a, y, 0):
        ctx.skip()
        return
    r = cdsp.equalization_estimation_prbs(PR[n], y, CN[cname], post, pre, dfe, gray_coded=False)
    ctx.step()
    A = np.stack([np.roll(y, i - pre) for i in range(pre + post + 1)] + [-np.roll(a, j + 1) for j in range(dfe)], axis=1)
    x = np.concatenate([r[0], r[1] if dfe else []])
    ctx.check(x.shape == (A.shape[1],) and np.all(np.abs(x) < 100), 'taps of an interchangeable equalizer', got=x, h=h, pre=pre, post=post, dfe=dfe)
    best = np.linalg.lstsq(A, a, rcond=None)[0]
    ctx.check(np.mean((A @ x - a) ** 2) <= 1e-6 + 2.0 * np.mean((A @ best - a) ** 2), 'the equalizer does not equalise', got=x, h=h, pre=pre, post=post, dfe=dfe)
    ctx.state(n, cname, tuple(h), pre, post, dfe)
    ctx.trace()


CASES = {f.__name__: f for f in (lasso_descent, ols, ridge, lasso, correlated, scaled, channel_rotations, channel_lengths, channel_noisy, eq_sizes, eq_averaged, eq_rotations, eq_flags, eq_direct, eq_noisy, eq_ideal)}
CH = [[1.0], [0.1, 1.0, 0.3, -0.1], [0.9, -0.2, 0.05], [-0.1, 0.2, 1.1, 0.3, 0.15, -0.05], [0.05, 2.0], [0.02, -0.05, 0.7, -0.2, 0.0, 0.1, 0.04]]
FL = [dict(bit_order_inv=b, pn_pre=p, gray=g, pn_post=q, full_scale=f) for b in (False, True) for p in (False, True) for g in (False, True) for q in (False, True) for f in (False, True)]


def tasks(tier):
    th = tier == 'thorough'
    for k in range(len(DESCENT)):
        yield 'lasso_descent', dict(k=k)
    v = [-1, 0, 2]
    for m, n in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
        for f in v:
            yield 'ols', dict(m=m, n=n, vals=v, first=f)
    if th:
        for f in (-1, 1, 2):
            yield 'ols', dict(m=4, n=2, vals=[-1, 1, 2], first=f)
        for f in (-1, 1):
            yield 'ols', dict(m=3, n=3, vals=[-1, 1], first=f)
            yield 'ols', dict(m=5, n=2, vals=[-1, 1], first=f)
    for lam in (0.1, 1.0, 25.0):
        yield 'ridge', dict(m=2, n=2, vals=v, lam=lam)
        yield 'ridge', dict(m=3, n=2, vals=[-1, 1], lam=lam)
        yield 'ridge', dict(m=2, n=3, vals=[-1, 1], lam=lam)
    for lam in (0.01, 0.1, 1.0):
        yield 'lasso', dict(m=2, n=2, vals=[-1, 0, 2] if th else [-1, 2], lam=lam)
        yield 'lasso', dict(m=3, n=2, vals=[-1, 1], lam=lam)
    for m, n in ((30, 3), (60, 8), (200, 12), (300, 28)):
        for rho in (0.5, 0.9, 0.95, 0.98):
            yield 'correlated', dict(m=m, n=n, rho=rho)
    for m, n in ((6, 3), (30, 5), (200, 8)):
        yield 'scaled', dict(m=m, n=n, k=None)
    for i, h in enumerate(CH):
        for lo in range(0, 127, 32):
            yield 'channel_rotations', dict(n=7, cname='NRZ', h=h, pre=4, post=9, lo=lo, hi=lo + 32, flags={})
            yield 'channel_rotations', dict(n=7, cname=['OOK', 'PAM4'][i % 2], h=h, pre=3, post=11, lo=lo, hi=lo + 32, flags={})
            if th:
                for c in ('OOK', 'PAM4'):
                    yield 'channel_rotations', dict(n=7, cname=c, h=h, pre=5, post=8, lo=lo, hi=lo + 32, flags={}, normalize=True)
        if th:
            for lo in range(0, 511, 64):
                yield 'channel_rotations', dict(n=9, cname='NRZ', h=h, pre=4, post=9, lo=lo, hi=lo + 64, flags={})
                yield 'channel_rotations', dict(n=9, cname='PAM4', h=h, pre=4, post=9, lo=lo, hi=lo + 64, flags={})
            yield 'channel_lengths', dict(n=11, cname='PAM4', h=h, pre=4, post=9, flags={})
        for c in CN:
            yield 'channel_lengths', dict(n=7, cname=c, h=h, pre=6, post=7, flags={})
            yield 'channel_lengths', dict(n=9, cname=c, h=h, pre=6, post=20, flags={})
    for fl in FL:
        for c in CN:
            if c != 'PAM4' and (fl['bit_order_inv'] or fl['gray']):
                continue
            for h in CH[1:4]:
                yield 'channel_lengths' if th else 'channel_rotations', (dict(n=7, cname=c, h=h, pre=4, post=7, flags=fl) if th else dict(n=7, cname=c, h=h, pre=4, post=7, lo=60, hi=66, flags=fl, normalize=True))
    for pre, post in ((2, 5), (0, 3), (5, 0), (10, 30), (19, 60)):
        for c in CN:
            yield 'channel_rotations', dict(n=7, cname=c, h=[0.8, 0.0][:1] if min(pre, post) == 0 else [0.1, 0.9, 0.2], pre=pre, post=post, lo=5, hi=8, flags={})
            for reps in (1, 2, 3, 12):
                for amp in (0.01, 0.1):
                    yield 'channel_noisy', dict(n=7, cname=c, h=CH[2], pre=pre, post=post, reps=reps, amp=amp, rot=3)
    for c in ('NRZ', 'PAM4'):
        for reps in (2, 3, 5, 10, 24):
            yield 'eq_averaged', dict(n=7, cname=c, pre=1, post=2, dfe=2, reps=reps)
            yield 'eq_averaged', dict(n=7, cname=c, pre=2, post=1, dfe=0, reps=reps)
    pm, qm, dm = (3, 5, 6) if th else (2, 3, 4)
    for c in ('NRZ', 'PAM4'):
        for pre in range(pm + 1):
            for post in range(qm + 1):
                for n in (7, 9):
                    yield 'eq_sizes', dict(n=n, cname=c, pre=pre, post=post, dmax=dm)
                for dfe in range(dm + 1):
                    yield 'eq_direct', dict(n=7, cname=c, pre=pre, post=post, dfe=dfe)
        for lo in range(0, 127, 32):
            yield 'eq_rotations', dict(n=7, cname=c, pre=1, post=2, dfe=2, lo=lo, hi=lo + 32)
            yield 'eq_rotations', dict(n=7, cname=c, pre=2, post=1, dfe=3, lo=lo, hi=lo + 32)
        if th:
            for lo in range(0, 511, 64):
                yield 'eq_rotations', dict(n=9, cname=c, pre=2, post=2, dfe=3, lo=lo, hi=lo + 64)
        for h in ([1.0], [1.0, 0.3], [0.8, 0.2, -0.1]):
            for pre in range(3):
                for post in range(4):
                    for dfe in range(4):
                        yield 'eq_ideal', dict(n=7, cname=c, h=h, pre=pre, post=post, dfe=dfe)
        for fl in FL:
            if c != 'PAM4' and (fl['bit_order_inv'] or fl['gray']):
                continue
            yield 'eq_flags', dict(n=7, cname=c, pre=1, post=2, dfe=2, flags=fl)
            yield 'eq_flags', dict(n=7, cname=c, pre=2, post=1, dfe=0, flags=fl)
        for pre, post, dfe in ((1, 1, 1), (2, 2, 2), (1, 3, 0), (3, 4, 2)):
            for amp in (0.02, 0.1):
                for lam in (5.0, 50.0):
                    yield 'eq_noisy', dict(n=9, cname=c, pre=pre, post=post, dfe=dfe, amp=amp, lam=lam)
