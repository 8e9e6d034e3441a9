"""Inputs and configurations outside a function's domain are rejected with an error, never processed."""
import itertools
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word

BOUNDS = {
    'quick': '14 binary-only entry points x every word of <=4 symbols over {0,1,x} containing x for 9 bad values x, one bad value at every position of a 40-bit word and of 2-D patterns, at 10 positions of a 200004-bit pattern in 5 element types; '
             'every single bad entry of generator matrices and feedback polynomials; every inconsistent feedback configuration of 1..2 inputs x 1..3 outputs; every consistent feedback configuration of 1..2 inputs x 1..2 outputs x two-tap generators is accepted; every wrong memory length 0..2L',
    'thorough': 'words of <=6 symbols, 200-bit words',
}
ASSUMPTIONS = ['rejection means ValueError (any exception for an unknown interpolation method)']
BAD = [-1, 2, 3, 5, 255, 0.5, 1.0000001, float('nan'), float('inf')]
G1 = {0: np.array([[1, 1, 1], [1, 0, 1]])}
GL = np.array([[1, 0, 0, 1], [0, 1, 1, 1]])
FB = {0: np.array([1, 1])}
GF = {0: np.array([[1, 0], [0, 1]])}
UF = np.array([[0, 1]])


def entry_points():
    t, r = cdsp.tx, cdsp.rx
    return {
        'coding_manchester': t.coding_manchester,
        'coding_bipolar': t.coding_bipolar,
        'coding_mlt3': t.coding_mlt3,
        'coding_differential_manchester': t.coding_differential_manchester,
        'coding_linear': lambda p: t.coding_linear(p, GL),
        'coding_conv': lambda p: t.coding_conv(p, G1),
        'coding_conv_fb': lambda p: t.coding_conv(p, GF, FB, UF),
        'decoding_manchester': r.decoding_manchester,
        'decoding_differential_manchester': r.decoding_differential_manchester,
        'decoding_linear': lambda p: r.decoding_linear(p, GL),
        'decoding_linear_p': lambda p: r.decoding_linear(p, GL, True),
        'decoding_conv_ml': lambda p: r.decoding_conv_ml(p, G1, 2),
        'decoding_conv_viterbi': lambda p: r.decoding_conv_viterbi(p, G1, 2),
        'decoding_conv_viterbi_fb': lambda p: r.decoding_conv_viterbi(p, GF, 2, FB, UF),
    }


def bad_words(ctx, name, length):
    fn = entry_points()[name]
    for x in BAD:
        for w in words((0, 1, 'x'), length):
            if 'x' not in w:
                continue
            a = np.array([x if v == 'x' else v for v in w])
            if isinstance(x, int):
                a = a.astype(int)
            ctx.raises(ValueError, lambda: fn(a), f'{name} with a non-binary pattern', pattern=a)
            ctx.step()
            ctx.state(name, x, w)
    # several different bad values at once
    for xs in itertools.product((2, 3, -1, 0), repeat=min(length, 4)):
        if any(v not in (0, 1) for v in xs):
            a = np.array(xs)
            ctx.raises(ValueError, lambda: fn(a), f'{name} with a non-binary pattern', pattern=a)
            ctx.step()
    ctx.trace()


def bad_positions(ctx, name, n):
    fn = entry_points()[name]
    base = long_word(2, n)
    for x in (2, -1, 7, 0.25):
        for b in (base, [0] * n, [1] * n):
            for i in range(n):
                a = np.array(b, dtype=float if isinstance(x, float) else int)
                a[i] = x
                ctx.raises(ValueError, lambda: fn(a), f'{name} with one non-binary value', position=i, value=x)
                ctx.step()
        for shp in ((4, n // 4), (2, 2, n // 4)):
            if name in ('coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_differential_manchester', 'decoding_manchester', 'decoding_differential_manchester'):
                for i in range(n):
                    a = np.array(base, dtype=float if isinstance(x, float) else int)
                    a[i] = x
                    ctx.raises(ValueError, lambda: fn(a.reshape(shp)), f'{name} with one non-binary value', position=i, value=x, shape=shp)
                    ctx.step()
        ctx.state(name, x, n)
    ctx.trace()


def bad_long(ctx, name, n):
    """One forbidden value anywhere in a long pattern, in every common element type."""
    fn = entry_points()[name]
    for dt, x in ((np.int64, 2), (np.int8, -1), (np.uint8, 255), (np.float64, 0.5), (np.float32, 3.0), (np.int64, 2 ** 40), (np.int64, 256)):
        for i in sorted({0, 999, 1024, 4097, 65535, 65536, 100001, n // 2, n - 2, n - 1}):
            a = np.array(long_word(2, 1024) * (n // 1024 + 1))[:n].astype(dt)
            a[i] = x
            ctx.raises(ValueError, lambda: fn(a), f'{name} with one non-binary value', position=i, value=x, length=n, dtype=str(dt))
            ctx.step()
            ctx.state(name, str(dt), x, i)
    ctx.trace()


def good(ctx, name):
    """The same entry points accept every binary word."""
    fn = entry_points()[name]
    for n in (2, 4, 6, 8):
        for w in words((0, 1), n):
            fn(np.array(w))
            ctx.step()
            ctx.state(name, w)
    ctx.trace()


def bad_matrix(ctx):
    pat = np.array([1, 0, 1, 1, 0, 0, 1, 1])
    t, r = cdsp.tx, cdsp.rx
    for k, n in ((1, 2), (2, 4), (3, 6), (4, 7)):
        for i in range(k):
            for j in range(n):
                for x in (2, -1, 3):
                    for fill in (0, 1, None):
                        G = np.hstack([np.eye(k, dtype=int), np.ones((k, n - k), dtype=int)]) if fill is None else np.full((k, n), fill)
                        G[i, j] = x
                        ctx.raises(ValueError, lambda: t.coding_linear(pat, G), 'non-binary generating matrix (encoder)', G=G)
                        ctx.raises(ValueError, lambda: r.decoding_linear(pat, G), 'non-binary generating matrix (decoder)', G=G)
                        ctx.step(2)
                        ctx.state('lin', k, n, i, j, x, fill)
    for shapes in ([(2, 3)], [(3, 2), (3, 3)], [(2, 1), (2, 2)], [(1, 2), (1, 2), (1, 2)]):
        for inp, (no, L) in enumerate(shapes):
            for i in range(no):
                for j in range(L):
                    for x in (2, -1):
                        G = {q: np.ones(s, dtype=int) for q, s in enumerate(shapes)}
                        G[inp][i, j] = x
                        for f in (lambda: t.coding_conv(pat, G), lambda: r.decoding_conv_ml(pat, G, shapes[0][0]), lambda: r.decoding_conv_viterbi(pat, G, shapes[0][0])):
                            ctx.raises(ValueError, f, 'non-binary convolution generator', G=G)
                            ctx.step()
                        ctx.state('conv', str(shapes), inp, i, j, x)
    ctx.trace()


def bad_feedback(ctx):
    pat = np.array([1, 0, 1, 1, 0, 0])
    t, r = cdsp.tx, cdsp.rx

    def all3(G, fb, uf, msg, no):
        for nm, f in (('encoder', lambda: t.coding_conv(pat, G, fb, uf)), ('ml', lambda: r.decoding_conv_ml(pat, G, no, fb, uf)), ('viterbi', lambda: r.decoding_conv_viterbi(pat, G, no, fb, uf))):
            ctx.raises(ValueError, f, f'{msg} ({nm})', G=G, feedback=fb, use_feedback=uf)
            ctx.step()
        ctx.state(msg, str(G), str(fb), str(uf))
    for n_in in (1, 2):
        for n_out in (1, 2, 3):
            sys_G = {i: np.array([[1, 0, 0]] * n_out) for i in range(n_in)}
            fb = {i: np.array([1, 1, 1]) for i in range(n_in)}
            uf = np.ones((n_in, n_out), dtype=int)
            # missing use_feedback
            all3(sys_G, fb, None, 'feedback without use_feedback', n_out)
            # wrong sizes
            for a in range(0, 4):
                for b in range(0, 5):
                    if (a, b) != (n_in, n_out):
                        all3(sys_G, fb, np.ones((a, b), dtype=int), 'use_feedback has the wrong size', n_out)
            # non binary feedback polynomials
            for i in range(n_in):
                for j in range(3):
                    for x in (2, -1):
                        f2 = {q: v.copy() for q, v in fb.items()}
                        f2[i][j] = x
                        all3(sys_G, f2, uf, 'non-binary feedback polynomial', n_out)
            # use_feedback switched on for an input without a polynomial: every use_feedback matrix
            if n_in == 2:
                for bits in itertools.product((0, 1), repeat=2 * n_out):
                    m = np.array(bits).reshape(2, n_out)
                    for missing in (0, 1):
                        if m[missing].any():
                            all3(sys_G, {1 - missing: np.array([1, 1, 1])}, m, 'use_feedback for an input without feedback', n_out)
            # an output that needs memory but does not use the loop of its input: every FIR row
            for i in range(n_in):
                for jj in range(n_out):
                    for row in itertools.product((0, 1), repeat=3):
                        if sum(row[1:]):
                            G2 = {q: v.copy() for q, v in sys_G.items()}
                            G2[i][jj] = row
                            m = np.ones((n_in, n_out), dtype=int)
                            m[i, jj] = 0
                            all3(G2, fb, m, 'FIR transfer function without its feedback', n_out)
    ctx.trace()


def good_feedback(ctx, n_in, n_out):
    """Every consistent feedback configuration of two-tap generators is accepted by the encoder and both decoders."""
    pat = np.array([1, 0, 1, 1, 0, 1] * 2)[:n_out * 2]
    data = np.array([1, 0] * n_in)
    t, r = cdsp.tx, cdsp.rx
    for have in itertools.product((0, 1), repeat=n_in):
        fb = {i: np.array([1, 1]) for i in range(n_in) if have[i]}
        for uf in itertools.product((0, 1), repeat=n_in * n_out):
            m = np.array(uf).reshape(n_in, n_out)
            if any(m[i].any() for i in range(n_in) if not have[i]):
                continue
            for tail in itertools.product((0, 1), repeat=n_in * n_out):
                tl = np.array(tail).reshape(n_in, n_out)
                if any(have[i] and not m[i, j] and tl[i, j] for i in range(n_in) for j in range(n_out)):
                    continue
                G = {i: np.array([[1, tl[i, j]] for j in range(n_out)]) for i in range(n_in)}
                for nm, f in (('encoder', lambda: t.coding_conv(data, G, fb, m)), ('ml', lambda: r.decoding_conv_ml(pat, G, n_out, fb, m)), ('viterbi', lambda: r.decoding_conv_viterbi(pat, G, n_out, fb, m))):
                    try:
                        f()
                    except ValueError as e:
                        ctx.check(False, f'a consistent feedback configuration is rejected ({nm}): {e}', G=G, feedback=fb, use_feedback=m)
                    ctx.step()
                ctx.state('good_fb', have, uf, tail, n_out)
    ctx.trace()


def bad_config(ctx):
    t, r, ch = cdsp.tx, cdsp.rx, cdsp.channel
    x = np.array([0.5, 1.25, -0.75, 2.0, 0.1, -1.0])
    for ty in ('unsigned', 'signed', '', 'S', 'U', 'sss', None, 0):
        ctx.raises(ValueError, lambda: r.quantize(x, 3, 1, ty), 'unknown fixed point type', type=ty)
    for p in ('box', '', 'RECT', 'rcosine', None, 'gauss'):
        ctx.raises(ValueError, lambda: ch.pulse_shape(x, 2, 2, p), 'unknown pulse', pulse=p)
    for p in ('rect', 'sinc', 'rcos', 'rrc', 'imp'):
        for osr in (1, 2, 4):
            for span in (1, 2, 3):
                need = 0 if p == 'imp' else 2 * osr * span - 1
                for n in range(0, 2 * osr * span + 3):
                    if n != need:
                        ctx.raises(ValueError, lambda: ch.pulse_shape(x, osr, span, p, zi=np.zeros(n)), 'pulse memory of the wrong length', pulse=p, osr=osr, span=span, length=n)
                        ctx.step()
                    else:
                        ch.pulse_shape(x, osr, span, p, zi=np.zeros(n))
                    ctx.state('pulse', p, osr, span, n)
    for nf in (2, 3, 4):
        for n in range(0, 9):
            for dfe in (None, np.array([0.1]), np.array([0.1, 0.2])):
                f = np.linspace(1, 0.2, nf)
                if n not in (nf, nf - 1):
                    ctx.raises(ValueError, lambda: r.ffe_dfe(x, f, dfe, zi_ffe=np.zeros(n)), 'FFE memory of the wrong length', taps=nf, length=n)
                    ctx.step()
                else:
                    r.ffe_dfe(x, f, dfe, zi_ffe=np.zeros(n))
                ctx.state('ffe', nf, n, dfe is None)
    for nd in (1, 2, 3):
        for n in range(0, 8):
            for f in (np.array([1.0]), np.array([1.0, 0.5])):
                d = np.linspace(0.3, 0.1, nd)
                if n != nd:
                    ctx.raises(ValueError, lambda: r.ffe_dfe(x, f, d, zi_dfe=np.zeros(n)), 'DFE memory of the wrong length', taps=nd, length=n)
                    ctx.step()
                else:
                    r.ffe_dfe(x, f, d, zi_dfe=np.zeros(n))
                ctx.state('dfe', nd, n, len(f))
    from CommDspy.misc.help_classes import Filter, FilterTII, FfeDfeFilterTII
    for nb in (1, 2, 3, 4):
        for na in (1, 2, 3):
            b, a = np.linspace(1, 0.5, nb), np.linspace(1, 0.25, na)
            for n in range(0, 7):
                if n != nb:
                    ctx.raises(ValueError, lambda: Filter(b, a, z_fir=np.zeros(n)), 'FIR memory of the wrong length', nb=nb, length=n)
                if n != na - 1:
                    ctx.raises(ValueError, lambda: Filter(b, a, z_iir=np.zeros(n)), 'IIR memory of the wrong length', na=na, length=n)
                if n != max(nb, na) - 1:
                    ctx.raises(ValueError, lambda: FilterTII(b, a, np.zeros(n)), 'filter state of the wrong length', nb=nb, na=na, length=n)
                    ctx.raises(ValueError, lambda: FfeDfeFilterTII(b, a, np.array([-1., 1.]), np.zeros(n)), 'filter state of the wrong length', nb=nb, na=na, length=n)
                    flt = FilterTII(b, a)
                    ctx.raises(ValueError, lambda: flt.set_z(np.zeros(n)), 'filter state of the wrong length', nb=nb, na=na, length=n)
                ctx.step(4)
                ctx.state('filter', nb, na, n)
    from CommDspy.misc.least_squares import least_squares
    A = np.array([[1., 0.], [0., 1.], [1., 1.]])
    for reg in ('none', 'Ridge', '', 'l2', None, 'elastic'):
        ctx.raises(ValueError, lambda: least_squares(A, np.array([1., 2., 3.]), reg, 0.1), 'unknown regularization', reg=reg)
    for n in range(0, 9):
        y = np.array([0.9, -1.1, 1.2, -0.8])
        if n != 4:
            ctx.raises(ValueError, lambda: r.ddlms_grad(y, y, np.array([-1., 1.]), np.array([0]), np.array([1]), np.ones(n)), 'reference of the wrong length', length=n)
    for m in ('linear', '', 'Sinc', None, 'cubic'):
        ctx.raises(Exception, lambda: cdsp.digital_oversample(np.arange(10.), 4, 3, m), 'unknown interpolation method', method=m)
        ctx.step()
    ctx.trace()
    ctx.sample(example='every wrong memory length is rejected')


CASES = {f.__name__: f for f in (bad_words, bad_positions, bad_long, good, bad_matrix, bad_feedback, good_feedback, bad_config)}


def tasks(tier):
    th = tier == 'thorough'
    yield 'bad_feedback', {}
    yield 'bad_matrix', {}
    for n_in in (1, 2):
        for n_out in (1, 2):
            yield 'good_feedback', dict(n_in=n_in, n_out=n_out)
    yield 'bad_config', {}
    for name in entry_points():
        for n in range(1, (6 if th else 4) + 1):
            yield 'bad_words', dict(name=name, length=n)
        yield 'bad_positions', dict(name=name, n=200 if th else 40)
        yield 'bad_long', dict(name=name, n=200004)
        yield 'good', dict(name=name)
