"""Convolutional encoder = one GF(2) shift register (with optional feedback) per input, started at zero."""
import itertools
import json
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word, forms
from mc import conv_ref as R

BOUNDS = {
    'quick': 'every 1-input generator with constraint length <=3 and <=2 outputs (and 3 outputs, length 2), every feedback polynomial and every admissible use_feedback of these, named codes (incl. two-input codes with feedback on one or both inputs) with '
             '1..5 inputs; every non-empty input word of <=7 bits, every impulse position, lengths 1..80, long inputs of 300..3000 bits, every padding residue, linearity over all pairs of 4-bit words; registers of 8..130 cells (with and without feedback, one and two of them)',
    'thorough': 'generators with constraint length 4, words of <=10 bits, lengths to 300',
}
ASSUMPTIONS = ['reference model: bit-serial shift registers in Python integers, zero initial state', 'feedback polynomials have 1 in location 0, as documented']


def one(ctx, code, args, w, msg=''):
    G, fb, uf = args
    got = cdsp.tx.coding_conv(np.array(w, dtype=int), G, fb, uf)
    want, _ = R.encode(code, w)
    ctx.step(max(1, len(w)))
    ctx.ints(got, np.array(want, dtype=int), 'convolutional encoding' + msg, code=code, word=w if len(w) < 40 else len(w))


def all_words(ctx, code, top):
    args = R.code_args(code)
    key = json.dumps(code)
    for n in range(1, top + 1):
        for w in words((0, 1), n):
            one(ctx, code, args, w)
            ctx.state(key, w)
            ctx.trace()
    ctx.sample(code=code, last_word=w)


def family(ctx, codes, top):
    for code in codes:
        args = R.code_args(code)
        key = json.dumps(code)
        for w in words((0, 1), top):
            one(ctx, code, args, w)
        for n in range(1, top):
            one(ctx, code, args, long_word(2, n))
            one(ctx, code, args, [1] * n)
        one(ctx, code, args, [1] + [0] * 70)
        one(ctx, code, args, long_word(2, 90))
        ctx.state(key)
        ctx.trace()
    ctx.sample(code=code)


def lengths(ctx, code, lens):
    args = R.code_args(code)
    key = json.dumps(code)
    base = long_word(2, max(lens) + 1)
    for n in lens:
        one(ctx, code, args, base[:n], ' (long)')
        one(ctx, code, args, [1] * n, ' (all ones)')
        ctx.state(key, n)
        ctx.trace()
    for n in (40,):
        for i in range(n):
            w = [0] * n
            w[i] = 1
            one(ctx, code, args, w, ' (impulse)')
            ctx.state(key, 'impulse', i)


def linear(ctx, code):
    G, fb, uf = args = R.code_args(code)
    n = 4 * len(code['G'])
    enc = {}
    for w in words((0, 1), min(n, 6)):
        enc[w] = np.asarray(cdsp.tx.coding_conv(np.array(w), G, fb, uf))
        ctx.step()
    for a, b in itertools.product(enc, repeat=2):
        c = tuple(x ^ y for x, y in zip(a, b))
        ctx.ints(enc[c], enc[a] ^ enc[b], 'the code is not linear', code=code, a=a, b=b)
        ctx.state(json.dumps(code), a, b)
    ctx.trace()
    w = np.array(long_word(2, 24))
    want, _ = R.encode(code, w)
    for fn, a in forms(w):
        ctx.ints(cdsp.tx.coding_conv(a, G, fb, uf), want, f'memory layout: {fn}', code=code)
    for dt in (np.int8, np.int32, np.uint8, np.int64):
        ctx.ints(cdsp.tx.coding_conv(w.astype(dt), G, fb, uf), want, f'element type {dt}', code=code)
        G2 = {k: v.astype(dt) for k, v in G.items()}
        ctx.ints(cdsp.tx.coding_conv(w, G2, fb, uf), want, f'generator element type {dt}', code=code)
        ctx.step(2)


def wide(ctx, L, n_out, fbk):
    """Long registers: the sums behind one output bit run over dozens of cells."""
    rows = [[1] * L, [(i * i // 3 + i) % 2 for i in range(L)], [1] + [0] * (L - 2) + [1], [1 if i % 4 else 0 for i in range(L)]][:n_out]
    code = {'G': [rows]}
    if fbk:
        code = {'G': [[[1] + [0] * (L - 1)] + rows[1:]], 'fb': {'0': [1] + [(i * 7 // 5) % 2 for i in range(L - 1)]}, 'uf': [[0] + [1] * (n_out - 1)]}
        if fbk == 2:
            code['fb'] = {'0': [1] * L}
    args = R.code_args(code)
    for w in ([1] * (3 * L), long_word(2, 4 * L), [1] * L + [0] * L, [0] * (L - 1) + [1] * (2 * L), [1, 0] * (2 * L), [1] * 300):
        for n in (len(w), L - 1, L, L + 1):
            one(ctx, code, args, w[:n], ' (long register)')
            ctx.state('wide', L, n_out, fbk, tuple(w[:n]))
        ctx.trace()
    two = {'G': [rows, rows[::-1]]}
    args = R.code_args(two)
    for w in ([1] * (4 * L), long_word(2, 4 * L)):
        one(ctx, two, args, w, ' (two long registers)')


CASES = {f.__name__: f for f in (all_words, family, lengths, linear, wide)}


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


MANY = {        # many inputs
    'four_in': {'G': [[[1, 1], [0, 1], [1, 0], [1, 1], [0, 1]], [[0, 1], [1, 0], [1, 1], [0, 0], [1, 0]], [[0, 0], [1, 1], [0, 1], [1, 0], [1, 1]], [[1, 0, 1], [0, 0, 1], [0, 1, 1], [1, 1, 1], [0, 0, 0]]]},
    'five_in': {'G': [[[1], [0], [0], [0], [0], [1]], [[0], [1], [0], [0], [0], [1]], [[0, 0], [0, 0], [1, 0], [0, 0], [0, 0], [1, 1]], [[0], [0], [0], [1], [0], [0]], [[0, 1, 1], [0, 0, 0], [0, 0, 0], [0, 0, 0], [1, 0, 0], [1, 1, 0]]]},
    'four_in_fb': {'G': [[[1, 0], [0, 0], [0, 0], [0, 0], [0, 1]], [[0, 0], [1, 0], [0, 0], [0, 0], [1, 1]], [[0, 0, 0], [0, 0, 0], [1, 0, 0], [0, 0, 0], [1, 0, 1]], [[0], [0], [0], [1], [1]]], 'fb': {'0': [1, 1], '2': [1, 1, 1]},
                   'uf': [[0, 0, 0, 0, 1], [0, 0, 0, 0, 0], [0, 0, 0, 0, 1], [0, 0, 0, 0, 0]]},
}


def tasks(tier):
    th = tier == 'thorough'
    for L in (8, 9, 15, 16, 17, 20, 24, 32, 33, 40) + ((64, 65, 130, 260) if th else (130,)):
        for n_out in (2, 3, 4):
            for fbk in (0, 1, 2):
                yield 'wide', dict(L=L, n_out=n_out, fbk=fbk)
    for name, code in R.NAMED.items():
        yield 'all_words', dict(code=code, top=10 if th else 7)
        yield 'lengths', dict(code=code, lens=list(range(1, 300 if th else 80)) + [300, 511, 512, 1000, 1001, 1002, 3000])
        yield 'linear', dict(code=code)
    for name, code in MANY.items():
        yield 'all_words', dict(code=code, top=11 if th else 9)
        yield 'lengths', dict(code=code, lens=list(range(1, 300 if th else 60)) + [1000, 1001, 1002, 1003, 1004])
        yield 'linear', dict(code=code)
    fams = [R.one_input(1, 1), R.one_input(2, 1), R.one_input(1, 2), R.one_input(2, 2), R.one_input(3, 2), R.one_input(1, 3), R.one_input(2, 3),
            R.one_input_fb(1, 1), R.one_input_fb(2, 1), R.one_input_fb(1, 2), R.one_input_fb(2, 2), R.one_input_fb(1, 3), R.one_input_fb(2, 3)]
    fams += [R.one_input(1, 4), R.one_input(1, 5), R.one_input(2, 4), R.two_input(2, 1, 2), R.two_input(2, 2, 1), R.two_input(1, 2, 3), R.two_input(2, 2, 2)]
    if th:
        fams += [R.one_input(1, 4), R.one_input(2, 4), R.one_input(3, 3), R.one_input_fb(1, 4), R.one_input_fb(2, 4)]
    small = [R.two_input_fb(1, 2, 2), R.two_input_fb(2, 1, 2), R.two_input_fb(2, 2, 2)]
    if th:
        small += [R.two_input_fb(1, 3, 2), R.two_input(2, 2, 3), R.two_input_fb(2, 2, 1)]
    for f in small:
        for c in chunks(f, 48):
            yield 'family', dict(codes=c, top=6 if th else 4)
    for f in fams:
        for c in chunks(f, 24):
            yield 'family', dict(codes=c, top=8 if th else 6)
