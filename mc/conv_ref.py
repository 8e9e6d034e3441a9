"""Reference model of a convolutional encoder: one shift register per input over GF(2), plain Python integers.

A code is JSON: {'G': [[row per output] per input], 'fb': {input: poly} or None, 'uf': matrix or None}."""
import itertools
import numpy as np


def code_args(code):
    G = {i: np.array(g, dtype=int).reshape(len(g), -1) for i, g in enumerate(code['G'])}
    fb = None if code.get('fb') is None else {int(k): np.array(v, dtype=int) for k, v in code['fb'].items()}
    uf = None if code.get('uf') is None else np.array(code['uf'], dtype=int)
    return G, fb, uf


def start(code):
    return tuple(tuple([0] * (len(g[0]) - 1)) for g in code['G'])


def all_states(code):
    """In the order of the library: the registers of input 0 first, most recent bit first, binary counting."""
    lens = [len(g[0]) - 1 for g in code['G']]
    for bits in itertools.product((0, 1), repeat=sum(lens)):
        s, i = [], 0
        for L in lens:
            s.append(tuple(bits[i:i + L]))
            i += L
        yield tuple(s)


def step(code, state, inp):
    n_out = len(code['G'][0])
    out = [0] * n_out
    nxt = []
    fb = code.get('fb') or {}
    for i, g in enumerate(code['G']):
        mem = state[i]
        u = inp[i]
        poly = fb.get(str(i), fb.get(i))
        v = u
        if poly is not None:
            for p, m in zip(poly[1:], mem):
                v ^= p & m
        reg = (v,) + mem
        for j in range(n_out):
            if poly is not None and not code['uf'][i][j]:
                out[j] ^= g[j][0] & u
            else:
                for c, r in zip(g[j], reg):
                    out[j] ^= c & r
        nxt.append(reg[:-1])
    return tuple(nxt), out


def encode(code, bits, state=None):
    n_in = len(code['G'])
    bits = [int(b) for b in bits]
    if len(bits) % n_in:
        bits = bits + [0] * (n_in - len(bits) % n_in)
    s = start(code) if state is None else state
    out = []
    for k in range(0, len(bits), n_in):
        s, o = step(code, s, bits[k:k + n_in])
        out += o
    return out, s


def transitions(code):
    """[(state index, next index, input tuple, output tuple)]"""
    states = list(all_states(code))
    idx = {s: i for i, s in enumerate(states)}
    res = []
    for s in states:
        for u in itertools.product((0, 1), repeat=len(code['G'])):
            n, o = step(code, s, u)
            res.append((idx[s], idx[n], u, tuple(o)))
    return states, res


def best(code, block):
    """Dynamic programming over the full trellis: minimal distance per end state from any start state."""
    states, tr = transitions(code)
    n_out = len(code['G'][0])
    d = [0] * len(states)
    for k in range(0, len(block), n_out):
        r = block[k:k + n_out]
        nd = [10 ** 9] * len(states)
        for s, n, u, o in tr:
            v = d[s] + sum(a != b for a, b in zip(o, r))
            if v < nd[n]:
                nd[n] = v
        d = nd
    return d


# ---------------------------------------------------------------------------------------------- families of codes
def one_input(n_out, L):
    for rows in itertools.product(list(itertools.product((0, 1), repeat=L)), repeat=n_out):
        yield {'G': [[list(r) for r in rows]]}


def one_input_fb(n_out, L):
    """Every 1-input code with a feedback polynomial (1 in location 0) and every admissible use_feedback."""
    for rows in itertools.product(list(itertools.product((0, 1), repeat=L)), repeat=n_out):
        for tail in itertools.product((0, 1), repeat=L - 1):
            for uf in itertools.product((0, 1), repeat=n_out):
                if any(not u and any(r[1:]) for u, r in zip(uf, rows)):
                    continue
                yield {'G': [[list(r) for r in rows]], 'fb': {'0': [1] + list(tail)}, 'uf': [list(uf)]}


def two_input(n_out, L0, L1):
    for g0 in itertools.product(list(itertools.product((0, 1), repeat=L0)), repeat=n_out):
        for g1 in itertools.product(list(itertools.product((0, 1), repeat=L1)), repeat=n_out):
            yield {'G': [[list(r) for r in g0], [list(r) for r in g1]]}


def two_input_fb(n_out, L0, L1):
    """Every 2-input code with feedback on the first, the second or both inputs and every admissible use_feedback."""
    for code in two_input(n_out, L0, L1):
        for fbs in ((0,), (1,), (0, 1)):
            for tails in itertools.product(*[list(itertools.product((0, 1), repeat=(L0, L1)[i] - 1)) for i in fbs]):
                for uf in itertools.product((0, 1), repeat=2 * n_out):
                    uf = [list(uf[:n_out]), list(uf[n_out:])]
                    if any(any(uf[i]) for i in (0, 1) if i not in fbs):
                        continue
                    if any(not u and any(r[1:]) for i in fbs for u, r in zip(uf[i], code['G'][i])):
                        continue
                    yield dict(code, fb={str(i): [1] + list(t) for i, t in zip(fbs, tails)}, uf=uf)


NAMED = {
    'doc1': {'G': [[[1, 1, 1], [1, 1, 0]]]},
    'k3_75': {'G': [[[1, 1, 1], [1, 0, 1]]]},
    'k4_1517': {'G': [[[1, 1, 0, 1], [1, 1, 1, 1]]]},
    'k5': {'G': [[[1, 0, 0, 1, 1], [1, 1, 1, 0, 1]]]},
    'k7_171_133': {'G': [[[1, 1, 1, 1, 0, 0, 1], [1, 0, 1, 1, 0, 1, 1]]]},
    'third': {'G': [[[1, 1, 1], [1, 1, 0], [1, 0, 1]]]},
    'doc2': {'G': [[[1, 0], [0, 0], [1, 1]], [[0, 0, 0], [1, 0, 0], [0, 0, 1]]]},
    'two_in': {'G': [[[1, 1], [0, 1], [1, 0]], [[0, 1], [1, 0], [1, 1]]]},
    'two_in_long': {'G': [[[1, 1, 0], [0, 1, 1], [1, 0, 1]], [[0, 1], [1, 0], [1, 1]]]},
    'three_in': {'G': [[[1, 1], [0, 1], [1, 0], [1, 1]], [[0, 1], [1, 0], [1, 1], [0, 0]], [[0, 0], [1, 1], [0, 1], [1, 0]]]},
    'memoryless1': {'G': [[[1], [1]]]},
    'memoryless2': {'G': [[[1], [0], [1]], [[0], [1], [1]]]},
    'mixed_memoryless': {'G': [[[1], [0], [1]], [[0, 1, 1], [1, 0, 1], [1, 1, 1]]]},
    'rsc': {'G': [[[1, 0], [0, 1]]], 'fb': {'0': [1, 1]}, 'uf': [[0, 1]]},
    'rsc75': {'G': [[[1, 0, 0], [1, 0, 1]]], 'fb': {'0': [1, 1, 1]}, 'uf': [[0, 1]]},
    'rsc_lte': {'G': [[[1, 0, 0, 0], [1, 1, 0, 1]]], 'fb': {'0': [1, 0, 1, 1]}, 'uf': [[0, 1]]},
    'rsc_both': {'G': [[[1, 1, 0], [1, 0, 1]]], 'fb': {'0': [1, 1, 1]}, 'uf': [[1, 1]]},
    'fb_first_of_two': {'G': [[[1, 0], [0, 1], [0, 0]], [[0, 1], [1, 0], [1, 1]]], 'fb': {'0': [1, 1]}, 'uf': [[0, 1, 0], [0, 0, 0]]},
    'fb_second_of_two': {'G': [[[1, 0], [1, 1], [0, 1]], [[0, 0, 0], [1, 0, 0], [1, 0, 1]]], 'fb': {'1': [1, 1, 1]}, 'uf': [[0, 0, 0], [0, 0, 1]]},
    'fb_two_of_two': {'G': [[[1, 0], [0, 0], [0, 1]], [[0, 0, 0], [1, 0, 0], [1, 1, 1]]], 'fb': {'0': [1, 1], '1': [1, 0, 1]}, 'uf': [[0, 0, 1], [0, 0, 1]]},
}
