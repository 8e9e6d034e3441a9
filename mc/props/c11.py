"""Convolutional decoders: each decoded block is a minimum-distance block; reported ambiguity is exact."""
import itertools
import json
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word
from mc import conv_ref as R
from mc.props.c10 import chunks

BOUNDS = {
    'quick': 'every received word of one block for every 1-input 2-output generator with constraint length <=3 without feedback (blocks of 2..3 chunks), every feedback code with constraint length <=2, and 16 named '
             'codes with 1..2 inputs (2..5 chunks, every received word up to 2^10); every error pattern of weight <=1 of a 10-chunk codeword; streams of 1..4 blocks of 1..3 chunks with every residual length; every order of the generator dictionary; blocks of 700..2500 chunks with heavy noise; blocks spliced from two clean paths (every pair of states of the long codes); every received word of 1..3 chunks for every named one-input code up to 64 states',
    'thorough': 'received words up to 2^14, every feedback code with constraint length 3, error patterns of weight <=2 in 12 chunks',
}
ASSUMPTIONS = ['oracle: brute-force minimum over every start state and every input block (dynamic programming over an independently built trellis)',
               'tb_len is a multiple of the number of outputs and not larger than the pattern',
               'Viterbi: every input has at least one memory element (parallel transitions are a recorded finding)']


def dec_ml(args, r, tb, p=False):
    return cdsp.rx.decoding_conv_ml(np.array(r, dtype=int), args[0], tb, args[1], args[2], p)


def dec_vit(args, r, tb, p=False):
    return cdsp.rx.decoding_conv_viterbi(np.array(r, dtype=int), args[0], tb, args[1], args[2], p)


def dist_from(code, states, u, block):
    """Distance of the block from the closest encoding of the input u, and the end states reached at that distance."""
    best, ends = 10 ** 9, set()
    for i, s in enumerate(states):
        o, e = R.encode(code, u, s)
        d = sum(a != b for a, b in zip(o, block))
        if d < best:
            best, ends = d, {e}
        elif d == best:
            ends.add(e)
    return best, ends


def book(code, n_chunks):
    res = []
    for s in R.all_states(code):
        for u in itertools.product((0, 1), repeat=n_chunks * len(code['G'])):
            res.append(R.encode(code, u, s)[0])
    return np.array(res, dtype=int).reshape(len(res), -1)


def check_block(ctx, code, args, r, cb, states, idx, which):
    n_in = len(code['G'])
    n_out = len(code['G'][0])
    tb = len(r)
    k = tb // n_out * n_in
    d = R.best(code, r)
    dmin = min(d)
    if 'ml' in which:
        got = np.asarray(dec_ml(args, r, tb))
        ctx.step()
        ctx.check(got.shape == (k,) and set(got.tolist()) <= {0, 1}, 'ML: wrong number of decoded bits', code=code, received=r, got=got)
        dd, _ = dist_from(code, states, got.tolist(), r)
        ctx.check(dd == dmin, 'ML: not a closest block', code=code, received=r, decoded=got, distance=dd, minimum=dmin)
        g2, p = dec_ml(args, r, tb, True)
        ctx.step()
        dd, _ = dist_from(code, states, np.asarray(g2).tolist(), r)
        ctx.check(dd == dmin and np.shape(g2) == (k,), 'ML with error probability: not a closest block', code=code, received=r, decoded=g2)
        dist = np.sum(cb != np.array(r), axis=1)
        m = int(dist.min())
        want = 0.0 if m == 0 else 1.0 / int(np.sum(dist == m))
        ctx.close(p, [want], 'ML: error probability', code=code, received=r)
    if 'vit' in which:
        got, last = dec_vit(args, r, tb)
        got = np.asarray(got)
        ctx.step()
        ctx.check(got.shape == (k,) and set(got.tolist()) <= {0, 1}, 'Viterbi: wrong number of decoded bits', code=code, received=r, got=got)
        dd, ends = dist_from(code, states, got.tolist(), r)
        ctx.check(dd == dmin, 'Viterbi: not a closest block', code=code, received=r, decoded=got, distance=dd, minimum=dmin)
        ctx.check(states[int(last)] in ends, 'Viterbi: last state is not the end of the decoded path', code=code, received=r, last=int(last))
        g2, l2, p = dec_vit(args, r, tb, True)
        ctx.step()
        dd, ends = dist_from(code, states, np.asarray(g2).tolist(), r)
        ctx.check(dd == dmin and states[int(l2)] in ends, 'Viterbi with error probability: not a closest block', code=code, received=r, decoded=g2)
        cnt = d.count(dmin)
        ctx.close(p, [1.0 / cnt if cnt > 1 else 0.0], 'Viterbi: error probability', code=code, received=r)
    ctx.outcome(dmin, d.count(dmin))


def every_received(ctx, code, n_chunks, which, prefix=()):
    args = R.code_args(code)
    states = list(R.all_states(code))
    n_out = len(code['G'][0])
    cb = book(code, n_chunks) if 'ml' in which else None
    key = json.dumps(code)
    for r in words((0, 1), n_chunks * n_out - len(prefix)):
        r = tuple(prefix) + r
        check_block(ctx, code, args, r, cb, states, None, which)
        ctx.state(key, n_chunks, r)
        ctx.trace()
    ctx.sample(code=code, received=r)


def families(ctx, codes, n_chunks):
    for code in codes:
        which = ['ml'] + (['vit'] if len(code['G'][0][0]) > 1 else [])
        every_received(ctx, code, n_chunks, which)


def block_streams(ctx, code, n_chunks, which):
    """Several blocks, every residual length: each block is decoded on its own, the residue is dropped."""
    args = R.code_args(code)
    states = list(R.all_states(code))
    n_out = len(code['G'][0])
    n_in = len(code['G'])
    tb = n_chunks * n_out
    k = n_chunks * n_in
    cb = book(code, n_chunks) if 'ml' in which else None
    for nb in (1, 2, 3, 4, 7):
        for res in range(0, tb):
            base = long_word(2, nb * tb + res + 3)[3:]
            for r in (base, [1 - v for v in base]):
                blocks = [r[i * tb:(i + 1) * tb] for i in range(nb)]
                if 'ml' in which:
                    g, p = dec_ml(args, r, tb, True)
                    g = np.asarray(g)
                    ctx.check(g.shape == (nb * k,) and np.shape(p) == (nb,), 'ML stream: shape', code=code, n=nb, res=res, got=g)
                    ctx.same(dec_ml(args, r, tb), g, 'ML: the decoded bits must not depend on error_prob', code=code, received=r)
                    for i, b in enumerate(blocks):
                        d = min(R.best(code, b))
                        dd, _ = dist_from(code, states, g[i * k:(i + 1) * k].tolist(), b)
                        ctx.check(dd == d, 'ML stream: block is not a closest block', code=code, block=i, received=r)
                        dist = np.sum(cb != np.array(b), axis=1)
                        m = int(dist.min())
                        ctx.close(p[i], 0.0 if m == 0 else 1.0 / int(np.sum(dist == m)), 'ML stream: error probability', code=code, block=i, received=r)
                    ctx.step(2)
                if 'vit' in which:
                    g, last, p = dec_vit(args, r, tb, True)
                    g = np.asarray(g)
                    ctx.check(g.shape == (nb * k,) and np.shape(p) == (nb,), 'Viterbi stream: shape', code=code, n=nb, res=res, got=g)
                    ctx.same(dec_vit(args, r, tb)[0], g, 'Viterbi: the decoded bits must not depend on error_prob', code=code, received=r)
                    for i, b in enumerate(blocks):
                        dv = R.best(code, b)
                        dd, ends = dist_from(code, states, g[i * k:(i + 1) * k].tolist(), b)
                        ctx.check(dd == min(dv), 'Viterbi stream: block is not a closest block', code=code, block=i, received=r)
                        c = dv.count(min(dv))
                        ctx.close(p[i], 1.0 / c if c > 1 else 0.0, 'Viterbi stream: error probability', code=code, block=i, received=r)
                    ctx.check(states[int(last)] in ends, 'Viterbi stream: last state', code=code, received=r)
                    ctx.step(2)
                ctx.state(json.dumps(code), nb, res, tuple(r))
                ctx.trace()


def round_trip(ctx, code, n_chunks, weight):
    """Encoded words with every error pattern of a bounded weight, decoded with one long block."""
    args = R.code_args(code)
    states = list(R.all_states(code))
    n_in = len(code['G'])
    tb = n_chunks * len(code['G'][0])
    for u in (long_word(2, n_chunks * n_in), [1] * (n_chunks * n_in), [0] * (n_chunks * n_in)):
        tx = np.asarray(cdsp.tx.coding_conv(np.array(u), *args)).tolist()
        want, end = R.encode(code, u)
        ctx.same(tx, want, 'encoder', code=code)
        for w in range(weight + 1):
            for pos in itertools.combinations(range(tb), w):
                r = list(tx)
                for p in pos:
                    r[p] ^= 1
                got, last = dec_vit(args, r, tb)
                d = R.best(code, r)
                dd, ends = dist_from(code, states, np.asarray(got).tolist(), r)
                ctx.check(dd == min(d), 'Viterbi: not a closest block', code=code, errors=pos, input=u, decoded=got, distance=dd, minimum=min(d))
                ctx.check(states[int(last)] in ends, 'Viterbi: last state', code=code, errors=pos)
                ctx.step()
                ctx.state(json.dumps(code), tuple(u), pos)
                ctx.trace()


def long_blocks(ctx, code, n_chunks):
    """One long block (noise only, and a code word with very many errors): the path metric grows far beyond the number of states."""
    args = R.code_args(code)
    states = list(R.all_states(code))
    n_in, n_out = len(code['G']), len(code['G'][0])
    tb = n_chunks * n_out
    u = long_word(2, n_chunks * n_in)
    tx = R.encode(code, u)[0]
    noise = long_word(2, tb + 11)[11:]
    every3 = [b ^ (1 if i % 3 == 0 else 0) for i, b in enumerate(tx)]
    for r in (noise, every3, [0] * tb, [1] * tb, tx):
        got, last, p = dec_vit(args, r, tb, True)
        d = R.best(code, r)
        dd, ends = dist_from(code, states, np.asarray(got).tolist(), r)
        ctx.check(dd == min(d), 'Viterbi: not a closest block', code=code, chunks=n_chunks, distance=dd, minimum=min(d))
        ctx.check(states[int(last)] in ends, 'Viterbi: last state', code=code)
        c = d.count(min(d))
        ctx.close(p, [1.0 / c if c > 1 else 0.0], 'Viterbi: error probability', code=code, chunks=n_chunks)
        ctx.step()
        ctx.outcome(min(d))
        ctx.trace()
    ctx.state(json.dumps(code), n_chunks)
    ctx.sample(code=code, chunks=n_chunks, distance_of_noise=min(R.best(code, noise)))


def splices(ctx, code, a, b):
    """A clean path into every state followed by a clean path out of every other state: jumping between them would be free."""
    args = R.code_args(code)
    states = list(R.all_states(code))
    n_in, n_out = len(code['G']), len(code['G'][0])
    tb = (a + b) * n_out
    for j, s in enumerate(states):
        for t in states[::max(1, len(states) // 8)]:
            u = long_word(2, (a + b) * n_in + j)[j:]
            r = list(R.encode(code, u[:a * n_in], s)[0]) + list(R.encode(code, u[a * n_in:], t)[0])
            got, last, p = dec_vit(args, r, tb, True)
            d = R.best(code, r)
            dd, ends = dist_from(code, states, np.asarray(got).tolist(), r)
            ctx.check(dd == min(d), 'Viterbi: not a closest block (spliced paths)', code=code, received=r, decoded=got, distance=dd, minimum=min(d))
            ctx.check(states[int(last)] in ends, 'Viterbi: last state', code=code, received=r)
            c = d.count(min(d))
            ctx.close(p, [1.0 / c if c > 1 else 0.0], 'Viterbi: error probability', code=code, received=r, ties=c)
            ctx.step()
            ctx.outcome(min(d), c)
            ctx.state(json.dumps(code), a, b, s, t)
            ctx.trace()


def many_ties(ctx, code, n_chunks):
    """Blocks much shorter than the memory: a great many end states are equally good."""
    args = R.code_args(code)
    states = list(R.all_states(code))
    for r in words((0, 1), n_chunks * len(code['G'][0])):
        got, last, p = dec_vit(args, r, len(r), True)
        d = R.best(code, r)
        dd, ends = dist_from(code, states, np.asarray(got).tolist(), r)
        ctx.check(dd == min(d) and states[int(last)] in ends, 'Viterbi: not a closest block', code=code, received=r, decoded=got)
        c = d.count(min(d))
        ctx.close(p, [1.0 / c if c > 1 else 0.0], 'Viterbi: error probability', code=code, received=r, ties=c)
        ctx.step()
        ctx.outcome(c)
        ctx.state(json.dumps(code), r)
        ctx.trace()


def key_order(ctx, code):
    """The generator and feedback dictionaries may be filled in any order."""
    G, fb, uf = R.code_args(code)
    n_in, n_out = len(code['G']), len(code['G'][0])
    n = 4 if n_in == 2 else 2
    tb = n * n_out
    r = long_word(2, 3 * tb)
    ml0, v0 = dec_ml((G, fb, uf), r, tb, True), dec_vit((G, fb, uf), r, tb, True)
    e0 = cdsp.tx.coding_conv(np.array(long_word(2, 24)), G, fb, uf)
    for perm in itertools.permutations(range(n_in)):
        for fperm in itertools.permutations(sorted(fb)) if fb else (None,):
            args = ({i: G[i] for i in perm}, {i: fb[i] for i in fperm} if fb else fb, uf)
            e = cdsp.tx.coding_conv(np.array(long_word(2, 24)), *args)
            ctx.same(e, e0, 'the encoder depends on the order of the dictionary', code=code, order=perm)
            for got, want in zip(dec_ml(args, r, tb, True), ml0):
                ctx.same(got, want, 'ML: the result depends on the order of the dictionary', code=code, order=perm)
            for got, want in zip(dec_vit(args, r, tb, True), v0):
                ctx.same(np.asarray(got), np.asarray(want), 'Viterbi: the result depends on the order of the dictionary', code=code, order=perm)
            ctx.step(3)
            ctx.state(json.dumps(code), perm, fperm)
            ctx.trace()


def parallel(ctx, code, received):
    """A code with a memoryless input has parallel transitions between the same pair of states."""
    args = R.code_args(code)
    states = list(R.all_states(code))
    got, last = dec_vit(args, received, len(received))
    dd, _ = dist_from(code, states, np.asarray(got).tolist(), received)
    ctx.check(dd == min(R.best(code, received)), 'Viterbi: not a closest block (parallel transitions)', code=code, received=received, decoded=got, distance=dd)


CASES = {f.__name__: f for f in (every_received, families, block_streams, round_trip, long_blocks, key_order, parallel, splices, many_ties)}
PAR = {'G': [[[1], [0], [1]], [[0, 1, 1], [1, 0, 1], [1, 1, 1]]]}


def tasks(tier):
    th = tier == 'thorough'
    yield 'parallel', dict(code=PAR, received=[0, 0, 0, 0, 0, 0])
    for name, code in R.NAMED.items():
        n_in = len(code['G'])
        if n_in == 1 and len(code['G'][0][0]) > 1:
            k = len(code['G'][0][0])
            if k > 3:
                for a, b in ((k, k), (k + 2, 2 * k)) if k < 7 else ((k, 9), (14, 14)):
                    yield 'splices', dict(code=code, a=a, b=b)
            for n in (1, 2, 3):
                yield 'many_ties', dict(code=code, n_chunks=n)
    lim = 12 if th else 10
    for name, n in (('k3_75', 2500), ('k3_75', 700), ('rsc75', 1500), ('k4_1517', 1200), ('two_in', 1200), ('third', 1000)):
        yield 'long_blocks', dict(code=R.NAMED[name], n_chunks=n * (2 if th else 1))
    for name, code in R.NAMED.items():
        n_in, n_out = len(code['G']), len(code['G'][0])
        if n_in == 3 or name == 'k7_171_133':
            continue
        mless = any(len(g[0]) == 1 for g in code['G'])
        for c in range(1, 6):
            if c * n_out > lim:
                break
            nst = 2 ** sum(len(g[0]) - 1 for g in code['G'])
            if nst * 2 ** (c * n_in) > (2048 if th else 512):
                break
            if c * n_out >= 8:
                for pre in itertools.product((0, 1), repeat=3 if c * n_out < 10 else 4):
                    yield 'every_received', dict(code=code, n_chunks=c, which=['ml'] if mless else ['ml', 'vit'], prefix=list(pre))
            else:
                yield 'every_received', dict(code=code, n_chunks=c, which=['ml'] if mless else ['ml', 'vit'])
        for c in (1, 2, 3):
            yield 'block_streams', dict(code=code, n_chunks=c, which=['ml'] if mless else ['ml', 'vit'])
        if not mless:
            yield 'block_streams', dict(code=code, n_chunks=4, which=['vit'])
            yield 'round_trip', dict(code=code, n_chunks=12 if th else 10, weight=2 if th else 1)
    yield 'round_trip', dict(code=R.NAMED['k3_75'], n_chunks=40, weight=1)
    for n_out, L, c in ((2, 1, 2), (2, 2, 3), (1, 3, 4), (3, 2, 2)):
        for cs in chunks(R.one_input(n_out, L), 8):
            yield 'families', dict(codes=cs, n_chunks=c)
    for cs in chunks(R.two_input(2, 2, 2), 8):
        yield 'families', dict(codes=cs, n_chunks=2)
    for cs in chunks(R.one_input(1, 4), 2):
        yield 'families', dict(codes=cs, n_chunks=4)
    for cs in chunks(R.two_input_fb(1, 2, 2), 24):
        yield 'families', dict(codes=cs, n_chunks=3)
    for name in ('two_in', 'two_in_long', 'three_in', 'fb_first_of_two', 'fb_second_of_two', 'fb_two_of_two', 'doc2'):
        yield 'key_order', dict(code=R.NAMED[name])
    for cs in chunks(R.one_input(2, 3), 4):
        yield 'families', dict(codes=cs, n_chunks=3)
    for cs in chunks(R.one_input_fb(2, 2), 8):
        yield 'families', dict(codes=cs, n_chunks=2)
    if th:
        for cs in chunks(R.one_input_fb(2, 3), 2):
            yield 'families', dict(codes=cs, n_chunks=3)
        for cs in chunks(R.one_input_fb(2, 2), 2):
            yield 'families', dict(codes=cs, n_chunks=4)
