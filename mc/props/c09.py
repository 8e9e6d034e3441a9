"""Linear block codes: encoding is u*G over GF(2), decoding returns a closest codeword."""
import itertools
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word, forms

BOUNDS = {
    'quick': 'every binary generating matrix with k<=2,n<=4 and k=3,n=4 (also rank deficient), plus Hamming(7,4), (8,4), (6,3), (5,2), (9,3), repetition and parity codes: every '
             'message, every received word (all 2^n error patterns), every residual length, multi-block streams; codes of up to 300 bits and up to 200 message bits (encoder); streams of 100003 bits',
    'thorough': 'all matrices up to k=3,n=5, Golay-sized (12,5) and (15,7) BCH with every received word',
}
ASSUMPTIONS = ['oracle: brute-force distance to every codeword', 'the error probability is checked for full-rank generators']
NAMED = {
    'hamming74': [[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]],
    'ext84': [[1, 0, 0, 0, 1, 1, 0, 1], [0, 1, 0, 0, 1, 0, 1, 1], [0, 0, 1, 0, 0, 1, 1, 1], [0, 0, 0, 1, 1, 1, 1, 0]],
    'c63': [[1, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 1], [0, 0, 1, 1, 0, 1]],
    'c52': [[1, 0, 1, 1, 0], [0, 1, 0, 1, 1]],
    'c93': [[1, 0, 0, 1, 1, 0, 1, 0, 1], [0, 1, 0, 0, 1, 1, 1, 1, 0], [0, 0, 1, 1, 0, 1, 0, 1, 1]],
    'rep5': [[1, 1, 1, 1, 1]],
    'rep3': [[1, 1, 1]],
    'parity4': [[1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, 1]],
    'identity3': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    'nonsys': [[1, 1, 0, 1, 0, 0, 0], [0, 1, 1, 0, 1, 0, 0], [0, 0, 1, 1, 0, 1, 0], [0, 0, 0, 1, 1, 0, 1]],
    'c125': [[1, 0, 0, 0, 0, 1, 1, 0, 1, 1, 0, 1], [0, 1, 0, 0, 0, 1, 0, 1, 1, 0, 1, 1], [0, 0, 1, 0, 0, 0, 1, 1, 1, 1, 1, 0], [0, 0, 0, 1, 0, 1, 1, 1, 0, 1, 0, 1], [0, 0, 0, 0, 1, 1, 1, 1, 1, 0, 0, 0]],
    'bch157': [[1 if 0 <= j - i < 9 and (0b111010001 >> (8 - (j - i))) & 1 else 0 for j in range(15)] for i in range(7)],
}


def encode(u, G):
    k, n = len(G), len(G[0])
    return tuple(sum(u[i] & G[i][j] for i in range(k)) & 1 for j in range(n))


def code_of(G):
    k = len(G)
    return {u: encode(u, G) for u in words((0, 1), k)}


def dist(a, b):
    return sum(x != y for x, y in zip(a, b))


def check_code(ctx, G, exhaustive_rx=True):
    k, n = len(G), len(G[0])
    cb = code_of(G)
    full = len(set(cb.values())) == 2 ** k
    Ga = np.array(G)
    # encoding of every message of <= 2 blocks, with padding
    for ln in range(0, 2 * k + 1):
        if ln > 9:
            break
        for m in words((0, 1), ln):
            pad = list(m) + [0] * ((-ln) % k)
            want = []
            for i in range(0, len(pad), k):
                want += cb[tuple(pad[i:i + k])]
            got = cdsp.tx.coding_linear(np.array(m, dtype=int), Ga)
            ctx.step()
            ctx.ints(got, np.array(want, dtype=int), 'linear encoding', G=G, message=m)
            ctx.state('e', str(G), m)
    # decoding of every received word, all in one stream and one by one
    rx = list(words((0, 1), n)) if exhaustive_rx else []
    if rx:
        stream = np.array(rx, dtype=int).reshape(-1)
        dec = np.asarray(cdsp.rx.decoding_linear(stream.copy(), Ga))
        dec2, perr = cdsp.rx.decoding_linear(stream.copy(), Ga, True)
        ctx.step(2)
        ctx.check(dec.shape == (len(rx) * k,) and np.shape(dec2) == (len(rx) * k,), 'decoded length', G=G)
        ctx.check(np.shape(perr) == (len(rx),), 'one error probability per block', G=G)
        dec2 = np.asarray(dec2)
        C = np.array([cb[u] for u in cb])
        for i, w in enumerate(rx):
            dd = np.sum(C != np.array(w), axis=1)
            best = int(dd.min())
            for nm, d in (('hard', dec), ('with error probability', dec2)):
                u = tuple(int(v) for v in d[i * k:(i + 1) * k])
                ctx.check(u in cb and dist(cb[u], w) == best, f'decoded word is not closest to the received word ({nm})', G=G, received=w, decoded=u, best=best)
            if full:
                want = 0.0 if best == 0 else 1.0 / int(np.sum(dd == best))
                ctx.check(abs(float(perr[i]) - want) < 1e-12, 'error probability', G=G, received=w, got=float(perr[i]), want=want)
            ctx.state('d', str(G), w)
            ctx.trace()
        for w in rx if n <= 5 else rx[::7]:
            d = np.asarray(cdsp.rx.decoding_linear(np.array(w), Ga))
            u = tuple(int(v) for v in d)
            best = min(dist(c, w) for c in cb.values())
            ctx.check(u in cb and dist(cb[u], w) == best, 'single block decoding', G=G, received=w, decoded=u)
            ctx.step()


def all_matrices(ctx, k, n, part, parts):
    mats = list(itertools.product((0, 1), repeat=k * n))
    for bits in mats[part::parts]:
        G = [list(bits[i * n:(i + 1) * n]) for i in range(k)]
        check_code(ctx, G)
    ctx.sample(k=k, n=n, matrices=len(mats))


def named(ctx, name):
    check_code(ctx, NAMED[name])
    ctx.sample(code=name, G=NAMED[name])


def streams(ctx, name, lens):
    """Long streams: blocks are independent; an incomplete received block is ignored; error-free round trip."""
    G = NAMED[name]
    k, n = len(G), len(G[0])
    cb = code_of(G)
    Ga = np.array(G)
    for ln in lens:
        m = long_word(2, ln) if ln else []
        pad = m + [0] * ((-ln) % k)
        want = []
        for i in range(0, len(pad), k):
            want += cb[tuple(pad[i:i + k])]
        enc = cdsp.tx.coding_linear(np.array(m, dtype=int), Ga)
        ctx.ints(enc, np.array(want, dtype=int), 'linear encoding', code=name, length=ln)
        ctx.step()
        if ln:
            for extra in range(0, n):
                rx = np.concatenate([np.asarray(enc), np.ones(extra, dtype=int)])
                d = cdsp.rx.decoding_linear(rx, Ga)
                ctx.ints(d, pad, 'error-free round trip', code=name, length=ln, residual=extra)
                d, p = cdsp.rx.decoding_linear(rx.copy(), Ga, True)
                ctx.ints(d, pad, 'error-free round trip with error probability', code=name, length=ln, residual=extra)
                ctx.check(not np.any(p), 'error probability of clean blocks', code=name)
                ctx.step(2)
            # any single error inside the correction radius
            dmin = min(sum(c) for u, c in cb.items() if any(u))
            if dmin >= 3:
                for pos in range(0, len(want)):
                    rx = np.array(want)
                    rx[pos] ^= 1
                    ctx.ints(cdsp.rx.decoding_linear(rx, Ga), pad, 'single error is corrected', code=name, length=ln, pos=pos)
                    ctx.step()
        ctx.state(name, ln)
        ctx.trace()


def layouts(ctx, name):
    G = NAMED[name]
    k, n = len(G), len(G[0])
    cb = code_of(G)
    m = long_word(2, 6 * k)
    want = []
    for i in range(0, len(m), k):
        want += cb[tuple(m[i:i + k])]
    for dt in (np.int64, np.int32, np.int8):
        for fn, a in forms(np.array(m, dtype=dt)):
            for gn, g in forms(np.array(G, dtype=dt)):
                e = cdsp.tx.coding_linear(a, g)
                ctx.ints(e, want, f'encoding {fn} {gn} {dt}', code=name)
                ctx.step()
        for fn, a in forms(np.array(want, dtype=dt)):
            for gn, g in forms(np.array(G, dtype=dt)):
                ctx.ints(cdsp.rx.decoding_linear(a, g), m, f'decoding {fn} {gn} {dt}', code=name)
                ctx.step()
                ctx.state(name, str(dt), fn, gn)
    ctx.trace()


def long_code(k, n):
    """A deterministic, full-rank, non-degenerate generator: identity-led rows with pseudo-random parity."""
    bits = long_word(2, 1 << 14)
    G = np.array(bits[:0] + [bits[(i * 37 + 11 + j * (2 * i + 3)) % len(bits)] for i in range(k) for j in range(n)]).reshape(k, n)
    G[:, :k] = np.eye(k, dtype=int)
    return G


def big_codes(ctx, k, n):
    """Long codewords: sums and distances beyond any narrow counter."""
    for kind in range(3):
        G = long_code(k, n)
        if kind == 1:
            G[:, k:] = 1
        elif kind == 2:
            G[:, k:] |= (np.arange(n - k) % 2)[None, :]
        blocks = 4
        for m in (np.array(long_word(2, k * blocks)), np.ones(k * blocks, dtype=int), np.arange(k * blocks) % 2, np.array(long_word(2, k * blocks - 1))):
            pad = np.concatenate([m, np.zeros(-len(m) % k, dtype=int)]).reshape(-1, k)
            c = np.array([[int(v) & 1 for v in row] for row in pad.astype(object).dot(G.astype(object))], dtype=int)
            e = cdsp.tx.coding_linear(m, G)
            ctx.step()
            ctx.ints(e, c.reshape(-1), 'linear encoding of a long code', k=k, n=n, kind=kind)
            ctx.state('big', k, n, kind, len(m), int(m.sum()))
            if k > 8:
                continue
            book = np.array(list(words((0, 1), k)), dtype=int)
            cb = book.dot(G) % 2
            for err in (lambda j: np.zeros(n, dtype=int), lambda j: (np.arange(n) == j % n).astype(int), lambda j: np.ones(n, dtype=int), lambda j: (np.arange(n) < n // 3).astype(int), lambda j: (np.arange(n) >= n // 2).astype(int), lambda j: (np.arange(n) % 3 == j % 3).astype(int)):
                rx = np.array([(row + err(j * 29)) % 2 for j, row in enumerate(c)])
                for f in (False, True):
                    d = cdsp.rx.decoding_linear(rx.reshape(-1).copy(), G, f)
                    d, pe = d if f else (d, None)
                    d = np.asarray(d)
                    ctx.step()
                    ctx.check(d.shape == (len(rx) * k,), 'decoded length', k=k, n=n)
                    for j, row in enumerate(rx):
                        dd = np.sum(cb != row, axis=1)
                        mine = np.sum((d[j * k:(j + 1) * k].dot(G) % 2) != row)
                        ctx.check(mine == dd.min(), 'decoded word of a long code is not closest to the received word', k=k, n=n, block=j, distance=int(mine), best=int(dd.min()))
                        if f:
                            want = 0.0 if dd.min() == 0 else 1.0 / int(np.sum(dd == dd.min()))
                            ctx.check(abs(float(pe[j]) - want) < 1e-12, 'error probability of a long code', k=k, n=n, got=float(pe[j]), want=want)
                ctx.trace()


def long_stream(ctx, name, n):
    """Streams of tens of thousands of blocks, one error in every block of the received stream."""
    G = NAMED[name]
    k, nn = len(G), len(G[0])
    cb = code_of(G)
    base = long_word(2, 1024)
    bits = (base * (n // 1024 + 1))[:n]
    msg = bits + [0] * (-n % k)
    want = [v for i in range(0, len(msg), k) for v in cb[tuple(msg[i:i + k])]]
    enc = np.asarray(cdsp.tx.coding_linear(np.array(bits), np.array(G)))
    ctx.ints(enc.reshape(-1), np.array(want), 'long stream (encoder)', code=name, n=n)
    dmin = min(sum(c) for c in cb.values() if any(c))
    rx = np.array(want)
    if dmin >= 3:
        for b in range(len(rx) // nn):
            rx[b * nn + b % nn] ^= 1
    dec = np.asarray(cdsp.rx.decoding_linear(rx, np.array(G)))
    ctx.ints(dec.reshape(-1), np.array(msg), 'long stream (decoder)', code=name, n=n)
    ctx.step(2)
    ctx.state('long', name, n)
    ctx.trace()


CASES = {f.__name__: f for f in (all_matrices, named, streams, layouts, big_codes, long_stream)}


def tasks(tier):
    th = tier == 'thorough'
    for name in ('hamming74', 'ext84', 'c52', 'rep3', 'parity4'):
        yield 'long_stream', dict(name=name, n=100003)
    for k, n, parts in ((1, 1, 1), (1, 2, 1), (1, 3, 1), (1, 4, 1), (2, 2, 1), (2, 3, 2), (2, 4, 8), (3, 3, 8), (3, 4, 32)):
        for p in range(parts):
            yield 'all_matrices', dict(k=k, n=n, part=p, parts=parts)
    if th:
        for p in range(128):
            yield 'all_matrices', dict(k=3, n=5, part=p, parts=128)
        for p in range(16):
            yield 'all_matrices', dict(k=2, n=5, part=p, parts=16)
    for k, n in ((2, 127), (2, 128), (3, 200), (2, 300), (6, 40), (8, 257), (12, 24), (130, 140), (200, 260), (64, 66)) + (((2, 70000), (300, 310)) if th else ()):
        yield 'big_codes', dict(k=k, n=n)
    for name in NAMED:
        if name == 'bch157' and not th:
            continue
        yield 'named', dict(name=name)
        if len(NAMED[name]) <= 5:
            yield 'streams', dict(name=name, lens=list(range(0, 30)) + [63, 64, 65, 100])
            yield 'layouts', dict(name=name)
