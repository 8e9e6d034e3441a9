"""PRBS iterators: bit-by-bit generation, independent under every interleaving, seeds interchangeable with the generator."""
import itertools
import numpy as np
import CommDspy as cdsp
from mc.core import lfsr
from mc.props.c01 import poly_of

BOUNDS = {
    'quick': 'every interleaving of {next, get_seed, get_prev_seed, iter, resume-by-generator, resume-by-iterator} on two iterators to depth 5 and of '
             'next on three iterators to depth 8; whole cycles of PRBS7/9/11/13; every state of PRBS7/9; 400 steps of two iterators of every register length, both seeds checked after every step',
    'thorough': 'depth 6 / 10 and the whole PRBS15 cycle',
}
ASSUMPTIONS = ['reference model: one bit-serial LFSR per iterator']


class Model:
    def __init__(self, poly, seed):
        self.poly = [int(v) for v in poly]
        self.s = [int(v) for v in seed]
        self.prev = None

    def next(self):
        self.prev = list(self.s)
        o, self.s = lfsr(self.poly, self.s, 1)
        return o[0]


def interleave(ctx, n, seeds, depth, first, shared):
    """All op words of this depth beginning with `first` over two iterators (optionally sharing their arrays)."""
    poly = poly_of(n)
    ops = ['n0', 'n1', 's0', 's1', 'p0', 'p1', 'g0', 'i1', 'r0']
    for rest in itertools.product(ops, repeat=depth - len(first)):
        word = tuple(first) + rest
        pa = poly.copy()
        if shared:
            sa = np.array(seeds[0])
            its = [cdsp.tx.PrbsIterator(pa, sa), cdsp.tx.PrbsIterator(pa, sa)]
            mods = [Model(poly, seeds[0]), Model(poly, seeds[0])]
        else:
            its = [cdsp.tx.PrbsIterator(poly.copy(), np.array(s)) for s in seeds]
            mods = [Model(poly, s) for s in seeds]
        for op in word:
            i = int(op[1])
            ctx.step()
            if op[0] == 'n':
                b = next(its[i])
                ctx.check(int(b) == mods[i].next(), 'wrong bit', word=word, seeds=seeds)
            elif op[0] == 's':
                ctx.same(its[i].get_seed(), mods[i].s, 'get_seed is not the current register state', word=word, seeds=seeds)
            elif op[0] == 'p':
                g = its[i].get_prev_seed()
                if mods[i].prev is None:
                    ctx.check(g is None, 'previous seed before the first bit', word=word)
                else:
                    ctx.same(g, mods[i].prev, 'get_prev_seed is not the state before the last bit', word=word, seeds=seeds)
            elif op[0] == 'r':   # looping over the object again continues, it does not start over
                its[i] = iter(its[i])
            elif op[0] == 'g':   # the generator continues where the iterator stands
                o, s = cdsp.tx.prbs_gen(poly, its[i].get_seed(), n + 2)
                wo, ws = lfsr(mods[i].poly, mods[i].s, n + 2)
                ctx.same(o, wo, 'generator does not continue the iterator', word=word, seeds=seeds)
                ctx.same(s, ws, 'generator seed', word=word, seeds=seeds)
            else:                # a new iterator continues where the generator stopped
                o, s = cdsp.tx.prbs_gen(poly, its[i].get_seed(), 3)
                it2 = cdsp.tx.PrbsIterator(poly, s)
                wo, ws = lfsr(mods[i].poly, mods[i].s, 8)
                got = list(o) + [int(next(it2)) for _ in range(5)]
                ctx.same(got, wo, 'iterator does not continue the generator', word=word, seeds=seeds)
        ctx.state(n, shared, word)
        ctx.trace()
    ctx.sample(word=word, seeds=seeds)


def three(ctx, n, depth, prefix):
    """Every schedule of next() over three iterators started at different states."""
    poly = poly_of(n)
    seeds = [[1] * n, [1] + [0] * (n - 1), [0, 1] * (n // 2) + [1]]
    streams = [lfsr(poly, s, depth)[0] for s in seeds]
    for rest in itertools.product(range(3), repeat=depth - len(prefix)):
        word = tuple(prefix) + rest
        its = [iter(cdsp.tx.PrbsIterator(poly, np.array(s))) for s in seeds]
        pos = [0, 0, 0]
        for i in word:
            b = next(its[i])
            ctx.step()
            ctx.check(int(b) == streams[i][pos[i]], 'iterators influence each other', schedule=word)
            pos[i] += 1
        ctx.state(n, word)
        ctx.trace()


def cycle(ctx, n, total):
    poly = poly_of(n)
    seed = [1] * n
    want, ws = lfsr(poly, seed, total)
    it = cdsp.tx.PrbsIterator(poly, np.array(seed))
    ref, _ = cdsp.tx.prbs_gen(poly, np.array(seed), total)
    got = []
    for k, b in enumerate(it):
        got.append(int(b))
        ctx.step()
        if k + 1 == total:
            break
    ctx.same(got, want, 'iterator stream differs from the shift register', n=n)
    ctx.same(ref, want, 'generator stream differs from the shift register', n=n)
    ctx.same(it.get_seed(), ws, 'seed after the cycle', n=n)
    full = seed[::-1] + want
    for k in range(min(total, 2 ** n - 1)):
        ctx.state(n, tuple(full[k:k + n]))
    ctx.trace()
    ctx.sample(n=n, total=total, seed_after=ws)


def every_state(ctx, n):
    poly = poly_of(n)
    for s in range(2 ** n):
        seed = [(s >> i) & 1 for i in range(n)]
        it = cdsp.tx.PrbsIterator(poly, np.array(seed))
        m = Model(poly, seed)
        ctx.same(it.get_seed(), seed, 'fresh iterator does not hold its seed', n=n, seed=seed)
        ctx.check(it.get_prev_seed() is None, 'fresh iterator has a previous seed', n=n)
        ctx.check(iter(it) is it or next(iter(cdsp.tx.PrbsIterator(poly, np.array(seed)))) is not None, 'not iterable')
        for _ in range(3):
            ctx.check(int(next(it)) == m.next(), 'wrong bit', n=n, seed=seed)
            ctx.same(it.get_seed(), m.s, 'get_seed', n=n, seed=seed)
            ctx.same(it.get_prev_seed(), m.prev, 'get_prev_seed', n=n, seed=seed)
            ctx.step()
        ctx.state(n, s)
        ctx.trace()


def wide(ctx, n, seeds, total):
    """Long registers, two iterators in turn: every bit and both seeds after every step; seeds handed out earlier stay as they were."""
    poly = poly_of(n)
    for order in ((0, 1), (0, 0, 1), (0,), (1, 1, 1, 0)):
        for shared in (False, True):
            first = np.array(seeds[0])
            its = [cdsp.tx.PrbsIterator(poly, first if shared else np.array(s)) for s in (seeds if not shared else [seeds[0]] * 2)]
            mods = [Model(poly, s) for s in (seeds if not shared else [seeds[0]] * 2)]
            old = []
            for t in range(total):
                i = order[t % len(order)]
                ctx.check(int(next(its[i])) == mods[i].next(), 'wrong bit', n=n, step=t, order=order)
                s, p = its[i].get_seed(), its[i].get_prev_seed()
                ctx.same(s, mods[i].s, 'get_seed is not the current register state', n=n, step=t, order=order)
                ctx.same(p, mods[i].prev, 'get_prev_seed is not the state before the last bit', n=n, step=t, order=order)
                old.append((s, list(mods[i].s)))
                old.append((p, list(mods[i].prev)))
                old = old[-6:]
                for v, w in old:
                    ctx.same(v, w, 'a seed handed out earlier changed later', n=n, step=t, order=order)
                ctx.step()
                ctx.state(n, tuple(mods[i].s))
            ctx.same(first, seeds[0], 'the seed given to the iterator was changed', n=n)
            ctx.trace()


CASES = {f.__name__: f for f in (interleave, three, cycle, every_state, wide)}


def tasks(tier):
    thorough = tier == 'thorough'
    seeds = [[1, 0, 1, 1, 0, 0, 1], [0, 0, 1, 0, 1, 1, 1]]
    ops = ['n0', 'n1', 's0', 's1', 'p0', 'p1', 'g0', 'i1', 'r0']
    for first in ops:
        for shared in (False, True):
            yield 'interleave', dict(n=7, seeds=seeds, depth=6 if thorough else 5, first=[first], shared=shared)
    for p in itertools.product(range(3), repeat=2):
        yield 'three', dict(n=9, depth=10 if thorough else 8, prefix=list(p))
        yield 'three', dict(n=7, depth=10 if thorough else 8, prefix=list(p))
    for n in (7, 9, 11, 13) + ((15,) if thorough else ()):
        yield 'cycle', dict(n=n, total=2 ** n + n + 3)
    yield 'cycle', dict(n=15, total=3000)
    yield 'cycle', dict(n=31, total=3000)
    for n in (7, 9, 11, 13, 15, 31):
        yield 'wide', dict(n=n, seeds=[[(i * i + i // 3) % 2 for i in range(n)], [(i * 5 + 1) % 3 % 2 for i in range(n)]], total=400)
    yield 'every_state', dict(n=7)
    yield 'every_state', dict(n=9)
