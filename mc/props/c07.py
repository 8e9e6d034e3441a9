"""Bipolar (AMI) and MLT-3 line codes, including bipolar violation detection."""
import numpy as np
import CommDspy as cdsp
from mc.core import words, long_word, shapes_of, forms

BOUNDS = {
    'quick': 'every bit word of <=11 bits encoded and decoded, every received ternary word of <=7 symbols decoded with and without violation detection, '
             'every length 1..260 and selected ones to 140001, shapes of 24 to 3-D, memory layouts; received levels in 5 element types',
    'thorough': 'bit words of <=14, ternary words of <=10, lengths to 600 and 70001',
}
ASSUMPTIONS = ['bipolar: the first mark is negative; MLT-3: initial level 0 of the 0,1,2,1 cycle',
               'violation detection flags every mark that has the sign of the previous or of the next mark']


def bip_enc(w):
    s, out = -1, []
    for b in w:
        if b:
            out.append(1 + s)
            s = -s
        else:
            out.append(1)
    return out


def bip_dec(t):
    return [abs(v - 1) for v in t]


def bip_det(t):
    out = [float(abs(v - 1)) for v in t]
    marks = [i for i, v in enumerate(t) if v != 1]
    for a, b in zip(marks, marks[1:]):
        if t[a] == t[b]:
            out[a] = out[b] = 0.5 * (t[a] - 1)
    return out


def mlt_enc(w):
    cyc, p, out = [0, 1, 2, 1], 0, []
    for b in w:
        p = (p + b) % 4
        out.append(cyc[p])
    return out


def mlt_dec(t):
    p, out = 0, []
    for v in t:
        out.append(abs(v - p))
        p = v
    return out


def enc_one(ctx, w, arr, msg=''):
    bits = np.array(w, dtype=int).reshape(arr.shape)
    e = cdsp.tx.coding_bipolar(arr)
    ctx.step()
    ctx.ints(e, np.array(bip_enc(w), dtype=int).reshape(arr.shape), 'bipolar coding' + msg, word=w)
    ctx.ints(cdsp.rx.decoding_bipolar(np.asarray(e)), bits, 'bipolar round trip' + msg, word=w)
    ctx.same(cdsp.rx.decoding_bipolar(np.asarray(e), error_detection=True), bits, 'false bipolar violation' + msg, word=w)
    ctx.same(cdsp.rx.decoding_bipolar(2 - np.asarray(e), error_detection=True), bits, 'bipolar decoding of the inverted line' + msg, word=w)
    ctx.step(3)
    e = cdsp.tx.coding_mlt3(arr)
    ctx.step()
    ctx.ints(e, np.array(mlt_enc(w), dtype=int).reshape(arr.shape), 'MLT-3 coding' + msg, word=w)
    ctx.ints(cdsp.rx.decoding_mlt3(np.asarray(e)), bits, 'MLT-3 round trip' + msg, word=w)
    ctx.step()
    ctx.trace()


def dec_one(ctx, t, arr, msg=''):
    ctx.ints(cdsp.rx.decoding_bipolar(arr), np.array(bip_dec(t)).reshape(arr.shape), 'bipolar decoding' + msg, received=t)
    ctx.same(cdsp.rx.decoding_bipolar(arr, True), np.array(bip_det(t)).reshape(arr.shape), 'bipolar violation detection' + msg, received=t)
    ctx.step(2)
    ctx.trace()


def enc_words(ctx, length, prefix):
    for r in words((0, 1), length - len(prefix)):
        w = tuple(prefix) + r
        enc_one(ctx, w, np.array(w, dtype=int))
        ctx.state('e', w)
    ctx.sample(word=w, bipolar=bip_enc(w), mlt3=mlt_enc(w))


def dec_words(ctx, length, prefix):
    for r in words((0, 1, 2), length - len(prefix)):
        t = tuple(prefix) + r
        dec_one(ctx, t, np.array(t, dtype=int))
        ctx.state('d', t)
    ctx.sample(received=t, flagged=bip_det(t))


def single_error(ctx, length):
    """Every single level error on a coded word: it is flagged or changes exactly what the line code semantics say."""
    for w in words((0, 1), length):
        e = bip_enc(w)
        for pos in range(length):
            for v in (0, 1, 2):
                if v != e[pos]:
                    t = list(e)
                    t[pos] = v
                    dec_one(ctx, t, np.array(t))
                    ctx.state('x', tuple(t))


def lengths(ctx, lens):
    base = long_word(2, max(lens) + 1)
    tern = long_word(3, max(lens) + 1)
    for n in lens:
        for w in (base[:n], [1] * n, [0] * n):
            enc_one(ctx, w, np.array(w, dtype=int), f' (length {n})')
        dec_one(ctx, tern[:n], np.array(tern[:n], dtype=int), f' (length {n})')
        ctx.state('len', n)


def layouts(ctx):
    w = long_word(2, 24)
    t = long_word(3, 24)
    for shp in shapes_of(24):
        enc_one(ctx, w, np.array(w).reshape(shp), f' shape {shp}')
        dec_one(ctx, t, np.array(t).reshape(shp), f' shape {shp}')
        ctx.state(shp)
    for fn, a in forms(np.array(w, dtype=bool).reshape(4, 6)):
        enc_one(ctx, w, a, f' {fn} bool')
    for dt in (np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32):
        for shp in ((24,), (4, 6), (2, 3, 4)):
            for (fn, a), (_, b) in zip(forms(np.array(w, dtype=dt).reshape(shp)), forms(np.array(t, dtype=dt).reshape(shp))):
                enc_one(ctx, w, a, f' {fn} {dt}')
                dec_one(ctx, t, b, f' {fn} {dt}')
                ctx.state(str(dt), shp, fn)


def received_types(ctx, n):
    """Received levels in every element type a slicer or a file may deliver."""
    for t in words((0, 1, 2), n):
        for dt in (np.uint8, np.uint16, np.int8, np.float64, np.float32):
            a = np.array(t).astype(dt)
            ref = np.array(t)
            ctx.same(np.asarray(cdsp.rx.decoding_bipolar(a), dtype=float), np.asarray(cdsp.rx.decoding_bipolar(ref), dtype=float), 'bipolar decoding', received=t, dtype=np.dtype(dt).name)
            ctx.same(np.asarray(cdsp.rx.decoding_bipolar(a, True), dtype=float), np.asarray(cdsp.rx.decoding_bipolar(ref, True), dtype=float), 'bipolar violation detection', received=t, dtype=np.dtype(dt).name)
            ctx.same(np.asarray(cdsp.rx.decoding_mlt3(a), dtype=float), np.asarray(cdsp.rx.decoding_mlt3(ref), dtype=float), 'MLT-3 decoding', received=t, dtype=np.dtype(dt).name)
            ctx.step(3)
        ctx.state('types', t)
        ctx.trace()


CASES = {f.__name__: f for f in (enc_words, dec_words, single_error, lengths, layouts, received_types)}


def tasks(tier):
    th = tier == 'thorough'
    for n in (1, 2, 3, 5):
        yield 'received_types', dict(n=n)
    for n in range(1, (14 if th else 11) + 1):
        if n >= 11:
            for p in words((0, 1), 3):
                yield 'enc_words', dict(length=n, prefix=list(p))
        else:
            yield 'enc_words', dict(length=n, prefix=[])
    for n in range(1, (10 if th else 7) + 1):
        if n >= 7:
            for p in words((0, 1, 2), 2):
                yield 'dec_words', dict(length=n, prefix=list(p))
        else:
            yield 'dec_words', dict(length=n, prefix=[])
    yield 'single_error', dict(length=6)
    if th:
        yield 'single_error', dict(length=9)
    for a in range(1, 261, 65):
        yield 'lengths', dict(lens=list(range(a, a + 65)))
    yield 'lengths', dict(lens=[511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097])
    yield 'lengths', dict(lens=[70001, 140001])
    if th:
        yield 'lengths', dict(lens=list(range(261, 600)) + [70001])
    yield 'layouts', {}
