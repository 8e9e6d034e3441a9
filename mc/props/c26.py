"""Whole links: what was sent is what is received, for every configuration, every short data word and every chunking."""
import itertools
import json
import math
import numpy as np
import CommDspy as cdsp
from example_simulation.simulation_parts.data_objects import PrbsData, CodingData, MappingData, ChannelData, CtleData, AdcData, FfeDfeData, FullLinkData
from example_simulation.simulation_parts.transmitter import PrbsGen, Encoder, Transmitter
from example_simulation.simulation_parts.channel import Channel
from example_simulation.simulation_parts.receiver import Ctle, Adc, FfeDfe, Decoder, Receiver
from example_simulation.simulation_parts.full_link import FullLink
from example_simulation.analyzer.analyzer_classes import Checker
from mc.core import words, long_word, lfsr, compositions, split

BOUNDS = {
    'quick': 'library links: every bit word of 8 bits and a PRBS stream x NRZ/OOK/PAM4 x 16 symbol flags x gray/differential on/off x polarity x scale x 4 channels with their exact equalizer; line codes and block/convolutional codes over '
             'every word of 8 bits; example link: every combination of its coding switches, every word of 8 bits (round trip), every chunking of 6 symbols through its channel, CTLE and equalizer objects, full streaming links over 4 pulses, '
             '2 oversampling rates, ISI with DFE, all constellations, two-input recursive codes, long IIR channels; objects resumed with the memory of another one at every cut of 20 symbols; equalizer taps replaced at every second point of a stream; 5 adapting links over 400 chunks',
    'thorough': 'words of 12 bits, chunkings of 9 symbols',
}
ASSUMPTIONS = ['noise free channels, eye open at the slicer', 'a link may delay its data by a whole number of symbols, the same for every chunk']
C = cdsp.ConstellationEnum
CN = {'NRZ': C.NRZ, 'OOK': C.OOK, 'PAM4': C.PAM4, 'PAM3': C.PAM3}
M = {'NRZ': 2, 'OOK': 2, 'PAM4': 4, 'PAM3': 3}
POLY = {'PRBS7': [0, 0, 0, 0, 0, 1, 1], 'PRBS9': [0, 0, 0, 0, 1, 0, 0, 0, 1], 'PRBS11': [0] * 8 + [1, 0, 1], 'PRBS13': [1, 1] + [0] * 9 + [1, 1]}
H74 = np.array([[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]])
CONV = {0: np.array([[1, 1, 1], [1, 0, 1]])}
RSC2 = ({0: np.array([[1, 0], [0, 0], [0, 1]]), 1: np.array([[0, 0, 0], [1, 0, 0], [1, 1, 1]])}, {0: np.array([1, 1]), 1: np.array([1, 0, 1])}, np.array([[0, 0, 1], [0, 0, 1]]))
FB1 = ({0: np.array([[1, 0], [0, 0], [0, 1]]), 1: np.array([[0, 0, 0], [1, 0, 0], [1, 0, 1]])}, {1: np.array([1, 1, 1])}, np.array([[0, 0, 0], [0, 0, 1]]))
RSC = ({0: np.array([[1, 0], [0, 1]])}, {0: np.array([1, 1])}, np.array([[0, 1]]))


# ------------------------------------------------------------------------------------------------ library links
def through(ctx, sym, ch, lv):
    """Channel with its exact inverse equalizer; returns the slicer input."""
    if ch == 'none':
        return sym
    if ch == 'iir':
        y, _ = cdsp.channel.awgn_channel(sym, [1.0], [1.0, -0.4, 0.1])
        r = cdsp.rx.ffe_dfe(y, np.array([1.0, -0.4, 0.1]))
        return r[0] if isinstance(r, tuple) else r
    if ch == 'dfe':
        y, _ = cdsp.channel.awgn_channel(sym, [1.0, 0.35, -0.2], [1.0])
        return cdsp.rx.ffe_dfe(y, np.array([1.0]), np.array([0.35, -0.2]), lv)[0]
    if ch == 'both':
        y, _ = cdsp.channel.awgn_channel(sym, [1.0, 0.3], [1.0, 0.2])
        return cdsp.rx.ffe_dfe(y, np.array([1.0, 0.2]), np.array([0.3]), lv)[0]
    if ch == 'imp':
        y, _ = cdsp.channel.pulse_shape(sym, osr=4, span=2, pulse='imp')
        return y[::4]
    if ch == 'rcos':
        k = 6
        y, _ = cdsp.channel.pulse_shape(np.concatenate([sym, np.zeros(2 * k)]), osr=4, span=k, pulse='rcos', beta=0.5)
        peak = int(np.argmax(cdsp.channel.pulse_shape(np.concatenate([[1.0], np.zeros(2 * k)]), osr=4, span=k, pulse='rcos', beta=0.5)[0]))
        return y[peak::4][:len(sym)]
    raise KeyError(ch)


def link(ctx, bits, cname, flags, gray, diff, pn, full, ch):
    c, m = CN[cname], M[cname]
    b = np.array(bits)
    s = cdsp.tx.bin2symbol(b, m, **flags)
    if diff:
        s = cdsp.tx.coding_differential(s, c)
    if gray:
        s = cdsp.tx.coding_gray(s, c)
    x = cdsp.tx.mapping(s, c, full, pn_inv=pn)
    lv = np.sort(cdsp.get_levels(c, full) * (-1 if pn else 1)).astype(float)
    y = through(ctx, np.asarray(x, dtype=float), ch, lv)
    z = cdsp.rx.slicer(y, lv)
    r = cdsp.rx.demapping(z, c, full, pn)
    if gray:
        r = cdsp.rx.decoding_gray(r, c)
    if diff:
        r = cdsp.rx.decoding_differential(r, c)
    r = cdsp.rx.symbol2bin(r, m, **flags)
    ctx.step()
    ctx.same(r, b, 'received bits', sent=bits, constellation=cname, flags=flags, gray=gray, diff=diff, pn=pn, full=full, channel=ch)
    return r


FLAGS = [dict(bit_order_inv=a, inv_msb=b, inv_lsb=c, pn_inv=d) for a, b, c, d in itertools.product([False, True], repeat=4)]


def links(ctx, cname, ch, full, n):
    for fl in FLAGS:
        for gray in (False, True):
            for diff in (False, True):
                for pn in (False, True):
                    for w in (words((0, 1), n) if (fl == FLAGS[0] or fl == FLAGS[11]) and n <= 8 and ch in ('none', 'dfe') and full else [long_word(2, 64), [0] * 8, [1] * 8]):
                        link(ctx, list(w), cname, fl, gray, diff, pn, full, ch)
                        ctx.state(cname, ch, full, w, gray, diff, pn, sorted(fl.items()))
                    ctx.trace()
    ctx.sample(constellation=cname, channel=ch)


def links_words(ctx, cname, ch, n, gray, diff):
    for w in words((0, 1), n):
        link(ctx, list(w), cname, FLAGS[0], gray, diff, False, False, ch)
        ctx.state(cname, ch, w, gray, diff)
    ctx.trace()


def prbs_link(ctx, prbs, cname, ch, nerr):
    """A PRBS over the link is recognised by the checkers; every injected bit error is counted once."""
    n = int(prbs[4:])
    bits, _ = lfsr(POLY[prbs], [1] * n, 700)
    r = link(ctx, bits, cname, FLAGS[0], True, False, False, False, ch)
    e = r.copy()
    pos = [150 + 37 * i for i in range(nerr)]
    for p in pos:
        e[p] ^= 1
    for init_lock in (False,):
        lost, lock, err = cdsp.rx.prbs_checker(cdsp.PrbsEnum[prbs], e, init_lock)[:3]
        ctx.step()
        ctx.check(int(np.sum(err)) == nerr, 'errors counted by the PRBS checker', got=int(np.sum(err)), want=nerr, prbs=prbs)
    lv = cdsp.get_levels(CN[cname])
    ctx.state(prbs, cname, ch, nerr)
    ctx.trace()


def coded_link(ctx, code, n, ch, shape):
    enc, dec, cname = CODES[code]
    for w in words((0, 1), n):
        b = np.array(w)
        s = enc(b)
        c = CN[cname]
        x = np.asarray(cdsp.tx.mapping(s, c), dtype=float)
        lv = cdsp.get_levels(c).astype(float)
        y = through(ctx, x, ch, lv)
        r = dec(cdsp.rx.demapping(cdsp.rx.slicer(y, lv), c))
        ctx.step()
        ctx.same(np.asarray(r)[:n], b, 'decoded bits', sent=w, code=code, channel=ch)
        ctx.state(code, ch, w)
    ctx.trace()
    ctx.sample(code=code, word=w)


CODES = {
    'manchester': (cdsp.tx.coding_manchester, cdsp.rx.decoding_manchester, 'NRZ'),
    'dmanchester': (cdsp.tx.coding_differential_manchester, cdsp.rx.decoding_differential_manchester, 'NRZ'),
    'bipolar': (cdsp.tx.coding_bipolar, cdsp.rx.decoding_bipolar, 'PAM3'),
    'mlt3': (cdsp.tx.coding_mlt3, cdsp.rx.decoding_mlt3, 'PAM3'),
    'linear': (lambda b: cdsp.tx.coding_linear(b, H74), lambda r: cdsp.rx.decoding_linear(r, H74), 'NRZ'),
    'conv': (lambda b: cdsp.tx.coding_conv(b, CONV), lambda r: cdsp.rx.decoding_conv_viterbi(r, CONV, len(r) // 2)[0], 'OOK'),
    'rsc': (lambda b: cdsp.tx.coding_conv(b, *RSC), lambda r: cdsp.rx.decoding_conv_viterbi(r, RSC[0], len(r) // 2, RSC[1], RSC[2])[0], 'NRZ'),
}


# ------------------------------------------------------------------------------------------------ example coding
def coding_configs():
    for cname in ('NRZ', 'OOK', 'PAM4'):
        for binary in ([], ['bin_differential'], ['manchester'], ['bin_differential', 'manchester'], ['diff_manchester'], ['bin_differential', 'diff_manchester'], ['manchester', 'diff_manchester'],
                       ['bin_differential', 'manchester', 'diff_manchester']):
            for fec in ('', 'linear', 'conv', 'rsc'):
                for gray in (False, True):
                    for diff in (False, True):
                        yield dict(cname=cname, binary=binary, fec=fec, gray=gray, diff=diff)
    for cname in ('NRZ', 'PAM4'):
        for fec in ('rsc2', 'fb1'):
            yield dict(cname=cname, binary=[], fec=fec, gray=False, diff=False)
            yield dict(cname=cname, binary=['bin_differential'], fec=fec, gray=True, diff=True)
    for binary in ([], ['bin_differential'], ['manchester'], ['bin_differential', 'manchester']):
        for line in ('bipolar', 'mlt3'):
            for diff in (False, True):
                yield dict(cname='PAM3', binary=binary + [line], fec='', gray=False, diff=diff)


def coding_data(cname, binary, fec, gray, diff, fl, nbits):
    n = nbits
    for b in binary:
        if 'manchester' in b:
            n *= 2
    kw = {'coding_' + b: True for b in binary}
    if fec == 'linear':
        kw.update(coding_linear=True, G=H74)
    elif fec == 'conv':
        kw.update(coding_conv=True, G=CONV)
    elif fec in ('rsc', 'rsc2', 'fb1'):
        g = {'rsc': RSC, 'rsc2': RSC2, 'fb1': FB1}[fec]
        kw.update(coding_conv=True, G=g[0], feedback=g[1], use_feedback=g[2])
        if len(g[0]) == 2:
            n = n * 3 // 2        # the decoder works on whole groups of three coded bits
    return CodingData(math.log2(M[cname]), CN[cname], n, coding_gray=gray, coding_differential=diff, **fl, **kw)


def example_coding(ctx, cfg, n, fls):
    for fi in fls:
        cd = coding_data(fl=FLAGS[fi], nbits=n, **cfg)
        enc, dec = Encoder(cd), Decoder(cd)
        short = not cfg['fec'] or n <= 8
        for w in words((0, 1), n):
            b = np.array(w)
            x = enc(b)
            ctx.check(np.array_equal(b, w), 'the encoder changed its input')
            ctx.check(np.min(x) >= 0 and np.max(x) < M[cfg['cname']], 'encoded symbol outside the constellation', sent=w, got=x, **cfg)
            keep = x.copy()
            r = dec(x)
            ctx.step(2)
            ctx.same(x, keep, 'the decoder changed its input')
            ctx.same(np.asarray(r)[:n], b, 'example link coding round trip', sent=w, flags=FLAGS[fi], **cfg)
            ctx.state(json.dumps(cfg), fi, w)
        ctx.trace()
    ctx.sample(config=cfg, word=w)


def example_coding_long(ctx, cfg, sizes):
    """Chunks of realistic size through the example encoder and decoder, several chunks in a row."""
    for n in sizes:
        for fi in (0, 5, 11):
            cd = coding_data(fl=FLAGS[fi], nbits=n, **cfg)
            enc, dec = Encoder(cd), Decoder(cd)
            stream = long_word(2, 3 * n + 5)
            for k in range(3):
                b = np.array(stream[k * n + k:(k + 1) * n + k])
                r = dec(enc(b.copy()))
                ctx.step(2)
                ctx.same(np.asarray(r)[:n], b, 'example link coding round trip', size=n, chunk=k, flags=FLAGS[fi], **cfg)
            ctx.state('long', json.dumps(cfg), n, fi)
        ctx.trace()


# ------------------------------------------------------------------------------------------------ example streaming
def prbs_stream(ctx, name, sizes):
    t = cdsp.PrbsEnum[name]
    n = len(POLY[name])
    for seed in (None, np.array([(i * 3 // 2) % 2 for i in range(n)])):
        s0 = [1] * n if seed is None else list(seed)
        for size in sizes:
            pd = PrbsData(t, size, seed)
            g = iter(PrbsGen(pd))
            want, _ = lfsr(POLY[name], s0, size * 5)
            got = []
            prev = s0
            for k in range(5):
                got.extend(int(v) for v in next(g))
                ctx.step()
                ctx.same(g.get_prev_seed(), prev, 'previous seed of the generator', chunk=size)
                prev = [int(v) for v in g.get_seed()]
                ctx.same(prev, lfsr(POLY[name], s0, size * (k + 1))[1], 'seed of the generator', chunk=size)
            ctx.same(got, want, 'chunks of the PRBS generator', chunk=size, prbs=name)
            ctx.state(name, size, seed is None)
            ctx.trace()


def chunked(ctx, kind, cfg, n):
    """Every chunking of the stream through the object equals one chunk."""
    osr = cfg.get('osr', 1)
    x = np.array([[-3., -1., 1., 3.][i] for i in long_word(4, n)])

    def mk():
        if kind == 'channel':
            return Channel(ChannelData(**cfg))
        if kind == 'ctle':
            return Ctle(CtleData(**cfg))
        return FfeDfe(FfeDfeData(**{k: (np.array(v) if isinstance(v, list) else v) for k, v in cfg.items()}))
    xin = x if kind != 'ctle' else np.repeat(x, osr)
    rate = 1 if kind != 'ctle' else osr
    ref = mk()(xin.copy())
    for parts in compositions(n):
        o = mk()
        got = np.concatenate([np.atleast_1d(o(c.copy())) for c in split(xin, [p * rate for p in parts])])
        ctx.step(len(parts))
        ctx.close(got, ref, 'chunks through the ' + kind, chunks=parts, config=cfg)
        ctx.state(kind, json.dumps(cfg), parts)
        ctx.trace()
    ctx.sample(kind=kind, chunks=parts)


def resume(ctx, kind, cfg, n):
    """An object built with the memory of another one continues its stream; default equalizer taps are transparent up to their delay."""
    osr = cfg.get('osr', 1)
    x = np.array([[-3., -1., 1., 3.][i] for i in long_word(4, n)])
    rate = osr if kind == 'ctle' else 1
    x = np.repeat(x, rate)
    mk = {'channel': lambda **z: Channel(ChannelData(**cfg, **z)), 'ctle': lambda **z: Ctle(CtleData(**cfg, **z)),
          'ffe_dfe': lambda **z: FfeDfe(FfeDfeData(**{k: (np.array(v) if isinstance(v, list) else v) for k, v in cfg.items()}, **z))}[kind]
    ref = mk()(x.copy())
    ctx.step()
    for a in range(1, n):
        o = mk()
        first = np.atleast_1d(o(x[:a * rate].copy()))
        z = {'channel': lambda: dict(pulse_zi=o.pulse_zi, **({'ch_zi': o.ch_zi} if cfg['ch_type'] == 'isi_awgn' else {})), 'ctle': lambda: dict(zi=o.zi),
             'ffe_dfe': lambda: dict(zi_dfe=o.zi_dfe, **({'zi_ffe': o.zi_ffe} if np.size(o.zi_ffe) == np.size(o.ffe_vec) else {}))}[kind]()
        z = {k: None if v is None else np.array(v) for k, v in z.items()}
        second = np.atleast_1d(mk(**z)(x[a * rate:].copy()))
        ctx.step(2)
        ctx.close(np.concatenate([first, second]), ref, 'stream resumed with the memory of another ' + kind, cut=a, config=cfg)
        ctx.state('resume', kind, json.dumps(cfg), a)
        ctx.trace()
    if kind == 'ffe_dfe':
        pre = cfg['ffe_precursors']
        d = FfeDfe(FfeDfeData(pre, cfg['ffe_postcursors'], 0))
        ctx.close(d(x.copy()), np.concatenate([np.zeros(pre), x])[:len(x)], 'default equalizer', config=cfg)


def isi_model(ctx, fir, iir, n):
    """The example channel's ISI is the given filter."""
    x = np.array([[-3., -1., 1., 3.][i] for i in long_word(4, n)])
    ch = Channel(ChannelData('imp', 1, 'isi_awgn', fir_coefs=fir, iir_coefs=iir, osr=1, snr=None))
    y = ch(x)
    a = [1.0] if iir is None else iir
    want = []
    for k in range(n):
        v = sum(f * x[k - i] for i, f in enumerate(fir) if k - i >= 0) - sum(a[j] * want[k - j] for j in range(1, len(a)) if k - j >= 0)
        want.append(v / a[0])
    ctx.close(y, want, 'example channel', fir=fir, iir=iir)
    ctx.step()
    ctx.state(json.dumps([fir, iir, n]))
    ctx.trace()


def adc(ctx, total, frac, typ, osr, rate, phase, n):
    """The converter takes every (osr/rate)-th sample from its phase on and rounds it to the nearest level of its grid."""
    step = 2.0 ** -frac
    lo, hi = {'u': (0, 2 ** total - 1), 's': (-2 ** (total - 1), 2 ** (total - 1) - 1), 'ss': (-2 ** (total - 1) + 1, 2 ** (total - 1) - 1)}[typ]
    kw = {} if phase is None else dict(phase=phase)
    ph = osr // 2 if phase is None else phase
    a = Adc(AdcData(total, frac, typ, osr, rate, **kw))
    for k in range(1, n + 1):
        x = np.array([(hi + 3) * (((i * 37 + k * 11) % 101) / 50.0 - 1.0) for i in range(k * osr)])
        got = np.asarray(a(x.copy()))
        ctx.step()
        idx = [i for i in range(k * osr) if i >= ph and (i - ph) % (osr // rate) == 0]
        ctx.check(got.shape == (len(idx),), 'number of converted samples', got=got, want=len(idx), osr=osr, rate=rate, phase=ph, symbols=k)
        for g, i in zip(got, idx):
            q = g / step
            best = min(abs(x[i] - c) for c in range(lo, hi + 1))
            ctx.check(abs(q - round(q)) < 1e-9 and lo <= round(q) <= hi and abs(abs(x[i] - q) - best) < 1e-9, 'converted sample', sample=x[i], got=g, osr=osr, rate=rate, phase=ph, bits=total)
        ctx.state(total, frac, typ, osr, rate, ph, k)
        ctx.trace()


def recorder(ctx, cname, chunk, k):
    """The simulation records what passed each point of the link, chunk by chunk; later chunks do not change the records."""
    from example_simulation.simulation_parts.simulation import Simulation
    m = M[cname]
    pd = PrbsData(cdsp.PrbsEnum.PRBS9, chunk)
    cd = CodingData(math.log2(m), CN[cname], chunk)
    md = MappingData(CN[cname], cdsp.get_levels(CN[cname]).astype(float), 64, 1.0)
    ch = ChannelData('rect', 1, 'pulse', osr=2, snr=None)
    sim = Simulation(FullLinkData(pd, cd, md, ch, CtleData([1e9], [1e9], 0, 10e9, 2), AdcData(10, 0, 'ss', 2, 1, phase=0), FfeDfeData(0, 0, 1, dfe_vec=np.array([0.0]), levels=cdsp.get_levels(CN[cname]).astype(float))))
    L, hist = sim.Link, []
    pts = ('ctle_out', 'adc_out', 'slicer_in', 'slicer_out', 'demapped_chunk', 'decoded_chunk')
    for i in range(k):
        before = {q: np.array(getattr(L.Rx, q)) for q in pts}
        sim.Link()
        ctx.step()
        for q in pts:
            ctx.same(getattr(L.Rx, q + '_last'), before[q], 'the receiver remembers another chunk than the previous one', point=q, chunk=i)
        hist.append([np.array(v) for v in (L.Tx.prbs_chunk, L.Tx.encoded_prbs_chunk, L.Tx.mapped_prbs_chunk, L.Ch.ch_out, L.Rx.ctle_out, L.Rx.adc_out, L.Rx.slicer_in, L.Rx.slicer_out, L.Rx.demapped_chunk,
                                           L.Rx.decoded_chunk)])
        sim.gather_memory()
    mem = sim.Memory
    recs = (mem.tx_prbs_chunks, mem.tx_encoded_prbs_chunks, mem.tx_mapped_prbs_chunks, mem.ch_out_chunks, mem.rx_ctle_out_chunks, mem.rx_adc_out_chunks, mem.rx_slicer_in_chunks, mem.rx_slicer_out_chunks, mem.rx_demapped_chunks,
            mem.rx_decoded_chunks)
    for j, r in enumerate(recs):
        ctx.check(len(r) == k, 'number of recorded chunks', point=j, got=len(r))
        for i in range(k):
            ctx.same(r[i], hist[i][j], 'recorded chunk', point=j, chunk=i)
    want, _ = lfsr(POLY['PRBS9'], [1] * 9, chunk * k)
    ctx.same(np.concatenate(mem.tx_prbs_chunks), want, 'recorded transmit bits')
    ctx.check(len(mem.cdr_phase_vec) == len(mem.lms_mse_vec) == len(mem.lms_ffe_vecs) == len(mem.lms_dfe_vecs) == k, 'records of the adaptation')
    mem.reset()
    ctx.check(all(len(v) == 0 for v in vars(mem).values() if isinstance(v, list)), 'reset leaves records behind', left=[n for n, v in vars(mem).items() if isinstance(v, list) and len(v)])
    sim.Link()
    sim.gather_memory()
    ctx.check(all(len(v) == 1 for v in (mem.tx_prbs_chunks, mem.tx_encoded_prbs_chunks, mem.tx_mapped_prbs_chunks, mem.ch_out_chunks, mem.rx_ctle_out_chunks, mem.rx_adc_out_chunks, mem.rx_slicer_in_chunks, mem.rx_slicer_out_chunks,
                                           mem.rx_demapped_chunks, mem.rx_decoded_chunks, mem.cdr_phase_vec, mem.lms_mse_vec, mem.lms_ffe_vecs, mem.lms_dfe_vecs)), 'records after a reset')
    ctx.same(mem.tx_prbs_chunks[0], lfsr(POLY['PRBS9'], [1] * 9, chunk * (k + 1))[0][-chunk:], 'recorded transmit bits after a reset')
    ctx.state(cname, chunk, k)
    ctx.trace()


def retap(ctx, pre, post, dfe):
    """Taps handed over later act like taps given at construction, from any point of the stream on; vectors of another length are refused."""
    n = pre + post + 1
    f = np.array([0.05 * (i + 1) for i in range(pre)] + [1.0] + [-0.1 * (i + 1) for i in range(post)])
    d = np.array([0.2, -0.1, 0.05][:dfe])
    lv = np.array([-3., -1., 1., 3.])
    x = lv[np.array(long_word(4, 24))] * 0.9 + 0.03 * np.sin(np.arange(24))
    unit = np.zeros(n)
    unit[pre] = 1.0
    for cut in range(1, 24, 2):
        a = FfeDfe(FfeDfeData(pre, post, dfe, ffe_vec=unit.copy(), dfe_vec=np.zeros(dfe), levels=lv.copy()))
        a(x[:cut].copy())
        zf, zd = (None if z is None else np.array(z) for z in (a.zi_ffe, a.zi_dfe))
        a.set_ffe(f.copy())
        if dfe:
            a.set_dfe(d.copy())
        got = np.asarray(a(x[cut:].copy()))
        b = FfeDfe(FfeDfeData(pre, post, dfe, ffe_vec=f.copy(), dfe_vec=d.copy(), levels=lv.copy(), zi_ffe=zf, zi_dfe=zd))
        ctx.close(got, np.asarray(b(x[cut:].copy())), 'taps set later', pre=pre, post=post, dfe=dfe, cut=cut)
        ctx.step(3)
        ctx.state('retap', pre, post, dfe, cut)
        ctx.trace()
    for bad in (n - 1, n + 1):
        ctx.raises(ValueError, lambda: a.set_ffe(np.zeros(bad)), 'FFE vector of another length')
    for bad in (dfe + 1, dfe + 2):
        ctx.raises(ValueError, lambda: a.set_dfe(np.zeros(bad)), 'DFE vector of another length')


def adapts(ctx, cname, pre, post, dfe, fir, chunks):
    """The adaptation of the example receiver opens the eye: pre- and postcursor interference is removed while the data keep flowing."""
    m, chunk, amp = M[cname], 600, 2000
    lv = np.array([-1., 1.])
    pd = PrbsData(cdsp.PrbsEnum.PRBS13, chunk)
    f = np.zeros(pre + post + 1)
    f[pre] = 1.0
    lk = FullLink(FullLinkData(pd, CodingData(math.log2(m), CN[cname], chunk), MappingData(CN[cname], lv, amp, 1.0), ChannelData('imp', 1, 'isi_awgn', fir_coefs=fir, osr=1, snr=None), CtleData([1e9], [1e9], 0, 10e9, 1),
                               AdcData(12, 0, 'ss', 1, 1, phase=0), FfeDfeData(pre, post, dfe, ffe_vec=f, dfe_vec=np.zeros(dfe), levels=lv.copy())))
    rx = lk.Rx
    rx.adc.frac_bits = math.log2(amp / 2)
    rx.lms_lr = 5e-3
    got, mse = [int(v) for v in lk()], []
    rx.converge, rx.converge_lms, rx.converge_cdr = True, True, False
    for _ in range(chunks):
        got += [int(v) for v in lk()]
        ctx.step()
        mse.append(float(np.mean((rx.slicer_in - rx.slicer_out) ** 2)))
        ctx.state(cname, pre, post, dfe, len(mse))
    ctx.check(np.mean(mse[-5:]) < 0.25 * mse[0], 'the adaptation does not remove the interference', constellation=cname, precursors=pre, postcursors=post, dfe=dfe, first=mse[0], last=mse[-5:])
    d = pre + int(np.argmax(np.abs(fir)))
    want, _ = lfsr(POLY['PRBS13'], [1] * 13, len(got))
    ctx.same(got[20:], want[20 - d:len(want) - d], 'bits received while adapting', constellation=cname, precursors=pre, postcursors=post, dfe=dfe)
    ctx.trace()


def full_link(ctx, cname, pulse, span, osr, isi, chunk, chunks, rx_factor, amp, gray, levels, skew=0):
    prbs = 'PRBS13'
    m = M[cname]
    bps = int(math.log2(m))
    base = np.array([-1., 1.] if m == 2 else [-3., -1., 1., 3.])
    top = amp / 2
    pd = PrbsData(cdsp.PrbsEnum[prbs], chunk)
    cd = CodingData(math.log2(m), CN[cname], chunk, coding_gray=gray)
    md = MappingData(CN[cname], base if levels else None, amp, rx_factor)
    tx_top = top if levels else base[-1]
    fir = [1.0] if not isi else sum(([v] + [0.0] * (osr - 1) for v in (1.0, 0.3)), [])
    fir = [0.0] * skew + fir                    # flight time of the channel
    ch = ChannelData(pulse, span, 'isi_awgn' if isi else 'pulse', fir_coefs=fir, rolloff=0.5, osr=osr, snr=None)
    ct = CtleData([1e9], [1e9], 0, 10e9, osr)
    frac = 4
    lsb = 2.0 ** -frac
    adc_top = tx_top * lsb
    # the sampling phase of the symbol centres
    probe = cdsp.channel.pulse_shape(np.concatenate([[1.0], np.zeros(2 * span + 2)]), osr=osr, span=span, pulse=pulse, beta=0.5)[0]
    if pulse == 'rect':
        on = np.flatnonzero(np.abs(probe) > 0.5 * np.max(np.abs(probe)))
        peak = int(on[len(on) // 2])
    else:
        peak = int(np.argmax(probe))
    peak += skew
    ad = AdcData(12, frac, 'ss', osr, 1, phase=peak % osr)
    lv_adc = base / base[-1] * adc_top
    fd = FfeDfeData(0, 0, 1 if isi else 0, dfe_vec=np.array([0.3]) if isi else None, levels=lv_adc)
    lk = FullLink(FullLinkData(pd, cd, md, ch, ct, ad, fd))
    lk.Rx.dig_gain = (np.max(md.levels) * 2 / amp) * rx_factor / adc_top
    want, _ = lfsr(POLY[prbs], [1] * 13, chunk * chunks)
    got = []
    for _ in range(chunks):
        got.extend(int(v) for v in lk())
        ctx.step()
    ctx.check(len(got) == len(want), 'number of received bits', got=len(got), want=len(want))
    d = peak // osr * bps
    ctx.same(got[d:], want[:len(want) - d], 'bits received over the example link', constellation=cname, pulse=pulse, osr=osr, isi=isi, chunk=chunk, delay=d)
    chk = Checker(pd)
    ctx.state(cname, pulse, osr, isi, chunk, rx_factor, amp, gray, levels)
    ctx.trace()
    ctx.sample(constellation=cname, pulse=pulse, delay=d, received=got[:24])
    # adaptation keeps running
    if isi:
        lk.start_convergence()
        nxt = [int(v) for v in lk()]          # adaptation acts behind the chunk it was computed from
        want, _ = lfsr(POLY[prbs], [1] * 13, chunk * (chunks + 1))
        ctx.same(nxt, want[chunk * chunks - d:chunk * (chunks + 1) - d], 'first chunk after the start of the adaptation', constellation=cname, pulse=pulse, osr=osr, chunk=chunk, delay=d)
        for _ in range(3):
            lk()
            ctx.step()
        ctx.check(0 <= lk.Rx.phase < osr, 'sampling phase out of range', got=lk.Rx.phase)


def ber(ctx, name, chunk, k):
    """The example checker accumulates errors and symbols over chunks."""
    n = len(POLY[name])
    pd = PrbsData(cdsp.PrbsEnum[name], chunk)
    chk = Checker(pd)
    bits, _ = lfsr(POLY[name], [1] * n, 4 * chunk)
    total = 0
    for i in range(4):
        c = np.array(bits[i * chunk:(i + 1) * chunk])
        if i % 2:
            for q in range(k):
                c[n + 20 + 11 * q if i == 1 else chunk - 1 - 13 * q] ^= 1
            total += k
        r = chk.check_ber(c)
        ctx.step()
        ctx.close(r, (k if i % 2 else 0) / chunk, 'bit error rate of a chunk', chunk=chunk, errors=k, index=i)
        ctx.check(chk.acc_errors == total and chk.acc_symbols == (i + 1) * chunk, 'accumulated errors', got=(chk.acc_errors, chk.acc_symbols), want=(total, (i + 1) * chunk))
    ctx.state(name, chunk, k)
    ctx.trace()


CASES = {f.__name__: f for f in (links, links_words, prbs_link, coded_link, example_coding, prbs_stream, chunked, resume, isi_model, adc, recorder, retap, adapts, full_link, ber, example_coding_long)}


def tasks(tier):
    th = tier == 'thorough'
    n = 12 if th else 8
    for cname in ('NRZ', 'OOK', 'PAM4'):
        for ch in ('none', 'iir', 'dfe', 'both', 'imp', 'rcos'):
            for full in (False, True):
                yield 'links', dict(cname=cname, ch=ch, full=full, n=8)
            for gray, diff in ((False, False), (True, False), (True, True)):
                yield 'links_words', dict(cname=cname, ch=ch, n=n, gray=gray, diff=diff)
            for prbs in ('PRBS7', 'PRBS9', 'PRBS11'):
                for e in (0, 1, 5):
                    yield 'prbs_link', dict(prbs=prbs, cname=cname, ch=ch, nerr=e)
    for code in CODES:
        for ch in ('none', 'iir', 'dfe', 'both', 'imp', 'rcos'):
            yield 'coded_link', dict(code=code, n=n, ch=ch, shape=None)
    for cfg in coding_configs():
        big = 'manchester' in ''.join(cfg['binary']) or cfg['fec']
        yield 'example_coding', dict(cfg=cfg, n=(8 if th or cfg['fec'] == 'linear' else 4) if big else n, fls=list(range(16)) if th or not cfg['fec'] else [0, 11])
    for cfg in coding_configs():
        yield 'example_coding_long', dict(cfg=cfg, sizes={'': [64, 100, 200, 1000], 'linear': [64, 104, 200, 1000]}.get(cfg['fec'], [60, 68, 100, 200]))
    for p in POLY:
        yield 'prbs_stream', dict(name=p, sizes=[1, 2, 3, 7, 8, 15, 31, 64, 127, 128, 300])
    k = 9 if th else 6
    for pulse in ('rect', 'sinc', 'rcos', 'rrc', 'imp'):
        for osr in (1, 2, 4):
            for span in (1, 3):
                yield 'chunked', dict(kind='channel', cfg=dict(pulse=pulse, pulse_span=span, ch_type='pulse', osr=osr), n=k)
                yield 'resume', dict(kind='channel', cfg=dict(pulse=pulse, pulse_span=span, ch_type='pulse', osr=osr), n=20)
                yield 'resume', dict(kind='channel', cfg=dict(pulse=pulse, pulse_span=span, ch_type='isi_awgn', osr=osr, snr=None, fir_coefs=[0.1, 1.0, 0.3, 0.1], iir_coefs=[1.0, -0.2]), n=20)
                yield 'chunked', dict(kind='channel', cfg=dict(pulse=pulse, pulse_span=span, ch_type='isi_awgn', osr=osr, snr=None, fir_coefs=[0.1, 1.0, 0.3, 0.1], iir_coefs=[1.0, -0.2]), n=k)
    for z, p in (([1e9], [2e9]), ([5e8], [1e9, 4e9]), ([5e8, 2e9], [1e9, 4e9, 6e9])):
        for osr in (1, 2, 4):
            yield 'chunked', dict(kind='ctle', cfg=dict(zeros=z, poles=p, dc_gain=-4, fs=10e9, osr=osr), n=k)
            yield 'resume', dict(kind='ctle', cfg=dict(zeros=z, poles=p, dc_gain=-4, fs=10e9, osr=osr), n=20)
    for pre, post in ((0, 0), (1, 0), (1, 2), (3, 1), (2, 0), (0, 3), (3, 0), (2, 2), (4, 1)):
        for dfe in (0, 1, 3):
            f = [0.05 * (i + 1) for i in range(pre)] + [1.0] + [-0.1 * (i + 1) for i in range(post)]
            yield 'retap', dict(pre=pre, post=post, dfe=dfe)
            yield 'resume', dict(kind='ffe_dfe', cfg=dict(ffe_precursors=pre, ffe_postcursors=post, dfe_taps=dfe, ffe_vec=f, dfe_vec=[0.2, -0.1, 0.05][:dfe], levels=[-3., -1., 1., 3.]), n=20)
            yield 'chunked', dict(kind='ffe_dfe', cfg=dict(ffe_precursors=pre, ffe_postcursors=post, dfe_taps=dfe, ffe_vec=f, dfe_vec=[0.2, -0.1, 0.05][:dfe], levels=[-3., -1., 1., 3.],
                                                          zi_ffe=[0.0] * (pre + post + 1), zi_dfe=[0.0] * dfe), n=k)
    for cname, pre, post, dfe, fir in (('NRZ', 2, 0, 1, [.2, 1., .1]), ('NRZ', 0, 2, 1, [1., .3, .1]), ('NRZ', 1, 2, 1, [.2, 1., .25]), ('NRZ', 1, 3, 2, [.2, 1., .25]), ('NRZ', 3, 1, 1, [.1, 1., .1])):
        yield 'adapts', dict(cname=cname, pre=pre, post=post, dfe=dfe, fir=fir, chunks=400)
    for fir in ([1.0], [0.1, 1.0, 0.3], [0.5, 0.2]):
        for iir in (None, [1.0], [1.0, -0.3], [2.0, 0.4, -0.1], [1.0, 0.3, -0.2, 0.1, 0.15, -0.1, 0.05]):
            yield 'isi_model', dict(fir=fir, iir=iir, n=20)
    for osr in (1, 2, 3, 4, 6, 8):
        for rate in (1, 2, 3, 4):
            if osr % rate == 0:
                for phase in [None] + list(range(osr)):
                    for total, frac, typ in ((4, 2, 'ss'), (3, 0, 's'), (5, -1, 'u'), (6, 6, 'ss')):
                        yield 'adc', dict(total=total, frac=frac, typ=typ, osr=osr, rate=rate, phase=phase, n=4)
    for cname in ('NRZ', 'PAM4'):
        for chunk in (8, 20):
            yield 'recorder', dict(cname=cname, chunk=chunk, k=4)
    for cname in ('NRZ', 'PAM4'):
        for pulse, span in (('rect', 1), ('rect', 2), ('sinc', 3), ('rcos', 4), ('imp', 1)):
            for osr in (2, 4):
                for isi in (False, True):
                    for chunk in (64, 20):
                        yield 'full_link', dict(cname=cname, pulse=pulse, span=span, osr=osr, isi=isi, chunk=chunk, chunks=6, rx_factor=0.75, amp=192, gray=cname == 'PAM4', levels=True)
        for osr in (2, 3, 4):
            for skew in range(1, 2 * osr):
                for pulse in ('imp', 'rcos'):
                    yield 'full_link', dict(cname=cname, pulse=pulse, span=2, osr=osr, isi=True, chunk=32, chunks=4, rx_factor=0.75, amp=192, gray=False, levels=True, skew=skew)
        for amp, rx in ((96, 1.0), (400, 0.5), (192, 1.5), (192, 2.0), (96, 4.0), (300, 0.1)):
            for gray in (False, True):
                yield 'full_link', dict(cname=cname, pulse='imp', span=1, osr=2, isi=False, chunk=48, chunks=4, rx_factor=rx, amp=amp, gray=gray, levels=True)
    for name in ('PRBS7', 'PRBS9', 'PRBS13'):
        for chunk in (200, 333):
            for e in (0, 1, 3):
                yield 'ber', dict(name=name, chunk=chunk, k=e)
