SPECS={}
def S(sid, property, edits, needs, breaks, demo):
    SPECS[sid]=dict(property=property, edits=edits, needs=needs, breaks=breaks, demo='import numpy as np\nimport CommDspy as cdsp\n'+demo)
S('b01','C01',[('CommDspy/tx/prbs_generator.py','if output_length >= len(seed) else seed','if len(seed) <= output_length <= 2 * prbs_length else seed')],
 'one call longer than two whole periods whose returned seed is then used to go on',
 'the seed returned by a call longer than two periods is the state after exactly one period, so the continued stream jumps',
'''
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7)
s = np.ones(7, dtype=int)
a, s1 = cdsp.tx.prbs_gen(p, s, 300)
b, _ = cdsp.tx.prbs_gen(p, s1, 50)
whole, _ = cdsp.tx.prbs_gen(p, s, 350)
assert np.array_equal(np.concatenate([a, b]), whole)
''')
S('b02','C02',[('CommDspy/tx/prbs_iterator.py','        self.seed_prev = self.seed\n        self.seed = np.concatenate(([single_patt], self.seed[:-1]))','        self.seed_prev = self.seed.copy()\n        self.seed[1:] = self.seed_prev[:-1]\n        self.seed[0]  = single_patt')],
 'two iterators built from the same seed array (or the seed array used again afterwards)',
 'advancing one iterator changes the seed array it was built from and any other iterator using it',
'''
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7)
s = np.ones(7, dtype=int)
i, j = cdsp.tx.PrbsIterator(p, s), cdsp.tx.PrbsIterator(p, s)
a = [next(i) for _ in range(30)]
b = [next(j) for _ in range(30)]
assert a == b
''')
S('b03','C03',[('CommDspy/rx/symbol2bin.py','''        if bit_order_inv:
            symbol_mat_binary = np.fliplr(symbol_mat_binary)
''',''),('CommDspy/rx/symbol2bin.py','''        if inv_msb:
''','''        if bit_order_inv:
            symbol_mat_binary = np.fliplr(symbol_mat_binary)
        if inv_msb:
''')],'bit_order_inv together with exactly one of inv_msb and inv_lsb','the inverse is applied in the wrong order, the wrong bit of every symbol is inverted',
'''
b = np.array([0,0,0,1,1,0,1,1])
f = dict(bit_order_inv=True, inv_msb=True)
assert np.array_equal(cdsp.rx.symbol2bin(cdsp.tx.bin2symbol(b, 4, **f), 4, **f), b)
''')
S('b04','C04',[('CommDspy/tx/mapping.py','    if pn_inv:','    if pn_inv and levels is None:')],
 'a custom level vector together with pn_inv','custom levels are mapped without the requested polarity inversion',
'''
l = np.array([-4., -1., 2., 5.])
assert np.array_equal(cdsp.tx.mapping(np.arange(4), cdsp.ConstellationEnum.PAM4, levels=l, pn_inv=True), -l)
''')
S('b05','C05',[('CommDspy/tx/coding.py','np.reshape(lfilter([1], [1, -1], np.reshape(pattern, -1).astype(float)) % lvl_num, shape).astype(int)','np.reshape(np.cumsum(np.reshape(pattern, -1), dtype=np.int16) % lvl_num, shape).astype(int)')],
 'three level constellation and a pattern whose running sum exceeds 32767','the running sum overflows, from there on the coded symbols are off by one',
'''
x = np.tile([2, 1, 2, 2, 0], 8000)
c = cdsp.ConstellationEnum.PAM3
assert np.array_equal(cdsp.rx.decoding_differential(cdsp.tx.coding_differential(x, c), c), x)
''')
S('b08','C08',[('CommDspy/misc/help_functions.py','use_feedback.shape[0] != len(G) or use_feedback.shape[1] != G[0].shape[0]','use_feedback.shape[0] != len(G) and use_feedback.shape[1] != G[0].shape[0]')],
 'a use_feedback matrix that is wrong in one dimension only','an inconsistent configuration is accepted and coded',
'''
G = {0: np.array([[1, 0], [0, 1]])}
try:
    cdsp.tx.coding_conv(np.array([1,0,1,1]), G, {0: np.array([1, 1])}, np.array([[0, 1, 1]]))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')
S('b11','C11',[('CommDspy/rx/decoding.py','hamming_dist  = np.zeros([len(trellis_obj.states), n_chunks], dtype=int)','hamming_dist  = np.zeros([len(trellis_obj.states), n_chunks], dtype=np.uint8)')],
 'a long trace back block in which every path has collected more than 255 errors','the accumulated distance wraps around and a wrong survivor wins',
'''
G = {0: np.array([[1, 0, 1], [1, 1, 1]])}
n = 6000
i = np.arange(2 * n)
r = ((i * i * 7919 + 31 * i) // 64) % 2
d = np.asarray(cdsp.rx.decoding_conv_viterbi(r, G, 2 * n)[0]).astype(int)
def out(s, b):
    return b ^ s[1], b ^ s[0] ^ s[1]
dist = {(a, b): 0 for a in (0, 1) for b in (0, 1)}      # optimum distance over every start state
own = dict((s, (0, s)) for s in dist)                   # distance of the decoded block from every start state
for k in range(n):
    new = {}
    for s, v in dist.items():
        for b in (0, 1):
            o = out(s, b)
            w = v + (o[0] != r[2 * k]) + (o[1] != r[2 * k + 1])
            t = (b, s[0])
            new[t] = min(w, new.get(t, w))
    dist = new
    for s0, (v, s) in own.items():
        o = out(s, d[k])
        own[s0] = (v + (o[0] != r[2 * k]) + (o[1] != r[2 * k + 1]), (d[k], s[0]))
assert min(v for v, _ in own.values()) == min(dist.values()), (own, dist)
''')
S('b12','C12',[('CommDspy/rx/slicer.py','if y > 0 else np.reshape','if y > 1 else np.reshape')],
 'a matrix with a single row','the sliced matrix loses a dimension',
'''
x = np.array([[-2.2, 0.3, 0.8]])
assert cdsp.rx.slicer(x).shape == x.shape
''')
S('b13','C13',[('CommDspy/rx/ffe_dfe_model.py','if idx >= 0:','if idx > 0:')],
 'a decision feedback that depends on the first symbol of a chunk','the decision of the first symbol of every chunk never enters the feedback, so chunked and single calls differ',
'''
x = np.array([0.9, -0.8, 1.1, -1.2, 0.7, 0.4])
d = np.array([0.5, 0.2]); l = np.array([-1., 1.])
w = cdsp.rx.ffe_dfe(x, dfe_taps=d, levels=l)[0]
a, z = cdsp.rx.ffe_dfe(x[:3], dfe_taps=d, levels=l)
b, z = cdsp.rx.ffe_dfe(x[3:], dfe_taps=d, levels=l, zi_dfe=z)
assert np.allclose(np.concatenate([a, b]), w)
''')
S('b14','C14',[('CommDspy/misc/help_classes.py','self._z = (x * self._b_vec) + z_temp - (y * self._a_vec)','self._z[:] = (x * self._b_vec) + z_temp - (y * self._a_vec)')],
 'two transposed filters built from one memory array, or an integer memory array','the filters write into the array they were given: they share their state, and integer arrays truncate it',
'''
from CommDspy.misc.help_classes import FilterTII
z = np.array([0.5, 0.25])
f, g = (FilterTII(np.array([1., .5, .25]), np.array([1., -.5]), z) for _ in range(2))
x = np.array([1., 2., 3., 4.])
assert np.allclose(f(x), g(x))
''')
S('b16','C16',[('CommDspy/channel/pulse_shaping.py','''    time_len = osr * 2 * span
    t = np.arange(-1 * (time_len // 2), (time_len // 2), 1) / osr
    return t''','''    return np.arange(-1 * span, span, 1 / osr)''')],
 'an oversampling rate whose reciprocal rounds so that the floating point range has one element more (49, for example)','the pulse has one sample too many and its zeros are off by rounding',
'''
for osr in range(1, 200):
    for span in (1, 2, 3, 8):
        assert len(cdsp.channel.sinc_pulse(osr, span)) == 2 * osr * span, (osr, span)
''')
S('b18','C18',[('CommDspy/rx/checker.py','int(np.ceil(len(data_in) / (2**len(init_seed)-1) ))','int(np.floor(len(data_in) / (2**len(init_seed)-1) + 0.9))')],
 'data that reaches only a few bits into another period of the PRBS','the reference is too short and the comparison collapses',
'''
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7)
x, _ = cdsp.tx.prbs_gen(p, np.ones(7, dtype=int), 3 * 127 + 5)
lost, ok, err = cdsp.rx.prbs_checker(cdsp.PrbsEnum.PRBS7, x, True)
assert np.shape(err) == x.shape and not np.any(err) and ok == len(x)
''')
S('b23','C23',[('CommDspy/rx/least_mean_squares.py','stop_idx = min([N, N + ii])','stop_idx = min([N, N + ii]) if ii > -2 else N + ii - 1')],
 'the gradient of a second or later precursor tap','the last sample seen by the tap is dropped from the average',
'''
x = np.array([1., 2., -1., 3., 0.5]); y = np.array([1.2, 2.1, -1.3, 2.5, 0.1])
e = y - cdsp.rx.slicer(y, np.array([-3., -1., 1., 3.]))
_, g = cdsp.rx.ddlms_grad(x, y, np.array([-3., -1., 1., 3.]), ffe_tap_idx=np.array([-2]))
assert np.allclose(g, 0.5 * np.mean(e[:3] * x[2:]))
''')
S('b26','C26',[('example_simulation/simulation_parts/receiver.py','signal_chunk[np.arange(self.phase, len(signal_chunk), self.osr//self.sample_rate)]','signal_chunk[np.arange(self.phase % (self.osr//self.sample_rate), len(signal_chunk) - self.osr + self.phase + 1, self.osr//self.sample_rate)]')],
 'a converter that takes several samples per symbol with an early phase','the samples of the end of each chunk are dropped',
'''
from example_simulation.simulation_parts.receiver import Adc
from example_simulation.simulation_parts.data_objects import AdcData
x = np.arange(16.)
y = Adc(AdcData(8, 0, 's', 4, 2, 0))(x)
assert np.array_equal(y, x[::2]), y
''')
S('b06','C06',[('CommDspy/rx/decoding.py',"    pattern_flat    = np.reshape(pattern, [-1, 2])\n","    pattern_flat    = np.reshape(pattern, [-1, 2], order='A')\n")],
 'a two dimensional pattern held in Fortran order (a transposed view, say)','the half-bits are paired in memory order instead of stream order',
'''
x = np.array([[1, 0, 0], [1, 1, 0]])
e = np.asfortranarray(cdsp.tx.coding_manchester(x))
assert np.array_equal(cdsp.rx.decoding_manchester(e), x)
''')
S('b07','C07',[('CommDspy/rx/decoding.py',"            if mark == 0:\n","            if mark == 0 and decoded_pattern[mark_location[ii - 1]] == 1:\n")],
 'three or more marks of the same sign in a row','only the first pair of a run of violations is reported, the later marks pass as correct ones',
'''
d = cdsp.rx.decoding_bipolar(np.array([0, 2, 1, 2, 2, 0]), error_detection=True)
assert np.array_equal(d, [1, .5, 0, .5, .5, 1])
''')
S('b09','C09',[('CommDspy/tx/coding.py',"pattern_blocks.dot(G) % 2            # m X n matrix","pattern_blocks.astype(np.int8).dot(G.astype(np.int8)) % 2            # m X n matrix"),
 ('CommDspy/misc/ml_decoding.py',"    hamming = np.sum(np.abs(codebook[:, None, :] - pattern_block[None, :, :]), axis=2)","    hamming = np.sum(np.abs(codebook[:, None, :] - pattern_block[None, :, :]), axis=2, dtype=np.int8)")],
 'a code of 128 bits or more','the distance to a far codeword wraps to a negative number, which then counts as the closest',
'''
G = np.vstack([np.ones(200, dtype=int), np.arange(200) % 2])
m = np.array([1, 0, 0, 1, 1, 1, 0, 0])
assert np.array_equal(cdsp.rx.decoding_linear(cdsp.tx.coding_linear(m, G), G), m)
''')
S('b10','C10',[('CommDspy/tx/coding.py',"        pattern_padded  = np.concatenate([pattern, [0]*pad_len])\n","        pattern_padded  = np.pad(pattern, (0, pad_len), mode='edge')\n")],
 'several inputs, a pattern that does not fill the last input group and ends in a one','the last group is filled with copies of the last bit instead of zeros',
'''
G = {0: np.array([[1, 0], [1, 1]]), 1: np.array([[0, 0], [1, 1]])}
x = np.array([1, 0, 1, 1, 1])
a = np.reshape(cdsp.tx.coding_conv(x, G), -1)
b = np.reshape(cdsp.tx.coding_conv(np.append(x, 0), G), -1)
assert np.array_equal(a, b)
''')
S('b11b','C11',[('CommDspy/rx/decoding.py',"    hamming_dist  = np.zeros([len(trellis_obj.states), n_chunks], dtype=int)\n","    hamming_dist  = np.zeros([len(trellis_obj.states), n_chunks], dtype=np.int8)\n")],
 'a long block whose best path collects more than 127 errors on some state','the path metric wraps',
'''
G = {0: np.array([[1, 0, 1], [1, 1, 1]])}
rng = np.random.RandomState(0)
x = rng.randint(0, 2, 1500)
c = np.reshape(cdsp.tx.coding_conv(x, G), -1)
c[::5] ^= 1
c[::7] ^= 1
d = cdsp.rx.decoding_conv_viterbi(c, G, 3000)[0]
def step(s, v):
    return (v, s[0]), [v ^ s[1], v ^ s[0] ^ s[1]]
S4 = [(0, 0), (0, 1), (1, 0), (1, 1)]
best = {s: 0 for s in S4}
mine = {s: (s, 0) for s in S4}
for i in range(1500):
    new = {}
    for s in S4:
        for v in (0, 1):
            t, o = step(s, v)
            e = best[s] + (o[0] != c[2 * i]) + (o[1] != c[2 * i + 1])
            new[t] = min(new.get(t, 10 ** 9), e)
        t, o = step(mine[s][0], int(d[i]))
        mine[s] = (t, mine[s][1] + (o[0] != c[2 * i]) + (o[1] != c[2 * i + 1]))
    best = new
assert min(v[1] for v in mine.values()) == min(best.values())
''')
S('b15','C15',[('CommDspy/channel/pulse_shaping.py',"    sig_conv, zo = lfilter(pulse_vec, [1], sig_ups, zi=zi)\n",
'''    sig_full = np.convolve(sig_ups, pulse_vec)
    sig_conv = sig_full[:len(sig_ups)]
    zo       = sig_full[len(sig_ups):]
    carried  = min(len(sig_conv), len(zi))
    sig_conv[:carried] = sig_conv[:carried] + zi[:carried]
''')],
 'a chunk shorter than the memory of the pulse','what earlier symbols still contribute beyond the chunk is dropped from the returned memory',
'''
x = np.array([1., -3., 3., 1., -1., -1., 3., 1., -3., 3.])
k = dict(osr=4, span=4, pulse='sinc')
whole, zw = cdsp.channel.pulse_shape(x, **k)
z, out = None, []
for v in x:
    y, z = cdsp.channel.pulse_shape(np.array([v]), zi=z, **k)
    out.append(y)
assert np.allclose(np.concatenate(out), whole) and np.allclose(z, zw)
''')
S('b15b','C15',[('CommDspy/rx/ctle_model.py',"fs=fs*osr)\n","fs=fs*max(osr, 2))\n")],
 'an equalizer running at one sample per symbol','the filter is designed for the wrong sampling rate',
'''
z, p = [0.1], [0.5, 0.9]
b, a = cdsp.rx.get_ctle_filter(z, p, -3, 1.0, 1)
s = 2 * (1 - np.exp(-0.3j)) / (1 + np.exp(-0.3j))
want = 10 ** (-3 / 20) * (s / 0.1 + 1) / ((s / 0.5 + 1) * (s / 0.9 + 1))
got = np.polyval(b[::-1], np.exp(-0.3j)) / np.polyval(a[::-1], np.exp(-0.3j))
assert abs(got - want) < 1e-9
''')
S('b17','C17',[('CommDspy/rx/lock_pattern.py',"    data_len    = len(signal)\n    pattern_rep = np.tile(pattern, 2)\n    signal_part = np.asarray(signal)[:np.min((pattern_len, data_len))]\n    # =","    data_len    = min(len(signal), 4096)\n    pattern_rep = np.tile(pattern, 2)\n    signal_part = np.asarray(signal)[:np.min((pattern_len, data_len))]\n    # =")],
 'a pattern of more than 4096 samples and a received signal that is bad in the beginning','only the beginning of the signal takes part in the correlation, a bad beginning gives a wrong alignment',
'''
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(cdsp.PrbsEnum.PRBS13), np.ones(13, dtype=int), 8191)
p = 2. * b - 1
s = np.roll(p, -1000)
s[:3500] *= -1
got, _ = cdsp.rx.lock_pattern_to_signal(p, s)
assert np.array_equal(got, np.roll(p, -1000))
''')
S('b19','C19',[('CommDspy/auxiliary.py',"    stride   = length-overlap\n","    stride   = length - max(overlap, -1 * length)\n")],
 'an underlap larger than the frame','frames are taken at the wrong positions',
'''
x = np.arange(1, 30)
m = cdsp.buffer(x, 2, overlap=-5)
assert np.array_equal(m[:4, 0], [1, 8, 15, 22])
''')
S('b20','C20',[('CommDspy/auxiliary.py',"    weights = [1<< ii for ii in range(bin_tensor.shape[-1]-1, -1, -1)]\n    return bin_tensor.dot(weights)\n","    weights = 2.0 ** np.arange(bin_tensor.shape[-1]-1, -1, -1)\n    return bin_tensor.dot(weights).astype(int)\n")],
 'words wider than 53 bits','the low bits are lost in a floating point sum',
'''
v = np.array([(1 << 60) + 1, (1 << 57) + 5])
assert np.array_equal(cdsp.bin2uint(cdsp.uint2bin(v, 62)), v)
''')
S('b21','C21',[('CommDspy/digital_delay.py',"_get_dd_coeffs(method, order, alpha, beta=beta)","_get_dd_coeffs(method, order, alpha, forward=alpha <= 0.5, beta=beta)")],
 'an odd order and a phase in the second half of the sample','the delay filter is centred on the other sample, the interpolated value belongs to the neighbouring interval',
'''
x = np.arange(20.)
y, t, _ = cdsp.digital_oversample(x, 4, 3, 'lagrange')
assert np.allclose(np.diff(y), 0.25)
''')
S('b22','C22',[('CommDspy/eye_diagram.py',"np.histogram(sig_mat[:, ii], bins","np.histogram(np.clip(sig_mat[:, ii], -1*fs_value, fs_value), bins")],
 'samples outside the amplitude range','samples out of range are counted in the outermost bins',
'''
e, _ = cdsp.eye_diagram(np.array([0.1, 5., 0.2, -7.]), 2, 2, fs_value=1, quantization=8)
assert e.sum() == 4
''')
S('b24','C24',[('CommDspy/equalization_estimation.py',"np.reshape(signal[:(prbs_len * reps)], [-1, prbs_len])","np.reshape(signal[len(signal) - prbs_len * reps:], [-1, prbs_len])")],
 'a signal that is not a whole number of periods long','the averaged period no longer starts where the reference was locked, the equalizer comes out useless',
'''
p = cdsp.PrbsEnum.PRBS9
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(p), np.ones(9, dtype=int), 3 * 511)
x = np.convolve(2. * b - 1, [1, 0.3])[511:511 + 600]
r = cdsp.equalization_estimation_prbs(p, x, cdsp.ConstellationEnum.NRZ, ffe_postcursor=8, ffe_precursor=2, gray_coded=False)
assert r[4] < -40, r[4]
''')
S('b24b','C24',[('CommDspy/misc/least_squares.py',"Lasso(alpha=reg_lambda, fit_intercept=False)\n    model.fit(a_mat, b)","Lasso(alpha=reg_lambda, fit_intercept=False)\n    model.set_params(max_iter=100).fit(a_mat, b)")],
 'a badly conditioned system','the L1 solution is returned before it has converged',
'''
import warnings; warnings.simplefilter('ignore')
from CommDspy.misc.least_squares import least_squares
i, j = np.arange(60)[:, None], np.arange(8)[None, :]
A = 0.98 * np.sign(np.sin(i * i * 0.7 + 1.3 * i + 0 * j)) + np.sqrt(1 - 0.98 ** 2) * np.sign(np.sin(i * (j + 1.37) * 1.9 + j * j + i * i * .31 * (j + 1)))
x0 = (-1.) ** np.arange(8) * (1 + np.arange(8) % 3)
b = A.dot(x0)
x, _ = least_squares(A, b, 'lasso', 1e-4)
f = lambda w: np.sum((A.dot(w) - b) ** 2) / 120 + 1e-4 * np.sum(np.abs(w))
assert f(x) - f(x0) < 1e-3 * np.sum(b * b) / 120, (f(x), f(x0))
''')
S('b25','C25',[('CommDspy/auxiliary.py',"import numpy as np\n","import functools\nimport numpy as np\n"),('CommDspy/auxiliary.py',"def get_polynomial(prbs_type):\n","@functools.lru_cache(maxsize=None)\ndef get_polynomial(prbs_type):\n")],
 'a caller that writes to the returned polynomial and a later call for the same polynomial','the cached array is handed out to everyone, so a change by one caller changes the polynomial for all others',
'''
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS15)
want = p.copy()
p[:] = 1 - p
assert np.array_equal(cdsp.get_polynomial(cdsp.PrbsEnum.PRBS15), want)
''')
S('b27','C27',[('CommDspy/channel/additive_noise_functions.py',"        ch_out = awgn(ch_out, snr)\n","        ch_out = ch_out + (awgn(np.asarray(signal), snr) - signal)\n")],
 'a channel whose gain is not one','the noise is scaled to the channel input instead of the channel output',
'''
np.random.seed(0)
x = np.sign(np.random.randn(200000))
y, _ = cdsp.channel.awgn_channel(x, [0.1], [1], 10)
assert abs(np.var(y - 0.1 * x) / 0.001 - 1) < 0.05
''')
S('b27b','C27',[('CommDspy/channel/pulse_shaping.py',"    if np.isclose(rj_sigma, 0):\n","    if np.isclose(rj_sigma, 0, atol=1e-3):\n")],
 'a jitter of less than a thousandth of a symbol','small jitter is silently left out',
'''
np.random.seed(0)
x = np.random.choice([-1., 1.], 500)
k = dict(osr=16, span=4, pulse='rcos')
a, _ = cdsp.channel.pulse_shape(x, **k)
b, _ = cdsp.channel.pulse_shape(x, rj_sigma=5e-4, **k)
assert np.max(np.abs(a - b)) > 1e-5
''')
S('b28','C28',[('CommDspy/psa.py',"fs / 2 if np.all(np.isreal(signal)) and sb_mode","fs / 2 if np.isreal(signal_flat[0]) and sb_mode")],
 'a complex signal whose first sample happens to be real','the signal is taken for a real one and its level is off by 3 dB',
'''
from CommDspy.psa import psa
t = np.arange(4000)
z = np.exp(2j * np.pi * 0.2 * t)
_, p = psa(z, 1.0, rbw=0.02, mode='dBm')
_, q = psa(z * np.exp(0.3j), 1.0, rbw=0.02, mode='dBm')
assert np.allclose(p, q, rtol=1e-6)
''')
S('b08b','C08',[('CommDspy/misc/help_functions.py',"    data_in = np.unique(pattern)\n","    data_in = np.unique(np.reshape(pattern, -1)[:100000])\n")],
 'a forbidden value beyond the first hundred thousand','only the beginning of a long pattern is checked',
'''
x = np.zeros(120000, dtype=int)
x[-3] = 2
try:
    cdsp.tx.coding_manchester(x)
    raise SystemExit(1)
except ValueError:
    pass
''')
