"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the results are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'CommDspy/tx/'
R = 'CommDspy/rx/'
A = 'CommDspy/auxiliary.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)


prop('C01', 'The PRBS generator is an exact, resumable, maximal-length shift register',
     'For every generating polynomial and seed, the generated bits follow the linear recurrence of the polynomial over GF(2) for every requested length inside a period and, for maximal-length polynomials, for every length at all. The returned seed resumes the sequence exactly where the call stopped, so every chunking of a stream gives the same bits. The shipped polynomials are the standard PRBS7/9/11/13/15/31 ones, of maximal period 2^n-1.',
     ['inputs', 'histories', 'configurations'], 'every polynomial, every seed, every output length and every way to cut the stream into calls',
     'tests compare one all-ones seed per polynomial with stored vectors and a few fixed lengths; seeds, lengths around the period and chunk boundaries are not covered',
     [T + 'prbs_generator.py', A], [('register recurrence, periodic extension and final seed', T + 'prbs_generator.py'), ('polynomial table', A)])
prop('C02', 'PRBS iterators emit the stream bit by bit and never disturb each other',
     'An iterator yields exactly the bits of the generator with the same polynomial and seed, its current and previous seeds are the register states after and before the last bit, and those seeds may be handed to the generator or to another iterator. Any number of iterators can be advanced in any order without influencing one another or the seed array they were built from.',
     ['histories', 'schedules', 'inputs'], 'every interleaving of operations on several iterators and every register state',
     'the tests walk one iterator once per polynomial from the all-ones seed', [T + 'prbs_iterator.py'], [('seed replacement per step', T + 'prbs_iterator.py')])
prop('C03', 'Bits to symbols and back is lossless and obeys the inversion flags',
     'Grouping bits into symbols uses the documented weight of each bit (first bit least significant unless the bit order is inverted) with the msb, lsb and polarity inversions as documented, and splitting symbols applies the exact inverse. For every flag setting and constellation size the round trip returns the original bits, apart from trailing bits that do not fill a symbol, which are dropped.',
     ['inputs', 'configurations'], 'every bit word, every symbol word, every flag combination, every power-of-two constellation size, every length and shape',
     'tests cover 2/4 level constellations with a few flags on one pattern', [T + 'bin2symbol.py', R + 'symbol2bin.py'], [('weighting and flags', T + 'bin2symbol.py'), ('inverse', R + 'symbol2bin.py')])
prop('C04', 'Mapping and demapping are exact inverses with the documented levels',
     'Mapping turns symbol index i into level i of the documented constellation (ascending levels; scaled to unit mean power in full-scale mode; negated with the polarity flag; replaced by a custom level vector when given). Demapping returns the index of every value that lies within half a level distance of its level, for every constellation, scale and polarity, and keeps the shape of its input.',
     ['inputs', 'configurations'], 'every index word, constellation, scale, polarity, custom level vector, shape and offset inside the decision region',
     'tests use noise-free values of one pattern and two constellations', [T + 'mapping.py', R + 'demapping.py', A], [('level lookup', T + 'mapping.py'), ('nearest level index', R + 'demapping.py'), ('level tables', A)])
prop('C05', 'Gray and differential coding are inverted exactly and confine channel errors',
     'Gray coding is a permutation of the symbol indices in which adjacent codes of adjacent levels differ in one bit, and gray decoding inverts it. Differential coding accumulates the symbols modulo the constellation size and its decoder returns the original for every pattern of every shape; a single wrong channel symbol corrupts at most that symbol and the next.',
     ['inputs', 'configurations'], 'every symbol word, shape, constellation, and every single channel error',
     'tests round-trip one random pattern per coding', [T + 'coding.py', R + 'decoding.py', A], [('gray tables', A), ('gray and differential encoders', T + 'coding.py'), ('gray and differential decoders', R + 'decoding.py')])
prop('C06', 'Manchester codes round-trip and place their transitions as specified',
     'Manchester coding sends every bit as a pair of opposite half-bits (0 as 01, 1 as 10), differential Manchester has a transition at every bit boundary (starting at level 0) and a mid-bit transition exactly for a 0; both double the last axis. Decoding returns the original bits for every pattern of every shape; Manchester pairs without the mandatory transition are reported as 0.5.',
     ['inputs'], 'every bit word, every received half-bit word, every length and shape',
     'tests check one fixed pattern per code', [T + 'coding.py', R + 'decoding.py'], [('line encoders', T + 'coding.py'), ('line decoders', R + 'decoding.py')])
prop('C07', 'Bipolar and MLT-3 codes round-trip; bipolar violations are all reported',
     'Bipolar coding sends zeros as the middle level 1 and ones as alternating marks 0 and 2, the first mark being 0; MLT-3 steps through its cycle 0,1,2,1 (from level 0) on every one and holds on every zero. Decoders return the original bits for every pattern and shape, and bipolar error detection reports exactly the marks that break the alternation with a neighbouring mark, as +-0.5 by their sign.',
     ['inputs'], 'every bit word, every received ternary word (including invalid ones), every length and shape',
     'tests check one fixed pattern and one violation', [T + 'coding.py', R + 'decoding.py'], [('alternation by running parity', T + 'coding.py'), ('violation detection', R + 'decoding.py')])
prop('C08', 'Inputs outside a function\'s domain are rejected, never silently processed',
     'Every function that takes binary patterns rejects a pattern holding any other value, wherever it stands and whatever the shape, with a ValueError. Inconsistent configurations (generator and feedback shapes, custom level counts, filter memory lengths, unknown constellations, pulses, regularisations or fixed-point types) are rejected likewise instead of producing a result.',
     ['inputs', 'configurations'], 'every position and kind of bad value, every inconsistent configuration up to the bounds',
     'tests feed one obviously wrong pattern to a few functions', ['CommDspy/misc/help_functions.py', T, R, 'CommDspy/channel/pulse_shaping.py'], [('binary check', 'CommDspy/misc/help_functions.py'), ('convolutional configuration check', 'CommDspy/misc/help_functions.py')])
prop('C09', 'Linear block codes: GF(2) encoding and true maximum-likelihood decoding',
     'Encoding splits the pattern into blocks (zero-padding the last one) and sends the product of each block with the generating matrix over GF(2). Decoding returns for every received word a message whose codeword is at minimum Hamming distance, so every error pattern within the correction radius is repaired, and the reported error probability reflects the number of equally close codewords. An incomplete received block is dropped.',
     ['inputs', 'configurations'], 'every generating matrix up to the bound and several standard codes, every message and every received word',
     'tests use one code with at most one flipped bit', [T + 'coding.py', R + 'decoding.py', 'CommDspy/misc/ml_decoding.py', A], [('matrix encoding', T + 'coding.py'), ('codebook distance', A), ('tie accounting', 'CommDspy/misc/ml_decoding.py')])
prop('C10', 'The convolutional encoder is the specified bank of GF(2) shift registers',
     'For every generator, feedback polynomial, feedback selection, number of inputs and outputs, the coded stream equals that of zero-started binary shift registers wired as documented, for patterns of any non-zero length (padded with zeros to whole input groups). The map is linear over GF(2) and stays exact for arbitrarily long patterns.',
     ['inputs', 'configurations'], 'every short input word, impulse position, length and residue, every generator/feedback wiring up to the bound',
     'tests cover three codes with one pattern each', [T + 'coding.py', 'CommDspy/misc/help_functions.py'], [('per-input filtering and modulo-2 sum', T + 'coding.py')])
prop('C11', 'Convolutional decoders return a closest code block for every received word',
     'The exhaustive and the Viterbi decoder both return, for every block of received bits, an input block whose coded block is at minimum Hamming distance over every start state and input allowed by their contract, so clean streams are decoded exactly and correctable errors are repaired. Reported ambiguity probabilities are those of the number of equally close candidates; blocks of a stream are decoded consistently and incomplete blocks are dropped.',
     ['inputs', 'configurations'], 'every received word of a block, every generator/feedback wiring up to the bound, every stream length',
     'tests decode clean streams of a few codes', [R + 'decoding.py', 'CommDspy/misc/ml_decoding.py'], [('trellis construction', 'CommDspy/misc/ml_decoding.py'), ('survivor selection', R + 'decoding.py')])
prop('C12', 'Slicer and quantizer always return the nearest allowed level',
     'For every value, the slicer returns an element of the given (or default PAM4) levels that is nearest to it, element-wise on one- and two-dimensional data, including values far outside the range. The quantizer does the same for the documented fixed-point grids: unsigned, signed and symmetric signed, for positive, zero and negative fractional bit counts.',
     ['inputs', 'configurations'], 'every level set and value grid up to the bound, every bit width and fraction',
     'not tested directly', [R + 'slicer.py', R + 'quantiztion.py'], [('nearest level search', R + 'slicer.py'), ('level grid', R + 'quantiztion.py')])
prop('C13', 'The FFE-DFE equalizer follows its difference equation for every chunking',
     'The slicer input at every sample is the FFE convolution minus the DFE taps times the latest decisions, decided to the nearest level at the configured sampling phase. Feeding the stream in any sequence of chunks of whole symbols, handing the returned memories on, gives the same slicer input and final memories as a single call.',
     ['inputs', 'histories', 'configurations'], 'every short input word, tap configuration, oversampling and phase, every chunking',
     'tests call it in one chunk with one tap set', [R + 'ffe_dfe_model.py', R + 'slicer.py', A], [('sliding buffer and decision feedback', R + 'ffe_dfe_model.py'), ('framing', A)])
prop('C14', 'Streaming filter objects obey the difference equation across chunks',
     'A direct-form filter, a transposed filter and a transposed FFE-DFE filter produce, for every chunking of their input including empty chunks and integer or complex samples, the samples of their difference equation from the given initial memory. Objects never influence one another, even when built from the same coefficient and memory arrays.',
     ['inputs', 'histories', 'schedules', 'configurations'], 'every short input word, coefficient set, chunking and interleaving of two objects',
     'not tested', ['CommDspy/misc/help_classes.py'], [('memory update', 'CommDspy/misc/help_classes.py')])
prop('C15', 'Pulse shaping, channel and CTLE are linear streams that can be cut anywhere',
     'Pulse shaping convolves the upsampled symbols with the chosen pulse, the noise-free channel applies its rational filter and the CTLE realises the bilinear transform of the analog zero-pole-gain prototype (stable, with the requested DC gain). Each accepts the returned memory, so any chunking of a stream gives the same output and memory as one call.',
     ['inputs', 'histories', 'configurations'], 'every short input word, pulse/filter configuration and chunking',
     'tests plot or compare single-chunk outputs for a few configurations', ['CommDspy/channel/pulse_shaping.py', 'CommDspy/channel/additive_noise_functions.py', R + 'ctle_model.py', A], [('upsampling and filtering with memory', 'CommDspy/channel/pulse_shaping.py'), ('channel filter', 'CommDspy/channel/additive_noise_functions.py'), ('bilinear transform', R + 'ctle_model.py')])
prop('C16', 'The generated pulses equal their mathematical definition at every sample',
     'Rectangular, sinc, raised-cosine and root-raised-cosine pulses have the documented time axis and, at every sample, the value of their definition, for every oversampling rate, span and roll-off between 0 and 1. This includes the removable singularities, where the value must be finite and equal to the limit, and the zero crossings at whole symbol offsets of the Nyquist pulses.',
     ['configurations', 'inputs'], 'every oversampling rate, span, roll-off up to the bound and every sample, plus custom time axes',
     'tests look at one or two parameter sets', ['CommDspy/channel/pulse_shaping.py'], [('pulse formulas and singular points', 'CommDspy/channel/pulse_shaping.py')])
prop('C17', 'Pattern locking returns the best alignment for every rotation and error pattern',
     'Given a reference pattern and a received signal, the locked pattern is the complete reference rotated to the alignment of maximal correlation with the signal, whether the signal is shorter or longer than the pattern. For pseudo-random patterns this is the true alignment under every rotation and every number of errors below the correlation margin.',
     ['inputs', 'histories'], 'every short pattern, rotation, signal length and every bounded error pattern',
     'tests lock a few random rotations without errors', [R + 'lock_pattern.py'], [('cyclic correlation', R + 'lock_pattern.py')])
prop('C18', 'PRBS checkers count and locate exactly the bit errors of the stream',
     'For every phase of the PRBS, data length and error pattern within the locking margin, the checker reports an error exactly at the corrupted bits, and declares loss of lock exactly when the errors reach the threshold. Data declared as already aligned is compared as it stands, whatever it holds. The self-synchronising checker reports a clean stream as error free from every register state and reacts to each corrupted bit as its register dictates.',
     ['inputs', 'histories', 'configurations'], 'every phase, length, error position, pairs and bursts of errors, thresholds, and reference modes',
     'tests flip a couple of bits of one PRBS', [R + 'checker.py', R + 'lock_pattern.py', T + 'prbs_iterator.py'], [('aligned comparison', R + 'checker.py'), ('self-synchronising register', R + 'checker.py')])
prop('C19', 'Framing a signal never loses, repeats or invents samples',
     'Splitting a signal into frames with any length, overlap or underlap, initial delay and clipping places sample k of frame r at position r*(length-overlap)+k of the delayed signal, pads only beyond the end of the data, and keeps exactly the frames that hold new samples. Clipping removes exactly the frames that needed padding.',
     ['inputs', 'configurations'], 'every signal length, frame length, overlap, delay and clip setting up to the bound',
     'not tested directly', [A], [('Hankel framing and clipping', A)])
prop('C20', 'Bit-level and signal helpers are exact',
     'Integer/bit conversions are mutually inverse (most significant bit first) for every width and shape, the list of binary words is complete and ordered, Hamming distances and closest codewords are exact. Upsampling and zero-order hold place every sample at its position, and power and RMS are the mean square and its root for real and complex signals.',
     ['inputs', 'configurations'], 'every integer and bit word up to the bound, every shape, every rate',
     'only indirectly exercised', [A], [('bit conversion, distances, rate change', A)])
prop('C21', 'Fractional delay filters delay and oversampling interpolates as specified',
     'Lagrange coefficients reproduce every polynomial up to their order at the requested delay, sinc and raised-cosine coefficients are the sampled kernels (finite at their singular points), and zero delay is the identity, forward and backward. Digital oversampling keeps the original samples at their positions and fills the others with the corresponding delay filter outputs.',
     ['inputs', 'configurations'], 'every order, delay grid point, direction, roll-off, oversampling rate and impulse position up to the bound',
     'not tested', ['CommDspy/digital_delay.py'], [('coefficient formulas and tap order', 'CommDspy/digital_delay.py')])
prop('C22', 'The eye diagram counts every in-range sample exactly once in its bin',
     'Every sample of the (resampled) signal inside the amplitude range is counted exactly once, in the column of its phase and the bin of its amplitude, the diagram shows two identical symbol periods, and the amplitude axis spans the full scale. Samples outside the range are not counted, and the logarithmic diagram is the documented transform of the linear one.',
     ['inputs', 'configurations'], 'every short sample word, rate, quantization, full scale and signal length up to the bound',
     'not tested', ['CommDspy/eye_diagram.py'], [('phase folding and histogram', 'CommDspy/eye_diagram.py')])
prop('C23', 'Adaptation gradients and timing steps follow their definitions',
     'The LMS routines return the loss and, for every requested FFE tap index (positive, zero or negative) and every positive DFE tap index, the documented correlation of error and delayed data averaged over the samples the tap sees, using given references or own decisions; a step against the gradient lowers the error. The timing step is the sign of the weighted post-minus-precursor correlation, zero inside the tolerance.',
     ['inputs', 'configurations'], 'every short pair of words, tap index, level set, weight and tolerance up to the bound',
     'tests run one fixed example of each', [R + 'least_mean_squares.py', R + 'clock_data_recovery.py'], [('tap correlation', R + 'least_mean_squares.py'), ('timing metric', R + 'clock_data_recovery.py')])
prop('C24', 'Least squares, channel and equalizer estimation return the optimum',
     'Least squares solutions satisfy their optimality conditions (ordinary, L2- and L1-penalised), with the true residual reported. From a PRBS-driven signal of any rotation, length of at least a period, constellation and flag setting, channel estimation returns the true impulse response with its main tap at the precursor position, and equalizer estimation returns the FFE and DFE taps that undo the channel, normalised on request.',
     ['inputs', 'configurations'], 'every small integer system; every PRBS rotation, flag combination, tap split and signal length up to the bound',
     'tests check one channel per estimator', ['CommDspy/misc/least_squares.py', 'CommDspy/channel_estimation.py', 'CommDspy/equalization_estimation.py', R + 'lock_pattern.py'],
     [('least squares', 'CommDspy/misc/least_squares.py'), ('alignment and regressors', 'CommDspy/channel_estimation.py'), ('equalizer regressors', 'CommDspy/equalization_estimation.py')])
prop('C25', 'Calls leave their arguments alone and do not depend on call history',
     'No library call modifies the arrays, lists or dictionaries passed to it. The result of a call depends on its arguments only: not on earlier calls, not on what the caller later does with earlier arguments or results, and not on how calls on different streaming objects are interleaved. What a call returns is the caller\'s own: it shares no memory with the arguments or with the other results.',
     ['histories', 'schedules', 'inputs'], 'every ordered pair and triple of operations from a catalogue of the whole public interface, every interleaving of streaming objects',
     'each test calls functions in one order and never looks at its inputs again', ['CommDspy/'], [('copies instead of in-place updates, no module level state', 'CommDspy/')])
prop('C26', 'Over any noise-free link the received bits are the sent bits',
     'Every combination of bit order, inversions, gray/differential/line/block/convolutional coding, constellation, scale, polarity and equalizable channel returns exactly the sent bits at the end of the receive chain. The streaming link of the example simulation does the same: its generator, encoder, channel, front end, equalizer and decoder give the same stream for every chunk size, with a constant delay, its adaptation removes the interference of a channel while the data keep flowing, and its checker counts exactly the errors.',
     ['inputs', 'histories', 'configurations'], 'every short data word for every link configuration, every chunking of the example objects',
     'the end-to-end script is an example that is only looked at', ['CommDspy/', 'example_simulation/simulation_parts/', 'example_simulation/analyzer/'], [('stage inverses', 'CommDspy/'), ('memories carried across chunks', 'example_simulation/simulation_parts/')])
prop('C27', 'Added noise and jitter have exactly the requested strength',
     'Additive noise is the random draw scaled so that the ratio of signal power to noise power is the requested decibel value, for every signal (with or without offset, any amplitude, one- or multi-dimensional) and SNR, relative to the channel output when a channel is applied, and leaves the channel memory untouched. Timing jitter displaces the sampling instants of each symbol by its random draw times the requested deviation.',
     ['inputs', 'configurations'], 'every short word the random source may deliver, every signal class and SNR up to the bound',
     'the tests measure one SNR statistically', ['CommDspy/channel/additive_noise_functions.py', 'CommDspy/channel/pulse_shaping.py'], [('noise scaling', 'CommDspy/channel/additive_noise_functions.py'), ('jittered resampling', 'CommDspy/channel/pulse_shaping.py')])
prop('C28', 'The spectrum analyser places and scales tones consistently in all modes',
     'A tone shows up at its frequency with its mean power, for every sampling rate, resolution and window (complex signals at its signed frequency), as wide as the requested resolution bandwidth; scaling the signal scales the spectrum quadratically (not at all relative to the carrier). Every normalisation mode differs from the plain one by its documented factor in load, resolution, occupied bandwidth, sideband mode and full scale, and unknown modes are rejected.',
     ['inputs', 'configurations'], 'every tone on the resolution grid, every mode, sideband mode, load, full scale and bandwidth up to the bound',
     'not tested', ['CommDspy/psa.py'], [('mode normalisation and windowed averaging', 'CommDspy/psa.py')])

TECH = {
    'C01': 'explicit-state exploration of every shift-register state and call chunking on the real code against a bit-serial model',
    'C02': 'exhaustive interleaving exploration of iterator operations on the real objects against per-iterator models',
    'C13': 'exhaustive enumeration of input words and chunk schedules of the real equalizer against a scalar model',
    'C14': 'exhaustive enumeration of input words, chunk schedules and object interleavings on the real filters',
    'C25': 'exhaustive enumeration of call histories and object interleavings on the real library, differential against fresh-process runs',
    'C26': 'exhaustive enumeration of link configurations, data words and chunk schedules on the real code',
    'C27': 'exhaustive enumeration of the answers of the (replaced) random source on the real code',
}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    checks = []
    for d in P:
        i = d['id']
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                           technique=TECH.get(i, 'bounded exhaustive model checking: every input/configuration/history within the bounds driven through the real code and compared with an independent reference model'),
                           level='model_checking',
                           level_note=f'Complete within the bounds printed in the evidence (mc/props/{i.lower()}.py BOUNDS); nothing is sampled. Trusts the small reference model in that file, numpy/scipy, and the small-scope assumption beyond the bounds; the assumptions list in the evidence names excluded inputs.'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import numpy, scipy, sklearn"', checks=checks, not_applicable=[],
             notes='No hooks: the checks drive the unmodified public code of /repo in-process. Replay one violation: PYTHONPATH=/verif /opt/venv/bin/python -B -m mc.run --replay evidence/replay/<file>.json')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
