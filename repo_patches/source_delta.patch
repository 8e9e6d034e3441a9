From 0b200b1a758ba795b25612e61915b6387383799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 01/51] fix: check_binary rejects every pattern holding a value
 other than 0 and 1

A pattern with two distinct values was accepted when only one of them was 0 or 1, e.g. {0, 5}.
---
 CommDspy/misc/help_functions.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/CommDspy/misc/help_functions.py b/CommDspy/misc/help_functions.py
index 5e98490..a0731f4 100644
--- a/CommDspy/misc/help_functions.py
+++ b/CommDspy/misc/help_functions.py
@@ -2,11 +2,7 @@ import numpy as np
 
 def check_binary(pattern):
     data_in = np.unique(pattern)
-    if len(data_in) == 1 and (0 not in data_in and 1 not in data_in):
-        raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) == 2 and (0 not in data_in and 1 not in data_in):
-        raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) > 2:
+    if not np.all(np.isin(data_in, [0, 1])):
         raise ValueError('Data in is not binary, please consider other encoding methods')
 
 def check_valid_conv(pattern, G, feedback, use_feedback):
-- 
2.43.0


From 40771b57eac7ac935cd347ba51bbe6960a7d1f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 02/51] fix: decoding_differential inverts coding_differential
 on multi-dimensional patterns

The encoder runs over the flattened pattern, the decoder ran over the last axis.
---
 CommDspy/rx/decoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index dfa4e95..4223566 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -43,8 +43,9 @@ def decoding_differential(pattern, constellation=ConstellationEnum.PAM4):
                    |                              +|
                    --------------------------------
         """
+    shape   = pattern.shape
     lvl_num = len(get_levels(constellation))
-    return (lfilter([1, -1], [1], pattern.astype(float)) % lvl_num).astype(int)
+    return np.reshape(lfilter([1, -1], [1], np.reshape(pattern, -1).astype(float)) % lvl_num, shape).astype(int)
 
 def decoding_manchester(pattern):
     """
-- 
2.43.0


From 1cdc3146af8f725f70e16384ff9188c78d08f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 03/51] fix: decoding_mlt3 accepts multi-dimensional patterns

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 4223566..6effd8d 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -119,7 +119,7 @@ def decoding_mlt3(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    if pattern[0] == 1:
+    if pattern_flat[0] == 1:
         transitions = np.concatenate((np.array([1]), np.abs(np.diff(pattern_flat))))
     else:
         transitions = np.concatenate((np.array([0]), np.abs(np.diff(pattern_flat))))
-- 
2.43.0


From fbe1a95642ecd21fadbb51c932715180bcf7b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 04/51] fix: decoding_bipolar error detection reports the sign
 of leading violations

Two leading -1 marks were reported as +0.5, and multi-dimensional patterns raised IndexError.
---
 CommDspy/rx/decoding.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 6effd8d..0ba6c44 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -102,17 +102,14 @@ def decoding_bipolar(pattern, error_detection=False):
         # Detecting the mark locations in the pattern
         # ----------------------------------------------------------------------------------------------------------
         pattern_flat    = np.reshape(pattern - 1, -1)
-        decoded_pattern = np.abs(pattern - 1).astype(float)
+        decoded_pattern = np.abs(pattern_flat).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
         mark_change     = np.concatenate((np.array([1]), np.diff(pattern_flat[mark_location])))
-        running_sign    = 1
         for ii, mark in enumerate(mark_change):
             if mark == 0:
-                decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(running_sign)
-            else:
-                running_sign = np.sign(mark)
-        return decoded_pattern
+                decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(pattern_flat[mark_location[ii]])
+        return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
     pattern_flat = np.reshape(pattern, -1)
-- 
2.43.0


From 52983c25b554cb9115c79f5c39c3e8d76cd73d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 05/51] fix: ml_decoding no longer overwrites the caller's
 received pattern

---
 CommDspy/misc/ml_decoding.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 5772d5e..48128f4 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -15,7 +15,6 @@ def ml_decoding(permutations, codebook, pattern_block, error_prob):
         min_hamming = np.min(hamming, axis=0)
         not_codeword = min_hamming > 0
         correct_idx = np.argmin(hamming[:, not_codeword], axis=0)
-        pattern_block[not_codeword] = codebook[correct_idx]
         # ----------------------------------------------------------------------------------------------------------
         # Fixing the hamming matrix, filling p_err
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From af0a28a34aef725b1df741312fe6ca52469b69a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 06/51] fix: demapping with pn_inv no longer negates the
 caller's signal in place

---
 CommDspy/rx/demapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/demapping.py b/CommDspy/rx/demapping.py
index 706591c..24092c2 100644
--- a/CommDspy/rx/demapping.py
+++ b/CommDspy/rx/demapping.py
@@ -24,7 +24,7 @@ def demapping(signal, constellation, full_scale=False, pn_inv=False):
     # PN-inv
     # ==================================================================================================================
     if pn_inv:
-        signal *= -1
+        signal = -1 * signal
     # ==================================================================================================================
     # Converting symbols to indices, i.e. performing decoding
     # ==================================================================================================================
-- 
2.43.0


From 3e12c43d80739de1a8277e326aeee765505b683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 07/51] fix: symbol2bin handles a single symbol with the
 inversion flags

---
 CommDspy/rx/symbol2bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/symbol2bin.py b/CommDspy/rx/symbol2bin.py
index 2112404..cffdf52 100644
--- a/CommDspy/rx/symbol2bin.py
+++ b/CommDspy/rx/symbol2bin.py
@@ -25,7 +25,7 @@ def symbol2bin(symbol_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, i
     # ==================================================================================================================
     # Converting to binary representation
     # ==================================================================================================================
-    symbol_mat_binary = np.squeeze(((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int))
+    symbol_mat_binary = ((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int)
     # ==================================================================================================================
     # Bit manipulations according to the flags
     # ==================================================================================================================
-- 
2.43.0


From 59a43a9407d1682503c4b5cd312d4457cc5dec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 08/51] fix: buffer(clip=True) drops exactly the zero padded
 rows

The old test looked for any single equal element, so a padded row survived whenever one of its values appeared anywhere in the signal.
---
 CommDspy/auxiliary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index e87e5c5..bc006a4 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -115,8 +115,8 @@ def buffer(signal, length, overlap=0, delay=0, clip=False):
     rows_to_remove = np.sum(np.any(np.array([np.arange(full_len - length - max(overlap, 0), full_len)]).T - rows == 0, axis=1))
     if rows_to_remove > 0:
         matrix = matrix[:-1*rows_to_remove]
-    if clip and matrix[-1,:] not in linalg.hankel(signal, signal[::-1][:length])[:-1]:
-        matrix = matrix[:-1]
+    if clip:
+        matrix = matrix[rows[:len(matrix)] + length <= delay + len(signal)]
     return matrix
 
 def upsample(signal, rate):
-- 
2.43.0


From ddd5c8d49b1a96e3192e25d1473d6d23f02ddd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 09/51] fix: slicer accepts a plain list

---
 CommDspy/rx/slicer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/slicer.py b/CommDspy/rx/slicer.py
index 1fdd862..b0e64f0 100644
--- a/CommDspy/rx/slicer.py
+++ b/CommDspy/rx/slicer.py
@@ -12,9 +12,9 @@ def slicer(slicer_in_mat, levels=None):
     try:
         y, x = slicer_in_mat.shape
     except AttributeError:
-        slicer_im_mat = np.array(slicer_in_mat)
+        slicer_in_mat = np.array(slicer_in_mat)
         try:
-            y, x = slicer_im_mat.shape
+            y, x = slicer_in_mat.shape
         except ValueError:
             x = slicer_in_mat.shape[0]
             y = 0
-- 
2.43.0


From d515675864be0b176a08b642c0f9a0c93246afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 10/51] fix: quantize honours negative frac_bits as documented

---
 CommDspy/rx/quantiztion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 10116e8..a3dbbc0 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -42,9 +42,9 @@ def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
         levels = levels[1:] - 2**(total_bits - 1)
     elif fix_point_type != 'u':
         raise ValueError('Type used is not defined, please read function description')
-    if frac_bits > 0:
+    if frac_bits != 0:
         levels = levels.astype(float)
-        levels /= 2**frac_bits
+        levels /= 2.0**frac_bits
     # ==================================================================================================================
     # Applying Quantization
     # ==================================================================================================================
-- 
2.43.0


From d34f7a9ed9abadb5a3dfd2fd2721aee90866f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 11/51] fix: quantize default fix_point_type is one of the
 supported types

---
 CommDspy/rx/quantiztion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index a3dbbc0..648d743 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -1,7 +1,7 @@
 import numpy as np
 from CommDspy.rx.slicer import slicer
 
-def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
+def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
     """
     :param signal: Input signal to perform quantization on
     :param total_bits: Total bit used in the quantization
-- 
2.43.0


From b5c67839cc66159d942a23676170bb9381685f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 12/51] fix: ffe_dfe accepts ffe_taps=None as documented

---
 CommDspy/rx/ffe_dfe_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 2b2f73f..94bdda5 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -50,6 +50,8 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # ==================================================================================================================
     # If both FFE and DFE are None, this block is doing nothing
     # ==================================================================================================================
+    if ffe_taps is None:
+        ffe_taps = np.array([1])
     if len(ffe_taps) == 1 and dfe_taps is None:
         return input_signal * ffe_taps
     # ==================================================================================================================
-- 
2.43.0


From 9e1136b827509bab5ca13c368c4bcaec163a42a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 13/51] fix: ffe_dfe memory length validation raises ValueError
 instead of TypeError

A zi_ffe of the valid length ffe_len - 1 raised TypeError too.
---
 CommDspy/rx/ffe_dfe_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 94bdda5..f3bd9ca 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -66,12 +66,12 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         elif len(zi_dfe) == len(dfe_taps):
             dfe_memory = zi_dfe
         else:
-            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {dfe_taps:d}')
+            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {len(dfe_taps):d}')
     if zi_ffe is None:
         zi_ffe = np.zeros(ffe_len - 1)
     elif len(zi_ffe) == ffe_len:
         zi_ffe = zi_ffe[1:]
-    elif len(zi_ffe) != len(ffe_len) - 1:
+    elif len(zi_ffe) != ffe_len - 1:
         raise ValueError(f'zi_ffe is not in the same size as the FFE, length is {len(zi_ffe):d} instead of {ffe_len - 1:d}')
     # ==================================================================================================================
     # If we only have FFE and without DFE we can use convolution for speed
-- 
2.43.0


From d87ffd389021dd09a78fb2d861041a7daa517eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 14/51] fix: ffe_dfe returns the complete FFE memory when the
 chunk is shorter than the FFE

---
 CommDspy/rx/ffe_dfe_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index f3bd9ca..c4420ad 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -77,8 +77,9 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # If we only have FFE and without DFE we can use convolution for speed
     # ==================================================================================================================
     if dfe_taps is None:
-        rx_ffe_out = signal.convolve(ffe_taps, np.concatenate([zi_ffe, input_signal]), mode='valid')
-        return rx_ffe_out, input_signal[-1*ffe_len:]
+        full_signal = np.concatenate([zi_ffe, input_signal])
+        rx_ffe_out  = signal.convolve(ffe_taps, full_signal, mode='valid')
+        return rx_ffe_out, full_signal[-1*ffe_len:]
     # ==================================================================================================================
     # In case we hae DFE taps we need to make a decision, therefore we can not use convolution
     # ==================================================================================================================
-- 
2.43.0


From a97c2264b26b240c33dc66979b4954ac83bc9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 15/51] fix: pulse_shape supports the documented 'imp' pulse

It always raised, because the memory length ignored that the impulse has a single tap.
---
 CommDspy/channel/pulse_shaping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index b9855b4..c4f7a92 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -30,10 +30,11 @@ def pulse_shape(signal, osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0.0, zi=
     # ==================================================================================================================
     sig_ups   = upsample(signal, osr)
     pulse_vec = _get_pulse(pulse, osr, span, beta)
+    zi_len    = len(pulse_vec) - 1  # 'osr' * 'span' * 2 - 1 for all the pulses but 'imp', which has no memory
     if zi is None:
-        zi = np.zeros(osr * span * 2 - 1)
-    elif len(zi) != osr * span * 2 - 1:
-        raise ValueError(f'Memory length {len(zi):d} doesnt match the requested pulse, length should be {osr*span*2-1:d}')
+        zi = np.zeros(zi_len)
+    elif len(zi) != zi_len:
+        raise ValueError(f'Memory length {len(zi):d} doesnt match the requested pulse, length should be {zi_len:d}')
     # ==================================================================================================================
     # Convolving
     # ==================================================================================================================
-- 
2.43.0


From 5b603f1032d60793c3bd8d34f43e6f5990a02f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 16/51] fix: rcos_pulse evaluates its removable singularity
 within rounding error

The exact comparison with 1 missed it for e.g. osr=7, beta=0.14, giving a wrong tap. A roll-off of 0 raised ZeroDivisionError in both cosine pulses.
---
 CommDspy/channel/pulse_shaping.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index c4f7a92..fd2f534 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -94,13 +94,15 @@ def rcos_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
-    tneq = t[np.abs(2*beta*t) != 1]
+    neqb = ~np.isclose(np.abs(2*beta*t), 1, rtol=0, atol=1e-8)
+    tneq = t[neqb]
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
     pulse = np.zeros_like(t)
-    pulse[np.abs(2*beta*t) == 1] = np.pi/4 * np.sinc(1/(2*beta))
-    pulse[np.abs(2*beta*t) != 1] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
+    if not np.all(neqb):
+        pulse[~neqb] = np.pi/4 * np.sinc(1/(2*beta))
+    pulse[neqb] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
     return pulse
 
 def rrc_pulse(osr, span, beta, t=None):
@@ -116,6 +118,8 @@ def rrc_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
+    if beta == 0:  # no roll-off, the root raised cosine is the sinc pulse
+        return sinc_pulse(osr, span, t)
     neq0 = ~np.isclose(t, np.zeros_like(t))
     neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t))
     # ==================================================================================================================
-- 
2.43.0


From e8cbd0a52a0234e44217c1e3e4e5f0d4cf4e1a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 17/51] fix: dig_delay_rcos_coeffs is finite at the raised
 cosine singularity

The formula gave inf or nan when a tap falls on it, e.g. beta=1 and alpha=0.5.
---
 CommDspy/digital_delay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 2f9c19c..2f8e547 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -1,5 +1,6 @@
 import numpy as np
 from scipy.signal import lfilter
+from CommDspy.channel.pulse_shaping import rcos_pulse
 
 def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     """
@@ -81,7 +82,7 @@ def dig_delay_rcos_coeffs(n, alpha, forward=True, beta=0.5):
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-    return np.sinc(ii_vec - alpha) * np.cos(np.pi * beta * (ii_vec - alpha)) / (1 - (2 * beta * (ii_vec - alpha)) ** 2)
+    return rcos_pulse(1, 1, beta, ii_vec - alpha)
 
 def digital_oversample(signal_vec, osr, order, method, beta=0):
     """
-- 
2.43.0


From 24d5532557186b906f56940d08b5195165ce58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 18/51] fix: Filter and FilterTII do not truncate the output of
 integer chunks

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index b07a6c1..663c348 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -49,7 +49,7 @@ class Filter:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(np.asarray(data_chunk), float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
@@ -131,7 +131,7 @@ class FilterTII:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(np.asarray(data_chunk), float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
-- 
2.43.0


From 8f95244299ebaa407da1860dac9874d04d69cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 19/51] fix: FilterTII supports memoryless filters

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index 663c348..1f37f86 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -122,7 +122,7 @@ class FilterTII:
 
     def _process(self, x):
         # Creating y
-        a0_y = self.b[0] * x + self._z[0]
+        a0_y = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         y    = a0_y / self.a[0]
         # Advancing the memory
         z_temp = np.concatenate([self._z[1:], [0]])
@@ -190,7 +190,7 @@ class FfeDfeFilterTII(FilterTII):
 
     def _process(self, x):
         # Creating \tilde{x} and the sliced \hat{x[n]}
-        a0_xtilde = self.b[0] * x + self._z[0]
+        a0_xtilde = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         xtilde = a0_xtilde / self.a[0]
         xhat   = slicer(np.array([xtilde]), self.levels)
         # Advancing the memory
-- 
2.43.0


From d2fa35c6884e67f1794fb8cea31cc9660c440583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 20/51] fix: equalization_estimation can normalize an equalizer
 without a DFE

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 333bc4b..07763f4 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -157,7 +157,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     err       = sig_out - skewed_ref
     mse = 10 * np.log10(power(err) / power(sig_out))
     if normalize:
-        return ffe / dig_gain, dfe / dig_gain, dig_gain, ls_err, mse
+        return ffe / dig_gain, dfe / dig_gain if dfe is not None else None, dig_gain, ls_err, mse
     else:
         return ffe, dfe, 1, ls_err, mse
 
-- 
2.43.0


From 635a3b802e0e77686db3439ff779c6c81d0b54a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 21/51] fix: channel_estimation_prbs applies pn_inv_postcoding
 to its reference

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index e6ed182..8f99157 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -57,7 +57,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
         return True, 0, [0]
     prbs_seq, _ = prbs_generator(poly_coeff, init_seed, 2 * prbs_len)
     prbsq       = bin2symbol(prbs_seq, len(levels), bit_order_inv, False, False, pn_inv_precoding)
-    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale)
+    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale, pn_inv=pn_inv_postcoding) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale, pn_inv=pn_inv_postcoding)
     # ==================================================================================================================
     # Locking on the pattern beginning
     # ==================================================================================================================
-- 
2.43.0


From 197d7fc8cca954efbfc9e66ebfedf753b46346d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 22/51] fix: ridge and lasso solve the documented problem,
 which has no intercept

The fitted intercept was dropped, so the returned solution and residual did not belong to Ax = b.
---
 CommDspy/misc/least_squares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index a4afd80..8119052 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -43,7 +43,7 @@ def ridge_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L2 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||^2_2
     """
-    model = Ridge(alpha=reg_lambda)
+    model = Ridge(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
@@ -57,7 +57,7 @@ def lasso_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L1 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||_1
     """
-    model = Lasso(alpha=reg_lambda)
+    model = Lasso(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
-- 
2.43.0


From 9d3a7617c4fbc0f40e50cd01258ee18570be5e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 23/51] fix: channel_estimation_prbs estimates the channel of
 the signal itself

The signal was divided by its variance, so the un-normalized impulse response and the residuals had an arbitrary scale.
---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index 8f99157..bf0c48d 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -69,7 +69,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
     shift_idx    = np.concatenate([np.arange(channel_postcursor, prbs_len, 1), np.arange(0, channel_postcursor, 1)])
     reps         = int(np.floor(len(signal) / prbs_len))
     signal_shift = np.mean(np.reshape(signal[:(prbs_len*reps)], [-1, prbs_len]), axis=0)
-    signal_shift = signal_shift[shift_idx] / np.var(signal_shift)
+    signal_shift = signal_shift[shift_idx]
     # ==================================================================================================================
     # Performing least squares to find the channel estimation
     # ==================================================================================================================
-- 
2.43.0


From 77f50ec01df89f08354d74e6dfccf8d678d71857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 24/51] fix: coding_conv with feedback stays exact for long
 patterns

The recursion ran over the reals and was reduced modulo 2 at the end, so its values grew without bound and lost their parity.
---
 CommDspy/tx/coding.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index c9a3b3b..2e7786d 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -315,7 +315,10 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
             # ------------------------------------------------------------------------------------------------------
             # Passing the data through the transfer function
             # ------------------------------------------------------------------------------------------------------
-            out_ii_jj     = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
+            if type(iir_vals) != float:  # the recursion must stay in the binary field, otherwise its values diverge
+                out_ii_jj = lfilter(G_ii_jj.astype(float), 1.0, _binary_recursion(in_pattern, feedback[ii]))
+            else:
+                out_ii_jj = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
             out_vals[jj] += out_ii_jj
     # ==================================================================================================================
     # Setting the data to binary
@@ -325,3 +328,16 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
     # Reshaping back to the output
     # ==================================================================================================================
     return np.reshape(out_vals.T, -1)
+
+def _binary_recursion(in_pattern, feedback):
+    """
+    :param in_pattern: binary input of the shift register
+    :param feedback: binary feedback polynomial, with 1 in the '0' location
+    :return: the bits entering the shift register, i.e. in_pattern divided by the feedback polynomial over F2
+    """
+    memory = np.zeros(len(feedback) - 1, dtype=int)
+    out    = np.zeros(len(in_pattern), dtype=int)
+    for ii, bit in enumerate(in_pattern):
+        out[ii] = (bit + memory.dot(feedback[1:])) % 2
+        memory  = np.concatenate([[out[ii]], memory])[:len(memory)]
+    return out
-- 
2.43.0


From 753446ecfa4f7c9aad469c92024563a64c0c6e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 25/51] fix: the trellis keeps the memory of inputs without
 feedback

When another input had a feedback loop, the delayed terms of a feed-forward input were dropped, so the decoders disagreed with coding_conv.
---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 48128f4..2665991 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -142,7 +142,7 @@ def create_trellis_bin(G, states, inputs, memory_cumsum, feedback=None, use_feed
                 else:
                     for jj in range(n_out):
                         G_kk_jj = G[kk][jj]
-                        if len(G_kk_jj) == 1 or use_feedback[kk, jj] == 0:
+                        if len(G_kk_jj) == 1 or (use_feedback[kk, jj] == 0 and kk in feedback.keys()):
                             # no memory, either systematic or always 0 output, depending on G_ii_jj[0] value.
                             # 1 - systematic ; 0 - zero output
                             c_vec[jj] = c_vec[jj] ^ (in_k * G_kk_jj[0])
-- 
2.43.0


From aea8a0f29048bdea7a0c3dcb6729073d2f1f6de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 26/51] fix: decoding_conv_viterbi keeps the survivor with the
 minimal accumulated distance

The predecessor was selected by the distance of the last branch alone, and transitions which do not exist could be selected, so the decoded word was not the closest one.
---
 CommDspy/rx/decoding.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 0ba6c44..3f8ec3c 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -308,15 +308,15 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
             # ----------------------------------------------------------------------------------------------------------
             # step_hamming[ii,jj] = hamming from state ii to state jj, computing for all transitions in one step
             step_hamming, _ = hamming(output_tensor_reshape, pattern_chunk[None, :])
-            step_hamming    = np.reshape(step_hamming, trellis_obj.output_tensor.shape[:-1])
+            step_hamming    = np.reshape(step_hamming, trellis_obj.output_tensor.shape[:-1]).astype(float)
+            step_hamming[trellis_obj.output_tensor[:, :, 0] < 0] = np.inf  # no such transition
+            if chunk_idx > 0:
+                step_hamming += hamming_dist[:, chunk_idx-1][:, None]
             # ----------------------------------------------------------------------------------------------------------
             # Noting the best for this step, the return path and the input for the best per state
             # ----------------------------------------------------------------------------------------------------------
             hamming_state[:, chunk_idx] = np.argmin(step_hamming, axis=0)
-            if chunk_idx > 0:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0) + hamming_dist[hamming_state[:,chunk_idx], chunk_idx-1]
-            else:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0)
+            hamming_dist[:, chunk_idx]  = np.min(step_hamming, axis=0)
             decoded_mat_prev = decoded_mat.copy()
             out_state = hamming_state[in_state_int_vec, chunk_idx]
             if chunk_idx > 0:
-- 
2.43.0


From b556a0dfdf2a13de8d9ea18ed93a9524ee18f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 27/51] fix: example Decoder inverts the gray and differential
 stages of the Encoder

---
 example_simulation/simulation_parts/receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index dc12ef5..bcd87c4 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -110,9 +110,9 @@ class Decoder:
         # ==============================================================================================================
         pattern_decoded = signal_chunk.copy()
         if self.coding_gray:
-            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, self.constellation)
-        if self.coding_differential:
             pattern_decoded = cdsp.rx.decoding_gray(pattern_decoded, self.constellation)
+        if self.coding_differential:
+            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, self.constellation)
         # ==============================================================================================================
         # Converting symbols to binary if needed
         # ==============================================================================================================
-- 
2.43.0


From ed9664832aec117f6c8cc0e0981b3ae3f09f8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 28/51] fix: example ChannelData keeps the given IIR
 coefficients

---
 example_simulation/simulation_parts/data_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/data_objects.py b/example_simulation/simulation_parts/data_objects.py
index ce02795..15d6f97 100644
--- a/example_simulation/simulation_parts/data_objects.py
+++ b/example_simulation/simulation_parts/data_objects.py
@@ -61,7 +61,7 @@ class ChannelData:
         self.pulse_span     = pulse_span
         self.rolloff        = rolloff
         self.ch_type        = ch_type
-        self.iir_coefs      = [1] if iir_coefs is None else fir_coefs
+        self.iir_coefs      = [1] if iir_coefs is None else iir_coefs
         self.fir_coefs      = [1] if fir_coefs is None else fir_coefs
         self.osr            = osr
         self.snr            = snr
-- 
2.43.0


From 177c582fbb767d861ff18ef6533c43d5b46d50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 29/51] fix: example Receiver calls the existing ddlms_grad

---
 example_simulation/simulation_parts/receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index bcd87c4..76a99b2 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -236,7 +236,7 @@ class Receiver:
             # Converging the FFE and DFE
             # ------------------------------------------------------------------------------------------------------
             if self.converge_lms:
-                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.lms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
+                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
                                                                    ffe_tap_idx=self.lms_ffe_idx,
                                                                    dfe_tap_idx=self.lms_dfe_idx)
                 self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
-- 
2.43.0


From 455a5881327866706ac4ecd8a5dc60eaf1aa074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 30/51] fix: example Receiver scales the sliced levels before
 the demapping

The slicer works with levels scaled to the receiver amplitude, the demapping assumes the default levels.
---
 example_simulation/simulation_parts/receiver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 76a99b2..6086a93 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -254,7 +254,8 @@ class Receiver:
     def extract_data(self):
         self.demapped_chunk_last = self.demapped_chunk
         self.decoded_chunk_last  = self.decoded_chunk
-        self.demapped_chunk = cdsp.rx.demapping(self.slicer_out, self.constellation)
+        demap_scale         = np.max(cdsp.get_levels(self.constellation)) / np.max(self.levels)
+        self.demapped_chunk = cdsp.rx.demapping(self.slicer_out * demap_scale, self.constellation)
         self.decoded_chunk  = self.decoder(self.demapped_chunk)
         return self.decoded_chunk
 
-- 
2.43.0


From 5a5ec946b079753da884327b18aee2d88c16ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 31/51] fix: example PrbsGen tracks the previous seed it
 exposes

---
 example_simulation/simulation_parts/transmitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/example_simulation/simulation_parts/transmitter.py b/example_simulation/simulation_parts/transmitter.py
index f6a28ee..a5ebcac 100644
--- a/example_simulation/simulation_parts/transmitter.py
+++ b/example_simulation/simulation_parts/transmitter.py
@@ -7,11 +7,13 @@ class PrbsGen:
         self.gen_poly   = prbs_data.gen_poly
         self.chunk_size = prbs_data.chunk_size
         self.seed       = prbs_data.seed if prbs_data.seed is not None else np.ones_like(self.gen_poly)
+        self.seed_prev  = None
 
     def __iter__(self):
         return self
 
     def __next__(self):
+        self.seed_prev   = self.seed
         chunk, self.seed = cdsp.tx.prbs_gen(self.gen_poly, self.seed, self.chunk_size)
         return chunk
 
-- 
2.43.0


From 7bb06374571963d39dcc7d78a08a12c3f6ecbf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 32/51] fix: example Channel supports the 'imp' pulse

---
 example_simulation/simulation_parts/channel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/channel.py b/example_simulation/simulation_parts/channel.py
index f95a0ab..392552d 100644
--- a/example_simulation/simulation_parts/channel.py
+++ b/example_simulation/simulation_parts/channel.py
@@ -27,8 +27,7 @@ class Channel:
         else:
             self.ch_zi     = channel_data.ch_zi
         if channel_data.pulse_zi is None:
-            pulse_len_fui = self.pulse_span * self.osr * 2 - 1  # pulse length is fractional of UI
-            self.pulse_zi = np.zeros(pulse_len_fui)
+            self.pulse_zi = None  # zero memory, with the length matching the pulse
         else:
             self.pulse_zi  = channel_data.pulse_zi
 
-- 
2.43.0


From ec4dd03a6cdb8295e9dc620884c71dedfa20b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:14 +0000
Subject: [PATCH 33/51] fix: pattern locking returns a complete pattern when
 the signal is shorter than it

---
 CommDspy/rx/lock_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 0f688b1..8d9812f 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -19,7 +19,7 @@ def lock_pattern_to_signal_binary(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_nrz, signal_nrz, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr) % pattern_len  # one period apart the correlation is equal up to rounding
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
 
 def lock_pattern_to_signal(pattern, signal):
@@ -39,6 +39,6 @@ def lock_pattern_to_signal(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_rep, signal_part, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr) % pattern_len  # one period apart the correlation is equal up to rounding
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From 6b1cb684b42666ad48c8991f3747b8a7d986b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:45 +0000
Subject: [PATCH 34/51] fix: equalization_estimation_prbs keeps the FFE cursor
 when the DFE is longer than the FFE postcursors

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 07763f4..38d7285 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -60,7 +60,6 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     init_seed       = np.array([1] * prbs_type.value)
     prbs_len        = 2 ** len(init_seed) - 1
     levels          = get_levels(constellation, prbs_full_scale)
-    postcursor_num  = np.max((ffe_postcursor, dfe_taps))
     # ==================================================================================================================
     # Getting reference PRBS and coding
     # ==================================================================================================================
@@ -74,7 +73,7 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     # Locking on the pattern beginning and then shifting to account for post-cursors
     # ==================================================================================================================
     prbs_coded_aligned, _ = lock_pattern_to_signal(prbs_coded, signal)
-    shift_idx = np.concatenate([np.arange(postcursor_num, prbs_len, 1), np.arange(0, postcursor_num, 1)])
+    shift_idx = np.concatenate([np.arange(ffe_postcursor, prbs_len, 1), np.arange(0, ffe_postcursor, 1)])
     prbs_coded_shift = prbs_coded_aligned[shift_idx]
     # ==================================================================================================================
     # Averaging to help remove noise from captured signal
-- 
2.43.0


From 31ebbd200ae1758d0775df850cd766f04435e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:05 +0000
Subject: [PATCH 35/51] fix: equalization_estimation uses only equations that
 lie inside the signal

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 38d7285..bd6cac2 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -117,8 +117,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    postcursor_num = np.max((ffe_postcursor, dfe_taps))
-    chop_len = postcursor_num + ffe_precursor + 1
+    chop_len = dfe_taps + ffe_postcursor + ffe_precursor + 1  # the equations must not reach beyond the signal
     mat_row_num    = len(signal) - chop_len
     # ==================================================================================================================
     # Building the FFE part of the matrix in the Ax=b system
-- 
2.43.0


From 07d9f6e92befe3c86976d5efff212d787a6d44df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:49 +0000
Subject: [PATCH 36/51] fix: ordinary least squares returns the minimum norm
 solution of rank deficient systems

---
 CommDspy/misc/least_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index 8119052..d8001bf 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -32,7 +32,7 @@ def ols(a_mat, b):
     :param b:
     :return: Ordinary Least Squares, numpy implementation
     """
-    ls_result = np.linalg.lstsq(a_mat, b, rcond=-1)
+    ls_result = np.linalg.lstsq(a_mat, b, rcond=None)
     return ls_result[0], ls_result[1]
 
 def ridge_regression(a_mat, b, reg_lambda):
-- 
2.43.0


From f4a582cf91a1436bf3bf58d272d2004a4d59ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:16 +0000
Subject: [PATCH 37/51] fix: example Decoder undoes the binary codes of the
 Encoder in reverse order

---
 .../simulation_parts/receiver.py              | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 6086a93..b859006 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -134,23 +134,23 @@ class Decoder:
         # ==============================================================================================================
         # Binary decoding options
         # ==============================================================================================================
-        if self.coding_bin_differential:
-            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, cdsp.ConstellationEnum.OOK)
-        if self.coding_manchester:
-            pattern_decoded = cdsp.rx.decoding_manchester(pattern_decoded)
-        if self.coding_bipolar:
-            pattern_decoded = cdsp.rx.decoding_bipolar(pattern_decoded)
-        if self.coding_mlt3:
-            pattern_decoded = cdsp.rx.decoding_mlt3(pattern_decoded)
-        if self.coding_diff_manchester:
-            pattern_decoded = cdsp.rx.decoding_differential_manchester(pattern_decoded)
-        if self.coding_linear:
-            pattern_decoded = cdsp.rx.decoding_linear(pattern_decoded, self.G)
         if self.coding_conv:
             pattern_decoded, _ = cdsp.rx.decoding_conv_viterbi(pattern_decoded, self.G,
                                                                tb_len=self.chunk_size,
                                                                feedback=self.feedback,
                                                                use_feedback=self.use_feedback)
+        if self.coding_linear:
+            pattern_decoded = cdsp.rx.decoding_linear(pattern_decoded, self.G)
+        if self.coding_diff_manchester:
+            pattern_decoded = cdsp.rx.decoding_differential_manchester(pattern_decoded)
+        if self.coding_mlt3:
+            pattern_decoded = cdsp.rx.decoding_mlt3(pattern_decoded)
+        if self.coding_bipolar:
+            pattern_decoded = cdsp.rx.decoding_bipolar(pattern_decoded)
+        if self.coding_manchester:
+            pattern_decoded = cdsp.rx.decoding_manchester(pattern_decoded)
+        if self.coding_bin_differential:
+            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, cdsp.ConstellationEnum.OOK)
         return pattern_decoded
 class Receiver:
     def __init__(self, ctle_data, adc_data, ffe_dfe_data, mapping_data, coding_data, lms_lr=2**(-10), digital_gain=1):
-- 
2.43.0


From 174e5cfd9f04550ffff7fa702393b52c54e083e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:49 +0000
Subject: [PATCH 38/51] fix: example Encoder and Decoder support three level
 constellations

---
 example_simulation/simulation_parts/receiver.py    | 2 +-
 example_simulation/simulation_parts/transmitter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index b859006..3d4d4b1 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -116,7 +116,7 @@ class Decoder:
         # ==============================================================================================================
         # Converting symbols to binary if needed
         # ==============================================================================================================
-        if self.bits_per_symbol > 1:
+        if self.bits_per_symbol >= 2:
             pattern_decoded = cdsp.rx.symbol2bin(pattern_decoded,
                                                  num_of_symbols=2**self.bits_per_symbol,
                                                  bit_order_inv=self.bit_order_inv,
diff --git a/example_simulation/simulation_parts/transmitter.py b/example_simulation/simulation_parts/transmitter.py
index a5ebcac..30ab633 100644
--- a/example_simulation/simulation_parts/transmitter.py
+++ b/example_simulation/simulation_parts/transmitter.py
@@ -66,7 +66,7 @@ class Encoder:
         # ==============================================================================================================
         # Converting to symbols if needed
         # ==============================================================================================================
-        if self.bits_per_symbol > 1:
+        if self.bits_per_symbol >= 2:
             pattern_coded = cdsp.tx.bin2symbol(pattern_coded,
                                                num_of_symbols=2**self.bits_per_symbol,
                                                bit_order_inv=self.bit_order_inv,
-- 
2.43.0


From b4a3d4d86d8bc6bd80b54e244f32262c7729363b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:05:15 +0000
Subject: [PATCH 39/51] fix: lock narrow and unsigned patterns without integer
 overflow

---
 CommDspy/rx/lock_pattern.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 8d9812f..f8830a9 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -13,8 +13,10 @@ def lock_pattern_to_signal_binary(pattern, signal):
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-    pattern_nrz = pattern_rep * 2 - 1
-    signal_nrz = signal[:np.min((pattern_len, data_len))] * 2 - 1
+    signal_part = np.asarray(signal)[:np.min((pattern_len, data_len))]
+    # narrow and unsigned types can not hold the NRZ values and their correlation
+    pattern_nrz = pattern_rep.astype(np.result_type(pattern_rep, int)) * 2 - 1
+    signal_nrz  = signal_part.astype(np.result_type(signal_part, int)) * 2 - 1
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
@@ -34,11 +36,13 @@ def lock_pattern_to_signal(pattern, signal):
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-    signal_part = signal[:np.min((pattern_len, data_len))]
+    signal_part = np.asarray(signal)[:np.min((pattern_len, data_len))]
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
-    xcorr = correlate(pattern_rep, signal_part, mode='valid')
+    # narrow types can not hold the correlation values
+    xcorr = correlate(pattern_rep.astype(np.result_type(pattern_rep, int)),
+                      signal_part.astype(np.result_type(signal_part, int)), mode='valid')
     start_idx = np.argmax(xcorr) % pattern_len  # one period apart the correlation is equal up to rounding
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From fc5bec23eea83c298781f67bd0ccc38af4b454d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:05:15 +0000
Subject: [PATCH 40/51] fix: line code decoders accept unsigned and boolean
 patterns

---
 CommDspy/rx/decoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 3f8ec3c..52e0628 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -76,6 +76,7 @@ def decoding_manchester(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
+    pattern = pattern.astype(np.result_type(pattern, int))  # unsigned types can not hold the transitions
     pattern_flat    = np.reshape(pattern, [-1, 2])
     transitions     = -1 * np.diff(pattern_flat, axis=1) # should be -1, 1 or 0 for mistakes
     decoded_pattern = (transitions + 1) / 2
@@ -95,6 +96,7 @@ def decoding_bipolar(pattern, error_detection=False):
         neighboring '0' values as well.
     :return:
     """
+    pattern = pattern.astype(np.result_type(pattern, int))  # unsigned types can not hold the negative marks
     if not error_detection:
         return np.abs(pattern - 1)
     else:
@@ -112,6 +114,7 @@ def decoding_bipolar(pattern, error_detection=False):
         return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
+    pattern = pattern.astype(np.result_type(pattern, int))  # unsigned types can not hold the transitions
     pattern_flat = np.reshape(pattern, -1)
     # ==================================================================================================================
     # Decoding
@@ -136,6 +139,7 @@ def decoding_differential_manchester(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
+    pattern = pattern.astype(np.result_type(pattern, int))  # unsigned types can not hold the transitions
     pattern_flat = np.reshape(pattern, [-1, 2])
     transitions  = 1 -  np.abs(np.diff(pattern_flat, axis=1))  # should be -1, 1 or 0 for mistakes
     return np.reshape(transitions, new_pattern_shape).astype(int)
-- 
2.43.0


From 9c3c3a4096801a9a7dd893afe1aee128fdbc6085 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:05:15 +0000
Subject: [PATCH 41/51] fix: power of narrow integer signals does not overflow

---
 CommDspy/auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index bc006a4..93c7b9c 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -65,6 +65,7 @@ def power(signal):
     :param signal:
     :return: Computes the mean power of the signal
     """
+    signal = np.asarray(signal).astype(np.result_type(np.asarray(signal), float))  # narrow types can not hold the squares
     return np.mean(signal * np.conj(signal))
 
 def rms(signal):
-- 
2.43.0


From 5de6b9e9d0b0ecc645c0df59043a2ae4daf5fd0b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:05:15 +0000
Subject: [PATCH 42/51] fix: psa dBc level of narrow integer signals does not
 overflow

---
 CommDspy/psa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/psa.py b/CommDspy/psa.py
index b93e5de..d39dfb9 100644
--- a/CommDspy/psa.py
+++ b/CommDspy/psa.py
@@ -1,6 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 from scipy.signal import get_window, welch
+from CommDspy.auxiliary import rms
 
 
 def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackmanharris', overlap=0.75, fullscale=1, sb_mode='DSB', plot=False):
@@ -60,7 +61,7 @@ def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackman
     elif mode == 'dBuv/sqrt(Hz)':
         norm_factor = np.sqrt(1 / effective_fs) * 1e6
     elif mode == 'dBc':
-        vrms = np.sqrt(np.mean(signal_flat * np.conj(signal_flat)))
+        vrms = rms(signal_flat)
         if obw is None:
             obw = rbw
         norm_factor = np.sqrt(obw / effective_fs) / vrms
-- 
2.43.0


From 43145a8db47d95397ea854e62d568aa650b3a911 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:05:33 +0000
Subject: [PATCH 43/51] fix: pulses sampled at whole number times are not
 truncated

---
 CommDspy/channel/pulse_shaping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index fd2f534..ac38d6b 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -65,7 +65,7 @@ def rect_pulse(osr, span, t=None):
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
-    pulse = np.zeros_like(t)
+    pulse = np.zeros_like(t, dtype=float)
     pulse[np.all([0.5 > t, t >= -0.5], axis=0)] = 1
     return pulse
 
@@ -99,7 +99,7 @@ def rcos_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
-    pulse = np.zeros_like(t)
+    pulse = np.zeros_like(t, dtype=float)
     if not np.all(neqb):
         pulse[~neqb] = np.pi/4 * np.sinc(1/(2*beta))
     pulse[neqb] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
@@ -125,7 +125,7 @@ def rrc_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
-    pulse = np.zeros_like(t)
+    pulse = np.zeros_like(t, dtype=float)
     pulse[~neq0] = 1 + beta * (4/np.pi - 1)
     pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta)))
     pulse[neqb & neq0] = 4 * beta / np.pi * (np.cos((1 + beta) * np.pi * t[neqb & neq0]) + (np.sin((1 - beta)*np.pi*t[neqb & neq0]) / (4*beta*t[neqb & neq0]))) / (1 - (4*beta*t[neqb & neq0])**2)
-- 
2.43.0


From 8527c80dc5af8d6ef317ff2489c24a4a10ea1afd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:27:33 +0000
Subject: [PATCH 44/51] fix: Lagrange delay coefficients of high orders do not
 overflow

---
 CommDspy/digital_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 2f8e547..933cc6c 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -43,7 +43,7 @@ def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     # Creating the nominator component vector and the denominator component matrix
     # ==================================================================================================================
     nom_mat = np.tile(alpha - ii_vec, [len(ii_vec), 1])
-    den_mat = ii_vec - ii_vec[:, None]
+    den_mat = (ii_vec - ii_vec[:, None]).astype(float)  # integer products overflow for high orders
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-- 
2.43.0


From 73f8468b2eff902f7c492b1ee9d3b8abe8296e74 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:27:33 +0000
Subject: [PATCH 45/51] fix: trellis does not depend on the order of the
 generator dictionary

---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 2665991..b385b9f 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -60,7 +60,7 @@ class Trellis:
         # ==============================================================================================================
         memory = []  # hold the number of memory registers in the coding scheme
         constraint_len = 0
-        for ii in G:
+        for ii in range(self.n_in):  # the order in which the dictionary was filled is of no meaning
             memory.append(G[ii].shape[1] - 1)
             if G[ii].shape[1] > constraint_len:
                 constraint_len = G[ii].shape[1]
-- 
2.43.0


From e5d9413d9af702ea1c9d8bdc0946e611882c55a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:40 +0000
Subject: [PATCH 46/51] fix: buffer keeps the values of lists with mixed number
 types

---
 CommDspy/auxiliary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 93c7b9c..b2902a7 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -109,7 +109,7 @@ def buffer(signal, length, overlap=0, delay=0, clip=False):
     # Extracting the wanted columns - overlaps of 0 means jumps of "length"
     # ==================================================================================================================
     rows = np.arange(0, full_len, stride)
-    matrix = hankel_mat[rows, :].astype(type(signal[0]))
+    matrix = hankel_mat[rows, :].astype(np.asarray(signal).dtype)
     # ==================================================================================================================
     # Clipping if needed
     # ==================================================================================================================
-- 
2.43.0


From 2ce6c4db877f616f7306a614a5161e174e0e020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:01 +0000
Subject: [PATCH 47/51] fix: LMS gradients and timing step of narrow integer
 signals do not overflow

---
 CommDspy/rx/clock_data_recovery.py | 1 +
 CommDspy/rx/least_mean_squares.py  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/rx/clock_data_recovery.py b/CommDspy/rx/clock_data_recovery.py
index dbfb80f..92af5bc 100644
--- a/CommDspy/rx/clock_data_recovery.py
+++ b/CommDspy/rx/clock_data_recovery.py
@@ -18,6 +18,7 @@ def mueller_muller_step(signal_chunk, reference_signal, pre_weight=1, post_weigh
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    reference_signal = reference_signal.astype(np.result_type(reference_signal, float))  # narrow types can not hold the correlation
     reference_pre  = reference_signal[1:]
     reference_post = reference_signal[:-1]
     # ==================================================================================================================
diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index a980318..8f683a3 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -57,7 +57,7 @@ def ddlms_grad(input_vec, output_vec, levels, ffe_tap_idx=np.array([]), dfe_tap_
     # ==================================================================================================================
     # Computing the MSE
     # ==================================================================================================================
-    e_n = output_vec - reference_vec
+    e_n = np.asarray(output_vec, dtype=np.result_type(np.asarray(output_vec), float)) - reference_vec  # narrow types can not hold the error
     mse = np.mean(e_n**2)
     # ==================================================================================================================
     # Computing the FFE + DFE derivatives
-- 
2.43.0


From 33d4e2e0f14cf08fa675da346ca4aa8397bb31d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 48/51] fix: Manchester coders accept boolean and float bit
 patterns

---
 CommDspy/tx/coding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index 2e7786d..54c9e76 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -70,7 +70,7 @@ def coding_manchester(pattern):
     # Encoding
     # ==================================================================================================================
     coding_list  = np.array([[0, 1], [1, 0]])
-    coded_pattern = np.reshape(coding_list[pattern], -1)
+    coded_pattern = np.reshape(coding_list[pattern.astype(int)], -1)  # boolean arrays would select, not index
 
     return np.reshape(np.array(coded_pattern), new_pattern_shape)
 
@@ -147,7 +147,7 @@ def coding_differential_manchester(pattern):
     # ==================================================================================================================
     coding_list   = np.array([[[0, 0], [0, 1]],
                               [[1, 1], [1, 0]]])
-    pattern_flat  = 1 - np.reshape(pattern, -1)
+    pattern_flat  = 1 - np.reshape(pattern, -1).astype(int)
     idx_shift     = np.cumsum(np.concatenate([np.array([0]),pattern_flat[:-1]])) # if pattern_flat[0] == 0 else np.cumsum(pattern_flat)
     idx_vec       = (np.arange(0, len(pattern_flat)) + idx_shift) % 2
     ceded_pattern = coding_list[idx_vec, pattern_flat]
-- 
2.43.0


From 9033155d28ad7073a5bb1c3cbc933fae3abd0fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:48 +0000
Subject: [PATCH 49/51] fix: prbs_gen returned a seed sharing its memory with
 the generated bits (or with the given seed)

---
 CommDspy/tx/prbs_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/tx/prbs_generator.py b/CommDspy/tx/prbs_generator.py
index e225c38..6316c75 100644
--- a/CommDspy/tx/prbs_generator.py
+++ b/CommDspy/tx/prbs_generator.py
@@ -35,4 +35,4 @@ def prbs_generator(poly_coeff, init_seed, output_length):
     # ==================================================================================================================
     sequence = multiple_bin[:output_length]
     seed = np.flip(sequence[-1*poly_size:]) if output_length >= len(seed) else seed
-    return sequence, seed
+    return sequence, np.array(seed)
-- 
2.43.0


From 58de658ce121541b0a6e8b8f6c78e313ec3a4945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:48 +0000
Subject: [PATCH 50/51] fix: coding_gray of two level constellations returned
 the given array itself instead of a new one

---
 CommDspy/tx/coding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index 54c9e76..44efd23 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -26,7 +26,7 @@ def coding_gray(pattern, constellation=ConstellationEnum.PAM4):
         levels = get_gray_level_vec(level_num)
         return levels[pattern]
     else:
-        return pattern
+        return np.array(pattern)
 
 def coding_differential(pattern, constellation=ConstellationEnum.PAM4):
     """
-- 
2.43.0


From 47128f63ce8522f35e5ca233d5b28dfd41c5057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 51/51] fix: Filter and FilterTII keep the imaginary part when
 only the memory or the coefficients are complex

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index 1f37f86..e506dd2 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -49,7 +49,7 @@ class Filter:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(np.asarray(data_chunk), float))
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(float, *map(np.asarray, (data_chunk, self.b, self.a, self._z_fir, self._z_iir))))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
@@ -131,7 +131,7 @@ class FilterTII:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(np.asarray(data_chunk), float))
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(float, *map(np.asarray, (data_chunk, self.b, self.a, self._z))))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
-- 
2.43.0

