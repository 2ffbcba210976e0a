From 6bb8b3c896d35637d9bb531a975649f435a38ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 01/25] fix: dipole_k: use the computed component code for
 angle factor and 1/offset

---
 empymod/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 81c0b17..09cd5dd 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1439,7 +1439,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
 
     # Get angle-dependent factor
     off, angle = get_off_ang(src, rec, nsrc, nrec, verb)
-    ang_fact = kernel.angle_factor(angle, ab, msrc, mrec)
+    ang_fact = kernel.angle_factor(angle, ab_calc, msrc, mrec)
 
     # Get layer number in which src and rec reside (lsrc/lrec)
     lsrc, zsrc = get_layer_nr(src, depth)
@@ -1473,7 +1473,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
         # Collect output
         if J1 is not None:
             PJ1 += ang_fact[:, np.newaxis]*J1
-            if ab in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
+            if ab_calc in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
                 # J2(kr) = 2/(kr)*J1(kr) - J0(kr)
                 PJ1 /= off[:, None]
         if J0 is not None:
-- 
2.43.0


From c98c21bd48b80ef92be675027cb569cc1a79ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 02/25] fix: gpr: apply no gain if gain is None (the default)

---
 empymod/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 09cd5dd..ca63aba 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1280,8 +1280,9 @@ def gpr(src, rec, depth, res, freqtime, cf, gain=None, ab=11, aniso=None,
     # In case of QWE/QUAD, print Warning if not converged
     conv_warning(conv, ftarg, 'Fourier', verb)
 
-    # Apply gain; make pure real
-    EM *= (1 + np.abs((time*10**9)**gain))[:, None]
+    # Apply gain (if provided); make pure real
+    if gain is not None:
+        EM *= (1 + np.abs((time*10**9)**gain))[:, None]
     EM = EM.real
 
     # Reshape for number of sources
-- 
2.43.0


From bba958a1a2aed58f8efe61d44782cacc999bf754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 03/25] fix: check_hankel: refuse strings that are merely
 contained in 'quad'

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 74cc87e..f41dcc9 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -657,7 +657,7 @@ def check_hankel(ht, htarg, verb):
             if targ['limit']:
                 print(f"     > limit (quad):  {targ['limit']}")
 
-    elif ht in 'quad':  # QUAD
+    elif ht == 'quad':  # QUAD
 
         # rtol : 1e-12
         targ['rtol'] = _check_var(
-- 
2.43.0


From 466063326408ba7a8ac72fb979754c1cb8335717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 04/25] fix: bipole: apply negative source strengths
 (documented: if != 0)

---
 empymod/model.py | 2 +-
 empymod/utils.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index ca63aba..5057087 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -606,7 +606,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
 
             # Scale signal for src-strength and src/rec-lengths
             src_rec_w = 1
-            if strength > 0:
+            if strength != 0:
                 src_rec_w *= np.repeat(src_w, irec)
                 src_rec_w *= np.tile(rec_w, isrc)
             sEM *= src_rec_w
diff --git a/empymod/utils.py b/empymod/utils.py
index f41dcc9..50ce6f0 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1859,9 +1859,9 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
         # If dipole, g_w are ones
         g_w = np.ones(tinp[0].size)
 
-        # If dipole, inp_w are ones, unless strength > 0
+        # If dipole, inp_w are ones, unless strength != 0
         inp_w = np.ones(tinp[0].size)
-        if name == 'src' and strength > 0:
+        if name == 'src' and strength != 0:
             inp_w *= strength
 
         # Collect output
@@ -1918,7 +1918,7 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
 
         # Scaling
         inp_w = np.ones(dl.size)
-        if strength > 0:  # If strength > 0, we scale it by dipole-length
+        if strength != 0:  # If strength != 0, we scale by dipole-length
             inp_w *= dl
             if name == 'src':  # If source, additionally by source strength
                 inp_w *= strength
-- 
2.43.0


From 72c5dda7aab5b44d29fb7bc6ac2871c615ab0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 05/25] fix: fourier_fftlog: do not modify the input field

---
 empymod/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4235f51..259b476 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -699,7 +699,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     if mu > 0:  # Sine
         a = -fEM.imag
     else:       # Cosine
-        a = fEM.real
+        a = fEM.real.copy()  # Copy, as it is modified in-place below
     n = a.size
 
     # 1. Amplitude and Argument of kr^(-2 i y) U_mu(q + 2 i y)
-- 
2.43.0


From 42266de7eef93101aa37d5afdb3ae46ac0649e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 06/25] fix: qwe: do not modify the input array

---
 empymod/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 259b476..9f2c91b 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1066,7 +1066,7 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
     if hasattr(inp, '__call__'):  # Hankel and not spline
         EM0 = inp(0, lambd, off, ang_fact)
     else:                         # Fourier or Hankel with spline
-        EM0 = inp[:, 0]
+        EM0 = inp[:, 0].copy()
     EM0 *= getweights(0, intervals)
 
     # 2. Pre-allocate arrays and initialize
-- 
2.43.0


From 93f5ac66a5cb08504d2ae822c240feac277010e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 07/25] fix: analytical: accept lists of frequencies for the
 diffusive solutions

---
 empymod/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 5057087..3972776 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1157,7 +1157,7 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
     if solution[0] == 'd':
         # To make it work with Laplace domain calculations.
         if signal is None:
-            if np.any(freqtime > 0):
+            if np.any(np.asarray(freqtime) > 0):
                 freqtime = 2j*np.pi*freq
             else:
                 freqtime = freq
-- 
2.43.0


From ecb01843e9746a0eb1b6e7be1c06d59018254df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 08/25] fix: fullspace: magnetic-magnetic fields in the Laplace
 domain and for epermH=0

---
 empymod/kernel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index df13c48..4e75133 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -831,11 +831,11 @@ def fullspace(off, angle, zsrc, zrec, etaH, etaV, zetaH, zetaV, ab, msrc,
 
         term3 = -zetaH[:, None]*coo1*coo2/(off*off)*(uGamTM - uGamTE)
 
-        term4 = -np.sqrt(zetaH)[:, None]*(2*coo1*coo2/(off*off) - delta)
-        if np.any(zetaH.imag < 0):  # We need the sqrt where Im > 0.
-            term4 *= -1     # This if-statement corrects for it.
+        # sqrt(zetaH/etaH) as sqrt(zetaH*etaH)/etaH; the sign is then right for
+        # switched eta/zeta (magnetic-magnetic) and in the Laplace domain.
+        term4 = -np.sqrt(zetaH*etaH)[:, None]*(2*coo1*coo2/(off*off) - delta)
         term4 *= np.exp(-lGamTM[:, None]*RTM) - np.exp(-lGamTE[:, None]*RTE)
-        term4 /= 4*np.pi*np.sqrt(etaH)[:, None]*off*off
+        term4 /= 4*np.pi*etaH[:, None]*off*off
 
         gin = term1 + term2 + term3 + term4
 
-- 
2.43.0


From c790569e94e4d5bfaa3d39fd75c127b2bfff2e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 09/25] fix: _strvar: print arrays of any dimension

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 50ce6f0..2c9b3f8 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -2164,7 +2164,7 @@ def _check_var(var, dtype, ndmin, name, shape=None, shape2=None):
 
 def _strvar(a, prec='{:G}'):
     r"""Return variable as a string to print, with given precision."""
-    return ' '.join([prec.format(i) for i in np.atleast_1d(a)])
+    return ' '.join([prec.format(i) for i in np.ravel(a)])
 
 
 def _prnt_min_max_val(var, text, verb):
-- 
2.43.0


From d30e7c08231a2965ca76aeba9f3f9e7a5b5c103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 10/25] fix: fourier_qwe: sum the quadrature nodes of each
 interval

---
 empymod/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 9f2c91b..2c82f23 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -647,6 +647,8 @@ def fourier_qwe(fEM, time, freq, ftarg):
     # Carry out QWE for 'well-behaved' intervals
     if np.any(doqwe):
         sEM = tEM_int(np.log(Bx/time[doqwe, None]))*SS
+        # Sum the nodes of each interval
+        sEM = np.sum(np.reshape(sEM, (doqwe.sum(), nquad, -1), order='F'), 1)
         tEM[doqwe], _, tc = qwe(rtol, atol, maxint, sEM, intervals[doqwe, :])
         conv *= tc
 
-- 
2.43.0


From 09a27ee818778b040962336e5f16aaec73318070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 11/25] fix: hankel_qwe, hankel_quad: real-valued fields in the
 Laplace domain

---
 empymod/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 2c82f23..4fb00b4 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -416,6 +416,10 @@ def hankel_qwe(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
         fEM, kcount, conv = qwe(rtol, atol, maxint, getkernel, intervals,
                                 lambd, off, ang_fact)
 
+    # Real-valued in the Laplace domain
+    if np.isrealobj(etaH):
+        fEM = fEM.real
+
     return fEM, kcount, conv
 
 
@@ -498,6 +502,10 @@ def hankel_quad(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
                           off[i], ang_fact[i], iinp)
         conv *= tc
 
+    # Real-valued in the Laplace domain
+    if np.isrealobj(etaH):
+        fEM = fEM.real
+
     # Return the electromagnetic field
     # Second argument (1) is the kernel count, last argument is only for QWE.
     return fEM, 1, conv
-- 
2.43.0


From 4a7cc4289a3cf3e23975f788c26dd92bce2551c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 12/25] fix: tmtemod: parts measured from the top of the layer,
 not from z=0

---
 empymod/scripts/tmtemod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/tmtemod.py b/empymod/scripts/tmtemod.py
index 1c9a3b6..bab8177 100644
--- a/empymod/scripts/tmtemod.py
+++ b/empymod/scripts/tmtemod.py
@@ -537,7 +537,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTE[0] += npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTE[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*ddepth[lrec]))
     PTE[3] += npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # TM modes TM[uu, ud, du, dd]
@@ -545,7 +545,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTM[0] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTM[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*ddepth[lrec]))
     PTM[3] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # 3.5 Reshape for number of sources
-- 
2.43.0


From 5a3e0c4fbe8152310210e711b6cde4fff3c6f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 13/25] fix: __main__: decide on the parsed arguments, not on
 sys.argv

---
 empymod/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/__main__.py b/empymod/__main__.py
index 3a60842..6d76eb4 100644
--- a/empymod/__main__.py
+++ b/empymod/__main__.py
@@ -90,7 +90,7 @@ def main(args=None):
         print(utils.Report())
 
     # Info if not at list routine and input provided.
-    elif len(sys.argv) < 3:
+    elif args_dict['routine'] is None or args_dict['input'] is None:
         print(f"{parser.description}\n=> Type `empymod --help` for "
               f"more info (empymod v{utils.__version__}).")
 
-- 
2.43.0


From 8f2dbef39fbad708f1a87d79a19b5f611c9d31f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 14/25] fix: load_data: keep infinite parts of complex data
 (json)

---
 empymod/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index 1a73d2b..c2f49fd 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -244,7 +244,7 @@ def load_data(fname):
         # If complex, re-create complex data.
         data = np.array(inpdat['data'])
         if 'complex' in inpdat['dtype']:
-            data = data[0, ...] + 1j*data[1, ...]
+            data = np.moveaxis(data, 0, -1).copy().view(complex)[..., 0]
 
     # Unknown, throw error
     else:
-- 
2.43.0


From 98145849e56f0eb8d4c69438f49805afa4a6276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 15/25] fix: analytical: ignore displacement currents in the
 diffusive solutions

---
 empymod/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/empymod/model.py b/empymod/model.py
index 3972776..f975331 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1123,6 +1123,10 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
                         verb)
     depth, res, aniso, epermH, epermV, mpermH, mpermV, _ = model
 
+    # Displacement currents are ignored for the diffusive solutions
+    if solution[:1] == 'd':
+        epermH, epermV = 0*epermH, 0*epermV
+
     # Check frequency => get etaH, etaV, zetaH, and zetaV
     frequency = check_frequency(freqtime, res, aniso, epermH, epermV, mpermH,
                                 mpermV, verb)
-- 
2.43.0


From a03c5c1d795897f69407d66ec11f0f64f599dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 16/25] fix: check_time_only: refuse non-integer signals
 instead of truncating them

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 2c9b3f8..41d4eb1 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1329,7 +1329,7 @@ def check_time_only(time, signal, verb, new=False):
         if verb > 2:
             print(f"   signal          :  {signal['signal']}")
 
-    elif int(signal) not in [-1, 0, 1]:
+    elif signal not in [-1, 0, 1]:
         raise ValueError("<signal> must be one of: [None, -1, 0, 1, dict]; "
                          f"<signal> provided: {signal}")
     elif verb > 2:
-- 
2.43.0


From e5c14d2fd1e493d429a559586d06d02f65d8726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 17/25] fix: check_waveform: refuse unknown signals

---
 empymod/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/empymod/utils.py b/empymod/utils.py
index 41d4eb1..048ae5b 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1393,6 +1393,11 @@ def check_waveform(time, nodes, amplitudes, verb, signal=0, nquad=3):
     """
     global _min_time
 
+    # Check signal
+    if signal not in [-1, 0, 1]:
+        raise ValueError("<signal> must be one of: [-1, 0, 1]; "
+                         f"<signal> provided: {signal}")
+
     # Waveform segments.
     dt = np.diff(nodes)
     dI = np.diff(amplitudes)
-- 
2.43.0


From 573135254fae0cd88522079dc629a2c70553eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 18/25] fix: check_waveform: refuse amplitudes that do not
 match the nodes

---
 empymod/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/utils.py b/empymod/utils.py
index 048ae5b..e0efca2 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1399,6 +1399,7 @@ def check_waveform(time, nodes, amplitudes, verb, signal=0, nquad=3):
                          f"<signal> provided: {signal}")
 
     # Waveform segments.
+    _check_shape(amplitudes, 'amplitudes', np.shape(nodes))
     dt = np.diff(nodes)
     dI = np.diff(amplitudes)
     dIdt = dI/dt
-- 
2.43.0


From f7f03abd315612cccc8ecc34a1a95dd5b1143097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 19/25] fix: dlf: lagged and splined variants without angle
 factors

---
 empymod/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4fb00b4..0ae7866 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -886,6 +886,7 @@ def dlf(signal, points, out_pts, filt, pts_per_dec, kind=None, ang_fact=None,
         # Check if all angles are the same
         if ang_fact is None:
             has_angle_factors = False
+            one_angle = True
         else:
             one_angle = ang_fact.min() == ang_fact.max()
             if one_angle:
-- 
2.43.0


From b17e889d334207d40fc976dc30a629709472d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 20/25] fix: ip_and_q: co-planar primary field also if ab is
 given as string

---
 empymod/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/model.py b/empymod/model.py
index f975331..46426d0 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1572,6 +1572,7 @@ def ip_and_q(**kwargs):
 
     # Primary magnetic field
     new = copy.deepcopy(kwargs)
+    new['ab'] = int(new['ab'])
 
     # For the primary field, use the co-planar field of source configuration.
     if new['ab'] in [44, 54, 64]:
-- 
2.43.0


From c3d73ee19966fd59dda7bbad12be5653bd16c91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 21/25] fix: quad: do not modify the dict with the options of
 the caller

---
 empymod/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 0ae7866..d7b6f99 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1176,7 +1176,7 @@ def quad(sPJ0r, sPJ0i, sPJ1r, sPJ1i, sPJ0br, sPJ0bi, ab, off, ang_fact, iinp):
     out = np.array(0.0+0.0j)
 
     # Carry out quadrature for required kernels
-    iinp['full_output'] = 1
+    iinp = {**iinp, 'full_output': 1}
 
     if sPJ0r is not None:
         re = sp.integrate.quad(quad_PJ0, args=(sPJ0r, off), **iinp)
-- 
2.43.0


From b1ab42854470fbb27309976cbf52811538fe4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 22/25] fix: get_kwargs: do not remove the parameters from the
 dict of the caller

---
 empymod/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/empymod/utils.py b/empymod/utils.py
index e0efca2..ec03a5e 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -2024,6 +2024,9 @@ def get_kwargs(names, defaults, kwargs):
         'msrc', 'srcpts', 'mrec', 'recpts', 'strength', 'squeeze', 'bandpass',
     ])
 
+    # Work on a copy, the wanted parameters are removed from it.
+    kwargs = dict(kwargs)
+
     # Loop over wanted parameters.
     out = list()
     verb = 2  # get_kwargs-internal default.
-- 
2.43.0


From babe3d640dc99d82d179f02fb55bf33976da8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 23/25] fix: qwe: converged elements carry the estimate their
 tolerances were met for (zero at the first check before)

---
 empymod/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index d7b6f99..0abe928 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1121,12 +1121,12 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
             relErr[om, i-1] = np.abs(rErr)
             abserr = atol/np.abs(extrap[om, i-1])
 
-            # Update booleans
-            om[om] *= relErr[om, i-1] >= rtol + abserr
-
             # Store in EM
             EM[om] = extrap[om, i-1]
 
+            # Update booleans
+            om[om] *= relErr[om, i-1] >= rtol + abserr
+
         if (~om).all():
             break
 
-- 
2.43.0


From 4ab3422b1741511d119d8e58085896ca8244abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 24/25] fix: halfspace: sign of the TE part straight above or
 below the source

---
 empymod/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index 4e75133..22f92fc 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -1112,8 +1112,8 @@ def halfspace(off, angle, zsrc, zrec, etaH, etaV, freqtime, ab, signal,
         # TE-mode for numerical singularities rh=0 (hm!=0)
         g1m[izr*iih] = np.zeros(np.shape(g1m[izr*iih]), dtype=dtype)
         g1p[izr*iih] = -np.sqrt(mu_0*res)*delta/(2*np.pi*hp**2)
-        g2m[izr*iih] = mu_0*delta/(8*np.pi*hm)
-        g2p[izr*iih] = mu_0*delta/(8*np.pi*hp)
+        g2m[izr*iih] = -mu_0*delta/(8*np.pi*hm)
+        g2p[izr*iih] = -mu_0*delta/(8*np.pi*hp)
 
         # Bessel functions for airwave
         def BI(gamH, hp, nr, xim):
-- 
2.43.0


From 14c9e3d31195a7418502d85e969e25a0df29862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 25/25] fix: halfspace: impulse of the airwave straight above
 or below the source is not NaN

---
 empymod/kernel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index 22f92fc..78b0bbe 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -1182,7 +1182,9 @@ def halfspace(off, angle, zsrc, zrec, etaH, etaV, freqtime, ab, signal,
             thp = mu_0*hp**2/(4*res)
             trh = mu_0*rh**2/(8*res)
             P1 = (mu_0**2*hp*np.exp(-thp/time))/(res*32*np.pi*time**3)
-            P2 = 2*(delta - (x*y)/rh**2)*sp.special.ive(1, trh/time)
+            xyrh = np.zeros(np.shape(x), dtype=dtype)  # Remains 0 for rh=0
+            xyrh[iir] = x[iir]*y[iir]/rh[iir]**2       # (where I_1=0).
+            P2 = 2*(delta - xyrh)*sp.special.ive(1, trh/time)
             P3 = mu_0/(2*res*time)*(rh**2*delta - x*y)-delta
             P4 = sp.special.ive(0, trh/time) - sp.special.ive(1, trh/time)
 
-- 
2.43.0

