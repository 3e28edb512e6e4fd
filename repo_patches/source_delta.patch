From 81e1046f43a1b685f965cf5713471f15f654c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 01/31] fix: static field in switch-off of analytical
 half-space solution

The static field was approximated with the switch-on response at 1e4 s, which
is not the static limit for conductive models or large offsets, and yields
wrong decays at late times.
---
 empymod/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index df13c48..8b67ba8 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -961,7 +961,7 @@ def halfspace(off, angle, zsrc, zrec, etaH, etaV, freqtime, ab, signal,
     else:
         time = freqtime
         if signal == -1:  # Calculate DC
-            time = np.r_[time[:, 0], 1e4][:, None]
+            time = np.r_[time[:, 0], 1e20][:, None]
             freqtime = time
         dtype = np.float64
 
-- 
2.43.0


From df63e45af468dc427286ffbc0c78f468d5c93aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 02/31] fix: diffusive analytical solutions ignore electric
 permittivity

As documented; before, the resistivity used for the whole batch was affected
by the displacement currents at the first frequency.
---
 empymod/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/empymod/model.py b/empymod/model.py
index 81c0b17..71cd575 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1123,6 +1123,10 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
                         verb)
     depth, res, aniso, epermH, epermV, mpermH, mpermV, _ = model
 
+    # The diffusive solutions ignore electric permittivity
+    if solution in ['dfs', 'dhs', 'dsplit', 'dtetm']:
+        epermH, epermV = epermH*0, epermV*0
+
     # Check frequency => get etaH, etaV, zetaH, and zetaV
     frequency = check_frequency(freqtime, res, aniso, epermH, epermV, mpermH,
                                 mpermV, verb)
-- 
2.43.0


From c168abb26bcfe2f31b6288bd21ad030e83318935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 03/31] fix: Laplace-domain responses with QWE and QUAD

The transforms returned complex values, which raised a casting error.
---
 empymod/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4235f51..9114d80 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -416,6 +416,10 @@ def hankel_qwe(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
         fEM, kcount, conv = qwe(rtol, atol, maxint, getkernel, intervals,
                                 lambd, off, ang_fact)
 
+    # Laplace-domain responses are real
+    if np.isrealobj(etaH):
+        fEM = fEM.real
+
     return fEM, kcount, conv
 
 
@@ -498,6 +502,10 @@ def hankel_quad(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
                           off[i], ang_fact[i], iinp)
         conv *= tc
 
+    # Laplace-domain responses are real
+    if np.isrealobj(etaH):
+        fEM = fEM.real
+
     # Return the electromagnetic field
     # Second argument (1) is the kernel count, last argument is only for QWE.
     return fEM, 1, conv
-- 
2.43.0


From f5943e8fbc1284d935e5f59789b4d7a9090ad35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:46 +0000
Subject: [PATCH 04/31] fix: analytical MM full-space field without
 displacement currents

The root of the switched, negative parameters was on the wrong branch if the
electric permittivity is zero, and NaN in the Laplace domain.
---
 empymod/kernel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index 8b67ba8..e494722 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -831,11 +831,11 @@ def fullspace(off, angle, zsrc, zrec, etaH, etaV, zetaH, zetaV, ab, msrc,
 
         term3 = -zetaH[:, None]*coo1*coo2/(off*off)*(uGamTM - uGamTE)
 
-        term4 = -np.sqrt(zetaH)[:, None]*(2*coo1*coo2/(off*off) - delta)
-        if np.any(zetaH.imag < 0):  # We need the sqrt where Im > 0.
-            term4 *= -1     # This if-statement corrects for it.
+        # Root of the product, as both parameters are negative for MM.
+        term4 = -(zetaH/np.sqrt(zetaH*etaH))[:, None]
+        term4 = term4*(2*coo1*coo2/(off*off) - delta)
         term4 *= np.exp(-lGamTM[:, None]*RTM) - np.exp(-lGamTE[:, None]*RTE)
-        term4 /= 4*np.pi*np.sqrt(etaH)[:, None]*off*off
+        term4 /= 4*np.pi*off*off
 
         gin = term1 + term2 + term3 + term4
 
-- 
2.43.0


From a027b3eba8f8c66adc1ff481ef5d4c86101ec740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 05/31] fix: QWE returned the second last instead of the
 converged result

The result was stored after the converged entries were removed; hence the
second last extrapolation was returned, and zero if it converged with the
first comparison (steep decays).
---
 empymod/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 9114d80..ef42b91 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1118,12 +1118,12 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
             relErr[om, i-1] = np.abs(rErr)
             abserr = atol/np.abs(extrap[om, i-1])
 
-            # Update booleans
-            om[om] *= relErr[om, i-1] >= rtol + abserr
-
             # Store in EM
             EM[om] = extrap[om, i-1]
 
+            # Update booleans
+            om[om] *= relErr[om, i-1] >= rtol + abserr
+
         if (~om).all():
             break
 
-- 
2.43.0


From d09650683f91210c7a95b9a0f262fbb17cee8cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 06/31] fix: FFTLog ignored the highest frequencies for odd and
 biased transforms

For an odd number of points the last pair of coefficients was not
transformed; for the biased transform (q != 0) with an even number of points
the last one was multiplied with the factor of another coefficient.
---
 empymod/transform.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index ef42b91..2b925a8 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -758,13 +758,14 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     a = sp.fftpack.rfft(a)
 
     # 4.b
-    m = np.arange(1, n//2, dtype=np.int64)  # index variable
+    m = np.arange(1, (n + 1)//2, dtype=np.int64)  # index variable
+    im = m - 1  # corresponding elements of argcos, argsin, and argamp
     if q == 0:  # unbiased (q = 0) transform
         # multiply by (kr)^[- i 2 m pi/(n dlnr)] U_mu[i 2 m pi/(n dlnr)]
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[im] - ai*argsin[im]
+        a[2*m] = ar*argsin[im] + ai*argcos[im]
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
             ar = argcos[-1]
@@ -775,17 +776,16 @@ def fourier_fftlog(fEM, time, freq, ftarg):
         # phase
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[im] - ai*argsin[im]
+        a[2*m] = ar*argsin[im] + ai*argcos[im]
 
         a[0] *= argcos1
-        a[2*m-1] *= argamp[:-1]
-        a[2*m] *= argamp[:-1]
+        a[2*m-1] *= argamp[im]
+        a[2*m] *= argamp[im]
 
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
-            m = int(n/2)-3
-            ar = argcos[m-1]*argamp[m-1]
+            ar = argcos[-1]*argamp[-1]
             a[-1] *= ar
 
     # 4.c normal FFT back
-- 
2.43.0


From 73dee14a0f641d81965f7d210027aac2250be9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 07/31] fix: FFTLog changed the provided frequency-domain data
 (cosine)

---
 empymod/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 2b925a8..cd92597 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -750,7 +750,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     j = np.arange(n)+1
 
     # 3. a(r) = A(r) (r/rc)^[-dir*(q-.5)]
-    a *= np.exp(-(q - 0.5)*(j - jc)*dlnr)
+    a = a*np.exp(-(q - 0.5)*(j - jc)*dlnr)
 
     # 4. transform a(r) -> ã(k)
 
-- 
2.43.0


From 49b3c9e9b78961bef44a9eeeb373f6572e2982a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 08/31] fix: FFTLog used fewer points per decade than requested

The number of decades was truncated to an integer (because of rounding errors
at times even by one decade for a single time).
---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 74cc87e..09fde76 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1191,7 +1191,7 @@ def check_time(time, signal, ft, ftarg, verb, new=False):
         # Calculate minimum and maximum required frequency
         minf = np.log10(1/time.max()) + targ['add_dec'][0]
         maxf = np.log10(1/time.min()) + targ['add_dec'][1]
-        n = np.int64(maxf - minf)*targ['pts_per_dec']
+        n = np.int64(np.round((maxf - minf)*targ['pts_per_dec']))
 
         # Initialize FFTLog, get required parameters
         freq, tcalc, dlnr, kr, rk = transform.get_fftlog_input(
-- 
2.43.0


From 648f918e1596f11dcacb4b027d23c8ee4c366754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 09/31] fix: negative source strength was silently ignored

---
 empymod/model.py | 2 +-
 empymod/utils.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 71cd575..c456ad9 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -606,7 +606,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
 
             # Scale signal for src-strength and src/rec-lengths
             src_rec_w = 1
-            if strength > 0:
+            if strength != 0:
                 src_rec_w *= np.repeat(src_w, irec)
                 src_rec_w *= np.tile(rec_w, isrc)
             sEM *= src_rec_w
diff --git a/empymod/utils.py b/empymod/utils.py
index 09fde76..55d76f6 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1861,7 +1861,7 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
 
         # If dipole, inp_w are ones, unless strength > 0
         inp_w = np.ones(tinp[0].size)
-        if name == 'src' and strength > 0:
+        if name == 'src' and strength != 0:
             inp_w *= strength
 
         # Collect output
@@ -1918,7 +1918,7 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
 
         # Scaling
         inp_w = np.ones(dl.size)
-        if strength > 0:  # If strength > 0, we scale it by dipole-length
+        if strength != 0:  # If strength != 0, we scale it by dipole-length
             inp_w *= dl
             if name == 'src':  # If source, additionally by source strength
                 inp_w *= strength
-- 
2.43.0


From df2979ceba2dd27a01c300ff315d7d277367718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 10/31] fix: fdesign.design changed the provided fC

---
 empymod/scripts/fdesign.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 8738c5f..c180d49 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -383,8 +383,8 @@ def design(n, spacing, shift, fI, fC=False, r=None, r_def=(1, 1, 2), reim=None,
             f = list(f)
         return f
 
-    if not fC:  # copy fI if fC not provided
-        fC = dc(fI)
+    # copy fI if fC not provided; copy fC too, as its rhs is replaced below
+    fC = dc(fC) if fC else dc(fI)
     fI = check_f(fI)
     if fI[0].name == 'j2':
         raise ValueError("j2 (jointly j0 and j1) is only implemented for "
-- 
2.43.0


From f382387f93445baa1c15ccf56cdeb5e2af2689fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 11/31] fix: transform.qwe and transform.quad changed their
 inputs

---
 empymod/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index cd92597..071c69d 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1075,7 +1075,7 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
         EM0 = inp(0, lambd, off, ang_fact)
     else:                         # Fourier or Hankel with spline
         EM0 = inp[:, 0]
-    EM0 *= getweights(0, intervals)
+    EM0 = EM0*getweights(0, intervals)
 
     # 2. Pre-allocate arrays and initialize
     EM = np.zeros(EM0.size, dtype=EM0.dtype)                # EM array
@@ -1173,7 +1173,7 @@ def quad(sPJ0r, sPJ0i, sPJ1r, sPJ1i, sPJ0br, sPJ0bi, ab, off, ang_fact, iinp):
     out = np.array(0.0+0.0j)
 
     # Carry out quadrature for required kernels
-    iinp['full_output'] = 1
+    iinp = {**iinp, 'full_output': 1}
 
     if sPJ0r is not None:
         re = sp.integrate.quad(quad_PJ0, args=(sPJ0r, off), **iinp)
-- 
2.43.0


From 6a163c9d54f2223dbebf2731f6b74d93c0e9a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 12/31] fix: analytical diffusive solutions with lists or
 tuples of frequencies

---
 empymod/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index c456ad9..daf3bc7 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1161,7 +1161,7 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
     if solution[0] == 'd':
         # To make it work with Laplace domain calculations.
         if signal is None:
-            if np.any(freqtime > 0):
+            if np.any(np.asarray(freqtime) > 0):
                 freqtime = 2j*np.pi*freq
             else:
                 freqtime = freq
-- 
2.43.0


From 11e1ea30666c01c4077626fd384a3940eb85c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 13/31] fix: load_data of complex json data with infinities and
 negative zeros

---
 empymod/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index 1a73d2b..73eb0ed 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -244,7 +244,10 @@ def load_data(fname):
         # If complex, re-create complex data.
         data = np.array(inpdat['data'])
         if 'complex' in inpdat['dtype']:
-            data = data[0, ...] + 1j*data[1, ...]
+            # (Not real + 1j*imag, which fails for non-finite values.)
+            real, imag = data
+            data = np.empty(real.shape, dtype=complex)
+            data.real, data.imag = real, imag
 
     # Unknown, throw error
     else:
-- 
2.43.0


From a296ccdf85a330d943cd326164b7a92805624f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 14/31] fix: save_input wrote invalid json for empty input

---
 empymod/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index 73eb0ed..3f4c4ef 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -68,7 +68,7 @@ def save_input(fname, data, **kwargs):
             out += "\n  "
             out += json.dumps({k: v}, cls=_ComplexNumPyEncoder)[1:-1]
             out += ","
-        out = out[:-1] + "\n}"
+        out = out.rstrip(",") + "\n}"
 
         # Write it to disk.
         with open(fname, "w") as f:
-- 
2.43.0


From 7826a8d9f827f304fc8c2d7863bcf5b11fe0a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 15/31] fix: CLI main ignored explicit arguments if sys.argv is
 short

---
 empymod/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/__main__.py b/empymod/__main__.py
index 3a60842..9d1262a 100644
--- a/empymod/__main__.py
+++ b/empymod/__main__.py
@@ -90,7 +90,7 @@ def main(args=None):
         print(utils.Report())
 
     # Info if not at list routine and input provided.
-    elif len(sys.argv) < 3:
+    elif args_dict['input'] is None:
         print(f"{parser.description}\n=> Type `empymod --help` for "
               f"more info (empymod v{utils.__version__}).")
 
-- 
2.43.0


From e73f949c6b44d95ac71ebd6344c376bb2997f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 16/31] fix: fdesign accepted filters which fail for one of
 several transforms

---
 empymod/scripts/fdesign.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index c180d49..079386a 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -1321,8 +1321,9 @@ def _get_min_val(spaceshift, *params):
         if i == 0:  # First run, store these values
             imin = dc(imin0)
             min_val = dc(min_val0)
-        else:  # Replace imin, min_val if this one is better
-            if min_val0 > min_val:
+        elif imin != 0:  # Replace imin, min_val if this one limits more; a
+            # filter which fails for one transform (imin=0) fails altogether.
+            if imin0 == 0 or min_val0 > min_val:
                 min_val = dc(min_val0)
                 imin = dc(imin0)
 
-- 
2.43.0


From f8f60b599809128d5ad44bf485b2ad24b28a5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 17/31] fix: factor of the inverse Fourier transform pairs in
 fdesign

---
 empymod/scripts/fdesign.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 079386a..a34fe14 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -1077,7 +1077,7 @@ def sin_1(a=1, inverse=False):
         return np.sqrt(np.pi)*b*np.exp(-b**2/(4*a**2))/(4*a**3)
 
     if inverse:
-        return Ghosh('sin', rhs, lhs)
+        return Ghosh('sin', rhs, lambda x: np.pi/2*lhs(x))
     else:
         return Ghosh('sin', lhs, rhs)
 
@@ -1093,7 +1093,7 @@ def sin_2(a=1, inverse=False):
         return b/(b**2 + a**2)
 
     if inverse:
-        return Ghosh('sin', rhs, lhs)
+        return Ghosh('sin', rhs, lambda x: np.pi/2*lhs(x))
     else:
         return Ghosh('sin', lhs, rhs)
 
@@ -1109,7 +1109,7 @@ def sin_3(a=1, inverse=False):
         return np.pi*np.exp(-a*b)/2
 
     if inverse:
-        return Ghosh('sin', rhs, lhs)
+        return Ghosh('sin', rhs, lambda x: np.pi/2*lhs(x))
     else:
         return Ghosh('sin', lhs, rhs)
 
@@ -1127,7 +1127,7 @@ def cos_1(a=1, inverse=False):
         return np.sqrt(np.pi)*np.exp(-b**2/(4*a**2))/(2*a)
 
     if inverse:
-        return Ghosh('cos', rhs, lhs)
+        return Ghosh('cos', rhs, lambda x: np.pi/2*lhs(x))
     else:
         return Ghosh('cos', lhs, rhs)
 
@@ -1143,7 +1143,7 @@ def cos_2(a=1, inverse=False):
         return a/(b**2 + a**2)
 
     if inverse:
-        return Ghosh('cos', rhs, lhs)
+        return Ghosh('cos', rhs, lambda x: np.pi/2*lhs(x))
     else:
         return Ghosh('cos', lhs, rhs)
 
@@ -1159,7 +1159,7 @@ def cos_3(a=1, inverse=False):
         return np.pi*np.exp(-a*b)/(2*a)
 
     if inverse:
-        return Ghosh('cos', rhs, lhs)
+        return Ghosh('cos', rhs, lambda x: np.pi/2*lhs(x))
     else:
         return Ghosh('cos', lhs, rhs)
 
-- 
2.43.0


From 9a952a55ad61f80c0daff2745ddad7530d86a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 18/31] fix: fdesign.load_filter failed for inversion outputs
 of a single shift

---
 empymod/scripts/fdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index a34fe14..ac5894f 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -557,7 +557,7 @@ def load_filter(name, full=False, path='filters', filter_coeff=None):
                                     '_full.txt' + suffix)
 
             # Read data
-            out = np.loadtxt(fullfile)
+            out = np.loadtxt(fullfile, ndmin=2)
 
         except IOError:
             return filt
-- 
2.43.0


From 5e00394d21ebde4de4f525366aeaa8dd094ddf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 19/31] fix: tmtemod corrected the downgoing parts as if the
 layer began at zero depth

---
 empymod/scripts/tmtemod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/tmtemod.py b/empymod/scripts/tmtemod.py
index 1c9a3b6..45f0698 100644
--- a/empymod/scripts/tmtemod.py
+++ b/empymod/scripts/tmtemod.py
@@ -537,7 +537,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTE[0] += npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTE[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*depth[lrec]))
     PTE[3] += npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # TM modes TM[uu, ud, du, dd]
@@ -545,7 +545,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTM[0] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTM[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*depth[lrec]))
     PTM[3] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # 3.5 Reshape for number of sources
-- 
2.43.0


From 23b1ea99b0d5ae98fb3fc677fee91401027d35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 20/31] fix: undefined signals and inconsistent waveforms were
 silently accepted

Signals such as 0.5 or '1', or any value in a waveform dictionary, and
waveforms with different numbers of nodes and amplitudes gave a
meaningless response.
---
 empymod/utils.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 55d76f6..3e9b0c6 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1329,11 +1329,10 @@ def check_time_only(time, signal, verb, new=False):
         if verb > 2:
             print(f"   signal          :  {signal['signal']}")
 
-    elif int(signal) not in [-1, 0, 1]:
-        raise ValueError("<signal> must be one of: [None, -1, 0, 1, dict]; "
-                         f"<signal> provided: {signal}")
-    elif verb > 2:
-        print(f"   signal          :  {signal}")
+    else:
+        _check_signal(signal)
+        if verb > 2:
+            print(f"   signal          :  {signal}")
 
     # Backwards compatible return.
     if new:
@@ -1393,6 +1392,11 @@ def check_waveform(time, nodes, amplitudes, verb, signal=0, nquad=3):
     """
     global _min_time
 
+    # Check nodes and amplitudes, and signal.
+    nodes = _check_var(nodes, float, 1, 'nodes')
+    amplitudes = _check_var(amplitudes, float, 1, 'amplitudes', nodes.shape)
+    _check_signal(signal)
+
     # Waveform segments.
     dt = np.diff(nodes)
     dI = np.diff(amplitudes)
@@ -2162,6 +2166,13 @@ def _check_var(var, dtype, ndmin, name, shape=None, shape2=None):
     return var
 
 
+def _check_signal(signal):
+    r"""Check signal (switch-off, impulse, switch-on)."""
+    if signal not in [-1, 0, 1]:
+        raise ValueError("<signal> must be one of: [None, -1, 0, 1, dict]; "
+                         f"<signal> provided: {signal}")
+
+
 def _strvar(a, prec='{:G}'):
     r"""Return variable as a string to print, with given precision."""
     return ' '.join([prec.format(i) for i in np.atleast_1d(a)])
-- 
2.43.0


From 7e275ea75776e09565d128a268c76911502566a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 21/31] fix: dipole_k: use internal ab for angle and J2 of
 magnetic receivers

---
 empymod/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index daf3bc7..27a7c14 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1443,7 +1443,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
 
     # Get angle-dependent factor
     off, angle = get_off_ang(src, rec, nsrc, nrec, verb)
-    ang_fact = kernel.angle_factor(angle, ab, msrc, mrec)
+    ang_fact = kernel.angle_factor(angle, ab_calc, msrc, mrec)
 
     # Get layer number in which src and rec reside (lsrc/lrec)
     lsrc, zsrc = get_layer_nr(src, depth)
@@ -1477,7 +1477,8 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
         # Collect output
         if J1 is not None:
             PJ1 += ang_fact[:, np.newaxis]*J1
-            if ab in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
+            # Because of J2
+            if ab_calc in [11, 12, 21, 22, 14, 24, 15, 25]:
                 # J2(kr) = 2/(kr)*J1(kr) - J0(kr)
                 PJ1 /= off[:, None]
         if J0 is not None:
-- 
2.43.0


From e2bb040d422cbc0209e5505865d7d1919c4de2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 22/31] fix: dipole_k, tmtemod: apply func_eta/func_zeta
 instead of ignoring them

---
 empymod/model.py           | 6 ++++++
 empymod/scripts/tmtemod.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/empymod/model.py b/empymod/model.py
index 27a7c14..fee4472 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1433,6 +1433,12 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
     f = check_frequency(freq, res, aniso, epermH, epermV, mpermH, mpermV, verb)
     freq, etaH, etaV, zetaH, zetaV = f
 
+    # Update etaH/etaV and zetaH/zetaV according to user-provided model
+    if isinstance(res, dict) and 'func_eta' in res:
+        etaH, etaV = res['func_eta'](res, locals())
+    if isinstance(res, dict) and 'func_zeta' in res:
+        zetaH, zetaV = res['func_zeta'](res, locals())
+
     # Check src-rec configuration
     # => Get flags if src or rec or both are magnetic (msrc, mrec)
     ab_calc, msrc, mrec = check_ab(ab, verb)
diff --git a/empymod/scripts/tmtemod.py b/empymod/scripts/tmtemod.py
index 45f0698..2d26539 100644
--- a/empymod/scripts/tmtemod.py
+++ b/empymod/scripts/tmtemod.py
@@ -442,6 +442,12 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
                                 mpermV, verb)
     freq, etaH, etaV, zetaH, zetaV = frequency
 
+    # Update etaH/etaV and zetaH/zetaV according to user-provided model
+    if isinstance(res, dict) and 'func_eta' in res:
+        etaH, etaV = res['func_eta'](res, locals())
+    if isinstance(res, dict) and 'func_zeta' in res:
+        zetaH, zetaV = res['func_zeta'](res, locals())
+
     # Check src and rec
     src, nsrc = check_dipole(src, 'src', verb)
     rec, nrec = check_dipole(rec, 'rec', verb)
-- 
2.43.0


From be20414024649a1ce07a08749c5c5f85ff11c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 23/31] fix: frequencies of the standard DLF were
 two-dimensional for user hooks

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 3e9b0c6..3903b50 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1080,7 +1080,7 @@ def check_time(time, signal, ft, ftarg, verb, new=False):
         # Get required frequencies
         omega, _ = transform.get_dlf_points(
                 targ['dlf'], time, targ['pts_per_dec'])
-        freq = np.squeeze(omega/2/np.pi)
+        freq = np.ravel(omega/2/np.pi)
 
     elif ft == 'qwe':     # QWE (using sine and imag-part)
         # If switch-off is required, use cosine, else sine
-- 
2.43.0


From 206d548123512cbbba256e92d2263772b079b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 24/31] fix: ip_and_q used the cross-component as primary field
 for ab given as str

---
 empymod/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/model.py b/empymod/model.py
index fee4472..7f10b85 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1580,6 +1580,7 @@ def ip_and_q(**kwargs):
     new = copy.deepcopy(kwargs)
 
     # For the primary field, use the co-planar field of source configuration.
+    new['ab'] = int(new['ab'])
     if new['ab'] in [44, 54, 64]:
         new['ab'] = 44
     elif new['ab'] in [45, 55, 65]:
-- 
2.43.0


From adeb3bd224f010fe3599cdaad18bdb3aba8d080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 25/31] fix: gpr failed without gain, its default

---
 empymod/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 7f10b85..9a29e85 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1285,7 +1285,8 @@ def gpr(src, rec, depth, res, freqtime, cf, gain=None, ab=11, aniso=None,
     conv_warning(conv, ftarg, 'Fourier', verb)
 
     # Apply gain; make pure real
-    EM *= (1 + np.abs((time*10**9)**gain))[:, None]
+    if gain is not None:
+        EM *= (1 + np.abs((time*10**9)**gain))[:, None]
     EM = EM.real
 
     # Reshape for number of sources
-- 
2.43.0


From 23e0474bdd68c6731f71361bcd955d76cb7e7c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 26/31] fix: bipoles failed if the minimum offset is set to
 zero

---
 empymod/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 3903b50..5f45261 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1928,10 +1928,12 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
                 inp_w *= strength
 
         # Collect output list; rounding coord. to same precision as min_off
-        rndco = int(np.round(np.log10(1/_min_off)))
-        tout = [np.round(xinp, rndco).ravel('F'),
-                np.round(yinp, rndco).ravel('F'),
-                np.round(zinp, rndco).ravel('F')]
+        if _min_off > 0:
+            rndco = int(np.round(np.log10(1/_min_off)))
+            xinp = np.round(xinp, rndco)
+            yinp = np.round(yinp, rndco)
+            zinp = np.round(zinp, rndco)
+        tout = [xinp.ravel('F'), yinp.ravel('F'), zinp.ravel('F')]
 
     # Print spatial parameters
     if verb > 2:
-- 
2.43.0


From bb8abd8b0936126a0a31afbc89af7af68289c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 27/31] fix: QWE with maxint=1 failed with an UnboundLocalError

---
 empymod/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 071c69d..ef37fd5 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1083,6 +1083,8 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
     S = np.zeros((EM0.size, maxint), dtype=EM0.dtype)  # Working arr. 4 recurs.
     relErr = np.zeros((EM0.size, maxint))                   # Relative error
     extrap = np.zeros((EM0.size, maxint), dtype=EM0.dtype)  # extrap. result
+    extrap[:, 0] = EM0      # In case there is only one interval
+    i = 0
     kcount = 1  # Initialize kernel count (only important for Hankel)
 
     # 3. The extrapolation transformation loop
-- 
2.43.0


From cbc3101831b05d1690fc188860f00167063606f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 28/31] fix: diff_quad of the Fourier QWE was truncated to an
 integer

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 5f45261..6139725 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1114,7 +1114,7 @@ def check_time(time, signal, ft, ftarg, verb, new=False):
 
         # diff_quad : 100
         targ['diff_quad'] = _check_var(
-                args.pop('diff_quad', 100), int, 0, 'qwe: diff_quad', ())
+                args.pop('diff_quad', 100), float, 0, 'qwe: diff_quad', ())
 
         # a : None
         targ['a'] = args.pop('a', None)
-- 
2.43.0


From ecd296684c54c8a9b5b600e173119842fe34c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 29/31] fix: msrc and mrec failed if given as NumPy bool

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 6139725..a6efcc4 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -278,7 +278,7 @@ def check_bipole(inp, name, mx=None, verb=1):
                 ptype = 'Magnetic flux'
             else:
                 mx, xtype = mx, None
-                ptype = ['Electric', 'Magnetic'][mx] + ' field'
+                ptype = ['Electric', 'Magnetic'][int(mx)] + ' field'
 
             if verb > 2:
                 pname = 'Receiver type' if name == 'rec' else 'Source type  '
-- 
2.43.0


From 7f344713d1d98319f43e3b7ca529ae6e00ee02ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 30/31] fix: any part of 'quad', also '', was accepted as
 Hankel transform

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index a6efcc4..2cfa432 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -657,7 +657,7 @@ def check_hankel(ht, htarg, verb):
             if targ['limit']:
                 print(f"     > limit (quad):  {targ['limit']}")
 
-    elif ht in 'quad':  # QUAD
+    elif ht == 'quad':  # QUAD
 
         # rtol : 1e-12
         targ['rtol'] = _check_var(
-- 
2.43.0


From bc9e2064b115d20833f00683c619005b950c11f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 31/31] fix: scalars were not checked for their shape

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 2cfa432..98af58b 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -2163,7 +2163,7 @@ def _check_shape(var, name, shape, shape2=None):
 def _check_var(var, dtype, ndmin, name, shape=None, shape2=None):
     r"""Return variable as array of dtype, ndmin; shape-checked."""
     var = np.array(var, dtype=dtype, copy=True, ndmin=ndmin)
-    if shape:
+    if shape is not None:
         _check_shape(var, name, shape, shape2)
     return var
 
-- 
2.43.0

