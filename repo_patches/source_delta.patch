From 769c8571fc645fa07b0f42955e1b5ffb4719a4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 01/48] fix: accept a scalar mispick probability for a single
 station in the compiled polarity PDFs

---
 src/MTfit/probability/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 065512e..a39f261 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -115,7 +115,7 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(sigma.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
@@ -230,7 +230,7 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(positive_probability.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
-- 
2.43.0


From c1745744e09dd85f6a5b198345cbe656d4289fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 02/48] fix: compiled polarity-probability PDF at exactly zero
 amplitude

---
 src/MTfit/probability/cprobability.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 0f776b8..7925986 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -221,7 +221,7 @@ cdef inline DTYPE_t pol_prob_pdf(DTYPE_t x,DTYPE_t p,DTYPE_t n,DTYPE_t i) nogil:
     if x>0:
        return (1-i)*p+i*n
     elif x==0:
-        return 0.5
+        return 0.5*(p+n)
     else:
         return (1-i)*n+i*p
 
-- 
2.43.0


From 9c9416fc08b4028fa6d8ee6e3bc1488ea2f1bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 03/48] fix: transpose (n,6) moment tensors before the compiled
 polarity PDFs read them

---
 src/MTfit/probability/probability.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index a39f261..64bd337 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -101,6 +101,9 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
         raise TypeError('Variable: a is expected to be a three-dimensional numpy array')
     if not isinstance(mt, np.ndarray) or mt.ndim != 2:
         raise TypeError('Variable: mt is expected to be a two-dimensional numpy array of moment tensor six vectors')
+    # Check moment tensor shape is correct
+    if mt.shape[0] != a.shape[-1]:
+        mt = mt.transpose()
     # For fractional uncertainties that are zero make them really small
     # to avoid zero divison errors
     sigma[sigma == 0] = _SMALL_NUMBER
@@ -143,9 +146,6 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     if not completed:
-        # Check moment tensor shape is correct
-        if mt.shape[0] != a.shape[-1]:
-            mt = mt.transpose()
         # Calcuate Theoretical Amplitude for moment tensors
         X = np.tensordot(a, mt, 1)
         # Expand errors and incorrect_polarity_probability dimensions to be
@@ -223,6 +223,9 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
         raise TypeError('Variable: a is expected to be a three-dimensional numpy array')
     if not isinstance(mt, np.ndarray) or mt.ndim != 2:
         raise TypeError('Variable: mt is expected to be a two-dimensional numpy array of moment tensor six vectors')
+    # Check moment tensor shape is correct
+    if mt.shape[0] != a.shape[-1]:
+        mt = mt.transpose()
     completed = False
     if cprobability and (_use_c is None or _use_c):
         try:
@@ -261,8 +264,6 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     if not completed:
-        if mt.shape[0] != a.shape[-1]:
-            mt = mt.transpose()
         # Calculate theoretical amplitude
         X = np.tensordot(a, mt, 1)
         # Expand errors and incorrect_polarity_probability dimensions to be
-- 
2.43.0


From 97c532c9221ce71be5a51999dbbf91d7b4b9f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 04/48] fix: log-domain marginalisation and normalisation scale
 by the maximum for any magnitude

The maximum was only removed when negative, and for marginalisation the global
maximum was used, so large positive log-values overflowed and columns far below
the largest became zero. Zero-probability-only input normalised to NaN, a single
sample ignored dV, and the compiled path ignored dV and changed its input.
---
 src/MTfit/probability/cprobability.pyx | 26 +++++++++---------
 src/MTfit/probability/probability.py   | 37 ++++++++++++++------------
 2 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 7925986..abdfb12 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -85,13 +85,11 @@ IF UNAME_SYSNAME == "Windows":
                 for v from 0<=v<vmax:
                     if ln_p[v,w]>scale:
                         scale=ln_p[v,w]
-                if scale>0:
-                    scale=0
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -104,11 +102,11 @@ IF UNAME_SYSNAME == "Windows":
         for w from 0<=w<wmax:            
             if scale<ln_p[w]:
                 scale=ln_p[w]
-        if scale>0:
-            scale=0
+        if scale==-inf:
+            return np.asarray(ln_p)
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)*dV
+        N=log(N)+scale
         for w from 0<=w<wmax:
             ln_p[w]-=N
         return np.asarray(ln_p)
@@ -142,12 +140,11 @@ ELSE:
                 scale=-inf
                 for v from 0<=v<vmax:
                     scale=fmax(scale,ln_p[v,w])
-                scale=fmin(scale,0)
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -159,10 +156,11 @@ ELSE:
         cdef DTYPE_t scale=-inf, N=0
         for w from 0<=w<wmax:
             scale=fmax(scale,ln_p[w])
-        scale=fmin(scale,0)
+        if scale==-inf:
+            return np.asarray(ln_p)
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)*dV
+        N=log(N)+scale
         for w from 0<=w<wmax:
             ln_p[w]-=N
         return np.asarray(ln_p)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 64bd337..d3fe3ca 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -865,7 +865,7 @@ def ln_marginalise(ln_pdf, axis=0, dV=1.0):
     Returns
         np.array - marginalised distribtion over axis
     """
-    if cprobability and axis == 0:
+    if cprobability and axis == 0 and dV == 1:
         try:
             if isinstance(ln_pdf, LnPDF):
                 return cprobability.ln_marginalise(ln_pdf._ln_pdf.astype(np.float64))
@@ -874,21 +874,26 @@ def ln_marginalise(ln_pdf, axis=0, dV=1.0):
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
-    # scale and then marginalise:
-    ln_scale = 0
+    if isinstance(ln_pdf, LnPDF):
+        ln_pdf = ln_pdf._ln_pdf
     if ln_pdf.shape[axis] == 1:
         return np.array(ln_pdf).squeeze(axis)
     elif axis == 0 and len(ln_pdf.shape) == 1:
         # Probably shouldn't be marginalising over the last parameter
         return ln_pdf
-    if np.prod(ln_pdf.shape) and ln_pdf.max() < 0 and ln_pdf.max() > -np.inf:
-        ln_scale = -ln_pdf.max()
+    # scale by the maximum over the axis and then marginalise:
+    ln_scale = np.zeros([1 if i == axis else n for i, n in enumerate(ln_pdf.shape)])
+    if np.prod(ln_pdf.shape):
+        ln_scale = np.max(np.asarray(ln_pdf, dtype=np.float64), axis=axis, keepdims=True)
+        # Nothing to scale if all the values are zero probability
+        ln_scale[ln_scale == -np.inf] = 0
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
         # if axis == 0:
         #     # Get consistency with c code
         #     ln_pdf = np.array(ln_pdf)
-        result = np.log(np.sum(np.exp(ln_pdf+ln_scale)*dV, axis=axis)) - ln_scale
+        result = np.log(np.sum(np.exp(ln_pdf-ln_scale)*dV, axis=axis))
+        result = result + ln_scale.reshape(result.shape)
     if axis == 0:
         result = np.array(result).flatten()
     return result
@@ -911,28 +916,26 @@ def ln_normalise(ln_pdf, dV=1):
         np.array - normalised distribtion
 
     """
-    if ln_pdf.ndim == 1 and ln_pdf.shape[0] == 1:
-        return np.array([0])
     if cprobability:
         try:
             if ln_pdf.ndim != 1 and ln_pdf.shape[0] != 1:
                 raise Exception('Incorrect shape')
-            if ln_pdf.ndim == 2:
-                normalised_ln_pdf = cprobability.ln_normalise(np.asarray(ln_pdf).flatten())
-            else:
-                normalised_ln_pdf = cprobability.ln_normalise(ln_pdf)
-            return normalised_ln_pdf
+            # flatten makes a copy, as the values are normalised in place
+            return cprobability.ln_normalise(np.asarray(ln_pdf).flatten(), dV)
         except Exception:
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
-    # scale and then marginalise:
+    # scale by the maximum and then normalise:
     ln_scale = 0
-    if -ln_pdf.max() > 0 and ln_pdf.max() > -np.inf:
-        ln_scale = -ln_pdf.max()
+    if ln_pdf.max() > -np.inf:
+        ln_scale = ln_pdf.max()
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-        ln_n = np.log(np.sum(np.exp(ln_pdf+ln_scale) * dV, axis=None)) - ln_scale
+        ln_n = np.log(np.sum(np.exp(ln_pdf-ln_scale) * dV, axis=None)) + ln_scale
+    # Nothing to normalise if all the values are zero probability
+    if ln_n == -np.inf:
+        ln_n = 0
     if ln_pdf.ndim == 2 and 1 in list(ln_pdf.shape):
         ln_pdf = np.squeeze(np.asarray(ln_pdf))
         if not ln_pdf.shape:
-- 
2.43.0


From 0bbb40b09d493ba3148c07f932e6efe40ad3f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 05/48] fix: log evidence of a sample without non-zero
 probabilities is -inf, not NaN

---
 src/MTfit/sampling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 95c1ddf..f78ec7c 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -428,7 +428,11 @@ def ln_bayesian_evidence(output, n_samples, prior=_6sphere_prior):
         p = prior(output['g'], output['d'])
     if not isinstance(output['ln_pdf'], LnPDF):
         output['ln_pdf'] = LnPDF(output['ln_pdf'])
-    return np.log((output['ln_pdf']+np.log(p)-output['ln_pdf']._ln_pdf.max()).exp().sum())+output['ln_pdf']._ln_pdf.max()-np.log(n_samples)
+    ln_scale = output['ln_pdf']._ln_pdf.max()
+    if ln_scale == -np.inf:
+        # No non-zero probability samples
+        return -np.inf
+    return np.log((output['ln_pdf']+np.log(p)-ln_scale).exp().sum())+ln_scale-np.log(n_samples)
 
 
 def _convert(moment_tensors, i=None):
-- 
2.43.0


From df1da337c704f8e3a8ad4b8c95d4bb6e88aa66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 06/48] fix: dkl is infinite (not NaN) where q is zero and p
 underflows

---
 src/MTfit/probability/cprobability.pyx | 2 ++
 src/MTfit/probability/probability.py   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index abdfb12..610bd05 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1845,6 +1845,8 @@ cdef DTYPE_t c_dkl(DTYPE_t*ln_probability_p,DTYPE_t*ln_probability_q,DTYPE_t dV,
     cdef DTYPE_t p
     for i from 0<=i<n:
         if ln_probability_p[i]>-inf:#Check no zeros in p 
+            if ln_probability_q[i]==-inf:#q is zero where p is not
+                return inf
             p=exp(ln_probability_p[i])
             dkl+=p*ln_probability_p[i]-p*ln_probability_q[i]
     return dkl*dV
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index d3fe3ca..06ec71d 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -842,6 +842,9 @@ def dkl(ln_probability_p, ln_probability_q, dV=1.0):
     probability_q = np.exp(ln_probability_q)
     n = np.sum(probability_q)*dV
     ln_probability_q -= np.log(n)
+    if np.any(ln_probability_q[ind] == -np.inf):
+        # q is zero where p is not
+        return np.inf
     return np.sum(ln_probability_p[ind]*probability_p[ind] -
                   ln_probability_q[ind]*probability_p[ind]) * dV
 
-- 
2.43.0


From 159a3bbb69447f2861a8e5df6c524cb52df6c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 07/48] fix: append negative polarity probabilities of further
 data types to the negative probabilities

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 418074d..0afff9e 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2990,7 +2990,7 @@ def polarity_probability_matrix(data, location_samples=False):
         else:
             a = np.append(a, angles, 0)
             positive_probability = np.append(positive_probability, np.array(measured[:, 0]).flatten())
-            negative_probability = np.append(positive_probability, np.array(measured[:, 1]).flatten())
+            negative_probability = np.append(negative_probability, np.array(measured[:, 1]).flatten())
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
-- 
2.43.0


From e8e03f592a5ba583e992bba9788667afe99d7346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 08/48] fix: incorrect polarity probabilities have one entry
 per station when data types are combined

---
 src/MTfit/inversion.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 0afff9e..4529597 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2914,6 +2914,9 @@ def polarity_matrix(data, location_samples=False):
             _a = True
             a = np.multiply(angles, measured)
             error = _error
+            if len(_incorrect_polarity_prob) != n_stations:
+                # Make sure this is the same length as the data as other types may be appended
+                _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(n_stations))
             incorrect_polarity_prob = _incorrect_polarity_prob
         else:
             a = np.append(a, np.multiply(angles, measured), 0)
@@ -2980,6 +2983,9 @@ def polarity_probability_matrix(data, location_samples=False):
                 _incorrect_polarity_prob = np.array(data[key]['IncorrectPolarityProbability']).flatten()
             else:
                 _incorrect_polarity_prob = np.array([0])
+        if len(_incorrect_polarity_prob) != len(angles):
+            # Make sure this is the same length as the data as other types may be appended
+            _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(len(angles)))
         # Set or append to outputs
         if not _a:
             _a = True
-- 
2.43.0


From 7b7c397e383e0b0c9b2c23330097723f923f190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 09/48] fix: combine relative amplitude types when location
 samples are used

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 4529597..2eefe4d 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3122,8 +3122,8 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
             angles = np.array(angles)
             relative_amplitude_stations.extend(selected_stations)
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
-            measured = data[key]['Measured'][indices]
-            error = data[key]['Error'][indices]
+            measured = np.array(data[key]['Measured'][indices]).flatten()
+            error = np.array(data[key]['Error'][indices]).flatten()
         # Otherwise get angles and measurements
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
-- 
2.43.0


From 9f55b6a37439202594b1c0017d6ee8d9b2af8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 10/48] fix: compiled random double-couples are unit norm
 six-vectors

---
 src/MTfit/probability/cprobability.pyx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 610bd05..c94eadf 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1956,12 +1956,13 @@ cdef DTYPE_t[:,::1] rand_dc(int x):
         s2k=sin(2*kappa)
         ss=sin(sigma)
         sh=sqrt(1-h*h)
-        mt[0,j]=-sh*cs*s2k-2*h*sh*ss*sk*sk
-        mt[1,j]=sh*cs*2*sk*ck-2*sh*h*ss*ck*ck
-        mt[2,j]=2*sh*h*ss
-        mt[3,j]=sqrt2*(sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k)
-        mt[4,j]=sqrt2*(-h*cs*ck-(2*h*h-1)*ss*sk)
-        mt[5,j]=sqrt2*(-h*cs*sk+(2*h*h-1)*ss*ck)
+        # Unit norm six-vector
+        mt[0,j]=(-sh*cs*s2k-2*h*sh*ss*sk*sk)/sqrt2
+        mt[1,j]=(sh*cs*2*sk*ck-2*sh*h*ss*ck*ck)/sqrt2
+        mt[2,j]=2*sh*h*ss/sqrt2
+        mt[3,j]=sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k
+        mt[4,j]=-h*cs*ck-(2*h*h-1)*ss*sk
+        mt[5,j]=-h*cs*sk+(2*h*h-1)*ss*ck
     return mt
 
 cpdef random_mt(int x):
-- 
2.43.0


From 8e858e40eac1de68c4f8a0bb81b00e2486ae94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:14 +0000
Subject: [PATCH 11/48] fix: compiled random double-couples are independent
 between worker processes (reseed as for random_mt)

---
 src/MTfit/probability/cprobability.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index c94eadf..f3d44a1 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1935,6 +1935,7 @@ cdef DTYPE_t[:,::1] rand_mt(int x):
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef DTYPE_t[:,::1] rand_dc(int x):
+    np.random.seed()
     cdef DTYPE_t[:,::1] mt=np.empty((6,x))
     cdef Py_ssize_t sj
     cdef DTYPE_t ck
-- 
2.43.0


From 2e6634ef79a0b37119cb33ac92843f273f18f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 12/48] fix: normalising an empty log-PDF gives an empty
 log-PDF, so an all-zero sample outputs an empty result

---
 src/MTfit/probability/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 06ec71d..5fbade3 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -931,7 +931,7 @@ def ln_normalise(ln_pdf, dV=1):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # scale by the maximum and then normalise:
     ln_scale = 0
-    if ln_pdf.max() > -np.inf:
+    if np.prod(ln_pdf.shape) and ln_pdf.max() > -np.inf:
         ln_scale = ln_pdf.max()
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-- 
2.43.0


From 32675d85868ca578ab4855971a9e400e6e8397ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 13/48] fix: multi-event converted output no longer changes the
 dictionary it iterates over

---
 src/MTfit/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index f78ec7c..631bba4 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -449,6 +449,5 @@ def _convert(moment_tensors, i=None):
     output = output_convert(moment_tensors)
     if isinstance(i, int):
         # Multiple events
-        for key in output.keys():
-            output[key+'_'+str(i)] = output.pop(key)
+        output = {key+'_'+str(i): value for key, value in output.items()}
     return output
-- 
2.43.0


From 399b98bf6e2e682e06f746d36618897ac5ebf7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 14/48] fix: FileSample.output returns the stored samples in
 the order they were appended

---
 src/MTfit/sampling.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 631bba4..73a1445 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -376,21 +376,24 @@ class FileSample(Sample):
         data = self.loadmat(self.fname)
         # Set up attributes for Sample.output call
         self.moment_tensors = np.matrix(np.zeros((self.number_events*6, self.non_zero_samples)))
-        self.scale_factor = False
-        if len([key for key in data if 'scale_factor' in key]):
-            self.scale_factor = []
+        self.ln_pdf = LnPDF()
+        scale_factor = []
         _x = 0
         self.n = data['n']
-        for key in [key for key in data.keys() if 'MTSpace' in key]:
-            i = key.split('_')[-1]
+        # Batches in the order they were appended
+        for i in sorted([int(key.split('_')[-1]) for key in data.keys() if 'MTSpace' in key]):
             self.ln_pdf.append(LnPDF(data['LnPDF_'+str(i)]))
             moment_tensors = data['MTSpace_'+str(i)]
             self.moment_tensors[:, _x: _x+moment_tensors.shape[1]] = moment_tensors
-            if isinstance(self.scale_factor, list):
-                self.scale_factor.append(data['scale_factor_'+str(i)])
+            if 'scale_factor_'+str(i) in data:
+                scale_factor.extend(data['scale_factor_'+str(i)])
             _x += moment_tensors.shape[1]
-        self.scale_factor = np.array(self.scale_factor)
+        if len(scale_factor):
+            self.scale_factor = np.array(scale_factor)
+        # Sample.output uses _i as the number of stored samples
+        batch_index, self._i = self._i, _x
         output, output_string = super(FileSample, self).output(*args, **kwargs)
+        self._i = batch_index
         try:
             os.remove(self.fname)
         except Exception:
-- 
2.43.0


From fe0cb1eb771ac34bbc768ac27186c8d40743af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 15/48] fix: balance draw density of the trans-dimensional jump
 is normalised over the truncated range it is drawn from

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 64be869..841706f 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1291,9 +1291,11 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         # Set DC model prior
         self.dc_prior = kwargs.get('dc_prior', .5)
         # Calculate balance vector proposal normalisation
-        d = np.linspace(-np.pi/2, np.pi/2, 10000)
-        pn = sum(np.cos(d)*gaussian_pdf(d, 0, kwargs.get('dc_sigma_d', .2)) *
-                 np.mean(np.diff(d)))*(1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2)))
+        # (the gamma and delta draws are Gaussians truncated to the lune)
+        sigma_g = kwargs.get('dc_sigma_g', .2)
+        sigma_d = kwargs.get('dc_sigma_d', .2)
+        pn = ((gaussian_cdf(np.pi/6, 0, sigma_g)-gaussian_cdf(-np.pi/6, 0, sigma_g)) *
+              (gaussian_cdf(np.pi/2, 0, sigma_d)-gaussian_cdf(-np.pi/2, 0, sigma_d)))
         # Add proposal normalisation to alpha
         if self.number_events > 1:
             for alpha in self.alpha:
-- 
2.43.0


From d300c066f313c772be5dc8800fb0af19f7bfc1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 16/48] fix: single-try trans-dimensional acceptance uses the
 double-couple prior the chain was given

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 841706f..bd33d79 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -490,7 +490,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         self.xi_1 = self.random_sample()
         return self.convert_sample(self.xi_1)
 
-    def acceptance(self, x, ln_likelihoodx, dc_prior=0.5):
+    def acceptance(self, x, ln_likelihoodx, dc_prior=None):
         """
         Calculate acceptance for x given ln_likelihoodx
 
@@ -503,7 +503,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         """
         return 0
 
-    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=0.5):
+    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=None):
         """Calculate acceptance"""
         if np.random.rand() <= self.acceptance(xi_1, ln_pi_1, dc_prior):
             return xi_1, ln_pi_1, scale_factori_1, 0
@@ -1390,7 +1390,7 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
                 delta = (np.random.rand()*2-1)*np.pi/2
             return gamma, delta
 
-    def acceptance(self, x, ln_likelihoodx, dc_prior=0.5):
+    def acceptance(self, x, ln_likelihoodx, dc_prior=None):
         """
         Calculates acceptance
 
@@ -1399,10 +1399,13 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Args
             x: Model values
             ln_likelihoodx: Model likelihood.
+            dc_prior:[None] prior probability for the DC model (the value set on initialisation is used by default)
 
         Returns
             float:acceptance
         """
+        if dc_prior is None:
+            dc_prior = self.dc_prior
         if isinstance(self.ln_likelihood_xi, np.ndarray):
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
         # Handle jump parameters
-- 
2.43.0


From 3a04babbc28b4994415877c05b7d14b6604b732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 17/48] fix: a Markov-chain proposal with zero acceptance is
 never accepted when the uniform draw is exactly zero

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index bd33d79..5c57726 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -505,7 +505,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
 
     def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=None):
         """Calculate acceptance"""
-        if np.random.rand() <= self.acceptance(xi_1, ln_pi_1, dc_prior):
+        if np.random.rand() < self.acceptance(xi_1, ln_pi_1, dc_prior):
             return xi_1, ln_pi_1, scale_factori_1, 0
         else:
             return {}, False, False, 0
-- 
2.43.0


From 0b92e4dcdd7b7a32cfe0c6ab83f72873e929a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 18/48] fix: a zero-likelihood trans-dimensional proposal has
 zero acceptance

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 5c57726..ed2b52b 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1406,8 +1406,13 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         """
         if dc_prior is None:
             dc_prior = self.dc_prior
-        if isinstance(self.ln_likelihood_xi, np.ndarray):
+        if isinstance(self.ln_likelihood_xi, (np.ndarray, LnPDF)):
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
+        if isinstance(ln_likelihoodx, (np.ndarray, LnPDF)):
+            ln_likelihoodx = float(ln_likelihoodx)
+        # Zero likelihood samples are never accepted
+        if ln_likelihoodx == -np.inf:
+            return 0
         # Handle jump parameters
         if self.jump and (self.ln_likelihood_xi > -np.inf):
             # No jump - may have been accidentally picked up
-- 
2.43.0


From 614357dbc00bb349084e5d58fccbed5c51a1ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 19/48] fix: an accepted multiple-try sample with
 log-likelihood exactly zero is not treated as rejected

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index ed2b52b..c146d4b 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1647,7 +1647,7 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
                 # Get acceptance result
                 oxi_1, oln_pi_1, a, b = super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(_xi_1, np.asarray(ln_pi_1).flatten()[u],
                                                                                                                           False, dc_prior=getattr(self, 'dc_prior', False))
-                if oln_pi_1:
+                if not isinstance(oln_pi_1, bool):
                     # If accepted sample, try to get the sacale_factor
                     if not isinstance(scale_factori_1, bool):
                         oscale_factori_1 = scale_factori_1[u]
-- 
2.43.0


From 52ab1cb6bd5d357de284f0b6516edcc264ccb3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 20/48] fix: width adaptation keeps the balance-vector widths
 and never sets a width to zero

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index c146d4b..2f8c1b0 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -448,17 +448,17 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         if isinstance(alpha, dict):
             newAlpha = {}
             for key in alpha.keys():
-                if key not in ['gamma_dc', 'delta_dc', 'proposal_normalisation']:
+                newAlpha[key] = alpha[key]
+                # The balance vector widths (and their normalisation) are fixed
+                if key not in ['gamma_dc', 'delta_dc', 'proposal_normalisation'] and 0 < alpha[key]*ratio <= self.max_alpha[key]:
                     newAlpha[key] = alpha[key]*ratio
-                    if newAlpha[key] > self.max_alpha[key]:
-                        newAlpha[key] = alpha[key]
         elif isinstance(alpha, list):
             newAlpha = []
             for i, alph in enumerate(alpha):
                 newAlpha.append(self._modify_alpha(alph, ratio))
         else:
             newAlpha = alpha*ratio
-            if newAlpha > self.max_alpha:
+            if not 0 < newAlpha <= self.max_alpha:
                 newAlpha = alpha
         return newAlpha
 
-- 
2.43.0


From a3c5627483129f5e69824ae062ad37a784e76df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 21/48] fix: multiple-event proposals use the double-couple
 flag of each event

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 2f8c1b0..55b0832 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1094,15 +1094,18 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             if not isinstance(all_x, list):
                 raise TypeError('Expect self.xi to be list not {}\n self.xi = {}'.format(type(self.xi), self.xi))
             all_alpha = self.alpha
+            all_dc = self.dc
             x = []
             if not isinstance(all_x[0], dict):
                 all_x = self.convert_sample(all_x)
             for i, xi in enumerate(all_x):
                 self.xi = xi
                 self.alpha = all_alpha[i]
+                self.dc = all_dc[i]
                 x.append(self._new_sample_single(*args, **kwargs))
             self.xi = all_x
             self.alpha = all_alpha
+            self.dc = all_dc
         else:
             x = self._new_sample_single(*args, **kwargs)
         self.xi_1 = x
-- 
2.43.0


From bc69741ccccf9984c1e028c5904228ca056f5951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 22/48] fix: multiple-event trans-dimensional acceptance is the
 product over the events

---
 .../algorithms/markov_chain_monte_carlo.py    | 49 ++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 55b0832..714b7eb 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1416,6 +1416,9 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         # Zero likelihood samples are never accepted
         if ln_likelihoodx == -np.inf:
             return 0
+        # Handle multiple events
+        if self.number_events > 1:
+            return self._multiple_events_acceptance(x, ln_likelihoodx, dc_prior)
         # Handle jump parameters
         if self.jump and (self.ln_likelihood_xi > -np.inf):
             # No jump - may have been accidentally picked up
@@ -1443,6 +1446,50 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         else:
             return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
 
+    def _multiple_events_acceptance(self, x, ln_likelihoodx, dc_prior):
+        """
+        Calculates acceptance for multiple events
+
+        The events can jump between the models independently, so the acceptance ratio is the product over
+        the events of the ratio for a dimension jump or for a shift within the model.
+
+        Args
+            x: list of model values for each event
+            ln_likelihoodx: Model likelihood.
+            dc_prior: prior probability for the DC model
+
+        Returns
+            float:acceptance
+        """
+        if self.ln_likelihood_xi == -np.inf:
+            return 1
+        dc_prior = np.ones(self.number_events)*dc_prior
+        alpha = self.alpha
+        numerator = 1.
+        denominator = 1.
+        for i in range(self.number_events):
+            self.alpha = alpha[i]
+            xi = self.xi[i]
+            xi_dc = xi['gamma'] == 0.0 and xi['delta'] == 0.0
+            x_dc = x[i]['gamma'] == 0.0 and x[i]['delta'] == 0.0
+            numerator *= self.prior(x[i], x_dc)
+            denominator *= self.prior(xi, xi_dc)
+            if xi_dc and not x_dc:  # dc to mt jump
+                numerator *= 1-dc_prior[i]
+                denominator *= self.jump_params(x[i])*dc_prior[i]
+            elif x_dc and not xi_dc:  # mt to dc jump
+                numerator *= self.jump_params(xi)*dc_prior[i]
+                denominator *= 1-dc_prior[i]
+            else:  # no jump
+                numerator *= self.transition_pdf(xi, x[i], x_dc)
+                denominator *= self.transition_pdf(x[i], xi, x_dc)
+        self.alpha = alpha
+        if not denominator > 0:
+            # 0 probability values for acceptance denominator so acc is
+            # infinite --> set to 1
+            return 1
+        return min(1, float(numerator/denominator)*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
+
     def iterate(self, *args, **kwargs):
         """
         Iterates new sample
@@ -1457,7 +1504,7 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
             elif isinstance(self.p_dc, list):
                 for i, pdc in enumerate(self.p_dc):
                     logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/float(len(self.pdf_sample.ln_pdf))))
-        if self.jump:
+        if self.jump and self.number_events == 1:
             # check current sample
             self.dc = (self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0)
         return MTs, end
-- 
2.43.0


From c8a3eaf7500241489dcaebef36da7b1b9b834e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 23/48] fix: compiled strike proposals are wrapped when they
 leave [0, 2pi)

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 068ed51..b2e528f 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -210,7 +210,7 @@ cdef DTYPE_t new_delta(DTYPE_t d0, DTYPE_t d_s):
 @cython.cdivision(True)
 cdef DTYPE_t new_kappa(DTYPE_t k0, DTYPE_t k_s):
     cdef DTYPE_t kn=k_s*np.random.randn(1)+k0
-    if fabs(kn)<PI2:
+    if fabs(kn)>=PI2:
         kn=fmod(kn,PI2)
     if kn<0.0:
         kn+=PI2
-- 
2.43.0


From 8cf33211ac0a72a0b1a2e972dfe6486ca2c87ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 24/48] fix: compiled acceptance recognises a model jump when
 only one of gamma and delta changes

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index b2e528f..c02b9b7 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -273,7 +273,7 @@ cdef int c_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ratio
     cdef DTYPE_t acc=0
     for u in range(umax):
         jump=0
-        if ((g0==0.0 and d0==0.0) or (gamma[u]==0.0 and delta[u]==0.0)) and  not gamma[u]==g0 and not delta[u]==d0 and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
+        if ((g0==0.0 and d0==0.0) or (gamma[u]==0.0 and delta[u]==0.0)) and  not (gamma[u]==g0 and delta[u]==d0) and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
             jump=1
         if ln_p[u]==-inf:
             continue
@@ -297,7 +297,7 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
             continue
         for v in range(nevents):
             jump=0
-            if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not gamma[u,v]==g0[v] and not delta[u,v]==d0[v] and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
+            if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not (gamma[u,v]==g0[v] and delta[u,v]==d0[v]) and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
                 jump=1
             acc*=acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
             if acc==0:
@@ -841,7 +841,7 @@ def _acceptance_test_fn(dict x, dict x0, dict alpha, DTYPE_t ln_p,DTYPE_t ln_p0,
     else:
         qd=x['delta'];
     cdef int jump=0
-    if ((x0['gamma']==0.0 and x0['delta']==0.0) or (x['gamma']==0.0 and x['delta']==0.0)) and  not x['gamma']==x0['gamma'] and not x['delta']==x0['delta'] and x0['h']==x['h'] and x0['sigma']==x['sigma'] and x0['kappa']==x['kappa']:
+    if ((x0['gamma']==0.0 and x0['delta']==0.0) or (x['gamma']==0.0 and x['delta']==0.0)) and  not (x['gamma']==x0['gamma'] and x['delta']==x0['delta']) and x0['h']==x['h'] and x0['sigma']==x['sigma'] and x0['kappa']==x['kappa']:
         jump=1
     if ln_p==-inf:
         return 0
-- 
2.43.0


From 94202d414861325444dd39967be8ee87b4630550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 25/48] fix: compiled multiple-event acceptance uses the
 product over events of each try's own ratios

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index c02b9b7..13836de 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -295,11 +295,21 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
     for u in range(umax):
         if ln_p[u]==-inf:
             continue
+        if ln_p0==-inf:#Always move from a zero-likelihood state
+            return <int>u
+        acc=1
         for v in range(nevents):
             jump=0
             if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not (gamma[u,v]==g0[v] and delta[u,v]==d0[v]) and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
                 jump=1
-            acc*=acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
+            #Ratio for each event (only the product is limited to 1)
+            acc*=prior_ratio_fn(gamma[u,v],delta[u,v],g0[v],d0[v])
+            if jump==0:
+                acc*=transition_ratio_fn(gamma[u,v],delta[u,v],h[u,v],sigma[u,v],g0[v],g_s[v],d0[v],d_s[v],h0[v],h_s[v],s0[v],s_s[v])
+            elif gamma[u,v]==0.0 and delta[u,v]==0.0:
+                acc*=jump_params_fn(qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v])*p_dc[v]/(1-p_dc[v])
+            else:
+                acc*=(1-p_dc[v])/(p_dc[v]*jump_params_fn(qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v]))
             if acc==0:
                 break
         if v<nevents-1 or acc==0.0:#No acceptance, so no point in continuing
-- 
2.43.0


From 83058765734ff89899421b36440cbb57414d49fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 26/48] fix: multiple-event proposals accept a single
 double-couple flag

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 714b7eb..f94f9f9 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1101,7 +1101,7 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             for i, xi in enumerate(all_x):
                 self.xi = xi
                 self.alpha = all_alpha[i]
-                self.dc = all_dc[i]
+                self.dc = all_dc[i] if isinstance(all_dc, list) else all_dc
                 x.append(self._new_sample_single(*args, **kwargs))
             self.xi = all_x
             self.alpha = all_alpha
-- 
2.43.0


From 3f9f405f7a60abe9aca1dc501334d1d36d20d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 27/48] fix: width adaptation without an earlier width to
 revert to no longer sets the widths to zero

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index f94f9f9..bbc7be9 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -381,25 +381,21 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         if rate >= 1:
             # revert to old alpha and change ratio
             try:
-                if type(self.alpha) == dict:
-                    self.alpha = self._old_alpha.copy()
-                else:  # list
-                    self.alpha = self._old_alpha[:]
+                self.alpha = copy.copy(self._old_alpha)
                 ratio = np.sqrt(self._old_ratio)
                 self._old_ratio = ratio
             except Exception:
-                ratio = 0
+                # nothing to revert to
+                ratio = rate/self.max_acceptance_rate
         elif not rate:
             # revert to old alpha and change ratio
             try:
-                if type(self.alpha) == dict:
-                    self.alpha = self._old_alpha.copy()
-                else:  # list
-                    self.alpha = self._old_alpha[:]
+                self.alpha = copy.copy(self._old_alpha)
                 ratio = self._old_ratio*self._old_ratio
                 self._old_ratio = ratio
             except Exception:
-                ratio = 0
+                # nothing to revert to
+                ratio = 0.1
         return ratio
 
     def output(self, *args, **kwargs):
-- 
2.43.0


From 1f01b958a3033009a57e9b733d3e7e9a1a31787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 28/48] fix: moment tensor axes use the symmetric
 eigen-decomposition, the compiled T axis is the largest eigenvalue

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 2 +-
 src/MTfit/convert/moment_tensor_conversion.py   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index a6bfe5c..764d219 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -296,7 +296,7 @@ cdef cMT6_TNPE(DTYPE_t[:] MT):
         e,L=eigh(MT33,overwrite_a=True,check_finite=False)
     else:        
         e,L=eigh(MT33,overwrite_a=True)
-    maxi=0
+    maxi=2#eigh eigenvalues are ascending
     mini=0
     cdef Py_ssize_t i
     for i in [0,1,2]:
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 20753a5..38dc4c7 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -18,6 +18,7 @@ The coordinate system is North (X), East (Y), Down (Z)
 import logging
 
 import numpy as np
+from scipy.linalg import eigh
 from scipy.optimize import fsolve
 
 from ..utilities import C_EXTENSION_FALLBACK_LOG_MSG
@@ -178,7 +179,9 @@ def MT33_TNPE(MT33):
         (numpy.matrix, numpy.matrix, numpy.matrix, numpy.array): tuple of T, N, P
                         vectors and Eigenvalue array
     """
-    E, L = np.linalg.eig(MT33)
+    E, L = eigh(MT33)
+    if isinstance(MT33, np.matrix):
+        L = np.matrix(L)
     idx = E.argsort()[::-1]
     E = E[idx]
     L = L[:, idx]
@@ -213,7 +216,7 @@ def MT33_GD(MT33):
     Returns
         (numpy.array, numpy.array): tuple of gamma, delta
     """
-    E, L = np.linalg.eig(MT33)
+    E, L = eigh(MT33)
     return E_GD(E)
 
 
-- 
2.43.0


From 26e3e6e6a65ce5341b8f6a340204a78f6f71e198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 29/48] fix: Hudson tau, k do not depend on the eigenvalue
 order and are finite near isotropic sources

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 10 ++++------
 src/MTfit/convert/moment_tensor_conversion.py   | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 764d219..d20b06b 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -47,15 +47,13 @@ cdef inline DTYPE_t[::1] cE_tk(DTYPE_t[::1] E,DTYPE_t[::1] results) nogil:
     cdef DTYPE_t dev1=E[2]-iso#Odd sorting from hudson paper E[0]>=E[2]>=E[1]
     cdef DTYPE_t dev2=E[1]-iso
     if dev2>0:
+        #tau=T(1-|k|) with T=-2*dev2/dev1 and 1-|k|=-dev1/(|iso|-dev1)
         results[5]=iso/(fabs(iso)-dev1)
-        results[6]=-2*(dev2)/(dev1)
-    elif dev2<0:
-        results[5]=iso/(fabs(iso)+dev0)
-        results[6]=2*dev2/dev0
+        results[6]=2*dev2/(fabs(iso)-dev1)
     else:
+        #tau=T(1-|k|) with T=2*dev2/dev0 and 1-|k|=dev0/(|iso|+dev0)
         results[5]=iso/(fabs(iso)+dev0)
-        results[6]=0
-    results[6]=results[6]*(1-fabs(results[5]));
+        results[6]=2*dev2/(fabs(iso)+dev0)
     return results
 @cython.boundscheck(False)
 @cython.wraparound(False)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 38dc4c7..d2ee77c 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -245,15 +245,13 @@ def E_tk(E):
         dev1 = E[1]-iso
         dev2 = E[2]-iso
         if dev2 > 0:
+            # tau = T(1-|k|) with T = -2*dev2/dev1 and 1-|k| = -dev1/(|iso|-dev1)
             k = iso/(abs(iso)-dev1)
-            T = -2*(dev2)/(dev1)
-        elif dev2 < 0:
-            k = iso/(abs(iso)+dev0)
-            T = 2*dev2/dev0
+            tau = 2*dev2/(abs(iso)-dev1)
         else:
+            # tau = T(1-|k|) with T = 2*dev2/dev0 and 1-|k| = dev0/(|iso|+dev0)
             k = iso/(abs(iso)+dev0)
-            T = 0
-        tau = T*(1-abs(k))
+            tau = 2*dev2/(abs(iso)+dev0)
     return tau, k
 
 
-- 
2.43.0


From 9653fc3fbd0df77824ebe5bad148dcbfdc2d4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 30/48] fix: lune coordinates do not depend on the eigenvalue
 order and are finite for nearly isotropic sources

---
 .../convert/cmoment_tensor_conversion.pyx     | 20 ++++++++++++-------
 src/MTfit/convert/moment_tensor_conversion.py |  5 +++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index d20b06b..afcdcc4 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -8,6 +8,8 @@
 # Applications for commercial use should be made to Schlumberger or the University of Cambridge.
 
 from libc.math cimport fabs
+from libc.math cimport fmax
+from libc.math cimport fmin
 from libc.math cimport fmod
 from libc.math cimport cos
 from libc.math cimport acos
@@ -85,16 +87,20 @@ cdef inline DTYPE_t[::1] ctk_uv(DTYPE_t[::1] results) nogil:
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef inline void cE_gd(DTYPE_t[:] E,DTYPE_t*g,DTYPE_t*d) nogil:
-    if E[0]==E[2]:
-        if E[0]>0:
-            g[0]=0
+    cdef DTYPE_t e0=fmax(E[0],fmax(E[1],E[2]))
+    cdef DTYPE_t e2=fmin(E[0],fmin(E[1],E[2]))
+    cdef DTYPE_t e1=fmax(fmin(E[0],E[1]),fmin(fmax(E[0],E[1]),E[2]))
+    if e0==e2:
+        g[0]=0
+        d[0]=0
+        if e0>0:
             d[0]=pi/2
-        elif E[0]<0:
-            g[0]=0
+        elif e0<0:
             d[0]=-pi/2
     else:
-        g[0]=atan2(-E[0]+2*E[1]-E[2],sqrt3*(E[0]-E[2]))
-        d[0]=pi/2-acos((E[0]+E[1]+E[2])/(sqrt3*sqrt((E[0]*E[0]+E[1]*E[1]+E[2]*E[2]))))
+        g[0]=atan2((e1-e0)+(e1-e2),sqrt3*(e0-e2))
+        #Rounding can take the cosine out of range for nearly isotropic sources
+        d[0]=pi/2-acos(fmax(-1.,fmin(1.,(e0+e1+e2)/(sqrt3*sqrt((e0*e0+e1*e1+e2*e2))))))
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.nonecheck(False)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index d2ee77c..18c561c 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -350,8 +350,9 @@ def E_GD(E):
             return 0, np.sign(np.unique(E))*np.pi/2
         idx = E.argsort()[::-1]
         E = E[idx]
-        gamma = np.arctan2(-E[0]+2*E[1]-E[2], np.sqrt(3)*(E[0]-E[2]))
-        beta = np.arccos(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))))
+        gamma = np.arctan2((E[1]-E[0])+(E[1]-E[2]), np.sqrt(3)*(E[0]-E[2]))
+        # Rounding can take the cosine out of range for nearly isotropic sources
+        beta = np.arccos(np.clip(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))), -1, 1))
         delta = np.real(np.pi/2-beta)
     return gamma, delta
 
-- 
2.43.0


From 024787c1692dccfe3e1ef006bc45c074caa3fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 31/48] fix: SDR_SDR returns the auxiliary plane

---
 src/MTfit/convert/moment_tensor_conversion.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 18c561c..c2dfb63 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -575,19 +575,8 @@ def SDR_SDR(strike, dip, rake):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # Handle multiple inputs
     N1, N2 = SDR_FP(strike, dip, rake)
-    s1, d1, r1 = FP_SDR(N1, N2)
-    s2, d2, r2 = FP_SDR(N2, N1)
-    # This should be ok to return s2,d2,r2 but doesn't seem to work
-    try:
-        r2[np.abs(strike-s2) < 1] = r1[np.abs(strike-s2) < 1]
-        d2[np.abs(strike-s2) < 1] = d1[np.abs(strike-s2) < 1]
-        s2[np.abs(strike-s2) < 1] = s1[np.abs(strike-s2) < 1]
-        return s2, d2, r2
-    except Exception:
-        if np.abs(strike-s1) < 1:
-            return (s2, d2, r2)
-        else:
-            return (s1, d1, r1)
+    # SDR_FP gives the input plane normal second, so this is the other plane
+    return FP_SDR(N1, N2)
 
 
 def FP_TNP(normal, slip):
-- 
2.43.0


From 554283b5f6f2a9a368fb2707e8c51bb21c5dc7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 32/48] fix: rake of horizontal planes, and strikes that round
 to two pi

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx |  5 +++++
 src/MTfit/convert/moment_tensor_conversion.py   | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index afcdcc4..2a7962d 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -116,6 +116,9 @@ cdef inline void cN_SDR(DTYPE_t N0,DTYPE_t N1,DTYPE_t N2,DTYPE_t S0,DTYPE_t S1,D
     strike[0] = atan2(-N0, N1)
     dip[0] = atan2((N1**2+N0**2), sqrt((N0*N2)**2+(N1*N2)**2))
     rake[0] = atan2(-S2, S0*N1 - S1*N0)
+    if N1*N1+N0*N0 < 1e-10:
+        #Both arguments vanish with the dip, so use the slip in the plane for (nearly) horizontal planes
+        rake[0] = atan2(S0*sin(strike[0]) - S1*cos(strike[0]), S0*cos(strike[0]) + S1*sin(strike[0]))
     if dip[0] > pi/2:
         dip[0] = pi-dip[0]
         strike[0] = strike[0]+pi
@@ -124,6 +127,8 @@ cdef inline void cN_SDR(DTYPE_t N0,DTYPE_t N1,DTYPE_t N2,DTYPE_t S0,DTYPE_t S1,D
         strike[0] = fmod(strike[0],PI2)
     if strike[0] < 0.0:
         strike[0] += PI2
+    if strike[0] >= PI2:#adding to tiny negative angles rounds to 2pi
+        strike[0] = 0.0
     if rake[0] > pi:
         rake[0] -= PI2
     elif rake[0] < -pi:
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index c2dfb63..eb76002 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -238,8 +238,8 @@ def E_tk(E):
         for i in range(E.shape[1]):
             tau[i], k[i] = E_tk(E[:, i])
     else:
-        idx = [0, 2, 1]  # Odd sorting
-        E = E[idx]
+        # Odd sorting from Hudson paper E[0]>=E[2]>=E[1]
+        E = np.sort(E)[[2, 0, 1]]
         iso = (E[0]+E[1]+E[2])/3
         dev0 = E[0]-iso
         dev1 = E[1]-iso
@@ -457,10 +457,15 @@ def FP_SDR(normal, slip):
     slip = np.array(slip)
     strike, dip = normal_SD(normal)
     rake = np.arctan2(-slip[2], slip[0]*normal[1]-slip[1]*normal[0])
+    # Both arguments vanish with the dip, so use the slip in the plane for (nearly) horizontal planes
+    flat = (normal[0]**2+normal[1]**2) < 1e-10
+    rake[flat] = np.arctan2(slip[0]*np.sin(strike)-slip[1]*np.cos(strike),
+                            slip[0]*np.cos(strike)+slip[1]*np.sin(strike))[flat]
     strike[dip > np.pi/2] += np.pi
     rake[dip > np.pi/2] = 2*np.pi-rake[dip > np.pi/2]
     dip[dip > np.pi/2] = np.pi-dip[dip > np.pi/2]
     strike = np.mod(strike, 2*np.pi)
+    strike[strike >= 2*np.pi] = 0.  # mod rounds tiny negative angles to 2*pi
     rake[rake > np.pi] -= 2*np.pi
     rake[rake < -np.pi] += 2*np.pi
     return (np.array(strike).flatten(), np.array(dip).flatten(), np.array(rake).flatten())
@@ -790,6 +795,7 @@ def normal_SD(normal):
     dip = np.arctan2((normal[1]**2+normal[0]**2),
                      np.sqrt((normal[0]*normal[2])**2+(normal[1]*normal[2])**2))
     strike = np.mod(strike, 2*np.pi)
+    strike[strike >= 2*np.pi] = 0.  # mod rounds tiny negative angles to 2*pi
     return strike, dip
 
 
-- 
2.43.0


From 78d94c825b866a19fdb072aa2766045c58a8d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 33/48] fix: exact rake of nearly horizontal planes

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 2 +-
 src/MTfit/convert/moment_tensor_conversion.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 2a7962d..00d1b31 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -118,7 +118,7 @@ cdef inline void cN_SDR(DTYPE_t N0,DTYPE_t N1,DTYPE_t N2,DTYPE_t S0,DTYPE_t S1,D
     rake[0] = atan2(-S2, S0*N1 - S1*N0)
     if N1*N1+N0*N0 < 1e-10:
         #Both arguments vanish with the dip, so use the slip in the plane for (nearly) horizontal planes
-        rake[0] = atan2(S0*sin(strike[0]) - S1*cos(strike[0]), S0*cos(strike[0]) + S1*sin(strike[0]))
+        rake[0] = atan2((S0*sin(strike[0]) - S1*cos(strike[0]))*cos(dip[0]) - S2*sin(dip[0]), S0*cos(strike[0]) + S1*sin(strike[0]))
     if dip[0] > pi/2:
         dip[0] = pi-dip[0]
         strike[0] = strike[0]+pi
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index eb76002..b7253ad 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -459,7 +459,7 @@ def FP_SDR(normal, slip):
     rake = np.arctan2(-slip[2], slip[0]*normal[1]-slip[1]*normal[0])
     # Both arguments vanish with the dip, so use the slip in the plane for (nearly) horizontal planes
     flat = (normal[0]**2+normal[1]**2) < 1e-10
-    rake[flat] = np.arctan2(slip[0]*np.sin(strike)-slip[1]*np.cos(strike),
+    rake[flat] = np.arctan2((slip[0]*np.sin(strike)-slip[1]*np.cos(strike))*np.cos(dip)-slip[2]*np.sin(dip),
                             slip[0]*np.cos(strike)+slip[1]*np.sin(strike))[flat]
     strike[dip > np.pi/2] += np.pi
     rake[dip > np.pi/2] = 2*np.pi-rake[dip > np.pi/2]
-- 
2.43.0


From 4f705e3658f8538187258f4cc81a306bfed7ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 34/48] fix: only bin location samples that list the same
 stations

---
 src/MTfit/extensions/cscatangle.pyx | 13 ++++++++-----
 src/MTfit/extensions/scatangle.py   |  4 ++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/extensions/cscatangle.pyx b/src/MTfit/extensions/cscatangle.pyx
index 07cc21c..56d87a3 100644
--- a/src/MTfit/extensions/cscatangle.pyx
+++ b/src/MTfit/extensions/cscatangle.pyx
@@ -39,7 +39,7 @@ from libc.math cimport M_SQRT2 as sqrt2
 @cython.wraparound(False)
 @cython.nonecheck(False)
 @cython.cdivision(True)
-cdef DTYPE_t[::1] get_multipliers(DTYPE_t[:,:,::1] angles,DTYPE_t bin_size,DTYPE_t [::1] multipliers) nogil:
+cdef DTYPE_t[::1] get_multipliers(DTYPE_t[:,:,::1] angles,DTYPE_t bin_size,DTYPE_t [::1] multipliers,LONG[::1] stations) nogil:
     cdef Py_ssize_t umax=angles.shape[0]
     cdef Py_ssize_t nsta=angles.shape[2]
     cdef Py_ssize_t u
@@ -49,7 +49,7 @@ cdef DTYPE_t[::1] get_multipliers(DTYPE_t[:,:,::1] angles,DTYPE_t bin_size,DTYPE
         if multipliers[u]==-1:
             continue
         for v in range(u+1,umax):  
-            if multipliers[v]>-1:
+            if multipliers[v]>-1 and stations[u]==stations[v]:
                 ok=1
                 for w in range(nsta):
                     ok=ok*(fabs(angles[u,0,w]-angles[v,0,w])<bin_size/2.)*(fabs(angles[u,1,w]-angles[v,1,w])<bin_size/2.)
@@ -63,18 +63,21 @@ cdef DTYPE_t[::1] get_multipliers(DTYPE_t[:,:,::1] angles,DTYPE_t bin_size,DTYPE
 
 
 cpdef bin_scatangle(sample_records,multipliers,bin_size):
-    cdef DTYPE_t[:,:,::1] angles=np.empty((len(sample_records),2,len(sample_records[0]['Name'])))
+    # Samples are only comparable if they list the same stations in the same order
+    cdef DTYPE_t[:,:,::1] angles=np.zeros((len(sample_records),2,max([len(record['Name']) for record in sample_records])))
+    cdef LONG[::1] stations=np.zeros(len(sample_records),dtype=np.longlong)
+    station_lists={}
     cdef Py_ssize_t i
     cdef Py_ssize_t j
     new_records=[]
     new_multipliers=[]
     for i,record in enumerate(sample_records):
-        # print i,record
+        stations[i]=station_lists.setdefault(tuple(record['Name']),len(station_lists))
         for j in range(len(record['Name'])):
             angles[i,0,j]=record['TakeOffAngle'][j,0]
             angles[i,1,j]=record['Azimuth'][j,0]
     # print multipliers,bin_size,angles
-    multipliers=np.asarray(get_multipliers(angles,bin_size,multipliers)).flatten()
+    multipliers=np.asarray(get_multipliers(angles,bin_size,multipliers,stations)).flatten()
     for i,record in enumerate(sample_records):
         if multipliers[i]>0:
             new_records.append(record)
diff --git a/src/MTfit/extensions/scatangle.py b/src/MTfit/extensions/scatangle.py
index 3511d48..79e6a5e 100644
--- a/src/MTfit/extensions/scatangle.py
+++ b/src/MTfit/extensions/scatangle.py
@@ -164,6 +164,10 @@ def parse_scatangle(filename, number_location_samples=0, bin_size=0, _use_c=True
                 j = i+1
                 multiplier = multipliers[i]
                 while j < len(sample_records):
+                    if sample_records[j]['Name'] != record['Name']:
+                        # Angles are only comparable station by station
+                        j += 1
+                        continue
                     toa_diff = sample_records[j]['TakeOffAngle']-record['TakeOffAngle']
                     az_diff = sample_records[j]['Azimuth']-record['Azimuth']
                     if np.max(np.abs(toa_diff)) < bin_size/2.0 and np.max(np.abs(az_diff)) < bin_size/2.0:
-- 
2.43.0


From 935c1cc1d476a7fcfc280fa396b5b8d6d87ca6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 35/48] fix: projections about a given projection axis

---
 src/MTfit/plot/spherical_projection.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/MTfit/plot/spherical_projection.py b/src/MTfit/plot/spherical_projection.py
index d49b849..5d97d4b 100644
--- a/src/MTfit/plot/spherical_projection.py
+++ b/src/MTfit/plot/spherical_projection.py
@@ -109,19 +109,23 @@ def __project(x, y, z, correction_function, projection_axis=False, lower=True, f
     z = np.array(z)
     if isinstance(projection_axis, (list, np.ndarray)):
         projection_axis = np.array(projection_axis).flatten()
+        # Rotate the projection axis on to the z axis
         rAxis = np.cross(projection_axis, np.array([0, 0, 1]))
-        theta = - np.arcsin(np.sqrt(np.sum(rAxis ^ 2)) /
-                            (np.sqrt(np.sum(projection_axis ^ 2))))
-        rAxis = rAxis/np.sqrt(np.sum(rAxis ^ 2))
+        theta = np.arctan2(np.sqrt(np.sum(rAxis ** 2)), projection_axis[2])
+        if np.any(rAxis):
+            rAxis = rAxis/np.sqrt(np.sum(rAxis ** 2))
+        else:
+            rAxis = np.array([1, 0, 0])
         R = np.matrix([[1, 0, 0], [0, 1, 0], [0, 0, 1]])*np.cos(theta) + \
             np.sin(theta)*np.matrix([[0, -rAxis[2], rAxis[1]],
                                      [rAxis[2], 0, -rAxis[0]],
                                      [-rAxis[1], rAxis[0], 0]]) + \
             (1-np.cos(theta))*(np.matrix(rAxis).T*np.matrix(rAxis))
-        V = R*np.matrix([[x], [y], [z]])
-        x = V[1, :]
-        y = V[2, :]
-        z = V[3, :]
+        V = np.array(R*np.matrix([x.flatten(), y.flatten(), z.flatten()]))
+        shape = x.shape
+        x = V[0, :].reshape(shape)
+        y = V[1, :].reshape(shape)
+        z = V[2, :].reshape(shape)
     X = x*correction_function(x, y, z, lower)
     Y = y*correction_function(x, y, z, lower)
     if not full_sphere:
-- 
2.43.0


From b8f107260cc326da7042b889935dc0577c970038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 36/48] fix: six moment tensors given as 3x3 matrices are
 matrices

---
 src/MTfit/plot/plot_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 39f4091..ba901b4 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -207,7 +207,7 @@ class MTData(object):
         # convert MTs to MT6
         if not isinstance(MTs, np.ndarray):
             MTs = np.array(MTs)
-        if 6 not in MTs.shape:
+        if 6 not in MTs.shape or (len(MTs.shape) == 3 and MTs.shape[-2:] == (3, 3)):
             # MT 33 as (:,3,3) 3 dimensional array
             if MTs.shape[-2:] == (3, 3):
                 # 3x3 matrix
-- 
2.43.0


From bcc8f4f886ec3bab71733c17a9ca78428b0b3c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 37/48] fix: keep the probability of a single moment tensor

---
 src/MTfit/plot/plot_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index ba901b4..aeb8c7b 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -242,7 +242,7 @@ class MTData(object):
         """
         converted = self._get_converted(arg)
         probability = []
-        if len(self.probability) > 1:
+        if len(self.probability) and len(self.probability) == len(self):
             try:
                 probability = self.probability.__getitem__(arg)
             except Exception:
@@ -756,7 +756,7 @@ class MTData(object):
         Returns:
             MTData:  New MTData object with max probability MT samples.
         """
-        if not len(self.probability) > 1:
+        if not len(self.probability) or len(self.probability) != len(self):
             raise ValueError('maximum probability requires probability to be set.')
         idx = self.probability == self.probability.max()
         new = self[:, idx]
-- 
2.43.0


From c73bd3f864eb0872f68ca3419a8f47227676bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 38/48] fix: keep the stiffness tensor when indexing

---
 src/MTfit/plot/plot_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index aeb8c7b..03f8363 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -247,7 +247,7 @@ class MTData(object):
                 probability = self.probability.__getitem__(arg)
             except Exception:
                 probability = self.probability.__getitem__(arg[1])
-        return self.__class__(self.MTs.__getitem__(arg), probability, **converted)
+        return self.__class__(self.MTs.__getitem__(arg), probability, c=self.c, **converted)
 
     def __setitem__(self, arg, value):
         """
-- 
2.43.0


From 0a86abea86d528a2ae7b0e9d28165e1d228a612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 39/48] fix: parameters converted before an assignment follow
 the new moment tensors

---
 src/MTfit/plot/plot_classes.py | 151 +--------------------------------
 1 file changed, 4 insertions(+), 147 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 03f8363..82d65cf 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -378,158 +378,15 @@ class MTData(object):
         """
         Sets the converted parameters for a new MTs set using __setitem__
 
-        If a parameter has been set, the new moment tensors are converted to that parameter and set
-
-        (Includes parent parameters, i.e. those required to calculate the other parameters)
+        If a parameter has been set, it is cleared so that it is converted from the new moment tensors
 
         Args
             arg: index or slice of parameters to set.
         """
         self._clear_dependent_parameters()
-        T, N, P, E = MT6_TNPE(self.MTs[arg])
-        if 'phi1' in self.__dict__.keys():
-            phi, explosion, area_displacement = MT6_biaxes(
-                self.MTs[arg], self.c)
-            try:
-                self.phi1[arg] = (phi[:, :, 0]).T
-            except Exception:
-                self.phi1[arg[1]] = (phi[:, :, 0]).T
-            try:
-                self.phi2[arg] = (phi[:, :, 1]).T
-            except Exception:
-                self.phi2[arg[1]] = (phi[:, :, 1]).T
-            try:
-                self.area_displacement[arg] = area_displacement
-            except Exception:
-                self.area_displacement[arg[1]] = area_displacement
-            try:
-                self.explosion[arg] = explosion
-            except Exception:
-                self.explosion[arg[1]] = explosion
-        if 'T' in self.__dict__.keys():
-            try:
-                self.T[arg] = np.array(np.matrix(T))
-                self.N[arg] = np.array(np.matrix(N))
-                self.P[arg] = np.array(np.matrix(P))
-            except ValueError:
-                self.T[arg] = T.flatten()
-                self.N[arg] = N.flatten()
-                self.P[arg] = P.flatten()
-        if 'N1' in self.__dict__.keys():
-            N1, N2 = TP_FP(self.T, self.P)
-            try:
-                self.N1[arg] = np.matrix(N1)
-                self.N2[arg] = np.matrix(N2)
-            except ValueError:
-                self.N1[arg] = N1.flatten()
-                self.N2[arg] = N2.flatten()
-
-        if 'strike' in self.__dict__.keys():
-            strike, dip, rake = TNP_SDR(T, N, P)
-            try:
-                self.strike[arg] = strike*rad_deg
-            except Exception:
-                self.strike[arg[1]] = strike*rad_deg
-            try:
-                self.dip[arg] = dip*rad_deg
-            except Exception:
-                self.dip[arg[1]] = dip*rad_deg
-            try:
-                self.rake[arg] = rake*rad_deg
-            except Exception:
-                self.rake[arg[1]] = rake*rad_deg
-
-        if 'strike2' in self.__dict__.keys():
-            try:
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-            except Exception:
-                strike, dip, rake = TNP_SDR(T, N, P)
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-
-            try:
-                self.strike2[arg] = strike2*rad_deg
-            except Exception:
-                self.strike2[arg[1]] = strike2*rad_deg
-            try:
-                self.dip2[arg] = dip2*rad_deg
-            except Exception:
-                self.dip2[arg[1]] = dip2*rad_deg
-            try:
-                self.rake2[arg] = rake2*rad_deg
-            except Exception:
-                self.rake2[arg[1]] = rake2*rad_deg
-        if 'gamma' in self.__dict__.keys():
-            gamma, delta = E_GD(E)
-            try:
-                self.gamma[arg] = gamma
-            except Exception:
-                self.gamma[arg[1]] = gamma
-            try:
-                self.delta[arg] = delta
-            except Exception:
-                self.delta[arg[1]] = delta
-
-        if 'tau' in self.__dict__.keys():
-            tau, k = E_tk(E)
-            try:
-                self.tau[arg] = tau
-            except Exception:
-                self.tau[arg[1]] = tau
-            try:
-                self.k[arg] = k
-            except Exception:
-                self.k[arg[1]] = k
-
-        if 'u' in self.__dict__.keys():
-            try:
-                u, v = E_uv(tau, k)
-            except Exception:
-                tau, k = E_tk(E)
-                u, v = E_uv(tau, k)
-            try:
-                self.u[arg] = u
-            except Exception:
-                self.u[arg[1]] = u
-            try:
-                self.v[arg] = v
-            except Exception:
-                self.v[arg[1]] = v
-
-        if 'kappa' in self.__dict__.keys():
-            try:
-                kappa = strike
-                kappa[np.abs(rake) > 90] = strike2[np.abs(rake) > 90]
-                h = dip
-                h[np.abs(rake) > 90] = dip2[np.abs(rake) > 90]
-                h = np.cos(h/rad_deg)
-                sigma = rake
-                sigma[np.abs(rake) > 90] = rake2[np.abs(rake) > 90]
-                kappa = kappa/rad_deg
-                sigma = sigma/rad_deg
-            except Exception:
-                strike, dip, rake = TNP_SDR(T, N, P)
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-                kappa = strike
-                kappa[np.abs(rake) > 90] = strike2[np.abs(rake) > 90]
-                h = dip
-                h[np.abs(rake) > 90] = dip2[np.abs(rake) > 90]
-                h = np.cos(h/rad_deg)
-                sigma = rake
-                sigma[np.abs(rake) > 90] = rake2[np.abs(rake) > 90]
-                kappa = kappa/rad_deg
-                sigma = sigma/rad_deg
-            try:
-                self.kappa[arg] = kappa
-            except Exception:
-                self.kappa[arg[1]] = kappa
-            try:
-                self.h[arg] = h
-            except Exception:
-                self.h[arg[1]] = h
-            try:
-                self.sigma[arg] = sigma
-            except Exception:
-                self.sigma[arg[1]] = sigma
+        # Converted parameters are calculated again from the new moment tensors when required
+        for key in self._calculable+['phi1', 'phi2']:
+            self.__dict__.pop(key, None)
 
     def _convert(self, attr, *args, **kwargs):
         """
-- 
2.43.0


From 6b0845e341b75bef20d23ddd6c6121049dc282f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 40/48] fix: parameters of single moment tensors can be indexed

---
 src/MTfit/plot/plot_classes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 82d65cf..5cd9058 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -240,6 +240,9 @@ class MTData(object):
         Returns
              MTData: new object with the corresponding moment tensors and any converted parameters.
         """
+        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (int, np.integer)):
+            # Keep a single moment tensor as a column
+            arg = (arg[0], [arg[1]])
         converted = self._get_converted(arg)
         probability = []
         if len(self.probability) and len(self.probability) == len(self):
@@ -338,10 +341,11 @@ class MTData(object):
                 if arg is None:
                     converted[key] = getattr(self, key)
                 else:
+                    # Single moment tensors can have scalar converted parameters
                     try:
-                        converted[key] = getattr(self, key).__getitem__(arg)
+                        converted[key] = np.atleast_1d(getattr(self, key)).__getitem__(arg)
                     except Exception:
-                        converted[key] = getattr(self, key).__getitem__(arg[1])
+                        converted[key] = np.atleast_1d(getattr(self, key)).__getitem__(arg[1])
         return converted
 
     def _del_converted(self, arg=None):
@@ -460,8 +464,8 @@ class MTData(object):
             except Exception:
                 self.phi1 = np.atleast_2d(phi[:, 0]).T
                 self.phi2 = np.atleast_2d(phi[:, 1]).T
-            self.area_displacement = area_displacement
-            self.explosion = explosion
+            self.area_displacement = np.array(area_displacement).flatten()
+            self.explosion = np.array(explosion).flatten()
         if attr in ['tau', 'k']:
             tau, k = E_tk(self.E)
             self.tau = tau
-- 
2.43.0


From d9b4e9736640d447579ab018050448ab00ee9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 41/48] fix: workers survive a task that raises

---
 src/MTfit/utilities/multiprocessing_helper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 8d90d90..9d95667 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -91,10 +91,12 @@ class Worker(multiprocessing.Process):
                 if self.single_life:
                     break
                 gc.collect()
-            except Exception as e:
+            except (Exception, SystemExit) as e:
                 self.result_queue.put(e)
                 gc.collect()
-                break
+                # Only a poison pill (or a single life) ends the worker, otherwise there may be no worker left for the queued tasks
+                if self.single_life:
+                    break
         return
 
     def start(self):
-- 
2.43.0


From cd7cab7049916d95210bce6d6d21b1e6901eef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 42/48] fix: do not wait for another result after the last
 return code

---
 src/MTfit/utilities/multiprocessing_helper.py | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 9d95667..c3de932 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -223,15 +223,18 @@ class JobPool(object):
         Returns
             Task result
         """
-        # clean up dead workers
-        self.clean_workers()
-        # Get result
-        result = self.results.get()
-        self.number_jobs -= 1
-        # Check if result is in return codes (errors or otherwise)
-        if isinstance(result, int) and result in RETURN_CODES:
-            result = self.result()
-        return self.rebuild_ln_pdf(result)
+        while True:
+            # clean up dead workers
+            self.clean_workers()
+            # Get result
+            result = self.results.get()
+            self.number_jobs -= 1
+            # Check if result is in return codes (errors or otherwise), it can only be skipped if there is another result to come
+            if not self.is_return_code(result) or not self.number_jobs:
+                return self.rebuild_ln_pdf(result)
+
+    def is_return_code(self, result):
+        return isinstance(result, int) and result in RETURN_CODES
 
     def rebuild_ln_pdf(self, result):
         if isinstance(result, dict):
@@ -260,7 +263,9 @@ class JobPool(object):
         results = []
         # Loop over all un-returned jobs
         while self.number_jobs:
-            results.append(self.result())
+            result = self.result()
+            if not self.is_return_code(result):
+                results.append(result)
         return results
 
     def close(self):
-- 
2.43.0


From a7dcd9e88a67c32a12e5e58f3561d1812d1419c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:21 +0000
Subject: [PATCH 43/48] fix: a pickled LnPDF can be loaded again

---
 src/MTfit/probability/probability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 5fbade3..2cb47e2 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -1049,7 +1049,10 @@ class LnPDF(object):
     def __getstate__(self):
         return self._ln_pdf, self.dV
 
-    def __setstate__(self, ln_pdf, dV):
+    def __setstate__(self, ln_pdf, dV=None):
+        if dV is None:
+            # Unpickling passes the state as returned by __getstate__
+            ln_pdf, dV = ln_pdf
         self._set_ln_pdf(ln_pdf)
         self._set_dv(dV)
 
-- 
2.43.0


From 3cd7817c427398925dccf7fc2b3955215c41c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 44/48] fix: a result that cannot be pickled does not block the
 pool

---
 src/MTfit/utilities/multiprocessing_helper.py | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index c3de932..5db5152 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -14,7 +14,7 @@ Handles multiprocessing queue and worker behaviour, including return codes
 import multiprocessing
 import gc
 import os
-
+import pickle
 
 from ..probability import LnPDF
 
@@ -87,18 +87,33 @@ class Worker(multiprocessing.Process):
                     for key, value in answer.items():
                         if isinstance(value, LnPDF):
                             answer[key] = {'ln_pdf_obj': value.__getstate__()}
-                self.result_queue.put(answer)
+                self.put_result(answer)
                 if self.single_life:
                     break
                 gc.collect()
             except (Exception, SystemExit) as e:
-                self.result_queue.put(e)
+                self.put_result(e)
                 gc.collect()
                 # Only a poison pill (or a single life) ends the worker, otherwise there may be no worker left for the queued tasks
                 if self.single_life:
                     break
         return
 
+    def put_result(self, result):
+        """
+        Put the result on the result queue
+
+        A result that cannot be sent to the main process would be lost (and waited for), so an exception is sent in its place.
+
+        Args
+            result: result to send.
+        """
+        try:
+            pickle.loads(pickle.dumps(result, pickle.HIGHEST_PROTOCOL))
+        except Exception as e:
+            result = RuntimeError('{!r} cannot be returned from the worker: {!r}'.format(result, e))
+        self.result_queue.put(result)
+
     def start(self):
         print(self.name, 'Starting')
         super(Worker, self).start()
-- 
2.43.0


From e08f85b2da9784cc68372d554fbe0ccb4209cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 45/48] fix: closing the pool does not wait for unread results

---
 src/MTfit/utilities/multiprocessing_helper.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 5db5152..b83727f 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -15,6 +15,10 @@ import multiprocessing
 import gc
 import os
 import pickle
+try:
+    import queue
+except ImportError:
+    import Queue as queue
 
 from ..probability import LnPDF
 
@@ -169,6 +173,8 @@ class JobPool(object):
         self.number_workers = number_workers
         self.single_life = single_life
         self.number_jobs = 0
+        # Results received when closing
+        self.uncollected = []
         # Add new workers until the number of workers is correct
         self.clean_workers()
         print('Job Pool Initialised')
@@ -242,7 +248,10 @@ class JobPool(object):
             # clean up dead workers
             self.clean_workers()
             # Get result
-            result = self.results.get()
+            if self.uncollected:
+                result = self.uncollected.pop(0)
+            else:
+                result = self.results.get()
             self.number_jobs -= 1
             # Check if result is in return codes (errors or otherwise), it can only be skipped if there is another result to come
             if not self.is_return_code(result) or not self.number_jobs:
@@ -293,6 +302,11 @@ class JobPool(object):
         for i in range(self.number_workers):
             # Add poison pill
             self.tasks.put(PoisonPill())
-        # Join workers to main thread
+        # Join workers to main thread, workers can only end when there is room for their results
         for w in self.workers:
+            while w.is_alive():
+                try:
+                    self.uncollected.append(self.results.get(timeout=0.1))
+                except queue.Empty:
+                    pass
             w.join()
-- 
2.43.0


From f94e7b958db929ceda409fe420f9baf35a92873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 46/48] fix: blank lines separate the events of a CSV file

---
 src/MTfit/utilities/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 41e7014..740328e 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -347,7 +347,7 @@ def parse_csv(filename):
     event = []
     # Loop over lines
     for l in lines:
-        if not len(l.split(',')[0]) and not len(l.split(',')[1]):
+        if not l.strip() or (not len(l.split(',')[0]) and not len(l.split(',')[1])):
             # End OF event
             if len(event):
                 events_list.append(event)
-- 
2.43.0


From d5ce2477d2866a64ef5d432b7ef236df871a9393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 47/48] fix: CSV events with the same content keep their own
 numbers

---
 src/MTfit/utilities/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 740328e..7b47d48 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -398,8 +398,8 @@ def _parse_csv_events(events_list):
     take_off_angle_index = 2
     error_index = 4
     # Loop over events
-    for event in events_list:
-        event_dict = {'UID': str(events_list.index(event)+1)}
+    for event_number, event in enumerate(events_list):
+        event_dict = {'UID': str(event_number+1)}
         # Set up generic dictionary
         key_dict = {'Stations': {
             'Name': [], 'TakeOffAngle': [], 'Azimuth': []}, 'Measured': [], 'Error': []}
-- 
2.43.0


From 53cdba2af0bf3464659c790365299b14c17b8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 48/48] fix: scale factors are written for joint inversions

---
 src/MTfit/utilities/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 7b47d48..8a6ff36 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -601,10 +601,10 @@ def _convert_mt_space_to_struct(output_data, i=False):
     else:
         sf_output = ''
     if 'scale_factors' in output_data:
-        n_events = output_data['scale_factors']['mu'].shape[1]
+        n_events = output_data['scale_factors'][0]['mu'].shape[1] if len(output_data['scale_factors']) else 0
         sf_output = struct.pack('QQQ', output_data['total_number_samples'], len(output_data['scale_factors']), n_events)
         for i, sf in enumerate(output_data['scale_factors']):
-            sf_output += struct.pack('dd', output_data['probability'][0, i], output_data['ln_pdf'][0, i])
+            sf_output += struct.pack('dd', np.asarray(output_data['probability']).flatten()[i], np.asarray(output_data['ln_pdf']).flatten()[i])
             # Add data for each event - Loops over off diagonal elements
             k = 0
             _l = 1
-- 
2.43.0

