From eb4eed44a9b1c5c76fd3c6748906d5be8e0aaa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:44 +0000
Subject: [PATCH 01/86] fix: compute_Tpi returns each series' own fixed
 transition matrix

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 23ac6f7..e7d24a6 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1589,7 +1589,7 @@ class HSMMFamily(GSMMFamily):
             ps = []
 
             for series in range(n_series):
-                T, pi = series_Tpi(
+                Ts, pis = series_Tpi(
                     series,
                     [
                         y_split[series] if y_split is not None else None
@@ -1601,7 +1601,7 @@ class HSMMFamily(GSMMFamily):
                     ],
                 )
 
-                ps.append([T, pi])
+                ps.append([Ts, pis])
 
         else:  # Compute in parallel
 
-- 
2.43.0


From e6c9cd84c12717cbbd3af0d136a1530c54b8bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:44 +0000
Subject: [PATCH 02/86] fix: keep the sign of the auto-correlation parameter in
 event-template models

---
 src/mssm/src/python/hsmm.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index e7d24a6..0d41abb 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -22,6 +22,24 @@ except ImportError:
     HAS_MP = False
 
 
+def _get_rho(Lrhoi: scp.sparse.csc_array) -> float:
+    """Recovers the (signed) auto-correlation parameter from the inverse of the transpose of the
+    cholesky of the ar1 co-variance matrix.
+
+    :param Lrhoi: Inverse of the transpose of the cholesky of the co-variance matrix (before
+        scaling) of an ar1 model.
+    :type Lrhoi: scp.sparse.csc_array
+    :return: The auto-correlation parameter
+    :rtype: float
+    """
+    # Off-diagonal elements are zero at the start of a series and -rho/sqrt(1-rho^2) otherwise
+    off = Lrhoi.diagonal(1)
+    idx = np.flatnonzero(off)
+    if len(idx) == 0:
+        return 0.0
+    return -off[idx[0]] / Lrhoi[idx[0] + 1, idx[0] + 1]
+
+
 def _split_matrices(
     ys: list[np.ndarray | None],
     Xs: list[scp.sparse.csc_array | None],
@@ -1382,7 +1400,7 @@ class HSMMFamily(GSMMFamily):
 
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _get_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -1912,7 +1930,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _get_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2154,7 +2172,7 @@ class HSMMFamily(GSMMFamily):
         # called by get_resid) - of course only if ``Lrhoi`` was provided to constructor
         rho = None
         if self.llkargs[16] is not None:
-            rho = np.sqrt(-1 * (np.power(1 / self.llkargs[16][1, 1], 2) - 1))
+            rho = _get_rho(self.llkargs[16])
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2400,7 +2418,7 @@ class HSMMFamily(GSMMFamily):
         # called by get_resid) - of course only if ``Lrhoi`` was provided to constructor
         rho = None
         if self.llkargs[16] is not None:
-            rho = np.sqrt(-1 * (np.power(1 / self.llkargs[16][1, 1], 2) - 1))
+            rho = _get_rho(self.llkargs[16])
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2757,7 +2775,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _get_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -3002,7 +3020,7 @@ class HSMMFamily(GSMMFamily):
         if Lrhoi is not None:
             d0 = Lrhoi.diagonal()
             llc = np.log(d0[d0 != 1]).sum()
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _get_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -4186,7 +4204,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _get_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
-- 
2.43.0


From 72f57c4d46765ea0146a94a34e1687b638d9f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:44 +0000
Subject: [PATCH 03/86] fix: fixed event durations in time-varying
 event-template models

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 0d41abb..b59b8f8 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -710,7 +710,7 @@ def _compute_series_probs(
                 lpd[int(event_width - 1)] = 0
 
                 if tvdtpi:
-                    lpd = [lpd for _ in range(D - 1)]
+                    lpd = np.split(lpd, D - 1)
             else:
                 raise ValueError(f"Need distribution duration family for state {j}.")
 
@@ -3708,7 +3708,7 @@ class HSMMFamily(GSMMFamily):
                         lpd[int(event_width - 1)] = 0
 
                         if tvdtpi:
-                            lpd = [lpd for _ in range(D - 1)]
+                            lpd = np.split(lpd, D - 1)
                     else:
                         raise ValueError(
                             f"Need distribution duration family for state {j}."
-- 
2.43.0


From 2fc16686cda8ba206e9a5ac604ff473c27b56a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:44 +0000
Subject: [PATCH 04/86] fix: shape of time-varying transition matrix of
 two-state models

---
 src/mssm/src/python/hsmm.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index b59b8f8..75e8408 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -778,9 +778,6 @@ def _compute_series_probs(
             T[0, 1] = 1
             T[1, 0] = 1
 
-            if tvdtpi:
-                T = np.stack([T for _ in range(n_T)], axis=2)
-
         if log:
             T = np.log(T)
 
-- 
2.43.0


From 36fe1d4e3dd34150e84d634ee1761ec19d060290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:52 +0000
Subject: [PATCH 05/86] fix: log-likelihood correction of event-template models
 with ar1 residuals

---
 src/mssm/src/python/hsmm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 75e8408..f40c35d 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -3089,8 +3089,9 @@ class HSMMFamily(GSMMFamily):
         if np.isnan(llk):
             llk = -np.inf
 
-        # Correct for potential ar1 model
-        llk -= llc
+        # Correct for potential ar1 model: add log-determinant of the whitening transform applied to
+        # each of the M signals
+        llk += M * llc
 
         return llk
 
-- 
2.43.0


From 65ba784bd66f1e8519f9fe80b0bd6848a9ed8a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:22 +0000
Subject: [PATCH 06/86] fix: gradient of initial-state coefficients with
 time-varying durations

---
 src/mssm/src/cpp/hsmm/llk.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/llk.cpp b/src/mssm/src/cpp/hsmm/llk.cpp
index 4539235..418063f 100644
--- a/src/mssm/src/cpp/hsmm/llk.cpp
+++ b/src/mssm/src/cpp/hsmm/llk.cpp
@@ -1392,7 +1392,9 @@ py::array_t<
                         
                         // Only need deriv of (\sum_{i \in S/j} lam(t-1,1,i)*T(i,j)) * bs(t,j)*
                         // ds(d,j) - same as before:
-                        psi(t1,d,j,tci) += tpg*bs(t,j)*ds(d,(starts_with_first) ? j : j + n_S);
+                        psi(t1,d,j,tci) += tpg*bs(t,j)*((tvdtpi) ?
+                                           ds(d,(starts_with_first) ? j : j + n_S,t):
+                                           ds(d,(starts_with_first) ? j : j + n_S));
 
                         tci += 1;
                     }
-- 
2.43.0


From 0ec1381a088073992210529360486ed5b4103d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:50 +0000
Subject: [PATCH 07/86] fix: posterior state sampling evaluates time-varying
 durations at the onset sample

---
 src/mssm/src/cpp/hsmm/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index d602a2c..a084faf 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -525,7 +525,7 @@ std::tuple<
                     state_probs[i] = lam(t-1,0,i) *
                                         ((tvdtpi) ? T(i,tmp_j,t-1): T(i,tmp_j)) *
                                         ((tvdtpi) ?
-                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t-1)
+                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t)
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
-- 
2.43.0


From ab47c706df46a660375be95b60bd311745663301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:50 +0000
Subject: [PATCH 08/86] fix: posterior state sampling of event-template models
 with ar1 residuals

---
 src/mssm/src/cpp/hsmm/decode.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index a084faf..d80ffe6 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -514,6 +514,14 @@ std::tuple<
                     if ((tmp_ed + 1) <= (D - 2))
                     {
                         state_probs[i] = lam(t-1,tmp_ed+1,i);
+
+                        // Emissions only cancel if they do not depend on whether the state is
+                        // entered or continued. This is not the case for the flats of a hmp with ar1
+                        // residuals (see forward pass above).
+                        if (hmp_code != 0 && (tmp_j % 2 == 0))
+                        {
+                            state_probs[i] *= bs(t,0,tmp_j);
+                        }
                     }
                     else
                     {
@@ -529,6 +537,11 @@ std::tuple<
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
+
+                    if (hmp_code != 0 && (tmp_j % 2 == 0))
+                    {
+                        state_probs[i] *= bs(t,1,tmp_j);
+                    }
                 }
             }
             
-- 
2.43.0


From 99b789f88b6bc6a8025bd41450bfd7b33eeaa69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:19 +0000
Subject: [PATCH 09/86] fix: predictive residuals of hsmms use the mean of the
 matching signal

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 162576c..3e15e2e 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -502,7 +502,7 @@ py::array_t<
                         {   
                             // Expected value for signal m
 
-                            elam(t,m,d,j) += tp * mus(t,j) *
+                            elam(t,m,d,j) += tp * mus(t,m,j) *
                                             ((tvdtpi) ? ds(d,(starts_with_first) ? j : j + n_S,t):
                                                         ds(d,(starts_with_first) ? j : j + n_S));
 
-- 
2.43.0


From cc05074ba357d07ee4dd2cddb8d8723f3476cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:19 +0000
Subject: [PATCH 10/86] fix: out-of-bounds read in predictive residuals of
 event-template models with ar1 residuals

---
 src/mssm/src/cpp/hsmm/resid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 3e15e2e..057e805 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -476,9 +476,9 @@ py::array_t<
                                                  ds(d,(starts_with_first) ? j : j + n_S,t):
                                                  ds(d,(starts_with_first) ? j : j + n_S));
                             }
-                            else if (rho < 999)
+                            else if (rho < 999 && j > 0)
                             {
-                                // Lag of previous bump carries over
+                                // Lag of previous bump carries over (only for states > 0)
                                 ebump = d1 * weights(event_width-1) * mus(t-1,m,j-1);
 
                                 elam(t,m,d,j) += tp * ebump *
-- 
2.43.0


From 5ce10f1fcda871e3c951ba23da140c2cf485c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:19 +0000
Subject: [PATCH 11/86] fix: duration residual of series that never leave their
 first state

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index f40c35d..8a6614e 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1079,7 +1079,7 @@ def _compute_dur_res_series(
         t += 1
 
     # Catch dur from last state
-    dj_idx = j if (starts_with_first is True) else j + n_S
+    dj_idx = j if (transitions == 0 or starts_with_first is True) else j + n_S
 
     if mus_d[dj_idx] is None:
         res[j] = None
-- 
2.43.0


From 3ef825205adb1ed8963e96d7c88819dfa209331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:19 +0000
Subject: [PATCH 12/86] fix: duration residuals of time-varying models use the
 distribution at state onset

---
 src/mssm/src/python/hsmm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 8a6614e..aa3ea61 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1055,6 +1055,7 @@ def _compute_dur_res_series(
     j = states[0]
     transitions = 0
     t = 0
+    onset = 0  # Time-point at which current state started
 
     for s in states:
         if s == j:
@@ -1069,12 +1070,13 @@ def _compute_dur_res_series(
             else:
                 d_res = d_fams[(dj_idx)].get_resid(
                     np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-                )[t if tvdtpi else 0, 0]
+                )[onset if tvdtpi else 0, 0]
 
                 # And collect
                 res[j].append(d_res)
             j = s
             d = 1
+            onset = t
             transitions += 1
         t += 1
 
@@ -1086,7 +1088,7 @@ def _compute_dur_res_series(
     else:
         d_res = d_fams[(dj_idx)].get_resid(
             np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-        )[t - 1 if tvdtpi else 0, 0]
+        )[onset if tvdtpi else 0, 0]
 
         res[j].append(d_res)
 
-- 
2.43.0


From f68366317ddf43a4a78d41e3161957435398694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:19 +0000
Subject: [PATCH 13/86] fix: duration residuals use the transition matrix and
 data of the series they belong to

---
 src/mssm/src/python/hsmm.py | 45 +++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index aa3ea61..22bfd3e 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -2670,19 +2670,8 @@ class HSMMFamily(GSMMFamily):
 
             elif resid_type == "viterbi_dur":
 
-                # Decode viterbi path
-                viterbi = self.decode_viterbi(
-                    coef,
-                    coef_split_idx,
-                    ys,
-                    Xs,
-                    sid=np.array([0]),
-                    tid=np.array([0]),
-                    n_cores=1,
-                )
-
                 res_sep = _compute_dur_res_series(
-                    viterbi[0][1], n_S, mus_d, d_fams, starts_with_first, tvdtpi
+                    decoded[series][1], n_S, mus_d, d_fams, starts_with_first, tvdtpi
                 )
 
                 # Compute residual of duration MAP under model for stage durations
@@ -2698,25 +2687,13 @@ class HSMMFamily(GSMMFamily):
                 res = res.reshape(1, -1)
 
             elif resid_type == "posterior_dur":
-                state_samples = self.sample_posterior_states(
-                    coef,
-                    coef_split_idx,
-                    ys,
-                    Xs,
-                    n_samples=n_samples,
-                    seed=seed,
-                    sid=np.array([0]),
-                    tid=np.array([0]),
-                    n_cores=1,
-                )
-
                 res = np.zeros((1, n_S, n_samples))
 
                 for s in range(n_samples):
 
                     # Extract durations given sampled series
                     res_sep = _compute_dur_res_series(
-                        state_samples[0][1][:, s],
+                        decoded[series][1][:, s],
                         n_S,
                         mus_d,
                         d_fams,
@@ -2794,6 +2771,24 @@ class HSMMFamily(GSMMFamily):
             Lrhoi,
         )
 
+        # Duration residuals require state sequences of every series
+        decoded = None
+        if resid_type == "viterbi_dur":
+            decoded = self.decode_viterbi(
+                coef, coef_split_idx, ys, Xs, sid=sid, tid=tid
+            )
+        elif resid_type == "posterior_dur":
+            decoded = self.sample_posterior_states(
+                coef,
+                coef_split_idx,
+                ys,
+                Xs,
+                n_samples=n_samples,
+                seed=seed,
+                sid=sid,
+                tid=tid,
+            )
+
         # Now compute llk for every individual series and then sum up
         res = []
         if n_cores == 1 or HAS_MP is False:
-- 
2.43.0


From 131e711ad47bae044cf5557cbb9b3ba2ef348816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:26 +0000
Subject: [PATCH 14/86] fix: simulated transitions of time-varying models use
 the matrix of the last sample of the state being left

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 22bfd3e..b6b4ba1 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1813,7 +1813,7 @@ class HSMMFamily(GSMMFamily):
                         else:
                             state = np_gen.choice(
                                 state_vals,
-                                p=Ts[state, :, t] if tvdtpi else Ts[state, :],
+                                p=Ts[state, :, t - 1] if tvdtpi else Ts[state, :],
                             )
 
                             dur = np_gen.choice(
-- 
2.43.0


From 356d511d80838eeba05ce80fedf92a9e578d8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:05 +0000
Subject: [PATCH 15/86] fix: identifiability constraint of re-parameterized te
 terms applies to the re-parameterized basis

---
 src/mssm/src/python/formula.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 23f312d..6657521 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1645,6 +1645,10 @@ class Formula:
                     )
 
                 if sterm.te:
+                    if sterm.should_rp > 0:
+                        # Constraint has to apply to the re-parameterized marginals
+                        matrix_term_v = matrix_term_v @ sterm.RP[vi].C
+
                     if vi == 0:
                         matrix_term = matrix_term_v
                     else:
-- 
2.43.0


From 485ba30d7ec5ac8a95444935eed8e00feac0ec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:05 +0000
Subject: [PATCH 16/86] fix: formulas whose only smooth terms are factor
 smooths

---
 src/mssm/src/python/formula.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 6657521..25b1155 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1688,6 +1688,9 @@ class Formula:
         sti = self.get_smooth_term_idx()
         sti = [ti for ti in sti if isinstance(self.terms[ti], fs) is False]
 
+        if len(sti) == 0:
+            return
+
         term_var = [self.terms[ti].variables for ti in sti]
         n_term_var = [len(tvar) for tvar in term_var]
         max_var = np.max(n_term_var)
-- 
2.43.0


From 9fe2449c20834a741067573524297307275ddc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:05 +0000
Subject: [PATCH 17/86] fix: re-parameterized tensor terms with drop or
 difference constraints

---
 src/mssm/src/python/terms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index cabc121..aa034ad 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -598,7 +598,13 @@ class f(GammTerm):
             )
 
             if self.is_identifiable and self.te is False:
-                A = A @ constraint.Z
+                if constraint.type == ConstType.QR:
+                    A = A @ constraint.Z
+                elif constraint.type == ConstType.DROP:
+                    A = np.delete(A, constraint.Z, axis=1)
+                elif constraint.type == ConstType.DIFF:
+                    A = np.diff(np.roll(A, -constraint.Z, axis=1))
+                    A = np.roll(A, constraint.Z, axis=1)
                 id_k -= 1
 
             # Need inverse of A
-- 
2.43.0


From ce7b9d566c68d6a6db1859f899c8c874b42f261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:52 +0000
Subject: [PATCH 18/86] fix: binary smooths of several variables accept a list
 of basis dimensions

---
 src/mssm/src/python/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index aa034ad..c332600 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -390,7 +390,7 @@ class f(GammTerm):
             # subtracted after identifiability constraints have been observed,
             # while for all other terms mssm acts as if one additional coef was requested.
             if te is False:
-                nk = nk + 1
+                nk = [nki + 1 for nki in nk] if isinstance(nk, list) else nk + 1
 
         # Default penalty setup
         if penalty is None:
-- 
2.43.0


From 806b9263395f1635ca43eeaddf2e4e196d4e11da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:52 +0000
Subject: [PATCH 19/86] fix: un-penalized impulse response smooths no longer
 shift later penalties

---
 src/mssm/src/python/formula.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 25b1155..67067ad 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -2123,12 +2123,7 @@ def build_penalties(formula) -> list[LambdaTerm]:
         if not irsterm.is_penalized:
             if len(penalties) == 0:
 
-                added_not_penalized = n_coef
-                if irsterm.by is not None:
-                    added_not_penalized *= len(by_levels)
-                start_idx += added_not_penalized
-                cur_pen_idx = start_idx
-
+                # Coefficients of this term are already included in unpenalized_coef
                 if formula.print_warn:
                     warnings.warn(
                         (
-- 
2.43.0


From 659570be96a6aa2cb306d8c9fa8d40c21bcc22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:07 +0000
Subject: [PATCH 20/86] fix: nested smooths evaluate the basis functions that
 were kept

---
 src/mssm/src/python/terms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index c332600..fd54c14 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -1355,9 +1355,16 @@ class f(GammTerm):
             raise KeyError("Not all model matrix columns were created.")
 
         # Find basis elements > 0 and collect correspondings elements and row indices
+        kept_cols = [
+            m_coli
+            for m_coli in range(
+                f_cols + (0 if self.drop_coef is None else len(self.drop_coef))
+            )
+            if self.drop_coef is None or m_coli not in self.drop_coef
+        ]
         for m_coli in range(f_cols):
             final_ridx = term_ridx[m_coli]
-            final_col = matrix_term[final_ridx, m_coli % m_cols]
+            final_col = matrix_term[final_ridx, kept_cols[m_coli] % m_cols]
 
             # Tolerance row index for this columns
             cidx = abs(final_col) > tol
-- 
2.43.0


From ef93b6beb1a48591340181a9e4935ca11fa56d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:45 +0000
Subject: [PATCH 21/86] fix: check for nested smooths with factors that share
 level labels

---
 src/mssm/src/python/formula.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 67067ad..eb4dcad 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1715,7 +1715,9 @@ class Formula:
                 if sterm.by is not None:
 
                     by_levels = self.factor_levels[sterm.by]
-                    ext_vars.extend([var + "_" + str(lvl) for lvl in by_levels])
+                    ext_vars.extend(
+                        [var + "_" + sterm.by + "_" + str(lvl) for lvl in by_levels]
+                    )
                 else:
                     ext_vars.append(var)
 
-- 
2.43.0


From 361aeccad876db374ff57a515d6d5a4c49b469a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:04 +0000
Subject: [PATCH 22/86] fix: coefficient names of impulse response terms

---
 src/mssm/src/python/formula.py | 2 +-
 src/mssm/src/python/terms.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index eb4dcad..0c315cb 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -824,7 +824,7 @@ class Formula:
             irsterm = terms[irsti]
 
             t_total_coef, t_unpenalized_coef, t_coef_names = irsterm.get_coef_info(
-                self.has_intercept, factor_levels
+                irsti, factor_levels
             )
 
             self.coef_names.extend(t_coef_names)
diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index fd54c14..9d8bd20 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -2221,13 +2221,14 @@ class irf(GammTerm):
 
         if self.by is not None:
             by_levels = factor_levels[self.by]
-            n_coef *= len(by_levels)
 
             for by_level in by_levels:
                 coef_names.extend(
                     [f"irf_{ti}_{var_label}_{ink}_{by_level}" for ink in range(n_coef)]
                 )
 
+            n_coef *= len(by_levels)
+
         else:
             coef_names.extend([f"irf_{ti}_{var_label}_{ink}" for ink in range(n_coef)])
 
-- 
2.43.0


From 73e3633f42374941461597ede5f061003e8fd3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:34 +0000
Subject: [PATCH 23/86] fix: levels are listed in the order of a user-specified
 codebook

---
 src/mssm/src/python/formula.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 0c315cb..f0835c7 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -754,6 +754,10 @@ class Formula:
                         # print(len(rf_fac[sub_fac == by_subgroup[1]]))
                         levels = np.unique(rf_fac[sub_fac == by_subgroup[1]])
 
+                if codebook is not None and var in codebook:
+                    # Order of levels has to match order of (by-)columns in the model matrix
+                    levels = levels[np.argsort([codebook[var][c] for c in levels])]
+
                 self.factor_codings[var] = {}
                 self.coding_factors[var] = {}
                 self.factor_levels[var] = levels
-- 
2.43.0


From c8dcf229a602262a92650978ec2f7455f22ebcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:39 +0000
Subject: [PATCH 24/86] fix: rank of constrained ridge penalties

---
 src/mssm/src/python/penalties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index d0ee801..8901693 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -557,6 +557,9 @@ class DifferencePenalty(Penalty):
                 S = D @ D.T
 
             if m == 0:
+                # Without a kernel, the constraint costs one dimension
+                rank -= 1
+
                 # Re-compute root
                 eig, U = scp.linalg.eigh(S)
                 D = U @ np.diag(
-- 
2.43.0


From 5ca49667b88406353f6be5f77ebd3223d378b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:39 +0000
Subject: [PATCH 25/86] fix: root of distance penalties

---
 src/mssm/src/python/penalties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index 8901693..c34cbd0 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -640,7 +640,7 @@ class IdentityPenalty(Penalty):
             elements,
             idx,
             idx,
-            elements,
+            [np.sqrt(element) for element in elements],
             idx,
             idx,
             n,
-- 
2.43.0


From 8ac3a6f1851d287b2dfd714c27cee0b89cf857b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:57 +0000
Subject: [PATCH 26/86] fix: Demmler & Reinsch re-parameterization keeps the
 rank of the penalty for large data

---
 src/mssm/src/python/repara.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/repara.py b/src/mssm/src/python/repara.py
index f8ee9cf..9dcde4e 100644
--- a/src/mssm/src/python/repara.py
+++ b/src/mssm/src/python/repara.py
@@ -213,17 +213,21 @@ def reparam(
         s = np.flip(s)
         U = scp.sparse.csc_array(np.flip(U, axis=1))
 
-        rank = len(s[s > 1e-7])
+        # Re-parameterization is a congruence transformation so rank of S is preserved. Should not be
+        # based on s directly, since magnitude of s depends on X (i.e., on number of observations).
+        s_S = scp.linalg.eigvalsh(S.toarray())
+        rank = np.sum(s_S > max(s_S) * sys.float_info.epsilon**0.7)
+        rank = min(rank, len(s[s > 0]))
 
         # First rank elements are non-zero - corresponding to penalized functions,
         # last S.shape[1] - rank are zero corresponding to dimensionality of kernel of S
         Srp = scp.sparse.diags(
-            [s[i] if s[i] > 1e-7 else 0 for i in range(S.shape[1])],
+            [s[i] if i < rank else 0 for i in range(S.shape[1])],
             offsets=0,
             format="csc",
         )
         Drp = scp.sparse.diags(
-            [s[i] ** 0.5 if s[i] > 1e-7 else 0 for i in range(S.shape[1])],
+            [s[i] ** 0.5 if i < rank else 0 for i in range(S.shape[1])],
             offsets=0,
             format="csc",
         )
@@ -243,9 +247,9 @@ def reparam(
             # Transform S to identity as described in Wood et al. (2013). Form inverse of root of
             # transformed S for all cells not covering a kernel function. For those simply insert 1.
             # Then post-multiply transformed X (or equivalently C) by it.
-            IRrp = [1 / s[i] ** 0.5 if s[i] > 1e-7 else 1 for i in range(S.shape[1])]
+            IRrp = [1 / s[i] ** 0.5 if i < rank else 1 for i in range(S.shape[1])]
             Srp = scp.sparse.diags(
-                [1 if s[i] > 1e-7 else 0 for i in range(S.shape[1])],
+                [1 if i < rank else 0 for i in range(S.shape[1])],
                 offsets=0,
                 format="csc",
             )
-- 
2.43.0


From 58f149f02619ad2ada795d000419b5aeb532838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:58 +0000
Subject: [PATCH 27/86] fix: kernel dimension of the total penalty counts all
 un-penalized coefficients

---
 src/mssm/src/python/repara.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/repara.py b/src/mssm/src/python/repara.py
index 9dcde4e..dda0c51 100644
--- a/src/mssm/src/python/repara.py
+++ b/src/mssm/src/python/repara.py
@@ -361,7 +361,7 @@ def reparam(
         eps = sys.float_info.epsilon**0.7
 
         # Number of un-penalized dimensions (Kernel space dimension of total S_\\lambda; Wood, 2011)
-        Mp = Sj_reps[0].start_index
+        Mp = n_coef
         for grp_idx, SJgroup, LJgroup in zip(SJ_term_idx, SJs, ljs):
 
             for rpidx in range(len(SJgroup)):
@@ -382,7 +382,7 @@ def reparam(
 
             Ur = U[:, D > max(D) * eps]
             r = Ur.shape[1]  # Range dimension
-            Mp += normed_S.shape[1] - r
+            Mp -= r * Sj_reps[grp_idx[0]].rep_sj
 
             # Initial re-parameterization as discussed by Wood (2011)
             if r < normed_S.shape[1]:
-- 
2.43.0


From 9ac3a11da071a0fbae3a82b44995bf3e339999b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:17 +0000
Subject: [PATCH 28/86] fix: total penalty of terms whose dominant penalty
 spans the whole range

---
 src/mssm/src/python/repara.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/repara.py b/src/mssm/src/python/repara.py
index dda0c51..cae2544 100644
--- a/src/mssm/src/python/repara.py
+++ b/src/mssm/src/python/repara.py
@@ -596,7 +596,9 @@ def reparam(
 
             if S_rep is None:  # Fix r==Q in first iteration
                 S_rep = SJbar[0] * LJgroup[0]
-                Q_rep = scp.sparse.eye(r, format="csc")
+                for j in range(1, len(SJbar)):
+                    S_rep = S_rep + SJbar[j] * LJgroup[j]
+                Q_rep = scp.sparse.eye(normed_S.shape[1], format="csc")
 
             S_reps.append(scp.sparse.csc_array(S_rep))
 
-- 
2.43.0


From 10fc744aab8b9efd06faa32bf82ec28a919580b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:07 +0000
Subject: [PATCH 29/86] fix: cpp_solve_LXX calls the solver that exists

---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4fa8b46..4bf6294 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -395,7 +395,7 @@ def cpp_solve_LXX(
         success
     :rtype: tuple[scp.sparse.csc_array,list[int],int]
     """
-    return eigen_solvers.cpp_solve_LXX(*map_csc_to_eigen(A))
+    return eigen_solvers.solve_LXX(*map_csc_to_eigen(A))
 
 
 def cpp_solve_tr(
-- 
2.43.0


From 778b0be2ee884e181e13d1c6ae7daeec05183199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:07 +0000
Subject: [PATCH 30/86] fix: trace of null-space penalties selects the columns
 of the term

---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4bf6294..945151c 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -667,7 +667,7 @@ def compute_B(
 
             D_idx = np.arange(
                 lTerm.start_index + NULL_idx,
-                lTerm.S_J.shape[1] * (lTerm.rep_sj + 1),
+                lTerm.start_index + lTerm.S_J.shape[1] * lTerm.rep_sj,
                 lTerm.S_J.shape[1],
             )
 
-- 
2.43.0


From 89457640bdd319ea6ca2b17be9a399935e111e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:11 +0000
Subject: [PATCH 31/86] fix: trace of penalties when coefficients are dropped

---
 src/mssm/src/python/matrix_solvers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 945151c..e125fc8 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -679,9 +679,7 @@ def compute_B(
             D_end = lTerm.start_index + D_len
             D_idx = idx[D_start:D_end]
 
-            # Now check if dropped column is included, if so remove and update length.
-            D_idx = D_idx[np.isin(D_idx, drop) == False]  # noqa: E712
-            D_len = len(D_idx)
+            # Dropped coefficients are rows of the root - all columns are still needed.
             PD = P @ lTerm.D_J_emb[:, D_idx][keep, :]
 
         D_r = int(D_len / 2000)
-- 
2.43.0


From 291e77ec19bb2ef51155d304aedd8ec670e17d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:56 +0000
Subject: [PATCH 32/86] fix: sign of the derivative of the inverse Cholesky
 factor

---
 src/mssm/src/cpp/dchol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/dchol.cpp b/src/mssm/src/cpp/dchol.cpp
index a57a06f..14dfb18 100644
--- a/src/mssm/src/cpp/dchol.cpp
+++ b/src/mssm/src/cpp/dchol.cpp
@@ -80,7 +80,7 @@ Eigen::MatrixXd invdChol(const Eigen::Ref<Eigen::MatrixXd,0,Eigen::Stride<Eigen:
                 {
                     Eigen::MatrixXd dC = dChol(R,A);
 
-                    return (Rinv*dC)*Rinv;
+                    return -1.0*((Rinv*dC)*Rinv);
                 }
 
 Eigen::MatrixXd computeV2(const Eigen::Ref<Eigen::MatrixXd,0,Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>> &Vpr,
-- 
2.43.0


From 3885789ab3d1503e56bbe4e685bd6cf1ba75a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:37 +0000
Subject: [PATCH 33/86] fix: coefficient derivatives of the uncertainty
 correction use the unscaled covariance when coefficients are dropped

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cf64053..f9579c1 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -3382,7 +3382,7 @@ def compute_Vb_corr_WPS(
     # but we need Rinv anyway so we can form it from Rinv. The exception is if we have
     # parameters dropped. Then we need to use Vbr which is padded with zeroes!
     if drop is not None:
-        V = Vbr.T @ Vbr * scale
+        V = Vbr.T @ Vbr
 
         # Still need Rinv - if negative penalized hessian is sufficiently conditioned.
         if code == 0:
-- 
2.43.0


From 20ed6727b6f5bfcb36802760fc233ca249d5506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:28 +0000
Subject: [PATCH 34/86] fix: ordering of the weights in Davies' algorithm

---
 src/mssm/src/cpp/davies.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/davies.cpp b/src/mssm/src/cpp/davies.cpp
index 3f0052d..4fc09cc 100644
--- a/src/mssm/src/cpp/davies.cpp
+++ b/src/mssm/src/cpp/davies.cpp
@@ -80,7 +80,7 @@ double log1(double x, bool first)
             {
                 skipk = true;
                 break;
-            } break;
+            }
          }
          if ( ! skipk ) {
             k = -1;
-- 
2.43.0


From 96c8c07e5a4a49c33e18601ec86faef566dddeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:52 +0000
Subject: [PATCH 35/86] fix: structured quasi-Newton inverse when the exact
 coefficients are not listed in ascending order

---
 src/mssm/src/python/compact_rep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mssm/src/python/compact_rep.py b/src/mssm/src/python/compact_rep.py
index c6d7983..823c094 100644
--- a/src/mssm/src/python/compact_rep.py
+++ b/src/mssm/src/python/compact_rep.py
@@ -779,6 +779,7 @@ def computeSVPS(
     D = scp.sparse.diags_array(nHdgr, format="csc")
 
     nH1S = (D @ nH1S @ D).tocsc()
+    nH1S.sort_indices()
     nH2t1 = D @ nH2t1
     nH2t3 = nH2t3 @ D
     if nH3t1 is not None:
-- 
2.43.0


From f96dbd304fe7c845d7f424b2ee3457544a3f4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:52 +0000
Subject: [PATCH 36/86] fix: requested positive definiteness of the SR1 Hessian
 when every updated direction was clipped

---
 src/mssm/src/python/compact_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/compact_rep.py b/src/mssm/src/python/compact_rep.py
index 823c094..d7ef487 100644
--- a/src/mssm/src/python/compact_rep.py
+++ b/src/mssm/src/python/compact_rep.py
@@ -288,7 +288,7 @@ def computeHSR1(
             # Useful to guarantee that penalized hessian is pd at convergence
             if make_pd:
                 eps = np.power(np.finfo(float).eps, 0.5)
-                ev[fix_idx] += eps * np.max(ev + omega)
+                ev[fix_idx] += eps * max(omega, np.max(ev + omega))
 
             # while np.any(np.abs(ev) < 1e-7):
             #   ev[np.abs(ev) < 1e-7] += np.power(np.finfo(float).eps,0.7)
-- 
2.43.0


From 9edfd0c7a4389f33b990eae8ae092398562815e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:20 +0000
Subject: [PATCH 37/86] fix: shape of the GAMMLSS Hessian when the last
 coefficients have all-zero columns

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 20d31fa..86abcdb 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -4459,7 +4459,7 @@ def deriv_transform_eta_beta(
             hc_idx += Xs[etaj].shape[1]
         hr_idx += Xs[etai].shape[1]
 
-    hessian = scp.sparse.csc_array((h_vals, (h_rows, h_cols)))
+    hessian = scp.sparse.csc_array((h_vals, (h_rows, h_cols)), shape=(hr_idx, hr_idx))
     return np.array(grad).reshape(-1, 1), hessian
 
 
-- 
2.43.0


From aa5e1d5e97cd5887425c64ba1427b2d18e4a8df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:20 +0000
Subject: [PATCH 38/86] fix: gradient of extended families with non-identity
 links estimated as general smooth models

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index f9579c1..78bf8c6 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -338,7 +338,7 @@ class GAMLSSGSMMFamily(GSMMFamily):
                 mu = gammlss_family.link.fi(Xs[0] @ coef[:-n_theta])
                 theta = coef[-n_theta:]
                 d1 = gammlss_family.dDdmu(y, mu, theta=theta)
-                ld1 = gammlss_family.link.dy1(d1)
+                ld1 = gammlss_family.link.dy1(mu)
                 grad_coef = -0.5 * ((d1 / ld1).T @ Xs[0]).T
                 grad_theta = gammlss_family.gradientLTheta(y, mu, theta=theta)
                 grad = np.concatenate((grad_coef, grad_theta), axis=0)
-- 
2.43.0


From 67a1eef670addca6886f7e0762f2f0d89e01dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:27 +0000
Subject: [PATCH 39/86] fix: second derivative of the multivariate Gaussian in
 off-diagonal precision parameters

---
 src/mssm/src/python/exp_fam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index eca423d..a713bb4 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4974,7 +4974,7 @@ class MultiGauss(GSMMFamily):
                     d2 = np.sum(xbarjmui * RiRpRRiymui)
                 else:
                     d2 = (ymu @ Rpj.T) * (ymu @ Rpi.T)
-                    if (mr == theta_idx[0]) and (mc == theta_idx[1]):
+                    if is_diag and (mr == theta_idx[0]) and (mc == theta_idx[1]):
                         d2 += (ymu @ R.T) * (ymu @ Rpj.T)
                     d2 = -np.sum(d2)
 
-- 
2.43.0


From 4917d8f259b1e092641cf6f776ec14400c77b221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:35 +0000
Subject: [PATCH 40/86] fix: derivatives of the multivariate Gaussian with
 non-identity links

---
 src/mssm/src/python/exp_fam.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index a713bb4..80aed3f 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4812,6 +4812,11 @@ class MultiGauss(GSMMFamily):
         # RRy is of shape m * n
         RRy = R.T @ yR.T
 
+        # Partials of the means with respect to the linear predictors
+        dmus = [
+            1 / self.links[mui].dy1(mus[:, mui]) for mui in range(self.n_par)
+        ]
+
         total_idx = 0
         n_obs = Xfix[0].shape[0]
         grad = np.zeros(coef.shape[0])
@@ -4820,7 +4825,7 @@ class MultiGauss(GSMMFamily):
         # shown by WPS (2016)
         for mui in range(self.n_par):
 
-            yRmui = RRy[mui, :]
+            yRmui = RRy[mui, :] * dmus[mui]
 
             grad[total_idx : total_idx + Xfix[mui].shape[1]] = (  # noqa: E203
                 Xfix[mui] * yRmui[:, None]
@@ -4916,6 +4921,14 @@ class MultiGauss(GSMMFamily):
         # RR is of shape m * m
         RR = R.T @ R
 
+        # Partials of the means with respect to the coefficients
+        dmus = [
+            1 / self.links[mui].dy1(mus[:, mui]) for mui in range(self.n_par)
+        ]
+        Xfix = [
+            (Xfix[mui] * dmus[mui][:, None]).tocsc() for mui in range(self.n_par)
+        ]
+
         # Compute column j of the hessian
         Hj = []
 
@@ -4953,6 +4966,12 @@ class MultiGauss(GSMMFamily):
         for mui in range(self.n_par):
             if is_coef:
                 RRxbarjmui = RRxbarj[mui, :]
+                if mui == parj_idx:
+                    # Second partial of mean with respect to linear predictor
+                    RRymui = (RR @ ymu.T)[mui, :]
+                    ld2 = self.links[mui].dy2(mus[:, mui])
+                    xj = xbarj[[mui], :].toarray().flatten()
+                    RRxbarjmui = RRxbarjmui + xj * ld2 * dmus[mui] * RRymui
                 d2 = -np.sum(Xfix[mui] * RRxbarjmui[:, None], axis=0)
             else:
                 RJRpRRJymui = RJRpRRJy[mui, :]
-- 
2.43.0


From 909b9035ff3e1d464a1325178b0e86a4fbfcdafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:49 +0000
Subject: [PATCH 41/86] fix: survival between, before and after the observed
 event times

---
 src/mssm/src/python/exp_fam.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 80aed3f..8db0a1f 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4536,9 +4536,14 @@ class PropHaz(GSMMFamily):
         eta = x @ coef
         # print(eta)
 
-        # Find nearest larger time-point
+        # Survival is one before the first observed time-point
+        if t < min(ut):
+            S = np.ones_like(eta)
+            return S, np.zeros_like(eta) if compute_var else None
+
+        # Find nearest smaller time-point - hazard is a right-continuous step function
         if t not in ut:
-            t = min(ut[ut > t])
+            t = max(ut[ut < t])
 
         # Find index in h corresponding to t
         ti = ut == t
-- 
2.43.0


From ae1d25b645baf85a1fb65c4cf9233ceab607b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:38 +0000
Subject: [PATCH 42/86] fix: stale cumulative hazard when predictions are
 requested for other coefficients or data

---
 src/mssm/src/python/exp_fam.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 8db0a1f..f84338f 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4016,6 +4016,7 @@ class PropHaz(GSMMFamily):
         self.__hs = None
         self.__qs = None
         self.__avs = None
+        self.__prepared_for = None
 
         # Create index vectors ri for ut and r
         idx = np.arange(len(self.r), dtype=np.int64)
@@ -4325,6 +4326,23 @@ class PropHaz(GSMMFamily):
         self.__hs = hs
         self.__qs = qs
         self.__avs = avs
+        self.__prepared_for = (np.array(coef), np.array(delta), X)
+
+    def __needs_preparation(
+        self, coef: np.ndarray, delta: np.ndarray, Xs: list[scp.sparse.csc_array]
+    ) -> bool:
+        """Whether the quantities required for predictions still have to be computed for ``coef``,
+        ``delta``, and ``Xs``.
+        """
+        if self.__hs is None:
+            return True
+
+        p_coef, p_delta, p_X = self.__prepared_for
+        return (
+            p_X is not Xs[0]
+            or np.array_equal(p_coef, coef) is False
+            or np.array_equal(p_delta, delta) is False
+        )
 
     def get_baseline_hazard(
         self, coef: np.ndarray, delta: np.ndarray, Xs: list[scp.sparse.csc_array]
@@ -4390,7 +4408,7 @@ class PropHaz(GSMMFamily):
         :rtype: np.ndarray
         """
 
-        if self.__hs is None:
+        if self.__needs_preparation(coef, delta, Xs):
             self.__prepare_predictions(coef, delta, Xs)
 
         return self.__hs
@@ -4528,7 +4546,7 @@ class PropHaz(GSMMFamily):
         :rtype: tuple[np.ndarray, np.ndarray | None]
         """
 
-        if self.__hs is None:
+        if self.__needs_preparation(coef, delta, Xs):
             self.__prepare_predictions(coef, delta, Xs)
 
         # Extract and define all variables defined by WPS (2016)
-- 
2.43.0


From c40aae36d0638bacd199cd4d49c586f2209a4b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:11 +0000
Subject: [PATCH 43/86] fix: whole-function intervals ignored coefficients
 whose prediction columns sum to zero

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 78bf8c6..500ecda 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1608,7 +1608,7 @@ def adjust_CI(
         # If we have many random factor levels, but want to make predictions only
         # for fixed effects, it's wasteful to sample all coefficients from posterior.
         # The code below performs a selection of the coefficients to be sampled.
-        use_post = predi_mat.sum(axis=0) != 0
+        use_post = abs(predi_mat).sum(axis=0) != 0
         use_post = np.arange(0, predi_mat.shape[1])[use_post]
 
     # Sample deviations [*coef - coef] from posterior of model
-- 
2.43.0


From 287934f1fbeaef08ae738165316580dbc32bdc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:11 +0000
Subject: [PATCH 44/86] fix: whole-function intervals were NaN everywhere as
 soon as one predicted row has no uncertainty

---
 src/mssm/src/python/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 500ecda..ec06b07 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1623,8 +1623,12 @@ def adjust_CI(
     else:
         fpost = np.abs(predi_mat[:, use_post] @ post)
 
-    # Compute ratio between abs(predi_mat@[*coef - coef])/b for every sample.
-    fpost = fpost / b[:, None]
+    # Compute ratio between abs(predi_mat@[*coef - coef])/b for every sample. Rows without any
+    # uncertainty (b == 0) never leave the interval and have to be ignored.
+    has_var = b > 0
+    if not np.any(has_var):
+        return b
+    fpost = fpost[has_var] / b[has_var, None]
 
     # Then compute max of this ratio, over rows of predi_mat, for every sample. np.max(fpost,axis=0)
     # now is a vector with n_ps elements, holding for each sample the multiplicative adjustment a,
-- 
2.43.0


From ae2fcdf1937f67942548e793912e151a6debd9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:57 +0000
Subject: [PATCH 45/86] fix: ar1 model lost the start of a series when its
 first observations are missing

---
 src/mssm/src/python/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index ec06b07..e35e9b8 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -78,7 +78,10 @@ def computeAr1Chol(formula: Formula, rho: float) -> tuple[scp.sparse.csc_array,
     if formula.series_id is not None:
         start = np.tile(False, len(formula.y_flat))
         start[formula.sid] = True
-        start = start[formula.NOT_NA_flat]
+        # The first observation of a series might be missing, so a series starts at the first
+        # remaining observation with a different series index.
+        series = np.cumsum(start)[formula.NOT_NA_flat]
+        start = np.append([True], series[1:] != series[:-1])
         sid0 = np.where(start)[0]
         sid1 = sid0[1:] - 1
 
-- 
2.43.0


From 4cddac31eb20a9684a600d3f44cea1854a0a33cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:38 +0000
Subject: [PATCH 46/86] fix: ar1 models of generalized families stopped before
 solving their working model

---
 src/mssm/src/python/gamm_solvers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 86abcdb..10bdcf6 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -2894,6 +2894,14 @@ def solve_gamm_sparse(
 
             # For Gaussian/PQL, perform step-length control for the coefficients here
             # (Step 3 in Wood, 2017)
+            if Lrhoi is not None and (
+                isinstance(family, Gaussian) is False
+                or isinstance(family.link, Identity) is False
+            ):
+                # The deviance ignores the ar1 model, so the solution of the whitened working model
+                # does not have to decrease it - only correct steps that are not valid at all.
+                c_dev_prev = np.inf
+
             if max_inner <= 1 or (
                 isinstance(family, Gaussian) and isinstance(family.link, Identity)
             ):
-- 
2.43.0


From e717498b12c4410ce365a8d1d253cb1b0c893855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:31 +0000
Subject: [PATCH 47/86] fix: scale and working residuals of generalized models
 ignored that the pseudo-data exclude the offset

---
 src/mssm/src/python/gamm_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 10bdcf6..ebb2fa3 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1510,7 +1510,7 @@ def update_coef_and_scale(
     wres, InvCholXXS, total_edf, term_edfs, Bs, scale = update_scale_edf(
         y,
         z,
-        eta,
+        eta - offset,
         Wr,
         rowsX,
         colsX,
@@ -2319,7 +2319,7 @@ def correct_lambda_step(
             wres, InvCholXXS, total_edf, term_edfs, Bs, scale = update_scale_edf(
                 y,
                 z,
-                eta,
+                eta - offset,
                 Wr,
                 rowsX,
                 colsX,
@@ -3152,7 +3152,7 @@ def solve_gamm_sparse(
             Lrhoi is not None
         ):  # Need to return ar-corrected and "normal" working residuals
             wres2 = Wr @ (
-                z[inval == False] - eta[inval == False]  # noqa: E712
+                z[inval == False] - (eta - offset)[inval == False]  # noqa: E712
             ).reshape(-1, 1)
 
         if inval_check:
-- 
2.43.0


From 1f6002dcb69aaa209203c4390c290c13a226cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:00 +0000
Subject: [PATCH 48/86] fix: GAMMLSS formulas with different missing covariates
 were combined row by row although their rows belong to different observations

---
 src/mssm/models.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 33f5a1e..a1f5b9a 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1707,6 +1707,20 @@ class GAMMLSS(GSMM):
         self.res: np.ndarray | None = None
         self.family: GAMLSSFamily
 
+        # The rows of all formulas belong to the same observations, so an observation that is
+        # missing for one of them has to be excluded for all of them.
+        not_na = [form.NOT_NA_flat for form in formulas]
+        if (
+            len(not_na) > 1
+            and all(mask is not None for mask in not_na)
+            and len({len(mask) for mask in not_na}) == 1
+        ):
+            joint_not_na = np.logical_and.reduce(not_na)
+            for form in formulas:
+                form.NOT_NA_flat = joint_not_na
+                if form.NOT_NA is not None:
+                    form.NOT_NA = np.split(joint_not_na, form.sid[1:])
+
     #################################### Getters #####################################  # noqa: E266
 
     def get_ys(
-- 
2.43.0


From bb0e343cbcdaffe155af3af9b44eb86f7f708063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:54 +0000
Subject: [PATCH 49/86] fix: factor levels and covariate ranges read from files
 depended on hash order and failed on missing values

---
 src/mssm/src/python/file_loading.py | 13 +++++--------
 src/mssm/src/python/formula.py      |  9 ++++-----
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index cfb8ae4..342f050 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -22,7 +22,7 @@ def read_unique_single(x: str, file: str, file_loading_kwargs: dict) -> np.ndarr
     """
 
     dat = pd.read_csv(file, **file_loading_kwargs)
-    unq_dat = np.unique(dat[x].values)
+    unq_dat = np.unique(dat[x].dropna().values)
 
     return unq_dat
 
@@ -30,7 +30,7 @@ def read_unique_single(x: str, file: str, file_loading_kwargs: dict) -> np.ndarr
 def read_unique(
     x: str, files: list[str], nc: int, file_loading_kwargs: dict
 ) -> np.ndarray:
-    """Read unique values of covariate ``x`` from ``files``.
+    """Read unique non-missing values of covariate ``x`` from ``files`` (in ascending order).
 
     :param x: covariate name
     :type x: str
@@ -43,15 +43,12 @@ def read_unique(
     :return: numpy array holding unique values
     :rtype: np.ndarray
     """
-    unq = set()
     with mp.Pool(processes=nc) as pool:
         unq_cov = pool.starmap(
             read_unique_single, zip(repeat(x), files, repeat(file_loading_kwargs))
         )
 
-    unq.update(*unq_cov)
-
-    return np.array(list(unq))
+    return np.unique(np.concatenate(unq_cov))
 
 
 def read_cor_cov_single(
@@ -101,7 +98,7 @@ def read_cov(
         )
 
     # Flatten
-    cov = np.array([cv for cs in cov for cv in cs])
+    cov = np.concatenate(cov)
     return cov
 
 
@@ -145,7 +142,7 @@ def read_cov_no_cor(
         )
 
     # Flatten
-    cov = np.array([cv for cs in cov for cv in cs])
+    cov = np.concatenate(cov)
     return cov
 
 
diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index f0835c7..fbba5d0 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -736,23 +736,22 @@ class Formula:
                             self.file_loading_kwargs,
                         )
                     else:
-                        rf_fac = read_cov(
-                            self.lhs.variable,
+                        rf_fac = read_cov_no_cor(
                             _org_var,
                             self.file_paths,
                             self.file_loading_nc,
                             self.file_loading_kwargs,
                         )
                         # print(len(rf_fac))
-                        sub_fac = read_cov(
-                            self.lhs.variable,
+                        sub_fac = read_cov_no_cor(
                             by_subgroup[0],
                             self.file_paths,
                             self.file_loading_nc,
                             self.file_loading_kwargs,
                         )
                         # print(len(rf_fac[sub_fac == by_subgroup[1]]))
-                        levels = np.unique(rf_fac[sub_fac == by_subgroup[1]])
+                        dat_var = rf_fac[sub_fac == by_subgroup[1]]
+                        levels = np.unique(dat_var[~pd.isnull(dat_var)])
 
                 if codebook is not None and var in codebook:
                     # Order of levels has to match order of (by-)columns in the model matrix
-- 
2.43.0


From 0dbab1264eb964b8433c575dd24160920d821919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:30 +0000
Subject: [PATCH 50/86] fix: data read from files kept observations with
 missing covariates

---
 src/mssm/src/python/file_loading.py | 57 +++++++++++++++++++++++++----
 src/mssm/src/python/formula.py      | 52 ++++++++++++++------------
 2 files changed, 78 insertions(+), 31 deletions(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index 342f050..341a26e 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -52,12 +52,12 @@ def read_unique(
 
 
 def read_cor_cov_single(
-    y: str, x: str, file: str, file_loading_kwargs: dict
+    y: str | list[str], x: str, file: str, file_loading_kwargs: dict
 ) -> np.ndarray:
     """Read values of covariate ``x`` from ``file`` correcting for NaNs in ``y``.
 
-    :param y: name of covariate potentially having NaNs
-    :type y: str
+    :param y: name(s) of covariate(s) potentially having NaNs
+    :type y: str | list[str]
     :param x: covariate name
     :type x: str
     :param file: file name
@@ -69,16 +69,17 @@ def read_cor_cov_single(
     """
     dat = pd.read_csv(file, **file_loading_kwargs)
     x_f = dat[x].values
-    return x_f[np.isnan(dat[y]) == False]  # noqa: E712
+    y = [y] if isinstance(y, str) else y
+    return x_f[~dat[y].isna().any(axis=1).values]
 
 
 def read_cov(
-    y: str, x: str, files: list[str], nc: int, file_loading_kwargs: dict
+    y: str | list[str], x: str, files: list[str], nc: int, file_loading_kwargs: dict
 ) -> np.ndarray:
     """Read values of covariate ``x`` from ``files`` correcting for NaNs in ``y``.
 
-    :param y: name of covariate potentially having NaNs
-    :type y: str
+    :param y: name(s) of covariate(s) potentially having NaNs
+    :type y: str | list[str]
     :param x: covariate name
     :type x: str
     :param files: list of file names
@@ -102,6 +103,48 @@ def read_cov(
     return cov
 
 
+def read_not_na_single(
+    vars: list[str], file: str, file_loading_kwargs: dict
+) -> np.ndarray:
+    """Index of the rows in ``file`` for which none of ``vars`` is NaN.
+
+    :param vars: list of variable names
+    :type vars: list[str]
+    :param file: file name
+    :type file: str
+    :param file_loading_kwargs: Any optional file loading key-word arguments.
+    :type file_loading_kwargs: dict
+    :return: numpy array of bools
+    :rtype: np.ndarray
+    """
+    dat = pd.read_csv(file, **file_loading_kwargs)
+    return ~dat[vars].isna().any(axis=1).values
+
+
+def read_not_na(
+    vars: list[str], files: list[str], nc: int, file_loading_kwargs: dict
+) -> np.ndarray:
+    """Index of the rows in ``files`` for which none of ``vars`` is NaN.
+
+    :param vars: list of variable names
+    :type vars: list[str]
+    :param files: list of file names
+    :type files: list[str]
+    :param nc: Number of cores to use to read in parallel
+    :type nc: int
+    :param file_loading_kwargs: Any optional file loading key-word arguments.
+    :type file_loading_kwargs: dict
+    :return: numpy array of bools
+    :rtype: np.ndarray
+    """
+    with mp.Pool(processes=nc) as pool:
+        not_na = pool.starmap(
+            read_not_na_single, zip(repeat(vars), files, repeat(file_loading_kwargs))
+        )
+
+    return np.concatenate(not_na)
+
+
 def read_no_cor_cov_single(x: str, file: str, file_loading_kwargs: dict) -> np.ndarray:
     """Read values of covariate ``x`` from ``file``.
 
diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index fbba5d0..7172aa7 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -12,6 +12,7 @@ from .file_loading import (
     read_cov,
     read_cor_cov_single,
     read_cov_no_cor,
+    read_not_na,
     read_unique,
     read_dtype,
     mp,
@@ -52,7 +53,7 @@ class lhs:
 def _compute_constraint_single_MP(
     sterm: f,
     vars: list[str],
-    lhs_var: str,
+    na_vars: list[str],
     file: str,
     var_mins: dict,
     var_maxs: dict,
@@ -71,8 +72,8 @@ def _compute_constraint_single_MP(
     :type sterm: f
     :param vars: List of variables
     :type vars: list[str]
-    :param lhs_var: name of dependent variable
-    :type lhs_var: str
+    :param na_vars: names of dependent variable and covariates potentially having NaNs
+    :type na_vars: list[str]
     :param file: file name
     :type file: str
     :param var_mins: Dictionary holding covariate minimums
@@ -103,7 +104,7 @@ def _compute_constraint_single_MP(
         if sterm.te is False:
             id_nk += 1
 
-        var_cov_flat = read_cor_cov_single(lhs_var, vars[vi], file, file_loading_kwargs)
+        var_cov_flat = read_cor_cov_single(na_vars, vars[vi], file, file_loading_kwargs)
 
         matrix_term_v = sterm.basis(
             var_cov_flat,
@@ -876,6 +877,20 @@ class Formula:
             self.n_coef += t_total_coef
             self.unpenalized_coef += t_unpenalized_coef
 
+    def __get_na_vars(self) -> list[str]:
+        """Names of the variables which need to be available for an observation to be used.
+
+        :return: List with the name of the dependent variable followed by all covariates
+        :rtype: list[str]
+        """
+        return [
+            self.lhs.variable,
+            *[
+                (c if c not in self.subgroup_variables else c.split(":")[0])
+                for c in self.get_var_map().keys()
+            ],
+        ]
+
     def encode_data(self, data: pd.DataFrame, prediction: bool = False) -> tuple[
         np.ndarray | None,
         np.ndarray,
@@ -923,26 +938,15 @@ class Formula:
                     self.file_loading_nc,
                     self.file_loading_kwargs,
                 )
-                NAs_flat = ~np.isnan(y_flat)
+                NAs_flat = read_not_na(
+                    self.__get_na_vars(),
+                    self.file_paths,
+                    self.file_loading_nc,
+                    self.file_loading_kwargs,
+                )
             else:
                 NAs_flat = ~(
-                    data.loc[
-                        :,
-                        [
-                            self.lhs.variable,
-                            *[
-                                (
-                                    c
-                                    if c not in self.subgroup_variables
-                                    else c.split(":")[0]
-                                )
-                                for c in var_keys
-                            ],
-                        ],
-                    ]
-                    .isna()
-                    .any(axis=1)
-                    .values
+                    data.loc[:, self.__get_na_vars()].isna().any(axis=1).values
                 )
 
         if data is not None:
@@ -1439,7 +1443,7 @@ class Formula:
                             id_nk = sterm.nk
 
                         var_cov_flat = read_cov(
-                            self.lhs.variable,
+                            self.__get_na_vars(),
                             vars[vi],
                             self.file_paths,
                             self.file_loading_nc,
@@ -1484,7 +1488,7 @@ class Formula:
                         zip(
                             repeat(sterm),
                             repeat(vars),
-                            repeat(self.lhs.variable),
+                            repeat(self.__get_na_vars()),
                             self.file_paths,
                             repeat(self.var_mins),
                             repeat(self.var_maxs),
-- 
2.43.0


From 57c3b29c43b435d58f395e8f6ec3ac744e99193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:30 +0000
Subject: [PATCH 51/86] fix: file loading arguments were ignored when
 accumulating the model matrix

---
 src/mssm/src/python/gamm_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index ebb2fa3..4d60c46 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3463,7 +3463,7 @@ def read_XTX(
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     y_flat_file, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(
@@ -3725,7 +3725,7 @@ def read_eta(file, formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     _, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
@@ -3967,7 +3967,7 @@ def solve_gamm_sparse2(
 
         for fi, file in enumerate(iterator):
             # Read file
-            file_dat = pd.read_csv(file)
+            file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
             # Encode data in this file
             y_flat_file, _, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
-- 
2.43.0


From 42c63d531f5b2922db92c866f835877ccccc7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:46 +0000
Subject: [PATCH 52/86] fix: files of the same name in different directories
 shared one cached model matrix

---
 src/mssm/src/python/gamm_solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 4d60c46..896cb66 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -35,6 +35,7 @@ from .terms import GammTerm
 from .matrix_solvers import *  # noqa: F403
 from collections.abc import Callable
 import os
+import hashlib
 import math
 import sys
 
@@ -3302,7 +3303,9 @@ def read_mmat(
     :rtype: scp.sparse.csc_array
     """
 
-    target = file.split("/")[-1].split(".csv")[0] + f"_{fi}.npz"
+    # File name alone is not unique: files in different directories can share it
+    file_id = hashlib.sha1(os.path.abspath(file).encode()).hexdigest()
+    target = f"{file_id}_{fi}.npz"
 
     if should_cache is False:
         mmat = build_sparse_matrix_from_formula(
-- 
2.43.0


From 0e1780cf6802c59a479cbfd4f6b47b8a870def31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:02 +0000
Subject: [PATCH 53/86] fix: building the model matrix in row sets failed for
 impulse response terms

---
 src/mssm/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index a1f5b9a..6b79019 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3192,7 +3192,8 @@ class GAMM(GAMMLSS):
                 print("NAs were excluded for fitting.")
 
             # Build the model matrix with all information from the formula
-            if self.formulas[0].file_loading_nc == 1:
+            # (impulse response terms need all rows of a series at once)
+            if self.formulas[0].file_loading_nc == 1 or len(irstx) > 0:
                 model_mat = build_sparse_matrix_from_formula(
                     terms,
                     has_intercept,
-- 
2.43.0


From 94710261c1c3731892806779dfa0f953c5f5fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:02 +0000
Subject: [PATCH 54/86] fix: files without a single usable observation could
 not be used

---
 src/mssm/src/python/formula.py      |  2 +-
 src/mssm/src/python/gamm_solvers.py | 16 ++++++++--------
 src/mssm/src/python/smooths.py      | 10 ++--------
 3 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 7172aa7..bbf7764 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -2620,7 +2620,7 @@ def build_sparse_matrix_from_formula(
     elements = []
     rows = []
     cols = []
-    ridx = np.array([ri for ri in range(n_y)])  # ToDo: dtype=int?
+    ridx = np.arange(n_y)
 
     ci = 0
 
diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 896cb66..ac82e32 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3477,8 +3477,8 @@ def read_XTX(
 
     # Parallelize over sub-sets of this file
     rows, _ = cov_flat_file.shape
-    cov_flat_files = np.array_split(cov_flat_file, min(nc, rows), axis=0)
-    y_flat_files = np.array_split(y_flat_file, min(nc, rows))
+    cov_flat_files = np.array_split(cov_flat_file, max(1, min(nc, rows)), axis=0)
+    y_flat_files = np.array_split(y_flat_file, max(1, min(nc, rows)))
     subsets = [i for i in range(len(cov_flat_files))]
 
     with mp.Pool(processes=nc) as pool:
@@ -3563,11 +3563,11 @@ def keep_XTX(
     for fi, _ in enumerate(iterator):
 
         rows, _ = cov_split[fi].shape
-        cov_flat_files = np.array_split(cov_split[fi], min(nc, rows), axis=0)
-        y_flat_files = np.array_split(y_split[fi], min(nc, rows))
+        cov_flat_files = np.array_split(cov_split[fi], max(1, min(nc, rows)), axis=0)
+        y_flat_files = np.array_split(y_split[fi], max(1, min(nc, rows)))
         subsets = [i for i in range(len(cov_flat_files))]
 
-        with mp.Pool(processes=min(rows, nc)) as pool:
+        with mp.Pool(processes=max(1, min(rows, nc))) as pool:
             # Build the model matrix with all information from the formula - but only for sub-set
             # of rows at a time
             XX0, Xy0 = zip(
@@ -3736,7 +3736,7 @@ def read_eta(file, formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
 
     # Parallelize over sub-sets of this file
     rows, _ = cov_flat_file.shape
-    cov_flat_files = np.array_split(cov_flat_file, min(nc, rows), axis=0)
+    cov_flat_files = np.array_split(cov_flat_file, max(1, min(nc, rows)), axis=0)
     subsets = [i for i in range(len(cov_flat_files))]
 
     with mp.Pool(processes=nc) as pool:
@@ -3807,10 +3807,10 @@ def keep_eta(formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
     eta = []
     for fi, _ in enumerate(cov_split):
         rows, _ = cov_split[fi].shape
-        cov_flat_files = np.array_split(cov_split[fi], min(nc, rows), axis=0)
+        cov_flat_files = np.array_split(cov_split[fi], max(1, min(nc, rows)), axis=0)
         subsets = [i for i in range(len(cov_flat_files))]
 
-        with mp.Pool(processes=min(rows, nc)) as pool:
+        with mp.Pool(processes=max(1, min(rows, nc))) as pool:
             # Build eta with all information from the formula - but only for sub-set of rows
             etas = pool.starmap(
                 form_eta_mp,
diff --git a/src/mssm/src/python/smooths.py b/src/mssm/src/python/smooths.py
index 9e86301..374bbfe 100644
--- a/src/mssm/src/python/smooths.py
+++ b/src/mssm/src/python/smooths.py
@@ -137,14 +137,8 @@ def B_spline_basis(
     # Eilers, P. H. C., & Marx, B. D. (1996). Flexible smoothing with B-splines and penalties.
     # https://doi.org/10.1214/ss/1038425655
 
-    xl = min(cov)
-    xr = max(cov)
-
-    if max_c is not None:
-        xr = max_c
-
-    if min_c is not None:
-        xl = min_c
+    xr = max(cov) if max_c is None else max_c
+    xl = min(cov) if min_c is None else min_c
 
     # ndx is equal to n in Eilers & Marx (2011)
     # So there will be n-1 knots (without expansion)
-- 
2.43.0


From 85d94f014165374b3c1323ea81fce1602888a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:13 +0000
Subject: [PATCH 55/86] fix: penalised log-likelihood of GAMMs ignored that the
 penalty is relative to the scale

---
 src/mssm/models.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 6b79019..9c20c90 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -2719,8 +2719,6 @@ class GAMM(GAMMLSS):
             )
 
         pen = 0
-        if penalized:
-            pen = 0.5 * self.penalty
         if self.preds is not None:
             mu = self.preds[0]
             if (
@@ -2731,6 +2729,14 @@ class GAMM(GAMMLSS):
 
             y = self.get_ys()
 
+            scale = self.scale
+            if self.family.twopar and ext_scale is not None:
+                scale = ext_scale
+
+            # Penalty is scaled by the scale parameter of the family
+            if penalized:
+                pen = 0.5 * self.penalty / scale
+
             if self.rho is not None:
                 # Need to correct for the "weights" of the covariance matrix of the ar1 model,
                 # as done in the bam function in
@@ -2740,10 +2746,6 @@ class GAMM(GAMMLSS):
                 pen -= ar_cor
 
             if self.family.twopar:
-                scale = self.scale
-                if ext_scale is not None:
-                    scale = ext_scale
-
                 if (
                     self.rho is not None
                     and isinstance(self.family, Gaussian)
-- 
2.43.0


From 877d7627976af663a915f6f4f5afdd279897e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:48 +0000
Subject: [PATCH 56/86] fix: with two inner iterations the fitted values did
 not belong to the coefficients

---
 src/mssm/src/python/gamm_solvers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index ac82e32..d00e5b4 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -2215,7 +2215,7 @@ def correct_lambda_step(
 
             # If coef. are updated to convergence, we have to check first iter against
             # incoming/old coef but under current penalty! (see Wood et al., 2017)
-            eta, mu, n_coef, _, _, _, keep, drop = update_coef(
+            eta, mu, n_coef, Pr, P, LP, keep, drop = update_coef(
                 yb, X, Xb, family, S_emb, S_root, n_c, None, offset
             )
 
@@ -2273,9 +2273,12 @@ def correct_lambda_step(
                 )
 
                 # Convergence check for inner loop
+                if i_iter == max_inner - 2:
+                    break
+
                 if i_iter > 0:
                     dev_diff_inner = abs(pen_dev - c_dev_prev)
-                    if dev_diff_inner < 1e-9 * pen_dev or i_iter == max_inner - 2:
+                    if dev_diff_inner < 1e-9 * pen_dev:
                         break
 
                 c_dev_prev = pen_dev
-- 
2.43.0


From fbfbfc09fa765bc5e39f62e6db696f86d93b88d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:48 +0000
Subject: [PATCH 57/86] fix: the weights of observations were square-rooted
 twice if any observation was excluded

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 src/mssm/src/python/utils.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index d00e5b4..b1621d3 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3165,7 +3165,7 @@ def solve_gamm_sparse(
             w = w_full
 
             # Re-compute weight matrix
-            Wr = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+            Wr = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
 
             # Adjust working residuals
             wres_full = np.zeros_like(eta)
diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index e35e9b8..69c72b0 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1824,7 +1824,7 @@ def compute_reml_candidate_GAMM(
                 w = w_full
 
                 # Re-compute weight matrix
-                Wr_fix = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+                Wr_fix = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
             else:
                 Wr_fix = Wr
             inval = inval.flatten()
@@ -4430,7 +4430,7 @@ def correct_VB(
 
                         # Re-compute weight matrix
                         Wr_fix = scp.sparse.spdiags(
-                            [np.sqrt(np.ndarray.flatten(w))], [0]
+                            [np.ndarray.flatten(w)], [0]
                         )
                     else:
                         Wr_fix = Wr
-- 
2.43.0


From c516f6c60665b2d29dd8632a23dd6f57088ed2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:48 +0000
Subject: [PATCH 58/86] fix: the inverse logit link was undefined for large
 linear predictors

---
 src/mssm/src/python/exp_fam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index f84338f..cae49f3 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -141,7 +141,7 @@ class Logit(Link):
         """
         with warnings.catch_warnings():  # Overflow
             warnings.simplefilter("ignore")
-            mu = np.exp(eta) / (1 + np.exp(eta))
+            mu = 1 / (1 + np.exp(-eta))
 
         return mu
 
-- 
2.43.0


From 0be216121fb23a9fae6115312dbe9e438b36947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 59/86] fix: effective degrees of freedom of models without
 penalties counted dropped coefficients

---
 src/mssm/src/python/gamm_solvers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index b1621d3..91ba9de 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1216,7 +1216,7 @@ def update_scale_edf(
             None,
         )
     else:
-        total_edf = colsX
+        total_edf = colsX - (len(drop) if drop is not None else 0)
         term_edfs = None
         Bs = None
 
@@ -6435,7 +6435,9 @@ def solve_gammlss_sparse(
         term_edfs = calculate_term_edf(gamlss_pen, term_edfs)
     else:
         term_edfs = None
-        total_edf = n_coef
+        total_edf = n_coef - (
+            len(fit_info.dropped) if fit_info.dropped is not None else 0
+        )
 
     return (
         coef,
@@ -9607,7 +9609,9 @@ def solve_generalSmooth_sparse(
         term_edfs = calculate_term_edf(smooth_pen, term_edfs)
     else:
         term_edfs = None
-        total_edf = n_coef
+        total_edf = n_coef - (
+            len(fit_info.dropped) if fit_info.dropped is not None else 0
+        )
 
     LV_linop = None
     if method == "qEFS":
-- 
2.43.0


From 96151129a2815c913b28d122564b5e4a83728cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 60/86] fix: identifying redundant coefficients via LU failed
 for exactly singular Hessians

---
 src/mssm/src/python/gamm_solvers.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 91ba9de..0714277 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -4860,15 +4860,20 @@ def identify_drop(
 
         # Find Null-vector of U (can ignore row pivoting for LU, see: Gotsman & Toledo; 2008)
         if method == "LU":  # Original proposal by Foster
-            lu = scp.sparse.linalg.splu(
-                nH_drop,
-                permc_spec="COLAMD",
-                diag_pivot_thresh=1,
-                options=dict(SymmetricMode=False, IterRefine="Double", Equil=True),
-            )
-            R = lu.U
+            try:
+                lu = scp.sparse.linalg.splu(
+                    nH_drop,
+                    permc_spec="COLAMD",
+                    diag_pivot_thresh=1,
+                    options=dict(SymmetricMode=False, IterRefine="Double", Equil=True),
+                )
+                R = lu.U
+                perm_c = lu.perm_c
+            except RuntimeError:  # Exactly singular - so use matrix itself.
+                R = nH_drop
+                perm_c = np.arange(nH_drop.shape[1])
             P = scp.sparse.csc_matrix(
-                (np.ones(nH_drop.shape[1]), (np.arange(nH_drop.shape[1]), lu.perm_c))
+                (np.ones(nH_drop.shape[1]), (np.arange(nH_drop.shape[1]), perm_c))
             )
         else:
             R = nH_drop
-- 
2.43.0


From 909426bcb925eb82c4e462d27de76b88949f7104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:34 +0000
Subject: [PATCH 61/86] fix: quasi-Newton fits of models without penalties did
 not report effective degrees of freedom

---
 src/mssm/src/python/gamm_solvers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 0714277..27e6b17 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -7774,7 +7774,7 @@ def sampleHcoef(
     n_coef = coef.shape[0]
 
     term_edfs = None
-    total_edf = None
+    total_edf = n_coef if len(smooth_pen) == 0 else None
 
     # Build total penalty matrix
     if S_emb is None:
@@ -7784,7 +7784,6 @@ def sampleHcoef(
         else:
             # Un-penalized case
             S_emb = scp.sparse.csc_array(([], ([], [])), shape=(n_coef, n_coef))
-            total_edf = n_coef
 
     if fcols is not None:
         nHfd = -1 * family.jhessian(fcols, coef, coef_split_idx, ys, Xs, n_c=n_c)
-- 
2.43.0


From 01cdaf3304647049473f83c7d06c26e6eee312e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:17 +0000
Subject: [PATCH 62/86] fix: generalised inverse and root of the total penalty
 when un-penalised coefficients separate penalised terms

---
 src/mssm/src/python/gamm_solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 27e6b17..393a287 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -274,7 +274,6 @@ def compute_S_emb_pinv_det(
     S_pinv_elements = []
     S_pinv_rows = []
     S_pinv_cols = []
-    cIndexPinv = SJ_idx[0]
 
     # Optionally compute root of S_\\lambda
     S_root_singles = None
@@ -287,6 +286,9 @@ def compute_S_emb_pinv_det(
         # Now handle all pinv calculations because all penalties
         # associated with a term have been collected in SJ
 
+        # Un-penalized coefficients can separate the block of this term from the previous one
+        cIndexPinv = SJ_idx[SJi]
+
         if SJ_terms[SJi] == 1:
 
             if root:
@@ -297,7 +299,6 @@ def compute_S_emb_pinv_det(
 
             # No overlap between penalties so we can just leave this block in the
             # pseudo-inverse empty.
-            cIndexPinv += SJs[SJi].shape[1] * SJ_reps[SJi]
             FS_use_rank.append(True)
 
         else:
-- 
2.43.0


From 40052edfdce971a1ca93b81be90dfa3da8b27754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:36 +0000
Subject: [PATCH 63/86] fix: range of the total penalty of a term depended on
 the size of the smoothing parameters

---
 src/mssm/src/python/gamm_solvers.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 393a287..8579baa 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -217,6 +217,8 @@ def compute_S_emb_pinv_det(
     # penalties weighted by lambda) for every term so we first collect and sum
     # all term penalties together.
     SJs = []  # Summed SJs for every term
+    # Balanced sum of SJs for every term - determines rank of the former independent of \\lambda
+    SJs_norm = []
     # Below is None if summation, otherwise embedded DJ*sqrt(\\lambda) - root of
     # corresponding SJ*\\lambda
     DJs = []
@@ -243,6 +245,7 @@ def compute_S_emb_pinv_det(
         # Now collect the S_J for the pinv calculation in the next step.
         if lti == 0 or lTerm.start_index > SJ_idx_max:
             SJs.append(lTerm.S_J * lTerm.lam)
+            SJs_norm.append(lTerm.S_J / max(scp.sparse.linalg.norm(lTerm.S_J), 1e-300))
             DJs.append(lTerm.D_J_emb * math.sqrt(lTerm.lam))
             SJ_terms.append(1)
             SJ_types.append(lTerm.type)
@@ -260,6 +263,9 @@ def compute_S_emb_pinv_det(
             if len(idx_match) > 1:
                 raise ValueError("Penalty index matches multiple previous locations.")
             SJs[idx_match[0]] += lTerm.S_J * lTerm.lam
+            SJs_norm[idx_match[0]] += lTerm.S_J / max(
+                scp.sparse.linalg.norm(lTerm.S_J), 1e-300
+            )
             SJ_terms[idx_match[0]] += 1
             SJ_types[idx_match[0]] = None
             SJ_lams[idx_match[0]] = None
@@ -333,7 +339,15 @@ def compute_S_emb_pinv_det(
                 # u, Sig, vt = scp.sparse.linalg.svds(SJ,SJ.shape[1],
                 #   solver='propack',maxiter=20*SJ.shape[1])
                 u, Sig, vt = scp.linalg.svd(SJs[SJi].toarray())
-                rs = [1 / s if s > 1e-7 else 0 for s in Sig]
+
+                # Range dimension must not depend on \\lambda - see reparam()
+                eps = sys.float_info.epsilon
+                eign = scp.linalg.eigvalsh(SJs_norm[SJi].toarray())
+                r = np.sum(eign > max(eign) * eps**0.7)
+                rs = [
+                    1 / s if (si < r and s > Sig[0] * eps) else 0
+                    for si, s in enumerate(Sig)
+                ]
                 SJ_pinv = vt.T @ np.diag(rs) @ u.T
                 SJ_pinv = scp.sparse.csc_array(SJ_pinv)
 
-- 
2.43.0


From 07e05ae1f37ce18a45452dde66f60652cbbed350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:47 +0000
Subject: [PATCH 64/86] fix: REML scores and scales of candidate smoothing
 parameters ignored the offset

---
 src/mssm/src/python/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 69c72b0..dc7a68c 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1723,6 +1723,8 @@ def compute_reml_candidate_GAMM(
             eta, mu, coef, Pr, _, LP, keep, drop = update_coef(
                 y - offset, X, X, family, S_emb, S_root, n_c, None, 0
             )
+            eta = eta + offset
+            mu = eta
             nH = (X.T @ X).tocsc()
         else:
             # GAMM - have to repeat Newton step
@@ -1845,7 +1847,7 @@ def compute_reml_candidate_GAMM(
         _, _, edf, _, _, scale = update_scale_edf(
             y,
             z,
-            eta,
+            eta if z is None else eta - offset,
             Wr,
             X.shape[0],
             X.shape[1],
@@ -4451,7 +4453,7 @@ def correct_VB(
                 _, _, _, _, _, scale = update_scale_edf(
                     y,
                     z,
-                    eta,
+                    eta if z is None else eta - model.offset,
                     Wr,
                     X.shape[0],
                     X.shape[1],
-- 
2.43.0


From 9a2a552b699dcf0c994dc663f746ac7724fb5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:22 +0000
Subject: [PATCH 65/86] fix: REML scores and model comparisons failed for
 models without penalties

---
 src/mssm/src/python/gamm_solvers.py |  4 ++++
 src/mssm/src/python/utils.py        | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 8579baa..c061f15 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -211,6 +211,10 @@ def compute_S_emb_pinv_det(
     # root of this term can be computed as well.
     S_emb = None
 
+    if len(merged_penalties) == 0:  # Nothing is penalized
+        S_zero = scp.sparse.csc_array((col_S, col_S), dtype=np.float64)
+        return S_zero, S_zero, S_zero if root else None, []
+
     penalties = split_shared_penalties(merged_penalties)
 
     # We need to compute the pseudo-inverse on the penalty block (so sum of all
diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index dc7a68c..3638c98 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2208,6 +2208,9 @@ def REML(
         None, penalties, None, option=4
     )
 
+    if len(penalties) == 0:  # No coefficient is penalized
+        Mp = len(coef)
+
     # if not X is None:
     # S_emb = None
     # Q_emb = None
@@ -3879,6 +3882,11 @@ def correct_VB(
             "For models with an ar1 model only grid_type='JJJ1' is supported."
         )
 
+    if len(model.overall_penalties) == 0:
+        # Nothing to correct without smoothing parameters
+        grid_type = VP_grid_type = "JJJ1"
+        compute_Vcc = Vp_fidiff = False
+
     if compute_Vcc is False and Vp_fidiff:
         warnings.warn(
             (
@@ -4661,6 +4669,9 @@ def correct_VB(
         expected_edf = None
         nH = -1 * model.hessian
 
+        if only_expected_edf and len(model.overall_penalties) == 0:
+            expected_edf = model.edf
+
     # Check V is full rank - can use LV for sampling as well..
     LV, code = cpp_chol(scp.sparse.csc_array(V))
     if code != 0:
-- 
2.43.0


From a5d42a12e7443f314e114b4dc748754553b10074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:35 +0000
Subject: [PATCH 66/86] fix: smooth terms were tested and listed with the
 coefficients and edf of other terms when the formula has impulse response or
 un-penalised smooths

---
 src/mssm/src/python/utils.py | 131 +++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 60 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 3638c98..cb4b1c8 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -814,6 +814,56 @@ def print_parametric_terms(model, par: int = 0) -> None:
         print("\nNote: p < 0.001: ***, p < 0.01: **, p < 0.05: *, p < 0.1: .")
 
 
+def _get_block_edf(
+    model, form: Formula, coef_offset: int, edfs: list[float] | None
+) -> list[float]:
+    """Collects the edf for every (level-specific) smooth and random term in ``form``, in the order
+    in which these terms are listed by :func:`print_smooth_terms`.
+
+    Un-penalized smooth terms are not associated with any of the term-wise edf in ``edfs``, they
+    use up as many degrees of freedom as they have coefficients. Entries in ``edfs`` belonging to
+    impulse response terms or to other formulas are skipped.
+
+    :param model: Fitted model.
+    :type model: mssm.models.GSMM | mssm.models.GAMMLSS | mssm.models.GAMM
+    :param form: Formula of which the edf should be collected
+    :type form: Formula
+    :param coef_offset: Index of the first coefficient of ``form`` in the model's coef. vector
+    :type coef_offset: int
+    :param edfs: Term-wise edf, one per penalized block of coefficients
+    :type edfs: [float] | None
+    :return: edf for every (level-specific) smooth and random term
+    :rtype: [float]
+    """
+    edf_of = {}
+    prev_start_idx = -1
+    # edf are best computed on term-pecific penalties
+    for pen in split_shared_penalties(model.overall_penalties):
+        if pen.start_index > prev_start_idx:
+            edf_of[pen.start_index - coef_offset] = edfs[len(edf_of)]
+            prev_start_idx = pen.start_index
+
+    terms = form.get_terms()
+    start_coef = sum(
+        form.coef_per_term[ti]
+        for ti in [*form.get_linear_term_idx(), *form.get_ir_smooth_term_idx()]
+    )
+
+    block_edf = []
+    for ti in [*form.get_smooth_term_idx(), *form.get_random_term_idx()]:
+        n_blocks = 1
+        by = getattr(terms[ti], "by", None)
+        if by is not None and (isinstance(terms[ti], rs) or terms[ti].id is None):
+            n_blocks = len(form.get_factor_levels()[by])
+
+        n_block_coef = int(form.coef_per_term[ti] / n_blocks)
+        for _ in range(n_blocks):
+            block_edf.append(edf_of.get(start_coef, n_block_coef))
+            start_coef += n_block_coef
+
+    return block_edf
+
+
 def print_smooth_terms(
     model,
     par: int = 0,
@@ -861,35 +911,19 @@ def print_smooth_terms(
     if isinstance(model.family, Family):  # GAMM case
         form = model.formulas[0]
 
-        if model.coef is None:
-            term_edf = None
-        else:
-            term_edf = model.term_edf
+        coef_offset = 0
     else:
         # GAMMLSS or GSMM case
         form = model.formulas[par]
+        coef_offset = 0
+        if model.coef is not None and par > 0:
+            coef_offset = model.coef_split_idx[par - 1]
 
-        # Get term edf for par
-        if model.coef is None:
-            term_edf = None
-        else:
-            term_edf = []
-            prev_start_idx = -1
-            prev_edf_idx = 0
-            # edf are best computed on term-pecific penalties
-            penalties = split_shared_penalties(model.overall_penalties)
-            for pen in penalties:
-
-                if pen.dist_param > par:
-                    break
-
-                if pen.start_index > prev_start_idx:
-                    if pen.dist_param == par:
-                        term_edf.append(model.term_edf[prev_edf_idx])
-
-                    # Keep track of start idx (coef idx) and edf idx.
-                    prev_start_idx = pen.start_index
-                    prev_edf_idx += 1
+    # Get term edf for par
+    if model.coef is None:
+        term_edf = None
+    else:
+        term_edf = _get_block_edf(model, form, coef_offset, model.term_edf)
 
     term_names = np.array(form.get_term_names())
     smooth_names = [
@@ -1189,7 +1223,7 @@ def approx_smooth_p_values(
         coef = model.coef.flatten()
         lvi = model.lvi
         scale = model.scale
-        term_edf = model.term_edf1 if edf1 else model.term_edf
+        coef_offset = 0
         rs_df = X.shape[0] - model.edf
 
     else:
@@ -1205,40 +1239,13 @@ def approx_smooth_p_values(
         coef = np.ndarray.flatten(split_coef[par])
         lvi = model.lvi[:, split_idx]
         scale = 1
-        term_edf = []
+        coef_offset = split_idx[0]
         rs_df = None
 
-        prev_start_idx = -1
-        prev_edf_idx = 0
-
-        # edf are best computed on term-pecific penalties
-        penalties = split_shared_penalties(model.overall_penalties)
-
-        for pen in penalties:
-            if pen.start_index > prev_start_idx:
-
-                if pen.dist_param > par:
-                    break
-
-                if pen.dist_param == par:  # Collect only those belonging to this par
-                    if edf1:
-                        term_edf.append(
-                            min(
-                                model.term_edf1[prev_edf_idx],
-                                pen.rep_sj * pen.S_J.shape[1],
-                            )
-                        )
-                    else:
-                        term_edf.append(
-                            min(
-                                model.term_edf[prev_edf_idx],
-                                pen.rep_sj * pen.S_J.shape[1],
-                            )
-                        )
-
-                # Keep track of start idx (coef idx) and edf idx.
-                prev_start_idx = pen.start_index
-                prev_edf_idx += 1
+    # Get (bias corrected) edf for selected formula
+    term_edf = _get_block_edf(
+        model, form, coef_offset, model.term_edf1 if edf1 else model.term_edf
+    )
 
     terms = form.get_terms()
 
@@ -1250,7 +1257,11 @@ def approx_smooth_p_values(
     Trs = []
 
     # Loop over smooth terms
-    start_coef = form.unpenalized_coef  # Start indexing V_b after un-penalized coef
+    # Start indexing V_b after the coef. of linear and impulse response terms
+    start_coef = sum(
+        form.coef_per_term[ti]
+        for ti in [*form.get_linear_term_idx(), *form.get_ir_smooth_term_idx()]
+    )
     edf_idx = 0
     for sti in st_idx:
         if isinstance(terms[sti], fs) is False:
@@ -1292,7 +1303,7 @@ def approx_smooth_p_values(
                 U = np.flip(U, axis=1)
 
                 # get edf for this term and compute r,k,v, and p from Wood (2017)
-                r = term_edf[edf_idx]
+                r = min(term_edf[edf_idx], n_s_coef)
                 k = int(r)
                 if k > 0:
                     v = r - k
-- 
2.43.0


From 438e7b5d1c59c89d0b72373284c6a1f4a633cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:13 +0000
Subject: [PATCH 67/86] fix: p-values of smooth terms failed for more than 1e5
 observations

---
 src/mssm/src/python/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cb4b1c8..9cdafb1 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1289,7 +1289,9 @@ def approx_smooth_p_values(
 
                 if X_b_j.shape[0] > n_sel:
                     # Select subset of rows randomly as suggested by Wood (2013)
-                    sel = np_gen.choice(X_b_j.shape[0], size=n_sel, replace=False)
+                    sel = np_gen.choice(
+                        X_b_j.shape[0], size=int(n_sel), replace=False
+                    )
                     X_b_j = X_b_j[sel, :]
 
                 R = np.linalg.qr(X_b_j.toarray(), mode="r")
-- 
2.43.0


From f126d11f13bb4c8fe82d237e05abfcbb86805376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:13 +0000
Subject: [PATCH 68/86] fix: p-values of smooth terms did not average over both
 signs of the eigen-vectors

---
 src/mssm/src/python/utils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 9cdafb1..cc3f696 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1317,14 +1317,10 @@ def approx_smooth_p_values(
                             [1 / lam if lami < k else 0 for lami, lam in enumerate(s)]
                         )
 
-                        sign = np.sign(U[0, :])
-                        U *= sign
                         RVRI1 = U @ S @ U.T
 
-                        # Also compute inverse for alternative version of Eigen-vectors
-                        # (see Wood, 2017):
-                        U *= sign
-                        RVRI2 = U @ S @ U.T
+                        # No ambiguity in the sign of the Eigen-vectors in the integer case
+                        RVRI2 = RVRI1
 
                         # And the test statistic defined in Wood (2012)
                         Tr1 = (s_coef.T @ R.T @ RVRI1 @ R @ s_coef)[0, 0]
@@ -1351,6 +1347,7 @@ def approx_smooth_p_values(
                         # Fix sign of Eigen-vectors to sign of first row
                         # (based on testStat function in mgcv)
                         sign = np.sign(U[0, :])
+                        sign[sign == 0] = 1
                         U *= sign
 
                         # Now we can reform the diagonal matrix needed for inverting RVR
@@ -1373,8 +1370,8 @@ def approx_smooth_p_values(
                         RVRI1 = U @ S @ U.T
 
                         # Also compute inverse for alternative version of Eigen-vectors
-                        # (see Wood, 2017):
-                        U *= sign
+                        # (see Wood, 2017): the relative sign of the last two is arbitrary
+                        U[:, k - 1] *= -1
                         RVRI2 = U @ S @ U.T
 
                         # And the test statistic defined in Wood (2012)
-- 
2.43.0


From 127f86fb5bdbb74de9028b59f80e579a7bdb2bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:23 +0000
Subject: [PATCH 69/86] fix: bias corrected edf (and p-values based on them) of
 a previous fit were re-used after refitting a model

---
 src/mssm/models.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 9c20c90..395dca2 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -947,6 +947,10 @@ class GSMM:
         :raises ValueError: Will throw an error when ``optimizer`` is not 'Newton'.
         """
 
+        # Bias corrected edf of a previous fit are no longer valid
+        self.edf1 = None
+        self.term_edf1 = None
+
         # Initialize remaining arguments to defaults
 
         if control_lambda is None:
@@ -2007,6 +2011,10 @@ class GAMMLSS(GSMM):
         :type init_lambda: [float],optional
         """
 
+        # Bias corrected edf of a previous fit are no longer valid
+        self.edf1 = None
+        self.term_edf1 = None
+
         # Initialize remaining arguments to defaults
         if min_inner is None:
             min_inner = max_inner
@@ -3090,6 +3098,10 @@ class GAMM(GAMMLSS):
         :type transform_X: Callable | None, optional
         """
 
+        # Bias corrected edf of a previous fit are no longer valid
+        self.edf1 = None
+        self.term_edf1 = None
+
         # We need to initialize penalties
         if not restart:
             if self.overall_penalties is not None:
-- 
2.43.0


From f2effff035f97e650241e60a324bd7d0be291f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:37 +0000
Subject: [PATCH 70/86] fix: expected edf over draws of the smoothing
 parameters depended on the number of cores

---
 src/mssm/src/python/utils.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cc3f696..98fb618 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4181,6 +4181,12 @@ def correct_VB(
                     scales.extend(list(sample_scales))
                     coefs.extend(list(sample_coefs))
                     remls.extend(list(sample_remls))
+                    if only_expected_edf:
+                        # Expected edf are based on negative Hessian of model
+                        sample_edfs = [
+                            edf * scale / orig_scale
+                            for edf, scale in zip(sample_edfs, sample_scales)
+                        ]
                     edfs.extend(list(sample_edfs))
                     llks.extend(list(sample_llks))
                     rGrid = p_sample
@@ -4304,6 +4310,13 @@ def correct_VB(
                     axis=0,
                 )
 
+            # Expected edf are based on negative Hessian of model
+            origNH = None
+            if only_expected_edf:
+                origNH = -1 * model.hessian
+                if isinstance(family, Gaussian) and isinstance(family.link, Identity):
+                    origNH = orig_scale
+
             for ps in p_sample:
                 for ridx, rc in enumerate(ps):
                     rPen[ridx].lam = rc
@@ -4319,6 +4332,7 @@ def correct_VB(
                             model.offset,
                             method=method,
                             compute_inv=True,
+                            origNH=origNH,
                         )
                     )
                     # coef = coef.reshape(-1,1)
@@ -4343,6 +4357,7 @@ def correct_VB(
                             n_c=n_c,
                             method=method,
                             bfgs_options=bfgs_options,
+                            origNH=origNH,
                             keep_drop=keep_drop,
                         )
                     except:  # noqa: E722
-- 
2.43.0


From 9317e484ca25825595591e166dd5a1c0e7978f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:37 +0000
Subject: [PATCH 71/86] fix: a single draw of a single smoothing parameter
 raised a TypeError

---
 src/mssm/src/python/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 98fb618..d997e3c 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2636,7 +2636,7 @@ def estimateVp(
         p_sample = scp.stats.multivariate_t.rvs(
             loc=np.ndarray.flatten(ep), shape=Vpr, df=df, size=n_est, random_state=seed
         )
-        p_sample = np.exp(p_sample)
+        p_sample = np.atleast_1d(np.exp(p_sample))
         p_sample[np.isinf(p_sample)] = b
 
         if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -2828,7 +2828,7 @@ def estimateVp(
         p_sample = scp.stats.multivariate_t.rvs(
             loc=np.ndarray.flatten(ep), shape=Vpr, df=df, size=n_est, random_state=seed
         )
-        p_sample = np.exp(p_sample)
+        p_sample = np.atleast_1d(np.exp(p_sample))
         p_sample[np.isinf(p_sample)] = b
 
         if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -4050,7 +4050,7 @@ def correct_VB(
                 size=n_est,
                 random_state=seed,
             )
-            p_sample = np.exp(p_sample)
+            p_sample = np.atleast_1d(np.exp(p_sample))
             p_sample[np.isinf(p_sample)] = b
 
             if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -4280,7 +4280,7 @@ def correct_VB(
                 size=n_est,
                 random_state=seed,
             )
-            p_sample = np.exp(p_sample)
+            p_sample = np.atleast_1d(np.exp(p_sample))
             p_sample[np.isinf(p_sample)] = b
 
             if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
-- 
2.43.0


From af1119d05d802fc6f5fde523c3d75b7cd063638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:56 +0000
Subject: [PATCH 72/86] fix: coefficient-wise corrected edf were overwritten
 when also computing the bias corrected ones

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index d997e3c..3abebf7 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4770,7 +4770,7 @@ def correct_VB(
     # Enforce upper bound
     if total_edf > total_edf2:
         total_edf = total_edf2
-        edf = edf2
+        edf = copy.deepcopy(edf2)
 
     # Compute uncertainty corrected smoothness bias corrected edf (t1 in section 6.1.2 of Wood,
     # 2017)
-- 
2.43.0


From 3085a72ed30ca59aaf6929092a6df8c60b34a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:43 +0000
Subject: [PATCH 73/86] fix: a penalty with an id of its own was duplicated if
 another id was shared

---
 src/mssm/src/python/penalties.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index c34cbd0..e6537a2 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -43,7 +43,10 @@ def create_id_dict(penalties: list[LambdaTerm]) -> dict | None:
             else:
                 id_dict[pen.id] = [peni]
 
-    if len(id_dict) > 0 and max([len(v) for v in id_dict.values()]) > 1:
+    # Ids used by a single penalty are not shared
+    id_dict = {id: idx for id, idx in id_dict.items() if len(idx) > 1}
+
+    if len(id_dict) > 0:
         return id_dict
 
     return None
-- 
2.43.0


From e54cb68d5999f2eb52f397f2d09487548c970f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:26 +0000
Subject: [PATCH 74/86] fix: the bias corrected degrees of freedom left out
 coefficients outside of the formulas

---
 src/mssm/src/python/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 3abebf7..004cb0a 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1099,6 +1099,8 @@ def compute_bias_corrected_edf(model, overwrite: bool = False) -> None:
             F = model.lvi.T @ model.lvi @ nH
 
             edf1 += np.sum([form.unpenalized_coef for form in model.formulas])
+            # Extra coefficients of the family are not penalized either
+            edf1 += len(model.coef) - np.sum([form.n_coef for form in model.formulas])
 
         F_diag = F.diagonal()
 
-- 
2.43.0


From a2e5d454a91f6deedc6fb7b9b23560b1ed3f101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 75/86] fix: options for L-BFGS-B passed to compare_CDL raised
 an error

---
 src/mssm/src/python/compare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/compare.py b/src/mssm/src/python/compare.py
index 1f882cc..3e61623 100644
--- a/src/mssm/src/python/compare.py
+++ b/src/mssm/src/python/compare.py
@@ -417,7 +417,7 @@ def compare_CDL(
             recompute_H=recompute_H,
             compute_Vcc=compute_Vcc,
             seed=seed,
-            **bfgs_options,
+            bfgs_options=bfgs_options,
         )
         _, _, _, _, _, DOF2, _, DOF22, expected_edf2, _ = correct_VB(
             model2,
@@ -438,7 +438,7 @@ def compare_CDL(
             recompute_H=recompute_H,
             compute_Vcc=compute_Vcc,
             seed=seed,
-            **bfgs_options,
+            bfgs_options=bfgs_options,
         )
 
         if only_expected_edf:
-- 
2.43.0


From 6e9efa1a943e0ceb175ca6aa077a08502f497031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 76/86] fix: an undefined proposal turned the step size of a
 chain into nan

---
 src/mssm/src/cpp/mcmc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/mcmc.cpp b/src/mssm/src/cpp/mcmc.cpp
index 6b5d013..3005ac7 100644
--- a/src/mssm/src/cpp/mcmc.cpp
+++ b/src/mssm/src/cpp/mcmc.cpp
@@ -182,7 +182,8 @@ M. J. Betancourt (2013,2018) - requiring book-keeping for the additional rsum va
         // Start collection
         nprime = logu <= Hprime;
         sprime = logu < DeltaMax + Hprime;
-        aprime = lp > 0.0 ? 1.0 : exp(lp);
+        // Undefined states (e.g., after leaving the support) are never accepted
+        aprime = lp > 0.0 ? 1.0 : (std::isnan(lp) ? 0.0 : exp(lp));
         naprime = 1;
 
         rsum = rprime;
-- 
2.43.0


From 78365bd52952f9a84bd971874bbad7fe1fe610c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:03 +0000
Subject: [PATCH 77/86] fix: sample_mssm ignored the scale in the penalties of
 GAMMs with fixed smoothing parameters

---
 src/mssm/src/python/mcmc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index fec74a0..0a33452 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -732,6 +732,11 @@ def sample_mssm(
         MLT = scp.sparse.block_array([[MLT, None], [None, Re_theta]], format="csc")
         Minv = scp.sparse.block_array([[Minv, None], [None, inH_theta]], format="csc")
 
+    # Correct for scaling for GAMMs
+    if isinstance(family, Family) and family.twopar is True:
+        for pen in r_pen:
+            pen.lam /= orig_scale
+
     # Modify covariance matrix to account for log lambda parameters
     if sample_rho:
 
@@ -739,9 +744,6 @@ def sample_mssm(
         if isinstance(family, Family) and family.twopar is True:
             ep = np.log(np.exp(ep) / orig_scale)
 
-            for pidx in range(len(r_pen)):
-                r_pen[pidx].lam = np.exp(ep[pidx])
-
         eig, U = scp.linalg.eigh(Vpreg)
 
         # fmt: off
-- 
2.43.0


From 39cf5bd39bb40c9e4033e36f3401a82a786b11c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:03 +0000
Subject: [PATCH 78/86] fix: sample_mssm failed for GAMMs with shared penalties
 and a scale or theta parameter

---
 src/mssm/src/python/mcmc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 0a33452..37dc7f7 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -27,6 +27,8 @@ from ...models import (
     PenType,
 )
 
+from .penalties import split_shared_penalties, combine_shared_penalties
+
 from ..python.repara import reparam
 from collections.abc import Callable
 
@@ -849,9 +851,12 @@ def sample_mssm(
         # Note that scales and thetas are added to coef vector when working with ``deriv_fam``,
         # so from now on treat ``coef`` as having dimension n_coef + n_scale + n_theta
 
+        # Shared penalties have to be embedded separately
+        r_pen = split_shared_penalties(r_pen)
         r_pen = embed_shared_penalties([r_pen], formulas, deriv_fam.extra_coef)
         r_pen = [sp for sp in r_pen if len(sp) > 0]
         r_pen = [pen for pens in r_pen for pen in pens]
+        r_pen = combine_shared_penalties(r_pen)
 
     # Get initial penalty matrix
     S_emb, _, _, _ = compute_S_emb_pinv_det(n_coef + n_scale + n_theta, r_pen, "svd")
-- 
2.43.0


From a07f13234621da9d68a32b7411ac1f25ba9f6eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:04 +0000
Subject: [PATCH 79/86] fix: sample_mssm left the prior of unpenalized smooth
 terms improper with make_proper

---
 src/mssm/src/python/mcmc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 37dc7f7..2be765a 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -868,7 +868,14 @@ def sample_mssm(
         for form in formulas:
             lti = form.get_linear_term_idx()
 
-            for tidx in lti:
+            # Un-penalized smooth terms are not covered by null-space penalties
+            usti = [
+                tidx
+                for tidx in form.get_smooth_term_idx()
+                if form.terms[tidx].is_penalized is False
+            ]
+
+            for tidx in [*lti, *usti]:
                 fcols.extend(form.coef_idx_per_term[tidx] + start_idx)
 
             start_idx += form.n_coef
-- 
2.43.0


From 20769892bd7bf1e687fe5229d9f8171372e6e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:18 +0000
Subject: [PATCH 80/86] fix: make_valid of the uniform rho priors could return
 values outside of the support

---
 src/mssm/src/python/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 004cb0a..be4f0a1 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -3567,8 +3567,8 @@ class MVUniformRhoPrior(RhoPrior):
         b = self.kwargs["b"]
 
         crho = copy.deepcopy(rho)
-        crho[crho < a] = 0.9 * a
-        crho[crho > b] = 0.9 * b
+        crho[crho < a] = a + 0.05 * (b - a)
+        crho[crho > b] = b - 0.05 * (b - a)
         return crho
 
 
@@ -3645,8 +3645,8 @@ class CenteredUniformRhoPriors(RhoPrior):
             invala = crho[:, rhoi] < a[rhoi]
             invalb = crho[:, rhoi] > b[rhoi]
 
-            crho[invala, rhoi] = 0.9 * a[rhoi]
-            crho[invalb, rhoi] = 0.9 * b[rhoi]
+            crho[invala, rhoi] = a[rhoi] + 0.05 * (b[rhoi] - a[rhoi])
+            crho[invalb, rhoi] = b[rhoi] - 0.05 * (b[rhoi] - a[rhoi])
 
         return crho
 
-- 
2.43.0


From 5a3395089535a1c48efc38e6df0409e3604e8fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:18 +0000
Subject: [PATCH 81/86] fix: sample_mssm added null-space penalties to terms of
 other formulas

---
 src/mssm/src/python/mcmc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 2be765a..e731366 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -942,8 +942,7 @@ def sample_mssm(
 
         for pen in NP_pen:
             if (
-                pen.dist_param in NP_fidx
-                and pen.term in NP_tidx
+                (pen.dist_param, pen.term) in zip(NP_fidx, NP_tidx)
                 and pen.type == PenType.NULL
             ):
 
-- 
2.43.0


From c239353b2f92779b1c8dd109dbe88c8e5161013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:54 +0000
Subject: [PATCH 82/86] fix: sample_mssm ignored the offset of GAMMs

---
 src/mssm/src/python/mcmc.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index e731366..bf957ed 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -595,6 +595,7 @@ def sample_mssm(
     n_coef = len(model.coef)
     n_scale = 0
     n_theta = 0
+    n_offset = 0
     orig_scale = 1
     orig_theta = None
     n_lam = len(model.overall_penalties)
@@ -616,6 +617,12 @@ def sample_mssm(
             orig_theta = family.theta  # noqa
             n_theta = len(family.theta)
 
+        # Any offset enters the linear predictor via an extra column with coefficient fixed to one
+        if np.any(model.offset):
+            n_offset = 1
+            offset = np.zeros_like(y) + np.reshape(model.offset, (-1, 1))
+            Xs[0] = scp.sparse.hstack([scp.sparse.csc_array(offset), Xs[0]]).tocsc()
+
         deriv_fam = GAMLSSGSMMFamily(1, family)
 
     else:
@@ -648,6 +655,10 @@ def sample_mssm(
             )
             keep_drop = (keep, model.info.dropped)  # noqa
 
+    # Coefficients expected by ``deriv_fam``
+    def family_coef(coef: np.ndarray) -> np.ndarray:
+        return np.concatenate((np.ones((n_offset, 1)), coef), axis=0)
+
     # Can now start building Minv and MLT so that MLT.T@MLT = inv(Minv)
     Minv = (model.lvi.T @ model.lvi).tocsc() * orig_scale
 
@@ -672,7 +683,9 @@ def sample_mssm(
     if n_scale > 0:
 
         # Get negative 2nd partial of scale
-        nH_scale = -1 * family.d2llkd2lscale(model.coef, ys[0], Xs[0], scale=orig_scale)
+        nH_scale = -1 * family.d2llkd2lscale(
+            family_coef(model.coef), ys[0], Xs[0], scale=orig_scale
+        )
 
         # Enforce PD
         if nH_scale <= 0:
@@ -702,7 +715,7 @@ def sample_mssm(
     if n_theta > 0:
 
         # Get (regularized) negative hessian block with respect to theta
-        mu = family.link.fi(Xs[0] @ model.coef)
+        mu = family.link.fi(Xs[0] @ family_coef(model.coef))
         nH_theta = (-1 * family.hessianLTheta(ys[0], mu, theta=orig_theta)) + (
             np.identity(n_theta) * 0.1
         )
@@ -959,7 +972,7 @@ def sample_mssm(
         coef = c[: n_coef + n_scale + n_theta]
 
         # Compute log-likelihood
-        c_llk = deriv_fam.llk(coef, coef_split_idx, ys, Xs)
+        c_llk = deriv_fam.llk(family_coef(coef), coef_split_idx, ys, Xs)
 
         if sample_rho:
             rho = c[n_coef + n_scale + n_theta :]  # noqa: E203
@@ -1027,7 +1040,7 @@ def sample_mssm(
         coef = c[: n_coef + n_scale + n_theta]
 
         # Compute gradient
-        grad = deriv_fam.gradient(coef, coef_split_idx, ys, Xs)
+        grad = deriv_fam.gradient(family_coef(coef), coef_split_idx, ys, Xs)[n_offset:]
 
         if sample_rho:
             rho = c[n_coef + n_scale + n_theta :]  # noqa: E203
-- 
2.43.0


From d421980a86de98a7c90dd38d969b695dcd13862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:54 +0000
Subject: [PATCH 83/86] fix: sample_mssm ignored the ar1 model of GAMMs

---
 src/mssm/src/python/mcmc.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index bf957ed..c013d8c 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -12,7 +12,15 @@ from ..python.gamm_solvers import (
 )
 
 from .custom_types import SamplerResult
-from .utils import sample_MVN, estimateVp, GAMLSSGSMMFamily, RhoPrior, MVUniformRhoPrior
+from .utils import (
+    sample_MVN,
+    estimateVp,
+    computeAr1Chol,
+    GAMLSSGSMMFamily,
+    RhoPrior,
+    MVUniformRhoPrior,
+)
+from .exp_fam import Gaussian, Identity
 
 from ...models import (
     GAMM,
@@ -623,6 +631,16 @@ def sample_mssm(
             offset = np.zeros_like(y) + np.reshape(model.offset, (-1, 1))
             Xs[0] = scp.sparse.hstack([scp.sparse.csc_array(offset), Xs[0]]).tocsc()
 
+        # Account for ar1 model of the residuals
+        if (
+            model.rho is not None
+            and isinstance(family, Gaussian)
+            and isinstance(family.link, Identity)
+        ):
+            Lrhoi, _ = computeAr1Chol(formulas[0], model.rho)
+            ys[0] = Lrhoi.T @ ys[0]
+            Xs[0] = (Lrhoi.T @ Xs[0]).tocsc()
+
         deriv_fam = GAMLSSGSMMFamily(1, family)
 
     else:
-- 
2.43.0


From da9aaa3d64e33f0ba0dad420f7550095b7f1e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:11 +0000
Subject: [PATCH 84/86] fix: sample_mssm sampled extra parameters of families
 which were fixed by the user

---
 src/mssm/src/python/mcmc.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index c013d8c..1d2ba2e 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -606,6 +606,7 @@ def sample_mssm(
     n_offset = 0
     orig_scale = 1
     orig_theta = None
+    fixed_theta = np.zeros((0, 1))
     n_lam = len(model.overall_penalties)
     r_pen = copy.deepcopy(model.overall_penalties)
 
@@ -623,7 +624,10 @@ def sample_mssm(
 
         if isinstance(family, ExtendedFamily):
             orig_theta = family.theta  # noqa
-            n_theta = len(family.theta)
+            if family.est_theta:
+                n_theta = len(family.theta)
+            else:
+                fixed_theta = family.theta
 
         # Any offset enters the linear predictor via an extra column with coefficient fixed to one
         if np.any(model.offset):
@@ -673,9 +677,14 @@ def sample_mssm(
             )
             keep_drop = (keep, model.info.dropped)  # noqa
 
+    # Parameters sampled in addition to the coefficients of the formulas
+    extra_coef = deriv_fam.extra_coef
+    if isinstance(family, Family):
+        extra_coef = n_scale + n_theta if n_scale + n_theta > 0 else None
+
     # Coefficients expected by ``deriv_fam``
     def family_coef(coef: np.ndarray) -> np.ndarray:
-        return np.concatenate((np.ones((n_offset, 1)), coef), axis=0)
+        return np.concatenate((np.ones((n_offset, 1)), coef, fixed_theta), axis=0)
 
     # Can now start building Minv and MLT so that MLT.T@MLT = inv(Minv)
     Minv = (model.lvi.T @ model.lvi).tocsc() * orig_scale
@@ -884,7 +893,7 @@ def sample_mssm(
 
         # Shared penalties have to be embedded separately
         r_pen = split_shared_penalties(r_pen)
-        r_pen = embed_shared_penalties([r_pen], formulas, deriv_fam.extra_coef)
+        r_pen = embed_shared_penalties([r_pen], formulas, extra_coef)
         r_pen = [sp for sp in r_pen if len(sp) > 0]
         r_pen = [pen for pens in r_pen for pen in pens]
         r_pen = combine_shared_penalties(r_pen)
@@ -918,8 +927,8 @@ def sample_mssm(
         )
 
         # Also account for extra coef that are un-penalized
-        if deriv_fam.extra_coef is not None:
-            fcols2 = np.arange(deriv_fam.extra_coef) + start_idx
+        if extra_coef is not None:
+            fcols2 = np.arange(extra_coef) + start_idx
 
             # Note, these can be scale/theta parameters in which case
             # they might get extra lam
@@ -966,7 +975,7 @@ def sample_mssm(
             NP_pen.append(build_penalties(NP_form))
 
         # Now re-build shared penalties
-        NP_pen = embed_shared_penalties(NP_pen, formulas, deriv_fam.extra_coef)
+        NP_pen = embed_shared_penalties(NP_pen, formulas, extra_coef)
         NP_pen = [sp for sp in NP_pen if len(sp) > 0]
 
         NP_pen = [pen for pens in NP_pen for pen in pens]
@@ -1058,7 +1067,8 @@ def sample_mssm(
         coef = c[: n_coef + n_scale + n_theta]
 
         # Compute gradient
-        grad = deriv_fam.gradient(family_coef(coef), coef_split_idx, ys, Xs)[n_offset:]
+        grad = deriv_fam.gradient(family_coef(coef), coef_split_idx, ys, Xs)
+        grad = grad[n_offset : n_offset + len(coef)]  # noqa: E203
 
         if sample_rho:
             rho = c[n_coef + n_scale + n_theta :]  # noqa: E203
-- 
2.43.0


From 8d5aabee464c5a4da278751d8e8a40b380ace65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 85/86] fix: check_convergence skipped coefficients whose model
 matrix columns do not sum to a positive value

---
 src/mssm/src/python/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 1d2ba2e..a84d604 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -182,7 +182,7 @@ def check_convergence(
                 par=fidx,
             )
 
-            fcidx = np.arange(fixedX.shape[1])[fixedX.sum(axis=0) > 0]
+            fcidx = np.arange(fixedX.shape[1])[np.abs(fixedX).sum(axis=0) > 0]
 
             ess_sel.extend(split_ess[fidx][fcidx])
             rhat_sel.extend(split_rhat[fidx][fcidx])
-- 
2.43.0


From b046b9ec99376ad01d7352735cb7122d97056fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 86/86] fix: auto-convergence judged the log joint on all
 samples instead of the second half

---
 src/mssm/src/python/mcmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index a84d604..b2c3487 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -1334,6 +1334,9 @@ def sample_mssm(
                     conv_coef_samples = conv_coef_samples[
                         :, (iter - M_adapt) // 2 :, :  # noqa: E203
                     ]
+                    conv_llk_samples = conv_llk_samples[
+                        :, (iter - M_adapt) // 2 :, :  # noqa: E203
+                    ]
 
                     if n_scale > 0:
                         conv_scale_samples = conv_scale_samples[
-- 
2.43.0

