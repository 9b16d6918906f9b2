From dd064b2794910843674d4edafed925fad295d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 1/7] fix: give each outgoing RIXS operator its own result
 cache

The list multiplication made all outgoing operators share one dictionary, so from the
second operator on the cached result of the first one was used.
---
 impurityModel/ed/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index 87f163f..a290481 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -907,7 +907,7 @@ def getRIXSmap(
     # Hamiltonian dict of the form  |PS> : {H|PS>}
     # For product states with a core hole.
     h_dict_excited = {}
-    tOut_big = [{}] * len(tOpsOut)
+    tOut_big = [{} for _ in tOpsOut]
     if parallelization_mode in ("serial", "H_build"):
         # Loop over in-coming transition operators
         for tIn, tOpIn in enumerate(tOpsIn):
-- 
2.43.0


From e7659750ec0fec2c0d80e182bcedeeb89df2db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 2/7] fix: allgather_dict used the alias np.int, which numpy
 removed

---
 impurityModel/ed/mpi_comm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/mpi_comm.py b/impurityModel/ed/mpi_comm.py
index a7f88fd..e2754ea 100644
--- a/impurityModel/ed/mpi_comm.py
+++ b/impurityModel/ed/mpi_comm.py
@@ -70,7 +70,7 @@ def allgather_dict(data, total, chunk_maxsize=1 * 10**6):
     # Measure time for constructing H in matrix form
     t0 = time.time()
     # Number of elements for each rank.
-    n_ps_new = np.zeros(ranks, dtype=np.int)
+    n_ps_new = np.zeros(ranks, dtype=int)
     for r in range(ranks):
         n_ps_new[r] = comm.bcast(len(data), root=r)
     # Determine here if we can use a simple Allgather or need
-- 
2.43.0


From 70694b353baf38a6899db267d8e50374c1a241fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 3/7] fix: azimuthal angle of the NIXS momentum transfer

arccos loses the sign of q_y and gives nan for q along the z axis.
---
 impurityModel/ed/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index a290481..eed0220 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -481,7 +481,7 @@ def getNIXSOperator(nBaths, q, li, lj, Ri, Rj, r, kmin=1):
     # Polar (colatitudinal) coordinate
     theta = np.arccos(q[2] / qNorm)
     # Azimuthal (longitudinal) coordinate
-    phi = np.arccos(q[0] / (qNorm * np.sin(theta)))
+    phi = np.arctan2(q[1], q[0])
     tOp = {}
     for k in range(kmin, abs(li + lj) + 1):
         if (li + lj + k) % 2 == 0:
-- 
2.43.0


From fa1afbd5f13b65970c1bd7aed97e8a695f59c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 4/7] fix: reject more valence bath holes than valence bath
 states in get_basis

With no valence bath states the negative bath occupation went unnoticed and states
with an extra electron were generated.
---
 impurityModel/ed/finite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 1747d70..d62a4bd 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -325,8 +325,9 @@ def get_basis(nBaths, valBaths, dnValBaths, dnConBaths, dnTol, n0imp):
                     nImp = n0imp[l] + deltaNimp
                     nVal = valBaths[l] - dnVal
                     nCon = dnCon
-                    # Check for over-occupation
+                    # Check for over-occupation and negative occupation
                     assert nVal <= valBaths[l]
+                    assert nVal >= 0
                     assert nCon <= nBaths[l] - valBaths[l]
                     assert nImp <= 2 * (2 * l + 1)
 
-- 
2.43.0


From 99ff5878af9f5aaf0d736bb896dcbec0eebbbbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 5/7] fix: i2c returned a bath state with a negative number for
 negative indices

---
 impurityModel/ed/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index d62a4bd..a278a53 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -833,7 +833,7 @@ def i2c(nBaths, i):
     for lp, nBath in nBaths.items():
         b = i - k
         # Check if bath state belong to bath states having lp.
-        if b < nBath:
+        if 0 <= b < nBath:
             # The index "b" will have a value between 0 and nBath-1
             return (lp, b)
         k += nBath
-- 
2.43.0


From 15cef3c970f7a775058a6155cc2497d61a0a4b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 6/7] fix: print thermal expectation values at the requested
 temperature

---
 impurityModel/ed/get_spectra.py          | 2 +-
 impurityModel/ed/get_spectra_using_CF.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index ba538fc..a8f0a00 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index df7fda7..9f3bf06 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
-- 
2.43.0


From adc9d29d97e492189ec0c6c19e74cc8297b262fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 7/7] fix: allow for rounding errors in assert_hermitian

daggerOp(op) == op is an exact comparison of floats, so Hermitian operators
assembled from rotated matrices, e.g. the crystal-field Hamiltonian, were
rejected depending on the last bits of their matrix elements.
---
 impurityModel/ed/finite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index a278a53..791ac8a 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -288,7 +288,10 @@ def daggerOp(op):
 
 
 def assert_hermitian(op: dict[tuple, int | float | complex]):
-    assert daggerOp(op) == op
+    op_dagger = daggerOp(op)
+    # Allow for rounding errors
+    for process, value in op.items():
+        assert np.isclose(op_dagger.get(process, 0), value, rtol=1e-10, atol=1e-10)
 
 
 def get_basis(nBaths, valBaths, dnValBaths, dnConBaths, dnTol, n0imp):
-- 
2.43.0

