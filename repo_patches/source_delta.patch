From 7a89a91989755b53ce323fcf4bd9324e8817e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 01/42] fix: compiled electron-phonon Lindblad gain term uses
 both final states

The gain coefficient of Phi[0]_{aa'} read tLbbp[l, bp, a] instead of
tLbbp[l, bp, ap], so coherences lost probability in the compiled version.
---
 qmeq/approach/elph/c_lindblad.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 876a824..4779640 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -126,7 +126,7 @@ cdef class ApproachLindblad(ApproachElPh):
                 fct_aap = 0
                 for l in range(nbaths):
                     for q in range(2):
-                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, a, q].conjugate()
+                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, ap, q].conjugate()
                 kh.set_matrix_element(1j*fct_aap, b, bp, bcharge, a, ap, acharge)
         # --------------------------------------------------
         for i in range(bcount):
-- 
2.43.0


From 262b81f13791c20ac837bc35646c4ef92e8d0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 02/42] fix: coherences dropped by remove_coherences no longer
 count as unique elements

---
 qmeq/builder/various.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 18ed2c6..5833621 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -261,6 +261,7 @@ def remove_coherences(self, dE):
             b, bp = si.inddm0[ind]
             if abs(E[b]-E[bp]) > dE:
                 si.mapdm0[i] = -1
+                si.booldm0[i] = False
             else:
                 ilst.append(i)
                 indlst.append(ind)
-- 
2.43.0


From 4aa307fd0591c56c20fccc62da652a0aeb4e9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 03/42] fix: remove_coherences on a solved system makes the
 next solve rebuild its arrays

---
 qmeq/builder/various.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 5833621..3499888 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -281,6 +281,7 @@ def remove_coherences(self, dE):
     si.ndm0r = 2*si.ndm0-si.npauli
     for i in range(len(indlst)):
         si.mapdm0[ilst[i]] = indlst[i]
+    si.states_changed = True
 
 
 def remove_states(self, dE):
-- 
2.43.0


From 5f6f836d765a4af1d0167a902e8019de72f5538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 04/42] fix: remove_coherences relabels the pairs of the kept
 elements, so that it can be called again

---
 qmeq/builder/various.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 3499888..1da19e8 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -279,8 +279,11 @@ def remove_coherences(self, dE):
     # Relabel the density matrix elements
     si.ndm0 = count+1
     si.ndm0r = 2*si.ndm0-si.npauli
+    inddm0 = {}
     for i in range(len(indlst)):
+        inddm0[indlst[i]] = si.inddm0[si.mapdm0[ilst[i]]]
         si.mapdm0[ilst[i]] = indlst[i]
+    si.inddm0 = inddm0
     si.states_changed = True
 
 
-- 
2.43.0


From f81c89b3f1c8b8cc48e7da534a67e3d221d4351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 05/42] fix: get_phi0 of Pauli and RTD systems reads only the
 elements they have

---
 qmeq/builder/various.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 1da19e8..9c917eb 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -104,7 +104,7 @@ def get_phi0(self, b_, bp_):
     bcharge = sum(self.si.get_state(b))
     bpcharge = sum(self.si.get_state(bp))
     phi0bbp = 0.0
-    if self.funcp.kerntype == 'Pauli':
+    if self.kerntype in ('Pauli', 'pyPauli'):
         if b == bp:
             ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
             phi0bbp = self.phi0[ind]
@@ -116,9 +116,9 @@ def get_phi0(self, b_, bp_):
                 phi0bbp = self.phi0[ind]
             else:
                 ndm0, npauli = self.si.ndm0, self.si.npauli
-                phi0bbp = (self.phi0[ind] + 1j*self.phi0[ndm0-npauli+ind]
-                           * (+1 if conj else -1)
-                           * (0 if ind < npauli else 1))
+                phi0bbp = self.phi0[ind] + 0.0j
+                if ind >= npauli:
+                    phi0bbp += 1j*self.phi0[ndm0-npauli+ind]*(+1 if conj else -1)
     return phi0bbp
 
 
-- 
2.43.0


From 98446cf5bf0f6ea653b263b3078483fb4c1150d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 06/42] fix: get_phi1 returns None for the approaches without
 phi1

---
 qmeq/builder/various.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 9c917eb..0ae8cdd 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -141,7 +141,7 @@ def get_phi1(self, l, c_, b_):
     phi0bbp : complex
         A matrix element of the reduced density matrix (complex number).
     """
-    if self.funcp.kerntype == 'Pauli':
+    if self.phi1 is None:
         return None
     else:
         c = self.si.states_order[c_]
-- 
2.43.0


From cc9baff691a53313e5f230f8de412b3839a6f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 07/42] fix: generate_vec returns its own vector, not the work
 array overwritten by the next call

---
 qmeq/approach/aprclass.py    | 3 ++-
 qmeq/approach/c_aprclass.pyx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 98a6ddd..e184e71 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -289,7 +289,8 @@ class Approach(object):
 
         self.dphi0_dt[norm_row] = norm-1
 
-        return self.dphi0_dt
+        # The root finders keep the returned vector, so it must not be the work array
+        return self.dphi0_dt.copy()
 
     #endregion Generation
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7274314..978e617 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -222,7 +222,8 @@ cdef class Approach:
 
         self._dphi0_dt[norm_row] = norm-1
 
-        return self._dphi0_dt
+        # The root finders keep the returned vector, so it must not be the work array
+        return self.dphi0_dt.copy()
 
 
     #endregion Generation
-- 
2.43.0


From bc0e62a1cb9c34be67739cd2c17211493f276583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 08/42] fix: after a matrix-free solve the currents use the
 solution, not the last trial vector

---
 qmeq/approach/aprclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index e184e71..efd2007 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -353,6 +353,9 @@ class Approach(object):
             self.phi0.fill(0.0)
             self.success = False
 
+        # The currents are those of the solution, not of the last vector tried by the root finder
+        self.kernel_handler.set_phi0(self.phi0)
+
     def set_phi0_init(self):
         phi0_init = np.zeros(self.get_kern_size(), dtype=self.dtype)
         phi0_init[0] = 1.0
-- 
2.43.0


From e23299828e52edbdacedd3f3a3d0b370ebc4948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 09/42] fix: solmethod can be set before the first solve

The compiled approaches passed a kernel that did not exist yet to the LAPACK
solver. The solver is chosen anyway when the arrays are prepared.
---
 qmeq/approach/aprclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index efd2007..67b47ff 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -66,7 +66,8 @@ class Approach(object):
     @solmethod.setter
     def solmethod(self, value):
         self.funcp.solmethod = value
-        self.prepare_solver()
+        if self.is_prepared:
+            self.prepare_solver()
 
     @property
     def mfreeq(self):
-- 
2.43.0


From 90bc30e194d6390c2eae615b254cbf06ace8a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 10/42] fix: solmethod='lsmr' is not implemented, use lsqr for
 symq=False

The compiled approaches used dgesv on the rectangular matrix, which reads and
writes beyond it, and the Python approaches solved nothing.
---
 qmeq/approach/aprclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 67b47ff..8244145 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -205,7 +205,7 @@ class Approach(object):
         symq = self.funcp.symq
         if solmethod is None:
             solmethod = 'solve' if symq else 'lsqr'
-        if not symq and solmethod != 'lsqr' and solmethod != 'lsmr':
+        if not symq and solmethod != 'lsqr':
             print("WARNING: Using solmethod=lsqr, because the kernel is not symmetric, symq=False.")
             solmethod = 'lsqr'
 
-- 
2.43.0


From 3f6c0eb68f16c63bdc64a4f541a21e1fbf4cb540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 11/42] fix: mfreeq can be changed after a solve

The kernel handler, the arrays and the solution method of the previous mode
were kept, so the next solve failed or returned zeros as a success.
---
 qmeq/approach/aprclass.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 8244145..f91593b 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -74,6 +74,9 @@ class Approach(object):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
+        if value == self.funcp.mfreeq:
+            return
+        self.is_prepared = False
         self.funcp.mfreeq = value
 
     @property
@@ -198,12 +201,15 @@ class Approach(object):
         solmethod = self.funcp.solmethod
         # Determine the proper solution method
         if self.funcp.mfreeq:
-            solmethod = solmethod if solmethod is not None else 'krylov'
+            # The methods 'solve' and 'lsqr' need a kernel matrix
+            if solmethod is None or solmethod in ('solve', 'lsqr'):
+                solmethod = 'krylov'
             self.funcp.solmethod = solmethod
             return
 
         symq = self.funcp.symq
-        if solmethod is None:
+        # The methods other than 'solve' and 'lsqr' are matrix free
+        if solmethod not in ('solve', 'lsqr'):
             solmethod = 'solve' if symq else 'lsqr'
         if not symq and solmethod != 'lsqr':
             print("WARNING: Using solmethod=lsqr, because the kernel is not symmetric, symq=False.")
-- 
2.43.0


From d01f4835ff8e65f22f23cb080d22636acf4cbc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 12/42] fix: pyRTD without off-diagonal corrections

The list of matrices of the kernel handler was built from attributes which
exist only when off_diag_corrections=True.
---
 qmeq/approach/kernel_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 6ba4fad..95bc539 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -255,6 +255,9 @@ class KernelHandlerMatrixFree(KernelHandler):
 class KernelHandlerRTD(KernelHandler):
     """Class used for inserting matrix elements into the matrices used in the RTD approach."""
 
+    # These matrices exist only when the off-diagonal corrections are calculated
+    ReWdn = ImWdn = ReWnd = ImWnd = Lnn = None
+
     def set_matrix_list(self):
         self.mats = [self.Wdd, self.WE1, self.WE2, self.ReWdn, self.ImWdn, self.ReWnd, self.ImWnd, self.Lnn]
 
-- 
2.43.0


From 856cd4e387cd1bb8491d8c8fa2e500f589abb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 13/42] fix: off_diag_corrections can be changed after a solve

The arrays for the corrections are prepared only when they are asked for, and
in the Python approach they kept their old content when the corrections were
switched off and on again.
---
 qmeq/approach/base/RTD.py    | 6 ++++++
 qmeq/approach/base/c_RTD.pyx | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a5d1a10..4ba4fe6 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -44,6 +44,12 @@ class ApproachPyRTD(Approach):
         self.ImWdn = None
         self.Lnn = None
 
+    def prepare_kern(self):
+        if self.off_diag_corrections != self.funcp.off_diag_corrections:
+            self.off_diag_corrections = self.funcp.off_diag_corrections
+            self.is_prepared = False
+        Approach.prepare_kern(self)
+
     def prepare_kernel_handler(self):
         self.kernel_handler = KernelHandlerRTD(self.si)
 
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index b2584bd..df458bb 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -56,6 +56,7 @@ cdef class ApproachRTD(Approach):
         self.ImGamma = False
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
+        self.off_diag_corrections = self.funcp.off_diag_corrections
         # For parallel
         self.nbr_Wdd2_copies = min(self.si.npauli, openmp.omp_get_max_threads())
 
@@ -63,6 +64,13 @@ cdef class ApproachRTD(Approach):
         return self._kernel_handler.npauli
 
 
+    cpdef void prepare_kern(self):
+        if self.off_diag_corrections != self.funcp.off_diag_corrections:
+            self.off_diag_corrections = self.funcp.off_diag_corrections
+            self.is_prepared = False
+        Approach.prepare_kern(self)
+
+
     def prepare_kernel_handler(self):
         self.kernel_handler = KernelHandlerRTD(self.si, self.no_coherences)
         self._kernel_handler = self.kernel_handler
-- 
2.43.0


From 74143b5d78aeddee08b13b09be5dd79ee0cf738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 14/42] fix: make_kern_copy can be changed after a solve

---
 qmeq/approach/c_aprclass.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 978e617..7843d37 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -86,6 +86,9 @@ cdef class Approach:
         return self._make_kern_copy
     @make_kern_copy.setter
     def make_kern_copy(self, value):
+        # The solver is created with this choice
+        if value != self._make_kern_copy:
+            self.is_prepared = False
         self._make_kern_copy = value
 
     #endregion Properties
-- 
2.43.0


From 223f338209dc1d7af521cd0cc3994d75ebf0cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 15/42] fix: RTD: number of kernel copies follows the number of
 states

With more states than at construction (use_all_states) the threads wrote
beyond the copies.
---
 qmeq/approach/base/c_RTD.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index df458bb..25f083a 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -57,8 +57,6 @@ cdef class ApproachRTD(Approach):
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
         self.off_diag_corrections = self.funcp.off_diag_corrections
-        # For parallel
-        self.nbr_Wdd2_copies = min(self.si.npauli, openmp.omp_get_max_threads())
 
     cpdef long_t get_kern_size(self):
         return self._kernel_handler.npauli
@@ -91,6 +89,8 @@ cdef class ApproachRTD(Approach):
 
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
         self.rez = np.zeros(2, dtype=doublenp)
+        # For parallel
+        self.nbr_Wdd2_copies = min(kern_size, openmp.omp_get_max_threads())
         self.Wdd2 = np.zeros((self.nbr_Wdd2_copies, nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE1 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE2 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
-- 
2.43.0


From ce77b56f88fc8617fa9da3646e40a90c5990d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 16/42] fix: compiled approaches use arrays assigned between
 two solves

The views of the lead, bath and dot arrays were taken only when the approach
was prepared, so e.g. system.mulst = array(...) after a solve was ignored.
---
 qmeq/approach/base/c_RTD.pyx | 13 +++++--------
 qmeq/approach/c_aprclass.pyx |  9 +++++++++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 25f083a..690d5c6 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -128,14 +128,7 @@ cdef class ApproachRTD(Approach):
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
-        self._tlst = self.leads.tlst
-        self._tleads_array = self.leads.tleads_array
-
-        self._mulst = self.leads.mulst
-        self._dlst = self.leads.dlst
-
-        self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
+        self.prepare_views()
 
         self._Wdd = self.Wdd2[0,...]
         self._WE1 = self.WE1
@@ -147,6 +140,10 @@ cdef class ApproachRTD(Approach):
         kh.WE1 = self._WE1
         kh.WE2 = self._WE2
 
+    def prepare_views(self):
+        Approach.prepare_views(self)
+        self._tleads_array = self.leads.tleads_array
+
 
     cdef void clean_arrays(self):
         self.ImGamma = False
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7843d37..afbd54f 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -106,6 +106,7 @@ cdef class Approach:
 
     cpdef void prepare_kern(self):
         if self.is_prepared and not self.si.states_changed:
+            self.prepare_views()
             self.clean_arrays()
             return
 
@@ -144,6 +145,10 @@ cdef class Approach:
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
+        self.prepare_views()
+
+    def prepare_views(self):
+        # The user can assign new arrays between two solves
         self._tlst = self.leads.tlst
         self._mulst = self.leads.mulst
         self._dlst = self.leads.dlst
@@ -290,6 +295,10 @@ cdef class ApproachElPh(Approach):
         self._kernel_handler.elph = self.kernel_handler_elph
 
     cdef void prepare_arrays(self):
+        self.prepare_views()
+
+    def prepare_views(self):
+        Approach.prepare_views(self)
         self._tlst_ph = self.baths.tlst_ph
         self._dlst_ph = self.baths.dlst_ph
         self._Vbbp = self.baths.Vbbp
-- 
2.43.0


From 0b1fd4eccd2e74779ad2f960ace7dcb3608920d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 17/42] fix: an Approach class can be given as kerntype at
 construction

The kerntype of the approach was assigned before the approach existed. The
property reads it from the approach anyway.
---
 qmeq/builder/builder_base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index c8e0ff3..9d26ebb 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -125,7 +125,6 @@ class BuilderBase(object):
             self.Approach = self.globals['Approach'+approach_string]
         elif issubclass(kerntype, Approach):
             self.Approach = kerntype
-            self.kerntype = self.Approach.kerntype
 
     def _init_create_setup(self):
         data = self.data
-- 
2.43.0


From 257ea0b6952b515aa3d587de7a1ed2fe5f5c8574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 18/42] fix: mfreeq=True is refused for the RTD and 2vN
 approaches

The validation existed but was not called, and solve() failed.
---
 qmeq/builder/builder_base.py | 2 ++
 qmeq/builder/validation.py   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 9d26ebb..edafc54 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -23,6 +23,7 @@ from .various import use_all_states
 
 from .validation import validate_kerntype
 from .validation import validate_itype
+from .validation import validate_mfreeq
 from .validation import validate_indexing
 
 # -----------------------------------------------------------
@@ -111,6 +112,7 @@ class BuilderBase(object):
         data = self.data
         data.itype = validate_itype(data.itype, data.kerntype)
         data.kerntype = validate_kerntype(data.kerntype)
+        data.mfreeq = validate_mfreeq(data.kerntype, data.mfreeq)
         data.indexing, data.symmetry = validate_indexing(data.indexing,
                                           data.symmetry,
                                           data.kerntype)
diff --git a/qmeq/builder/validation.py b/qmeq/builder/validation.py
index 9135908..9790a26 100644
--- a/qmeq/builder/validation.py
+++ b/qmeq/builder/validation.py
@@ -32,8 +32,8 @@ def validate_itype_ph(itype_ph):
     return itype_ph
 
 def validate_mfreeq(kerntype, mfreeq):
-    if mfreeq and kerntype in {'RTD', 'pyRTD'}:
-        print("WARNING: mfreeq=True is not supported by the RTD approach. Using default mfreeq=False.")
+    if mfreeq and kerntype in {'RTD', 'pyRTD', '2vN', 'py2vN'}:
+        print("WARNING: mfreeq=True is not supported by the RTD and 2vN approaches. Using default mfreeq=False.")
         mfreeq = False
     return mfreeq
 
-- 
2.43.0


From 01b18efcf47a37ebb9c5819401c989194e0d1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 19/42] fix: the phonon baths survive a change of kerntype

The baths are kept as an attribute of the state indexing, which is replaced
when the new approach needs another kind of indexing.
---
 qmeq/builder/builder_elph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index e67122f..72485e7 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -111,7 +111,12 @@ class BuilderElPh(BuilderBase):
         self.create_si_elph()
 
     def change_si(self):
+        # The baths and their number are kept by the state indexing, which can be replaced by a new one
+        baths, nbaths = self.baths, self.si.nbaths
         BuilderBase.change_si(self)
+        baths.si = self.si
+        self.si.nbaths = nbaths
+        self.baths = baths
         self.create_si_elph()
 
     def create_si_elph(self):
-- 
2.43.0


From f0820762bec04c0d2925e7a194dfc20a50866129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 20/42] fix: BuilderElPh refuses the RTD approach with a
 warning instead of a KeyError

---
 qmeq/builder/builder_elph.py | 4 +++-
 qmeq/builder/validation.py   | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index 72485e7..e93ee9d 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -8,6 +8,7 @@ from ..indexing import StateIndexingDMc
 from ..baths import PhononBaths
 
 from .validation import validate_itype_ph
+from .validation import validate_kerntype_elph
 
 # -----------------------------------------------------------
 # Python modules
@@ -91,8 +92,9 @@ class BuilderElPh(BuilderBase):
         self._init_create_appr()
 
     def _init_validate_data(self):
-        BuilderBase._init_validate_data(self)
         data = self.data
+        data.kerntype = validate_kerntype_elph(data.kerntype)
+        BuilderBase._init_validate_data(self)
         data.itype_ph = validate_itype_ph(data.itype_ph)
 
     def _init_set_globals(self):
diff --git a/qmeq/builder/validation.py b/qmeq/builder/validation.py
index 9790a26..5c5c8a5 100644
--- a/qmeq/builder/validation.py
+++ b/qmeq/builder/validation.py
@@ -13,6 +13,14 @@ def validate_kerntype(kerntype):
     return kerntype
 
 
+def validate_kerntype_elph(kerntype):
+    if isinstance(kerntype, str) and kerntype in {'RTD', 'pyRTD'}:
+        print("WARNING: The RTD approach does not support electron-phonon coupling. " +
+              "Using default kerntype=\'Pauli\'.")
+        kerntype = 'Pauli'
+    return kerntype
+
+
 def validate_itype(itype, kerntype):
     if kerntype not in ('RTD', 'pyRTD'):
         if itype not in {0, 1, 2, 3}:
-- 
2.43.0


From 95d35d1e30c05eab3ccc2ea9611aac458fef487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 21/42] fix: a second remove_fock_states with Lin indexing
 removes the states asked for

---
 qmeq/indexing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 0a9f834..bf94b89 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -625,8 +625,12 @@ class StateIndexing(object):
             self.removed_fock_states[ind] = True
         self.nmany = self.nmany_ - sum(self.removed_fock_states)
 
-        chargelst_lin = self.chargelst if self.indexing == 'Lin' else self.chargelst_lin
         ncharge = self.ncharge
+        if self.indexing == 'Lin':
+            # The states in chargelst are labelled by their present index, if some states were already removed
+            chargelst_lin = [[self.i[j1] for j1 in self.chargelst[charge]] for charge in range(ncharge)]
+        else:
+            chargelst_lin = self.chargelst_lin
         for charge in range(ncharge):
             charge_states = []
             for j1 in chargelst_lin[charge]:
-- 
2.43.0


From ba873cbdeaacdbccdbcdd5d6cfc50a8df1023e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 22/42] fix: the printing order of the states refers to
 existing states after remove_fock_states

---
 qmeq/indexing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index bf94b89..604fb11 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -666,6 +666,7 @@ class StateIndexing(object):
             self.j[self.i[j1]] = j1
 
         self.qn_ind, self.ind_qn = make_quantum_numbers(self)
+        self.states_order = list(range(self.nmany))
 
         self.states_changed = True
 
-- 
2.43.0


From 1613a8eeb9f9393cabe51a2b3a047af4a5143a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 23/42] fix: Fock states stay removed when a change of kerntype
 replaces the state indexing

---
 qmeq/builder/builder_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index edafc54..f6d6249 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -168,6 +168,8 @@ class BuilderBase(object):
         # noinspection PyTypeHints
         if not isinstance(si, self.globals[icn]):
             self.si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
+            if si.removed_fock_states is not None:
+                self.si.remove_fock_states(np.flatnonzero(si.removed_fock_states))
             self.qd.si = self.si
             self.leads.si = self.si
         self.si.states_changed = True
-- 
2.43.0


From 192f87447618203c9e55df1185818fbbf4e3b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:46 +0000
Subject: [PATCH 24/42] fix: the electron-phonon indexing follows
 use_all_states and a change of kerntype

---
 qmeq/builder/builder_elph.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index e93ee9d..cd74e08 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -1,5 +1,7 @@
 """Module containing Builder_elph and Builder_many_body_elph classes."""
 
+import numpy as np
+
 from .builder_base import BuilderBase
 from .builder_base import attribute_map
 from .builder_base import BuilderManyBody
@@ -126,6 +128,9 @@ class BuilderElPh(BuilderBase):
         si_elph = StateIndexingDMc(si.nsingle, si.indexing,
                                    si.symmetry, si.nleads)
         si_elph.nbaths = si.nbaths
+        if si.removed_fock_states is not None:
+            si_elph.remove_fock_states(np.flatnonzero(si.removed_fock_states))
+        si_elph.set_statesdm(si.statesdm[:si.ncharge])
         self.si_elph = si_elph
 
     def add(self,
@@ -144,7 +149,11 @@ class BuilderElPh(BuilderBase):
 
     def remove_states(self, dE):
         BuilderBase.remove_states(self, dE)
-        self.si_elph.set_statesdm(self.si.statesdm)
+        self.si_elph.set_statesdm(self.si.statesdm[:self.si.ncharge])
+
+    def use_all_states(self):
+        BuilderBase.use_all_states(self)
+        self.si_elph.set_statesdm(self.si.statesdm[:self.si.ncharge])
 
     def remove_fock_states(self, lin_state_indices):
         BuilderBase.remove_fock_states(self, lin_state_indices)
-- 
2.43.0


From d328add8bcc51bc213078ad218fb94893e3cde03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 25/42] fix: many-body input keeps its states for the
 electron-phonon indexing, remove_states, use_all_states and a new kerntype

---
 qmeq/builder/builder_base.py | 35 +++++++++++++++++++++++++----------
 qmeq/builder/builder_elph.py |  6 ++----
 qmeq/builder/various.py      |  2 +-
 3 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index f6d6249..122d704 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -8,6 +8,7 @@ from ..wrappers.mytypes import longnp
 from ..approach.aprclass import Approach
 from ..indexing import StateIndexingDM
 from ..indexing import StateIndexingDMc
+from ..indexing import make_quantum_numbers
 from ..qdot import QuantumDot
 from ..leadstun import LeadsTunneling
 from .funcprop import FunctionProperties
@@ -168,12 +169,15 @@ class BuilderBase(object):
         # noinspection PyTypeHints
         if not isinstance(si, self.globals[icn]):
             self.si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
-            if si.removed_fock_states is not None:
-                self.si.remove_fock_states(np.flatnonzero(si.removed_fock_states))
+            self._copy_states(si, self.si)
             self.qd.si = self.si
             self.leads.si = self.si
         self.si.states_changed = True
 
+    def _copy_states(self, si, new):
+        if si.removed_fock_states is not None:
+            new.remove_fock_states(np.flatnonzero(si.removed_fock_states))
+
     # kerntype
     def get_kerntype(self):
         return self.appr.kerntype
@@ -350,13 +354,24 @@ class BuilderManyBody(BuilderBase):
 
         statesdm = [[] for _ in range(ncharge)]
         for i in range(nmany):
-            statesdm[Na[i]].append(i)
+            statesdm[Na[i]-nmin].append(i)
 
         self.Na = Na
-        self.si.nmany = nmany
-        self.si.ncharge = ncharge
-        self.si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
-        self.si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
-        self.si.lenlst = np.zeros(ncharge, dtype=longnp)
-        self.si.dictdm = np.zeros(nmany, dtype=longnp)
-        self.si.set_statesdm(statesdm)
+        self._set_state_indexing(self.si, statesdm)
+
+    def _set_state_indexing(self, si, chargelst):
+        nmany, ncharge = sum(map(len, chargelst)), len(chargelst)
+
+        si.nmany = nmany
+        si.ncharge = ncharge
+        si.chargelst = chargelst
+        si.states_order = list(range(nmany))
+        si.qn_ind, si.ind_qn = make_quantum_numbers(si)
+        si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
+        si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
+        si.lenlst = np.zeros(ncharge, dtype=longnp)
+        si.dictdm = np.zeros(nmany, dtype=longnp)
+        si.set_statesdm(list(chargelst))
+
+    def _copy_states(self, si, new):
+        self._set_state_indexing(new, si.chargelst)
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index cd74e08..72feb4d 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -1,7 +1,5 @@
 """Module containing Builder_elph and Builder_many_body_elph classes."""
 
-import numpy as np
-
 from .builder_base import BuilderBase
 from .builder_base import attribute_map
 from .builder_base import BuilderManyBody
@@ -128,8 +126,7 @@ class BuilderElPh(BuilderBase):
         si_elph = StateIndexingDMc(si.nsingle, si.indexing,
                                    si.symmetry, si.nleads)
         si_elph.nbaths = si.nbaths
-        if si.removed_fock_states is not None:
-            si_elph.remove_fock_states(np.flatnonzero(si.removed_fock_states))
+        self._copy_states(si, si_elph)
         si_elph.set_statesdm(si.statesdm[:si.ncharge])
         self.si_elph = si_elph
 
@@ -199,6 +196,7 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
             indexing='charge')
 
         self._init_state_indexing(Na, Ea)
+        self._copy_states(self.si, self.si_elph)
 
         self.qd.Ea = Ea
         self.leads.Tba = Tba
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 0ae8cdd..c8a127b 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -303,7 +303,7 @@ def remove_states(self, dE):
         (Modifies) List containing indices of many-body state under consideration.
     """
     Emax = min(self.qd.Ea)+dE
-    statesdm = [[] for _ in range(self.si.nsingle+1)]
+    statesdm = [[] for _ in range(self.si.ncharge)]
     for charge in range(self.si.ncharge):
         for b in self.si.chargelst[charge]:
             if self.qd.Ea[b] < Emax:
-- 
2.43.0


From 930c71d6cd6569ceef36b66bcba92ca745008595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 26/42] fix: get_phi0 and get_phi1 take the charge from the
 state indexing, so they work for many-body input

---
 qmeq/builder/various.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index c8a127b..26466f1 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -101,8 +101,8 @@ def get_phi0(self, b_, bp_):
     """
     b = self.si.states_order[b_]
     bp = self.si.states_order[bp_]
-    bcharge = sum(self.si.get_state(b))
-    bpcharge = sum(self.si.get_state(bp))
+    bcharge = self.si.ind_qn[b][0]
+    bpcharge = self.si.ind_qn[bp][0]
     phi0bbp = 0.0
     if self.kerntype in ('Pauli', 'pyPauli'):
         if b == bp:
@@ -146,8 +146,8 @@ def get_phi1(self, l, c_, b_):
     else:
         c = self.si.states_order[c_]
         b = self.si.states_order[b_]
-        ccharge = sum(self.si.get_state(c))
-        bcharge = sum(self.si.get_state(b))
+        ccharge = self.si.ind_qn[c][0]
+        bcharge = self.si.ind_qn[b][0]
         phi1cb = 0.0
         if ccharge == bcharge+1:
             ind = self.si.get_ind_dm1(c, b, bcharge)
-- 
2.43.0


From 86158942ed0fcb9ab2468df60b0f050ee45b8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 27/42] fix: set_statesdm leaves the list it is given unchanged
 for the Pauli and complex indexing too

---
 qmeq/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 604fb11..0164ecd 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -723,7 +723,7 @@ class StateIndexingPauli(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.npauli_ = 0
         for j1 in range(self.ncharge):
@@ -1101,7 +1101,7 @@ class StateIndexingDMc(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
-- 
2.43.0


From cf7fb92fa006df4b429286691138cf0f875cd44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 28/42] fix: leads.change, update_Tba0 and update_Vbbp0 use the
 converted amplitudes, so tleads_array stays in step

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 38bb530..20d54e0 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -332,4 +332,4 @@ class PhononBaths(object):
         si.nbaths = nbaths
         self.velph = make_velph_dict(velph, si)
         self.mtype = mtype
-        self.Vbbp0 = elph_construct_Vbbp(self, velph)
+        self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 41622c7..d8ff67c 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -507,6 +507,7 @@ class LeadsTunneling(object):
                     if tleads_diff != 0:
                         tleads_add.update({j0: tleads_diff})
                         self.tleads.update({j0: tleads_diff})
+            self.tleads_array = make_tleads_array(self.tleads, self.si)
             # Add the differences
             self.add(tleads_add, updateq=False, lstq=False)
 
@@ -547,6 +548,6 @@ class LeadsTunneling(object):
         si.nleads = nleads
         si.nleads_sym = nleads//2 if si.symmetry == 'spin' else nleads
         self.tleads = make_tleads_dict(tleads, si)
-        self.tleads_array = make_tleads_array(tleads, self.si)
+        self.tleads_array = make_tleads_array(self.tleads, self.si)
         self.mtype = mtype
-        self.Tba0 = construct_Tba(self, tleads)
+        self.Tba0 = construct_Tba(self, self.tleads)
-- 
2.43.0


From 3d75cb7accd158be76be774b08e08ed82bf9789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 29/42] fix: the spin symmetry is recognised by value, not by
 string identity

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 20d54e0..9bc9b95 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -164,7 +164,7 @@ def make_velph_dict(velph, si, add_zeros=False):
     else:
         velph_dict = {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         velph_dict_spin = dict(velph_dict)
         for j0 in velph_dict:
             j1, j2, j3 = j0
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index d8ff67c..e630061 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -284,7 +284,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
     else:
         return {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         tleads_dict_spin = dict(tleads_dict)
         for j0 in tleads_dict:
             j1, j2 = j0
@@ -356,7 +356,7 @@ def make_array(lst_old, lst, si, npar=None, use_symmetry=True):
     else:
         lst_arr = np.zeros(npar, dtype=doublenp)
     #
-    if si.symmetry is 'spin' and use_symmetry:
+    if si.symmetry == 'spin' and use_symmetry:
         return np.concatenate((lst_arr, lst_arr))
     else:
         return lst_arr
-- 
2.43.0


From 32ba9e67e32b54200253d8173ffc43e9b2d1f623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 30/42] fix: sort_eigenstates leaves the list it is given
 unchanged

---
 qmeq/builder/various.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 26466f1..94252b3 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -76,7 +76,7 @@ def sort_eigenstates(self, srt=None):
             self.qd.Ea_ext = construct_Ea_extended(self)
         else:
             self.qd.Ea_ext[0] = self.qd.Ea
-        srt.append(-1)
+        srt = list(srt) + [-1]
         self.si.states_order = np.array(multiarray_sort(self.qd.Ea_ext, srt)[-1], dtype=int)
     else:
         self.si.states_order = range(self.si.nmany)
-- 
2.43.0


From 6611426fbb3e692262c80e2aca9f74a3aed016b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 31/42] fix: dictionaries given to QuantumDot, LeadsTunneling
 and PhononBaths are copied, so later changes leave them as they were

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 2 +-
 qmeq/qdot.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 9bc9b95..4affd7c 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -149,7 +149,7 @@ def make_velph_dict(velph, si, add_zeros=False):
         velph[(bath, state1, state2)] gives the coupling.
     """
     if isinstance(velph, dict):
-        velph_dict = velph
+        velph_dict = dict(velph)
     elif isinstance(velph, list):
         velph_dict = {}
         for j0 in velph:
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index e630061..59e089b 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -268,7 +268,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
         tleads[(lead, state)] gives the tunneling amplitude.
     """
     if isinstance(tleads, dict):
-        tleads_dict = tleads
+        tleads_dict = dict(tleads)
     elif isinstance(tleads, list):
         tleads_dict = {}
         for j0 in tleads:
diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 7ab2f5d..9210981 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -595,7 +595,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
     si = qd.si
     #
     if isinstance(hsingle, dict):
-        hsingle_dict = hsingle
+        hsingle_dict = dict(hsingle)
     elif isinstance(hsingle, list):
         hsingle_dict = {}
         for j0 in hsingle:
@@ -644,7 +644,7 @@ def make_coulomb_dict(qd, coulomb):
     si = qd.si
     #
     if isinstance(coulomb, dict):
-        coulomb_dict = coulomb
+        coulomb_dict = dict(coulomb)
     elif isinstance(coulomb, (list, np.ndarray)):
         coulomb_dict = {}
         for j0 in coulomb:
-- 
2.43.0


From 16ad63c917b15c6084f5f1b7a2ae763afdec6503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 32/42] fix: change Coulomb matrix elements to zero when given
 as a list or array

---
 qmeq/qdot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 9210981..5b8044a 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -624,7 +624,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
         return hsingle_dict
 
 
-def make_coulomb_dict(qd, coulomb):
+def make_coulomb_dict(qd, coulomb, add_zeros=False):
     """
     Makes Coulomb matrix element dictionary.
 
@@ -634,6 +634,8 @@ def make_coulomb_dict(qd, coulomb):
         Contains coulomb matrix elements.
     qd : QuantumDot
         QuantumDot object.
+    add_zeros : bool
+        Flag indicating whether to add zeros to dictionary.
 
     Returns
     -------
@@ -649,7 +651,7 @@ def make_coulomb_dict(qd, coulomb):
         coulomb_dict = {}
         for j0 in coulomb:
             m, n, k, l, U = j0
-            if U != 0:
+            if U != 0 or add_zeros:
                 coulomb_dict.update({(m, n, k, l): U})
     else:
         return {}
@@ -837,7 +839,7 @@ class QuantumDot(object):
             The many-body Hamiltonian will be updates in either case.
         """
         hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle, True)
-        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
+        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb, True)
         #
         hsingle_add = {}
         coulomb_add = {}
-- 
2.43.0


From 1e2ad92fc5c51ab84d9fbcd38cf571c870a4271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 33/42] fix: QuantumDot.add and change with updateq=False
 failed when only one kind of parameter was given

---
 qmeq/qdot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 5b8044a..b34c920 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -791,6 +791,9 @@ class QuantumDot(object):
                     self.coulomb[j0] += coulomb[j0]
                 else:
                     self.coulomb.update({j0: coulomb[j0]})
+        else:
+            hsingle = {} if hsingle is None else hsingle
+            coulomb = {} if coulomb is None else coulomb
         #
         if self.si.indexing == 'sz':
             for charge in range(self.si.ncharge):
-- 
2.43.0


From 138af2401e877f8d06978a71220e5e3bada5de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:39 +0000
Subject: [PATCH 34/42] fix: validate kerntype and mfreeq when they are set
 after construction

---
 qmeq/builder/builder_base.py | 15 ++++++++++++++-
 qmeq/builder/builder_elph.py |  3 +++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 122d704..7ad929f 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -71,7 +71,7 @@ attribute_map = dict(
     # FunctionProperties
     kpnt='funcp', symq='appr', norm_row='appr', solmethod='appr',
     itype='appr', dqawc_limit='funcp',
-    mfreeq='appr', phi0_init='funcp', off_diag_corrections='funcp'
+    phi0_init='funcp', off_diag_corrections='funcp'
     )
 
 
@@ -178,13 +178,18 @@ class BuilderBase(object):
         if si.removed_fock_states is not None:
             new.remove_fock_states(np.flatnonzero(si.removed_fock_states))
 
+    def _validate_kerntype(self, kerntype):
+        return validate_kerntype(kerntype)
+
     # kerntype
     def get_kerntype(self):
         return self.appr.kerntype
 
     def set_kerntype(self, value):
         if isinstance(value, str):
+            value = self._validate_kerntype(value)
             if self.appr.kerntype != value:
+                self.funcp.mfreeq = validate_mfreeq(value, self.funcp.mfreeq)
                 approach_string = value[0].capitalize() + value[1:]
                 self.Approach = self.globals['Approach'+approach_string]
                 self.change_si()
@@ -196,6 +201,14 @@ class BuilderBase(object):
                 self.appr = self.Approach(self)
     kerntype = property(get_kerntype, set_kerntype)
 
+    # mfreeq
+    def get_mfreeq(self):
+        return self.appr.mfreeq
+
+    def set_mfreeq(self, value):
+        self.appr.mfreeq = validate_mfreeq(self.appr.kerntype, value)
+    mfreeq = property(get_mfreeq, set_mfreeq)
+
     # indexing
     def get_indexing(self):
         return self.si.indexing
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index 72feb4d..9746ba2 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -97,6 +97,9 @@ class BuilderElPh(BuilderBase):
         BuilderBase._init_validate_data(self)
         data.itype_ph = validate_itype_ph(data.itype_ph)
 
+    def _validate_kerntype(self, kerntype):
+        return BuilderBase._validate_kerntype(self, validate_kerntype_elph(kerntype))
+
     def _init_set_globals(self):
         self.globals = globals()
 
-- 
2.43.0


From a8485fcb7a0d61a3ca4dc99bc797e5e121e1c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 35/42] fix: integralX treats nearly equal temperatures like
 integralD and the compiled code

---
 qmeq/specfunc/specfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 6b9f7de..84681ae 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -542,7 +542,7 @@ def integralX(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
         The integral value
     """
 
-    TMIN = 1e-10
+    TMIN = 1e-5
     if abs(T2-T1) < TMIN and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
-- 
2.43.0


From f64e836fec4a60bf258fea779d7792594f4330d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 36/42] fix: bose and diff_fermi guard the exponent they
 evaluate, for either sign

---
 qmeq/specfunc/c_specfunc.pyx | 4 ++--
 qmeq/specfunc/specfunc.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 50d31bc..d820210 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -100,7 +100,7 @@ cdef double_t fermi_func(double_t x) nogil:
 @cython.cdivision(True)
 cdef double_t diff_fermi(double_t x, double_t sign=1) nogil:
     """Calculates the derivative of the Fermi function."""
-    if x > 354.885:
+    if sign*x > 354.885:
         return 0.0
     cdef double_t e = exp(sign*x)
     return -sign*e / ((e + 1.0)**2)
@@ -109,7 +109,7 @@ cdef double_t diff_fermi(double_t x, double_t sign=1) nogil:
 @cython.cdivision(True)
 cdef double_t bose(double_t x, double_t sign=1) nogil:
     """Calculates the Bose distribution function at x."""
-    if x > 709.77: #To avoid overflow in the denominator.
+    if sign*x > 709.77: #To avoid overflow in the denominator.
         return 0.0
     cdef double_t e = exp( sign * x )
     return 1.0 / (e - 1.0)
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 84681ae..75590a6 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -213,7 +213,7 @@ def diff_fermi(x, sign=1):
     double
         The function value
     """
-    if x > 709.77 / 2:  # To avoid overflow in the denominator
+    if sign * x > 709.77 / 2:  # To avoid overflow in the denominator
         return 0.0
     e = np.exp(sign * x)
     return -sign * e / ((e + 1.0) ** 2)
@@ -234,7 +234,7 @@ def bose(x, sign=1):
     double
         The function value
     """
-    if x > 709.77:  # To avoid overflow in the denominator
+    if sign * x > 709.77:  # To avoid overflow in the denominator
         return 0.0
     e = np.exp(sign * x)
     return 1 / (e - 1)
-- 
2.43.0


From cdf8d909d66c228250bc857219cd7be8c974c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 37/42] fix: RTD kernels skip density-matrix elements that were
 removed

---
 qmeq/approach/c_kernel_handler.pyx | 3 +++
 qmeq/approach/kernel_handler.py    | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index 0396d79..87d457f 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -272,6 +272,9 @@ cdef class KernelHandlerRTD(KernelHandler):
                     long_t bcharge, long_t a, long_t ap, long_t acharge, int_t mi) nogil:
         cdef long_t indx1 = self.get_ind_dm0(b, bp, bcharge)
         cdef long_t indx2 = self.get_ind_dm0(a, ap, acharge)
+        if indx1 == -1 or indx2 == -1:
+            return
+
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 95bc539..4b69b20 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -296,6 +296,9 @@ class KernelHandlerRTD(KernelHandler):
 
         indx1 = self.si.get_ind_dm0(b, bp, bcharge)
         indx2 = self.si.get_ind_dm0(a, ap, acharge)
+        if indx1 == -1 or indx2 == -1:
+            return
+
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
@@ -395,7 +398,11 @@ class KernelHandlerRTD(KernelHandler):
         self.Lnn : ndarray
             (Modifies) the anti-commutator Liouvillian connecting non-diagonal elements
         """
-        indx = self.si.get_ind_dm0(a1, b1, charge) - self.npauli
+        indx = self.si.get_ind_dm0(a1, b1, charge)
+        if indx == -1:
+            return
+
+        indx -= self.npauli
         if a1 > b1:
             indx += self.ndm0 - self.npauli
         self.Lnn[indx, indx] += fct
-- 
2.43.0


From 10c0230984e5acbeb3db547fc813bb08612e0377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 38/42] fix: 2vN kernels skip density-matrix elements that were
 removed

---
 qmeq/approach/base/c_neumann2.pyx |  6 ++++--
 qmeq/approach/base/neumann2.py    | 10 ++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/qmeq/approach/base/c_neumann2.pyx b/qmeq/approach/base/c_neumann2.pyx
index 5e92b5d..ec8209f 100644
--- a/qmeq/approach/base/c_neumann2.pyx
+++ b/qmeq/approach/base/c_neumann2.pyx
@@ -173,11 +173,13 @@ cdef class TermsCalculator2vN:
             for j in range(bcount):
                 b1 = statesdm[bcharge, j]
                 b1b = kh.get_ind_dm0(b1, b, bcharge)
-                kern0[cb, b1b] = kern0[cb, b1b] + fp*Tba[l, c, b1]
+                if b1b != -1:
+                    kern0[cb, b1b] = kern0[cb, b1b] + fp*Tba[l, c, b1]
             for j in range(ccount):
                 c1 = statesdm[ccharge, j]
                 cc1 = kh.get_ind_dm0(c, c1, ccharge)
-                kern0[cb, cc1] = kern0[cb, cc1] - fm*Tba[l, c1, b]
+                if cc1 != -1:
+                    kern0[cb, cc1] = kern0[cb, cc1] - fm*Tba[l, c1, b]
             # ---------------------------------------------------------------------------
             # Phi[1] terms
             # 2nd and 7th terms
diff --git a/qmeq/approach/base/neumann2.py b/qmeq/approach/base/neumann2.py
index 4e69f90..ecfcdf9 100644
--- a/qmeq/approach/base/neumann2.py
+++ b/qmeq/approach/base/neumann2.py
@@ -289,6 +289,8 @@ class Approach2vN(ApproachBase2vN):
             for b, bp in itertools.combinations_with_replacement(statesdm[charge], 2):
                 bbp = si.get_ind_dm0(b, bp, charge)
                 bpb = si.get_ind_dm0(bp, b, charge)
+                if bbp == -1 or bpb == -1:
+                    continue
                 shuffle[bbp, bpb] = 1
                 shuffle[bpb, bbp] = 1
         phi1_phi0_conj = np.dot(np.conjugate(phi1_phi0), shuffle)
@@ -300,6 +302,8 @@ class Approach2vN(ApproachBase2vN):
             ccharge = charge+1
             for b, bp in itertools.product(statesdm[bcharge], statesdm[bcharge]):
                 bbp = si.get_ind_dm0(b, bp, bcharge)
+                if bbp == -1:
+                    continue
                 kern[bbp, bbp] = E[b]-E[bp]
 
                 for a1 in statesdm[acharge]:
@@ -482,10 +486,12 @@ class TermsCalculator2vN(object):
                 # Phi[0] terms
                 for b1 in statesdm[bcharge]:
                     b1b = si.get_ind_dm0(b1, b, bcharge)
-                    kern0[cb, b1b] += +Tba[l, c, b1]*fp
+                    if b1b != -1:
+                        kern0[cb, b1b] += +Tba[l, c, b1]*fp
                 for c1 in statesdm[ccharge]:
                     cc1 = si.get_ind_dm0(c, c1, ccharge)
-                    kern0[cb, cc1] += -Tba[l, c1, b]*fm
+                    if cc1 != -1:
+                        kern0[cb, cc1] += -Tba[l, c1, b]*fm
                 # ---------------------------------------------------------------------------
                 # Phi[1] terms
                 # 2nd and 7th terms
-- 
2.43.0


From 5380389ef7616c2f2be53c7198850e5e2f882211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:47 +0000
Subject: [PATCH 39/42] fix: kerntype is not changed to an approach which does
 not support the indexing

---
 qmeq/builder/builder_base.py | 6 +++++-
 qmeq/builder/validation.py   | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 7ad929f..76ffba7 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -26,6 +26,7 @@ from .validation import validate_kerntype
 from .validation import validate_itype
 from .validation import validate_mfreeq
 from .validation import validate_indexing
+from .validation import validate_kerntype_indexing
 
 # -----------------------------------------------------------
 # Python modules
@@ -188,7 +189,10 @@ class BuilderBase(object):
     def set_kerntype(self, value):
         if isinstance(value, str):
             value = self._validate_kerntype(value)
-            if self.appr.kerntype != value:
+            if not validate_kerntype_indexing(value, self.si.indexing):
+                print('WARNING: Cannot change kerntype to \''+value+'\' for indexing=\''+self.si.indexing
+                      + '\'. Consider constructing a new system using kerntype=\''+value+'\'')
+            elif self.appr.kerntype != value:
                 self.funcp.mfreeq = validate_mfreeq(value, self.funcp.mfreeq)
                 approach_string = value[0].capitalize() + value[1:]
                 self.Approach = self.globals['Approach'+approach_string]
diff --git a/qmeq/builder/validation.py b/qmeq/builder/validation.py
index 5c5c8a5..b9081f9 100644
--- a/qmeq/builder/validation.py
+++ b/qmeq/builder/validation.py
@@ -73,3 +73,12 @@ def validate_indexing(indexing, symmetry, kerntype):
         indexing = 'charge'
 
     return indexing, symmetry
+
+
+def validate_kerntype_indexing(kerntype, indexing):
+    """Tells if the approach given by kerntype can be used with the indexing."""
+    if kerntype in {'py2vN', '2vN'}:
+        return indexing in {'Lin', 'charge'}
+    if kerntype in {'pyRTD', 'RTD'}:
+        return indexing == 'charge'
+    return True
-- 
2.43.0


From 9afa15b1822610ef33d04df98fbd08dc6b8ee491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 40/42] fix: RTD energy current uses the energies of the states
 which are kept

---
 qmeq/approach/base/RTD.py    | 7 ++++++-
 qmeq/approach/base/c_RTD.pyx | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 4ba4fe6..48ae7fb 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -219,7 +219,12 @@ class ApproachPyRTD(Approach):
         """
         kh = self.kernel_handler
         nleads = self.si.nleads
-        LE = 2 * self.qd.Ea
+        LE = []
+        for charge in range(self.si.ncharge):
+            for a in self.si.statesdm[charge]:
+                if self.si.get_ind_dm0(a, a, charge, 2):
+                    LE.append(2 * self.qd.Ea[a])
+        LE = np.array(LE)
 
         current = np.zeros(nleads, dtype=doublenp)
         energy_current = np.zeros(nleads, dtype=doublenp)
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 690d5c6..ff1f750 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -266,7 +266,7 @@ cdef class ApproachRTD(Approach):
         LE = np.zeros(kh.npauli, dtype=doublenp)
 
         for i in range(kh.npauli):
-            LE[i] = 2.0 * Ea[i]
+            LE[i] = 2.0 * Ea[kh.all_bbp[i, 0]]
 
         for l in range(nleads):
             current[l] = 0.5 * np.dot(self.LN, np.dot(kh.Wdd.base[l, :, :], self.phi0))
-- 
2.43.0


From dc509850e4e3a2128e2e131d36a9d72807481a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:22 +0000
Subject: [PATCH 41/42] fix: RTD: Ozaki poles are generated for slightly
 different lead temperatures too

---
 qmeq/approach/base/RTD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 48ae7fb..72e212d 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -128,7 +128,7 @@ class ApproachPyRTD(Approach):
         ncharge, statesdm = si.ncharge, si.statesdm
         self.off_diag_corrections = self.funcp.off_diag_corrections
 
-        if (not np.all(np.isclose(self.leads.tlst, self.leads.tlst[0]))) or np.any(abs(self.leads.Tba.imag)>0):
+        if np.any(self.leads.tlst != self.leads.tlst[0]) or np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
 
         for bcharge in range(ncharge):
-- 
2.43.0


From dd3304acd9eae886fae9e56184d8cafed48b75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:15 +0000
Subject: [PATCH 42/42] fix: get_phi0 and get_phi1 return zero for states which
 are not used

---
 qmeq/builder/various.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 94252b3..5de821b 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -104,6 +104,9 @@ def get_phi0(self, b_, bp_):
     bcharge = self.si.ind_qn[b][0]
     bpcharge = self.si.ind_qn[bp][0]
     phi0bbp = 0.0
+    # States which are not used have no density matrix elements
+    if b not in self.si.statesdm[bcharge] or bp not in self.si.statesdm[bpcharge]:
+        return phi0bbp
     if self.kerntype in ('Pauli', 'pyPauli'):
         if b == bp:
             ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
@@ -149,6 +152,9 @@ def get_phi1(self, l, c_, b_):
         ccharge = self.si.ind_qn[c][0]
         bcharge = self.si.ind_qn[b][0]
         phi1cb = 0.0
+        # States which are not used have no density matrix elements
+        if c not in self.si.statesdm[ccharge] or b not in self.si.statesdm[bcharge]:
+            return phi1cb
         if ccharge == bcharge+1:
             ind = self.si.get_ind_dm1(c, b, bcharge)
             phi1cb = self.phi1[l, ind]
-- 
2.43.0

