From 0ec7753acce89270b9b0a3cb8441142fb08a7f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 01/69] fix: diagonalise hermitian environments with eigh
 (orthonormal eigenvectors, descending order)

---
 xmps/tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 2212f12..96afcf5 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -3,7 +3,7 @@ import unittest
 from numpy.random import randn
 from scipy.sparse.linalg import eigs as arnoldi
 from scipy.linalg import qr, expm, norm, svd
-from numpy.linalg import eig as neig, eigvals, inv
+from numpy.linalg import eig as neig, eigvals, inv, eigh
 from numpy import swapaxes, count_nonzero, diag, insert, pad, dot, argmax, sqrt
 from numpy import allclose, array, tensordot, transpose, all, identity, squeeze
 from numpy import isclose, mean, sign, kron, zeros, conj, max, concatenate, eye
@@ -238,8 +238,8 @@ def tr_svd(A, D):
 def diagonalise(M):
     """diagonalise: wrap eig better
        :param M: matrix to diagonalise """
-    S, V = neig(M)
-    return (V, diag(S))
+    S, V = eigh(M)
+    return (V[:, ::-1], diag(S[::-1]))
 
 def rotate_to_hermitian(r, testing=False, ret_phase=False):
     """rotate_to_hermitian: arnoldi returns matrices that are hermitian up
-- 
2.43.0


From fb2199227a370f7afda2f1b70c9fbb9ae0c2f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 02/69] fix: single site expectation values use the operator,
 not its transpose

---
 xmps/fMPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 084d638..be260f6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -922,7 +922,7 @@ class fMPS(object):
         if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc != site):
             self.mixed_orthogonalise(site)
         M = self[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]], [3, 4, 1, 2]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]], [3, 4, 1, 2]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def E_(self, op, site):
@@ -932,7 +932,7 @@ class fMPS(object):
         :param site: site
         """
         M = self.mixed_canonicalise(site, sweep_back=True)[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def Es(self, ops, site):
@@ -2175,12 +2175,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op))) if lr == 0 else kron(eye(len(op)), op)
         M = self.mixed_canonicalise(site)[site]
-        return np.real(trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0)))
+        return np.real(trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0)))
 
     def Es(self, ops, site, lr=0):
         ops = [kron(op, eye(len(op))) for op in ops] if lr == 0 else [kron(eye(len(op)), op) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return np.array([trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return np.array([trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops])
 
 class vfMPS(object):
-- 
2.43.0


From 4b9746c8c56db04d4d9254034714840d1bde2d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 03/69] fix: mixed_canonicalise records the orthogonality
 center it was asked for

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index be260f6..4c74348 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -621,7 +621,6 @@ class fMPS(object):
         :param testing: test canonicalness
         """
         self.ok = True
-        self.oc = oc
         self.right_canonicalise(D, minD=False, sweep_back=sweep_back)
 
         def split(M):
@@ -643,6 +642,7 @@ class fMPS(object):
             self.ok = self.ok and is_left_canonical(self.data[:oc])\
                               and is_right_canonical(self.data[oc+1:])
 
+        self.oc = oc
         self.canonical = True
         self.orthogonal = True
         return self
-- 
2.43.0


From a1f2d4ba160a20f52792e7297c045a10175747e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 04/69] fix: forget the recorded orthogonality center when the
 tensors change

---
 xmps/fMPS.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 4c74348..c896ce2 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -188,6 +188,8 @@ class fMPS(object):
         """__setitem__
         """
         self.data[key] = value
+        self.canonical = self.orthogonal = False
+        self.oc = None
 
     def __eq__(self, other):
         """__eq__
@@ -660,9 +662,9 @@ class fMPS(object):
                 self.data[m-1] = self.data[m-1]@R
             else:
                 self.norm_ = R
-        if fr == 0 and to == self.L:
-            self.orthogonal = True
-            self.oc = 0
+        self.canonical = False
+        self.orthogonal = fr == 0 and to == self.L
+        self.oc = 0 if self.orthogonal else None
         return self
 
     def left_orthogonalise(self, fr=0, to=None):
@@ -678,9 +680,9 @@ class fMPS(object):
                 self.data[m+1] = R@self.data[m+1]
             else:
                 self.norm_ = R
-        if fr == 0 and to == self.L:
-            self.orthogonal = True
-            self.oc = self.L
+        self.canonical = False
+        self.orthogonal = fr == 0 and to == self.L
+        self.oc = self.L if self.orthogonal else None
         return self
 
     def mixed_orthogonalise(self, oc, current_oc=None):
@@ -860,6 +862,9 @@ class fMPS(object):
         else:
             self.data[site+1] = self.data[site][which, :, :]@self.data[site+1]
         del self.data[site]
+        self.L = len(self.data)
+        self.canonical = self.orthogonal = False
+        self.oc = None
         return self
 
     def apply_two_site(self, opsites, which='l', D=None, truncate_swaps=False):
@@ -1155,6 +1160,8 @@ class fMPS(object):
             A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
 
         self.D = max([max(shape) for shape in self.structure()])
+        self.canonical = self.orthogonal = False
+        self.oc = None
 
         return self
 
-- 
2.43.0


From 9355b5f4e749ae2cc67e08a5a0516f5dcd83bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 05/69] fix: apply_two_site with a one site operator and two
 sites

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index c896ce2..51c82e7 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -882,7 +882,7 @@ class fMPS(object):
                 self = self.apply((op, sites[0]))
                 return self
             else:
-                self = self.apply((op, [i, j][{'l':0, 'r':1}[which]]))
+                self = self.apply((op, sites[{'l':0, 'r':1}[which]]))
                 return self
         else:
             i, j = sites
-- 
2.43.0


From 4231aefa8ea7127d4d5210dcdeb6858f847af56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 06/69] fix: fMPS(data, d, D) truncates to bond dimension D
 instead of raising

---
 xmps/fMPS.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 51c82e7..05e8337 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -162,13 +162,12 @@ class fMPS(object):
                 self.d = d
             else:
                 self.d = data[0].shape[0]
-            if D is not None:
-                self.right_canonicalise(D)
-            else:
-                self.D = max([max(x.shape[1:]) for x in data])
+            self.D = max([max(x.shape[1:]) for x in data])
             self.data = data
             self.canonical = False
             self.orthogonal = False
+            if D is not None:
+                self.right_canonicalise(D)
 
     def __call__(self, k):
         """__call__: 1-based indexing
-- 
2.43.0


From 2b788ed4063bcd7db5d0248cf77fa8fc3d2396c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 07/69] fix: random product states carry the canonical flags
 expectation values need

---
 xmps/fMPS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 05e8337..c26856a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -424,6 +424,8 @@ class fMPS(object):
             self.data = []
             for _, th, f in V:
                 self.data.append(ed(ed(array([cos(th/2), exp(1j*f*(1-int(real)))*sin(th/2)]), -1), -1))
+            self.canonical = False
+            self.orthogonal = False
             return self
 
         MPS = [randn(*((d,) + shape)) + (1-int(real))*1j*randn(*((d,) + shape))
-- 
2.43.0


From 2a4f6a17709c03687c69e8cf5d612e91889b6a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 08/69] fix: rho_proj traces out |self><other| without
 conjugating self

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index c26856a..5ff8b99 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -997,7 +997,7 @@ class fMPS(object):
         '''
         if self.bond_dimension == 1 and single_string:
             not_sites = [site for site in range(self.L) if site not in sites]
-            partial_overlap = [np.squeeze(self[i]).conj().T@np.squeeze(other[i].conj()) for i in not_sites]
+            partial_overlap = [np.squeeze(self[i])@np.squeeze(other[i].conj()) for i in not_sites]
             return np.prod(partial_overlap)*reduce(np.kron, [ncon([np.squeeze(self[i])]+[np.squeeze(other[i].conj()).T], [[-1], [-2]]) for i in sites])
 
 
-- 
2.43.0


From aa871fe15273792af7c3aa7611ad7e0765ed8d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 09/69] fix: energy uses the full environments of states not in
 canonical form

---
 xmps/fMPS.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 5ff8b99..053044f 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1007,7 +1007,13 @@ class fMPS(object):
         :param H: hamiltonian
         """
         if not fullH:
-            l, r = self.get_envs()
+            # get_envs drops the off diagonals: only right in canonical form
+            ls, rs = [array([[1]])], [array([[1]])]
+            for A, B in zip(self.data, self.data[::-1]):
+                ls.append(sum(cT(A)@ls[-1]@A, axis=0))
+                rs.append(sum(B@rs[-1]@cT(B), axis=0))
+            def l(n): return ls[n+1]
+            def r(n): return rs[::-1][n+1]
             e = []
             for m, h in enumerate(H):
                 h = h.reshape(*[self.d]*4)
-- 
2.43.0


From 931388a1096976cadc351782f536c477216b2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 10/69] fix: iMPS.canonicalise compares hand by value

---
 xmps/iMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 5d87640..0c7ec2b 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -374,11 +374,11 @@ class iMPS(object):
 
         self.L = L_  # store singular value
 
-        if hand is 'r':
+        if hand == 'r':
             self.data[0] = G_ @ L_
-        elif hand is 'l':
+        elif hand == 'l':
             self.data[0] = L_ @ G_
-        elif hand is 'm':
+        elif hand == 'm':
             sqrtL_ = diag(sqrt(L))
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
-- 
2.43.0


From 309da591e8ba188988b136f31a7e5221daffb659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 11/69] fix: iMPS.canonicalise('m') keeps the state normalised

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 0c7ec2b..8dd42f3 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -379,7 +379,7 @@ class iMPS(object):
         elif hand == 'l':
             self.data[0] = L_ @ G_
         elif hand == 'm':
-            sqrtL_ = diag(sqrt(L))
+            sqrtL_ = sqrt(L_)
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
         if to_vidal:
-- 
2.43.0


From d9c2c4d1926d847d6f0d12105d1400829ae3b988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 12/69] fix: iMPS expectation values use the operator, not its
 transpose

---
 xmps/iMPS.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 8dd42f3..bf528ea 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -420,15 +420,15 @@ class iMPS(object):
         if c == 'm':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0])))
+            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0])))
         if c == 'r':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0])))
+            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0])))
         if c == 'l':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0])))
+            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0])))
 
         if c is None:
             G, L = self.canonicalise(to_vidal=True).data[0]
@@ -453,19 +453,19 @@ class iMPS(object):
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0]))))
+                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0]))))
             return ret
         if c == 'r':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0]))))
             return ret
         if c == 'l':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0]))))
             return ret
 
         if c is None:
@@ -813,4 +813,4 @@ class ivMPS(object):
         # |    circle   |,      op
         # |      |1     |       |1
         #  - L - G - L -
-        return real_if_close(tensordot(circle, op, [[0, 1], [0, 1]]))
+        return real_if_close(tensordot(circle, op, [[0, 1], [1, 0]]))
-- 
2.43.0


From 8188a5b474d5eca7545a8271ff55b1c35a1b86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 13/69] fix: iMPS.Lh sums the transfer matrix the right way up
 for complex states

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index bf528ea..5f7ab0e 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -565,7 +565,7 @@ class iMPS(object):
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
             def LHS(K):
-                return K-sum(cT(A)@K@A, axis=0) + l*tr(K@r)
+                return K-sum(T(A)@K@c(A), axis=0) + l*tr(K@r)
 
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
-- 
2.43.0


From efee6a2d67a4090989f42d21822425741ab4ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 14/69] fix: iMPS.Rh contracts the right environment once

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 5f7ab0e..a9190de 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -595,7 +595,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([A.conj(), A.conj()@r]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
+            K = ncon([A.conj(), A.conj()]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
             K -= r*tr(l@K)
             return K
 
-- 
2.43.0


From a4067cfb9411d896ec422bf7c7e05a284a6a3b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 15/69] fix: iMPS.get_envs and iMPS.right_null_projector
 signatures

---
 xmps/iMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index a9190de..15d2146 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -401,7 +401,7 @@ class iMPS(object):
         """eigs: dominant eigenvectors and values of the transfer matrix."""
         return self.transfer_matrix().eigs(l0, r0)
 
-    def get_envs():
+    def get_envs(self):
         _, self.l, self.r = self.eigs()
         return self.l, self.r
 
@@ -646,7 +646,7 @@ class iMPS(object):
             return pr, vL
         return pr
 
-    def right_null_projector(self, get_vL=False):
+    def right_null_projector(self, get_vR=False):
         _, _, r = self.eigs()
         R_ = sw(c(self[0])@r, 0, 1)
         R = R_.reshape(-1, self.d*R_.shape[-1])
-- 
2.43.0


From 30f8e765ee606901e7ba5672b49b4149826c2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 16/69] fix: third Runge-Kutta slope in iTDVP is not scaled by
 dt twice

---
 xmps/iTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index faf1957..53bff60 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -69,7 +69,7 @@ class Trajectory(object):
             self.Ds.append(mps.D)
         k1 = mps.dA_dt(H)
         k2 = (mps+k1/2*dt).dA_dt(H)
-        k3 = (mps+k2/2*dt).dA_dt(H)*dt
+        k3 = (mps+k2/2*dt).dA_dt(H)
         k4 = (mps+k3*dt).dA_dt(H)
 
         return (mps+(k1+2*k2+2*k3+k4)*dt/6).left_canonicalise()
-- 
2.43.0


From 7b07af96813e1f412a63cf1686d99af95e7427fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 17/69] fix: import solve_ivp for odeint

---
 xmps/fTDVP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c804f38..272ecfb 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -33,6 +33,7 @@ import numpy as np
 
 from scipy.linalg import sqrtm, expm, norm, null_space as null, cholesky as ch
 from scipy.sparse.linalg import expm_multiply, expm
+from scipy.integrate import solve_ivp
 
 from matplotlib import pyplot as plt
 from functools import reduce
-- 
2.43.0


From ea6fff305981c1d6b9029c674febc7abd6f94bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 18/69] fix: swap_antisymmetrise projects on the antisymmetric
 part

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 2629c62..b2d4472 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -66,13 +66,13 @@ def partial_trace(rho, keep, dims, optimize=False):
     return rho_a.reshape(Nkeep, Nkeep)
 
 def is_swap_symmetric(U):
-    return allclose(U-swap_antisymmetrise(U), 0)
+    return allclose(swap_antisymmetrise(U), 0)
 
 def swap_symmetrise(U):
     return (U+swap()@U@swap())/2
 
 def swap_antisymmetrise(U):
-    return (U+swap()@U@swap())/2
+    return (U-swap()@U@swap())/2
 
 def swap():
     return array([[1, 0, 0, 0],
-- 
2.43.0


From 4cbf451d1b58694a087167872fa4f8212c24c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 19/69] fix: U1 and U2 call locals()

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index b2d4472..5efe3e3 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -509,12 +509,12 @@ def locals():
 def U1(v):
     """U1 local unitary
     """
-    return expm(-1j*tensordot(v, locals[:3], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[:3], [0, 0]))
 
 def U2(v):
     """U2 local unitary
     """
-    return expm(-1j*tensordot(v, locals[3:], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[3:], [0, 0]))
 
 def U4(v):
     """U4 two site unitary
-- 
2.43.0


From c3d15c1e8fa146eff7ce07ac042ef3a1bd0c12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 20/69] fix: ferro spinor satisfies the su(2) relations

---
 xmps/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 5efe3e3..c1f68b3 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -496,7 +496,7 @@ def ferro():
     zp2, zm2 = (0.5*eye(4)+Sz2), (0.5*eye(4)-Sz2)
     m_x = (sp1@sp2 + sm1@sm2)
     m_y = 1j*(sp1@sp2-sm1@sm2)
-    m_z = (Sz1+Sz2)/2
+    m_z = (Sz1+Sz2)
     return array([m_x, m_y, m_z])
 
 def locals():
-- 
2.43.0


From 906420a8cb128faf251ca5b11f1133cb9b88d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 21/69] fix: direct_sum of rectangular matrices

---
 xmps/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 96afcf5..18c62de 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -77,8 +77,7 @@ def eye_like(A):
 
 def direct_sum(A, B):
     (a1, a2), (b1, b2) = A.shape, B.shape
-    O = zeros((a2, b1))
-    return block([[A, O], [O.T, B]])
+    return block([[A, zeros((a1, b2))], [zeros((b1, a2)), B]])
     
 def haar_unitary(n):
     return qr(randn(n, n)+1j*randn(n, n))[0]
-- 
2.43.0


From be32d1678ad4edbd7480a5958b1cd5ca780891b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 22/69] fix: Hamiltonian copies the caller's strings and knows
 its local dimension

---
 xmps/Hamiltonians.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 28a145f..052a22a 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -18,7 +18,8 @@ class Hamiltonian(object):
 
     def __init__(self, strings=None, matrices=None, d=2):
         if strings is not None:
-            self.strings = strings
+            self.d = d # local hilbert space dimension
+            self.strings = dict(strings)
             for key, val in {key:val for key, val in self.strings.items()}.items():
                 if len(key)==1:
                     self.strings['I'+key] = val
-- 
2.43.0


From efb8af3cca6b6f7580718c511ac24ea88488d367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 23/69] fix: two site to_matrices keeps the full single site
 terms

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 052a22a..8f9243f 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -116,7 +116,7 @@ class Hamiltonian(object):
         H_L = Hamiltonian(h_L_strings)._squeeze()
         H_i = Hamiltonian(h_i_strings)._squeeze()
         if L==2:
-            return [H_i.to_matrix()]
+            return [Hamiltonian(self.strings).to_matrix()]
         elif L==3:
             return [H_0.to_matrix()] + [H_L.to_matrix()]
         else:
-- 
2.43.0


From 818aaf387407e5170d5f4676ffbb44e50ca4ca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 24/69] fix: from_matrix traces against the Pauli matrices

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 8f9243f..c7c6c38 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -125,7 +125,7 @@ class Hamiltonian(object):
     def from_matrix(self, mat):
         xyz = list(S.keys())
         strings = list(product(xyz, xyz))
-        self.strings = {a+b:trace(kron(a, b)@mat) for a, b in strings}
+        self.strings = {a+b:trace(kron(S[a], S[b])@mat)/4 for a, b in strings}
         del self.strings['II']
         return self
 
-- 
2.43.0


From 8bbc92dc327b2d9f5b657c4210c632aedb1d2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 25/69] fix: round the logarithm in Hamiltonian.k

---
 xmps/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index c7c6c38..1311654 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -42,8 +42,8 @@ class Hamiltonian(object):
         if self.has_matrices:
             dk = self.matrices[0].shape[0]
             k = math.log(dk, self.d)
-            assert np.allclose(k, int(k))
-            return int(k)
+            assert np.allclose(k, round(k))
+            return round(k)
     @property
     def L(self):
         if not self.has_matrices:
-- 
2.43.0


From fb868b73c42baa91147f9fbf97bd3e7807c80427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 26/69] fix: iMPS.Lh solves for K and its source in the same
 index order

---
 xmps/iMPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 15d2146..a06b12c 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -549,8 +549,8 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
-            K -= l*tr(K@r)
+            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
+            K -= T(l)*tr(K@r)/tr(T(l)@r)
             return K
 
         def O(K, RHS):
@@ -565,7 +565,7 @@ class iMPS(object):
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
             def LHS(K):
-                return K-sum(T(A)@K@c(A), axis=0) + l*tr(K@r)
+                return K-sum(cT(A)@K@A, axis=0) + T(l)*tr(K@r)
 
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
@@ -580,7 +580,7 @@ class iMPS(object):
             def O_(K):
                 return O(K, RHS())
             return O_, l, r, K
-        return K
+        return T(K)
 
     def Rh(self, H, method='hybr', testing=False):
         """Rh
-- 
2.43.0


From 02df6235befed5feeb9a3b38883e3c61968c17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 27/69] fix: random product states of local dimension other
 than 2

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 053044f..6cb9b42 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -409,7 +409,7 @@ class fMPS(object):
         """
         self.L = L
         self.d = d
-        if D == 1:
+        if D == 1 and d == 2:
             self.D = 1
             # random product states
             V = randn(L, 3)
-- 
2.43.0


From 83d7638d6550d0d04b74bd9da5f12ae13f81b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 28/69] fix: fTFD.local_overlap compares against the class fMPS

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 6cb9b42..0d3c3f2 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2124,7 +2124,7 @@ class fTFD(fMPS):
         partition should be contiguous
         should be local overlap with fMPS (NOT fTFD)
         """
-        if not isinstance(other, 'fMPS'):
+        if not isinstance(other, fMPS):
             raise NotImplementedError('other should be an fMPS, set double to get the overlap with the embedded fTFD')
         if not other.bond_dimension == 1:
             raise NotImplementedError('Only implemented local overlaps for <ψψ|data>')
-- 
2.43.0


From f895ff5295b7a75941a2a804e77a6a6dc34506d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 29/69] fix: fPEPS of rectangular lattices: Lx counts columns,
 Ly rows

---
 xmps/fPEPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index c629764..7ce3834 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -256,8 +256,8 @@ class fPEPS(object):
 
     def __init__(self, data=None, d=None, X=None):
         if data is not None:
-            self.Lx = len(data)
-            self.Ly = len(data[0])
+            self.Lx = len(data[0])
+            self.Ly = len(data)
             if d is not None:
                 self.d = d
             else:
@@ -421,7 +421,7 @@ class fPEPS(object):
 
     def truncate_below(self, row, D):
         '''truncate bonds below row to size D'''
-        if row == self.Lx-1:
+        if row == self.Ly-1:
             raise Exception('nothing below row L-1')
         self.data[row] = [x[:, :, :, :D, :] for x in self.data[row]]
         self.data[row+1] = [x[:, :D, :, :, :] for x in self.data[row+1]]
@@ -430,7 +430,7 @@ class fPEPS(object):
     def truncate_left(self, col, D):
         if col == 0:
             raise Exception('nothing to the left of col 0')
-        for row in range(self.Lx):
+        for row in range(self.Ly):
             self.data[row][col] = self.data[row][col][:, :, :, :, :D]
             self.data[row][col-1] = self.data[row][col-1][:, :, :D, :, :]
         return self
-- 
2.43.0


From 2da1b7be38524ffc92c34d7ec4109c163d5e7a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 30/69] fix: TDVP vector field of states out of canonical form
 (intermediate Runge-Kutta states)

---
 xmps/fMPS.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 0d3c3f2..13ac1ea 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -793,16 +793,21 @@ class fMPS(object):
     def get_envs(self, store_envs=False):
         """get_envs: return all envs (slow). indexing is a bit weird: l(-1) is |=
            returns: fns tuple of functions l, r"""
+        def clean(env):
+            # in canonical form the envs are diagonal up to rounding errors
+            D = diag(diag(re(env)))
+            return D if norm(env-D) <= 1e-12*norm(env) else env
+
         def get_l(mps):
             ls = [array([[1]])]
             for n in range(len(mps)):
-                ls.append(diag(diag(sum(re(cT(mps[n]) @ ls[-1] @ mps[n]), axis=0))))
+                ls.append(clean(sum(cT(mps[n]) @ ls[-1] @ mps[n], axis=0)))
             return lambda n: ls[n+1]
 
         def get_r(mps):
             rs = [array([[1]])]
             for n in range(len(mps))[::-1]:
-                rs.append(diag(diag(sum(re(mps[n] @ rs[-1] @ cT(mps[n])), axis=0))))
+                rs.append(clean(sum(mps[n] @ rs[-1] @ cT(mps[n]), axis=0)))
             return lambda n: rs[::-1][n+1]
 
         if store_envs:
@@ -1217,15 +1222,15 @@ class fMPS(object):
 
                     Am, Am_1 = self.data[m:m+2]
                     C = ncon([h]+[Am, Am_1], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-                    K = ncon([l(m-1)@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+                    K = ncon([c(l(m-1))@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
                     e.append(trace(K@r(m+1)))
                     #C -= trace(K@r(m+1))
                     #K -= trace(K@r(m+1))
 
                     if m==i:
-                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), inv(r(m))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), c(inv(r(m)))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
                     if m==i-1:
-                        B += -1j *ncon([l(m-1)@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+                        B += -1j *ncon([c(l(m-1))@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
                     if m < i-1:
                         B += -1j *ncon([K, Rs(m+2)], [[1, 2], [1, 2, -1, -2, -3]])
                 self.e = e
@@ -1923,7 +1928,7 @@ class fMPS(object):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        pr = ncon([cT(inv(ch(l(n-1))))@vL, tra(inv(ch(l(n-1))))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
-- 
2.43.0


From eef51b3ac1d126965c1e1b9cc8867055a6e267c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 31/69] fix: ncon leaves the caller's contraction order list as
 it is

---
 xmps/ncon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmps/ncon.py b/xmps/ncon.py
index 3508f1c..60b65bb 100644
--- a/xmps/ncon.py
+++ b/xmps/ncon.py
@@ -38,8 +38,11 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
     else:
         v = list(map(list, v))
 
-    if order == None:
+    if order is None:
         order = create_order(v)
+    else:
+        # connect_graph appends to it: leave the caller's list as it is
+        order = list(order)
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From 22de42ee393bed69174b058c67d5ebb2582a202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 32/69] fix: fMPO.recombine of a single site (PEPS of one
 column)

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 7ce3834..66d6a90 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -243,8 +243,8 @@ class fMPO(object):
         return self
 
     def recombine(self):
-        ncon_indices = [[-1, 1, -self.L-1, self.L+1]]+[[-n-2, n+2, -self.L-2-n, n+1]
-                                                       for n in range(self.L-2)] + [[-self.L, self.L+1, -2*self.L, self.L-1]]
+        # a ring: the right bond of the last site is the left bond of the first (also for a single site)
+        ncon_indices = [[-n-1, n+1, -self.L-n-1, n if n > 0 else self.L] for n in range(self.L)]
         M = ncon(self.data, ncon_indices)
         M = M.reshape(np.prod(M.shape[:self.L]), np.prod(M.shape[self.L:]))
         return M.conj().T
-- 
2.43.0


From bbe8f3631ff03a69c34537e0bb48b5f995cafa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 33/69] fix: fPEPS.recombine in snake order with vertical bonds
 larger than one

---
 xmps/fPEPS.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 66d6a90..b32bba6 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -654,8 +654,12 @@ class fPEPS(object):
                 if i % 2 == 0:
                     cols.append(reduce(row_contract, row))
                 else:
-                    cols.append(
-                        reduce(row_contract, [x.transpose([0, 1, 4, 3, 2]) for x in row[::-1]]))
+                    # the order of the vertical bonds has to stay that of the rows above and below:
+                    # only the physical indices are reversed
+                    r = reduce(row_contract, row)
+                    ds, n = [x.shape[0] for x in row], len(row)
+                    cols.append(r.reshape(ds+list(r.shape[1:])).transpose(
+                        list(range(n))[::-1]+list(range(n, n+4))).reshape(r.shape))
             res = reduce(col_contract, cols)
             return np.squeeze(res)
 
-- 
2.43.0


From a423c6eede22eaab2550b6850e41ebbdca387a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 34/69] fix: fMPO.trivial sets the length

---
 xmps/fPEPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index b32bba6..65099ca 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -231,6 +231,7 @@ class fMPO(object):
     def trivial(self, L):
         self.data = [np.ones(shape)
                      for shape in self.create_structure(L, 1, 1)]
+        self.L = L
         self.d = 1
         self.X = 1
         return self
-- 
2.43.0


From 9371f6ef3bc35a8656be150eb354c855536abb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 35/69] fix: mixed_orthogonalise towards the first site records
 the norm it divides out

---
 xmps/fMPS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 13ac1ea..430d06f 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -693,6 +693,9 @@ class fMPS(object):
         '''
         if current_oc is None:
             self.right_orthogonalise(fr=oc)
+            if oc == 0:
+                # put the norm back: it is divided out (and recorded) below
+                self.data[0] = self.norm_@self.data[0]
             self.left_orthogonalise(to=oc)
         else:
             raise NotImplementedError
-- 
2.43.0


From 91449f7d3ef16e10f4f3cfe97cd8314b0ff09576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 36/69] fix: odeint integrates one smooth field and keeps a
 readable history

min_step equal to max_step made LSODA give up silently unless the spacing was tiny, the fourth call evaluated the field in
another gauge, and the stored history could not be read by mps_list and mps_evs
---
 xmps/fTDVP.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 272ecfb..c425f6b 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -195,7 +195,6 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
         bar = tqdm()
-        m = 0
 
         def f(t, v):
             """f_odeint: f acting on real vector
@@ -204,25 +203,18 @@ class Trajectory(object):
             :param t: Time
             """
             bar.update()
-            nonlocal m
-            m += 1
-            if m == 4:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .left_canonicalise()\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
-            else:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
+            return fMPS().deserialize(v, L, d, D, real=True)\
+                .dA_dt(H, fullH=self.fullH)\
+                .serialize(real=True)
 
         v = mps.serialize(real=True)
         Q = solve_ivp(f, (T[0], T[-1]), v, method='LSODA', t_eval=T,
-                      max_step=T[1]-T[0], min_step=T[1]-T[0])
+                      max_step=T[1]-T[0])
         traj = Q.y.T
         bar.close()
 
-        self.mps_history = traj
+        self.mps_history = list(traj)
+        self.Ds = [D]*(len(traj)+1)
         self.mps = fMPS().deserialize(traj[-1], L, d, D, real=True)
         return self
 
-- 
2.43.0


From 8745df4fa97694f733f12c90d9ea1e18f565c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 37/69] fix: mps_list and mps_evs return every exactly evolved
 state

---
 xmps/fTDVP.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c425f6b..969abea 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -479,20 +479,24 @@ class Trajectory(object):
 
     def mps_list(self):
         if hasattr(self, 'ed_history') and not self.mps_history:
+            self.Ds = []
             for x in tqdm(self.ed_history):
                 mps = fMPS().left_from_state(
                     x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
                 self.mps_history.append(mps.serialize(real=True))
+                self.Ds.append(mps.D)
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
 
     def mps_evs(self, ops, site):
         if hasattr(self, 'ed_history') and not self.mps_history:
+            self.Ds = []
             for x in self.ed_history:
                 mps = fMPS().left_from_state(
                     x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
                 self.mps_history.append(mps.serialize(real=True))
+                self.Ds.append(mps.D)
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return array([mps.Es(ops, site)
-- 
2.43.0


From 68b2f8b9dbf131cc0649f31bd9c014fa65e48f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 38/69] fix: Lh solves its linear system exactly

the Krylov root finder started from a random guess and raised now and then (Jacobian inversion yielded zero vector)
---
 xmps/iMPS.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index a06b12c..cfe0c79 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -536,7 +536,7 @@ class iMPS(object):
         self.d, self.D, self.period = map(lambda x: int(re(x)), params)
         return self.deserialize(arr, self.d, self.D, self.period)
 
-    def Lh(self, H, method='krylov', tol=1e-10, testing=False):
+    def Lh(self, H, testing=False):
         """Lh
         /--|   |--|          |-- 
         l  | h |  |(I-E)^{-1}|  
@@ -571,11 +571,10 @@ class iMPS(object):
             O_n = concatenate([real(O_n), imag(O_n)])
             return O_n
 
-        K0 = (randn(D, D)+1j*randn(D, D)).reshape(D**2)
-        K0 = concatenate([real(K0), imag(K0)])
-
-        K = root(O, K0, args=(RHS(),), method=method, tol=tol).x
-        K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
+        # O is affine in K: solve the linear system it describes
+        E = tensordot(c(A), A, [0, 0]).transpose([1, 3, 0, 2]).reshape(D**2, D**2)
+        M = eye(D**2) - E + np.outer(T(l), T(r))
+        K = np.linalg.solve(M, RHS().reshape(-1)).reshape(D, D)
         if testing: 
             def O_(K):
                 return O(K, RHS())
-- 
2.43.0


From 4d599c04701c9ee17efd5d4868c16515050145be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 39/69] fix: exactly evolved states keep the standard bonds
 they are read back with

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 969abea..3e0a021 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -482,7 +482,7 @@ class Trajectory(object):
             self.Ds = []
             for x in tqdm(self.ed_history):
                 mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
+                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise(minD=False)
                 self.mps_history.append(mps.serialize(real=True))
                 self.Ds.append(mps.D)
         assert self.mps_history
@@ -494,7 +494,7 @@ class Trajectory(object):
             self.Ds = []
             for x in self.ed_history:
                 mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
+                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise(minD=False)
                 self.mps_history.append(mps.serialize(real=True))
                 self.Ds.append(mps.D)
         assert self.mps_history
-- 
2.43.0


From e0cbe870ada53722e0988f6f2170263b20b65da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 40/69] fix: null projector of thermofield doubles whose
 environments are not diagonal

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 430d06f..0cd2c43 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2179,7 +2179,7 @@ class fTFD(fMPS):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        pr = ncon([cT(inv(ch(l(n-1))))@vL, tra(inv(ch(l(n-1))))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
-- 
2.43.0


From 4de9187253f8d6f3289b064cec33d7a6d0780ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 41/69] fix: entropies of a trajectory failed on spectra of
 different lengths and gave nan for product states

---
 xmps/fTDVP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 3e0a021..585390c 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -556,12 +556,13 @@ class Trajectory(object):
             return lss
 
     def von_neumann(self, i=None):
-        sch = array(self.schmidts())
+        # rounding leaves zero Schmidt coefficients on either side of zero
+        sch = [[re(s)[re(s) > 0] for s in S] for S in self.schmidts()]
         S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
         return S_max
 
     def renyi(self, α=2):
-        sch = array(self.schmidts())
+        sch = [[re(s)[re(s) > 0] for s in S] for S in self.schmidts()]
         R = array([max([1/(1-α)*log(sum(s**α)) for s in S]) for S in sch])
         return R
 
-- 
2.43.0


From aea4183eac8b02224284a65e887466406beccc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 42/69] fix: clear forgets the bond dimensions and the exact
 history of earlier runs

---
 xmps/fTDVP.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 585390c..0d30aa6 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -573,6 +573,9 @@ class Trajectory(object):
     def clear(self):
         self.mps_history = []
         self.mps = self.mps_0.copy()
+        self.Ds = [self.mps.D]
+        if hasattr(self, 'ed_history'):
+            delattr(self, 'ed_history')
         if hasattr(self, 'lys'):
             delattr(self, 'lys')
 
-- 
2.43.0


From 34d2b0cb698505951ff01b4c8e4878e3b3be59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 43/69] fix: to_full of another length does not return the
 matrix of the first

---
 xmps/Hamiltonians.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 1311654..6b98983 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -130,12 +130,11 @@ class Hamiltonian(object):
         return self
 
     def to_full(self, L=None):
-        if not self.has_matrices:
-            if self.has_strings:
-                assert L is not None
-                self.matrices = self.to_matrices(L)
-            else:
-                raise Exception('No strings or matrices')
+        if self.has_strings and (L is not None or not self.has_matrices):
+            assert L is not None
+            self.matrices = self.to_matrices(L)
+        elif not self.has_matrices:
+            raise Exception('No strings or matrices')
         if self.has_matrices:
             total = np.zeros((2**self.L, 2**self.L))*1j
             for i, matrix in enumerate(self.matrices):
-- 
2.43.0


From 4224e97d27f8b76dae90087910e18c5f63cdbdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 44/69] fix: transfer matrix eigenvectors of infinite MPS with
 bond dimension 1

---
 xmps/iMPS.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index cfe0c79..9c1399e 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -14,7 +14,7 @@ from numpy import concatenate as ct, split as chop, save, load
 from numpy.linalg import cholesky, eigvals, svd, inv, norm
 from numpy.linalg import inv, cholesky as ch
 
-from scipy.sparse.linalg import LinearOperator, eigs as arnoldi
+from scipy.sparse.linalg import LinearOperator, eigs
 from scipy.linalg import svd as svd_s, cholesky as cholesky_s
 from scipy.linalg import null_space as null
 from scipy.optimize import root
@@ -33,6 +33,13 @@ from .spin import spins
 Sx, Sy, Sz = spins(0.5)
 import numpy as np
 
+def arnoldi(A, **kwargs):
+    """arnoldi: largest eigenvalue and its eigenvector (scipy wants more than one dimension)"""
+    if A.shape[0] == 1:
+        one = np.ones((1, 1))
+        return (A@one)[0], one
+    return eigs(A, **kwargs)
+
 class Map(object):
     """Map: transfer matrix with A and B"""
 
-- 
2.43.0


From 33898f4839e1e4e1540bae89751ff21e90dfebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 45/69] fix: ivMPS.canonicalise of real data with bond
 dimension 1

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 9c1399e..263df2a 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -799,7 +799,7 @@ class ivMPS(object):
         R_ = transpose(tensordot(GL, C(GL), [0, 0]), [0, 2, 1, 3])
         eta, v_r = r_eigenmatrix(R_)
 
-        G_ /= sqrt(eta/sum(L*L))  # these factors make it so G & L solve the eigenvalue problem
+        G_ = G_/sqrt(eta/sum(L*L))  # these factors make it so G & L solve the eigenvalue problem
         L_ /= sqrt(sum(L*L))      # with eta = 1.
 
         self.data = [(G_, L_)]
-- 
2.43.0


From 093756f4da9a2b69309bdf4a9927c6e6fbc89d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 46/69] fix: fPEPS.normalise wrote into tensors it shares with
 other sites or states

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 65099ca..79e6b7c 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -636,7 +636,7 @@ class fPEPS(object):
         if self.bond_dimension==1:
             self.data = [[x/norm(x) for x in row] for row in self.data]
         else:
-            self.data[0][0] /= self.norm()
+            self.data[0][0] = self.data[0][0]/self.norm()
         return self
 
     def norm(self):
-- 
2.43.0


From f7c9f3bd8706ed467d7e71acfbb9983d7ad0bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 47/69] fix: iMPS declared its earlier form after an
 expectation value had brought it to right form

---
 xmps/iMPS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 263df2a..d5fad44 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -389,10 +389,11 @@ class iMPS(object):
             sqrtL_ = sqrt(L_)
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
+        self.canonical = hand
+
         if to_vidal:
             return ivMPS([(G_, L_)])
         else:
-            self.canonical = hand
             return self
 
     def left_canonicalise(self):
-- 
2.43.0


From af64bc46108ab3283de08ad30f1a3c90b0be7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 48/69] fix: copies of finite and infinite states shared their
 tensors with the original

---
 xmps/fMPS.py | 2 +-
 xmps/iMPS.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 0cd2c43..c9c915e 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -925,7 +925,7 @@ class fMPS(object):
         return self
 
     def copy(self):
-        return fMPS(self.data.copy())
+        return fMPS([x.copy() for x in self.data])
 
     def E(self, op, site):
         """E: one site expectation value
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index d5fad44..a6b8cae 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -266,9 +266,9 @@ class iMPS(object):
         return self.data[0].shape
 
     def copy(self):
-        A = iMPS(self.data.copy())
+        A = iMPS([x.copy() for x in self.data])
         if hasattr(self, 'r') or hasattr(self, 'l'):
-            A.l, A.r = self.l, self.r
+            A.l, A.r = self.l.copy(), self.r.copy()
         return A
 
     def random(self, d, D, period=1):
-- 
2.43.0


From 04184e331830150c4f0134ca759defd28a7ab5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 49/69] fix: the copy of a trajectory shared its history with
 the original

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 0d30aa6..d2e013e 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -646,4 +646,4 @@ class Trajectory(object):
             glob.glob(os.path.join(self.run_dir, '*state*')))
 
     def copy(self):
-        return copy(self)
+        return deepcopy(self)
-- 
2.43.0


From eca48dc4cbe807af056c0825df1e30f0d0eacb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 50/69] fix: a finite state made with a bond limit wrote into
 the list of tensors it was given

---
 xmps/fMPS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index c9c915e..8dd2b92 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -167,6 +167,8 @@ class fMPS(object):
             self.canonical = False
             self.orthogonal = False
             if D is not None:
+                # canonicalising replaces the tensors: keep the given list as it is
+                self.data = list(data)
                 self.right_canonicalise(D)
 
     def __call__(self, k):
-- 
2.43.0


From fa0bb189fe32ad221a0eede4f7c699d9140bc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 51/69] fix: the return amplitude of an exact trajectory was a
 list of Schmidt spectra

---
 xmps/fTDVP.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index d2e013e..165470e 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -539,13 +539,8 @@ class Trajectory(object):
 
     def loschmidt(self):
         if hasattr(self, 'ed_history'):
-            sch = []
-            mpss = []
-            print('calculating mps from ed...')
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(x.reshape([self.mps.d]*self.mps.L))
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
+            psi_0 = self.ed_history[0]
+            return [np.abs(psi_0.conj()@psi) for psi in self.ed_history]
         else:
             assert self.mps_history
             L, d, D = self.mps.L, self.mps.d, self.mps.D
-- 
2.43.0


From 18a112c989df6e9ba868a4c74b047c0b114c2ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 52/69] fix: reading back a trajectory used the last bond
 dimension for every state recorded

---
 xmps/fTDVP.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 165470e..88b4692 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -516,8 +516,8 @@ class Trajectory(object):
         return self.ed_evs([H])
 
     def deserialize(self):
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return list(map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history))
+        L, d = self.mps.L, self.mps.d
+        return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
 
     def schmidts(self):
         if hasattr(self, 'ed_history'):
@@ -543,10 +543,10 @@ class Trajectory(object):
             return [np.abs(psi_0.conj()@psi) for psi in self.ed_history]
         else:
             assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
-            psi_0 = fMPS().deserialize(self.mps_history[0], L, d, D, real=True)
+            mpss = self.deserialize()
+            psi_0 = mpss[0]
             lss = []
-            for psi in map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history):
+            for psi in mpss:
                 lss.append(np.abs(psi_0.overlap(psi)))
             return lss
 
-- 
2.43.0


From 9992e4808e431f8a30ad045a3d0864b640da7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 53/69] fix: saving a trajectory with a basis stored the state
 outside the given location

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 88b4692..1b5337d 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -584,7 +584,7 @@ class Trajectory(object):
         if exps:
             if hasattr(self, 'q'):
                 save(loc+'bases/'+self.id+'_basis', self.q)
-                self.mps.store('loc'+'bases/'+self.id+'_state')
+                self.mps.store(loc+'bases/'+self.id+'_state')
             elif hasattr(self, 'Q'):
                 save(loc+'bases/'+self.id+'_basis', self.Q)
                 self.mps.store(loc+'bases/'+self.id+'_state')
-- 
2.43.0


From ce3e60b27a06d8cc20e2a4f21f768eb25e8962c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 54/69] fix: a state made random kept the orthogonality centre
 of the state it replaced

---
 xmps/fMPS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 8dd2b92..0574a66 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -428,6 +428,7 @@ class fMPS(object):
                 self.data.append(ed(ed(array([cos(th/2), exp(1j*f*(1-int(real)))*sin(th/2)]), -1), -1))
             self.canonical = False
             self.orthogonal = False
+            self.oc = None
             return self
 
         MPS = [randn(*((d,) + shape)) + (1-int(real))*1j*randn(*((d,) + shape))
@@ -436,6 +437,7 @@ class fMPS(object):
         self.data = MPS
         self.canonical = False
         self.orthogonal = False
+        self.oc = None
         return self
 
     def create_structure(self, L, d, D, phys=False):
-- 
2.43.0


From 4fa0101f812b35ba3e06d6832a9c3a0ef1810577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:36 +0000
Subject: [PATCH 55/69] fix: the structure of a chain of one site could not be
 made

---
 xmps/fMPS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 0574a66..d3f8e47 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -460,7 +460,9 @@ class fMPS(object):
         if L % 2 == 0:
             structure = left + transpose(left[::-1])
         else:
-            structure = left + [(left[-1][-1], transpose(left[::-1])[0][0])] +\
+            # a single site has no bond
+            middle = left[-1][-1] if left else 1
+            structure = left + [(middle, middle)] +\
                         transpose(left[::-1])
         if phys:
             return [(self.d, *st) for st in structure]
-- 
2.43.0


From 756a9aa3c0f8e9f8be61055f2ab997faddb32775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:52 +0000
Subject: [PATCH 56/69] fix: the Jacobian's <d_i psi|H|d_j psi> transposed
 complex Hamiltonians and environments

---
 xmps/fMPS.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index d3f8e47..974f52f 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -846,7 +846,7 @@ class fMPS(object):
         Rs = [op]
         oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
         for m in range(i+1, j+1):
-            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)+1], [1, 2, -len(op.shape)], oplinks]))
+            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)], [1, 2, -len(op.shape)+1], oplinks]))
         return (lambda n: Rs[n-i-1]) if ret_all else Rs[0]
 
     def links(self, k=None, op=True):
@@ -1442,7 +1442,7 @@ class fMPS(object):
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
-                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -3], [-2, -4]]), i, L-1)
+                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -4], [-2, -3]]), i, L-1)
                     Rds_ = self.left_transfer(Rd_, 0, i)
 
                     self.F1_i_mem_[str(i)] = (Lbs_, Rds_)
@@ -1453,7 +1453,7 @@ class fMPS(object):
                 if str(j) not in self.F1_j_mem_:
                     # compute j properties, and store in cache
                     Ru_ = ncon([inv_ch_l(j-1)@vL(j), c(A[j])@ch_r(j)], [[1, -1, -3], [1, -2, -4]])
-                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -1, -3], [1, -2, -4]])
+                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -2, -3], [1, -1, -4]])
                     Rus_ = self.left_transfer(Ru_, 0, j)
                     Rbs_ = self.left_transfer(Rb_, 0, j)
 
@@ -1469,7 +1469,7 @@ class fMPS(object):
                             continue
                         else:
                             Am, Am_1 = self.data[m:m+2]
-                            Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
+                            Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-2,4], [7,-1,5], [7,3,6,2]])
                             #AAHAA
                             Lbs__ = sum(cT(vL(i))@vL(i), axis=0)
                             G_ += ncon([tr(Lbs_(m)@Kr_, 0, -1, -2), Lbs__], [[-2, -4], [-1, -3]])
@@ -1478,18 +1478,18 @@ class fMPS(object):
                         if j==i:
                             # BAHBA
                             G_ += ncon([vL(m), inv_ch_r(m)@Am_1@r(m+1)]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[5, 1, -3], [6, -4, 2], [5, 6, 3, 4], [3, 1, -1], [4, -2, 2]])
+                                        [[5, 1, -3], [6, -4, 2], [3, 4, 5, 6], [3, 1, -1], [4, -2, 2]])
 
                         elif j==i+1:
                             # ABHBA
                             G_ += ncon([Am, inv_ch_l(m)@vL(m+1)]+[h]+[ch_l(m-1)@c(vL(m)), inv_ch_r(m)@c(Am_1)@ch_r(m+1)],
-                                        [[5, 1, 2], [6, 2, -3], [5, 6, 3, 4], [3, 1, -1], [4, -2, -4]])
+                                        [[5, 1, 2], [6, 2, -3], [3, 4, 5, 6], [3, 1, -1], [4, -2, -4]])
                         else:
                             # AAHBA
                             O_ = ncon([ch_l(m-1)@Am, Am_1]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[3, 1, 2], [4, 2, -3], [3, 4, 5, 6], [5, 1, -1], [6, -2, -4]])
+                                        [[3, 1, 2], [4, 2, -3], [5, 6, 3, 4], [5, 1, -1], [6, -2, -4]])
 
-                            G_+= tensordot(O_, Rus_(m+2), [[-1, -2], [0, 1]])
+                            G_+= tensordot(O_, Rus_(m+2), [[-2, -1], [0, 1]])
                     elif m==i-1:
                         if j==i:
                             # ABHAB
@@ -1499,7 +1499,7 @@ class fMPS(object):
                         else:
                             # AAHAB
                             Q_ = ncon([l(m-1)@Am, Am_1]+[h]+[c(Am), inv_ch_l(m)@c(vL(m+1))],
-                                        [[4, 1, 2], [5, 2, -2], [4, 5, 6, 7], [6, 1, 3], [7, 3, -1]])
+                                        [[4, 1, 2], [5, 2, -2], [6, 7, 4, 5], [6, 1, 3], [7, 3, -1]])
 
                             G_ += tensordot(Q_, ncon([inv_ch_r(m+1), Rus_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [-1, 0])
                     elif m<i:
@@ -1519,9 +1519,9 @@ class fMPS(object):
                 H = [h.reshape(2, 2, 2, 2) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
-                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
+                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -8], [-6, -7]])
                 Ru = ncon([pr(j), c(A[j])], [[1, -1, -3, -4], [1, -2, -5]])
-                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -1], [1, -2, -6, -7], [-5, -8]])
+                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -2], [1, -1, -6, -7], [-5, -8]])
 
                 Lbs = self.right_transfer(Lb, i, L-1)
                 Rds = self.left_transfer(Rd, 0, i)
@@ -1537,7 +1537,7 @@ class fMPS(object):
                             else:
                                 #AAHAA
                                 Am, Am_1 = self.data[m:m+2]
-                                Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
+                                Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-2,4], [7,-1,5], [7,3,6,2]])
                                 G += tr(Lbs(m)@Kr_, 0, -1, -2)
 
                         Am, Am_1 = self.data[m:m+2]
@@ -1546,18 +1546,18 @@ class fMPS(object):
                             if j==i:
                                 # BAHBA
                                 G += ncon([l(m-1)]+[pr(m), inv(r(m))@Am_1@r(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [1, 2, 3, 4], [-1, -2, 3, 6], [4, -3, 7]],
+                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [3, 4, 1, 2], [-1, -2, 3, 6], [4, -3, 7]],
                                             [5, 6, 7, 1, 2, 3, 4])
                             elif j==i+1:
                                 # ABHBA
                                 G += ncon([l(m-1)]+[Am, pr(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [1, 2, 3, 4], [-1, -2, 3, 5], [4, -3, -6]],
+                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [3, 4, 1, 2], [-1, -2, 3, 5], [4, -3, -6]],
                                             [5, 6, 1, 3, 7, 2, 4])
                             else:
                                 # AAHBA
                                 O = ncon([l(m-1)@Am, Am_1]+[h]+[pr(m), inv(r(m))@c(Am_1)],
                                             [[3, 6, 5], [4, 5, -4], [1, 2, 3, 4], [-1, -2, 1, 6], [2, -3, -5]]) #(A)ud
-                                G += tensordot(O, Rus(m+2), [[-1, -2], [0, 1]])
+                                G += tensordot(O, Rus(m+2), [[-2, -1], [0, 1]])
 
                         elif m==i-1:
                             if j==i:
-- 
2.43.0


From 4fda2974d49473ce706a3ef9732e15e98320ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 57/69] fix: the Jacobian of a chain of twelve sites or more
 confused pairs of sites in its memory

---
 xmps/fMPS.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 974f52f..e7866a1 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1405,12 +1405,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F1_tot_ij_mem:
-                return self.F1_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F1_tot_ij_mem:
+                return self.F1_tot_ij_mem[(i_, j_)]
 
             ## have we cached its conjugate?
-            if str(j_)+str(i_) in self.F1_tot_ij_mem:
-                return c(tra(self.F1_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F1_tot_ij_mem:
+                return c(tra(self.F1_tot_ij_mem[(j_, i_)],
                                 [2, 3, 0, 1]))
 
         L, d, A = self.L, self.d, self.data
@@ -1652,7 +1652,7 @@ class fMPS(object):
             return G
 
         G_ = c(tra(G_, [2, 3, 0, 1])) if j_<i_ else G_
-        self.F1_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F1_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def F2(self, i_, j_, H, envs=None, inv_envs=None, prs_vLs=None, fullH=False, testing=False, id=None):
@@ -1669,12 +1669,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F2_tot_ij_mem:
-                return self.F2_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F2_tot_ij_mem:
+                return self.F2_tot_ij_mem[(i_, j_)]
 
             # have we cached its transpose?
-            if str(j_)+str(i_) in self.F2_tot_ij_mem:
-                return tra(self.F2_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F2_tot_ij_mem:
+                return tra(self.F2_tot_ij_mem[(j_, i_)],
                            [2, 3, 0, 1])
 
         L, d, A = self.L, self.d, self.data
@@ -1712,13 +1712,13 @@ class fMPS(object):
 
             d, Din_1, Di = self[i].shape
             if not d*Din_1==Di:
-                if str(i)+str(j) not in self.F2_ij_mem:
+                if (i, j) not in self.F2_ij_mem:
                     # new stuff
                     Rj_ = ncon([inv_ch_l(j-1)@c(vL(j)), A[j]@ch_r(j)], [[1, -2, -3], [1, -1, -4]])
                     Rjs_ = self.left_transfer(Rj_, i, j)
-                    self.F2_ij_mem_[str(i)+str(j)] = Rjs_
+                    self.F2_ij_mem_[(i, j)] = Rjs_
                 else:
-                    Rjs_ = self.F2_ij_mem_[str(i)+str(j)]
+                    Rjs_ = self.F2_ij_mem_[(i, j)]
 
                 if str(i) not in self.F2_i_mem:
                     # new stuff
@@ -1816,7 +1816,7 @@ class fMPS(object):
             return G
 
         G_ = tra(G_, [2, 3, 0, 1]) if j_<i_ else G_
-        self.F2_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F2_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def christoffel(self, i, j, k, envs=None, prs_vLs=None, id=None, testing=True, closed=(None, None, None)):
@@ -1833,12 +1833,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i)+str(j)+str(k) in self.christ_tot_ij_mem:
-                return self.christ_tot_ij_mem[str(i)+str(j)+str(k)]
+            if (i, j, k) in self.christ_tot_ij_mem:
+                return self.christ_tot_ij_mem[(i, j, k)]
 
             ## have we cached its conjugate?
-            if str(j)+str(i)+str(k) in self.christ_tot_ij_mem:
-                return tra(self.christ_tot_ij_mem[str(j)+str(i)+str(k)],
+            if (j, i, k) in self.christ_tot_ij_mem:
+                return tra(self.christ_tot_ij_mem[(j, i, k)],
                            [3, 4, 5, 0, 1, 2])
 
         L, d, A = self.L, self.d, self.data
@@ -1881,15 +1881,15 @@ class fMPS(object):
                     G = 1j*zeros((*A[i].shape, *A[j].shape, *A[k].shape))
             else:
                 if contracted:
-                    if str(i)+str(j) not in self.christ_ij_mem:
+                    if (i, j) not in self.christ_ij_mem:
                         if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
                             Rs = self.dA_cache[str(j)]
                         else:
                             R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
                             Rs = self.left_transfer(R, i, j)
-                            self.christ_ij_mem[str(i)+str(j)] = Rs
+                            self.christ_ij_mem[(i, j)] = Rs
                     else:
-                        Rs = self.christ_ij_mem[str(i)+str(j)]
+                        Rs = self.christ_ij_mem[(i, j)]
 
                     G = ncon([pr(i), closed[-1]@inv(r(i)), Rs(i+1), inv(r(i))], [[-1, -2, 1, 2], [1, 2, 3], [3, 4, -4, -5, -6], [4, -3]],
                              [1, 2, 3, 4])
@@ -1917,7 +1917,7 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[str(i)+str(j)+str(k)] = Γ_c
+        self.christ_tot_ij_mem[(i, j, k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
         else:
-- 
2.43.0


From a1172d9585eb04cb45aa9182294bcddd01021035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 58/69] fix: the evolution of a tangent vector ignored the
 metric of the tangent space

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e7866a1..8cf5113 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1272,8 +1272,8 @@ class fMPS(object):
         # down are the tensors acting on c(Aj), up act on Aj
         up, down = self.jac(H, False)
 
-        ddA = [sum([td(down(i, j), c(dA[j]), [[3, 4, 5], [0, 1, 2]]) +
-                    td(up(i, j),     dA[j],  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
+        ddA = [sum([td(down(i, j), l(j-1)@c(dA[j])@r(j), [[3, 4, 5], [0, 1, 2]]) +
+                    td(up(i, j),   l(j-1)@dA[j]@r(j),    [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
                for i in range(L)]
 
         return self.extract_tangent_vector(ddA)
-- 
2.43.0


From 1a39ff1cf1aa38ea7b89dbe86373db28a953d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:20 +0000
Subject: [PATCH 59/69] fix: Lyapunov exponents could not be computed (their
 running mean started with the wrong length)

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 1b5337d..e024575 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -318,10 +318,10 @@ class Trajectory(object):
         dt = T[1]-T[0]
 
         lys = []
-        exps = [array([0])]
+        exps = [zeros(Q.shape[-1])]
 
         lys_ = []
-        exps_ = [array([0])]
+        exps_ = [zeros(Q.shape[-1])]
 
         self.vs = []
 
-- 
2.43.0


From 573d6c6ef4d6d647fb3fee4e1b70ebab8bfa0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:14 +0000
Subject: [PATCH 60/69] fix: the Jacobian and tangent vectors assumed diagonal
 environments, so Lyapunov exponents drifted along a trajectory

---
 xmps/fMPS.py | 74 +++++++++++++++++++++++++---------------------------
 1 file changed, 35 insertions(+), 39 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 8cf5113..4b215c0 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1325,12 +1325,8 @@ class fMPS(object):
         prs_vLs = list(zip(prs, vLs))
         def vL(i): return vLs[i]
         dA_dt = self.dA_dt(H, prs_vLs=prs_vLs)
-        def inv_diag(mat):
-            return diag(1/diag(mat))
-        def ch_diag(mat):
-            return diag(sqrt(diag(mat)))
-        cr, cl = [ch_diag(r(i)) for i in range(self.L)], [ch_diag(l(i)) for i in range(self.L)]
-        icr, icl = [inv_diag(cr[i]) for i in range(self.L)], [inv_diag(cl[i]) for i in range(self.L)]
+        cr, cl = [ch(r(i)) for i in range(self.L)], [cT(ch(l(i))) for i in range(self.L)]
+        icr, icl = [inv(cr[i]) for i in range(self.L)], [inv(cl[i]) for i in range(self.L)]
         inv_envs= (icr, icl, cr, cl)
 
         # Get tensors
@@ -1376,11 +1372,11 @@ class fMPS(object):
             return J1_, J2_, Γ2_
         if not as_matrix:
             def gauge(G, i, j):
-                return ncon([G, inv(ch(l(i-1)))@vL(i), inv(ch(l(j-1)))@c(vL(j)), inv(ch(r(i))), inv(ch(r(j)))],
-                            [[1, 3, 2, 4], [-1, -2, 1], [-4, -5, 2], [-3, 3], [-6, 4]])
+                return ncon([G, icl[i-1]@vL(i), c(icl[j-1]@vL(j)), icr[i], c(icr[j])],
+                            [[1, 3, 2, 4], [-1, -2, 1], [-4, -5, 2], [3, -3], [4, -6]])
             def gauge_(G, i, j):
-                return ncon([G, inv(ch(l(i-1)))@vL(i), inv(ch(l(j-1)))@vL(j), inv(ch(r(i))), inv(ch(r(j)))],
-                            [[1, 3, 2, 4], [-1, -2, 1], [-4, -5, 2], [-3, 3], [-6, 4]])
+                return ncon([G, icl[i-1]@vL(i), icl[j-1]@vL(j), icr[i], icr[j]],
+                            [[1, 3, 2, 4], [-1, -2, 1], [-4, -5, 2], [3, -3], [4, -6]])
 
             return (lambda i, j: gauge(F1(i, j), i, j)), (lambda i, j: gauge_(F2(i, j)+Γ2(i, j), i, j))
 
@@ -1422,8 +1418,8 @@ class fMPS(object):
         if inv_envs is not None:
             icr, icl, cr, cl = inv_envs
         else:
-            icr, icl = [inv(ch(r(i))) for i in range(self.L)], [inv(ch(l(i))) for i in range(self.L)]
-            cr, cl = [ch(r(i)) for i in range(self.L)], [ch(l(i)) for i in range(self.L)]
+            cr, cl = [ch(r(i)) for i in range(self.L)], [cT(ch(l(i))) for i in range(self.L)]
+            icr, icl = [inv(cr[i]) for i in range(self.L)], [inv(cl[i]) for i in range(self.L)]
 
         def inv_ch_r(n): return icr[n]
         def inv_ch_l(n): return icl[n]
@@ -1441,8 +1437,8 @@ class fMPS(object):
                 H = [h.reshape(2, 2, 2, 2) for h in H]
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
-                    Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
-                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -4], [-2, -3]]), i, L-1)
+                    Rd_ = ncon([c(inv_ch_l(i-1)@vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
+                    Lbs_ = self.right_transfer(ncon([c(inv_ch_r(i)), inv_ch_r(i)], [[-1, -4], [-2, -3]]), i, L-1)
                     Rds_ = self.left_transfer(Rd_, 0, i)
 
                     self.F1_i_mem_[str(i)] = (Lbs_, Rds_)
@@ -1452,8 +1448,8 @@ class fMPS(object):
 
                 if str(j) not in self.F1_j_mem_:
                     # compute j properties, and store in cache
-                    Ru_ = ncon([inv_ch_l(j-1)@vL(j), c(A[j])@ch_r(j)], [[1, -1, -3], [1, -2, -4]])
-                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -2, -3], [1, -1, -4]])
+                    Ru_ = ncon([inv_ch_l(j-1)@vL(j), c(A[j]@ch_r(j))], [[1, -1, -3], [1, -2, -4]])
+                    Rb_ = ncon([c(inv_ch_l(j-1)@vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -2, -3], [1, -1, -4]])
                     Rus_ = self.left_transfer(Ru_, 0, j)
                     Rbs_ = self.left_transfer(Rb_, 0, j)
 
@@ -1477,41 +1473,41 @@ class fMPS(object):
                     if m==i:
                         if j==i:
                             # BAHBA
-                            G_ += ncon([vL(m), inv_ch_r(m)@Am_1@r(m+1)]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
+                            G_ += ncon([vL(m), inv_ch_r(m)@Am_1@r(m+1)]+[h]+[c(vL(m)), c(inv_ch_r(m)@Am_1)],
                                         [[5, 1, -3], [6, -4, 2], [3, 4, 5, 6], [3, 1, -1], [4, -2, 2]])
 
                         elif j==i+1:
                             # ABHBA
-                            G_ += ncon([Am, inv_ch_l(m)@vL(m+1)]+[h]+[ch_l(m-1)@c(vL(m)), inv_ch_r(m)@c(Am_1)@ch_r(m+1)],
+                            G_ += ncon([ch_l(m-1)@Am, inv_ch_l(m)@vL(m+1)]+[h]+[c(vL(m)), c(inv_ch_r(m)@Am_1@ch_r(m+1))],
                                         [[5, 1, 2], [6, 2, -3], [3, 4, 5, 6], [3, 1, -1], [4, -2, -4]])
                         else:
                             # AAHBA
-                            O_ = ncon([ch_l(m-1)@Am, Am_1]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
+                            O_ = ncon([ch_l(m-1)@Am, Am_1]+[h]+[c(vL(m)), c(inv_ch_r(m)@Am_1)],
                                         [[3, 1, 2], [4, 2, -3], [5, 6, 3, 4], [5, 1, -1], [6, -2, -4]])
 
                             G_+= tensordot(O_, Rus_(m+2), [[-2, -1], [0, 1]])
                     elif m==i-1:
                         if j==i:
                             # ABHAB
-                            G_ += ncon([l(m-1)@Am, inv_ch_l(m)@vL(m+1)]+[h]+[c(Am), inv_ch_l(m)@c(vL(m+1))]+[eye(r(m+1).shape[0])],
+                            G_ += ncon([l(m-1)@Am, inv_ch_l(m)@vL(m+1)]+[h]+[c(Am), c(inv_ch_l(m)@vL(m+1))]+[eye(r(m+1).shape[0])],
                                         [[7, 1, 2], [8, 2, -3], [5, 6, 7, 8], [5, 1, 3], [6, 3, -1], [-2, -4]])
 
                         else:
                             # AAHAB
-                            Q_ = ncon([l(m-1)@Am, Am_1]+[h]+[c(Am), inv_ch_l(m)@c(vL(m+1))],
+                            Q_ = ncon([l(m-1)@Am, Am_1]+[h]+[c(Am), c(inv_ch_l(m)@vL(m+1))],
                                         [[4, 1, 2], [5, 2, -2], [6, 7, 4, 5], [6, 1, 3], [7, 3, -1]])
 
-                            G_ += tensordot(Q_, ncon([inv_ch_r(m+1), Rus_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [-1, 0])
+                            G_ += tensordot(Q_, ncon([c(inv_ch_r(m+1)), Rus_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [-1, 0])
                     elif m<i:
                         C = ncon([h]+[Am, Am_1], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-                        K = ncon([l(m-1)@c(Am), c(Am_1)]+[C],
+                        K = ncon([c(l(m-1)@Am), c(Am_1)]+[C],
                                     [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]])
                         #AAHAA
                         if i==j:
                             G_ += ncon([tensordot(K, Rbs_(m+2), [[0, 1], [0, 1]]), eye(r(j).shape[0])], [[-1, -3], [-2, -4]])
                         else:
                             G_ += tensordot(tensordot(K, Rds_(m+2), [[0, 1], [0, 1]]),
-                                            ncon([Rus_(i+1), inv_ch_r(i)], [[-1, 2, -3, -4], [2, -2]]), [-1, 0])
+                                            ncon([Rus_(i+1), c(inv_ch_r(i))], [[-1, 2, -3, -4], [-2, 2]]), [-1, 0])
 
             if testing:
                 G = 1j*zeros((*A[i].shape, *A[j].shape))
@@ -1685,8 +1681,8 @@ class fMPS(object):
         if inv_envs is not None:
             icr, icl, cr, cl = inv_envs
         else:
-            icr, icl = [inv(ch(r(i))) for i in range(self.L)], [inv(ch(l(i))) for i in range(self.L)]
-            cr, cl = [ch(r(i)) for i in range(self.L)], [ch(l(i)) for i in range(self.L)]
+            cr, cl = [ch(r(i)) for i in range(self.L)], [cT(ch(l(i))) for i in range(self.L)]
+            icr, icl = [inv(cr[i]) for i in range(self.L)], [inv(cl[i]) for i in range(self.L)]
 
         def inv_ch_r(n): return icr[n]
         def inv_ch_l(n): return icl[n]
@@ -1714,7 +1710,7 @@ class fMPS(object):
             if not d*Din_1==Di:
                 if (i, j) not in self.F2_ij_mem:
                     # new stuff
-                    Rj_ = ncon([inv_ch_l(j-1)@c(vL(j)), A[j]@ch_r(j)], [[1, -2, -3], [1, -1, -4]])
+                    Rj_ = ncon([c(inv_ch_l(j-1)@vL(j)), A[j]@ch_r(j)], [[1, -2, -3], [1, -1, -4]])
                     Rjs_ = self.left_transfer(Rj_, i, j)
                     self.F2_ij_mem_[(i, j)] = Rjs_
                 else:
@@ -1722,7 +1718,7 @@ class fMPS(object):
 
                 if str(i) not in self.F2_i_mem:
                     # new stuff
-                    Ri_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
+                    Ri_ = ncon([c(inv_ch_l(i-1)@vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
                     Ris_ = self.left_transfer(Ri_, 0, i)
                     self.F2_i_mem_[str(i)] = Ris_
                 else:
@@ -1737,19 +1733,19 @@ class fMPS(object):
 
                     if m==i:
                         if j==i+1:
-                            G_+= ncon([ch_l(i-1)@C@ch_r(j), c(vL(i)), inv_ch_r(i)@inv_ch_l(j-1)@c(vL(j))],
+                            G_+= ncon([ch_l(i-1)@C@ch_r(j), c(vL(i)), c(inv_ch_r(i)@inv_ch_l(j-1)@vL(j))],
                                       [[1, 2, 3, -4], [1, 3, -1], [2, -2, -3]])
                         else:
-                            L_=  ncon([ch_l(i-1)@C, c(vL(i)), inv_ch_r(i)@c(Am_1)], [[3,4,1,-3], [3,1,-1], [4, -2, -4]])
+                            L_=  ncon([ch_l(i-1)@C, c(vL(i)), c(inv_ch_r(i)@Am_1)], [[3,4,1,-3], [3,1,-1], [4, -2, -4]])
                             G_+= tensordot(L_, Rjs_(m+2), [[2, 3], [0, 1]])
                     elif m==i-1:
-                        L_ = ncon([l(m-1)@C, c(Am), inv_ch_l(i-1)@c(vL(i))], [[2, 4, 1, -2], [2, 1, 3], [4, 3, -1]])
-                        G_+= tensordot(L_, ncon([inv_ch_r(i), Rjs_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [[-1], [0]])
+                        L_ = ncon([l(m-1)@C, c(Am), c(inv_ch_l(i-1)@vL(i))], [[2, 4, 1, -2], [2, 1, 3], [4, 3, -1]])
+                        G_+= tensordot(L_, ncon([c(inv_ch_r(i)), Rjs_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [[-1], [0]])
                     else:
-                        K = ncon([l(m-1)@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+                        K = ncon([c(l(m-1)@Am), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
 
                         L_ = tensordot(K, Ris_(m+2), [[0, 1], [0, 1]])
-                        G_+= ncon([tensordot(L_, Rjs_(i+1), [1, 0]), inv_ch_r(i)], [[-1, 1, -3, -4], [1, -2]])
+                        G_+= ncon([tensordot(L_, Rjs_(i+1), [1, 0]), c(inv_ch_r(i))], [[-1, 1, -3, -4], [-2, 1]])
 
             if testing:
                 G = 1j*zeros((*A[i].shape, *A[j].shape))
@@ -1851,14 +1847,14 @@ class fMPS(object):
             def co(x): return x if not conj else c(x)
             k = len(tens.shape[3:])
             links = [1, 2, -2]+list(range(-3, -3-k, -1))
-            return ncon([ch(l(i-1))@co(vL(i)),
+            return ncon([co(ch(l(i-1))@vL(i)),
                         ncon([tens, ch(r(i))], [[-1, -2, 1, -4, -5, -6], [1, -3]])],
                         [[1, 2, -1], links])
         def ungauge_j(tens, j, conj=False):
             def co(x): return x if not conj else c(x)
             k = len(tens.shape[:-3])
             links = list(range(-1, -k-1, -1))+[1, 2, -k-2]
-            return ncon([ch(l(j-1))@co(vL(j)), tens@ch(r(j))],
+            return ncon([co(ch(l(j-1))@vL(j)), tens@ch(r(j))],
                     [[1, 2, -k-1], links])
         def ungauge(tens, i, j, conj=(True, False)):
             c1, c2 = conj
@@ -1957,7 +1953,7 @@ class fMPS(object):
     def tangent_state(self, x, n, envs=None, vL=None):
         l , r = self.get_envs() if envs is None else envs
         _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else 1, vL
-        return fMPS([inv(ch(l(n-1)))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
+        return fMPS([cT(inv(ch(l(n-1))))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
 
     def tangent_space_dims(self, l=None, get_vLs=False, vLs=None):
         l, _ = self.get_envs() if l is None else (l, None)
@@ -2022,7 +2018,7 @@ class fMPS(object):
                 continue
             _, vL = self.left_null_projector(n, get_vL=True, store_envs=True)
             l, r = self.l, self.r
-            x = ncon([c(vL), ch(l(n-1))@dA[n]@ch(r(n))], [[1, 2, -1], [1, 2, -2]])
+            x = ncon([c(vL), cT(ch(l(n-1)))@dA[n]@ch(r(n))], [[1, 2, -1], [1, 2, -2]])
             xs.append(x.reshape(-1))
         return ct(xs)
 
@@ -2036,7 +2032,7 @@ class fMPS(object):
         xs = [x.reshape(*shape) for x, shape in zip(vs, S)]
         l_, r_ = lambda n: l(n+nulls), lambda n: r(n+nulls)
         Bs = [zl(A) for A in self.data[:nulls]] + \
-             [inv(ch(l_(n-1)))@vL@x@inv(ch(r_(n))) for n, (vL, x) in enumerate(zip(vLs, xs))]
+             [cT(inv(ch(l_(n-1))))@vL@x@inv(ch(r_(n))) for n, (vL, x) in enumerate(zip(vLs, xs))]
         return fMPS(Bs)
 
 def fs(X):
-- 
2.43.0


From af2545325c312dc60bf64d1f13ae154e2c8ecad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 61/69] fix: the tangent space of a chain with an unequal bond
 pattern was indexed by the wrong sites

---
 xmps/fMPS.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 4b215c0..ee9752b 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1345,7 +1345,7 @@ class fMPS(object):
         def F2(i, k): return -1j*self.F2(i, k, H, envs=(l, r), inv_envs=inv_envs, prs_vLs=prs_vLs, id=id)
 
         sh = self.tangent_space_dims(l, vLs=vLs)
-        nulls = len([1 for (a, b) in sh if a==0 or b==0])
+        sites = [n for n, (a, b) in enumerate(sh) if a!=0 and b!=0]
         shapes = list(cs([prod([a, b]) for (a, b) in sh if a!=0 and a!=0]))
         DD = shapes[-1]
         def ind(i):
@@ -1358,7 +1358,7 @@ class fMPS(object):
         Γ2_ = -1j*zeros((DD, DD))
         for i_ in range(len(shapes)):
             for j_ in range(len(shapes)):
-                i, j = i_+nulls, j_+nulls
+                i, j = sites[i_], sites[j_]
 
                 J1_ij = F1(i,j)
                 J2_ij = F2(i, j)
@@ -2025,14 +2025,12 @@ class fMPS(object):
     def import_tangent_vector(self, v, xs=False):
         l, r = self.get_envs()
         vLs, shapes = self.tangent_space_dims(l, get_vLs=True)
-        vLs = [vL for vL in vLs if prod(vL.shape)!=0]
-        S = [shape for shape in shapes if prod(shape)!=0]
-        nulls = len([shape for shape in shapes if prod(shape)==0])
+        sites = [n for n, shape in enumerate(shapes) if prod(shape)!=0]
+        S = [shapes[n] for n in sites]
         vs = chop(v, cs([prod(s) for s in S]))
-        xs = [x.reshape(*shape) for x, shape in zip(vs, S)]
-        l_, r_ = lambda n: l(n+nulls), lambda n: r(n+nulls)
-        Bs = [zl(A) for A in self.data[:nulls]] + \
-             [cT(inv(ch(l_(n-1))))@vL@x@inv(ch(r_(n))) for n, (vL, x) in enumerate(zip(vLs, xs))]
+        Bs = [zl(A) for A in self.data]
+        for n, x, shape in zip(sites, vs, S):
+            Bs[n] = cT(inv(ch(l(n-1))))@vLs[n]@x.reshape(*shape)@inv(ch(r(n)))
         return fMPS(Bs)
 
 def fs(X):
-- 
2.43.0


From d85251bad7da0c37bdefa43238c27fcf18cca833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 62/69] fix: the Jacobian was limited to sites of dimension two

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ee9752b..7dd0d47 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1434,7 +1434,7 @@ class fMPS(object):
             d, Din_1, Di = self[i].shape
 
             if not d*Din_1==Di:
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([c(inv_ch_l(i-1)@vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
@@ -1512,7 +1512,7 @@ class fMPS(object):
             if testing:
                 G = 1j*zeros((*A[i].shape, *A[j].shape))
                 d, Din_1, Di = self[i].shape
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -8], [-6, -7]])
-- 
2.43.0


From 1c53edce1ea07214e95411b08cc5c4867115975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 63/69] fix: the evolution of a tangent vector used the
 environments of complex conjugate tensors unconjugated

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 7dd0d47..dfd2287 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1272,7 +1272,7 @@ class fMPS(object):
         # down are the tensors acting on c(Aj), up act on Aj
         up, down = self.jac(H, False)
 
-        ddA = [sum([td(down(i, j), l(j-1)@c(dA[j])@r(j), [[3, 4, 5], [0, 1, 2]]) +
+        ddA = [sum([td(down(i, j), c(l(j-1)@dA[j]@r(j)), [[3, 4, 5], [0, 1, 2]]) +
                     td(up(i, j),   l(j-1)@dA[j]@r(j),    [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
                for i in range(L)]
 
-- 
2.43.0


From 30caff29ed834d97e39176fc3156e5cc698a1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:14 +0000
Subject: [PATCH 64/69] fix: a copy of a thermofield double was an ordinary
 state

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index dfd2287..e66efcd 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -931,7 +931,7 @@ class fMPS(object):
         return self
 
     def copy(self):
-        return fMPS([x.copy() for x in self.data])
+        return type(self)([x.copy() for x in self.data])
 
     def E(self, op, site):
         """E: one site expectation value
-- 
2.43.0


From fa38b46bbe90e8cc6abd8c3c12470087a55a1b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:33 +0000
Subject: [PATCH 65/69] fix: a thermofield double read back, or integrated, was
 an ordinary state

---
 xmps/fMPS.py  |  2 +-
 xmps/fTDVP.py | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e66efcd..707f1c8 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1063,7 +1063,7 @@ class fMPS(object):
         for shape in structure:
             new_data.append(vec[:prod(shape)].reshape(shape))
             _, vec = chop(vec, [prod(shape)])
-        return fMPS(new_data)
+        return type(self)(new_data)
 
     def store(self, filename, structured=False):
         """store in file
diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index e024575..12baa37 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -126,7 +126,7 @@ class Trajectory(object):
         for t in tqdm(T):
             mps = self.euler(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = type(self.mps)().deserialize(self.mps_history[-1], L, d, D, real=True)
         return self
 
     def rk4int(self, T):
@@ -138,7 +138,7 @@ class Trajectory(object):
         for t in tqdm(T):
             mps = self.rk4(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = type(self.mps)().deserialize(self.mps_history[-1], L, d, D, real=True)
         return self
 
     def invfreeint(self, T, D=None, order='low'):
@@ -163,7 +163,7 @@ class Trajectory(object):
             elif order == 'low':
                 mps = self.invfree(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = type(self.mps)().deserialize(self.mps_history[-1], L, d, D, real=True)
         return self
 
     def expand(self, D):
@@ -203,7 +203,7 @@ class Trajectory(object):
             :param t: Time
             """
             bar.update()
-            return fMPS().deserialize(v, L, d, D, real=True)\
+            return type(mps)().deserialize(v, L, d, D, real=True)\
                 .dA_dt(H, fullH=self.fullH)\
                 .serialize(real=True)
 
@@ -215,7 +215,7 @@ class Trajectory(object):
 
         self.mps_history = list(traj)
         self.Ds = [D]*(len(traj)+1)
-        self.mps = fMPS().deserialize(traj[-1], L, d, D, real=True)
+        self.mps = type(mps)().deserialize(traj[-1], L, d, D, real=True)
         return self
 
     def edint(self, T):
@@ -487,7 +487,7 @@ class Trajectory(object):
                 self.Ds.append(mps.D)
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
+        return [type(self.mps)().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
 
     def mps_evs(self, ops, site):
         if hasattr(self, 'ed_history') and not self.mps_history:
@@ -500,7 +500,7 @@ class Trajectory(object):
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return array([mps.Es(ops, site)
-                      for mps in (fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history))])
+                      for mps in (type(self.mps)().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history))])
 
     def mps_energies(self):
         assert self.H is not None
@@ -517,7 +517,7 @@ class Trajectory(object):
 
     def deserialize(self):
         L, d = self.mps.L, self.mps.d
-        return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
+        return [type(self.mps)().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
 
     def schmidts(self):
         if hasattr(self, 'ed_history'):
@@ -533,7 +533,7 @@ class Trajectory(object):
             assert self.mps_history
             L, d, D = self.mps.L, self.mps.d, self.mps.D
             sch = []
-            for mps in (fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)):
+            for mps in (type(self.mps)().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)):
                 sch.append([diag(x) for x in mps.left_canonicalise().Ls])
             return sch
 
-- 
2.43.0


From 8be1ddb878bcad8ddfb453d617056adc65eb7790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:33 +0000
Subject: [PATCH 66/69] fix: the evolution of a thermofield double coupled the
 copies of a site instead of evolving each copy

---
 xmps/fMPS.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 707f1c8..9c1327e 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2185,9 +2185,14 @@ class fTFD(fMPS):
         return pr
 
     def dA_dt(self, H, fullH=False):
-        H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
-        return dA_dt
+        d = int(sqrt(self.d))
+        def double(h, n):
+            """h, on n sites, acting on both copies: the copies of a site are next to each other"""
+            h_ = kron(eye(len(h)), h)+kron(h, eye(len(h)))
+            order = [k for i in range(n) for k in (i, n+i)]
+            return tra(h_.reshape([d]*4*n), order+[2*n+k for k in order]).reshape(h_.shape)
+        H_ = double(H, self.L) if fullH else [double(h, 2) for h in H]
+        return super().dA_dt(H_, fullH=fullH)
 
     def E(self, op, site, lr=0):
         """E: one site expectation value
-- 
2.43.0


From 34401e5f6a9a38fbc2af4cc00f3851503dc02767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:58 +0000
Subject: [PATCH 67/69] fix: the energy of an infinite state was that of
 another state unless its fixed points are diagonal and normalised

---
 xmps/iMPS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index a6b8cae..28f80c2 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -499,7 +499,8 @@ class iMPS(object):
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
         K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
-        self.e = tr(K@r)
+        N = ncon([l@A.conj(), A.conj(), A, A], [[1, 3, 4], [2, 4, -2], [1, 3, 5], [2, 5, -1]])
+        self.e = tr(K@T(r))/tr(N@T(r))
         return real(self.e)
 
     def serialize(self, real=False):
-- 
2.43.0


From d4eac76c95b77af2366c35685265e147c6eaa0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:58 +0000
Subject: [PATCH 68/69] fix: the derivative of an infinite state transposed the
 right fixed point

---
 xmps/iMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 28f80c2..434f106 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -674,7 +674,7 @@ class iMPS(object):
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
         K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
-        self.e = tr(K@r)
+        self.e = tr(K@T(r))
 
         pr = self.left_null_projector()
 
@@ -682,7 +682,7 @@ class iMPS(object):
         K = self.Lh(H)
 
         B = -1j*zl(A)
-        B += -1j*ncon([l@C@r, pr, inv(r)@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+        B += -1j*ncon([l@C@r, pr, T(inv(r))@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
         B += -1j*ncon([l@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
         B += -1j *ncon([K, R], [[1, 2], [1, 2, -1, -2, -3]])
         B = iMPS([B])
-- 
2.43.0


From 2e9fe6b51d0f32146269fc0b17cc4c92bcfaa0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:10 +0000
Subject: [PATCH 69/69] fix: adding two single-site states concatenated them
 along an outer bond

---
 xmps/fMPS.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9c1327e..845e46c 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -224,7 +224,9 @@ class fMPS(object):
         """
         new_data = [1j*np.zeros((self[i].shape[0], self[i].shape[1]+other[i].shape[1], self[i].shape[2]+other[i].shape[2])) for i in range(self.L)]
         for i in range(self.L):
-            if i == 0:
+            if self.L == 1:
+                new_data[i] = self[i]+other[i]
+            elif i == 0:
                 new_data[i] = np.concatenate([self[i], other[i]], 2)
             elif i == self.L-1:
                 new_data[i] = np.concatenate([self[i], other[i]], 1)
@@ -2095,7 +2097,9 @@ class fTFD(fMPS):
         """
         new_data = [1j*np.zeros((self[i].shape[0], self[i].shape[1]+other[i].shape[1], self[i].shape[2]+other[i].shape[2])) for i in range(self.L)]
         for i in range(self.L):
-            if i == 0:
+            if self.L == 1:
+                new_data[i] = self[i]+other[i]
+            elif i == 0:
                 new_data[i] = np.concatenate([self[i], other[i]], 2)
             elif i == self.L-1:
                 new_data[i] = np.concatenate([self[i], other[i]], 1)
-- 
2.43.0

