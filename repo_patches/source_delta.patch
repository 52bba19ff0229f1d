From dc562d0b193878bb53ebfb03c26f023cc238788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 01/92] fix: fMPS.__call__ is 1-based: return data[k-1]

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 084d638..220d562 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -175,7 +175,7 @@ class fMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
-- 
2.43.0


From 4ab1243e9d9d088b5bcd59eb88636593f8f57137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 02/92] fix: random product states have the requested local
 dimension and usable flags

---
 xmps/fMPS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 220d562..e7ade21 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -408,7 +408,9 @@ class fMPS(object):
         """
         self.L = L
         self.d = d
-        if D == 1:
+        self.canonical = False
+        self.orthogonal = False
+        if D == 1 and d == 2:
             self.D = 1
             # random product states
             V = randn(L, 3)
-- 
2.43.0


From 1b117a34c0cbad545f81c248456f996f889a6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 03/92] fix: mixed_canonicalise records its own orthogonality
 centre

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e7ade21..03f6f85 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -623,7 +623,6 @@ class fMPS(object):
         :param testing: test canonicalness
         """
         self.ok = True
-        self.oc = oc
         self.right_canonicalise(D, minD=False, sweep_back=sweep_back)
 
         def split(M):
@@ -647,6 +646,7 @@ class fMPS(object):
 
         self.canonical = True
         self.orthogonal = True
+        self.oc = oc
         return self
 
     def right_orthogonalise(self, fr=0, to=None):
-- 
2.43.0


From 9a3470491a006616009b6f2d118e966cf616b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 04/92] fix: canonicalisation of states with degenerate Schmidt
 coefficients: use eigh

---
 xmps/tensor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 2212f12..e2f867a 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -3,7 +3,7 @@ import unittest
 from numpy.random import randn
 from scipy.sparse.linalg import eigs as arnoldi
 from scipy.linalg import qr, expm, norm, svd
-from numpy.linalg import eig as neig, eigvals, inv
+from numpy.linalg import eig as neig, eigh, eigvals, inv
 from numpy import swapaxes, count_nonzero, diag, insert, pad, dot, argmax, sqrt
 from numpy import allclose, array, tensordot, transpose, all, identity, squeeze
 from numpy import isclose, mean, sign, kron, zeros, conj, max, concatenate, eye
@@ -236,10 +236,11 @@ def tr_svd(A, D):
     return U[:, :D], diag(s[:D]), V[:D, :]
 
 def diagonalise(M):
-    """diagonalise: wrap eig better
-       :param M: matrix to diagonalise """
-    S, V = neig(M)
-    return (V, diag(S))
+    """diagonalise: wrap eigh better
+       :param M: hermitian matrix to diagonalise (eigenvalues in descending order,
+       orthonormal eigenvectors even when eigenvalues are degenerate) """
+    S, V = eigh((M+M.conj().T)/2)
+    return (V[:, ::-1], diag(S[::-1]))
 
 def rotate_to_hermitian(r, testing=False, ret_phase=False):
     """rotate_to_hermitian: arnoldi returns matrices that are hermitian up
-- 
2.43.0


From fe0a5b08d7141ea49140899db5e3642fac013a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 05/92] fix: fMPS(data, D=D) truncates instead of raising

---
 xmps/fMPS.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 03f6f85..0d5240e 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -162,13 +162,12 @@ class fMPS(object):
                 self.d = d
             else:
                 self.d = data[0].shape[0]
-            if D is not None:
-                self.right_canonicalise(D)
-            else:
-                self.D = max([max(x.shape[1:]) for x in data])
+            self.D = max([max(x.shape[1:]) for x in data])
             self.data = data
             self.canonical = False
             self.orthogonal = False
+            if D is not None:
+                self.right_canonicalise(D)
 
     def __call__(self, k):
         """__call__: 1-based indexing
-- 
2.43.0


From 36a01b1ab9ad4bc5d46a658fd55038af4cc8e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 06/92] fix: fMPS.E and E_ evaluated the transposed operator
 (sign of <Sy>)

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 0d5240e..54d8b47 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -923,7 +923,7 @@ class fMPS(object):
         if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc != site):
             self.mixed_orthogonalise(site)
         M = self[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]], [3, 4, 1, 2]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]], [3, 4, 1, 2]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def E_(self, op, site):
@@ -933,7 +933,7 @@ class fMPS(object):
         :param site: site
         """
         M = self.mixed_canonicalise(site, sweep_back=True)[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def Es(self, ops, site):
-- 
2.43.0


From 799bd721d931c01fddff44ee691898cff07d5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 07/92] fix: fTFD.E and Es evaluated the transposed operator
 (sign of <Sy>)

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 54d8b47..abfd131 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2176,12 +2176,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op))) if lr == 0 else kron(eye(len(op)), op)
         M = self.mixed_canonicalise(site)[site]
-        return np.real(trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0)))
+        return np.real(trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0)))
 
     def Es(self, ops, site, lr=0):
         ops = [kron(op, eye(len(op))) for op in ops] if lr == 0 else [kron(eye(len(op)), op) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return np.array([trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return np.array([trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops])
 
 class vfMPS(object):
-- 
2.43.0


From 8f5b09a6c233796f8eced84626128a2035659ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 08/92] fix: expectation values after in-place tensor changes
 use a fresh orthogonality centre

---
 xmps/fMPS.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index abfd131..43502fd 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -187,6 +187,13 @@ class fMPS(object):
         """__setitem__
         """
         self.data[key] = value
+        self.forget_centre()
+
+    def forget_centre(self):
+        """the tensors changed: nothing is known about the gauge any more"""
+        self.canonical = False
+        self.orthogonal = False
+        self.oc = None
 
     def __eq__(self, other):
         """__eq__
@@ -664,6 +671,8 @@ class fMPS(object):
         if fr == 0 and to == self.L:
             self.orthogonal = True
             self.oc = 0
+        else:
+            self.forget_centre()
         return self
 
     def left_orthogonalise(self, fr=0, to=None):
@@ -682,6 +691,8 @@ class fMPS(object):
         if fr == 0 and to == self.L:
             self.orthogonal = True
             self.oc = self.L
+        else:
+            self.forget_centre()
         return self
 
     def mixed_orthogonalise(self, oc, current_oc=None):
@@ -861,6 +872,8 @@ class fMPS(object):
         else:
             self.data[site+1] = self.data[site][which, :, :]@self.data[site+1]
         del self.data[site]
+        self.L = len(self.data)
+        self.forget_centre()
         return self
 
     def apply_two_site(self, opsites, which='l', D=None, truncate_swaps=False):
-- 
2.43.0


From efd259c8a12f48f22f47378730a35db46969d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 09/92] fix: apply_two_site with a one-site operator and two
 sites

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 43502fd..5b36087 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -891,7 +891,7 @@ class fMPS(object):
                 self = self.apply((op, sites[0]))
                 return self
             else:
-                self = self.apply((op, [i, j][{'l':0, 'r':1}[which]]))
+                self = self.apply((op, sites[{'l':0, 'r':1}[which]]))
                 return self
         else:
             i, j = sites
-- 
2.43.0


From 580c8b318d4e65f8c330f1c2f7c2adaf73b9f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 10/92] fix: energy from local terms is the total energy, as
 for a full Hamiltonian

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 5b36087..dbd9457 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1021,7 +1021,7 @@ class fMPS(object):
                 h = h.reshape(*[self.d]*4)
                 C = ncon([h]+self.data[m:m+2], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]])
                 e.append(ncon([c(l(m-1))@self.data[m].conj(), self.data[m+1].conj()@c(r(m+1))]+[C], [[1, 3, 4], [2, 4, 5], [1, 2, 3, 5]]))
-            return re(sum(e))/self.L
+            return re(sum(e))
         else:
             return self.E_L(H)
 
-- 
2.43.0


From 29836cae50ec55c889eb6d1879a170ac56fb02d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 11/92] fix: rho_proj traces |self><other| over the other sites

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index dbd9457..c63fd3d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1005,7 +1005,7 @@ class fMPS(object):
         '''
         if self.bond_dimension == 1 and single_string:
             not_sites = [site for site in range(self.L) if site not in sites]
-            partial_overlap = [np.squeeze(self[i]).conj().T@np.squeeze(other[i].conj()) for i in not_sites]
+            partial_overlap = [np.squeeze(other[i]).conj()@np.squeeze(self[i]) for i in not_sites]
             return np.prod(partial_overlap)*reduce(np.kron, [ncon([np.squeeze(self[i])]+[np.squeeze(other[i].conj()).T], [[-1], [-2]]) for i in sites])
 
 
-- 
2.43.0


From 4b30b48465826b292cea39d51b6eb47385bca9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 12/92] fix: add for single-site MPS

---
 xmps/fMPS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index c63fd3d..43eb009 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -225,6 +225,8 @@ class fMPS(object):
     def add(self, other):
         """add: proper mps addition here
         """
+        if self.L == 1:
+            return fMPS([self[0]+other[0]])
         new_data = [1j*np.zeros((self[i].shape[0], self[i].shape[1]+other[i].shape[1], self[i].shape[2]+other[i].shape[2])) for i in range(self.L)]
         for i in range(self.L):
             if i == 0:
@@ -2085,6 +2087,8 @@ class fTFD(fMPS):
     def add(self, other):
         """add: proper mps addition here
         """
+        if self.L == 1:
+            return fTFD([self[0]+other[0]])
         new_data = [1j*np.zeros((self[i].shape[0], self[i].shape[1]+other[i].shape[1], self[i].shape[2]+other[i].shape[2])) for i in range(self.L)]
         for i in range(self.L):
             if i == 0:
-- 
2.43.0


From 42f26a4e914beea05c9d9351eb2a0d8095ed22a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 13/92] fix: apply_two_site on (i, j) with i > j acts with its
 first factor on i

---
 xmps/fMPS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 43eb009..dced5d9 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -897,7 +897,10 @@ class fMPS(object):
                 return self
         else:
             i, j = sites
-            i, j = (i, j) if (j > i) else (j, i)
+            if j < i:
+                # exchange the factors of the operator along with the sites
+                op = op.reshape([self.d]*4).transpose([1, 0, 3, 2]).reshape(op.shape)
+                i, j = j, i
             i_ = j-1
             while i_ >= i+1:
                 self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], SWAP, which, swap_D)
-- 
2.43.0


From 1e93e2ddcc92296191e56628bb1aa9e26992ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 14/92] fix: apply_two_site for local dimensions other than 2

---
 xmps/fMPS.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index dced5d9..71eee60 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -888,7 +888,7 @@ class fMPS(object):
         swap_D = None if not truncate_swaps else D
         op, sites = opsites
         assert op.shape[0]==op.shape[1]
-        if op.shape[0] == 2:
+        if op.shape[0] == self.d:
             if len(sites) == 1:
                 self = self.apply((op, sites[0]))
                 return self
@@ -901,15 +901,16 @@ class fMPS(object):
                 # exchange the factors of the operator along with the sites
                 op = op.reshape([self.d]*4).transpose([1, 0, 3, 2]).reshape(op.shape)
                 i, j = j, i
+            swap = np.eye(self.d**2).reshape([self.d]*4).transpose([1, 0, 2, 3]).reshape(self.d**2, -1)
             i_ = j-1
             while i_ >= i+1:
-                self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], SWAP, which, swap_D)
+                self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], swap, which, swap_D)
                 #self.apply_two_site((SWAP, (i_, i_+1)))
                 i_ = i_-1
             self[i], self[i+1] = apply_unitary([self[i], self[i+1]], op, which, D)
             while i_ < j-1:
                 i_ = i_+1
-                self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], SWAP, which, swap_D)
+                self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], swap, which, swap_D)
                 #self.apply_two_site((SWAP, (i_, i_+1)))
             return self
 
-- 
2.43.0


From 17f292a426146383997dc6ad54f413de10fb9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 15/92] fix: iMPS.__call__ is 1-based: return data[k-1]

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 5d87640..8fc7cc7 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -177,7 +177,7 @@ class iMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
-- 
2.43.0


From 890eccdfc71c6699299c908ebb99a99252253dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 16/92] fix: iMPS.canonicalise compares the requested form by
 value, not identity

---
 xmps/iMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 8fc7cc7..dc3f566 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -374,11 +374,11 @@ class iMPS(object):
 
         self.L = L_  # store singular value
 
-        if hand is 'r':
+        if hand == 'r':
             self.data[0] = G_ @ L_
-        elif hand is 'l':
+        elif hand == 'l':
             self.data[0] = L_ @ G_
-        elif hand is 'm':
+        elif hand == 'm':
             sqrtL_ = diag(sqrt(L))
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
-- 
2.43.0


From f3a2f355084e8f4d0fb7fbdbfe0e43bdcf8f2cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 17/92] fix: symmetric canonical form of an iMPS is normalised

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index dc3f566..ef3340b 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -379,7 +379,7 @@ class iMPS(object):
         elif hand == 'l':
             self.data[0] = L_ @ G_
         elif hand == 'm':
-            sqrtL_ = diag(sqrt(L))
+            sqrtL_ = sqrt(L_)
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
         if to_vidal:
-- 
2.43.0


From 21019d0a53d6d07d70c857be7717b4f05b552711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 18/92] fix: iMPS.E/Es with a given form and ivMPS.E evaluated
 the transposed operator

---
 xmps/iMPS.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index ef3340b..50c3b81 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -420,15 +420,15 @@ class iMPS(object):
         if c == 'm':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0])))
+            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0])))
         if c == 'r':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0])))
+            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0])))
         if c == 'l':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0])))
+            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0])))
 
         if c is None:
             G, L = self.canonicalise(to_vidal=True).data[0]
@@ -453,19 +453,19 @@ class iMPS(object):
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0]))))
+                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0]))))
             return ret
         if c == 'r':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0]))))
             return ret
         if c == 'l':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0]))))
             return ret
 
         if c is None:
@@ -813,4 +813,4 @@ class ivMPS(object):
         # |    circle   |,      op
         # |      |1     |       |1
         #  - L - G - L -
-        return real_if_close(tensordot(circle, op, [[0, 1], [0, 1]]))
+        return real_if_close(tensordot(circle, op, [[0, 1], [1, 0]]))
-- 
2.43.0


From 3aacfdc602ea93cea1e6003ec954feb1184d7226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 19/92] fix: iMPS.get_envs takes self

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 50c3b81..1274a64 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -401,7 +401,7 @@ class iMPS(object):
         """eigs: dominant eigenvectors and values of the transfer matrix."""
         return self.transfer_matrix().eigs(l0, r0)
 
-    def get_envs():
+    def get_envs(self):
         _, self.l, self.r = self.eigs()
         return self.l, self.r
 
-- 
2.43.0


From fc10841f45d6e56def2eb19ea64c080d1937b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 20/92] fix: left and right environments of an iMPS for complex
 tensors (energy, Lh, Rh, dA_dt)

---
 xmps/iMPS.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 1274a64..1075659 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -127,7 +127,7 @@ class TransferMatrix(object):
         """
         A = self.A
         l = l.reshape(A.shape[1:])
-        return sum(T(A) @ l @ C(A), axis=0).reshape(prod(A.shape[1:]))
+        return sum(cT(A) @ l @ A, axis=0).reshape(prod(A.shape[1:]))
 
     def aslinearoperator(self):
         """return linear operator representation - for arnoldi etc."""
@@ -359,7 +359,7 @@ class iMPS(object):
         self.l, self.r = v_l, v_r
 
         X = cholesky_s(v_r, lower=True, check_finite=False, overwrite_a=True)
-        Y = cholesky_s(v_l, lower=True, check_finite=False, overwrite_a=True)
+        Y = cholesky_s(v_l.conj(), lower=True, check_finite=False, overwrite_a=True)
 
         U, L, V = svd_s(Y.T.dot(X), full_matrices=False,
                                     overwrite_a=True,
@@ -490,7 +490,7 @@ class iMPS(object):
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
         return real(self.e)
 
@@ -549,7 +549,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+            K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
             K -= l*tr(K@r)
             return K
 
@@ -595,7 +595,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([A.conj(), A.conj()@r]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
+            K = ncon([A.conj(), A.conj()]+[C@r], [[1, -2, 4], [2, 4, 3], [1, 2, -1, 3]]) #AAHAA
             K -= r*tr(l@K)
             return K
 
@@ -612,7 +612,7 @@ class iMPS(object):
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
             def LHS(K):
-                return K-sum(c(A)@K@T(A), axis=0) + r*tr(l@K)
+                return K-sum(A@K@cT(A), axis=0) + r*tr(l@K)
 
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
@@ -640,7 +640,7 @@ class iMPS(object):
         L = L_.reshape(-1, self.d*L_.shape[-1])
         vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
 
-        pr = ncon([inv(ch(l))@vL, inv(ch(l))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        pr = ncon([inv(cT(ch(l)))@vL, inv(T(ch(l)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
         self.vL = vL
         if get_vL:
             return pr, vL
@@ -665,7 +665,7 @@ class iMPS(object):
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
 
         pr = self.left_null_projector()
@@ -674,9 +674,9 @@ class iMPS(object):
         K = self.Lh(H)
 
         B = -1j*zl(A)
-        B += -1j*ncon([l@C@r, pr, inv(r)@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
-        B += -1j*ncon([l@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
-        B += -1j *ncon([K, R], [[1, 2], [1, 2, -1, -2, -3]])
+        B += -1j*ncon([l@C@r, pr, T(inv(r))@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+        B += -1j*ncon([T(l)@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+        B += -1j *ncon([K, R], [[2, 1], [1, 2, -1, -2, -3]])
         B = iMPS([B])
         B.l, B.r, B.vL = l, r, self.vL
         return B
@@ -695,7 +695,7 @@ class iMPS(object):
         _, l, r = self.eigs()
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
 
         pr = self.left_null_projector()
-- 
2.43.0


From edc6125417e0b55ea02bd1ddcdae58d3c005b71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 21/92] fix: iTDVP rk4 multiplied its third stage by dt twice

---
 xmps/iTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index faf1957..53bff60 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -69,7 +69,7 @@ class Trajectory(object):
             self.Ds.append(mps.D)
         k1 = mps.dA_dt(H)
         k2 = (mps+k1/2*dt).dA_dt(H)
-        k3 = (mps+k2/2*dt).dA_dt(H)*dt
+        k3 = (mps+k2/2*dt).dA_dt(H)
         k4 = (mps+k3*dt).dA_dt(H)
 
         return (mps+(k1+2*k2+2*k3+k4)*dt/6).left_canonicalise()
-- 
2.43.0


From 48d95b44b873440b0d00c294ab70dd9a80450f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 22/92] fix: swap_antisymmetrise returned the symmetric part

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 2629c62..b2d4472 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -66,13 +66,13 @@ def partial_trace(rho, keep, dims, optimize=False):
     return rho_a.reshape(Nkeep, Nkeep)
 
 def is_swap_symmetric(U):
-    return allclose(U-swap_antisymmetrise(U), 0)
+    return allclose(swap_antisymmetrise(U), 0)
 
 def swap_symmetrise(U):
     return (U+swap()@U@swap())/2
 
 def swap_antisymmetrise(U):
-    return (U+swap()@U@swap())/2
+    return (U-swap()@U@swap())/2
 
 def swap():
     return array([[1, 0, 0, 0],
-- 
2.43.0


From 1c8071fa7cedab61a92ada2de21a77b98ad4af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 23/92] fix: U1 and U2 call locals()

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index b2d4472..5efe3e3 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -509,12 +509,12 @@ def locals():
 def U1(v):
     """U1 local unitary
     """
-    return expm(-1j*tensordot(v, locals[:3], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[:3], [0, 0]))
 
 def U2(v):
     """U2 local unitary
     """
-    return expm(-1j*tensordot(v, locals[3:], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[3:], [0, 0]))
 
 def U4(v):
     """U4 two site unitary
-- 
2.43.0


From b7f0a3998f23a4a4e00374d56a61712092966007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 24/92] fix: ferro() spinor components satisfy the SU(2)
 algebra

---
 xmps/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 5efe3e3..c1f68b3 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -496,7 +496,7 @@ def ferro():
     zp2, zm2 = (0.5*eye(4)+Sz2), (0.5*eye(4)-Sz2)
     m_x = (sp1@sp2 + sm1@sm2)
     m_y = 1j*(sp1@sp2-sm1@sm2)
-    m_z = (Sz1+Sz2)/2
+    m_z = (Sz1+Sz2)
     return array([m_x, m_y, m_z])
 
 def locals():
-- 
2.43.0


From 9505b3ece5b250cc7f143e0fedd3996860160e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 25/92] fix: Hamiltonian does not change the dictionary it is
 made from

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 28a145f..11086d6 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -18,7 +18,7 @@ class Hamiltonian(object):
 
     def __init__(self, strings=None, matrices=None, d=2):
         if strings is not None:
-            self.strings = strings
+            self.strings = dict(strings)
             for key, val in {key:val for key, val in self.strings.items()}.items():
                 if len(key)==1:
                     self.strings['I'+key] = val
-- 
2.43.0


From cb3546c5124b44b78342819e4d2f44baa2e897e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 26/92] fix: fields of a two-site Hamiltonian were halved

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 11086d6..ab14098 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -115,7 +115,7 @@ class Hamiltonian(object):
         H_L = Hamiltonian(h_L_strings)._squeeze()
         H_i = Hamiltonian(h_i_strings)._squeeze()
         if L==2:
-            return [H_i.to_matrix()]
+            return [self.to_matrix()]
         elif L==3:
             return [H_0.to_matrix()] + [H_L.to_matrix()]
         else:
-- 
2.43.0


From 37c2a4d9ad3f73a3a4a401349c228696541ece8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 27/92] fix: Hamiltonian.from_matrix looks the Pauli matrices
 up and normalises

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index ab14098..ebfe8f7 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -124,7 +124,7 @@ class Hamiltonian(object):
     def from_matrix(self, mat):
         xyz = list(S.keys())
         strings = list(product(xyz, xyz))
-        self.strings = {a+b:trace(kron(a, b)@mat) for a, b in strings}
+        self.strings = {a+b:trace(kron(S[a], S[b])@mat)/4 for a, b in strings}
         del self.strings['II']
         return self
 
-- 
2.43.0


From 6d279aacfadb080581c31fb4a3c9bd04809156cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 28/92] fix: Hamiltonian.to_full from strings (local dimension
 was unset), for the length asked for

---
 xmps/Hamiltonians.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index ebfe8f7..8507c13 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -24,8 +24,8 @@ class Hamiltonian(object):
                     self.strings['I'+key] = val
                     self.strings[key+'I'] = val
                     self.strings.pop(key)
+        self.d = d # local hilbert space dimension
         if matrices is not None:
-            self.d = d # local hilbert space dimension
             self.matrices = matrices
 
     @property
@@ -129,12 +129,11 @@ class Hamiltonian(object):
         return self
 
     def to_full(self, L=None):
-        if not self.has_matrices:
-            if self.has_strings:
-                assert L is not None
-                self.matrices = self.to_matrices(L)
-            else:
-                raise Exception('No strings or matrices')
+        if self.has_strings and (L is not None or not self.has_matrices):
+            assert L is not None
+            self.matrices = self.to_matrices(L)
+        elif not self.has_matrices:
+            raise Exception('No strings or matrices')
         if self.has_matrices:
             total = np.zeros((2**self.L, 2**self.L))*1j
             for i, matrix in enumerate(self.matrices):
-- 
2.43.0


From e1aa22d567a797afe64ee8d5a48151084522a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 29/92] fix: ncon does not change the contraction order it is
 given

---
 xmps/ncon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/ncon.py b/xmps/ncon.py
index 3508f1c..4659f53 100644
--- a/xmps/ncon.py
+++ b/xmps/ncon.py
@@ -40,6 +40,8 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
 
     if order == None:
         order = create_order(v)
+    else:
+        order = list(order)
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From d411701ebdfe7ac6a1bacae7b2d1340a3329d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 30/92] fix: right_transfer keeps the order of its legs and
 returns the transferred operator

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 71eee60..352394d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -843,8 +843,8 @@ class fMPS(object):
         Rs = [op]
         oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
         for m in range(i+1, j+1):
-            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)+1], [1, 2, -len(op.shape)], oplinks]))
-        return (lambda n: Rs[n-i-1]) if ret_all else Rs[0]
+            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)], [1, 2, -len(op.shape)+1], oplinks]))
+        return (lambda n: Rs[n-i-1]) if ret_all else Rs[-1]
 
     def links(self, k=None, op=True):
         """links: op True: return the links for ncon for full contraction of this
-- 
2.43.0


From 155b87ea6d12fab2b46c3f4a4926d4ca7bcf25eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 31/92] fix: F1 applied some Hamiltonian terms and environments
 transposed, and assumed d=2

---
 xmps/fMPS.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 352394d..ec4875d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1430,11 +1430,11 @@ class fMPS(object):
             d, Din_1, Di = self[i].shape
 
             if not d*Din_1==Di:
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
-                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -3], [-2, -4]]), i, L-1)
+                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -4], [-2, -3]]), i, L-1)
                     Rds_ = self.left_transfer(Rd_, 0, i)
 
                     self.F1_i_mem_[str(i)] = (Lbs_, Rds_)
@@ -1445,7 +1445,7 @@ class fMPS(object):
                 if str(j) not in self.F1_j_mem_:
                     # compute j properties, and store in cache
                     Ru_ = ncon([inv_ch_l(j-1)@vL(j), c(A[j])@ch_r(j)], [[1, -1, -3], [1, -2, -4]])
-                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -1, -3], [1, -2, -4]])
+                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -2, -3], [1, -1, -4]])
                     Rus_ = self.left_transfer(Ru_, 0, j)
                     Rbs_ = self.left_transfer(Rb_, 0, j)
 
@@ -1464,24 +1464,24 @@ class fMPS(object):
                             Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
                             #AAHAA
                             Lbs__ = sum(cT(vL(i))@vL(i), axis=0)
-                            G_ += ncon([tr(Lbs_(m)@Kr_, 0, -1, -2), Lbs__], [[-2, -4], [-1, -3]])
+                            G_ += ncon([tensordot(Lbs_(m), Kr_, [[-2, -1], [0, 1]]), Lbs__], [[-2, -4], [-1, -3]])
                     Am, Am_1 = self.data[m:m+2]
                     if m==i:
                         if j==i:
                             # BAHBA
                             G_ += ncon([vL(m), inv_ch_r(m)@Am_1@r(m+1)]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[5, 1, -3], [6, -4, 2], [5, 6, 3, 4], [3, 1, -1], [4, -2, 2]])
+                                        [[5, 1, -3], [6, -4, 2], [3, 4, 5, 6], [3, 1, -1], [4, -2, 2]])
 
                         elif j==i+1:
                             # ABHBA
                             G_ += ncon([Am, inv_ch_l(m)@vL(m+1)]+[h]+[ch_l(m-1)@c(vL(m)), inv_ch_r(m)@c(Am_1)@ch_r(m+1)],
-                                        [[5, 1, 2], [6, 2, -3], [5, 6, 3, 4], [3, 1, -1], [4, -2, -4]])
+                                        [[5, 1, 2], [6, 2, -3], [3, 4, 5, 6], [3, 1, -1], [4, -2, -4]])
                         else:
                             # AAHBA
                             O_ = ncon([ch_l(m-1)@Am, Am_1]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[3, 1, 2], [4, 2, -3], [3, 4, 5, 6], [5, 1, -1], [6, -2, -4]])
+                                        [[3, 1, 2], [4, 2, -3], [5, 6, 3, 4], [5, 1, -1], [6, -2, -4]])
 
-                            G_+= tensordot(O_, Rus_(m+2), [[-1, -2], [0, 1]])
+                            G_+= tensordot(O_, Rus_(m+2), [[-2, -1], [0, 1]])
                     elif m==i-1:
                         if j==i:
                             # ABHAB
@@ -1491,7 +1491,7 @@ class fMPS(object):
                         else:
                             # AAHAB
                             Q_ = ncon([l(m-1)@Am, Am_1]+[h]+[c(Am), inv_ch_l(m)@c(vL(m+1))],
-                                        [[4, 1, 2], [5, 2, -2], [4, 5, 6, 7], [6, 1, 3], [7, 3, -1]])
+                                        [[4, 1, 2], [5, 2, -2], [6, 7, 4, 5], [6, 1, 3], [7, 3, -1]])
 
                             G_ += tensordot(Q_, ncon([inv_ch_r(m+1), Rus_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [-1, 0])
                     elif m<i:
@@ -1508,12 +1508,12 @@ class fMPS(object):
             if testing:
                 G = 1j*zeros((*A[i].shape, *A[j].shape))
                 d, Din_1, Di = self[i].shape
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
-                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
+                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -8], [-6, -7]])
                 Ru = ncon([pr(j), c(A[j])], [[1, -1, -3, -4], [1, -2, -5]])
-                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -1], [1, -2, -6, -7], [-5, -8]])
+                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -2], [1, -1, -6, -7], [-5, -8]])
 
                 Lbs = self.right_transfer(Lb, i, L-1)
                 Rds = self.left_transfer(Rd, 0, i)
@@ -1530,7 +1530,7 @@ class fMPS(object):
                                 #AAHAA
                                 Am, Am_1 = self.data[m:m+2]
                                 Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
-                                G += tr(Lbs(m)@Kr_, 0, -1, -2)
+                                G += tensordot(Lbs(m), Kr_, [[-2, -1], [0, 1]])
 
                         Am, Am_1 = self.data[m:m+2]
 
@@ -1538,18 +1538,18 @@ class fMPS(object):
                             if j==i:
                                 # BAHBA
                                 G += ncon([l(m-1)]+[pr(m), inv(r(m))@Am_1@r(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [1, 2, 3, 4], [-1, -2, 3, 6], [4, -3, 7]],
+                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [3, 4, 1, 2], [-1, -2, 3, 6], [4, -3, 7]],
                                             [5, 6, 7, 1, 2, 3, 4])
                             elif j==i+1:
                                 # ABHBA
                                 G += ncon([l(m-1)]+[Am, pr(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [1, 2, 3, 4], [-1, -2, 3, 5], [4, -3, -6]],
+                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [3, 4, 1, 2], [-1, -2, 3, 5], [4, -3, -6]],
                                             [5, 6, 1, 3, 7, 2, 4])
                             else:
                                 # AAHBA
                                 O = ncon([l(m-1)@Am, Am_1]+[h]+[pr(m), inv(r(m))@c(Am_1)],
                                             [[3, 6, 5], [4, 5, -4], [1, 2, 3, 4], [-1, -2, 1, 6], [2, -3, -5]]) #(A)ud
-                                G += tensordot(O, Rus(m+2), [[-1, -2], [0, 1]])
+                                G += tensordot(O, Rus(m+2), [[-2, -1], [0, 1]])
 
                         elif m==i-1:
                             if j==i:
-- 
2.43.0


From f500cc2bc87b1de2d609c248a04e18433c4806ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 32/92] fix: jac and import_tangent_vector for sites without
 tangent directions anywhere in the chain

---
 xmps/fMPS.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ec4875d..8817bcc 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1341,8 +1341,8 @@ class fMPS(object):
         def F2(i, k): return -1j*self.F2(i, k, H, envs=(l, r), inv_envs=inv_envs, prs_vLs=prs_vLs, id=id)
 
         sh = self.tangent_space_dims(l, vLs=vLs)
-        nulls = len([1 for (a, b) in sh if a==0 or b==0])
-        shapes = list(cs([prod([a, b]) for (a, b) in sh if a!=0 and a!=0]))
+        sites = [n for n, (a, b) in enumerate(sh) if a!=0 and b!=0] # sites with tangent directions
+        shapes = list(cs([prod(sh[n]) for n in sites]))
         DD = shapes[-1]
         def ind(i):
             slices = [slice(a[0], a[1], 1)
@@ -1354,7 +1354,7 @@ class fMPS(object):
         Γ2_ = -1j*zeros((DD, DD))
         for i_ in range(len(shapes)):
             for j_ in range(len(shapes)):
-                i, j = i_+nulls, j_+nulls
+                i, j = sites[i_], sites[j_]
 
                 J1_ij = F1(i,j)
                 J2_ij = F2(i, j)
@@ -2023,12 +2023,12 @@ class fMPS(object):
         vLs, shapes = self.tangent_space_dims(l, get_vLs=True)
         vLs = [vL for vL in vLs if prod(vL.shape)!=0]
         S = [shape for shape in shapes if prod(shape)!=0]
-        nulls = len([shape for shape in shapes if prod(shape)==0])
+        sites = [n for n, shape in enumerate(shapes) if prod(shape)!=0]
         vs = chop(v, cs([prod(s) for s in S]))
         xs = [x.reshape(*shape) for x, shape in zip(vs, S)]
-        l_, r_ = lambda n: l(n+nulls), lambda n: r(n+nulls)
-        Bs = [zl(A) for A in self.data[:nulls]] + \
-             [inv(ch(l_(n-1)))@vL@x@inv(ch(r_(n))) for n, (vL, x) in enumerate(zip(vLs, xs))]
+        Bs = [zl(A) for A in self.data]
+        for n, vL, x in zip(sites, vLs, xs):
+            Bs[n] = inv(ch(l(n-1)))@vL@x@inv(ch(r(n)))
         return fMPS(Bs)
 
 def fs(X):
-- 
2.43.0


From 91d85a7ce5166e4d6086504ce6a6a9e127217b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 33/92] fix: memo keys of F1, F2 and christoffel collided for
 chains of 12 or more sites

---
 xmps/fMPS.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 8817bcc..3e3c35a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1397,12 +1397,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F1_tot_ij_mem:
-                return self.F1_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F1_tot_ij_mem:
+                return self.F1_tot_ij_mem[(i_, j_)]
 
             ## have we cached its conjugate?
-            if str(j_)+str(i_) in self.F1_tot_ij_mem:
-                return c(tra(self.F1_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F1_tot_ij_mem:
+                return c(tra(self.F1_tot_ij_mem[(j_, i_)],
                                 [2, 3, 0, 1]))
 
         L, d, A = self.L, self.d, self.data
@@ -1644,7 +1644,7 @@ class fMPS(object):
             return G
 
         G_ = c(tra(G_, [2, 3, 0, 1])) if j_<i_ else G_
-        self.F1_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F1_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def F2(self, i_, j_, H, envs=None, inv_envs=None, prs_vLs=None, fullH=False, testing=False, id=None):
@@ -1661,12 +1661,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F2_tot_ij_mem:
-                return self.F2_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F2_tot_ij_mem:
+                return self.F2_tot_ij_mem[(i_, j_)]
 
             # have we cached its transpose?
-            if str(j_)+str(i_) in self.F2_tot_ij_mem:
-                return tra(self.F2_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F2_tot_ij_mem:
+                return tra(self.F2_tot_ij_mem[(j_, i_)],
                            [2, 3, 0, 1])
 
         L, d, A = self.L, self.d, self.data
@@ -1704,13 +1704,13 @@ class fMPS(object):
 
             d, Din_1, Di = self[i].shape
             if not d*Din_1==Di:
-                if str(i)+str(j) not in self.F2_ij_mem:
+                if (i, j) not in self.F2_ij_mem:
                     # new stuff
                     Rj_ = ncon([inv_ch_l(j-1)@c(vL(j)), A[j]@ch_r(j)], [[1, -2, -3], [1, -1, -4]])
                     Rjs_ = self.left_transfer(Rj_, i, j)
-                    self.F2_ij_mem_[str(i)+str(j)] = Rjs_
+                    self.F2_ij_mem_[(i, j)] = Rjs_
                 else:
-                    Rjs_ = self.F2_ij_mem_[str(i)+str(j)]
+                    Rjs_ = self.F2_ij_mem_[(i, j)]
 
                 if str(i) not in self.F2_i_mem:
                     # new stuff
@@ -1808,7 +1808,7 @@ class fMPS(object):
             return G
 
         G_ = tra(G_, [2, 3, 0, 1]) if j_<i_ else G_
-        self.F2_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F2_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def christoffel(self, i, j, k, envs=None, prs_vLs=None, id=None, testing=True, closed=(None, None, None)):
@@ -1825,12 +1825,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i)+str(j)+str(k) in self.christ_tot_ij_mem:
-                return self.christ_tot_ij_mem[str(i)+str(j)+str(k)]
+            if (i, j, k) in self.christ_tot_ij_mem:
+                return self.christ_tot_ij_mem[(i, j, k)]
 
             ## have we cached its conjugate?
-            if str(j)+str(i)+str(k) in self.christ_tot_ij_mem:
-                return tra(self.christ_tot_ij_mem[str(j)+str(i)+str(k)],
+            if (j, i, k) in self.christ_tot_ij_mem:
+                return tra(self.christ_tot_ij_mem[(j, i, k)],
                            [3, 4, 5, 0, 1, 2])
 
         L, d, A = self.L, self.d, self.data
@@ -1873,15 +1873,15 @@ class fMPS(object):
                     G = 1j*zeros((*A[i].shape, *A[j].shape, *A[k].shape))
             else:
                 if contracted:
-                    if str(i)+str(j) not in self.christ_ij_mem:
+                    if (i, j) not in self.christ_ij_mem:
                         if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
                             Rs = self.dA_cache[str(j)]
                         else:
                             R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
                             Rs = self.left_transfer(R, i, j)
-                            self.christ_ij_mem[str(i)+str(j)] = Rs
+                            self.christ_ij_mem[(i, j)] = Rs
                     else:
-                        Rs = self.christ_ij_mem[str(i)+str(j)]
+                        Rs = self.christ_ij_mem[(i, j)]
 
                     G = ncon([pr(i), closed[-1]@inv(r(i)), Rs(i+1), inv(r(i))], [[-1, -2, 1, 2], [1, 2, 3], [3, 4, -4, -5, -6], [4, -3]],
                              [1, 2, 3, 4])
@@ -1909,7 +1909,7 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[str(i)+str(j)+str(k)] = Γ_c
+        self.christ_tot_ij_mem[(i, j, k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
         else:
-- 
2.43.0


From 6004afbb92b74d11117bcb8c4c18e4da6bf33404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 34/92] fix: ddA_dt contracts tangent vectors with their metric

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 3e3c35a..a493752 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1264,8 +1264,8 @@ class fMPS(object):
         # down are the tensors acting on c(Aj), up act on Aj
         up, down = self.jac(H, False)
 
-        ddA = [sum([td(down(i, j), c(dA[j]), [[3, 4, 5], [0, 1, 2]]) +
-                    td(up(i, j),     dA[j],  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
+        ddA = [sum([td(down(i, j), c(l(j-1)@dA[j]@r(j)), [[3, 4, 5], [0, 1, 2]]) +
+                    td(up(i, j),     l(j-1)@dA[j]@r(j),  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
                for i in range(L)]
 
         return self.extract_tangent_vector(ddA)
-- 
2.43.0


From cf9279db895f182695a7c6a6ba84bcab243bf3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 35/92] fix: tangent_state without a given vL

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index a493752..dc30166 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1948,7 +1948,7 @@ class fMPS(object):
 
     def tangent_state(self, x, n, envs=None, vL=None):
         l , r = self.get_envs() if envs is None else envs
-        _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else 1, vL
+        _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else (None, vL)
         return fMPS([inv(ch(l(n-1)))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
 
     def tangent_space_dims(self, l=None, get_vLs=False, vLs=None):
-- 
2.43.0


From 156ec361ee31dc77e6fde1bdd2ad1b676a5b7d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 36/92] fix: christoffel does not reuse environments of an
 earlier state

---
 xmps/fMPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index dc30166..cfb8f3a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1335,7 +1335,7 @@ class fMPS(object):
 
         ## non unitary (from projection): -<d_id_kψ|(d_t |ψ> +iH|ψ>) (dA_k*) (should be zero for no projection)
         #-<d_id_kψ|d_jψ> dA_j/dt (dA_k*)
-        def Γ2(i, k): return self.christoffel(i, k, min(i, k), envs=(l, r), prs_vLs=prs_vLs, closed=(None, None, l(min(i, k)-1)@dA_dt[min(i, k)]@r(min(i, k))))
+        def Γ2(i, k): return self.christoffel(i, k, min(i, k), envs=(l, r), prs_vLs=prs_vLs, closed=(None, None, l(min(i, k)-1)@dA_dt[min(i, k)]@r(min(i, k))), dA_cache=self.dA_cache)
 
         #-i<d_id_k ψ|H|ψ> (dA_k*)
         def F2(i, k): return -1j*self.F2(i, k, H, envs=(l, r), inv_envs=inv_envs, prs_vLs=prs_vLs, id=id)
@@ -1811,7 +1811,7 @@ class fMPS(object):
         self.F2_tot_ij_mem[(i_, j_)] = G_
         return G_
 
-    def christoffel(self, i, j, k, envs=None, prs_vLs=None, id=None, testing=True, closed=(None, None, None)):
+    def christoffel(self, i, j, k, envs=None, prs_vLs=None, id=None, testing=True, closed=(None, None, None), dA_cache=None):
         """christoffel: return the christoffel symbol in basis c(A_i), c(A_j), A_k.
            Close indices i, j, k, with elements of closed tuple: i.e. (B_i, B_j, B_k).
            Will leave any indices marked none open :-<d_id_jψ|d_kψ>"""
@@ -1874,8 +1874,8 @@ class fMPS(object):
             else:
                 if contracted:
                     if (i, j) not in self.christ_ij_mem:
-                        if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
-                            Rs = self.dA_cache[str(j)]
+                        if dA_cache is not None and str(j) in dA_cache:
+                            Rs = dA_cache[str(j)]
                         else:
                             R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
                             Rs = self.left_transfer(R, i, j)
-- 
2.43.0


From 5cab52858a791a83598f1b4dafd305e28bb6a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 37/92] fix: right null projector uses the square root of the
 environment

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index cfb8f3a..5350b99 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1938,7 +1938,7 @@ class fMPS(object):
         if r is None:
             _, r = self.get_envs(store_envs)
         if vR is None:
-            R_ = sw(c(self[n])@r(n), 0, 1)
+            R_ = sw(c(self[n])@ch(r(n)), 0, 1)
             R = R_.reshape(-1, self.d*R_.shape[-1])
             vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
         pr = ncon([inv(ch(r(n))), vR, c(vR), inv(ch(r(n)))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
-- 
2.43.0


From cf27f3437a113b740681bffd3658643e6a5e0086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 38/92] fix: projection_error weights the discarded directions
 with the square roots of the environments

---
 xmps/fMPS.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 5350b99..3cc65c9 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1102,7 +1102,7 @@ class fMPS(object):
 
         H = [h.reshape(*[self.d]*4) for h in H]
         def G(m):
-            C = ncon([H[m]]+[l(m-1)@A[m], A[m+1]@r(m+1)], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
+            C = ncon([H[m]]+[ch(l(m-1))@A[m], A[m+1]@ch(r(m+1))], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
             return ncon([c(vL(m)), c(vR(m+1)), C], [[1, 3, -1], [2, -2, 4], [1, 2, 3, 4]])
 
         ε = 0
@@ -1111,17 +1111,12 @@ class fMPS(object):
             if d*Dm==Dm_1 or Dm_1==d*Dm_2:
                 continue
             def vL(n): return self.left_null_projector(n, l, True)[1]
-            U, s, V = tr_svd(G(m), d*D-D)
-
+            U, s, V = tr_svd(G(m), d*D)
             x, y = U@sqrt(s), sqrt(s)@V
-            dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
 
-            ε += re(tr(sum(cT(dA01)@l(m-1)@dA01, 0)@sum(dA10@r(m+1)@cT(dA10), 0)))
+            dA01, dA10 = sqrt(dt)*inv(ch(l(m-1)))@vL(m)@x, sqrt(dt)*y@vR(m+1)@inv(ch(r(m+1)))
 
-            ## left environments change as we move along the chain
-            # this is a hack because I used lambdas for the envs in vL etc.
-            ln = sum(cT(A[m])@l(m-1)@A[m], 0)
-            def l(n): return ln
+            ε += re(tr(sum(cT(dA01)@l(m-1)@dA01, 0)@sum(dA10@r(m+1)@cT(dA10), 0)))
         self.ε = ε # store last projection error on mps
         return ε
 
-- 
2.43.0


From 3d501d5cc096b369bd77493b62a7e4f425ef872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 39/92] fix: dynamical_expand follows the Schroedinger equation
 (Hamiltonian legs were exchanged, -i missing, interior sites evolved twice)

---
 xmps/fMPS.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 3cc65c9..604e6ab 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1142,32 +1142,41 @@ class fMPS(object):
         :param D_: new bond dimension
         :param threshold: by default will expand if no need to, else add threshold
         """
+        if threshold is not None:
+            if self.projection_error(H, dt) < threshold:
+                return self
+
         L, d, A, D = self.L, self.d, self.data, self.D
+        dA_dt = self.dA_dt(H)
+        l, r = self.l, self.r
+        def vL(n): return self.left_null_projector(n, l, True)[1]
         def vR(n): return self.right_null_projector(n, r, True)[1]
 
         H = [h.reshape(*[self.d]*4) for h in H]
         def G(m):
-            return ncon([l(m-1)@A[m], A[m+1]@r(m+1), H[m], c(vL(m)), c(vR(m+1))],
-                        [[2, 1, 4], [6, 4, 8], [3, 6, 2, 7], [3, 1, -1], [7, -2, 8]])
-
-        if threshold is not None:
-            if self.projection_error(H, dt) < threshold:
-                return self
-
-        for m, (Dm, Dm_1) in list(enumerate(self.structure()))[:-1]:
-            _, Dm_2 = self.structure()[m+1]
+            # part of -iH|psi> that leaves the manifold at bond m
+            return -1j*ncon([ch(l(m-1))@A[m], A[m+1]@ch(r(m+1)), H[m], c(vL(m)), c(vR(m+1))],
+                            [[2, 1, 4], [6, 4, 8], [3, 7, 2, 6], [3, 1, -1], [7, -2, 8]])
+
+        structure = self.structure()
+        dA01, dA10 = [None]*L, [None]*L
+        for m, (Dm, Dm_1) in list(enumerate(structure))[:-1]:
+            _, Dm_2 = structure[m+1]
             if d*Dm==Dm_1 or Dm_1==d*Dm_2:
                 continue
-            def vL(n): return self.left_null_projector(n, l, True)[1]
-            dA_dt = self.dA_dt(H)
-            l, r = self.l, self.r
 
             U, s, V = tr_svd(G(m), D_-D)
             x, y = U@sqrt(s), sqrt(s)@V
             self.xy = x, y
-            dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
-
-            A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
+            dA01[m], dA10[m+1] = sqrt(dt)*inv(ch(l(m-1)))@vL(m)@x, sqrt(dt)*y@vR(m+1)@inv(ch(r(m+1)))
+
+        for m in range(L):
+            B = A[m]+dt*dA_dt[m]
+            if dA01[m] is not None:
+                B = ct([B, dA01[m]], 2)
+            if dA10[m] is not None:
+                B = ct([B, ct([dA10[m], zeros((d, dA10[m].shape[1], B.shape[2]-dA10[m].shape[2]))], 2)], 1)
+            self[m] = B
 
         self.D = max([max(shape) for shape in self.structure()])
 
-- 
2.43.0


From 4c49137c85a9d537da1d947b5e40af2c34e9a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 40/92] fix: create_structure for a single site

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 604e6ab..df13ac8 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -463,8 +463,8 @@ class fMPS(object):
         if L % 2 == 0:
             structure = left + transpose(left[::-1])
         else:
-            structure = left + [(left[-1][-1], transpose(left[::-1])[0][0])] +\
-                        transpose(left[::-1])
+            centre = left[-1][-1] if left else 1
+            structure = left + [(centre, centre)] + transpose(left[::-1])
         if phys:
             return [(self.d, *st) for st in structure]
         else:
-- 
2.43.0


From db92b4efda757f933a3332b1bce79925bfe6a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 41/92] fix: finite TDVP derivative of states that are not in
 canonical form (rk4 was first order in dt); grow canonicalises between steps

---
 xmps/fMPS.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index df13ac8..e09df87 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -8,7 +8,7 @@ pyximport.install(setup_args={"include_dirs":np.get_include()},
 import unittest
 
 from numpy.random import rand, randint, randn
-from numpy.linalg import inv, norm, cholesky as ch, qr
+from numpy.linalg import inv, norm, eigh, qr, LinAlgError
 from numpy.linalg import eig, eigvalsh
 
 from numpy import array, concatenate, diag, dot, allclose, isclose, swapaxes as sw
@@ -64,6 +64,13 @@ SWAP = np.array([[1, 0, 0, 0],
 from .ncon import ncon as nc
 def ncon(*args, **kwargs): return nc(*args, check_indices=False, **kwargs) # make default ncon not check indices
 
+def ch(M):
+    """hermitian square root of a positive matrix"""
+    w, v = eigh(M)
+    if (w<=0).any():
+        raise LinAlgError('Matrix is not positive definite')
+    return (v*sqrt(w))@cT(v)
+
 def sympmat(N, dtype=np.float64):
     '''produce the symplectic matrix'''
     I = np.identity(N, dtype=dtype)
@@ -804,16 +811,21 @@ class fMPS(object):
     def get_envs(self, store_envs=False):
         """get_envs: return all envs (slow). indexing is a bit weird: l(-1) is |=
            returns: fns tuple of functions l, r"""
+        def clean(M):
+            # diagonal in canonical form: drop the rounding errors
+            D = diag(re(diag(M)))
+            return D if np.abs(M-D).max() <= 1e-14*np.abs(M).max() else (M+cT(M))/2
+
         def get_l(mps):
             ls = [array([[1]])]
             for n in range(len(mps)):
-                ls.append(diag(diag(sum(re(cT(mps[n]) @ ls[-1] @ mps[n]), axis=0))))
+                ls.append(clean(sum(cT(mps[n]) @ ls[-1] @ mps[n], axis=0)))
             return lambda n: ls[n+1]
 
         def get_r(mps):
             rs = [array([[1]])]
             for n in range(len(mps))[::-1]:
-                rs.append(diag(diag(sum(re(mps[n] @ rs[-1] @ cT(mps[n])), axis=0))))
+                rs.append(clean(sum(mps[n] @ rs[-1] @ cT(mps[n]), axis=0)))
             return lambda n: rs[::-1][n+1]
 
         if store_envs:
@@ -1188,7 +1200,12 @@ class fMPS(object):
         if D_ is None:
             return self
         while self.D<min(D_, (self.d**(self.L//2))):
-            self.dynamical_expand(H, dt, min(self.d*self.D, D_), None)
+            D = self.D
+            self.dynamical_expand(H, dt, min(self.d*D, D_), None).left_canonicalise()
+            self.D = max([max(shape) for shape in self.structure()])
+            if self.D <= D:
+                # nothing leaves the manifold
+                break
         return self
 
     def dA_dt(self, H, store_energy=False, fullH=False, prs_vLs=None):
@@ -1227,15 +1244,15 @@ class fMPS(object):
 
                     Am, Am_1 = self.data[m:m+2]
                     C = ncon([h]+[Am, Am_1], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-                    K = ncon([l(m-1)@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
-                    e.append(trace(K@r(m+1)))
+                    K = ncon([c(l(m-1))@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+                    e.append(trace(K@c(r(m+1))))
                     #C -= trace(K@r(m+1))
                     #K -= trace(K@r(m+1))
 
                     if m==i:
-                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), inv(r(m))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), c(inv(r(m)))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
                     if m==i-1:
-                        B += -1j *ncon([l(m-1)@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+                        B += -1j *ncon([c(l(m-1))@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
                     if m < i-1:
                         B += -1j *ncon([K, Rs(m+2)], [[1, 2], [1, 2, -1, -2, -3]])
                 self.e = e
@@ -1942,10 +1959,10 @@ class fMPS(object):
         if r is None:
             _, r = self.get_envs(store_envs)
         if vR is None:
-            R_ = sw(c(self[n])@ch(r(n)), 0, 1)
+            R_ = sw(c(self[n]@ch(r(n))), 0, 1)
             R = R_.reshape(-1, self.d*R_.shape[-1])
             vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
-        pr = ncon([inv(ch(r(n))), vR, c(vR), inv(ch(r(n)))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
+        pr = ncon([inv(ch(r(n))), vR, c(vR), inv(ch(r(n)))], [[2, -2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
         if get_vR:
             return pr, vR
         return pr
-- 
2.43.0


From 007af60d75ed4f087fd7a8e51b593c21e506273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 42/92] fix: null projectors for environments that are not
 diagonal

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e09df87..4e67256 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1950,7 +1950,7 @@ class fMPS(object):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        pr = ncon([inv(ch(l(n-1)))@vL, c(inv(ch(l(n-1)))@vL)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
@@ -2200,7 +2200,7 @@ class fTFD(fMPS):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        pr = ncon([inv(ch(l(n-1)))@vL, c(inv(ch(l(n-1)))@vL)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
-- 
2.43.0


From b813526d055514660a4cfdbf0b101b4a04834051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 43/92] fix: Trajectory.odeint (solve_ivp was not imported,
 fixed minimal step, history not a list)

---
 xmps/fTDVP.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c804f38..c425f6b 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -33,6 +33,7 @@ import numpy as np
 
 from scipy.linalg import sqrtm, expm, norm, null_space as null, cholesky as ch
 from scipy.sparse.linalg import expm_multiply, expm
+from scipy.integrate import solve_ivp
 
 from matplotlib import pyplot as plt
 from functools import reduce
@@ -194,7 +195,6 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
         bar = tqdm()
-        m = 0
 
         def f(t, v):
             """f_odeint: f acting on real vector
@@ -203,25 +203,18 @@ class Trajectory(object):
             :param t: Time
             """
             bar.update()
-            nonlocal m
-            m += 1
-            if m == 4:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .left_canonicalise()\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
-            else:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
+            return fMPS().deserialize(v, L, d, D, real=True)\
+                .dA_dt(H, fullH=self.fullH)\
+                .serialize(real=True)
 
         v = mps.serialize(real=True)
         Q = solve_ivp(f, (T[0], T[-1]), v, method='LSODA', t_eval=T,
-                      max_step=T[1]-T[0], min_step=T[1]-T[0])
+                      max_step=T[1]-T[0])
         traj = Q.y.T
         bar.close()
 
-        self.mps_history = traj
+        self.mps_history = list(traj)
+        self.Ds = [D]*(len(traj)+1)
         self.mps = fMPS().deserialize(traj[-1], L, d, D, real=True)
         return self
 
-- 
2.43.0


From d0da216f4cfc5343bc12ef417a1dcede9b877dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 44/92] fix: loschmidt of an exact run returned Schmidt values

---
 xmps/fTDVP.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c425f6b..6adb7d5 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -535,21 +535,10 @@ class Trajectory(object):
 
     def loschmidt(self):
         if hasattr(self, 'ed_history'):
-            sch = []
-            mpss = []
-            print('calculating mps from ed...')
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(x.reshape([self.mps.d]*self.mps.L))
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
+            return [np.abs(c(self.ed_history[0])@psi) for psi in self.ed_history]
         else:
-            assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
-            psi_0 = fMPS().deserialize(self.mps_history[0], L, d, D, real=True)
-            lss = []
-            for psi in map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history):
-                lss.append(np.abs(psi_0.overlap(psi)))
-            return lss
+            psis = self.mps_list()
+            return [np.abs(psis[0].overlap(psi)) for psi in psis]
 
     def von_neumann(self, i=None):
         sch = array(self.schmidts())
-- 
2.43.0


From bdf167155b15da91d332b8479dc3c63a60bc1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 45/92] fix: mps_list and mps_evs of an exact run returned a
 single time

---
 xmps/fTDVP.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 6adb7d5..be784b4 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -477,22 +477,25 @@ class Trajectory(object):
 
         return Ws
 
+    def history_from_ed(self):
+        self.Ds = []
+        for x in tqdm(self.ed_history):
+            mps = fMPS().left_from_state(
+                x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
+            self.mps_history.append(mps.serialize(real=True))
+            self.Ds.append(mps.D)
+        self.Ds.append(self.mps.D)
+
     def mps_list(self):
         if hasattr(self, 'ed_history') and not self.mps_history:
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
+            self.history_from_ed()
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
 
     def mps_evs(self, ops, site):
         if hasattr(self, 'ed_history') and not self.mps_history:
-            for x in self.ed_history:
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
+            self.history_from_ed()
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return array([mps.Es(ops, site)
-- 
2.43.0


From cab167d78eabea1ded92b4005c64bc1ab4c9fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 46/92] fix: Trajectory.deserialize after a change of bond
 dimension

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index be784b4..6873b8f 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -516,7 +516,7 @@ class Trajectory(object):
 
     def deserialize(self):
         L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return list(map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history))
+        return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
 
     def schmidts(self):
         if hasattr(self, 'ed_history'):
-- 
2.43.0


From 99fa2388f66e826d4c27a56a48a5a8d43479679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 47/92] fix: von_neumann and renyi: ragged Schmidt spectra,
 vanishing Schmidt values

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 6873b8f..1ef8e8f 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -544,12 +544,12 @@ class Trajectory(object):
             return [np.abs(psis[0].overlap(psi)) for psi in psis]
 
     def von_neumann(self, i=None):
-        sch = array(self.schmidts())
+        sch = [[s[s > 0] for s in S] for S in self.schmidts()]
         S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
         return S_max
 
     def renyi(self, α=2):
-        sch = array(self.schmidts())
+        sch = [[s[s > 0] for s in S] for S in self.schmidts()]
         R = array([max([1/(1-α)*log(sum(s**α)) for s in S]) for S in sch])
         return R
 
-- 
2.43.0


From a9881555dcb73f24e9cfc250b54f668a7fc07a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 48/92] fix: clear forgets every result of the earlier run

---
 xmps/fTDVP.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 1ef8e8f..c78a7b0 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -560,8 +560,10 @@ class Trajectory(object):
     def clear(self):
         self.mps_history = []
         self.mps = self.mps_0.copy()
-        if hasattr(self, 'lys'):
-            delattr(self, 'lys')
+        self.Ds = [self.mps.D]
+        for result in ['ed_history', 'psi', 'lys', 'lys_', 'exps', 'exps_', 'Q', 'q', 'vL', 'vs']:
+            if hasattr(self, result):
+                delattr(self, result)
 
     def save(self, loc='data/', exps=True, clear=True):
         assert self.mps_history
-- 
2.43.0


From f9c3fa7e275bda764e0f1ba71d511e6f4e9448ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 49/92] fix: save stores the state under loc

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c78a7b0..3cea1cf 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -575,7 +575,7 @@ class Trajectory(object):
         if exps:
             if hasattr(self, 'q'):
                 save(loc+'bases/'+self.id+'_basis', self.q)
-                self.mps.store('loc'+'bases/'+self.id+'_state')
+                self.mps.store(loc+'bases/'+self.id+'_state')
             elif hasattr(self, 'Q'):
                 save(loc+'bases/'+self.id+'_basis', self.Q)
                 self.mps.store(loc+'bases/'+self.id+'_state')
-- 
2.43.0


From 3183284e7259a6749a7272bae910618db0fca37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 50/92] fix: contract and dynamical_expand record the bond
 dimension reached; dynamical_expand uses the Hamiltonian given

---
 xmps/fTDVP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 3cea1cf..1d8883f 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -175,13 +175,13 @@ class Trajectory(object):
         assert self.H is not None or H is not None
         H = self.H if H is None and self.H is not None else H
 
-        self.mps.dynamical_expand(self.H, dt, D, None)
-        self.Ds[-1] = D
+        self.mps.dynamical_expand(H, dt, D, None)
+        self.Ds[-1] = self.mps.D
         return self
 
     def contract(self, D):
         self.mps.left_canonicalise(D)
-        self.Ds[-1] = D
+        self.Ds[-1] = self.mps.D
         return self
 
     def odeint(self, T):
-- 
2.43.0


From 50465bbc3d22abfc2a040705957a39b9c33b2be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:38 +0000
Subject: [PATCH 51/92] fix: a copied Trajectory shares nothing with the
 original

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 1d8883f..6e8a61b 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -632,4 +632,4 @@ class Trajectory(object):
             glob.glob(os.path.join(self.run_dir, '*state*')))
 
     def copy(self):
-        return copy(self)
+        return deepcopy(self)
-- 
2.43.0


From 4cb6911eed06d5a5f99d73e209635a045a4815e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:38 +0000
Subject: [PATCH 52/92] fix: exact evolution of a Trajectory for local
 dimensions other than 2

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 6e8a61b..d837ca8 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -223,7 +223,7 @@ class Trajectory(object):
         """
         H = self.H
         psi_0 = self.mps.recombine().reshape(-1)
-        H = sum([n_body(a, i, len(H), d=2)
+        H = sum([n_body(a, i, len(H), d=self.mps.d)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         psi_n = psi_0
         self.ed_history = [psi_0]
@@ -510,7 +510,7 @@ class Trajectory(object):
         assert self.H is not None
         assert hasattr(self, 'ed_history')
         H = self.H
-        H = sum([n_body(a, i, len(H), d=2)
+        H = sum([n_body(a, i, len(H), d=self.mps.d)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         return self.ed_evs([H])
 
-- 
2.43.0


From d5c30d3686d4d55f4e0c10fb517c08a93701fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 53/92] fix: states of an exact run with vanishing Schmidt
 values

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index d837ca8..136702c 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -481,7 +481,7 @@ class Trajectory(object):
         self.Ds = []
         for x in tqdm(self.ed_history):
             mps = fMPS().left_from_state(
-                x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
+                x.reshape([self.mps.d]*self.mps.L)).left_canonicalise(minD=False)
             self.mps_history.append(mps.serialize(real=True))
             self.Ds.append(mps.D)
         self.Ds.append(self.mps.D)
-- 
2.43.0


From 9f85cf0c62995576a81b7f945db666ca45d5f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 54/92] fix: lanczos_expm without expokit passed the time as
 the start of an interval

---
 xmps/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index e2f867a..715147a 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -31,7 +31,7 @@ try:
         return output_vec
 except:
     def lanczos_expm(A, v, t):
-        return expm_multiply(A, v, t)
+        return expm_multiply(t*A, v)
 
 def embed(v):
     '''put matrix in form
-- 
2.43.0


From 04e41bfa1c9065406d5131ccc93881bff79c01a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 55/92] fix: uqr and urq of matrices with zeros on the diagonal
 of r

---
 xmps/tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 715147a..8b1ec27 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -7,7 +7,7 @@ from numpy.linalg import eig as neig, eigh, eigvals, inv
 from numpy import swapaxes, count_nonzero, diag, insert, pad, dot, argmax, sqrt
 from numpy import allclose, array, tensordot, transpose, all, identity, squeeze
 from numpy import isclose, mean, sign, kron, zeros, conj, max, concatenate, eye
-from numpy import block, real, imag
+from numpy import block, real, imag, where
 import numpy as np
 from itertools import product
 import scipy as sp
@@ -60,14 +60,14 @@ def deembed(u):
 def uqr(A):
     '''Unique qr decomposition'''
     q, r = qr(A, mode='economic')
-    O = diag(sign(diag(r)))
+    O = diag(where(real(diag(r)) < 0, -1, 1))
     return q@O, O@r
 
 def urq(A):
     '''Unique rq decomposition'''
     r, q = rq(A, mode='economic')
     q_, r_ = qr(A, mode='economic')
-    O = diag(sign(diag(r)))
+    O = diag(where(real(diag(r)) < 0, -1, 1))
     return r@O, O@q
 
 def eye_like(A):
-- 
2.43.0


From 0d4760742575cb7b7b600aca1e29f052b9286828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 56/92] fix: direct_sum of rectangular matrices

---
 xmps/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 8b1ec27..22005a2 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -77,8 +77,7 @@ def eye_like(A):
 
 def direct_sum(A, B):
     (a1, a2), (b1, b2) = A.shape, B.shape
-    O = zeros((a2, b1))
-    return block([[A, O], [O.T, B]])
+    return block([[A, zeros((a1, b2))], [zeros((b1, a2)), B]])
     
 def haar_unitary(n):
     return qr(randn(n, n)+1j*randn(n, n))[0]
-- 
2.43.0


From 096ea605bb7ac3f9fe7f49653f6c492a680f7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 57/92] fix: haar_unitary is Haar distributed (phases of the
 diagonal of r)

---
 xmps/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 22005a2..fed664e 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -80,7 +80,8 @@ def direct_sum(A, B):
     return block([[A, zeros((a1, b2))], [zeros((b1, a2)), B]])
     
 def haar_unitary(n):
-    return qr(randn(n, n)+1j*randn(n, n))[0]
+    q, r = qr(randn(n, n)+1j*randn(n, n))
+    return q*(diag(r)/abs(diag(r)))
 
 def unitary_extension(Q, D=None):
     '''extend an isometry to a unitary (doesn't check its an isometry)'''
-- 
2.43.0


From d680aa2b410e8f5d30f4f35555aaf5b8c02b8ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 58/92] fix: l_eigenmatrix returns the eigenvalue of its
 eigenmatrix, not its conjugate

---
 xmps/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index fed664e..cc78632 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -293,7 +293,7 @@ def l_eigenmatrix(M):
     # e_max_, v_max_ = e[argmax(abs(e))], v[:, argmax(abs(e))].reshape(K, K)  # maxima
 
     e, v = arnoldi(M.conj().T, k=1, which='LM')
-    e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(v[0])
+    e_max, v_max = squeeze(e).conj(), rotate_to_hermitian(v.reshape(K, K))/sign(v[0])
 
     return e_max, v_max.conj()
 
-- 
2.43.0


From 9c1d638b1fca858815941023efbd5361df818c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 59/92] fix: loc_3 keeps the order of its factors, split_up_3
 uses the dimension given

---
 xmps/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index cc78632..0251b35 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -409,7 +409,7 @@ def loc_3(rs, tu, vw, d):
     v, w = vw
     t, u  = tu
 
-    index = (d**2*r + d*v+t, d**2*s + d*w + u)
+    index = (d**2*r + d*t+v, d**2*s + d*u + w)
     return index
 
 def split_up_3(H, d):
@@ -420,7 +420,7 @@ def split_up_3(H, d):
                 for l in range(d):
                     for m in range(d):
                         for n in range(d):
-                            h[i, j, k, l, m, n] = H[loc_3((i, j), (k, l), (m, n), 2)]
+                            h[i, j, k, l, m, n] = H[loc_3((i, j), (k, l), (m, n), d)]
     return h
 
 def split_up(H, d=None, p=None, q=None):
-- 
2.43.0


From 82f140a6e98b5879d844e01d0958bcc212c27dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 60/92] fix: split_up for factors of different dimensions

---
 xmps/tensor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 0251b35..0f6dec6 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -430,11 +430,10 @@ def split_up(H, d=None, p=None, q=None):
     :param H:
     :param d:
     """
-    if d is not None:
-        p = q = d
     if d is None:
-        if p is None and q is None:
-            raise Exception
+        raise Exception
+    p = d if p is None else p
+    q = d if q is None else q
 
     h = zeros((d, d, p, q)) + 1j*zeros((d, d, p, q))
     for i in range(d):
-- 
2.43.0


From e774c087c8a93822c2b927988ba87dec67655ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 61/92] fix: AKLT() is the AKLT state

---
 xmps/mps_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/mps_examples.py b/xmps/mps_examples.py
index 2ecc274..c39f41b 100644
--- a/xmps/mps_examples.py
+++ b/xmps/mps_examples.py
@@ -136,7 +136,7 @@ def AKLT():
     sp, sm = ladders(0.5)
     
     Ap = sqrt(2/3)*sp
-    A0 = -sqrt(1/2)*sz
+    A0 = -sqrt(4/3)*sz
     Am= -sqrt(2/3)*sm
     return iMPS([stack([Ap, A0, Am], 0)])
 
-- 
2.43.0


From e497511defb94686cdc70efb87fbd26ae212a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 62/92] fix: product states as infinite MPS (eigs needs more
 than one dimension)

---
 xmps/iMPS.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 1075659..4b564c0 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -8,13 +8,13 @@ from numpy import trace as tr, reshape, real, imag, concatenate
 from numpy import real as re, imag as im, copy, swapaxes as sw
 from numpy import all, eye, isclose, reshape, swapaxes, trace as tr
 from numpy import concatenate, array, stack, sum, identity, zeros, abs 
-from numpy import sqrt, real_if_close, around, prod, sign, newaxis
+from numpy import sqrt, real_if_close, around, prod, sign, newaxis, ones
 from numpy import concatenate as ct, split as chop, save, load
 
 from numpy.linalg import cholesky, eigvals, svd, inv, norm
 from numpy.linalg import inv, cholesky as ch
 
-from scipy.sparse.linalg import LinearOperator, eigs as arnoldi
+from scipy.sparse.linalg import LinearOperator, eigs
 from scipy.linalg import svd as svd_s, cholesky as cholesky_s
 from scipy.linalg import null_space as null
 from scipy.optimize import root
@@ -33,6 +33,12 @@ from .spin import spins
 Sx, Sy, Sz = spins(0.5)
 import numpy as np
 
+def arnoldi(A, **kwargs):
+    """eigs, also for the 1x1 transfer matrices of product states"""
+    if A.shape == (1, 1):
+        return (A@ones(1)).reshape(1)+0j, ones((1, 1))+0j
+    return eigs(A, **kwargs)
+
 class Map(object):
     """Map: transfer matrix with A and B"""
 
-- 
2.43.0


From afd7d7ab93eb2adf1060df976c35df13cfe1f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 63/92] fix: right null projector of an iMPS (get_vR undefined,
 square root of the environment)

---
 xmps/iMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 4b564c0..2bf3124 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -652,12 +652,12 @@ class iMPS(object):
             return pr, vL
         return pr
 
-    def right_null_projector(self, get_vL=False):
+    def right_null_projector(self, get_vR=False):
         _, _, r = self.eigs()
-        R_ = sw(c(self[0])@r, 0, 1)
+        R_ = sw(c(self[0]@ch(r)), 0, 1)
         R = R_.reshape(-1, self.d*R_.shape[-1])
         vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
-        pr = ncon([inv(ch(r)), vR, c(vR), inv(ch(r))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
+        pr = ncon([vR@inv(ch(r)), c(vR@inv(ch(r)))], [[-1, 1, -2], [-3, 1, -4]])
         self.vR = vR
         if get_vR:
             return pr, vR
-- 
2.43.0


From e971bb1df588848f8062a38fcb1c32bc75106dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 64/92] fix: thermofield doubles evolve with the Hamiltonian on
 both copies, site by site

---
 xmps/fMPS.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 4e67256..705a204 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2206,8 +2206,15 @@ class fTFD(fMPS):
         return pr
 
     def dA_dt(self, H, fullH=False):
-        H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
+        d = int(sqrt(self.d))
+        def double(h):
+            # act on both copies, with the legs of the two copies of a site next to each other
+            n = int(round(np.log(len(h))/np.log(d))) if d > 1 else self.L
+            legs = [j*n+i for i in range(n) for j in range(2)]
+            h_ = (kron(eye(len(h)), h)+kron(h, eye(len(h)))).reshape([d]*4*n)
+            return tra(h_, legs+[2*n+leg for leg in legs]).reshape(d**(2*n), d**(2*n))
+        H_ = double(H) if fullH else [double(h) for h in H]
+        dA_dt = super().dA_dt(H_, fullH=fullH)
         return dA_dt
 
     def E(self, op, site, lr=0):
-- 
2.43.0


From 066ac3aa44bbc636086bf5079d0b82ea54d0517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 65/92] fix: local overlap of a thermofield double with an fMPS

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 705a204..e1996bf 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2153,14 +2153,14 @@ class fTFD(fMPS):
         partition should be contiguous
         should be local overlap with fMPS (NOT fTFD)
         """
-        if not isinstance(other, 'fMPS'):
+        if not isinstance(other, fMPS):
             raise NotImplementedError('other should be an fMPS, set double to get the overlap with the embedded fTFD')
         if not other.bond_dimension == 1:
             raise NotImplementedError('Only implemented local overlaps for <ψψ|data>')
         if double:
             return self.E_k([np.kron(ρ, ρ) for ρ in other.rho(sites)], sites, single_string=True)
         else:
-            return self.E_k([np.kron(np.eye(2), ρ) for ρ in other.rho(sites)], sites, single_string=True)
+            return self.E_k([np.kron(np.eye(len(ρ)), ρ) for ρ in other.rho(sites)], sites, single_string=True)
 
 
     def symmetry(self):
-- 
2.43.0


From 231fbf5c79bda38ee6a7b54af926493135369152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 66/92] fix: width and height of a PEPS made from its tensors

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index c629764..9fda194 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -256,8 +256,8 @@ class fPEPS(object):
 
     def __init__(self, data=None, d=None, X=None):
         if data is not None:
-            self.Lx = len(data)
-            self.Ly = len(data[0])
+            self.Lx = len(data[0])
+            self.Ly = len(data)
             if d is not None:
                 self.d = d
             else:
-- 
2.43.0


From 02805f819763ceda746bd10a95409551aa32981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 67/92] fix: truncation of PEPS bonds looks at the right side
 of the lattice

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 9fda194..7ce3834 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -421,7 +421,7 @@ class fPEPS(object):
 
     def truncate_below(self, row, D):
         '''truncate bonds below row to size D'''
-        if row == self.Lx-1:
+        if row == self.Ly-1:
             raise Exception('nothing below row L-1')
         self.data[row] = [x[:, :, :, :D, :] for x in self.data[row]]
         self.data[row+1] = [x[:, :D, :, :, :] for x in self.data[row+1]]
@@ -430,7 +430,7 @@ class fPEPS(object):
     def truncate_left(self, col, D):
         if col == 0:
             raise Exception('nothing to the left of col 0')
-        for row in range(self.Lx):
+        for row in range(self.Ly):
             self.data[row][col] = self.data[row][col][:, :, :, :, :D]
             self.data[row][col-1] = self.data[row][col-1][:, :, :D, :, :]
         return self
-- 
2.43.0


From d9d91cd341adadddbc9c73b13eadd22ad608bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 68/92] fix: column transfer operators of two different PEPS

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 7ce3834..2f955cc 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -364,7 +364,7 @@ class fPEPS(object):
             for row, other_row in zip(self.data, other.data)]
 
     def col_mpos(self, other=None):
-        return self.T.row_mpos(None)
+        return self.T.row_mpos(None if other is None else other.T)
 
     @property
     def T(self):
-- 
2.43.0


From d85d92f85ecc7225fd1ccd61ea3dfd716aecfa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 69/92] fix: expectation values on blocks of a PEPS take their
 sites in reading order

---
 xmps/fPEPS.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 2f955cc..48c8065 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -307,10 +307,10 @@ class fPEPS(object):
             raise NotImplementedError('only implemented for D=1')
         assert self.bond_dimension==1
         (x, y), (width, height) = sites
-        rhos = np.zeros((width, height, self.d, self.d))*1j
+        rhos = np.zeros((height, width, self.d, self.d))*1j
         for i, j in product(range(width), range(height)):
-            dd = np.squeeze(self.data[y+j][x+i])
-            rhos[i, j] = np.outer(dd, dd.conj())
+            dd = self.data[y+j][x+i].reshape(-1)
+            rhos[j, i] = np.outer(dd, dd.conj())
         return rhos
 
     def rho_proj(self, other, sites, single_string=True):
@@ -323,11 +323,11 @@ class fPEPS(object):
             raise NotImplementedError('only implemented for D=1')
         assert self.bond_dimension==1
         (x, y), (width, height) = sites
-        rhos = np.zeros((width, height, self.d, self.d))*1j
+        rhos = np.zeros((height, width, self.d, self.d))*1j
         for i, j in product(range(width), range(height)):
-            dd = np.squeeze(self.data[y+j][x+i])
-            ddother = np.squeeze(other.data[y+j][x+i])
-            rhos[i, j] = np.outer(dd, ddother.conj())
+            dd = self.data[y+j][x+i].reshape(-1)
+            ddother = other.data[y+j][x+i].reshape(-1)
+            rhos[j, i] = np.outer(dd, ddother.conj())
         return rhos
 
     def from_state(self, state):
@@ -346,7 +346,7 @@ class fPEPS(object):
         '''sites as a pair, coords_of_top_left, width_height,
             contracts rows of peps that sites covers'''
         (x, y), (width, height) = sites
-        E = self.row_contract(y, y+height).col_contract(x, x+width)
+        E = self.col_contract(x, x+width).row_contract(y, y+height)
         return E
 
     def E_k(self, op, sites):
-- 
2.43.0


From a5739bfdca96f8cea8f9419aa0ac0113d6a19e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 70/92] fix: matrix product operators on one site, length of
 trivial ones

---
 xmps/fPEPS.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 48c8065..69a3226 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -214,13 +214,15 @@ class fMPO(object):
             2
 
         """
+        if L == 1:
+            return [(d, 1, d, 1)]
         return [(d, X, d, 1)]+[(d, X, d, X) for _ in range(L-2)] + [(d, 1, d, X)]
 
     def structure(self):
         return [x.shape for x in self.data]
 
     def __str__(self):
-        return str(self.structure)
+        return str(self.structure())
 
     def random(self, L, d, X):
         self.L, self.d, self.X = L, d, X
@@ -231,6 +233,7 @@ class fMPO(object):
     def trivial(self, L):
         self.data = [np.ones(shape)
                      for shape in self.create_structure(L, 1, 1)]
+        self.L = L
         self.d = 1
         self.X = 1
         return self
@@ -245,7 +248,7 @@ class fMPO(object):
     def recombine(self):
         ncon_indices = [[-1, 1, -self.L-1, self.L+1]]+[[-n-2, n+2, -self.L-2-n, n+1]
                                                        for n in range(self.L-2)] + [[-self.L, self.L+1, -2*self.L, self.L-1]]
-        M = ncon(self.data, ncon_indices)
+        M = ncon(self.data, ncon_indices if self.L > 1 else [[-1, 1, -2, 1]])
         M = M.reshape(np.prod(M.shape[:self.L]), np.prod(M.shape[self.L:]))
         return M.conj().T
 
-- 
2.43.0


From 565ab68a9da944a3685035db9524bf70de48f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 71/92] fix: PEPS from an MPS checks the height of the lattice,
 and may be one column wide

---
 xmps/fPEPS.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 69a3226..458853b 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -581,7 +581,7 @@ class fPEPS(object):
             Ly = Lx = int(Lx)
         else:
             Ly = mps.L/Lx
-            assert np.allclose(int(Lx), Lx)
+            assert np.allclose(int(Lx), Lx) and np.allclose(int(Ly), Ly)
             Ly = int(Ly)
             Lx = int(Lx)
 
@@ -595,7 +595,11 @@ class fPEPS(object):
         for i in range(Lx):
             for j in range(Ly):
                 d, X1, X2 = reshaped[j][i].shape
-                if j % 2 == 0:
+                if Lx == 1:
+                    # going down
+                    reshaped[j][i] = reshaped[j][i].reshape(
+                        d, X1, 1, X2, 1)
+                elif j % 2 == 0:
                     # going right
                     if i == Lx-1:
                         reshaped[j][i] = T(reshaped[j][i]).reshape(
-- 
2.43.0


From 67e5fba75f8aef91e66cdf1a7ed6300fd23c1781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 72/92] fix: fPEPS.tm called an undefined function

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 458853b..a456732 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -715,8 +715,8 @@ class fPEPS(object):
 
     def tm(self, site):
         i, j = site
-        A = B = self.data[i][j]
-        return transfer_matrix(A)
+        A = self.data[i][j]
+        return transfer_tensor(A)
 
     def apply(self, op, site):
         # indices go (across, down) from top left
-- 
2.43.0


From 3faa563e15d71528d7067afea7f4a436c94f906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 73/92] fix: disentangler moved to the adjoint of the unitary
 that lowers the entropy

---
 xmps/peps_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/peps_tools.py b/xmps/peps_tools.py
index 5c09efa..3b7fc5d 100644
--- a/xmps/peps_tools.py
+++ b/xmps/peps_tools.py
@@ -104,8 +104,8 @@ def renyi_2_disentangler(psi, eps=1e-6, max_iter=1000):
     stop=False
     while not stop:
         while m < max_iter and go:
-            Unew, _ = polar(E2(U.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2))
-            Unew, _ = polar(E2(Unew.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2)) # with only one iteration S oscillates. v. weird
+            # tr(U E2) is largest for the adjoint of the unitary factor of E2
+            Unew = polar(E2(U.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2))[0].conj().T
 
             S = renyi(Unew.reshape(d1, d2, d1, d2), psi)
             Ss.append(S)
-- 
2.43.0


From e422dc61a68a0b297fe220a84429803e3fb57988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 74/92] fix: snake order of a PEPS with bonds between several
 sites of neighbouring rows

---
 xmps/fPEPS.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index a456732..59afe0a 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -656,15 +656,11 @@ class fPEPS(object):
             res = reduce(col_contract, cols)
             return np.squeeze(res)
         elif qubit_ordering == 'row_snake':
-            cols = []
-            for i, row in enumerate(self.data):
-                if i % 2 == 0:
-                    cols.append(reduce(row_contract, row))
-                else:
-                    cols.append(
-                        reduce(row_contract, [x.transpose([0, 1, 4, 3, 2]) for x in row[::-1]]))
-            res = reduce(col_contract, cols)
-            return np.squeeze(res)
+            # odd rows are read from right to left
+            sites = np.arange(self.Lx*self.Ly).reshape(self.Ly, self.Lx)
+            sites[1::2] = sites[1::2, ::-1].copy()
+            res = self.recombine().reshape([x.shape[0] for x in flatten(self.data)])
+            return np.squeeze(res.transpose(sites.reshape(-1)).reshape(-1))
 
     def environment(self, site):
         # this is a mess.
-- 
2.43.0


From e484c527eea46b22ea547ad123a74c1959f5e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 75/92] fix: time derivative of infinite product states

---
 xmps/iMPS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 2bf3124..d8ba2a4 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -577,10 +577,12 @@ class iMPS(object):
             O_n = concatenate([real(O_n), imag(O_n)])
             return O_n
 
-        K0 = (randn(D, D)+1j*randn(D, D)).reshape(D**2)
+        rhs = RHS()
+        # (the solution, for a product state: an exact step would divide by zero)
+        K0 = rhs.reshape(D**2)
         K0 = concatenate([real(K0), imag(K0)])
 
-        K = root(O, K0, args=(RHS(),), method=method, tol=tol).x
+        K = root(O, K0, args=(rhs,), method=method, tol=tol).x
         K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
         if testing: 
             def O_(K):
-- 
2.43.0


From fa0e10e389cb83a9d2ddee22390503b9e8c17773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 76/92] fix: Lyapunov spectra (running averages of different
 lengths, bases given as matrices, top vector)

---
 xmps/fTDVP.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 136702c..f121ae9 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -303,25 +303,25 @@ class Trajectory(object):
 
         if hasattr(self, 'Q'):
             Q = self.Q
+        elif not isinstance(initial_basis, str):
+            Q = initial_basis
         elif initial_basis == 'F2':
             Q = self.mps.tangent_space_basis(H=H, type=initial_basis)
         elif initial_basis == 'eye' or initial_basis == 'rand':
             Q = kron(eye(2), self.mps.tangent_space_basis(
                 H=H, type=initial_basis))
-        else:
-            Q = initial_basis
         Q_ = copy(Q)
 
         if just_max:
             # just evolve top vector, dont bother with QR
-            q = Q[0]
+            q = Q[:, 0]
         dt = T[1]-T[0]
 
         lys = []
-        exps = [array([0])]
+        exps = [zeros(Q.shape[1])]
 
         lys_ = []
-        exps_ = [array([0])]
+        exps_ = [zeros(Q.shape[1])]
 
         self.vs = []
 
-- 
2.43.0


From c793dda992eded568784116bb729fcf730644a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 77/92] fix: resume a stopped trajectory, stop one that has no
 exponents

---
 xmps/fTDVP.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index f121ae9..5c9df4e 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -614,7 +614,7 @@ class Trajectory(object):
             with open(os.path.join(run_dir, name+'_vL'), 'wb') as f:
                 pickle.dump(self.vL, f)
 
-        if self.has_run_lyapunov:
+        if getattr(self, 'has_run_lyapunov', False):
             save(os.path.join(run_dir, name+'_inst_exps'), self.lys)
             if hasattr(self, 'lys_'):
                 save(os.path.join(run_dir, name+'_inst_exps_'), self.lys_)
@@ -630,6 +630,24 @@ class Trajectory(object):
         self.run_dir = run_dir+'_'+str(n)
         istate, state = sorted(
             glob.glob(os.path.join(self.run_dir, '*state*')))
+        name = state[:-len('_state.npy')]
+
+        self.run_name = run_name
+        self.mps_0, self.mps = fMPS().load(istate), fMPS().load(state)
+        self.Ds = [self.mps.D]
+        with open(name+'_ham', 'rb') as f:
+            self.H = pickle.load(f)
+        with open(name+'_mpo', 'rb') as f:
+            self.W = pickle.load(f)
+        if os.path.exists(name+'_vL'):
+            with open(name+'_vL', 'rb') as f:
+                self.vL = self.mps.old_vL = pickle.load(f)
+        if lys:
+            for attr, end in [('lys', '_inst_exps.npy'), ('lys_', '_inst_exps_.npy'), ('Q', '_basis.npy')]:
+                if os.path.exists(name+end):
+                    setattr(self, attr, load(name+end))
+                    self.has_run_lyapunov = True
+        return self
 
     def copy(self):
         return deepcopy(self)
-- 
2.43.0


From dba58109001d4ad6166e69f094e7861ebfadcef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 78/92] fix: Lyapunov exponents do not depend on the zero of
 energy

---
 xmps/fTDVP.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 5c9df4e..a2aed1e 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -6,7 +6,7 @@ import pickle
 
 from time import time
 
-from .fMPS import fMPS
+from .fMPS import fMPS, sympmat
 from .tensor import get_null_space, H as cT, C as c
 from .ncon import ncon
 try:
@@ -332,6 +332,9 @@ class Trajectory(object):
         paired_ = []
         for n in tqdm(range(len(T))):
             J = self.mps.jac(H)
+            if not has_mpo:
+                # rk4 keeps the phase of the state: take its rotation by the energy out
+                J = J + self.mps.energy(H)*sympmat(len(J)//2).T
             if hasattr(self.mps, 'old_vL'):
                 self.vs.append(self.mps.v)
             if just_max:
-- 
2.43.0


From 4a5dad665df2e26279b1217019dea094d784c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 79/92] fix: contracting a trajectory truncates from the
 opposite canonical form

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index a2aed1e..b4884da 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -180,7 +180,7 @@ class Trajectory(object):
         return self
 
     def contract(self, D):
-        self.mps.left_canonicalise(D)
+        self.mps.right_canonicalise().left_canonicalise(D) # truncate from the opposite canonical form
         self.Ds[-1] = self.mps.D
         return self
 
-- 
2.43.0


From 7351ff0b355ba364c0d0671cd4e831e07425ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 80/92] fix: canonicalising a state records the bond dimension
 it ends up with

---
 xmps/fMPS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e1996bf..e966aca 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -546,6 +546,7 @@ class fMPS(object):
                 and self.is_full_rank\
                 and self.has_trace_1
 
+        self.D = self.bond_dimension
         self.canonical = True
         self.orthogonal = True
         self.oc = 0
@@ -624,6 +625,7 @@ class fMPS(object):
                 and self.is_full_rank\
                 and self.has_trace_1
 
+        self.D = self.bond_dimension
         self.canonical=True
         self.orthogonal=True
         self.oc = self.L
@@ -659,6 +661,7 @@ class fMPS(object):
             self.ok = self.ok and is_left_canonical(self.data[:oc])\
                               and is_right_canonical(self.data[oc+1:])
 
+        self.D = self.bond_dimension
         self.canonical = True
         self.orthogonal = True
         self.oc = oc
-- 
2.43.0


From 160ed132dfabb54a68af497f29b4c5a93fd33492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 81/92] fix: histories of trajectories whose states do not have
 the standard bonds, or lose rank, can be read back

---
 xmps/fTDVP.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index b4884da..544e5e2 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -67,18 +67,28 @@ class Trajectory(object):
         self.run_name = run_name
         self.continuous = continuous
 
+    def record(self, mps):
+        """record: append mps to the history, padded to the standard structure it is read back with
+        (the rank of the state may fall below its bond dimension during a run)
+
+        :param mps: state to store
+        """
+        D = max(self.Ds[-1:]+[mps.D])
+        if mps.structure() != mps.create_structure(mps.L, mps.d, D):
+            mps = mps.copy().expand(D)
+        self.mps_history.append(mps.serialize(real=True))
+        self.Ds[-1:] = [D, D]
+
     def euler(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         return (mps + mps.dA_dt(H, fullH=self.fullH)*dt).left_canonicalise(mps.D)
 
     def rk4(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         k1 = mps.dA_dt(H, fullH=self.fullH)*dt
         k2 = (mps+k1/2).dA_dt(H, fullH=self.fullH)*dt
         k3 = (mps+k2/2).dA_dt(H, fullH=self.fullH)*dt
@@ -121,24 +131,24 @@ class Trajectory(object):
         :param T:
         """
         mps, H = self.mps.left_canonicalise(), self.H
-        L, d, D = mps.L, mps.d, mps.D
+        L, d = mps.L, mps.d
 
         for t in tqdm(T):
             mps = self.euler(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, self.Ds[-1], real=True)
         return self
 
     def rk4int(self, T):
         """rk4int: integrate with rk4 timesteps
         """
         mps, H = self.mps.left_canonicalise(), self.H
-        L, d, D = mps.L, mps.d, mps.D
+        L, d = mps.L, mps.d
 
         for t in tqdm(T):
             mps = self.rk4(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, self.Ds[-1], real=True)
         return self
 
     def invfreeint(self, T, D=None, order='low'):
@@ -193,7 +203,7 @@ class Trajectory(object):
         :param D: bond dimension to truncate initial state to
         """
         mps, H = self.mps.left_canonicalise(), self.H
-        L, d, D = mps.L, mps.d, mps.D
+        L, d, structure = mps.L, mps.d, [x.shape for x in mps]
         bar = tqdm()
 
         def f(t, v):
@@ -203,7 +213,7 @@ class Trajectory(object):
             :param t: Time
             """
             bar.update()
-            return fMPS().deserialize(v, L, d, D, real=True)\
+            return fMPS().deserialize(v, L, d, structure=structure, real=True)\
                 .dA_dt(H, fullH=self.fullH)\
                 .serialize(real=True)
 
@@ -213,9 +223,11 @@ class Trajectory(object):
         traj = Q.y.T
         bar.close()
 
-        self.mps_history = list(traj)
-        self.Ds = [D]*(len(traj)+1)
-        self.mps = fMPS().deserialize(traj[-1], L, d, D, real=True)
+        self.mps_history = []
+        self.Ds = self.Ds[-1:]
+        for v in traj:
+            self.record(fMPS().deserialize(v, L, d, structure=structure, real=True))
+        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, self.Ds[-1], real=True)
         return self
 
     def edint(self, T):
-- 
2.43.0


From 205522c83795a0fed5abe84c6ec53221455bfaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 82/92] fix: runs continue from the last state itself, not from
 its padded record

---
 xmps/fTDVP.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 544e5e2..d091b22 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -131,24 +131,22 @@ class Trajectory(object):
         :param T:
         """
         mps, H = self.mps.left_canonicalise(), self.H
-        L, d = mps.L, mps.d
 
         for t in tqdm(T):
-            mps = self.euler(mps, T[1]-T[0])
+            last, mps = mps, self.euler(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, self.Ds[-1], real=True)
+        self.mps = last
         return self
 
     def rk4int(self, T):
         """rk4int: integrate with rk4 timesteps
         """
         mps, H = self.mps.left_canonicalise(), self.H
-        L, d = mps.L, mps.d
 
         for t in tqdm(T):
-            mps = self.rk4(mps, T[1]-T[0])
+            last, mps = mps, self.rk4(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, self.Ds[-1], real=True)
+        self.mps = last
         return self
 
     def invfreeint(self, T, D=None, order='low'):
@@ -227,7 +225,7 @@ class Trajectory(object):
         self.Ds = self.Ds[-1:]
         for v in traj:
             self.record(fMPS().deserialize(v, L, d, structure=structure, real=True))
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, self.Ds[-1], real=True)
+        self.mps = fMPS().deserialize(traj[-1], L, d, structure=structure, real=True)
         return self
 
     def edint(self, T):
-- 
2.43.0


From 439d8ce06f7881d07b972e0c92fe0ed11254b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 83/92] fix: stopped trajectories can be resumed whatever the
 bonds of their states

---
 xmps/fTDVP.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index d091b22..934ca38 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -586,12 +586,14 @@ class Trajectory(object):
                                   len(self.mps_history))
         save(loc+self.id, self.mps_history if not exps else self.lys)
         if exps:
+            # the bonds of the state are only known to load if they are the standard ones
+            structured = self.mps.structure() != self.mps.create_structure(self.mps.L, self.mps.d, self.mps.D)
             if hasattr(self, 'q'):
                 save(loc+'bases/'+self.id+'_basis', self.q)
-                self.mps.store(loc+'bases/'+self.id+'_state')
+                self.mps.store(loc+'bases/'+self.id+'_state', structured)
             elif hasattr(self, 'Q'):
                 save(loc+'bases/'+self.id+'_basis', self.Q)
-                self.mps.store(loc+'bases/'+self.id+'_state')
+                self.mps.store(loc+'bases/'+self.id+'_state', structured)
         if clear:
             self.clear()
 
@@ -616,8 +618,8 @@ class Trajectory(object):
         name = 'L{}_D{}_N{}'.format(
             self.mps.L, self.mps.D, len(self.mps_history))
 
-        self.mps.store(os.path.join(run_dir, name+'_state'))
-        self.mps_0.store(os.path.join(run_dir, name+'_initial_state'))
+        self.mps.store(os.path.join(run_dir, name+'_state'), structured=True)
+        self.mps_0.store(os.path.join(run_dir, name+'_initial_state'), structured=True)
 
         with open(os.path.join(run_dir, name+'_ham'), 'wb') as f:
             pickle.dump(self.H, f)
@@ -646,7 +648,7 @@ class Trajectory(object):
         name = state[:-len('_state.npy')]
 
         self.run_name = run_name
-        self.mps_0, self.mps = fMPS().load(istate), fMPS().load(state)
+        self.mps_0, self.mps = fMPS().load(istate, structured=True), fMPS().load(state, structured=True)
         self.Ds = [self.mps.D]
         with open(name+'_ham', 'rb') as f:
             self.H = pickle.load(f)
-- 
2.43.0


From e8b24abbe4afce775b49d176ebe6555f70d4cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:00 +0000
Subject: [PATCH 84/92] fix: a copy of an MPS shares no tensors with it and
 keeps its type

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e966aca..045b896 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -946,7 +946,7 @@ class fMPS(object):
         return self
 
     def copy(self):
-        return fMPS(self.data.copy())
+        return type(self)([a.copy() for a in self.data])
 
     def E(self, op, site):
         """E: one site expectation value
-- 
2.43.0


From dca5135a693cd02ce53be4103994658874c9f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:00 +0000
Subject: [PATCH 85/92] fix: a copy of an infinite MPS shares no tensors with
 it and keeps its Schmidt values

---
 xmps/iMPS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index d8ba2a4..4040dff 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -265,9 +265,11 @@ class iMPS(object):
         return self.data[0].shape
 
     def copy(self):
-        A = iMPS(self.data.copy())
+        A = iMPS([a.copy() for a in self.data], getattr(self, 'canonical', None))
         if hasattr(self, 'r') or hasattr(self, 'l'):
             A.l, A.r = self.l, self.r
+        if hasattr(self, 'L'):
+            A.L = self.L
         return A
 
     def random(self, d, D, period=1):
-- 
2.43.0


From 021c35120c40cf570092971adca0a2f3e8f7469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:00 +0000
Subject: [PATCH 86/92] fix: fPEPS.copy uses the tensors it is given

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 59afe0a..9d76258 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -916,7 +916,7 @@ class fPEPS(object):
     def copy(self, data=None):
         # copy self (or data) into new fPEPS with all of the stuff this fPEPS has (oc, X, d, etc.)
         data = self.data if data is None else data
-        ret = fPEPS([[x.copy() for x in row] for row in self.data])
+        ret = fPEPS([[x.copy() for x in row] for row in data])
         if hasattr(self, 'oc'):
             ret.oc = self.oc
         if hasattr(self, 'X'):
-- 
2.43.0


From b4dcbf299a2cc261f3eaf4a4c60ac9fdcf8f19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:53 +0000
Subject: [PATCH 87/92] fix: fMPS.random and fTFD.from_fMPS forget the
 orthogonality centre of what they replace

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 045b896..b38b706 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -423,8 +423,7 @@ class fMPS(object):
         """
         self.L = L
         self.d = d
-        self.canonical = False
-        self.orthogonal = False
+        self.forget_centre()
         if D == 1 and d == 2:
             self.D = 1
             # random product states
@@ -2146,6 +2145,7 @@ class fTFD(fMPS):
         self.d = mps.d**2
         self.D = mps.D**2
         self.L = mps.L
+        self.forget_centre()
         return self
 
     def approx_overlap(self, other, As, double=False):
-- 
2.43.0


From 36aee8d084e8b1b3fd2002e4d3eeb059e3c3c99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:53 +0000
Subject: [PATCH 88/92] fix: Trajectory.lyapunov takes its times as a list too

---
 xmps/fTDVP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 934ca38..b83263b 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -399,13 +399,13 @@ class Trajectory(object):
 
         if just_max:
             self.q = q
-            self.exps = exps[k+1:n+2]/dt
-            self.exps_ = exps_[k+1:n+2]/dt
+            self.exps = array(exps[k+1:n+2])/dt
+            self.exps_ = array(exps_[k+1:n+2])/dt
             T = T[k:n+1]
         else:
             self.Q = Q
-            self.exps = exps[k+1:n+2]/dt
-            self.exps_ = exps_[k+1:n+2]/dt
+            self.exps = array(exps[k+1:n+2])/dt
+            self.exps_ = array(exps_[k+1:n+2])/dt
             T = T[k:n+1]
 
         if hasattr(self, 'lys_'):
-- 
2.43.0


From a008b4915b41719a5267aec83a6175c5813194a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:52 +0000
Subject: [PATCH 89/92] fix: iMPS.canonical names the form the tensors are in

---
 xmps/iMPS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 4040dff..ccdf9eb 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -282,6 +282,7 @@ class iMPS(object):
         self.period = period
         self.d = d
         self.D = D
+        self.canonical = None
         self.data = [5*(randn(d, D, D)+randn(d, D, D)*1j) for _ in range(period)]
         return self
 
@@ -390,10 +391,11 @@ class iMPS(object):
             sqrtL_ = sqrt(L_)
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
+        self.canonical = hand
+
         if to_vidal:
             return ivMPS([(G_, L_)])
         else:
-            self.canonical = hand
             return self
 
     def left_canonicalise(self):
@@ -522,6 +524,7 @@ class iMPS(object):
         if real:
             vec = reduce(lambda x, y: x+1j*y, chop(vec, 2))
         self.period, self.d, self.D = p, d, D
+        self.canonical = None
         structure = [x for x in self.create_structure(d, D, p)]
         self.data = []
         for shape in structure:
-- 
2.43.0


From 0e26bb5b0c7be4415c0aa91679449a4f848ecb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:40 +0000
Subject: [PATCH 90/92] fix: lyapunov continues its second basis and its top
 vector where they stopped

---
 xmps/fTDVP.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index b83263b..d3d655b 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -320,11 +320,11 @@ class Trajectory(object):
         elif initial_basis == 'eye' or initial_basis == 'rand':
             Q = kron(eye(2), self.mps.tangent_space_basis(
                 H=H, type=initial_basis))
-        Q_ = copy(Q)
+        Q_ = self.Q_ if hasattr(self, 'Q_') else copy(Q)
 
         if just_max:
             # just evolve top vector, dont bother with QR
-            q = Q[:, 0]
+            q = self.q if hasattr(self, 'q') else Q[:, 0]
         dt = T[1]-T[0]
 
         lys = []
@@ -403,7 +403,7 @@ class Trajectory(object):
             self.exps_ = array(exps_[k+1:n+2])/dt
             T = T[k:n+1]
         else:
-            self.Q = Q
+            self.Q, self.Q_ = Q, Q_
             self.exps = array(exps[k+1:n+2])/dt
             self.exps_ = array(exps_[k+1:n+2])/dt
             T = T[k:n+1]
@@ -574,7 +574,7 @@ class Trajectory(object):
         self.mps_history = []
         self.mps = self.mps_0.copy()
         self.Ds = [self.mps.D]
-        for result in ['ed_history', 'psi', 'lys', 'lys_', 'exps', 'exps_', 'Q', 'q', 'vL', 'vs']:
+        for result in ['ed_history', 'psi', 'lys', 'lys_', 'exps', 'exps_', 'Q', 'Q_', 'q', 'vL', 'vs']:
             if hasattr(self, result):
                 delattr(self, result)
 
@@ -633,8 +633,9 @@ class Trajectory(object):
             save(os.path.join(run_dir, name+'_inst_exps'), self.lys)
             if hasattr(self, 'lys_'):
                 save(os.path.join(run_dir, name+'_inst_exps_'), self.lys_)
-            if hasattr(self, 'Q'):
-                save(os.path.join(run_dir, name+'_basis'), self.Q)
+            for attr, end in [('Q', '_basis'), ('Q_', '_basis_'), ('q', '_top')]:
+                if hasattr(self, attr):
+                    save(os.path.join(run_dir, name+end), getattr(self, attr))
         return run_dir
 
     def resume(self, run_name, loc='data', n=None, lys=True):
@@ -658,7 +659,8 @@ class Trajectory(object):
             with open(name+'_vL', 'rb') as f:
                 self.vL = self.mps.old_vL = pickle.load(f)
         if lys:
-            for attr, end in [('lys', '_inst_exps.npy'), ('lys_', '_inst_exps_.npy'), ('Q', '_basis.npy')]:
+            for attr, end in [('lys', '_inst_exps.npy'), ('lys_', '_inst_exps_.npy'), ('Q', '_basis.npy'),
+                              ('Q_', '_basis_.npy'), ('q', '_top.npy')]:
                 if os.path.exists(name+end):
                     setattr(self, attr, load(name+end))
                     self.has_run_lyapunov = True
-- 
2.43.0


From 06b71cc82a8b696e6a1391c22ebae8c3c72d76bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:40 +0000
Subject: [PATCH 91/92] fix: lyapunov that stops at its threshold leaves the
 state where its basis is

---
 xmps/fTDVP.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index d3d655b..613120e 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -366,9 +366,6 @@ class Trajectory(object):
                 conv_.append(np.mean(np.var(np.array(exps_[-conv_window-1:])/dt, axis=0)))
                 paired_.append(norm(exps_[-1]+exps_[-1][::-1]))
 
-                if thresh is not None and conv[-1] < thresh:
-                    break
-
             if has_mpo:
                 vL = self.mps.new_vL
 
@@ -389,6 +386,10 @@ class Trajectory(object):
                 self.mps.old_vL = vL
                 self.vL = vL
 
+            # (with the state where its basis is, for the run to continue)
+            if not just_max and thresh is not None and conv[-1] < thresh:
+                break
+
         if hasattr(self, 'lys'):
             self.lys = ct([self.lys, array(lys)])
             if hasattr(self, 'lys_'):
-- 
2.43.0


From 3f93615a05fb2bb1e30c9d96f94a4f11786ad3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:40 +0000
Subject: [PATCH 92/92] fix: resume and clear forget what was run before

---
 xmps/fTDVP.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 613120e..6a85cd1 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -575,7 +575,7 @@ class Trajectory(object):
         self.mps_history = []
         self.mps = self.mps_0.copy()
         self.Ds = [self.mps.D]
-        for result in ['ed_history', 'psi', 'lys', 'lys_', 'exps', 'exps_', 'Q', 'Q_', 'q', 'vL', 'vs']:
+        for result in ['ed_history', 'psi', 'lys', 'lys_', 'exps', 'exps_', 'Q', 'Q_', 'q', 'vL', 'vs', 'has_run_lyapunov']:
             if hasattr(self, result):
                 delattr(self, result)
 
@@ -650,7 +650,9 @@ class Trajectory(object):
         name = state[:-len('_state.npy')]
 
         self.run_name = run_name
-        self.mps_0, self.mps = fMPS().load(istate, structured=True), fMPS().load(state, structured=True)
+        self.mps_0 = fMPS().load(istate, structured=True)
+        self.clear()
+        self.mps = fMPS().load(state, structured=True)
         self.Ds = [self.mps.D]
         with open(name+'_ham', 'rb') as f:
             self.H = pickle.load(f)
-- 
2.43.0

