From cd94d15784464c897ab59225489a4a15d5d58308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 01/36] fix: PeriodicKern gradients are the derivatives of its
 covariance

---
 src/lop/kernels/PeriodicKern.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/lop/kernels/PeriodicKern.py b/src/lop/kernels/PeriodicKern.py
index 12b63c8..8d279aa 100644
--- a/src/lop/kernels/PeriodicKern.py
+++ b/src/lop/kernels/PeriodicKern.py
@@ -147,20 +147,17 @@ class PeriodicKern(KernelFunc):
 
         X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)
         Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)
-        diff = X_expanded - Y_expanded
-        top = np.sum(diff*diff, axis=2)
-
-        exp_x = np.exp(-top / (2 * self.l*self.l))
-
         diff = X_expanded - Y_expanded
         uv_norm = np.sum(np.abs(diff), axis=2)
         
+        sin_tmp = np.sin(np.pi*uv_norm / self.p)
         cos_tmp = np.cos(np.pi*uv_norm / self.p)
+        exp_x = np.exp(-2 * sin_tmp * sin_tmp / (self.l*self.l))
         
         dSigma = 2 * self.sigma * exp_x
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
-            cos_tmp / (self.l*self.l * self.p*self.p)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp * sin_tmp / (self.l*self.l*self.l)
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+            sin_tmp * cos_tmp / (self.l*self.l * self.p*self.p)
 
         return dSigma, dl, dp
 
@@ -173,10 +170,10 @@ class PeriodicKern(KernelFunc):
 
         dSigma = 2 * self.sigma * exp_x
 
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp * sin_tmp / (self.l*self.l*self.l)
 
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
-            np.cos(np.pi * uv_norm / self.p) / (self.l*self.l * self.p*self.p)
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+            sin_tmp * np.cos(np.pi * uv_norm / self.p) / (self.l*self.l * self.p*self.p)
 
         return np.array([dSigma, dl, dp])
 
-- 
2.43.0


From 70fcad55c42bd5c29515c7fb20b0009bdd76e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 02/36] fix: covariance gradients of combined kernels have one
 matrix per hyper-parameter

---
 src/lop/kernels/KernelFunc.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index d33cc05..8f70188 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -59,14 +59,14 @@ class KernelFunc:
     #        and k is the dimension of the samples
     # @param Y - samples (n2, k)
     #
-    # @return the covariance gradient tensor of the samples. [n1, n2, k]
+    # @return the covariance gradient tensor of the samples. [k, n1, n2]
     def cov_gradient(self, X, Y):
-        cov = np.empty((len(X), len(Y), len(self)))
+        cov = np.empty((len(self), len(X), len(Y)))
 
         for i,x1 in enumerate(X):
             for j,x2 in enumerate(Y):
                 cov_ij = self.gradient(x1, x2)
-                cov[i,j, :] = cov_ij
+                cov[:, i,j] = cov_ij
         return cov
 
     ## set_param
@@ -224,18 +224,18 @@ class DualKern(KernelFunc):
     #        and k is the dimension of the samples
     # @param Y - samples (n2, k)
     #
-    # @return the covariance gradient tensor of the samples. [n1, n2, k]
+    # @return the covariance gradient of the samples, one (n1, n2) matrix per parameter. [k, n1, n2]
     def cov_gradient(self, X, Y):
         if self.operator == '+':
             a_grad = self.a.cov_gradient(X,Y)
             b_grad = self.b.cov_gradient(X,Y)
         elif self.operator == '*':
-            a_grad = self.a.cov_gradient(X,Y) * self.b.cov(X,Y)
-            b_grad = self.b.cov_gradient(X,Y) * self.a.cov(X,Y)
+            a_grad = np.array(self.a.cov_gradient(X,Y)) * self.b.cov(X,Y)
+            b_grad = np.array(self.b.cov_gradient(X,Y)) * self.a.cov(X,Y)
         else:
             raise NotImplementedError('DualKern does not have operator `'+self.operator+'` implemented')
 
-        return a_grad + b_grad
+        return np.append(a_grad, b_grad, axis=0)
 
 
 
-- 
2.43.0


From 7997a7d3bfd9cd63b5f7b65c9f585dfb9f43e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 03/36] fix: DualKern draws random hyper-parameters for both of
 its kernels

---
 src/lop/kernels/KernelFunc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index 8f70188..ccbe436 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -176,6 +176,12 @@ class DualKern(KernelFunc):
     def grad_param_likli(self):
         return np.append(self.a.grad_param_likli(), self.b.grad_param_likli(), axis=0)
 
+    ## Performs random sampling using the same liklihood function used by the param
+    # liklihood function
+    # @return numpy array of independent samples.
+    def randomize_hyper(self):
+        return np.append(self.a.randomize_hyper(), self.b.randomize_hyper(), axis=0)
+
 
 
     ## get covariance matrix
-- 
2.43.0


From 8dedf4d66a1010afafc59e0557f505de08ea7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 04/36] fix: RBF_kern adds its noise only when both sets are
 the same points

---
 src/lop/kernels/RBF_kern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5136842..5a9aee3 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -116,7 +116,7 @@ class RBF_kern(KernelFunc):
         top = np.sum(diff*diff, axis=2)
 
         cov = self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
-        if cov.shape[0] == cov.shape[1] and (X[0] == Y[0]).all():
+        if np.array_equal(X, Y):
             cov += np.eye(cov.shape[0])*self.sigma_noise
         return cov
 
-- 
2.43.0


From b6f4bb257121f8bb8a905edc82f2d4b467bf8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 05/36] fix: RBF_kern_zeroed conditions on the zero point for
 every sigma, without noise

---
 src/lop/kernels/RBF_kern.py        | 17 +++++++++++++----
 src/lop/kernels/RBF_kern_zeroed.py | 28 ++++++++++++++++++----------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5a9aee3..96962e1 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -101,6 +101,18 @@ class RBF_kern(KernelFunc):
     #
     # @return the covariance matrix of the samples.
     def cov(self, X, Y):
+        cov = self.cov_noise_free(X, Y)
+        if np.array_equal(X, Y):
+            cov += np.eye(cov.shape[0])*self.sigma_noise
+        return cov
+
+    ## cov_noise_free
+    # the covariance matrix between the samples without any noise on the diagonal.
+    # @param X - samples (n1,k) numpy array
+    # @param Y - samples (n2, k) numpy array
+    #
+    # @return the covariance matrix of the samples.
+    def cov_noise_free(self, X, Y):
         N = X.shape[0]
         M = Y.shape[0]
 
@@ -115,10 +127,7 @@ class RBF_kern(KernelFunc):
         diff = X_expanded - Y_expanded
         top = np.sum(diff*diff, axis=2)
 
-        cov = self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
-        if np.array_equal(X, Y):
-            cov += np.eye(cov.shape[0])*self.sigma_noise
-        return cov
+        return self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
 
     # get gradient of the covariance matrix
     # calculate the covariance matrix between the samples given in X
diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index 63ae3b7..c91d068 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -82,8 +82,8 @@ class RBF_kern_zeroed(RBF_kern):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x = self.cov_noise_free(X, self.zero_pt[np.newaxis,:])
+        cov_y = self.cov_noise_free(self.zero_pt[np.newaxis,:], Y)
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
@@ -108,8 +108,8 @@ class RBF_kern_zeroed(RBF_kern):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x = self.cov_noise_free(X, self.zero_pt[np.newaxis,:])
+        cov_y = self.cov_noise_free(self.zero_pt[np.newaxis,:], Y)
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
@@ -117,9 +117,12 @@ class RBF_kern_zeroed(RBF_kern):
         x_sig, x_l = super().cov_gradient(X, self.zero_pt[np.newaxis,:])
         y_sig, y_l = super().cov_gradient(self.zero_pt[np.newaxis,:], Y)
 
-        # f(x)g'(x) + f'(x)g(x)
-        zero_sigma = x_sig * Y_expanded + X_expanded * y_sig
-        zero_l =     x_l * Y_expanded + X_expanded * y_l
+        sigma_sq = self.sigma * self.sigma
+
+        # f(x)g'(x) + f'(x)g(x), scaled by the variance at the zero point
+        zero_sigma = (x_sig * Y_expanded + X_expanded * y_sig) / sigma_sq \
+                        - 2 * X_expanded * Y_expanded / (sigma_sq * self.sigma)
+        zero_l =     (x_l * Y_expanded + X_expanded * y_l) / sigma_sq
 
         return dSigma-zero_sigma, dl-zero_l
 
@@ -132,8 +135,13 @@ class RBF_kern_zeroed(RBF_kern):
         grad_zero_u = super().gradient(u, self.zero_pt)
         grad_zero_v = super().gradient(v, self.zero_pt)
 
-        # f(x)g'(x) + f'(x)g(x)
-        grad_zero = super()(u, self.zero_pt) * grad_zero_v +  grad_zero_u * super()(v, self.zero_pt)
+        k_u = super().__call__(u, self.zero_pt)
+        k_v = super().__call__(v, self.zero_pt)
+        sigma_sq = self.sigma * self.sigma
+
+        # f(x)g'(x) + f'(x)g(x), scaled by the variance at the zero point
+        grad_zero = (k_u * grad_zero_v +  grad_zero_u * k_v) / sigma_sq
+        grad_zero[0] -= 2 * k_u * k_v / (sigma_sq * self.sigma)
 
         return grad - grad_zero
 
@@ -141,6 +149,6 @@ class RBF_kern_zeroed(RBF_kern):
         self.lazy_zero_pt_init(u)
         
         cov = super().__call__(u,v)
-        cov_0 = super().__call__(u, self.zero_pt)*super().__call__(v, self.zero_pt)
+        cov_0 = super().__call__(u, self.zero_pt)*super().__call__(v, self.zero_pt) / (self.sigma * self.sigma)
 
         return cov - cov_0
-- 
2.43.0


From e97832ed32c763938a3904d6f6446a1b68055a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 06/36] fix: RBF_kern length scale gradient is the derivative
 of its covariance

---
 src/lop/kernels/RBF_kern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 96962e1..913bbb7 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -154,7 +154,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
         # if N == N:
         #     dSigma_noise = np.eye(N)
         # else:
@@ -170,7 +170,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
 
         return np.array([dSigma, dl])
 
-- 
2.43.0


From 0e578a67aa3466b86834c5efb70b5e6ead0eccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:30 +0000
Subject: [PATCH 07/36] fix: PreferenceProbit third derivative of the
 log-likelihood uses the density over cumulative ratio cubed

---
 src/lop/probits/PreferenceProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index f7b69d5..5ea3739 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -218,7 +218,7 @@ class PreferenceProbit(ProbitBase):
         pdf_cdf_ratio, pdf_cdf_ratio2 = calc_pdf_cdf_ratio(z)
 
         paren_pairs = np.where(np.logical_and(z < 0, np.isinf(pdf_cdf_ratio)), 0, \
-                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * std_norm_pdf(z))
+                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * pdf_cdf_ratio)
         paren_pairs *= y[:,0]*y[:,0]*y[:,0]
         paren_pairs *= -1 / (2 * np.sqrt(2) * self.sigma * self.sigma * self.sigma)
 
-- 
2.43.0


From 8eb831e19871c210459f6f6ed2929754fe06c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:55 +0000
Subject: [PATCH 08/36] fix: AbsBoundProbit adds up the contributions of
 repeated ratings of one item

---
 src/lop/probits/AbsBoundProbit.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index a6c2291..fa1d59e 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -284,10 +284,10 @@ class AbsBoundProbit(ProbitBase):
 
         # setup the indexing
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        full_W[y[1],y[1]] = Wdiag
+        np.add.at(full_W, (y[1],y[1]), Wdiag)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y[1]] = dpy_df
+        np.add.at(full_dpy_df, y[1], dpy_df)
 
         return -full_W, full_dpy_df, np.sum(py)
 
@@ -307,10 +307,8 @@ class AbsBoundProbit(ProbitBase):
         aa, bb = self.get_alpha_beta(f)
 
         py = beta.logpdf(y_selected, aa, bb)
-        full_py = np.zeros(F.shape[0])
-        full_py[y[1]] = py
 
-        return np.sum(full_py)
+        return np.sum(py)
 
 
 
@@ -354,7 +352,7 @@ class AbsBoundProbit(ProbitBase):
         Wdiag = term1_a*term1_b + term2_a*term2_b + term3_a*term3_b
 
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
-        dW[y[1],y[1],y[1]] = Wdiag
+        np.add.at(dW, (y[1],y[1],y[1]), Wdiag)
 
         return dW
 
@@ -429,11 +427,11 @@ class AbsBoundProbit(ProbitBase):
 
         if self.optimize_v_only:
             dW_dHyper = np.zeros((1, len(F), len(F)))
-            dW_dHyper[0, y[1], y[1]] = dW_dv
+            np.add.at(dW_dHyper, (0, y[1], y[1]), dW_dv)
         else:
             dW_dHyper = np.zeros((2, len(F), len(F)))
-            dW_dHyper[1, y[1], y[1]] = dW_dv
-            dW_dHyper[0, y[1], y[1]] = dW_dSigma
+            np.add.at(dW_dHyper, (1, y[1], y[1]), dW_dv)
+            np.add.at(dW_dHyper, (0, y[1], y[1]), dW_dSigma)
 
         return -dW_dHyper
 
-- 
2.43.0


From ed1235a07e3e05cc1170c23aac4b54cab5620515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:50 +0000
Subject: [PATCH 09/36] fix: AbsBoundProbit curvature derivatives match its
 curvature

---
 src/lop/probits/AbsBoundProbit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index fa1d59e..64364c3 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -354,7 +354,7 @@ class AbsBoundProbit(ProbitBase):
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
         np.add.at(dW, (y[1],y[1],y[1]), Wdiag)
 
-        return dW
+        return -dW
 
     ## calc_W_dHyper
     # Calculate the derivative of the W matrix with respect to hyper parameters.
@@ -400,10 +400,10 @@ class AbsBoundProbit(ProbitBase):
         term2_a = -(v*f / (2*sqrt2 * sigma3)) * gauss_pdf
         term2_b = -mu*aa1 + bb1 - mu*bb1
 
-        term3 = (v / sigma2) * gauss_pdf2 * (aa1 + bb1)
+        term3 = -(v / sigma2) * gauss_pdf2 * (aa1 + bb1)
         
-        term4_a = ((v*v) / (2*sigma2)) * gauss_pdf2
-        term4_b = mu*aa1 + (1-mu)*bb2
+        term4_a = -((v*v) / (2*sigma2)) * gauss_pdf2
+        term4_b = mu*aa2 + (1-mu)*bb2
 
         dW_dv = term1 + term2_a*term2_b + term3 + term4_a*term4_b
 
-- 
2.43.0


From 0151ff61460d8859c29479b1b0b188df06e92aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:50 +0000
Subject: [PATCH 10/36] fix: OrdinalProbit second derivative of the
 log-likelihood

---
 src/lop/probits/OrdinalProbit.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index c4c05b0..48afa22 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -139,6 +139,13 @@ class OrdinalProbit(ProbitBase):
                 out = std_norm_pdf(z)
         return out
 
+    ## z_norm_pdf
+    # z*N(z) for a single rating, which is 0 at the infinite breakpoints
+    def z_norm_pdf(self, y, f):
+        if y == 0 or y == self.n_ordinals:
+            return 0.0
+        return self.z_k(y, f)*self.norm_pdf(y, f)
+
     def norm_cdf(self, y, F, var_x=0.0):
         if isinstance(y, tuple):
             f = F[y[1]]
@@ -197,7 +204,7 @@ class OrdinalProbit(ProbitBase):
                     d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
             else:
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
-                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i])
+                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.z_norm_pdf(y[i], f[i]) - self.z_norm_pdf(y[i]-1, f[i])) / l[i])
 
         W = np.diagflat(-d2py_df2)
 
-- 
2.43.0


From 4358028c9c38c1a3e0c62e8c9e9c096fbe751be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 11/36] fix: OrdinalProbit adds up the contributions of
 repeated ratings of one item

---
 src/lop/probits/OrdinalProbit.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 48afa22..8d0cfec 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -206,15 +206,12 @@ class OrdinalProbit(ProbitBase):
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
                 d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.z_norm_pdf(y[i], f[i]) - self.z_norm_pdf(y[i]-1, f[i])) / l[i])
 
-        W = np.diagflat(-d2py_df2)
-
         # setup the indexing to reshape into full gradient of F
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        idx_grid = np.meshgrid(y_orig[1],y_orig[1])
-        full_W[tuple(idx_grid)] = W
+        np.add.at(full_W, (y_orig[1], y_orig[1]), -d2py_df2)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y_orig[1]] = dpy_df
+        np.add.at(full_dpy_df, y_orig[1], dpy_df)
 
         return full_W, full_dpy_df, np.sum(py)
 
-- 
2.43.0


From 000822e007b113a4d5b4abf72c166383b51f73f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 12/36] fix: errors are raised instead of starting the
 interactive debugger

---
 src/lop/active_learning/AbsBayesInfo.py       |  1 -
 src/lop/active_learning/ProbabilityLearner.py | 15 ++++++++-------
 src/lop/models/PreferenceGP.py                | 14 ++++----------
 src/lop/models/PreferenceModel.py             |  8 +-------
 src/lop/probits/PreferenceProbit.py           |  3 ---
 5 files changed, 13 insertions(+), 28 deletions(-)

diff --git a/src/lop/active_learning/AbsBayesInfo.py b/src/lop/active_learning/AbsBayesInfo.py
index 6f3ffe5..f74c389 100644
--- a/src/lop/active_learning/AbsBayesInfo.py
+++ b/src/lop/active_learning/AbsBayesInfo.py
@@ -79,7 +79,6 @@ class AbsBayesInfo(ActiveLearner):
     def p_q_f_B_unorm(self, q, aa, bb, ml):
         ml_r = np.repeat(ml[:,np.newaxis, :], ml.shape[1], axis=1)
         p_q_f = beta.pdf(q, aa, bb)
-        pdb.set_trace()
         p_q_f_B = np.where(q > ml_r, np.repeat(p_q_f[:,:,np.newaxis], p_q_f.shape[1], axis=2), 0)
         return p_q_f_B
 
diff --git a/src/lop/active_learning/ProbabilityLearner.py b/src/lop/active_learning/ProbabilityLearner.py
index ad22b8e..33360be 100644
--- a/src/lop/active_learning/ProbabilityLearner.py
+++ b/src/lop/active_learning/ProbabilityLearner.py
@@ -81,15 +81,16 @@ class ProbabilityLearner(ActiveLearner):
                 zero_vector = np.zeros(len(candidate_pts)-1)
                 p[i] = rv.cdf(zero_vector)
 
-        #p = p / np.sum(p)
+        elif isinstance(self.model, PreferenceLinear):
+            p = self.p_B_pref_linear(candidate_pts, mu)
+        else:
+            raise ValueError("ProbabilityLearner given an unknown model type: " + str(type(self.model)))
 
-        print(candidate_pts)
-        print(mu)
-        print(p)
-        print(np.sum(p))
+        indicies = list(indicies)
+        best_idx = np.argmax(p[indicies])
 
-        plt.show()
-        pdb.set_trace()
+        self.sel_metric = p[indicies][best_idx]
+        return indicies[best_idx]
 
 
                 
diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index eecdc90..3b58c22 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -126,12 +126,9 @@ class PreferenceGP(PreferenceModel):
             L = np.linalg.cholesky(K)
             lower = True
             alpha = cho_solve((L, lower), F)
-        except:
-            try:
-                K_inv = np.linalg.pinv(K)
-                alpha = F.transpose() @ K_inv @ F
-            except:
-                pdb.set_trace()
+        except np.linalg.LinAlgError:
+            K_inv = np.linalg.pinv(K)
+            alpha = K_inv @ F
 
         ####### calculate the mu of the value
         mu = np.matmul(covXX_test, alpha)
@@ -197,10 +194,7 @@ class PreferenceGP(PreferenceModel):
         for j, probit in enumerate(self.probits):
             if y[j] is not None:
                 W_local, dpy_df_local, py_local = probit.derivatives(y[j], F)
-                try:
-                    W += W_local
-                except:
-                    pdb.set_trace()
+                W += W_local
                 grad_ll += dpy_df_local
                 log_likelihood += py_local
 
diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 1d55f98..e5244ef 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -290,13 +290,7 @@ class PreferenceModel(Model):
         log_p_w = 0.0
         for j, probit in enumerate(self.probits):
             if y[j] is not None:
-                try:
-                    p_w_local = probit.log_likelihood(y[j], F)
-                except:
-                    import pdb
-                    pdb.set_trace()
-
-                log_p_w += p_w_local
+                log_p_w += probit.log_likelihood(y[j], F)
 
         return log_p_w
 
diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index 5ea3739..9a7e582 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -271,9 +271,6 @@ class PreferenceProbit(ProbitBase):
         dW = add_up_mat(idx3,  dw_pairs, dW)
         dW = add_up_mat(idx4, -dw_pairs, dW)
 
-        if np.isnan(dW).any():
-            pdb.set_trace()
-
         return dW[np.newaxis, :, :]
 
 
-- 
2.43.0


From 1916c61cc5096cfe8766e47ae2e38540f3c58a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:03 +0000
Subject: [PATCH 13/36] fix: PreferenceModel.add changes nothing unless all new
 data is accepted, and offsets every kind of label

---
 src/lop/models/PreferenceModel.py | 64 +++++++++++++++++--------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index e5244ef..bc820ff 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -188,86 +188,93 @@ class PreferenceModel(Model):
         if not isinstance(training_sigma, Sequence):
             training_sigma = np.ones(len(y)) * training_sigma
 
+        # the model is only changed once all of the new data has been accepted
         if self.X_train is None:
-            self.X_train = X
+            X_train = X
             len_X = 0
         else:
             len_X = len(self.X_train)
-            self.X_train = np.append(self.X_train, X, axis=0)
+            X_train = np.append(self.X_train, X, axis=0)
+        y_train = list(self.y_train)
 
         if type == 'relative_discrete':
             if len_X > 0:
                 # reset index of pairwise comparisons
                 y = [(d, u+len_X, v+len_X) for d, u, v in y]
 
-            if y == []:
+            if len(y) == 0:
                 pass
-            elif self.y_train[self.probit_idxs[type]] is None:
-                self.y_train[self.probit_idxs[type]] = np.array(y)
+            elif y_train[self.probit_idxs[type]] is None:
+                y_train[self.probit_idxs[type]] = np.array(y)
             else:
-                self.y_train[self.probit_idxs[type]] = \
-                    np.append(self.y_train[self.probit_idxs[type]], np.array(y), axis=0)
+                y_train[self.probit_idxs[type]] = \
+                    np.append(y_train[self.probit_idxs[type]], np.array(y), axis=0)
         elif type == 'ordinal':
             if not isinstance(y, np.ndarray):
                 y = np.array(y)
             if len(y.shape) == 1:
+                if len(y) != len(X):
+                    raise ValueError("Ordinal input must have one rating for each point")
                 new_y = np.empty((y.shape[0], 2), dtype=int)
                 new_y[:,0] = y
                 new_y[:,1] = np.arange(0, y.shape[0]) + len_X
             else:
-                new_y = y
+                new_y = y + np.array([0, len_X])
 
             if (new_y[:,0] <= 0).any():
                 raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
 
-            if self.y_train[self.probit_idxs[type]] is None:
-                self.y_train[self.probit_idxs[type]] = (new_y[:,0], new_y[:,1])
+            if y_train[self.probit_idxs[type]] is None:
+                y_train[self.probit_idxs[type]] = (new_y[:,0], new_y[:,1])
             else:
                 # restet index for matching to X_train
-                old_v = self.y_train[self.probit_idxs[type]][0]
-                old_idx = self.y_train[self.probit_idxs[type]][1]
+                old_v = y_train[self.probit_idxs[type]][0]
+                old_idx = y_train[self.probit_idxs[type]][1]
 
-                self.y_train[self.probit_idxs[type]] = \
+                y_train[self.probit_idxs[type]] = \
                     (np.append(old_v, new_y[:,0]), np.append(old_idx, new_y[:,1]))
         elif type == 'abs':
             if isinstance(y, tuple):
                 v = y[0]
-                idxs = y[1]
+                idxs = np.array(y[1]) + len_X
             elif isinstance(y, np.ndarray):
+                if len(y) != len(X):
+                    raise ValueError("Absloute bounded input must have one rating for each point")
                 v = y
                 idxs = np.arange(len_X, y.shape[0]+len_X)
             else:
-                print('abs type received unknown type for y')
-                return
+                raise TypeError("abs type received unknown type for y: " + str(y.__class__))
 
-            if (v < 0).any() or (v > 1.0).any():
+            if not ((v >= 0) & (v <= 1.0)).all():
                 raise ValueError("Absloute bounded input must be between 0 and 1. v = " + str(v))
             v = np.where(v < 0.001, 0.001, v)
             v = np.where(v > 0.999, 0.999, v)            
 
-            if self.y_train[self.probit_idxs[type]] is not None:
-                v = np.append(self.y_train[self.probit_idxs[type]][0], v, axis=0)
-                idxs = np.append(self.y_train[self.probit_idxs[type]][1], idxs, axis=0)
+            if y_train[self.probit_idxs[type]] is not None:
+                v = np.append(y_train[self.probit_idxs[type]][0], v, axis=0)
+                idxs = np.append(y_train[self.probit_idxs[type]][1], idxs, axis=0)
 
-            self.y_train[self.probit_idxs[type]] = (v, idxs)
+            y_train[self.probit_idxs[type]] = (v, idxs)
+        else:
+            raise ValueError("PreferenceModel given an unknown type of training data: " + str(type))
 
-        if self.pareto_pairs and len(self.X_train) > 1:
+        if self.pareto_pairs and len(X_train) > 1:
             pairs = []
             d_better = get_dk(1,0)
             # Go through each new sample and check if it pareto optimal to others
             for i, x in enumerate(X):
-                dominate = np.all(x > self.X_train, axis=1)
+                dominate = np.all(x > X_train, axis=1)
 
                 cur_pairs = [(d_better, i+len_X, j) for j in range(len(dominate)) if dominate[j]]
                 pairs += cur_pairs
 
-            if self.y_train[self.probit_idxs['relative_discrete']] is None and len(pairs) > 0:
-                self.y_train[self.probit_idxs['relative_discrete']] = np.array(pairs)
+            if y_train[self.probit_idxs['relative_discrete']] is None and len(pairs) > 0:
+                y_train[self.probit_idxs['relative_discrete']] = np.array(pairs)
             else:
                 # only add pairs if there is any pareto pairs to add.
                 if len(pairs) > 0:
-                    self.y_train[self.probit_idxs['relative_discrete']] = \
-                        np.append(self.y_train[self.probit_idxs['relative_discrete']], \
+                    y_train[self.probit_idxs['relative_discrete']] = \
+                        np.append(y_train[self.probit_idxs['relative_discrete']], \
                                     np.array(pairs), axis=0)
                 else:
                     pass
@@ -275,7 +282,8 @@ class PreferenceModel(Model):
                     #pdb.set_trace()
         # end if for pareto_pairs
 
-
+        self.X_train = X_train
+        self.y_train = y_train
         self.optimized = False
 
 
-- 
2.43.0


From 47812b5f8230c826188f2eb285d39e289f036640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 14/36] fix: removing unreferenced points keeps the labels and
 points of every kind of feedback

---
 src/lop/models/PreferenceModel.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index bc820ff..fb86297 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -96,10 +96,11 @@ class PreferenceModel(Model):
             num_pts = pts.shape[0]
 
         if self.X_train is not None:
-            self.prior_idx = (self.X_train.shape[0], self.X_train.shape[0]+num_pts)
+            prior_idx = (self.X_train.shape[0], self.X_train.shape[0]+num_pts)
         else:
-            self.prior_idx = (0, num_pts)
+            prior_idx = (0, num_pts)
         self.add(pts, [], type='relative_discrete')
+        self.prior_idx = prior_idx
         self.remove_without_reference()
 
 
@@ -116,10 +117,15 @@ class PreferenceModel(Model):
         # iterate through each type of training data
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     counts[pair[1]] += 1
                     counts[pair[2]] += 1
+            else:
+                for idx in y[1]:
+                    counts[idx] += 1
 
         # check which pts don't have any counts
         #idx_to_rm = [x for x in range(len(counts)) if counts[x] == 0]
@@ -138,16 +144,25 @@ class PreferenceModel(Model):
         # reduce indicies of y_train to match removed indicies
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     pair[1] -= counts[pair[1]]
                     pair[2] -= counts[pair[2]]
+            else:
+                new_idx = np.array([idx - int(counts[idx]) for idx in y[1]], dtype=int)
+                self.y_train[self.probit_idxs[type]] = (y[0], new_idx)
 
 
-        if remove_prior:
+        if remove_prior and self.prior_idx is not None:
             # update the index if they have been removed
-            prior_idx = (self.prior_idx[0], self.prior_idx[1] - len(idx_to_rm))
-            self.prior_idx = prior_idx
+            start, end = self.prior_idx
+            rm_before = len([i for i in idx_to_rm if i < start])
+            rm_inside = len([i for i in idx_to_rm if start <= i < end])
+            self.prior_idx = (start - rm_before, end - rm_before - rm_inside)
+
+        self.optimized = False
 
 
 
-- 
2.43.0


From 4eafb120a74948afdbb09d79f3d49a780f9177bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:09 +0000
Subject: [PATCH 15/36] fix: a preference model is marked as fitted only after
 the fit to all of its training data

---
 src/lop/models/PreferenceGP.py     | 9 +++++----
 src/lop/models/PreferenceLinear.py | 2 ++
 src/lop/models/PreferenceModel.py  | 1 +
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 3b58c22..1d5b973 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -103,8 +103,8 @@ class PreferenceGP(PreferenceModel):
             self.cov = cov
             return np.zeros(len(X)), sigma
 
-        # lazy optimization of GP
-        if not self.optimized:
+        # lazy optimization of GP (not when asked to predict from a given F)
+        if not self.optimized and F is None:
             self.optimize(optimize_hyperparameter=self.use_hyper_optimization)
 
         X_test = X
@@ -282,6 +282,9 @@ class PreferenceGP(PreferenceModel):
                                         self.derivatives(y_train, self.F)
 
     def optimize(self, optimize_hyperparameter=False):
+        # only set again after the fit to all of the training data
+        self.optimized = False
+
         if optimize_hyperparameter and self.X_train is not None:
             k_fold = min(math.floor(len(self.X_train) / 2), 4)
             if k_fold > 1:
@@ -363,8 +366,6 @@ class PreferenceGP(PreferenceModel):
     # This function performs an iteration of searching hyperparemters
     def hyperparameter_search(self, X_train, y_train, X_valid, y_valid, prev_grad, itr=0):
         # uses the scipy optimizer to perform the optimization
-        self.optimized = True
-
         x0 = self.get_hyper()
         
 
diff --git a/src/lop/models/PreferenceLinear.py b/src/lop/models/PreferenceLinear.py
index 5f81114..c33a146 100644
--- a/src/lop/models/PreferenceLinear.py
+++ b/src/lop/models/PreferenceLinear.py
@@ -67,6 +67,8 @@ class PreferenceLinear(PreferenceModel):
     # Runs the optimization step required by the user preference GP.
     # @param optimize_hyperparameter - [opt] sets whether to optimize the hyperparameters
     def optimize(self, optimize_hyperparameter=False):
+        self.optimized = False
+
         if len(self.X_train.shape) > 1:
             w = np.random.random(self.X_train.shape[1])
             w = w / np.linalg.norm(w, ord=2)
diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index fb86297..02a2206 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -182,6 +182,7 @@ class PreferenceModel(Model):
         self.y_train = [None for i in range(len(self.probit_idxs))]
         self.X_train = None
         self.prior_idx = None
+        self.optimized = False
 
     ## add_training
     # adds training data to the gaussian process
-- 
2.43.0


From 4b7541ef5b0b8d9411093ebba10e56fe383a6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 16/36] fix: the prior mean of the regression GP is its mean
 function; linear derivatives use the labels they are given

---
 src/lop/models/GP.py               | 2 +-
 src/lop/models/PreferenceLinear.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index a189b62..10f02ef 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -95,7 +95,7 @@ class GP(Model):
             sigma = np.diagonal(self.cov)
             # just in case do to numerical instability a negative variance shows up
             sigma = np.maximum(0, sigma)
-            return np.zeros(len(X)), sigma
+            return np.zeros(len(X)) + self.mean_func(X), sigma
 
         #### This function treats Y as the training data
         Y = self.X_train
diff --git a/src/lop/models/PreferenceLinear.py b/src/lop/models/PreferenceLinear.py
index c33a146..e3db3c1 100644
--- a/src/lop/models/PreferenceLinear.py
+++ b/src/lop/models/PreferenceLinear.py
@@ -129,7 +129,7 @@ class PreferenceLinear(PreferenceModel):
         grad_ll = np.zeros(len(F))
         log_likelihood = 0
         for j, probit in enumerate(self.probits):
-            if self.y_train[j] is not None:
+            if y[j] is not None:
                 W_local, dpy_df_local, py_local = probit.derivatives(y[j], F)
 
                 W += W_local
-- 
2.43.0


From 9b57bf794725b551843b9f0cc5ba35d08e58dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:57 +0000
Subject: [PATCH 17/36] fix: GP.add stores nothing unless all new data fits

---
 src/lop/models/GP.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index 10f02ef..765916a 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -66,6 +66,9 @@ class GP(Model):
         if not isinstance(training_sigma, Sequence):
             training_sigma = np.ones(len(y)) * training_sigma
 
+        if len(X) != len(y) or len(training_sigma) != len(y):
+            raise ValueError("GP training data must have one output and one sigma for each point")
+
         y = y - self.mean_func(X)
 
         if self.X_train is None:
@@ -73,9 +76,14 @@ class GP(Model):
             self.y_train = y
             self.training_sigma = training_sigma
         else:
-            self.X_train = np.append(self.X_train, X, axis=0)
-            self.y_train = np.append(self.y_train, y, axis=0)
-            self.training_sigma = np.append(self.training_sigma, training_sigma, axis=0)
+            # nothing is stored unless all of the new data fits
+            X_train = np.append(self.X_train, X, axis=0)
+            y_train = np.append(self.y_train, y, axis=0)
+            sigma_train = np.append(self.training_sigma, training_sigma, axis=0)
+
+            self.X_train = X_train
+            self.y_train = y_train
+            self.training_sigma = sigma_train
 
 
     ## clear_training
-- 
2.43.0


From 16c2d1e3641d2b708c03889fe34ef540f27997f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:22 +0000
Subject: [PATCH 18/36] fix: model hyper-parameter vectors cover exactly the
 optimised likelihoods with data

---
 src/lop/models/PreferenceGP.py      | 9 +++++----
 src/lop/models/PreferenceModel.py   | 4 ++--
 src/lop/probits/AbsBoundProbit.py   | 4 +++-
 src/lop/probits/PreferenceProbit.py | 2 +-
 src/lop/probits/ProbitBase.py       | 3 +++
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 1d5b973..19efb03 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -477,13 +477,14 @@ class PreferenceGP(PreferenceModel):
     # sample a random hyper parameter from the liklihood functions
     def randomize_hyper(self):
         probit_samples = np.array([])
-        for i in range(len(self.probits)):
-            sample = self.probits[i].randomize_hyper()
-            probit_samples = np.append(probit_samples, sample, axis=0)
+        for i, probit in enumerate(self.probits):
+            if self.y_train[i] is not None and probit.optimize_parameters:
+                probit_samples = np.append(probit_samples, probit.randomize_hyper(), axis=0)
 
         if self.hyperparam_only_probit:
             self.set_hyper(probit_samples)
-        
+            return
+
         cov_samples = self.cov_func.randomize_hyper()
 
         self.set_hyper(np.append(probit_samples, cov_samples, axis=0))
diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 02a2206..e68f963 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -341,7 +341,7 @@ class PreferenceModel(Model):
     def get_hyper(self):
         probit_p = np.empty((0,))
         for i, probit in enumerate(self.probits):
-            if self.y_train[i] is not None:
+            if self.y_train[i] is not None and probit.optimize_parameters:
                 probit_p = np.append(probit_p, probit.get_hyper(),axis=0)
             
         return probit_p
@@ -355,7 +355,7 @@ class PreferenceModel(Model):
         cur_idx = 0
 
         for i, probit in enumerate(self.probits):
-            if self.y_train[i] is not None:
+            if self.y_train[i] is not None and probit.optimize_parameters:
                 p = probit.get_hyper()
                 end_idx = cur_idx + len(p)
                 probit.set_hyper(x[cur_idx:end_idx])
diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 64364c3..a4adf0e 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -167,7 +167,9 @@ class AbsBoundProbit(ProbitBase):
     # liklihood function
     # @return numpy array of independent samples.
     def randomize_hyper(self):
-        if self.optimize_v_only:
+        if not self.optimize_parameters:
+            return super().randomize_hyper()
+        elif self.optimize_v_only:
             return np.array([np.random.gamma(self.v_k, self.v_theta)])
         else:
             return np.array([
diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index 9a7e582..28a26a9 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -241,7 +241,7 @@ class PreferenceProbit(ProbitBase):
     # @reutrn 2d matrix
     def calc_W_dHyper(self, y, F):
         if not self.optimize_parameters:
-            return np.empty((0,))
+            return super().calc_W_dHyper(y, F)
 
         z = self.z_k(y, F)
         pdf_cdf_ratio, pdf_cdf_ratio2 = calc_pdf_cdf_ratio(z)
diff --git a/src/lop/probits/ProbitBase.py b/src/lop/probits/ProbitBase.py
index d464328..c25f803 100644
--- a/src/lop/probits/ProbitBase.py
+++ b/src/lop/probits/ProbitBase.py
@@ -70,6 +70,9 @@ class ProbitBase:
     type = 'unknown'
     y_type = 'unknown'
 
+    # sets whether the parameters of the probit are hyperparameters of the model
+    optimize_parameters = False
+
 
     ## set_hyper
     # Sets the hyperparameters for the probit
-- 
2.43.0


From f5baf18de1bc7941228c16f2b555f94d40628e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:35 +0000
Subject: [PATCH 19/36] fix: AbsBoundProbit prior gradient is the derivative of
 its prior

---
 src/lop/probits/AbsBoundProbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index a4adf0e..e40da4e 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -204,8 +204,8 @@ class AbsBoundProbit(ProbitBase):
                 return np.array([0.0])
                 return np.array([d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
             else:
-                return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta),
-                        d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
+                # the prior used for v is flat
+                return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta), 0.0])
         else:
             return super().grad_param_likli()
 
-- 
2.43.0


From 50935034e1a01966984feda348f5a3da9ec825d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 20/36] fix: kernel part of the evidence gradient multiplies
 the implicit terms

---
 src/lop/models/PreferenceGP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 19efb03..2270342 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -552,7 +552,7 @@ class PreferenceGP(PreferenceModel):
             # Equation 209
             termB_1 = 0.5 * np.trace(B_inv @ K @ dW_f, axis1=1, axis2=2)
 
-            dL_cov_f[i] = termA_1 - termA_2 + np.sum(termB_2 - termB_1)
+            dL_cov_f[i] = termA_1 - termA_2 - termB_1 @ termB_2
 
 
         # Liklihood function parameters
-- 
2.43.0


From 1691a6f98877d5d48f45a08db373b86018813600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 21/36] fix: pairs are picked from the candidates a learner was
 told to choose among, and only when two are asked for

---
 .../active_learning/AcquisitionSelection.py   |  2 +-
 src/lop/active_learning/ActiveLearner.py      | 47 +++++++------------
 src/lop/active_learning/BayesInfoGain.py      |  4 +-
 3 files changed, 19 insertions(+), 34 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index 8ec26be..e42d02f 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -231,6 +231,6 @@ class AcquisitionSelection(AcquisitionBase):
         # represents the alignment metric for each pair being selected as align_Q
         align_Q = E_align_q + E_align_q.T
         
-        pair = self.pick_pair_from_metric(align_Q, prev_selection)
+        pair = self.pick_pair_from_metric(align_Q, prev_selection, indicies)
         self.sel_metric = align_Q[pair[0], pair[1]]
         return pair
diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 1d9cd6d..e1939e3 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -106,7 +106,7 @@ class ActiveLearner:
                     selected_idx = not_selected[0]
                     not_selected.pop(0) 
                 else:
-                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and hasattr(self, "select_pair"):
+                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_pair = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         selected_idx = selected_pair[0]
 
@@ -138,7 +138,7 @@ class ActiveLearner:
             while len(sel_pts) < num_alts:
                 # only select from the prefered points if they still exist
                 if len(pref_not_sel) > 0:
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and len(sel_pts) == 0 and num_alts > 1 and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         
                         if selected_idx[0] in pref_not_sel:
@@ -155,7 +155,7 @@ class ActiveLearner:
                     # ensure that there is at least some pts left to select from
                     if len(all_not_selected) == 0:
                         raise Exception("Not enough points for select to create a full set")
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and len(sel_pts) == 0 and num_alts > 1 and len(all_not_selected) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         all_not_selected.remove(selected_idx[0])
                         all_not_selected.remove(selected_idx[1])
@@ -264,40 +264,25 @@ class ActiveLearner:
     # pick a particular pair from a matrix of info gain
     # @param info_gain - 2d matrix [Q,Q] each represents the info gain of picking
     #                   pair [i,j].
+    # @param prev_selection - a set of indicies of previously selected points
+    # @param indicies - [opt] the indicies the pair is picked from (all of them by default)
     #
     # @return (i,j) pair to select
-    def pick_pair_from_metric(self, info_gain, prev_selection):
-        # just a check to ensure the same points do not get selected twice.
-        # Shouldn't happen, but in case it does... really makes sure.
-        np.fill_diagonal(info_gain, -np.inf)
+    def pick_pair_from_metric(self, info_gain, prev_selection, indicies=None):
+        if indicies is None:
+            indicies = range(info_gain.shape[0])
 
-        sorted = np.argsort(info_gain.flatten())[-1::-1]
-        N = info_gain.shape[0]
+        # the same point is not selected twice, and nothing is selected again.
+        idxs = [i for i in indicies if i not in prev_selection]
+        pairs = [(i, j) for i in idxs for j in idxs if i != j]
+        if len(pairs) == 0:
+            raise Exception("Not enough points to pick a pair")
 
-        num_same = 0
-        for i in range(N):
-            num_same = i
-            if info_gain.flatten()[sorted[i]] != info_gain.flatten()[sorted[0]]:
-                break
-
-        
+        values = np.array([info_gain[i, j] for i, j in pairs])
 
         # randomly select from the same values
-        if num_same == 0:
-            pdb.set_trace()
-        to_pick = np.random.randint(0, num_same)
-
-        idx_best = np.unravel_index(sorted[to_pick], info_gain.shape)
-
-        if idx_best[0] in prev_selection and idx_best[1] in prev_selection:
-            # handle case where index already selected (allow one selection but not both)
-            for i in range(len(sorted)):
-                idx_best = np.unravel_index(sorted[i], info_gain.shape)
-
-                if not (idx_best[0] in prev_selection and idx_best[1] in prev_selection):
-                    break
-        
-        return idx_best
+        best = np.flatnonzero(values == np.max(values))
+        return pairs[np.random.choice(best)]
 
 
     ################### Functions to calculate probability of each candidate being the best
diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 92fa0f7..d9cccee 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -178,7 +178,7 @@ class BayesInfoGain(ActiveLearner):
         p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
 
         if self.model.X_train is None:
-            idxs = np.random.choice(list(indicies), 2)
+            idxs = np.random.choice(list(indicies), 2, replace=False)
             return (idxs[0], idxs[1])
 
         if debug:
@@ -257,7 +257,7 @@ class BayesInfoGain(ActiveLearner):
             print(info_gain)
 
 
-        idx_best = self.pick_pair_from_metric(info_gain, prev_selection)
+        idx_best = self.pick_pair_from_metric(info_gain, prev_selection, indicies)
         
 
         print('idx_best: ' + str(idx_best))
-- 
2.43.0


From de580bc6aa2018d99ac3ecef36c4d6514da1850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 22/36] fix: random selections of the information-gain and
 acquisition learners return an index and record a score

---
 src/lop/active_learning/AbsBayesInfo.py         | 1 +
 src/lop/active_learning/AcquisitionSelection.py | 2 +-
 src/lop/active_learning/BayesInfoGain.py        | 5 ++++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/AbsBayesInfo.py b/src/lop/active_learning/AbsBayesInfo.py
index f74c389..5b4eeed 100644
--- a/src/lop/active_learning/AbsBayesInfo.py
+++ b/src/lop/active_learning/AbsBayesInfo.py
@@ -109,6 +109,7 @@ class AbsBayesInfo(ActiveLearner):
 
         # If there is no data, just provide a random selection
         if self.model.X_train is None:
+            self.sel_metric = 0
             return np.random.choice(list(indicies), 1)[0]
 
         # Calculate p_B
diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index e42d02f..350a721 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -100,7 +100,7 @@ class AcquisitionSelection(AcquisitionBase):
             # THIS IS PROBABLY NOT THE RIGHT WAY TO HANDLE THIS
             # But needs at least a pair in order to calculate properly.
             self.sel_metric = 0
-            return np.random.choice(indicies)[0]
+            return np.random.choice(indicies)
             #return np.argmax(mu)
 
         x_rep, Q_rep = self.get_representative_Q(candidate_pts)
diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index d9cccee..a97b502 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -104,7 +104,7 @@ class BayesInfoGain(ActiveLearner):
                 probit_mat = self.model.probits[0].likelihood_all_pairs(mu)
 
                 # Get the probabilities of which candidate_pts is the best.
-                p_B = self.p_B_pref_linear(candidate_pts, mu, probit_mat)
+                p_B = self.p_B_pref_linear(candidate_pts, mu)
             self.p_B = p_B
             self.probit_mat = probit_mat
             self.first_call_greedy = False
@@ -130,6 +130,7 @@ class BayesInfoGain(ActiveLearner):
 
         # If there is no data, just provide a random selection
         if self.model.X_train is None:
+            self.sel_metric = 0
             return np.random.choice(list(indicies), 1)[0]
 
         if debug:
@@ -157,6 +158,7 @@ class BayesInfoGain(ActiveLearner):
 
             if len(Q) < 2:
                 # THIS IS PROBABLY NOT THE RIGHT WAY TO HANDLE THIS
+                self.sel_metric = 0
                 return np.random.choice(indicies)
                 #return np.argmax(p_B)
 
@@ -179,6 +181,7 @@ class BayesInfoGain(ActiveLearner):
 
         if self.model.X_train is None:
             idxs = np.random.choice(list(indicies), 2, replace=False)
+            self.sel_metric = 0
             return (idxs[0], idxs[1])
 
         if debug:
-- 
2.43.0


From 3fd02917abf7a63f7e7c28d2483bc0aee6e64dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:28 +0000
Subject: [PATCH 23/36] fix: AbsBayesInfo scores candidates, and preferred
 points are counted, within the candidates given

---
 src/lop/active_learning/AbsBayesInfo.py  | 4 ++--
 src/lop/active_learning/ActiveLearner.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lop/active_learning/AbsBayesInfo.py b/src/lop/active_learning/AbsBayesInfo.py
index 5b4eeed..8996722 100644
--- a/src/lop/active_learning/AbsBayesInfo.py
+++ b/src/lop/active_learning/AbsBayesInfo.py
@@ -115,7 +115,7 @@ class AbsBayesInfo(ActiveLearner):
         # Calculate p_B
         # all_f = [samples, num_candidate_pts]
         
-        p_b, all_f = self.calc_one_time(candidate_pts[indicies], mu)
+        p_b, all_f = self.calc_one_time(candidate_pts, mu)
 
         ml = self.model.probits[2].mean_link(all_f)
         aa, bb = self.model.probits[2].get_alpha_beta_ml(all_f, ml)
@@ -129,7 +129,7 @@ class AbsBayesInfo(ActiveLearner):
         E_q_H_B = np.sum(-p_b * E_over_samples, axis=1)
         H_B = np.sum(-p_b * np.log(p_b))
 
-        info_gain = H_B - E_q_H_B
+        info_gain = (H_B - E_q_H_B)[indicies]
 
         best_idx = np.argmax(info_gain)
         self.sel_metric = info_gain[best_idx]
diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index e1939e3..0d89855 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -201,7 +201,7 @@ class ActiveLearner:
             elif prefer_pts < 0:
                 raise ValueError("Can't pass negative number of points to prefer")
             else:
-                return set(range(prefer_pts)) # first set of indicies of prefered points
+                return set(range(min(prefer_pts, len(candidate_pts)))) # first set of indicies of prefered points
         else:
             raise ValueError("get_prefered_set_of_pts/select passed unknown prefer_pts number")
 
-- 
2.43.0


From 0a008593887ebd60257fbb75a8a80b74561694c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 24/36] fix: mixed learners withdraw the samples they shared
 when a selection is over

---
 src/lop/active_learning/MixedStrategy.py     |  8 ++++++++
 src/lop/active_learning/RateChooseLearner.py | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index 344215d..b8ef5fc 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -287,6 +287,10 @@ class MixedDecision(MixedStrategyPeak3):
                     sel_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
                 self.state = 0
 
+            # the samples are only for these candidates
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
+
 
 
 
@@ -437,6 +441,10 @@ class MixedDecision2(MixedStrategyPeak3):
                     sel_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
                 self.state = 0
 
+            # the samples are only for these candidates
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
+
 
 
 
diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index c280ec0..ba196a9 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -81,6 +81,10 @@ class RateChooseLearner(ActiveLearner):
         abs_idxs = self.abs_l.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
 
+        # the samples are only for these candidates
+        self.pairwise_l.unset_samples()
+        self.abs_l.unset_samples()
+
         print('Pairwise selected metric: ' + str(self.pairwise_l.sel_metric))
         print('Absloute selected metric: ' + str(self.abs_l.sel_metric))
         if self.pairwise_l.sel_metric > self.abs_l.sel_metric:
@@ -164,6 +168,10 @@ class MixedComparision(RateChooseLearner):
         # calculate absloute selected metric
         _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
         abs_metric = self.abs_comp.sel_metric
+
+        # the samples are only for these candidates
+        self.pairwise_l.unset_samples()
+        self.abs_comp.unset_samples()
         
 
         abs_metric = self.alpha * abs_metric
@@ -361,6 +369,10 @@ class MixedComparisionEqualChecking(RateChooseLearner):
         # calculate absloute selected metric
         _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
         abs_metric = self.abs_comp.sel_metric
+
+        # the samples are only for these candidates
+        self.pairwise_l.unset_samples()
+        self.abs_comp.unset_samples()
         
         print('Pairwise selected metric: ' + str(pair_metric))
         print('Absloute selected metric: ' + str(abs_metric))
-- 
2.43.0


From ece021a2542bdbb03bbb9ba90824d1cc3cb8680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 25/36] fix: mixed learners count calls from construction and
 compare the metrics they weigh

---
 src/lop/active_learning/MixedStrategy.py     | 1 +
 src/lop/active_learning/RateChooseLearner.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index b8ef5fc..4984d44 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -43,6 +43,7 @@ class MixedStrategy(RateChooseLearner):
         super(MixedStrategy, self).__init__(pairwise_l, abs_l, default_to_pareto, always_select_best)
 
         self.p_abs_param = p_abs_param
+        self.num_calls = 0
 
     
     ## mixed_probability
diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index ba196a9..dbb4c48 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -181,7 +181,7 @@ class MixedComparision(RateChooseLearner):
         print('Absloute selected metric: ' + str(abs_metric))
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
@@ -398,7 +398,7 @@ class MixedComparisionEqualChecking(RateChooseLearner):
         
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
-- 
2.43.0


From cdbeed88f7ad67734ba007fc181e14ef4823349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:56 +0000
Subject: [PATCH 26/36] fix: AlignmentDecision leaves data, fit flag and sample
 count of its parts restored, and always has scores to return

---
 src/lop/active_learning/MixedTypeDecision.py | 55 ++++++++++----------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 4d77717..9a0fc7b 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -70,7 +70,7 @@ class AlignmentDecision(RateChooseLearner):
         #abs_idxs = self.abs_l.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
         select_pair = True
-        
+        rating_score, pref_score = None, None
 
         if self.num_calls < self.calls_to_decision:
             if self.num_calls % 2 == 0:
@@ -99,49 +99,49 @@ class AlignmentDecision(RateChooseLearner):
         self.pairwise_l.unset_samples()
         #mu, data = self.pairwise_l.model.predict(candidate_pts)
         M_prev = self.pairwise_l.M
-        self.pairwise_l.M = 8000
-
-        
         x_rep, Q_rep = self.pairwise_l.get_representative_Q(candidate_pts)
         mu, sig = self.model.predict(x_rep)
         all_cov = self.model.cov
-        all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
-
 
-
-        pref_data = self.model.y_train[self.model.probit_idxs['relative_discrete']]
-        rating_data = self.model.y_train[self.model.probit_idxs['abs']]
+        pref_idx = self.model.probit_idxs['relative_discrete']
+        rating_idx = self.model.probit_idxs['abs']
+        pref_data = self.model.y_train[pref_idx]
+        rating_data = self.model.y_train[rating_idx]
 
         print('pref_data')
         print(pref_data)
         print('rating_data')
         print(rating_data)
 
-        ## Generate samples using only preference data
-        self.model.y_train[2] = None
-        self.model.optimize()
-        mu_pref, sig_pref = self.model.predict(x_rep)
-        pref_cov = self.model.cov
-
-        pref_rep, pref_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
+        try:
+            self.pairwise_l.M = 8000
+            all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
 
+            ## Generate samples using only preference data
+            self.model.y_train[rating_idx] = None
+            self.model.optimize()
+            mu_pref, sig_pref = self.model.predict(x_rep)
+            pref_cov = self.model.cov
 
-        ## Generate samples using only rating data
-        self.model.y_train[0] = None
-        self.model.y_train[2] = rating_data
-        
+            pref_rep, pref_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
 
-        self.model.optimize()
-        mu_rating, sig_rating = self.model.predict(x_rep)
-        rating_cov = self.model.cov
 
-        rating_rep, rating_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
+            ## Generate samples using only rating data
+            self.model.y_train[pref_idx] = None
+            self.model.y_train[rating_idx] = rating_data
         
 
+            self.model.optimize()
+            mu_rating, sig_rating = self.model.predict(x_rep)
+            rating_cov = self.model.cov
 
-        ## Reset model and start evaluating samples
-        self.model.y_train[0] = pref_data
-        self.model.y_train[2] = rating_data
+            rating_rep, rating_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
+        finally:
+            ## Reset model (it has not been fitted to all of its data)
+            self.model.y_train[pref_idx] = pref_data
+            self.model.y_train[rating_idx] = rating_data
+            self.model.optimized = False
+            self.pairwise_l.M = M_prev
 
         ## Evaluate samples
         align_pref_f = self.pairwise_l.alignment_between(pref_rep, all_rep)
@@ -169,7 +169,6 @@ class AlignmentDecision(RateChooseLearner):
         print('corr pref = ' + str(np.mean(corr_pref[:-1, -1])) + 
               ' corr rating = ' + str(np.mean(corr_rating[:-1, -1])))
 
-        self.pairwise_l.M = M_prev
         return align_pref_mu > align_rate_mu, align_rate_mu, align_pref_mu
 
 
-- 
2.43.0


From 1a38d0198e2b300620d19f727503acff0fbea0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:32 +0000
Subject: [PATCH 27/36] fix: choice probabilities are a softmax of each row

---
 src/lop/utilities/human_choice_model.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lop/utilities/human_choice_model.py b/src/lop/utilities/human_choice_model.py
index 7b86ed1..1d24b2d 100644
--- a/src/lop/utilities/human_choice_model.py
+++ b/src/lop/utilities/human_choice_model.py
@@ -41,13 +41,9 @@ from scipy import stats
 #
 # @return output probability distribution of human choice
 def p_human_choice(r, p=1.0):
-    r = r - np.max(r)
+    r = r - np.max(r, axis=-1, keepdims=True)
     e = np.exp(r*p) # exponent of r
-    if len(r.shape) > 1:
-        sum_e = np.sum(e,axis=-1)
-        return e / sum_e[:,np.newaxis]
-    else:
-        return e / np.sum(e)
+    return e / np.sum(e, axis=-1, keepdims=True)
 
     
 
-- 
2.43.0


From 2b7b5c8a90cc28ec56121f177ad24d75178572f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:48 +0000
Subject: [PATCH 28/36] fix: generate_ranking_pairs returns its pairs,
 sampled_objective2 uses defined values

---
 src/lop/utilities/preference_pairs.py | 2 ++
 src/lop/utilities/synthetic_user.py   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lop/utilities/preference_pairs.py b/src/lop/utilities/preference_pairs.py
index c70f7fb..073c7ab 100644
--- a/src/lop/utilities/preference_pairs.py
+++ b/src/lop/utilities/preference_pairs.py
@@ -112,5 +112,7 @@ def generate_ranking_pairs(X, real_f):
         for j, idx2 in enumerate(sorted_idx[i+1:]):
             pairs.append((get_dk(1,0), idx1, idx2))
 
+    return pairs
+
 
 
diff --git a/src/lop/utilities/synthetic_user.py b/src/lop/utilities/synthetic_user.py
index 85539e9..cd7ca47 100644
--- a/src/lop/utilities/synthetic_user.py
+++ b/src/lop/utilities/synthetic_user.py
@@ -142,7 +142,7 @@ class HumanChoiceUser(SyntheticUser):
         pf = np.random.random(p_max.shape[0])
 
         count = np.sum(pf <= p_max)
-        p_samp = count / sample_queries.shape[0]
+        p_samp = count / Qs.shape[0]
 
         return (p_samp - desired_p)**2
 
-- 
2.43.0


From 5bba79510728fab05988b8671cac72251fc0029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:59 +0000
Subject: [PATCH 29/36] fix: k-fold splitting draws from the numpy generator
 like everything else

---
 src/lop/utilities/training_utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/training_utility.py b/src/lop/utilities/training_utility.py
index 221f56f..9210dd0 100644
--- a/src/lop/utilities/training_utility.py
+++ b/src/lop/utilities/training_utility.py
@@ -72,7 +72,7 @@ def k_fold_x_y(X, y, k):
 
         splits[split_idx].append(idx)
 
-        random.shuffle(conn[idx])
+        np.random.shuffle(conn[idx])
         shuffled_idxs = conn[idx]
 
         # try to add as many as possible while still allowing all k fold to even
-- 
2.43.0


From 99a233a98b1aafa2cf9ad0fc2fc13a6b6627914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:08 +0000
Subject: [PATCH 30/36] fix: calc_cdf standardises with the standard deviation

---
 src/lop/utilities/probability_utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/probability_utility.py b/src/lop/utilities/probability_utility.py
index 5ee8d68..a10fba4 100644
--- a/src/lop/utilities/probability_utility.py
+++ b/src/lop/utilities/probability_utility.py
@@ -38,7 +38,7 @@ def calc_cdf(mu, cov, method='mvn'):
 
     elif method == 'independent':
         
-        return np.prod(spec.ndtr((0 - mu) / np.diagonal(cov)))
+        return np.prod(spec.ndtr((0 - mu) / np.sqrt(np.diagonal(cov))))
 
 
     elif method == 'switch':
@@ -70,7 +70,7 @@ def calc_cdf(mu, cov, method='mvn'):
             mu = np.delete(mu, idx, 0)
 
         if cov.shape[0] == 1:
-            p *= spec.ndtr((0 - mu[0]) / cov[0,0])
+            p *= spec.ndtr((0 - mu[0]) / np.sqrt(cov[0,0]))
 
         return p
     
-- 
2.43.0


From 496b9ea309e0cdc1e49e87bc9e1b842e176eb5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:01 +0000
Subject: [PATCH 31/36] fix: preference model functions called with the
 arguments they need and attributes set from construction

---
 src/lop/models/PreferenceGP.py    | 19 ++++++++++++-------
 src/lop/models/PreferenceModel.py |  3 +++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 2270342..074d70f 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -86,7 +86,7 @@ class PreferenceGP(PreferenceModel):
 
         self.delta_f = 0.0002 # set the convergence to stop
         self.maxloops = 100
-        
+        self.debug_print = False
 
 
 
@@ -340,7 +340,7 @@ class PreferenceGP(PreferenceModel):
     # @param args - the input arguments either than the actual hyperparameters
     #
     # @return the objective to be minimized
-    def hyperparameter_obj(self, x, X_train, y_train, X_valid, y_valid, bounds):
+    def hyperparameter_obj(self, x, X_train, y_train, X_valid, y_valid, bounds=None):
 
         self.set_hyper(x)
         #self.find_mode(X_train, y_train)
@@ -352,7 +352,7 @@ class PreferenceGP(PreferenceModel):
         #bounds_cost = 5*sum([np.exp(-20*(np.abs(x[i] - bounds[i][0]))) + np.exp(-20*(np.abs(x[i] - bounds[i][1]))) for i in range(len(bounds))])
         return -self.likli_f_hyper(F, X_valid, y_valid) - self.hyper_liklihood()
 
-    def hyperparamter_obj_grad(self, x, X_train, y_train, X_valid, y_valid, bounds):
+    def hyperparamter_obj_grad(self, x, X_train, y_train, X_valid, y_valid, bounds=None):
         self.set_hyper(x)
         #self.find_mode(X_train, y_train)
         W, grad_ll, log_py_f = self.derivatives(y_train, self.F)
@@ -624,13 +624,18 @@ class PreferenceGP(PreferenceModel):
     # @param F - the given locations of the model given the x and labels y
     # @param x - the given inputs of the function
     # @param y - the labels of given function (pairwise parameters etc)
+    # @param K - [opt] the covariance of the inputs
+    # @param L - [opt] the cholesky decomposition of the covariance of the inputs
     #
     # @return a scalar value as the log liklihood of the model
-    def likli_f(self, F, x, y, K, L):
-        #K = self.cov_func.cov(x, x)
+    def likli_f(self, F, x, y, K=None, L=None):
+        if L is None:
+            if K is None:
+                K = self.cov_func.cov(x, x)
+            L = np.linalg.cholesky(K)
+
          # calculate the log-likelyhood of the data given F
         log_py_f = self.log_likelyhood_training(F, y)
-        #L = np.linalg.cholesky(K)
 
         term1 = 0.5*(np.transpose(F) @ cho_solve((L, True), F))
 
@@ -716,7 +721,7 @@ class PreferenceGP(PreferenceModel):
         sigma_to_plot = 1
 
         ax.fill_between(X, mu-(sigma_to_plot*std), mu+(sigma_to_plot*std), color='#dddddd')
-        self.plot_preference(head_width=0.1, ax=ax, X_train=x_train, y_train=y_train, F=F)
+        self.plot_preference(ax=ax, X_train=x_train, y_train=y_train, F=F)
         ax.scatter(x_train, F)
 
         
diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index e68f963..0db86ee 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -60,6 +60,9 @@ class PreferenceModel(Model):
         self.prior_idx = None
         self.n_loops = -1
 
+        # step size of newton_update for the "static" lambda type
+        self.lambda_gp = 1.0
+
 
     def set_num_ordinals(self, num_ordinals):
         self.probits[self.probit_idxs['ordinal']].n_ordinals = num_ordinals
-- 
2.43.0


From af76b2d602b3d9a94ebcff62bd8ff2a3b7b04fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:51 +0000
Subject: [PATCH 32/36] fix: select_greedy_k calls select_greedy with the
 arguments it takes

---
 src/lop/active_learning/ActiveLearner.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 0d89855..ec073f5 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -246,16 +246,26 @@ class ActiveLearner:
     # select_greedy_k
     # This function selects the top k canidates given the data and the select greedy
     # function. This allows a function to select multiple choices in a greedy manner.
-    def select_greedy_k(self, cur_selection, num_alts, data):
+    # @param candidate_pts - a numpy array of points (nxk), n = number points, k = number of dimmensions
+    # @param mu - a numpy array of mu values outputed from predict. numpy (n)
+    # @param data - a user defined tuple of data (determined by the predict function of the model)
+    # @param indicies - a list or set of indicies in candidate points to consider.
+    # @param cur_selection - the indicies of the points already selected
+    # @param num_alts - the number of points selected including the current selection
+    #
+    # @return list of selected indicies, list of selection values (-inf for the current selection)
+    def select_greedy_k(self, candidate_pts, mu, data, indicies, cur_selection, num_alts):
+        cur_selection = list(cur_selection)
         num_itr = num_alts - len(cur_selection)
 
 
         sel_values = [-float('inf')] * len(cur_selection)
 
         for i in range(num_itr):
-            selection, sel_value = self.select_greedy(cur_selection, data)
+            not_selected = set(indicies) - set(cur_selection)
+            selection = self.select_greedy(candidate_pts, mu, data, not_selected, set(cur_selection))
             cur_selection.append(selection)
-            sel_values.append(sel_value)
+            sel_values.append(self.sel_metric)
 
         return cur_selection, sel_values
 
-- 
2.43.0


From 7814bb389aa737bde86d3d40cea92ae016002dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:03 +0000
Subject: [PATCH 33/36] fix: select uses the points it put aside before it
 reports too few points

---
 src/lop/active_learning/ActiveLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index ec073f5..2c0f0da 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -99,7 +99,7 @@ class ActiveLearner:
             all_not_selected = (set(range(len(candidate_pts))) - prev_selection) - set(sel_pts)
             not_selected = []
 
-            while len(sel_pts) < num_alts and len(all_not_selected) > 0:
+            while len(sel_pts) < num_alts and (len(all_not_selected) > 0 or len(not_selected) > 0):
                 # weird case where points have been selected already but out of 'prefered points'
                 # take the first index of the list then.
                 if len(pref_not_sel) == 0 and len(not_selected) > 0:
-- 
2.43.0


From 309a3c9cb8b92896c7aab3b2822484057dd2357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:59 +0000
Subject: [PATCH 34/36] fix: folds of cross-validation are as even as possible

---
 src/lop/utilities/training_utility.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lop/utilities/training_utility.py b/src/lop/utilities/training_utility.py
index 9210dd0..b73cbe9 100644
--- a/src/lop/utilities/training_utility.py
+++ b/src/lop/utilities/training_utility.py
@@ -42,7 +42,10 @@ def k_fold_x_y(X, y, k):
         k = int(N / 2.0)
         if k < 2:
             return None
-    set_max_size = math.ceil(N / k)
+    # N = k * min_size + num_larger, so even splits are num_larger splits of
+    # (min_size + 1) points, and the rest of min_size points.
+    min_size = N // k
+    num_larger = N % k
 
     splits = [[] for i in range(k)]
     conn = [set() for i in range(N)]
@@ -76,6 +79,8 @@ def k_fold_x_y(X, y, k):
         shuffled_idxs = conn[idx]
 
         # try to add as many as possible while still allowing all k fold to even
+        larger = [i for i in range(k) if i != split_idx and len(splits[i]) > min_size]
+        set_max_size = min_size + (1 if len(larger) < num_larger else 0)
         for shuf_idx in shuffled_idxs:
             if len(splits[split_idx]) >= set_max_size:
                 break
-- 
2.43.0


From d9e57a39c5e1eaaef3bef4c5c1677dbcf3d1e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:10 +0000
Subject: [PATCH 35/36] fix: simulated reward functions give every point its
 own value

---
 src/lop/utilities/FakeFunction.py | 37 ++++++++++++-------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 610dc1c..4484f36 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -145,11 +145,8 @@ class FakeWeightedMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
-        return np.max(rewards * self.w, axis=1)
+            return rewards
+        return np.max(rewards * self.w, axis=-1)
 
     def __str__(self):
         return 'FakeWeightedMax: (w: ' + str(self.w) + ')'
@@ -172,11 +169,8 @@ class FakeWeightedMin(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.min(rewards * self.w)
-        return np.min(rewards * self.w, axis=1)
+            return rewards
+        return np.min(rewards * self.w, axis=-1)
 
     def __str__(self):
         return 'FakeWeightedMin: (w: ' + str(self.w) + ')'
@@ -199,13 +193,10 @@ class FakeSquaredMinMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
+            return rewards
         vals = rewards * self.w
-        mins = np.min(vals, axis=1)
-        return np.sqrt(np.max(vals, axis=1)) + mins*mins
+        mins = np.min(vals, axis=-1)
+        return np.sqrt(np.max(vals, axis=-1)) + mins*mins
 
     def __str__(self):
         return 'FakeSquaredMinMax: (w: ' + str(self.w) + ')'
@@ -260,16 +251,16 @@ class FakeMixtureGaussian(FakeFunction):
         self.means = np.random.random(size=(self.num_kerns, self.dim)) * 3.0
 
     def calc(self, rewards):
-        
-
-        if isinstance(rewards, np.ndarray):
-            z = np.zeros(rewards.shape[0])
-        else:
-            z = 0
+        rewards = np.asarray(rewards)
+        if self.dim == 1:
+            # every entry is a point of one reward
+            rewards = rewards[..., np.newaxis]
 
+        z = np.zeros(rewards.shape[:-1])
         for i in range(self.num_kerns):
             #z += norm.pdf(rewards, loc=self.means[i], scale=self.sigs[i])
-            z += multivariate_normal.pdf(rewards, mean=self.means[i], cov=self.covs[i])
+            pdf = multivariate_normal.pdf(rewards, mean=self.means[i], cov=self.covs[i])
+            z = z + np.reshape(pdf, z.shape)
 
         return z
 
-- 
2.43.0


From 5262e60a7c56c22510730be51e8fc9093aa3d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:13 +0000
Subject: [PATCH 36/36] fix: the greedy information gain of the 'probit' method
 uses the answer probabilities given the best candidate

---
 src/lop/active_learning/BayesInfoGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index a97b502..137e1f8 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -54,7 +54,7 @@ class BayesInfoGain(ActiveLearner):
                     if self.p_q_B_method == 'probit':
                         sub_probit = probit_mat[q_i, Q_subi]
                         sub_probit_w = np.where(q_i == B_i, np.fmax(sub_probit, 1-sub_probit), sub_probit)
-                        p_q_B[i, B_i] = np.prod(sub_probit)
+                        p_q_B[i, B_i] = np.prod(sub_probit_w)
                     elif self.p_q_B_method == '999': 
                         p_q_B[i, B_i] = np.prod(np.where(q_i == B_i, 0.999, sub_probit))
                     elif self.p_q_B_method == '99':
-- 
2.43.0

