From 017919cd5dd93b5185c5622d494f873cc63cfdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 01/15] fix: GNGD and VSLMS filters keep a copy of the last
 sample

The caller's array was kept by reference, so reusing one input buffer for
consecutive adapt() calls silently changed the remembered sample.
---
 padasip/filters/gngd.py             | 2 +-
 padasip/filters/vslms_ang.py        | 2 +-
 padasip/filters/vslms_benveniste.py | 2 +-
 padasip/filters/vslms_mathews.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/padasip/filters/gngd.py b/padasip/filters/gngd.py
index 3cad233..ef28304 100644
--- a/padasip/filters/gngd.py
+++ b/padasip/filters/gngd.py
@@ -90,5 +90,5 @@ class FilterGNGD(AdaptiveFilter):
                    np.dot(x, self.last_x) / \
                    (np.dot(self.last_x, self.last_x) + self.eps) ** 2
         nu = self.mu / (self.eps + np.dot(x, x))
-        self.last_e, self.last_x = e, x
+        self.last_e, self.last_x = e, np.copy(x)
         return nu * e * x
diff --git a/padasip/filters/vslms_ang.py b/padasip/filters/vslms_ang.py
index 7281328..41cd543 100644
--- a/padasip/filters/vslms_ang.py
+++ b/padasip/filters/vslms_ang.py
@@ -99,5 +99,5 @@ class FilterVSLMS_Ang(AdaptiveFilter):
         """
         fi = (self.a * self.last_fi) + (self.last_e * self.last_x)
         mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))
-        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
+        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, np.copy(x), fi
         return mu * e * x
diff --git a/padasip/filters/vslms_benveniste.py b/padasip/filters/vslms_benveniste.py
index 97a8242..e4abbdc 100644
--- a/padasip/filters/vslms_benveniste.py
+++ b/padasip/filters/vslms_benveniste.py
@@ -96,5 +96,5 @@ class FilterVSLMS_Benveniste(AdaptiveFilter):
         fi_part = np.eye(self.n) - (self.last_mu * np.outer(self.last_x, self.last_x))
         fi = np.dot(fi_part, self.last_fi) + (self.last_e * self.last_x)
         mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))
-        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
+        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, np.copy(x), fi
         return mu * e * x
diff --git a/padasip/filters/vslms_mathews.py b/padasip/filters/vslms_mathews.py
index a7e9630..c217f57 100644
--- a/padasip/filters/vslms_mathews.py
+++ b/padasip/filters/vslms_mathews.py
@@ -93,5 +93,5 @@ class FilterVSLMS_Mathews(AdaptiveFilter):
         Override the parent class.
         """
         mu = self.last_mu + (self.ro * e * self.last_e * np.dot(self.last_x, x))
-        self.last_e, self.last_mu, self.last_x = e, mu, x
+        self.last_e, self.last_mu, self.last_x = e, mu, np.copy(x)
         return mu * e * x
-- 
2.43.0


From 91c2e4cab349e02c28182608502c79970da79fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 02/15] fix: MLP training error includes the last sample of
 every epoch

---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index f0fa4fa..3613ea8 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -324,7 +324,7 @@ class NetworkMLP():
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N-1]**2) / N
+            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N
         return e, MSE
 
     def run(self, x):
-- 
2.43.0


From 81283da0aad76140c82bdfeddd88c38d438bf8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 03/15] fix: MLP hidden layers follow the gradient of the
 squared error

The error propagated to layers below the last hidden one (and to every layer
of a network with more outputs) had an additional factor (1 - y), and the
weights handed to the layer below were a view of the already updated ones.
---
 padasip/ann/mlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 3613ea8..09e1a79 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -183,9 +183,9 @@ class Layer():
             e = self.activation(self.y, f=self.f, der=True) * e * w
             dw = self.mu * np.outer(e, self.x)
         else:
-            e = self.activation(self.y, f=self.f, der=True) * (1 - self.y) * np.dot(e, w)
+            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)
             dw = self.mu * np.outer(e, self.x)
-        w = self.w[:, 1:]
+        w = np.copy(self.w[:, 1:])
         self.w += dw
         return w, e
 
-- 
2.43.0


From dbb68844cafd3ff24ef5d17c204d62f816745498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 04/15] fix: learning entropy accepts the sensitivities as an
 array

The documentation asks for a 1d array; the truth value of an array of several
numbers raised an error and an array [0.] selected the other method.
---
 padasip/detection/le.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 725e438..6859392 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -167,7 +167,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     dw[order:] = np.abs(np.diff(dw, n=order, axis=0))
     # average floting window - window is k-m ... k-1
     awd = np.zeros(w.shape)
-    if not alpha:
+    if alpha is False or alpha is None or not len(alpha):
         # estimate the ALPHA with multiscale approach
         swd = np.zeros(w.shape)
         for k in range(m, N):
-- 
2.43.0


From 656b28a77f1b3e6a4258a6c0014206729083c591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 05/15] fix: LDA accepts the labels as a list

Comparing a list of labels with one class gave a single False, so no sample
belonged to any class and all results were nan.
---
 padasip/preprocess/lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 6ec1b02..8fd81b1 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,6 +113,7 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
+    labels = np.array(labels)
     classes = np.array(tuple(set(labels)))
     cols = x.shape[1]
     # mean values for every class
-- 
2.43.0


From c230a4644ce5c9efed086fc56943f3ccf8b7b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 06/15] fix: a batch run with a wrong number of features leaves
 the filter untouched

The filter size (and for filters of size one the history of the AP filter) was
changed before the run failed.
---
 padasip/filters/base_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 53a55cc..8180340 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -191,6 +191,8 @@ class AdaptiveFilter():
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
+        if not len(x[0]) == len(self.w):
+            raise ValueError('The number of features in x and the filter size must agree.')
         self.n = len(x[0])
         # prepare data
         try:
@@ -303,6 +305,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
+        if not len(x[0]) == len(self.w):
+            raise ValueError('The number of features in x and the filter size must agree.')
         self.n = len(x[0])
         # prepare data
         try:
-- 
2.43.0


From d7c5a1da72f0e75f3f4406288f42005a1577a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 07/15] fix: OCNLMS prediction does not change the filter

Reading the memory moved its index, so every call of predict changed all later
outputs. The index is moved by the learning rule, as often as before.
---
 padasip/filters/ocnlms.py | 335 +++++++++++++++++++-------------------
 1 file changed, 171 insertions(+), 164 deletions(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index 7e36644..eb7b8f8 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -1,164 +1,171 @@
-"""
-.. versionadded:: 1.2.0
-
-The online-centered normalized least-mean-square (OCNLMS) adaptive filter
-(proposed in https://doi.org/10.14311/nnw.2021.31.019)
-is an extension of the popular NLMS adaptive filter (:ref:`filter-nlms`).
-
-The OCNLMS filter can be created as follows
-
-    >>> import padasip as pa
-    >>> pa.filters.FilterOCNLMS(n, mem=100)
-
-where `n` is the size (number of taps) of the filter.
-
-Content of this page:
-
-.. contents::
-   :local:
-   :depth: 1
-
-.. seealso:: :ref:`filters`
-
-Algorithm Explanation
-======================================
-
-The OCNLMS is extension of NLMS filter. See :ref:`filter-nlms`
-for explanation of the algorithm behind.  As an extension of the
-normalized least mean square (NLMS), the OCNLMS algorithm
-features an approach of online input centering according to
-the introduced filter memory. This key feature can compensate
-the effect of concept drift in data streams, because
-such a centering makes the filter independent
-of the nonzero mean value of signal.
-
-Minimal Working Examples
-======================================
-
-Exampleof an unknown system identification from mesaured data follows.
-The memory size `mem` is defined during the construction of the filter.
-
-.. code-block:: python
-
-    import numpy as np
-    import matplotlib.pylab as plt
-    import padasip as pa
-
-    # creation of data
-    N = 500
-    x = np.random.normal(0, 1, (N, 4)) + 121 # input matrix with offset
-    v = np.random.normal(0, 0.1, N) # noise
-    d = 2*x[:,0] + 0.1*x[:,1] - 4*x[:,2] + 0.5*x[:,3] + v # target
-
-    # identification, memory is set to 100 samples
-    f = pa.filters.FilterOCNLMS(n=4, mu=0.1, w="random", mem=100)
-    y, e, w = f.run(d, x)
-
-    # show results
-    plt.figure(figsize=(15,9))
-    plt.subplot(211);plt.title("Adaptation");plt.xlabel("samples - k")
-    plt.plot(d,"b", label="d - target")
-    plt.plot(y,"g", label="y - output");plt.legend()
-    plt.subplot(212);plt.title("Filter error");plt.xlabel("samples - k")
-    plt.plot(10*np.log10(e**2),"r", label="e - error [dB]");plt.legend()
-    plt.tight_layout()
-    plt.show()
-
-
-Code Explanation
-======================================
-"""
-import numpy as np
-
-from padasip.filters.base_filter import AdaptiveFilter
-
-class FilterOCNLMS(AdaptiveFilter):
-    """
-    Adaptive OCNLMS filter.
-    """
-    kind = "OCNLMS"
-
-    def __init__(self, n, mu=0.1, eps=1., mem=100, **kwargs):
-        """
-        Kwargs:
-
-        * `eps` : regularization term (float). It is introduced to preserve
-            stability for close-to-zero input vectors
-
-        * `mem` : size of filter memory (int). This means how many last targets
-            and input vectors will be used for centering of current input vector
-            and target.
-        """
-        super().__init__(n, mu, **kwargs)
-        self.eps = eps
-        self.mem = mem
-        self.clear_memory()
-
-    def learning_rule(self, e, x):
-        """
-        Override the parent class.
-        """
-        self.update_memory_x(x)
-        m_d, m_x = self.read_memory()
-        y = np.dot(self.w, x-m_x) + m_d
-        self.update_memory_d(e + y)
-        return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)
-
-    def predict(self, x):
-        """
-        This function calculates OCNLMS specific output.
-        The parent class `predict` function cannot be used.
-
-        **Args:**
-
-        * `x` : input vector (1 dimension array) in length of filter.
-
-        **Returns:**
-
-        * `y` : output value (float) calculated from input array.
-
-        """
-        m_d, m_x = self.read_memory()
-        return np.dot(self.w, x - m_x) + m_d
-
-    def clear_memory(self):
-        """
-        Clear of data from memory and reset memory index.
-        """
-        self.mem_empty = True
-        self.mem_x = np.zeros((self.mem, self.n))
-        self.mem_d = np.zeros(self.mem)
-        self.mem_idx = 0
-
-    def update_memory_d(self, d_k):
-        """
-        This function update memory of the filter with new target value `d`.
-        """
-        self.mem_d[self.mem_idx-1] = d_k
-
-    def update_memory_x(self, x_k):
-        """
-        This function update memory of the filter with new input vector `x`.
-        """
-        self.mem_x[self.mem_idx, :] = x_k
-
-    def read_memory(self):
-        """
-        This function read mean value of target`d`
-        and input vector `x` from history
-        """
-        if self.mem_empty == True:
-            if self.mem_idx == 0:
-                m_x = np.zeros(self.n)
-                m_d = 0
-            else:
-                m_x = np.mean(self.mem_x[:self.mem_idx+1], axis=0)
-                m_d = np.mean(self.mem_d[:self.mem_idx])
-        else:
-            m_x = np.mean(self.mem_x, axis=0)
-            m_d = np.mean(np.delete(self.mem_d, self.mem_idx))
-        self.mem_idx += 1
-        if self.mem_idx > len(self.mem_x)-1:
-            self.mem_idx = 0
-            self.mem_empty = False
-        return m_d, m_x
+"""
+.. versionadded:: 1.2.0
+
+The online-centered normalized least-mean-square (OCNLMS) adaptive filter
+(proposed in https://doi.org/10.14311/nnw.2021.31.019)
+is an extension of the popular NLMS adaptive filter (:ref:`filter-nlms`).
+
+The OCNLMS filter can be created as follows
+
+    >>> import padasip as pa
+    >>> pa.filters.FilterOCNLMS(n, mem=100)
+
+where `n` is the size (number of taps) of the filter.
+
+Content of this page:
+
+.. contents::
+   :local:
+   :depth: 1
+
+.. seealso:: :ref:`filters`
+
+Algorithm Explanation
+======================================
+
+The OCNLMS is extension of NLMS filter. See :ref:`filter-nlms`
+for explanation of the algorithm behind.  As an extension of the
+normalized least mean square (NLMS), the OCNLMS algorithm
+features an approach of online input centering according to
+the introduced filter memory. This key feature can compensate
+the effect of concept drift in data streams, because
+such a centering makes the filter independent
+of the nonzero mean value of signal.
+
+Minimal Working Examples
+======================================
+
+Exampleof an unknown system identification from mesaured data follows.
+The memory size `mem` is defined during the construction of the filter.
+
+.. code-block:: python
+
+    import numpy as np
+    import matplotlib.pylab as plt
+    import padasip as pa
+
+    # creation of data
+    N = 500
+    x = np.random.normal(0, 1, (N, 4)) + 121 # input matrix with offset
+    v = np.random.normal(0, 0.1, N) # noise
+    d = 2*x[:,0] + 0.1*x[:,1] - 4*x[:,2] + 0.5*x[:,3] + v # target
+
+    # identification, memory is set to 100 samples
+    f = pa.filters.FilterOCNLMS(n=4, mu=0.1, w="random", mem=100)
+    y, e, w = f.run(d, x)
+
+    # show results
+    plt.figure(figsize=(15,9))
+    plt.subplot(211);plt.title("Adaptation");plt.xlabel("samples - k")
+    plt.plot(d,"b", label="d - target")
+    plt.plot(y,"g", label="y - output");plt.legend()
+    plt.subplot(212);plt.title("Filter error");plt.xlabel("samples - k")
+    plt.plot(10*np.log10(e**2),"r", label="e - error [dB]");plt.legend()
+    plt.tight_layout()
+    plt.show()
+
+
+Code Explanation
+======================================
+"""
+import numpy as np
+
+from padasip.filters.base_filter import AdaptiveFilter
+
+class FilterOCNLMS(AdaptiveFilter):
+    """
+    Adaptive OCNLMS filter.
+    """
+    kind = "OCNLMS"
+
+    def __init__(self, n, mu=0.1, eps=1., mem=100, **kwargs):
+        """
+        Kwargs:
+
+        * `eps` : regularization term (float). It is introduced to preserve
+            stability for close-to-zero input vectors
+
+        * `mem` : size of filter memory (int). This means how many last targets
+            and input vectors will be used for centering of current input vector
+            and target.
+        """
+        super().__init__(n, mu, **kwargs)
+        self.eps = eps
+        self.mem = mem
+        self.clear_memory()
+
+    def learning_rule(self, e, x):
+        """
+        Override the parent class.
+        """
+        self.next_memory()
+        self.update_memory_x(x)
+        m_d, m_x = self.read_memory()
+        self.next_memory()
+        y = np.dot(self.w, x-m_x) + m_d
+        self.update_memory_d(e + y)
+        return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)
+
+    def predict(self, x):
+        """
+        This function calculates OCNLMS specific output.
+        The parent class `predict` function cannot be used.
+
+        **Args:**
+
+        * `x` : input vector (1 dimension array) in length of filter.
+
+        **Returns:**
+
+        * `y` : output value (float) calculated from input array.
+
+        """
+        m_d, m_x = self.read_memory()
+        return np.dot(self.w, x - m_x) + m_d
+
+    def clear_memory(self):
+        """
+        Clear of data from memory and reset memory index.
+        """
+        self.mem_empty = True
+        self.mem_x = np.zeros((self.mem, self.n))
+        self.mem_d = np.zeros(self.mem)
+        self.mem_idx = 0
+
+    def update_memory_d(self, d_k):
+        """
+        This function update memory of the filter with new target value `d`.
+        """
+        self.mem_d[self.mem_idx-1] = d_k
+
+    def update_memory_x(self, x_k):
+        """
+        This function update memory of the filter with new input vector `x`.
+        """
+        self.mem_x[self.mem_idx, :] = x_k
+
+    def read_memory(self):
+        """
+        This function read mean value of target`d`
+        and input vector `x` from history
+        """
+        if self.mem_empty == True:
+            if self.mem_idx == 0:
+                m_x = np.zeros(self.n)
+                m_d = 0
+            else:
+                m_x = np.mean(self.mem_x[:self.mem_idx+1], axis=0)
+                m_d = np.mean(self.mem_d[:self.mem_idx])
+        else:
+            m_x = np.mean(self.mem_x, axis=0)
+            m_d = np.mean(np.delete(self.mem_d, self.mem_idx))
+        return m_d, m_x
+
+    def next_memory(self):
+        """
+        This function moves to the next position of the memory.
+        """
+        self.mem_idx += 1
+        if self.mem_idx > len(self.mem_x)-1:
+            self.mem_idx = 0
+            self.mem_empty = False
-- 
2.43.0


From e707d16ab391a3a6fd3bc98fdddbcc841f3ffed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 08/15] fix: ESE knows the documented method 30%

---
 padasip/detection/ese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index cc5ad45..404e56b 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -96,6 +96,8 @@ def pot(data, method):
         k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1)
     elif method == "log10":
         k = max(int(np.log10(n)), 1)
+    elif method == "30%":
+        k = max(int(0.3 * n), 1)
     elif method == "35%":
         k = max(int(0.35 * n), 1)
     return sorted_data[:k]
-- 
2.43.0


From 3bb5dd5268ddcc68a832b172215450177c8c370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 09/15] fix: ESE works with current numpy versions

The location was handed to the fit in a list, so that the fitted location and
the probabilities were arrays of one element, which numpy no longer stores in
one element of an array: every exceedance raised an error.
---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 404e56b..9f22d92 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -135,7 +135,7 @@ def ESE(w, window=1000, pot_method="10%"):
         for j in range(filter_len):
             poted_values = pot(dw[i - window:i, j], pot_method)
             if dw[i, j] > poted_values[-1]:
-                fit = genpareto.fit(poted_values, floc=[poted_values[-1]])
+                fit = genpareto.fit(poted_values, floc=poted_values[-1])
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-- 
2.43.0


From 781e7f3b465a2c997bcbaef7828ee7a8fc0cc1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 10/15] fix: PCA and LDA return real numbers with current numpy
 versions

np.linalg.eig gives complex arrays there, although the eigenvalues of these
matrices are real.
---
 padasip/preprocess/lda.py | 1 +
 padasip/preprocess/pca.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 8fd81b1..2357840 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -137,6 +137,7 @@ def LDA_base(x, labels):
     # eigenvalues and eigenvectors from scatter matrices
     scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)
     eigen_values, eigen_vectors = np.linalg.eig(scatter_product)
+    eigen_values, eigen_vectors = np.real(eigen_values), np.real(eigen_vectors)
     return eigen_values, eigen_vectors
 
 def LDA(x, labels, n=False):
diff --git a/padasip/preprocess/pca.py b/padasip/preprocess/pca.py
index cc0b304..62d6448 100644
--- a/padasip/preprocess/pca.py
+++ b/padasip/preprocess/pca.py
@@ -92,6 +92,7 @@ def PCA_components(x):
         raise ValueError('Impossible to convert x to a numpy array.')
     # eigen values and eigen vectors of data covariance matrix
     eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
+    eigen_values, eigen_vectors = np.real(eigen_values), np.real(eigen_vectors)
     # sort eigen vectors according biggest eigen value
     eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
     # form output - order the eigenvalues
@@ -120,6 +121,7 @@ def PCA(x, n=False):
         number of features in x."
     # eigen values and eigen vectors of data covariance matrix
     eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
+    eigen_values, eigen_vectors = np.real(eigen_values), np.real(eigen_vectors)
     # sort eigen vectors according biggest eigen value
     eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
     # form output - reduced x matrix
-- 
2.43.0


From 401ca4e1a67d9ae123da7680849f2fdeaec19489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 11/15] fix: filters compute with floating point samples (small
 integer types overflowed)

---
 padasip/filters/base_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 8180340..fef55da 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -161,6 +161,7 @@ class AdaptiveFilter():
 
         * `x` : input array (1-dimensional array)
         """
+        x = np.array(x, dtype="float64")
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
@@ -196,8 +197,8 @@ class AdaptiveFilter():
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
-- 
2.43.0


From 705a9f2155eb6d0eba60335c947fa18ca20aba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 12/15] fix: error measures compute with floating point numbers
 (small integer types overflowed)

---
 padasip/misc/error_evaluation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/padasip/misc/error_evaluation.py b/padasip/misc/error_evaluation.py
index d2896f1..f81f750 100644
--- a/padasip/misc/error_evaluation.py
+++ b/padasip/misc/error_evaluation.py
@@ -109,14 +109,14 @@ def get_valid_error(x1, x2=-1):
     # just error
     if isinstance(x2, int) and x2 == -1:
         try:
-            e = np.array(x1)
+            e = np.array(x1, dtype="float64")
         except:
             raise ValueError('Impossible to convert series to a numpy array')
     # two series
     else:
         try:
-            x1 = np.array(x1)
-            x2 = np.array(x2)
+            x1 = np.array(x1, dtype="float64")
+            x2 = np.array(x2, dtype="float64")
         except:
             raise ValueError('Impossible to convert one of series to a numpy array')
         if not len(x1) == len(x2):
-- 
2.43.0


From 1e27b13e4ad7b4cc607109599c57c614eeaaeb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 13/15] fix: learning entropy computes with floating point
 weights

---
 padasip/detection/le.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 6859392..5ca7ed7 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -159,7 +159,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     * Learning Entropy of data (1 d array) - one value for every sample
 
     """
-    w = np.array(w)
+    w = np.array(w, dtype="float64")
     # get length of data and number of parameters
     N, n = w.shape
     # get abs dw from w
-- 
2.43.0


From 1a5a7119a320613fb3a8868ef73bb068d286b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:11 +0000
Subject: [PATCH 14/15] fix: keep the original line endings of ocnlms.py
 (converted by mistake in the OCNLMS predict fix)

---
 padasip/filters/ocnlms.py | 342 +++++++++++++++++++-------------------
 1 file changed, 171 insertions(+), 171 deletions(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index eb7b8f8..e4f0471 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -1,171 +1,171 @@
-"""
-.. versionadded:: 1.2.0
-
-The online-centered normalized least-mean-square (OCNLMS) adaptive filter
-(proposed in https://doi.org/10.14311/nnw.2021.31.019)
-is an extension of the popular NLMS adaptive filter (:ref:`filter-nlms`).
-
-The OCNLMS filter can be created as follows
-
-    >>> import padasip as pa
-    >>> pa.filters.FilterOCNLMS(n, mem=100)
-
-where `n` is the size (number of taps) of the filter.
-
-Content of this page:
-
-.. contents::
-   :local:
-   :depth: 1
-
-.. seealso:: :ref:`filters`
-
-Algorithm Explanation
-======================================
-
-The OCNLMS is extension of NLMS filter. See :ref:`filter-nlms`
-for explanation of the algorithm behind.  As an extension of the
-normalized least mean square (NLMS), the OCNLMS algorithm
-features an approach of online input centering according to
-the introduced filter memory. This key feature can compensate
-the effect of concept drift in data streams, because
-such a centering makes the filter independent
-of the nonzero mean value of signal.
-
-Minimal Working Examples
-======================================
-
-Exampleof an unknown system identification from mesaured data follows.
-The memory size `mem` is defined during the construction of the filter.
-
-.. code-block:: python
-
-    import numpy as np
-    import matplotlib.pylab as plt
-    import padasip as pa
-
-    # creation of data
-    N = 500
-    x = np.random.normal(0, 1, (N, 4)) + 121 # input matrix with offset
-    v = np.random.normal(0, 0.1, N) # noise
-    d = 2*x[:,0] + 0.1*x[:,1] - 4*x[:,2] + 0.5*x[:,3] + v # target
-
-    # identification, memory is set to 100 samples
-    f = pa.filters.FilterOCNLMS(n=4, mu=0.1, w="random", mem=100)
-    y, e, w = f.run(d, x)
-
-    # show results
-    plt.figure(figsize=(15,9))
-    plt.subplot(211);plt.title("Adaptation");plt.xlabel("samples - k")
-    plt.plot(d,"b", label="d - target")
-    plt.plot(y,"g", label="y - output");plt.legend()
-    plt.subplot(212);plt.title("Filter error");plt.xlabel("samples - k")
-    plt.plot(10*np.log10(e**2),"r", label="e - error [dB]");plt.legend()
-    plt.tight_layout()
-    plt.show()
-
-
-Code Explanation
-======================================
-"""
-import numpy as np
-
-from padasip.filters.base_filter import AdaptiveFilter
-
-class FilterOCNLMS(AdaptiveFilter):
-    """
-    Adaptive OCNLMS filter.
-    """
-    kind = "OCNLMS"
-
-    def __init__(self, n, mu=0.1, eps=1., mem=100, **kwargs):
-        """
-        Kwargs:
-
-        * `eps` : regularization term (float). It is introduced to preserve
-            stability for close-to-zero input vectors
-
-        * `mem` : size of filter memory (int). This means how many last targets
-            and input vectors will be used for centering of current input vector
-            and target.
-        """
-        super().__init__(n, mu, **kwargs)
-        self.eps = eps
-        self.mem = mem
-        self.clear_memory()
-
-    def learning_rule(self, e, x):
-        """
-        Override the parent class.
-        """
-        self.next_memory()
-        self.update_memory_x(x)
-        m_d, m_x = self.read_memory()
-        self.next_memory()
-        y = np.dot(self.w, x-m_x) + m_d
-        self.update_memory_d(e + y)
-        return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)
-
-    def predict(self, x):
-        """
-        This function calculates OCNLMS specific output.
-        The parent class `predict` function cannot be used.
-
-        **Args:**
-
-        * `x` : input vector (1 dimension array) in length of filter.
-
-        **Returns:**
-
-        * `y` : output value (float) calculated from input array.
-
-        """
-        m_d, m_x = self.read_memory()
-        return np.dot(self.w, x - m_x) + m_d
-
-    def clear_memory(self):
-        """
-        Clear of data from memory and reset memory index.
-        """
-        self.mem_empty = True
-        self.mem_x = np.zeros((self.mem, self.n))
-        self.mem_d = np.zeros(self.mem)
-        self.mem_idx = 0
-
-    def update_memory_d(self, d_k):
-        """
-        This function update memory of the filter with new target value `d`.
-        """
-        self.mem_d[self.mem_idx-1] = d_k
-
-    def update_memory_x(self, x_k):
-        """
-        This function update memory of the filter with new input vector `x`.
-        """
-        self.mem_x[self.mem_idx, :] = x_k
-
-    def read_memory(self):
-        """
-        This function read mean value of target`d`
-        and input vector `x` from history
-        """
-        if self.mem_empty == True:
-            if self.mem_idx == 0:
-                m_x = np.zeros(self.n)
-                m_d = 0
-            else:
-                m_x = np.mean(self.mem_x[:self.mem_idx+1], axis=0)
-                m_d = np.mean(self.mem_d[:self.mem_idx])
-        else:
-            m_x = np.mean(self.mem_x, axis=0)
-            m_d = np.mean(np.delete(self.mem_d, self.mem_idx))
-        return m_d, m_x
-
-    def next_memory(self):
-        """
-        This function moves to the next position of the memory.
-        """
-        self.mem_idx += 1
-        if self.mem_idx > len(self.mem_x)-1:
-            self.mem_idx = 0
-            self.mem_empty = False
+"""
+.. versionadded:: 1.2.0
+
+The online-centered normalized least-mean-square (OCNLMS) adaptive filter
+(proposed in https://doi.org/10.14311/nnw.2021.31.019)
+is an extension of the popular NLMS adaptive filter (:ref:`filter-nlms`).
+
+The OCNLMS filter can be created as follows
+
+    >>> import padasip as pa
+    >>> pa.filters.FilterOCNLMS(n, mem=100)
+
+where `n` is the size (number of taps) of the filter.
+
+Content of this page:
+
+.. contents::
+   :local:
+   :depth: 1
+
+.. seealso:: :ref:`filters`
+
+Algorithm Explanation
+======================================
+
+The OCNLMS is extension of NLMS filter. See :ref:`filter-nlms`
+for explanation of the algorithm behind.  As an extension of the
+normalized least mean square (NLMS), the OCNLMS algorithm
+features an approach of online input centering according to
+the introduced filter memory. This key feature can compensate
+the effect of concept drift in data streams, because
+such a centering makes the filter independent
+of the nonzero mean value of signal.
+
+Minimal Working Examples
+======================================
+
+Exampleof an unknown system identification from mesaured data follows.
+The memory size `mem` is defined during the construction of the filter.
+
+.. code-block:: python
+
+    import numpy as np
+    import matplotlib.pylab as plt
+    import padasip as pa
+
+    # creation of data
+    N = 500
+    x = np.random.normal(0, 1, (N, 4)) + 121 # input matrix with offset
+    v = np.random.normal(0, 0.1, N) # noise
+    d = 2*x[:,0] + 0.1*x[:,1] - 4*x[:,2] + 0.5*x[:,3] + v # target
+
+    # identification, memory is set to 100 samples
+    f = pa.filters.FilterOCNLMS(n=4, mu=0.1, w="random", mem=100)
+    y, e, w = f.run(d, x)
+
+    # show results
+    plt.figure(figsize=(15,9))
+    plt.subplot(211);plt.title("Adaptation");plt.xlabel("samples - k")
+    plt.plot(d,"b", label="d - target")
+    plt.plot(y,"g", label="y - output");plt.legend()
+    plt.subplot(212);plt.title("Filter error");plt.xlabel("samples - k")
+    plt.plot(10*np.log10(e**2),"r", label="e - error [dB]");plt.legend()
+    plt.tight_layout()
+    plt.show()
+
+
+Code Explanation
+======================================
+"""
+import numpy as np
+
+from padasip.filters.base_filter import AdaptiveFilter
+
+class FilterOCNLMS(AdaptiveFilter):
+    """
+    Adaptive OCNLMS filter.
+    """
+    kind = "OCNLMS"
+
+    def __init__(self, n, mu=0.1, eps=1., mem=100, **kwargs):
+        """
+        Kwargs:
+
+        * `eps` : regularization term (float). It is introduced to preserve
+            stability for close-to-zero input vectors
+
+        * `mem` : size of filter memory (int). This means how many last targets
+            and input vectors will be used for centering of current input vector
+            and target.
+        """
+        super().__init__(n, mu, **kwargs)
+        self.eps = eps
+        self.mem = mem
+        self.clear_memory()
+
+    def learning_rule(self, e, x):
+        """
+        Override the parent class.
+        """
+        self.next_memory()
+        self.update_memory_x(x)
+        m_d, m_x = self.read_memory()
+        self.next_memory()
+        y = np.dot(self.w, x-m_x) + m_d
+        self.update_memory_d(e + y)
+        return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)
+
+    def predict(self, x):
+        """
+        This function calculates OCNLMS specific output.
+        The parent class `predict` function cannot be used.
+
+        **Args:**
+
+        * `x` : input vector (1 dimension array) in length of filter.
+
+        **Returns:**
+
+        * `y` : output value (float) calculated from input array.
+
+        """
+        m_d, m_x = self.read_memory()
+        return np.dot(self.w, x - m_x) + m_d
+
+    def clear_memory(self):
+        """
+        Clear of data from memory and reset memory index.
+        """
+        self.mem_empty = True
+        self.mem_x = np.zeros((self.mem, self.n))
+        self.mem_d = np.zeros(self.mem)
+        self.mem_idx = 0
+
+    def update_memory_d(self, d_k):
+        """
+        This function update memory of the filter with new target value `d`.
+        """
+        self.mem_d[self.mem_idx-1] = d_k
+
+    def update_memory_x(self, x_k):
+        """
+        This function update memory of the filter with new input vector `x`.
+        """
+        self.mem_x[self.mem_idx, :] = x_k
+
+    def read_memory(self):
+        """
+        This function read mean value of target`d`
+        and input vector `x` from history
+        """
+        if self.mem_empty == True:
+            if self.mem_idx == 0:
+                m_x = np.zeros(self.n)
+                m_d = 0
+            else:
+                m_x = np.mean(self.mem_x[:self.mem_idx+1], axis=0)
+                m_d = np.mean(self.mem_d[:self.mem_idx])
+        else:
+            m_x = np.mean(self.mem_x, axis=0)
+            m_d = np.mean(np.delete(self.mem_d, self.mem_idx))
+        return m_d, m_x
+
+    def next_memory(self):
+        """
+        This function moves to the next position of the memory.
+        """
+        self.mem_idx += 1
+        if self.mem_idx > len(self.mem_x)-1:
+            self.mem_idx = 0
+            self.mem_empty = False
-- 
2.43.0


From 3f2c86fbb51c8f719c8357d777fe7cd3e9c05e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:36 +0000
Subject: [PATCH 15/15] fix: AP batch run converts its data to numbers before
 it touches the filter

---
 padasip/filters/base_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index fef55da..f1743bc 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -311,8 +311,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
-- 
2.43.0

