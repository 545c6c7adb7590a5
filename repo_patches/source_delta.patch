From 3bf0d71fb5c14affc86a150178029adc3e457be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 01/29] fix: filters can be created from their size alone, as
 documented (default mu)

---
 padasip/filters/base_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 53a55cc..75d422c 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -11,7 +11,7 @@ class AdaptiveFilter():
     Base class for adaptive filter classes. It puts together some functions
     used by all adaptive filters.
     """
-    def __init__(self, n, mu, w="random"):
+    def __init__(self, n, mu=0.01, w="random"):
         """
         This class represents an generic adaptive filter.
 
-- 
2.43.0


From a67bb241eb2a0dc7627244a19df380fa35e5e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 02/29] fix: filters work on private float copies of the
 samples

Integer samples overflowed in the input power (int16 audio with NLMS), and
adapt() of the filters that remember the last input kept a reference to the
array of the caller.
---
 padasip/filters/base_filter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 75d422c..2589594 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -161,6 +161,8 @@ class AdaptiveFilter():
 
         * `x` : input array (1-dimensional array)
         """
+        # private copy - the filter can remember the vector for later samples
+        x = np.array(x, dtype="float64")
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
@@ -194,8 +196,8 @@ class AdaptiveFilter():
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
@@ -306,8 +308,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
-- 
2.43.0


From adfe2d3e2b8d5d460ec163764013981b6d9e2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 03/29] fix: run checks the width of the samples and leaves the
 filter size alone

A run refused because of the width of x changed the size of the filter and broke
every later adapt(); a run (or pretrained_run part) without samples crashed.
---
 padasip/filters/base_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 2589594..8e77b70 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -193,13 +193,14 @@ class AdaptiveFilter():
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
         # prepare data
         try:
             x = np.array(x, dtype="float64")
             d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if N > 0 and not x.shape[1:] == (self.n,):
+            raise ValueError('The width of matrix x must agree with the filter size.')
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
@@ -305,13 +306,14 @@ class AdaptiveFilterAP(AdaptiveFilter):
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
         # prepare data
         try:
             x = np.array(x, dtype="float64")
             d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if N > 0 and not x.shape[1:] == (self.n,):
+            raise ValueError('The width of matrix x must agree with the filter size.')
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
-- 
2.43.0


From 974fe5da0ff383ca382ca15cf7ca86b7f64df760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 04/29] fix: AP filter checks the sample before it shifts its
 memory

adapt() with an unusable sample raised after the memory was already shifted, and
a one-element sample was silently used for every tap.
---
 padasip/filters/base_filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 8e77b70..870982b 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -265,6 +265,11 @@ class AdaptiveFilterAP(AdaptiveFilter):
 
         * `x` : input array (1-dimensional array)
         """
+        # check the sample before the memory is shifted
+        x = np.array(x, dtype="float64")
+        d = float(d)
+        if not x.shape == (self.n,):
+            raise ValueError('The length of vector x must agree with the filter size.')
         # create input matrix and target vector
         self.x_mem[:, 1:] = self.x_mem[:, :-1]
         self.x_mem[:, 0] = x
-- 
2.43.0


From 4ad1edc385767a4650971ec0c839f0632afe28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 05/29] fix: OCNLMS predict does not move the filter memory

Every predict() call advanced the memory index, so looking at a prediction before
adapt() changed the adaptation. The index now moves only in the adaptation; run()
and adapt() give the same results as before.
---
 padasip/filters/ocnlms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index 7e36644..c176326 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -98,8 +98,10 @@ class FilterOCNLMS(AdaptiveFilter):
         """
         Override the parent class.
         """
+        self.move_memory()
         self.update_memory_x(x)
         m_d, m_x = self.read_memory()
+        self.move_memory()
         y = np.dot(self.w, x-m_x) + m_d
         self.update_memory_d(e + y)
         return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)
@@ -157,8 +159,13 @@ class FilterOCNLMS(AdaptiveFilter):
         else:
             m_x = np.mean(self.mem_x, axis=0)
             m_d = np.mean(np.delete(self.mem_d, self.mem_idx))
+        return m_d, m_x
+
+    def move_memory(self):
+        """
+        This function moves the memory index to next position.
+        """
         self.mem_idx += 1
         if self.mem_idx > len(self.mem_x)-1:
             self.mem_idx = 0
             self.mem_empty = False
-        return m_d, m_x
-- 
2.43.0


From 58ae39b0c2b3c975f12f5c53f863debc2809b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 06/29] fix: learning_entropy accepts alpha as an array, as
 documented

---
 padasip/detection/le.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 725e438..4d1b124 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -160,6 +160,9 @@ def learning_entropy(w, m=10, order=1, alpha=False):
 
     """
     w = np.array(w)
+    # the array of sensitivities has no truth value
+    if isinstance(alpha, np.ndarray):
+        alpha = alpha.tolist()
     # get length of data and number of parameters
     N, n = w.shape
     # get abs dw from w
-- 
2.43.0


From bf30602396836e98f76332f3600db121c9dd9496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 07/29] fix: ESE fixes the location of the distribution with a
 number

With a list SciPy returns an array as the location and ESE failed on every sample
with an increment over the threshold.
---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index cc5ad45..bae8d95 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -133,7 +133,7 @@ def ESE(w, window=1000, pot_method="10%"):
         for j in range(filter_len):
             poted_values = pot(dw[i - window:i, j], pot_method)
             if dw[i, j] > poted_values[-1]:
-                fit = genpareto.fit(poted_values, floc=[poted_values[-1]])
+                fit = genpareto.fit(poted_values, floc=poted_values[-1])
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-- 
2.43.0


From cb18ed6f4a40af42bcd92b0b1b7789b1fa30db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 08/29] fix: ESE knows the documented P-O-T method 30% and
 refuses unknown methods

Both failed with an IndexError on an empty list of peaks.
---
 padasip/detection/ese.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index bae8d95..0e1bcc1 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -96,8 +96,12 @@ def pot(data, method):
         k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1)
     elif method == "log10":
         k = max(int(np.log10(n)), 1)
+    elif method == "30%":
+        k = max(int(0.3 * n), 1)
     elif method == "35%":
         k = max(int(0.35 * n), 1)
+    else:
+        raise ValueError('Unknown P-O-T method')
     return sorted_data[:k]
 
 def ESE(w, window=1000, pot_method="10%"):
-- 
2.43.0


From a03733b5ca5cefd5783efc0979bada16c70094ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 09/29] fix: ESE does not overflow to infinity for filters with
 many weights

---
 padasip/detection/ese.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 0e1bcc1..1f1c9a6 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -141,5 +141,6 @@ def ESE(w, window=1000, pot_method="10%"):
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-    ese_value = -np.log10(np.prod(hpp, axis=1))
+    # sum of logarithms - the product of many small values is zero
+    ese_value = -np.sum(np.log10(hpp), axis=1)
     return np.append(np.zeros(window), ese_value)
-- 
2.43.0


From 30e1d051950cdfacad8675d0dbd90ae4dc2ec93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 10/29] fix: ESE does not use the first weights as an increment

The first row of the weights history itself was used as an increment in the window
of the first evaluated sample.
---
 padasip/detection/ese.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 1f1c9a6..0cba68e 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -126,8 +126,8 @@ def ESE(w, window=1000, pot_method="10%"):
 
     """
     filter_len = w.shape[1]
-    dw = np.copy(w)
-    dw[1:] = np.abs(np.diff(dw, n=1, axis=0))
+    dw = np.zeros(w.shape)
+    dw[1:] = np.abs(np.diff(w, n=1, axis=0))
     dw_count = int(dw.shape[0])
 
     hpp = np.ones((dw_count - window, filter_len))
-- 
2.43.0


From 95aabc884094d0e18f6c8269dc5dc7b811907a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 11/29] fix: PCA returns real and uncorrelated components

The solver for general matrices returns complex arrays with NumPy 2.5, and for
equal eigenvalues its eigenvectors are not orthogonal, so the components were
correlated. The covariance matrix is symmetric, use the solver for such matrices.
---
 padasip/preprocess/pca.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/preprocess/pca.py b/padasip/preprocess/pca.py
index cc0b304..4090ea0 100644
--- a/padasip/preprocess/pca.py
+++ b/padasip/preprocess/pca.py
@@ -90,10 +90,8 @@ def PCA_components(x):
         x = np.array(x)
     except:
         raise ValueError('Impossible to convert x to a numpy array.')
-    # eigen values and eigen vectors of data covariance matrix
-    eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
-    # sort eigen vectors according biggest eigen value
-    eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
+    # eigen values of data covariance matrix (symmetric)
+    eigen_values = np.linalg.eigvalsh(np.cov(x.T))
     # form output - order the eigenvalues
     return eigen_values[(-eigen_values).argsort()]
 
@@ -118,8 +116,10 @@ def PCA(x, n=False):
     n = n if n else x.shape[1] - 1
     assert x.shape[1] > n, "The requested n is bigger than \
         number of features in x."
-    # eigen values and eigen vectors of data covariance matrix
-    eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
+    # eigen values and eigen vectors of data covariance matrix (symmetric)
+    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
+    # the sign of eigen vectors is arbitrary, make the first item not negative
+    eigen_vectors = np.where(eigen_vectors[0] < 0, -eigen_vectors, eigen_vectors)
     # sort eigen vectors according biggest eigen value
     eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
     # form output - reduced x matrix
-- 
2.43.0


From a940631ab32a0072242ccc20714ca11e302178c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 12/29] fix: LDA accepts a list of labels, as documented

---
 padasip/preprocess/lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 6ec1b02..8fd81b1 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,6 +113,7 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
+    labels = np.array(labels)
     classes = np.array(tuple(set(labels)))
     cols = x.shape[1]
     # mean values for every class
-- 
2.43.0


From d34ba56c016c8034e31dad6a8e233674fef27187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 13/29] fix: LDA returns real data and discriminants

The solver for general matrices returns complex arrays with NumPy 2.5 (before it,
when rounding made a pair of zero eigenvalues complex).
---
 padasip/preprocess/lda.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 8fd81b1..c3b87f3 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -137,7 +137,8 @@ def LDA_base(x, labels):
     # eigenvalues and eigenvectors from scatter matrices
     scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)
     eigen_values, eigen_vectors = np.linalg.eig(scatter_product)
-    return eigen_values, eigen_vectors
+    # the eigenvalues are real, imaginary parts are rounding errors
+    return eigen_values.real, eigen_vectors.real
 
 def LDA(x, labels, n=False):
     """
-- 
2.43.0


From 7e069f11ffb717f84f0e3d850baa2c1bed70a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 14/29] fix: error measures do not overflow for integer series

---
 padasip/misc/error_evaluation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/padasip/misc/error_evaluation.py b/padasip/misc/error_evaluation.py
index d2896f1..6e01fa6 100644
--- a/padasip/misc/error_evaluation.py
+++ b/padasip/misc/error_evaluation.py
@@ -96,6 +96,14 @@ Code Explanation
 """
 import numpy as np
 
+def to_float(x):
+    """
+    Function that converts a series to a numpy array of floats. Integer types
+    would overflow in differences and squares.
+    """
+    x = np.array(x)
+    return x.astype(np.result_type(x.dtype, np.float64))
+
 def get_valid_error(x1, x2=-1):
     """
     Function that validates:
@@ -109,14 +117,14 @@ def get_valid_error(x1, x2=-1):
     # just error
     if isinstance(x2, int) and x2 == -1:
         try:
-            e = np.array(x1)
+            e = to_float(x1)
         except:
             raise ValueError('Impossible to convert series to a numpy array')
     # two series
     else:
         try:
-            x1 = np.array(x1)
-            x2 = np.array(x2)
+            x1 = to_float(x1)
+            x2 = to_float(x2)
         except:
             raise ValueError('Impossible to convert one of series to a numpy array')
         if not len(x1) == len(x2):
-- 
2.43.0


From c1088db6ff30cb2cecaece48fa4cde8f2d1c8179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 15/29] fix: MLP counts the error of the last sample into the
 MSE of the epoch

---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index f0fa4fa..3613ea8 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -324,7 +324,7 @@ class NetworkMLP():
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N-1]**2) / N
+            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N
         return e, MSE
 
     def run(self, x):
-- 
2.43.0


From 7be840f91f0b2136becd26cd1460d1f778a4a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 16/29] fix: MLP shuffles the data in every epoch, as
 documented

---
 padasip/ann/mlp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 3613ea8..e09ab79 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -313,14 +313,14 @@ class NetworkMLP():
         else:
             e = np.zeros((epochs*N, self.outputs))
         MSE = np.zeros(epochs)
-        # shuffle data if demanded
-        if shuffle:
-            randomize = np.arange(len(x))
-            np.random.shuffle(randomize)
-            x = x[randomize]
-            d = d[randomize]
         # adaptation loop
         for epoch in range(epochs):
+            # shuffle data if demanded
+            if shuffle:
+                randomize = np.arange(len(x))
+                np.random.shuffle(randomize)
+                x = x[randomize]
+                d = d[randomize]
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-- 
2.43.0


From 5d8c079bd54490c7d87a0347d053fb60a06e6b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 17/29] fix: MLP hidden layers follow the gradient of the
 squared error

The error of deeper layers was propagated through already updated weights and
multiplied by (1 - y) once more.
---
 padasip/ann/mlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index e09ab79..0754410 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -183,9 +183,9 @@ class Layer():
             e = self.activation(self.y, f=self.f, der=True) * e * w
             dw = self.mu * np.outer(e, self.x)
         else:
-            e = self.activation(self.y, f=self.f, der=True) * (1 - self.y) * np.dot(e, w)
+            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)
             dw = self.mu * np.outer(e, self.x)
-        w = self.w[:, 1:]
+        w = np.copy(self.w[:, 1:])
         self.w += dw
         return w, e
 
-- 
2.43.0


From 7c143fc5de75cb1e06727ba747d3007d67e9c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 18/29] fix: learning entropy works with weights of any number
 type (small integers overflowed)

---
 padasip/detection/le.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 4d1b124..8333cc2 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -159,7 +159,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     * Learning Entropy of data (1 d array) - one value for every sample
 
     """
-    w = np.array(w)
+    w = np.array(w, dtype="float64")
     # the array of sensitivities has no truth value
     if isinstance(alpha, np.ndarray):
         alpha = alpha.tolist()
-- 
2.43.0


From 37d41796220600365a9decf1656c1f443d8cab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 19/29] fix: ELBND and ESE work with weights of any number type
 (small integers overflowed)

---
 padasip/detection/elbnd.py | 3 +++
 padasip/detection/ese.py   | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/padasip/detection/elbnd.py b/padasip/detection/elbnd.py
index 491f14e..e02b193 100644
--- a/padasip/detection/elbnd.py
+++ b/padasip/detection/elbnd.py
@@ -113,6 +113,9 @@ def ELBND(w, e, function="max"):
     # check if the function is known
     if function not in ["max", "sum"]:
         raise ValueError('Unknown output function')
+    # differences and products of integers would overflow
+    w = np.array(w, dtype="float64")
+    e = np.array(e, dtype="float64")
     # get abs dw from w
     dw = np.zeros(w.shape)
     dw[:-1] = np.abs(np.diff(w, axis=0))
diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 0cba68e..c959325 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -125,6 +125,8 @@ def ESE(w, window=1000, pot_method="10%"):
     *  values of Extreme Seeking Entropy (1d array). This vector has same lenght as `w`.
 
     """
+    # differences of integers would overflow
+    w = np.array(w, dtype="float64")
     filter_len = w.shape[1]
     dw = np.zeros(w.shape)
     dw[1:] = np.abs(np.diff(w, n=1, axis=0))
-- 
2.43.0


From 6b5e43de0773b8bc401027e65f82ce56fc97a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 20/29] fix: LDA of single precision data has double precision
 means

---
 padasip/preprocess/lda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index c3b87f3..9bd12e3 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -114,6 +114,8 @@ def LDA_base(x, labels):
 
     """
     labels = np.array(labels)
+    # means would have the precision of the data
+    x = np.array(x, dtype="float64")
     classes = np.array(tuple(set(labels)))
     cols = x.shape[1]
     # mean values for every class
-- 
2.43.0


From 1b50c10f099c5f87620aadcdcc96e365d14baa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 21/29] fix: standardize takes mean and deviation in double
 precision, non-numeric series raise ValueError

---
 padasip/preprocess/standardize.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/preprocess/standardize.py b/padasip/preprocess/standardize.py
index f402b32..d6cad0b 100644
--- a/padasip/preprocess/standardize.py
+++ b/padasip/preprocess/standardize.py
@@ -78,22 +78,22 @@ def standardize(x, offset=None, scale=None):
 
     * `xs` : standardized series
     """
+    try:
+        x = np.array(x, dtype="float64")
+    except:
+        raise ValueError('The argument x is not numpy array or similar.')
     if offset is None:
-        offset = np.array(x).mean()
+        offset = x.mean()
     else:
         try:
             offset = float(offset)
         except:
             raise ValueError('The argument offset is not None or float')
     if scale is None:
-        scale = np.array(x).std()
+        scale = x.std()
     else:
         try:
             scale = float(scale)
         except:
             raise ValueError('The argument scale is not None or float')
-    try:
-        x = np.array(x, dtype="float64")
-    except:
-        raise ValueError('The argument x is not numpy array or similar.')
     return (x - offset) / scale
-- 
2.43.0


From 6f07ed7f66cb20d90e0878a27af9b0e450870761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 22/29] fix: adapt refuses samples of a wrong width (OCNLMS
 broadcast a single number)

---
 padasip/filters/base_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 870982b..b9d4dc7 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -163,6 +163,8 @@ class AdaptiveFilter():
         """
         # private copy - the filter can remember the vector for later samples
         x = np.array(x, dtype="float64")
+        if not x.size == self.n:
+            raise ValueError('The length of vector x must agree with the filter size.')
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
-- 
2.43.0


From 09b36753f839d497300fb70a74c07f3eaf3e2e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 23/29] fix: adapt refuses wrong shapes and targets before the
 filter remembers the sample

---
 padasip/filters/base_filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index b9d4dc7..fffe9b5 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -163,8 +163,10 @@ class AdaptiveFilter():
         """
         # private copy - the filter can remember the vector for later samples
         x = np.array(x, dtype="float64")
-        if not x.size == self.n:
+        if not x.size == self.n or x.ndim > 1:
             raise ValueError('The length of vector x must agree with the filter size.')
+        # one number - check it before the filter remembers anything
+        d = float(np.array(d).item())
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
-- 
2.43.0


From 382b27b7571751d10bb6e6c27cca60085bcfe241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 24/29] fix: AP run refuses targets of more dimensions before
 the memory is shifted

---
 padasip/filters/base_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index fffe9b5..a824fd5 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -323,6 +323,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
             raise ValueError('Impossible to convert x or d to a numpy array')
         if N > 0 and not x.shape[1:] == (self.n,):
             raise ValueError('The width of matrix x must agree with the filter size.')
+        if N > 0 and not d.shape == (N,):
+            raise ValueError('The vector d must have one dimension.')
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
-- 
2.43.0


From 0569950ee52b9dded1a8ba68ae8f3158e33d6d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 25/29] fix: MLP train and test refuse items that are not
 numbers before anything is learned

---
 padasip/ann/mlp.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 0754410..9ac128b 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -303,10 +303,12 @@ class NetworkMLP():
             if not d.shape[1] == self.outputs:
                 raise ValueError('The number of outputs must agree with number of columns in d')
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if not x.ndim == 2 or d.ndim > 2:
+            raise ValueError('The matrix x must have two dimensions, d two at most')
         # create empty arrays
         if self.outputs == 1:
             e = np.zeros(epochs*N)
@@ -390,10 +392,12 @@ class NetworkMLP():
             if not d.shape[1] == self.outputs:
                 raise ValueError('The number of outputs must agree with number of columns in d')
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if not x.ndim == 2 or d.ndim > 2:
+            raise ValueError('The matrix x must have two dimensions, d two at most')
         # create empty arrays
         if self.outputs == 1:
             y = np.zeros(N)
-- 
2.43.0


From ca046ad6112ef9a5c2fdfc9e73c9b74379b56d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 26/29] fix: starting weights of two or more dimensions were
 accepted

---
 padasip/filters/base_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index a824fd5..566809e 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -94,6 +94,8 @@ class AdaptiveFilter():
                 w = np.array(w, dtype="float64")
             except:
                 raise ValueError('Impossible to understand the w')
+            if w.ndim > 1:
+                raise ValueError('Impossible to understand the w')
         else:
             raise ValueError('Impossible to understand the w')
         return w
-- 
2.43.0


From 64e3347d0c46cc60178e01f1bcca1a5c612a6817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 27/29] fix: MLP predict, run and update took inputs and
 targets of a wrong size

---
 padasip/ann/mlp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 9ac128b..c631ff6 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -346,7 +346,7 @@ class NetworkMLP():
         """
         # measure the data and check if the dimmension agree
         try:
-            x = np.array(x)
+            x = np.array(x, dtype="float64")
         except:
             raise ValueError('Impossible to convert x to a numpy array')
         N = len(x)
@@ -422,6 +422,10 @@ class NetworkMLP():
             Size depends on number of MLP outputs.
 
         """
+        # check the input before the network remembers anything
+        x = np.array(x, dtype="float64")
+        if not x.size == self.n_input:
+            raise ValueError('The number of network inputs is not correct.')
         # forward pass to hidden layers
         for l in self.layers:
             x = l.predict(x)
@@ -449,6 +453,8 @@ class NetworkMLP():
             Size correspond to size of input `d`.
 
         """
+        if not np.size(d) == self.outputs:
+            raise ValueError('The number of targets must agree with the number of outputs.')
         # update output layer
         e = d - self.y
         error = np.copy(e)
-- 
2.43.0


From 81dc60acb9ae08a5d2e5818c18c150baa626a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:28 +0000
Subject: [PATCH 28/29] fix: OCNLMS interrupted while it moves its memory kept
 an index out of bounds

---
 padasip/filters/ocnlms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index c176326..728e147 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -165,7 +165,8 @@ class FilterOCNLMS(AdaptiveFilter):
         """
         This function moves the memory index to next position.
         """
-        self.mem_idx += 1
-        if self.mem_idx > len(self.mem_x)-1:
-            self.mem_idx = 0
+        mem_idx = self.mem_idx + 1
+        if mem_idx > len(self.mem_x)-1:
+            mem_idx = 0
             self.mem_empty = False
+        self.mem_idx = mem_idx
-- 
2.43.0


From 831a5c7455179f854f24e32a6ff5759961a6cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 29/29] fix: KeyboardInterrupt while arguments are converted
 was turned into ValueError

---
 padasip/ann/mlp.py                       | 8 ++++----
 padasip/filters/__init__.py              | 2 +-
 padasip/filters/base_filter.py           | 6 +++---
 padasip/misc/error_evaluation.py         | 4 ++--
 padasip/preprocess/input_from_history.py | 2 +-
 padasip/preprocess/lda.py                | 2 +-
 padasip/preprocess/pca.py                | 2 +-
 padasip/preprocess/standardize.py        | 6 +++---
 padasip/preprocess/standardize_back.py   | 6 +++---
 9 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index c631ff6..8149d64 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -233,7 +233,7 @@ class NetworkMLP():
         else:
             try:
                 param = float(mu)
-            except:
+            except Exception:
                 raise ValueError(
                     'Parameter mu is not float or similar'
                     )
@@ -305,7 +305,7 @@ class NetworkMLP():
         try:
             x = np.array(x, dtype="float64")
             d = np.array(d, dtype="float64")
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x or d to a numpy array')
         if not x.ndim == 2 or d.ndim > 2:
             raise ValueError('The matrix x must have two dimensions, d two at most')
@@ -347,7 +347,7 @@ class NetworkMLP():
         # measure the data and check if the dimmension agree
         try:
             x = np.array(x, dtype="float64")
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x to a numpy array')
         N = len(x)
         # create empty arrays
@@ -394,7 +394,7 @@ class NetworkMLP():
         try:
             x = np.array(x, dtype="float64")
             d = np.array(d, dtype="float64")
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x or d to a numpy array')
         if not x.ndim == 2 or d.ndim > 2:
             raise ValueError('The matrix x must have two dimensions, d two at most')
diff --git a/padasip/filters/__init__.py b/padasip/filters/__init__.py
index 32920b9..0e0a495 100644
--- a/padasip/filters/__init__.py
+++ b/padasip/filters/__init__.py
@@ -260,7 +260,7 @@ def get_filter(name):
     """
     try:
         return FILTERS[name.upper()]
-    except:
+    except Exception:
         msg = 'Unknown model of filter {}, options are {}'
         raise ValueError(msg.format(name, list(FILTERS.keys())))
 
diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 566809e..a07a12f 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -92,7 +92,7 @@ class AdaptiveFilter():
         elif len(w) == n:
             try:
                 w = np.array(w, dtype="float64")
-            except:
+            except Exception:
                 raise ValueError('Impossible to understand the w')
             if w.ndim > 1:
                 raise ValueError('Impossible to understand the w')
@@ -203,7 +203,7 @@ class AdaptiveFilter():
         try:
             x = np.array(x, dtype="float64")
             d = np.array(d, dtype="float64")
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x or d to a numpy array')
         if N > 0 and not x.shape[1:] == (self.n,):
             raise ValueError('The width of matrix x must agree with the filter size.')
@@ -321,7 +321,7 @@ class AdaptiveFilterAP(AdaptiveFilter):
         try:
             x = np.array(x, dtype="float64")
             d = np.array(d, dtype="float64")
-        except:
+        except Exception:
             raise ValueError('Impossible to convert x or d to a numpy array')
         if N > 0 and not x.shape[1:] == (self.n,):
             raise ValueError('The width of matrix x must agree with the filter size.')
diff --git a/padasip/misc/error_evaluation.py b/padasip/misc/error_evaluation.py
index 6e01fa6..24402fb 100644
--- a/padasip/misc/error_evaluation.py
+++ b/padasip/misc/error_evaluation.py
@@ -118,14 +118,14 @@ def get_valid_error(x1, x2=-1):
     if isinstance(x2, int) and x2 == -1:
         try:
             e = to_float(x1)
-        except:
+        except Exception:
             raise ValueError('Impossible to convert series to a numpy array')
     # two series
     else:
         try:
             x1 = to_float(x1)
             x2 = to_float(x2)
-        except:
+        except Exception:
             raise ValueError('Impossible to convert one of series to a numpy array')
         if not len(x1) == len(x2):
             raise ValueError('The length of both series must agree.')
diff --git a/padasip/preprocess/input_from_history.py b/padasip/preprocess/input_from_history.py
index aba25f3..17b2e9c 100644
--- a/padasip/preprocess/input_from_history.py
+++ b/padasip/preprocess/input_from_history.py
@@ -65,7 +65,7 @@ def input_from_history(a, n, bias=False):
         raise ValueError('The argument n must be greater than 0')
     try:
         a = np.array(a, dtype="float64")
-    except:
+    except Exception:
         raise ValueError('The argument a is not numpy array or similar.')
     x = np.array([a[i:i+n] for i in range(len(a)-n+1)])
     if bias:
diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 9bd12e3..b203a40 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -192,7 +192,7 @@ def LDA_discriminants(x, labels):
     # validate inputs
     try:
         x = np.array(x)
-    except:
+    except Exception:
         raise ValueError('Impossible to convert x to a numpy array.')
     # make the LDA
     eigen_values, eigen_vectors = LDA_base(x, labels)
diff --git a/padasip/preprocess/pca.py b/padasip/preprocess/pca.py
index 4090ea0..431a277 100644
--- a/padasip/preprocess/pca.py
+++ b/padasip/preprocess/pca.py
@@ -88,7 +88,7 @@ def PCA_components(x):
     # validate inputs
     try:
         x = np.array(x)
-    except:
+    except Exception:
         raise ValueError('Impossible to convert x to a numpy array.')
     # eigen values of data covariance matrix (symmetric)
     eigen_values = np.linalg.eigvalsh(np.cov(x.T))
diff --git a/padasip/preprocess/standardize.py b/padasip/preprocess/standardize.py
index d6cad0b..2c6673c 100644
--- a/padasip/preprocess/standardize.py
+++ b/padasip/preprocess/standardize.py
@@ -80,20 +80,20 @@ def standardize(x, offset=None, scale=None):
     """
     try:
         x = np.array(x, dtype="float64")
-    except:
+    except Exception:
         raise ValueError('The argument x is not numpy array or similar.')
     if offset is None:
         offset = x.mean()
     else:
         try:
             offset = float(offset)
-        except:
+        except Exception:
             raise ValueError('The argument offset is not None or float')
     if scale is None:
         scale = x.std()
     else:
         try:
             scale = float(scale)
-        except:
+        except Exception:
             raise ValueError('The argument scale is not None or float')
     return (x - offset) / scale
diff --git a/padasip/preprocess/standardize_back.py b/padasip/preprocess/standardize_back.py
index 1ddf1c6..5f8f153 100644
--- a/padasip/preprocess/standardize_back.py
+++ b/padasip/preprocess/standardize_back.py
@@ -49,14 +49,14 @@ def standardize_back(xs, offset, scale):
     """
     try:
         offset = float(offset)
-    except:
+    except Exception:
         raise ValueError('The argument offset is not None or float.')
     try:
         scale = float(scale)
-    except:
+    except Exception:
         raise ValueError('The argument scale is not None or float.')
     try:
         xs = np.array(xs, dtype="float64")
-    except:
+    except Exception:
         raise ValueError('The argument xs is not numpy array or similar.')
     return xs*scale + offset
-- 
2.43.0

