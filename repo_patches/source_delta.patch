From 2aa950f24d659121e7a338c22a6aebd584c13f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 01/54] fix: Standardize must guard every zero-variance column,
 not just the first

---
 src/wai/ma/transformation/_Standardize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index 22b31fc..acf672d 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -37,9 +37,9 @@ class Standardize(AbstractTransformation, Serialisable):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
-        for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
-                self.std_devs.set(i, 0, 1)
+        for i in range(self.std_devs.num_columns()):
+            if self.std_devs.get(0, i) == real(0):
+                self.std_devs.set(0, i, 1)
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From c6352dab941e697285c319bf84cfa75a3d2dbdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:12 +0000
Subject: [PATCH 02/54] fix: Matrix.contains_NaN must recognise NaN

---
 src/wai/ma/core/matrix/_Matrix.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 11be11c..ad07b13 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -463,9 +463,8 @@ class Matrix(Serialisable):
         raise NotImplementedError
 
     def contains_NaN(self) -> bool:
-        NaN = real('NaN')
         def element_is_NaN(el):
-            return el == NaN
+            return el != el
         return self.any(element_is_NaN)
 
     def any(self, function: Callable[[real], bool]) -> bool:
-- 
2.43.0


From 1d7673cfa81ebec1195be8d555e8c0ed61c0184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 03/54] fix: Matrix equality must handle different shapes and
 infinities

---
 src/wai/ma/core/matrix/_Matrix.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index ad07b13..f4b6127 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -508,9 +508,7 @@ class Matrix(Serialisable):
         if other is None or self.__class__ is not other.__class__:
             return False
 
-        diff: Matrix = self.sub(other)
-
-        return not diff.data.any()
+        return np.array_equal(self.data, other.data)
 
     def __hash__(self):
         # TODO
-- 
2.43.0


From 85dd3b2b4cb97c80c27e04803eb912871fa25646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 04/54] fix: in-place vector updates and fill_diagonal must
 drop cached decompositions

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 src/wai/ma/core/matrix/helper.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index f4b6127..422392d 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -547,6 +547,7 @@ class Matrix(Serialisable):
     def vector_op_modify(self, vector: 'Matrix', op: np.ufunc):
         must_be_vector(vector)
         self.ensure_vector_size_matches(vector)
+        self.reset_cache()
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 695f151..e1c9383 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -222,6 +222,7 @@ def column_stdevs(mat: Matrix) -> Matrix:
 
 
 def fill_diagonal(mat: Matrix, value: Number):
+    mat.reset_cache()
     i = 0
     while i < mat.num_rows() and i < mat.num_columns():
         mat.data[i][i] = real(value)
-- 
2.43.0


From 510f49df1832548b2c621c7dd5f987823a3f9a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 05/54] fix: get_eigenvalue_decomposition_V must not hand out
 the cached matrix

---
 src/wai/ma/core/matrix/_Matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 422392d..6f50bea 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -85,7 +85,7 @@ class Matrix(Serialisable):
 
     def get_eigenvalue_decomposition_V(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-        return self.eigenvalue_decomposition[1]
+        return self.eigenvalue_decomposition[1].copy()
 
     def get_eigenvalue_decomposition_D(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-- 
2.43.0


From 641754c5a2b8223f0712e8e18ad1e6cfac821257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 06/54] fix: get_singular_values must compute the decomposition
 itself

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 6f50bea..a3cc12d 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -141,6 +141,7 @@ class Matrix(Serialisable):
         return Matrix(np.array(raw, dtype=real))
 
     def get_singular_values(self) -> 'Matrix':
+        self.make_singular_value_decomposition()
         return self.singular_value_decomposition[1].transpose()
 
     def sum(self, axis: Optional[int] = None) -> Union['Matrix', real]:
-- 
2.43.0


From eca054c1fc35d8d6f73882afaaf3387452a2cdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 07/54] fix: Standardize and RowNorm must recognise constant
 columns/rows despite rounding of the mean

---
 src/wai/ma/transformation/_RowNorm.py     | 4 +++-
 src/wai/ma/transformation/_Standardize.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_RowNorm.py b/src/wai/ma/transformation/_RowNorm.py
index b7b86b5..c213efa 100644
--- a/src/wai/ma/transformation/_RowNorm.py
+++ b/src/wai/ma/transformation/_RowNorm.py
@@ -37,8 +37,10 @@ class RowNorm(AbstractTransformation):
         self.means = row_means(data)
         self.std_devs = row_stdevs(data)
         # Make sure we don't do a divide by zero
+        # (rounding of the mean can give a constant row a non-zero standard deviation)
+        constant = data.data.min(1) == data.data.max(1)
         for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
+            if constant[i] or self.std_devs.get(i, 0) == real(0):
                 self.std_devs.set(i, 0, 1)
 
     def do_transform(self, data: Matrix) -> Matrix:
diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index acf672d..74abe90 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -37,8 +37,10 @@ class Standardize(AbstractTransformation, Serialisable):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
+        # (rounding of the mean can give a constant column a non-zero standard deviation)
+        constant = data.data.min(0) == data.data.max(0)
         for i in range(self.std_devs.num_columns()):
-            if self.std_devs.get(0, i) == real(0):
+            if constant[i] or self.std_devs.get(0, i) == real(0):
                 self.std_devs.set(0, i, 1)
         self.configured = True
 
-- 
2.43.0


From 0947e421cfac933e67f1ac7915464a90904ef91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 08/54] fix: utils.max_index must return the index of the
 maximum

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 12248ef..0539e9f 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -246,7 +246,7 @@ def max_index(reals: List[real]) -> int:
 
     for i in range(len(reals)):
         if i == 0 or reals[i] > maximum:
-            max_index = 1
+            max_index = i
             maximum = reals[i]
 
     return max_index
-- 
2.43.0


From dd8f799e8ae37aacf5991da315fbd73903731b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:06 +0000
Subject: [PATCH 09/54] fix: utils.sort must sort any list of numbers, with NaN
 treated as the maximum value

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 0539e9f..114a85e 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -185,7 +185,7 @@ def sort(array: List[real]) -> List[int]:
     """
     index = initial_index(len(array))
     if len(array) > 1:
-        array = list(array)
+        array = [np.finfo(real).max if x != x else x for x in to_real_array(array)]
         quick_sort(array, index, 0, len(array) - 1)
     return index
 
-- 
2.43.0


From 01e14401216e69a9cf5e45a00b0fc24077151fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:25 +0000
Subject: [PATCH 10/54] fix: serialise_big_int must leave room for the sign bit

---
 src/wai/ma/core/_Serialisable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 7890553..e606104 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -92,8 +92,8 @@ class Serialisable(ABC):
         :param value:   The integer to serialise.
         :return:        The bytes representation of the value.
         """
-        # Get the number of bits required to represent this value.
-        bit_length: int = value.bit_length()
+        # Get the number of bits required to represent this value (including the sign bit)
+        bit_length: int = (value if value >= 0 else ~value).bit_length() + 1
 
         # Get the number of bytes required to represent this value
         byte_length: int = (bit_length // 8) + (1 if bit_length % 8 != 0 else 0)
-- 
2.43.0


From 86a2bc664e6a40b4504313d79b8e2a6dfbb8b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 11/54] fix: save_state must accept a bare file name

---
 src/wai/ma/core/_Serialisable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index e606104..0a07485 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -45,7 +45,7 @@ class Serialisable(ABC):
         """
         # Make sure the directory for the file exists
         path = os.path.dirname(filename)
-        if not os.path.exists(path):
+        if path != '' and not os.path.exists(path):
             os.makedirs(path, exist_ok=True)
 
         # Save the file
-- 
2.43.0


From b6e6b2e4a5c8f7e5185d52236a3df488507ce87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:32 +0000
Subject: [PATCH 12/54] fix: Log must serialise integer-valued base and offset
 as floats

---
 src/wai/ma/transformation/_Log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_Log.py b/src/wai/ma/transformation/_Log.py
index 913b018..4990b76 100644
--- a/src/wai/ma/transformation/_Log.py
+++ b/src/wai/ma/transformation/_Log.py
@@ -86,6 +86,6 @@ class Log(AbstractTransformation, Serialisable):
 
     def serialise_state(self, stream: IO[bytes]):
         # Serialise out our base, base-conversion factor and offset
-        stream.write(self.serialise_to_bytes(self.base))
+        stream.write(self.serialise_to_bytes(float(self.base)))
         stream.write(self.serialise_to_bytes(self._base_conversion_factor()))
-        stream.write(self.serialise_to_bytes(self.offset))
+        stream.write(self.serialise_to_bytes(float(self.offset)))
-- 
2.43.0


From 1dbead1efcaf11444338e5ff30f2d50ebb4bf5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 13/54] fix: EPO weight matrix must match the number of
 eigenvectors when N exceeds the columns

---
 src/wai/ma/algorithm/glsw/_EPO.py          | 2 +-
 src/wai/ma/algorithm/glsw/_YGradientEPO.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/glsw/_EPO.py b/src/wai/ma/algorithm/glsw/_EPO.py
index cf43ccf..d73293a 100644
--- a/src/wai/ma/algorithm/glsw/_EPO.py
+++ b/src/wai/ma/algorithm/glsw/_EPO.py
@@ -42,7 +42,7 @@ class EPO(GLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(self.N, C.num_columns()))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
diff --git a/src/wai/ma/algorithm/glsw/_YGradientEPO.py b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
index d4fb4f5..275221b 100644
--- a/src/wai/ma/algorithm/glsw/_YGradientEPO.py
+++ b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
@@ -54,7 +54,7 @@ class YGradientEPO(YGradientGLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(self.N, C.num_columns()))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
-- 
2.43.0


From 9feb3836e9a3aa180765680e1537d4f208713581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 14/54] fix: CCAFilter must centre with the means of the latest
 training data

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 9885a07..8950cc3 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -50,6 +50,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
 
     def reset(self):
         super().reset()
+        self.center_X = Center()
+        self.center_Y = Center()
         self.proj_X = None
         self.proj_Y = None
 
-- 
2.43.0


From a3b0b6329b69938751a8e09ededd13880cb6e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 15/54] fix: CCAFilter must use the right singular vectors
 (columns of V) for the responses

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 8950cc3..203d874 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -108,7 +108,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         omega: Matrix = Cxx_inv_sqrt.mul(Cxy).mul(Cyy_inv_sqrt)
 
         U: Matrix = omega.svd_U().normalized(0)
-        V: Matrix = omega.svd_V().normalized(0)
+        V: Matrix = omega.svd_V().transpose().normalized(0)
 
         C: Matrix = U.get_sub_matrix((0, U.num_rows()), (0, self.kcca))
         D: Matrix = V.get_sub_matrix((0, V.num_rows()), (0, self.kcca))
-- 
2.43.0


From 908fe0667799b514b7eb06d0bee353e1c308d0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 16/54] fix: a missing training matrix must be reported by the
 check, leaving the model untrained

---
 src/wai/ma/algorithm/_CCAFilter.py       | 6 +++---
 src/wai/ma/algorithm/glsw/_GLSW.py       | 4 ++--
 src/wai/ma/algorithm/pls/_AbstractPLS.py | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 203d874..3f95d0e 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -56,7 +56,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         self.proj_Y = None
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
-        if x is None or y is None:
+        if x is None and y is None:
             super().initialize()
             self.kcca = 1
             self.lambda_X = real(1e-2)
@@ -64,8 +64,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
             self.center_X = Center()
             self.center_Y = Center()
         else:
-            x = x.copy()
-            y = y.copy()
+            x = x.copy() if x is not None else None
+            y = y.copy() if y is not None else None
 
             self.reset()
 
diff --git a/src/wai/ma/algorithm/glsw/_GLSW.py b/src/wai/ma/algorithm/glsw/_GLSW.py
index 707e7e3..3e2a695 100644
--- a/src/wai/ma/algorithm/glsw/_GLSW.py
+++ b/src/wai/ma/algorithm/glsw/_GLSW.py
@@ -41,8 +41,8 @@ class GLSW(AbstractAlgorithm, SupervisedFilter):
             self.alpha = 1e-3
         else:
             # Always work on copies
-            x1 = x1.copy()
-            x2 = x2.copy()
+            x1 = x1.copy() if x1 is not None else None
+            x2 = x2.copy() if x2 is not None else None
 
             self.reset()
 
diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index ea6e2ae..92851a1 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -45,8 +45,8 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
             :return:            None if successful, otherwise error message.
             """
             # Always work on copies
-            predictors = predictors.copy()
-            response = response.copy()
+            predictors = predictors.copy() if predictors is not None else None
+            response = response.copy() if response is not None else None
 
             self.reset()
 
-- 
2.43.0


From 670752a6f5b130a4f88ccfb57d0fd4fb0de88ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 17/54] fix: multi-response preprocessing must use each
 response column's own statistics

---
 src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index 8fed41d..af5e61b 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -98,13 +98,13 @@ class AbstractMultiResponsePLS(AbstractPLS):
         self.class_std_dev = [real(0)] * response.num_columns()
         for i in range(response.num_columns()):
             if self.preprocessing_type is PreprocessingType.CENTER:
-                self.class_mean[i] = helper.mean(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
                 self.class_std_dev[i] = real(1)
                 self.trans_predictors = Center()
                 self.trans_response = Center()
             elif self.preprocessing_type is PreprocessingType.STANDARDIZE:
-                self.class_mean[i] = helper.mean(response, 0)
-                self.class_std_dev[i] = helper.stdev(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
+                self.class_std_dev[i] = helper.stdev(response, i)
                 self.trans_predictors = Standardize()
                 self.trans_response = Standardize()
             elif self.preprocessing_type is PreprocessingType.NONE:
-- 
2.43.0


From d2fdf753179b48cb422e90a864f4133ed79b9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:24 +0000
Subject: [PATCH 18/54] fix: NIPALS must scale its coefficients by every
 response column's standard deviation

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 9bf596b..4584053 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -154,7 +154,7 @@ class NIPALS(AbstractMultiResponsePLS):
 
         # Calculate regression coefficients
         y_stds: Matrix = self.standardize_Y.get_std_devs()
-        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds)
+        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds.transpose())
         return None
 
     def nipals_loop(self, X: Matrix, Y: Matrix) -> 'NipalsLoopResult':
-- 
2.43.0


From 8e33f2b20e08230d586e9d4ab9f63f66068286ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:27 +0000
Subject: [PATCH 19/54] fix: NIPALS inner loop must iterate on the updated
 response scores

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 4584053..149fafc 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -221,7 +221,8 @@ class NIPALS(AbstractMultiResponsePLS):
             if iterations >= self.max_iter:
                 break
 
-            # Update stopping conditions
+            # Update y scores and stopping conditions
+            y_score = Y_score
             X_weight_old = X_weight
             iterations += 1
 
-- 
2.43.0


From 2588addd777c5a634d035742d7fbf166c2632191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:55 +0000
Subject: [PATCH 20/54] fix: PLS preprocessing must be applied to the
 predictors in predict and transform

---
 .../ma/algorithm/pls/_AbstractMultiResponsePLS.py   | 13 +++++++++++++
 .../ma/algorithm/pls/_AbstractSingleResponsePLS.py  | 13 +++++++++++++
 src/wai/ma/algorithm/pls/_OPLS.py                   |  2 +-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index af5e61b..e4b8bc5 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -133,6 +133,8 @@ class AbstractMultiResponsePLS(AbstractPLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
         result = self.do_perform_predictions(predictors)
         if self.trans_response is not None:
             for i in range(result.num_rows()):
@@ -140,3 +142,14 @@ class AbstractMultiResponsePLS(AbstractPLS):
                     result.set(i, j, result.get(i, j) * self.class_std_dev[j] + self.class_mean[j])
 
         return result
+
+    def transform(self, predictors: Matrix) -> Matrix:
+        """
+        Transforms the data.
+
+        :param predictors:  The input data.
+        :return:            The transformed data.
+        """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+        return super().transform(predictors)
diff --git a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
index a02e056..50f5797 100644
--- a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
@@ -94,9 +94,22 @@ class AbstractSingleResponsePLS(AbstractPLS, ABC):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
         result = self.do_perform_predictions(predictors)
         if self.trans_response is not None:
             for i in range(result.num_rows()):
                 result.set(i, 0, result.get(i, 0) * self.class_std_dev + self.class_mean)
 
         return result
+
+    def transform(self, predictors: Matrix) -> Matrix:
+        """
+        Transforms the data.
+
+        :param predictors:  The input data.
+        :return:            The transformed data.
+        """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+        return super().transform(predictors)
diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index 5237fc9..f7f5ab9 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -189,5 +189,5 @@ class OPLS(AbstractSingleResponsePLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
-        X_transformed: Matrix = self.transform(predictors)
+        X_transformed: Matrix = self.do_transform(predictors)
         return self.base_PLS.predict(X_transformed)
-- 
2.43.0


From 7bf12f0a6dc1c593039e429a6e1ab16bdeb58902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:59 +0000
Subject: [PATCH 21/54] fix: OPLS must report a failure to train its base model

---
 src/wai/ma/algorithm/pls/_OPLS.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index f7f5ab9..16b3aec 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -147,9 +147,7 @@ class OPLS(AbstractSingleResponsePLS):
             self.P_orth.set_column(current_component, p_orth)
 
         self.X_osc = X.copy()
-        self.base_PLS.initialize(self.do_transform(predictors), response)
-
-        return None
+        return self.base_PLS.initialize(self.do_transform(predictors), response)
 
     def inv_L2_squared(self, v: Matrix) -> real:
         """
-- 
2.43.0


From 748c3eb4165de2d4a83fc1adc5754dcbc69c9a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:02 +0000
Subject: [PATCH 22/54] fix: PRM must use X = V*S on wide data and project with
 U when transforming

---
 src/wai/ma/algorithm/pls/_PRM.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index 073b0a4..ded8a3a 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -50,6 +50,7 @@ class PRM(AbstractSingleResponsePLS):
         self.num_SIMPLS_coefficients: int = 0  # The number of SIMPLS coefficients in W to keep (0 keep all)
         self.final_regression_coefficients: Optional[Matrix] = None  # Final regression coefficients
         self.simpls: Optional[SIMPLS] = None  # SIMPLS algorithm
+        self.projection: Optional[Matrix] = None  # Maps predictors to the reduced data (if p > n)
 
     @staticmethod
     def validate_num_SIMPLS_coefficients(value: int) -> bool:
@@ -75,6 +76,7 @@ class PRM(AbstractSingleResponsePLS):
         self.gamma = None
         self.T = None
         self.simpls = None
+        self.projection = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
@@ -223,7 +225,7 @@ class PRM(AbstractSingleResponsePLS):
             S: Matrix = X_t.svd_S()
 
             # Replace X with n x n matrix
-            X = V.mul(S)
+            X = V.transpose().mul(S)
 
         # 1) Compute robust starting values fro residual and leverage weights
         self.init_weights(X, y)
@@ -263,6 +265,8 @@ class PRM(AbstractSingleResponsePLS):
         # Get the final regression coefficients from the latest SIMPLS run
         self.final_regression_coefficients = self.simpls.get_matrix('B')
 
+        self.projection = U
+
         # If X has been replaced by US, the regression coefficients need to be
         # back-transformed into beta_hat = U*beta_p
         if has_more_columns_than_rows:
@@ -274,6 +278,8 @@ class PRM(AbstractSingleResponsePLS):
         return True
 
     def do_transform(self, predictors: Matrix) -> Matrix:
+        if self.projection is not None:
+            predictors = predictors.mul(self.projection)
         return predictors.mul(self.simpls.get_matrix('W'))
 
     def do_perform_predictions(self, predictors: Matrix) -> Matrix:
-- 
2.43.0


From b083cd11f8cbcba3ea5137ec0744ecb0c43e5680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 23/54] fix: semi-supervised DIPLS must use all labelled rows
 when domain sizes differ

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index e301149..6af5665 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -140,7 +140,7 @@ class DIPLS(AbstractSingleResponsePLS):
                 X_s: Matrix = predictors.get_rows((0, self.ns))
                 X_t: Matrix = predictors.get_rows((self.ns, predictors.num_rows()))
 
-                X: Matrix = predictors.get_rows((0, 2 * self.ns))
+                X: Matrix = predictors.get_rows((0, self.ns + self.nt))
                 y = response
                 break_()
 
-- 
2.43.0


From 601652aaa52f755e98349c5505ba6e56571f4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:26 +0000
Subject: [PATCH 24/54] fix: FastICA must centre with the means of the latest
 data

---
 src/wai/ma/algorithm/ica/_FastICA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index e6107ee..d10ae59 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -71,8 +71,10 @@ class FastICA(AbstractAlgorithm, Filter):
     def reset(self):
         super().reset()
         self.components = None
+        self.sources = None
         self.mixing = None
         self.whitening = None
+        self.center = Center()
 
     def configure(self, X: Matrix):
         X = X.transpose()
-- 
2.43.0


From 98eda82413f4206a73ae7047f239d68512e66cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:30 +0000
Subject: [PATCH 25/54] fix: FastICA.reconstruct must add the column means
 back, and only when the data was centred

---
 src/wai/ma/algorithm/ica/_FastICA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index d10ae59..abff83b 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -254,7 +254,8 @@ class FastICA(AbstractAlgorithm, Filter):
 
     def reconstruct(self) -> Matrix:
         if self.is_initialised():
-            return self.center.inverse_transform(self.sources.mul(self.mixing.transpose()).transpose()).transpose()
+            result: Matrix = self.sources.mul(self.mixing.transpose())
+            return self.center.inverse_transform(result) if self.whiten else result
         else:
             raise MatrixAlgorithmsError('FastICA has not yet been initialized!')
 
-- 
2.43.0


From 289fb3c58178be58018bffee44319e79d55d32d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:34 +0000
Subject: [PATCH 26/54] fix: FastICA must not overwrite the num_components
 parameter while training

---
 src/wai/ma/algorithm/ica/_FastICA.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index abff83b..73cf42f 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -85,14 +85,15 @@ class FastICA(AbstractAlgorithm, Filter):
         X1: Optional[Matrix] = None
 
         min_NP: int = min(n, p)
+        num_components: int = self.num_components
 
         if not self.whiten:
-            self.num_components = min_NP
+            num_components = min_NP
             self.logger.warning('Ignoring num_components when $whiten=False')
 
-        if self.num_components > min_NP:
+        if num_components > min_NP:
             self.logger.warning('num_components is too large and will be set to ' + str(min_NP))
-            self.num_components = min_NP
+            num_components = min_NP
 
         # Whiten data
         if self.whiten:
@@ -103,7 +104,7 @@ class FastICA(AbstractAlgorithm, Filter):
             d = d.get_rows((0, k))  # Only get non-zero singular values
             d_inv_elements: Matrix = d.apply_elementwise(lambda a: 1.0 / a)
             tmp: Matrix = U.scale_by_row_vector(d_inv_elements).transpose()
-            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), self.num_components)))
+            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), num_components)))
 
             X1 = self.whitening.mul(X)
             X1 = X1.mul(sqrt(p))
@@ -111,7 +112,7 @@ class FastICA(AbstractAlgorithm, Filter):
             X1 = X
 
         # Randomly initialise weights from normal dist
-        W_init: Matrix = randn(self.num_components, self.num_components, 1)
+        W_init: Matrix = randn(num_components, num_components, 1)
 
         # Use deflation algorithm
         if self.algorithm is Algorithm.DEFLATION:
@@ -137,9 +138,10 @@ class FastICA(AbstractAlgorithm, Filter):
         :param X:       Input.
         :return:        Weights
         """
-        W: Matrix = zeros(self.num_components, self.num_components)
+        num_components: int = W_init.num_rows()
+        W: Matrix = zeros(num_components, num_components)
 
-        for j in range(self.num_components):
+        for j in range(num_components):
             w: Matrix = W_init.get_row(j).transpose().copy()
             w = w.div(w.pow_elementwise(2).sum(-1).sqrt().as_real())
             for i in range(self.max_iter):
-- 
2.43.0


From 12f17d75ff246f5eb081ec55473aef12ea7c3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 27/54] fix: PCA loadings must list every original column when
 constant columns were dropped

---
 src/wai/ma/algorithm/_PCA.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 6b92331..9aa7f1d 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -37,6 +37,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.sorted_eigens: List[int] = []
         self.sum_of_eigenvalues: real = real(0)
         self.num_cols: int = 0
+        self.num_cols_orig: int = 0
         self.num_rows: int = 0
         self.keep_cols: List[int] = []
         self.train: Optional[Matrix] = None
@@ -109,6 +110,7 @@ class PCA(AbstractAlgorithm, Filter):
         :param instances:   The data to process.
         """
         self.train = instances.copy()
+        self.num_cols_orig = instances.num_columns()
 
         # Delete any attributes with only one distinct value or are all missing
         self.keep_cols = []
@@ -234,15 +236,15 @@ class PCA(AbstractAlgorithm, Filter):
         :return:    Matrix containing the components.
         """
         coeff = self.get_coefficients()
-        result = factory.zeros(self.num_cols, len(coeff) + 1)
+        result = factory.zeros(self.num_cols_orig, len(coeff) + 1)
 
         # Add the index column
-        for n in range(self.num_cols):
+        for n in range(self.num_cols_orig):
             result.set(n, result.num_columns() - 1, n + 1)
 
         # Each list is a single column
         for i in range(len(coeff)):
-            for n in range(self.num_cols):
+            for n in range(self.num_cols_orig):
                 # Column was kept earlier
                 value = real(0)
                 if n in self.keep_cols:
-- 
2.43.0


From 86ad5abc8d6981b837d123d0c1cc44bc168eaa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 28/54] fix: PCA must report itself as trained after
 transforming

---
 src/wai/ma/algorithm/_PCA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 9aa7f1d..f028acc 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -268,6 +268,7 @@ class PCA(AbstractAlgorithm, Filter):
         result = self.do_transform(data)
         self.scores = result
         self.loadings = self.extract_loadings()
+        self.initialised = True
 
         return result
 
-- 
2.43.0


From 1641cb992f6aa50432a431e3e7a8c7b480587a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:26 +0000
Subject: [PATCH 29/54] fix: SIMPLS reset must forget Q

---
 src/wai/ma/algorithm/pls/_SIMPLS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/pls/_SIMPLS.py b/src/wai/ma/algorithm/pls/_SIMPLS.py
index 48e826c..7ccd264 100644
--- a/src/wai/ma/algorithm/pls/_SIMPLS.py
+++ b/src/wai/ma/algorithm/pls/_SIMPLS.py
@@ -46,6 +46,7 @@ class SIMPLS(AbstractSingleResponsePLS, Serialisable):
         super().reset()
         self.B = None
         self.W = None
+        self.Q = None
 
     @staticmethod
     def validate_num_coefficients(value: int) -> bool:
-- 
2.43.0


From 9fb64d1af78ea09676d9e7252a8a1ddafe4f3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:30 +0000
Subject: [PATCH 30/54] fix: an automatic kernel gamma must be derived from the
 data of each call

---
 src/wai/ma/transformation/kernel/_PolyKernel.py | 12 ++++++------
 src/wai/ma/transformation/kernel/_RBFKernel.py  |  9 +++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/wai/ma/transformation/kernel/_PolyKernel.py b/src/wai/ma/transformation/kernel/_PolyKernel.py
index be5ac88..90a1361 100644
--- a/src/wai/ma/transformation/kernel/_PolyKernel.py
+++ b/src/wai/ma/transformation/kernel/_PolyKernel.py
@@ -15,6 +15,8 @@
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from typing import Optional
 
+import numpy as np
+
 from ...core import ZERO, real, NAN, ONE
 from ...core.matrix import Matrix
 from ._AbstractKernel import AbstractKernel
@@ -40,19 +42,17 @@ class PolyKernel(AbstractKernel):
     def apply_matrix(self, X: Matrix, Y: Optional[Matrix] = None) -> Matrix:
         if Y is None:
             Y = X
-        if self.gamma is NAN:
-            self.gamma = ONE / X.num_columns()
+        gamma: real = ONE / X.num_columns() if np.isnan(self.gamma) else self.gamma
         result: Matrix = X.mul(Y.transpose())
-        result = result.mul(self.gamma)
+        result = result.mul(gamma)
         result = result.add(self.coef_0)
         result = result.pow_elementwise(self.degree)
         return result
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         linear_term: real = x.vector_dot(y)
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return pow(self.gamma * linear_term + self.coef_0, self.degree)
+        gamma: real = ONE / x.num_columns() if np.isnan(self.gamma) else self.gamma
+        return pow(gamma * linear_term + self.coef_0, self.degree)
 
     def __str__(self):
         return 'Polynomial Kernel: K(x,y)=(gamma*x^T*y + coef_0)^d, ' +\
diff --git a/src/wai/ma/transformation/kernel/_RBFKernel.py b/src/wai/ma/transformation/kernel/_RBFKernel.py
index a7d30ba..8901443 100644
--- a/src/wai/ma/transformation/kernel/_RBFKernel.py
+++ b/src/wai/ma/transformation/kernel/_RBFKernel.py
@@ -13,7 +13,9 @@
 #
 #  You should have received a copy of the GNU General Public License
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
-from ...core import ONE, real, NAN
+import numpy as np
+
+from ...core import ONE, real
 from ...core.matrix import Matrix
 from ...core.utils import exp
 from ._AbstractKernel import AbstractKernel
@@ -33,9 +35,8 @@ class RBFKernel(AbstractKernel):
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         norm_2: real = x.sub(y).norm2()
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return exp(-ONE * self.gamma * norm_2)
+        gamma: real = ONE / x.num_columns() if np.isnan(self.gamma) else self.gamma
+        return exp(-ONE * gamma * norm_2)
 
     def __str__(self):
         return 'RBF Kernel: K(x,y) = exp(-1*gamma*||x - y||^2), gamma=' + str(self.gamma)
-- 
2.43.0


From d71d20f5a1d17a3f7467f28b434a3d322214dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 31/54] fix: seeded random matrices must not reseed the
 process-wide generator

---
 src/wai/ma/core/matrix/factory.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/core/matrix/factory.py b/src/wai/ma/core/matrix/factory.py
index 48960d5..50f3bf9 100644
--- a/src/wai/ma/core/matrix/factory.py
+++ b/src/wai/ma/core/matrix/factory.py
@@ -148,8 +148,7 @@ def randn(rows: int, columns: int, seed: int = 1, mean: real = real(0), std: rea
     :param std:         The standard deviation of the normal distribution.
     :return:            The matrix.
     """
-    random.seed(seed)
-    data = random.rand(rows, columns)
+    data = random.RandomState(seed).rand(rows, columns)
     np.multiply(data, std)
     np.add(data, mean)
     return Matrix(data)
@@ -178,8 +177,7 @@ def rand(rows: int, columns: int, seed: int = 1) -> Matrix:
     :param seed:        The seed value to initialise the PRNG with.
     :return:            The matrix.
     """
-    random.seed(seed)
-    return Matrix(random.rand(rows, columns))
+    return Matrix(random.RandomState(seed).rand(rows, columns))
 
 
 def rand_like(other: Matrix, seed: int) -> Matrix:
-- 
2.43.0


From 3249f6fc4a8a56710fc6a82d727c16eab4f40bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 32/54] fix: assigning any scaler parameter must make the next
 use re-learn

---
 src/wai/ma/transformation/_PowerTransformer.py    |  3 +++
 src/wai/ma/transformation/_QuantileTransformer.py | 12 ++++++++++++
 src/wai/ma/transformation/_RobustScaler.py        |  6 ++++++
 3 files changed, 21 insertions(+)

diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index ccdd96f..0edd067 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -50,6 +50,9 @@ class PowerTransformer(AbstractTransformation):
             raise ValueError(f"Method was {method} but must be one of: " +
                              ", ".join(PowerTransformer.METHODS))
 
+    def validate_standardise(self, standardise: bool):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index b161ad4..564455c 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -53,6 +53,18 @@ class QuantileTransformer(AbstractTransformation):
             raise ValueError(f"Output distribution was {selection} but must be one of: " +
                              ", ".join(QuantileTransformer.OUTPUT_DISTRIBUTIONS))
 
+    def validate_n_quantiles(self, n_quantiles: int):
+        pass
+
+    def validate_ignore_implicit_zeroes(self, ignore_implicit_zeroes: bool):
+        pass
+
+    def validate_subsample(self, subsample: int):
+        pass
+
+    def validate_random_state(self, random_state: Optional[int]):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index 884dbb8..6739406 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -51,6 +51,12 @@ class RobustScaler(AbstractTransformation):
             raise ValueError(f"Quantile range must be 0.0 < q_min < q_max < 100.0. "
                              f"Got q_min={selection[0]}, q_max={selection[1]}")
 
+    def validate_with_centering(self, with_centering: bool):
+        pass
+
+    def validate_with_scaling(self, with_scaling: bool):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
-- 
2.43.0


From 8e5f66605e99ebe1879638fc19508e0a0a9945dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:03 +0000
Subject: [PATCH 33/54] fix: inverse_transform must not freeze transformations
 that re-learn on every use

---
 src/wai/ma/transformation/_AbstractTransformation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wai/ma/transformation/_AbstractTransformation.py b/src/wai/ma/transformation/_AbstractTransformation.py
index da1bc57..ceb0e09 100644
--- a/src/wai/ma/transformation/_AbstractTransformation.py
+++ b/src/wai/ma/transformation/_AbstractTransformation.py
@@ -47,7 +47,6 @@ class AbstractTransformation(Filter, ABC):
     def inverse_transform(self, data: Matrix) -> Matrix:
         if not self.configured:
             self.configure(data)
-            self.configured = True
         return self.do_inverse_transform(data)
 
     @classmethod
-- 
2.43.0


From f4558e246923030d4e21720f382bae7a4d727064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 34/54] fix: inverse FFT of a real matrix must be a real matrix

---
 src/wai/ma/transformation/_FFT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_FFT.py b/src/wai/ma/transformation/_FFT.py
index b709d14..a961841 100644
--- a/src/wai/ma/transformation/_FFT.py
+++ b/src/wai/ma/transformation/_FFT.py
@@ -99,11 +99,11 @@ class FFT(AbstractTransformation):
         :param array:           The array to inverse FFT.
         :return:                The inverse FFT of the array.
         """
-        return np.fft.ifft(
+        return np.real(np.fft.ifft(
             np.fft.ifftshift(array),
             axis=1,
             norm="ortho" if self.orthonormalisation else None
-        )
+        ))
 
     @staticmethod
     def internal_format(fourier: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 9bbc46d90e1cfd9cbb8f3a34bb2299bbccad7955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 35/54] fix: helper.read must report empty text handles with
 its own error

---
 src/wai/ma/core/matrix/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index e1c9383..85c0fc3 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -109,12 +109,12 @@ def read(filename: Union[str, IO[str]], header: bool, separator: str) -> Matrix:
         lines = [line for line in filename]
 
     if len(lines) == 0:
-        raise RuntimeError('No rows in file: ' + filename)
+        raise RuntimeError('No rows in file: ' + str(filename))
 
     if header:
         lines = lines[1:]
     if len(lines) == 0:
-        raise RuntimeError('No data rows in file: ' + filename)
+        raise RuntimeError('No data rows in file: ' + str(filename))
 
     sep = separator
     cells = lines[0].split(sep)
-- 
2.43.0


From 75a67e4ff7c58dedda57ab2e90360ec0604acd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 36/54] fix: helper.equal must not treat NaN as equal to
 everything

---
 src/wai/ma/core/matrix/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 85c0fc3..fc5f235 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -87,7 +87,8 @@ def equal(m1: Matrix, m2: Matrix, epsilon: real = real(0)) -> bool:
 
     for row in range(m1.num_rows()):
         for col in range(m1.num_columns()):
-            if np.abs(m1.get(row, col) - m2.get(row, col)) > epsilon:
+            a, b = m1.get(row, col), m2.get(row, col)
+            if a != b and not np.abs(a - b) <= epsilon:
                 return False
 
     return True
-- 
2.43.0


From 87a411f37ef2642aa7d85e2c1d994ef8ecc0f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:16 +0000
Subject: [PATCH 37/54] fix: assigning any NIPALS or FastICA hyper-parameter
 must make the model untrained

---
 src/wai/ma/algorithm/ica/_FastICA.py | 8 ++++++++
 src/wai/ma/algorithm/pls/_NIPALS.py  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 73cf42f..4cc822b 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -58,6 +58,14 @@ class FastICA(AbstractAlgorithm, Filter):
     def validate_tol(value: float) -> bool:
         return value >= 0.0
 
+    @staticmethod
+    def validate_fun(value: NegEntropyApproximationFunction) -> bool:
+        return True
+
+    @staticmethod
+    def validate_algorithm(value: 'Algorithm') -> bool:
+        return True
+
     def initialize(self):
         super().initialize()
         self.num_components = 5
diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 149fafc..a3fce8a 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -76,6 +76,14 @@ class NIPALS(AbstractMultiResponsePLS):
     def validate_tol(value: real) -> bool:
         return value >= ZERO
 
+    @staticmethod
+    def validate_norm_Y_weights(value: bool) -> bool:
+        return True
+
+    @staticmethod
+    def validate_deflation_mode(value: 'DeflationMode') -> bool:
+        return True
+
     def get_min_columns_response(self) -> int:
         return 1
 
-- 
2.43.0


From fb89cc2946d1eecbb50c2be5a61888cbe77a8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:33 +0000
Subject: [PATCH 38/54] fix: real eigenvalues/eigenvectors must be returned as
 real matrices

---
 src/wai/ma/core/matrix/_Matrix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index a3cc12d..20e47b2 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -118,6 +118,11 @@ class Matrix(Serialisable):
         """
         if self.eigenvalue_decomposition is None:
             eigenvalues, eigenvectors = np.linalg.eig(self.data)
+
+            # Real eigenpairs must come as real matrices, whatever the numpy version
+            if not np.any(np.imag(eigenvalues)) and not np.any(np.imag(eigenvectors)):
+                eigenvalues, eigenvectors = np.real(eigenvalues), np.real(eigenvectors)
+
             self.eigenvalue_decomposition = (Matrix(eigenvalues).transpose(), Matrix(eigenvectors))
 
     def make_qr_decomposition(self):
-- 
2.43.0


From f546aacc53cbdb4da3c8c1dc2cb918baaee4ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 39/54] fix: symmetric matrices must have real eigenvalues and
 orthonormal eigenvectors

---
 src/wai/ma/core/matrix/_Matrix.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 20e47b2..22cb29a 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -123,6 +123,16 @@ class Matrix(Serialisable):
             if not np.any(np.imag(eigenvalues)) and not np.any(np.imag(eigenvectors)):
                 eigenvalues, eigenvectors = np.real(eigenvalues), np.real(eigenvectors)
 
+            # The general solver doesn't guarantee real eigenvalues or orthonormal
+            # eigenvectors for (up to rounding) symmetric matrices, so use the symmetric
+            # solver if it failed to find them
+            scale = np.abs(self.data).max()
+            if np.abs(self.data - self.data.T).max() <= 1e-13 * scale:
+                gram = np.matmul(eigenvectors.T, eigenvectors)
+                if np.iscomplexobj(gram) or np.abs(gram - np.eye(len(gram))).max() > 1e-10:
+                    eigenvalues, eigenvectors = np.linalg.eigh(self.data)
+                    eigenvalues, eigenvectors = eigenvalues[::-1].copy(), eigenvectors[:, ::-1].copy()
+
             self.eigenvalue_decomposition = (Matrix(eigenvalues).transpose(), Matrix(eigenvectors))
 
     def make_qr_decomposition(self):
-- 
2.43.0


From 9b62dcb6101be600dae98d35eb73ff7c12916e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 40/54] fix: scientific text output must support all decimals
 (-1)

---
 src/wai/ma/core/matrix/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index fc5f235..9fb6ba4 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -147,7 +147,7 @@ def to_lines(data: Matrix, header: bool, separator: str, num_dec: int, scientifi
 def data_to_string(data: Matrix, separator: str, num_dec: int, result: List[str], scientific: bool):
     if scientific:
         formatter = partial(np.format_float_scientific,
-                            precision=num_dec,
+                            precision=num_dec if num_dec != -1 else None,
                             unique=True,
                             trim='0',
                             exp_digits=1)
-- 
2.43.0


From cffbdc16618281900ad861d8c99649fbcdb00a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 41/54] fix: real_to_string_fixed must recognise NaN

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 114a85e..f2c7ac5 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -264,7 +264,7 @@ def real_to_string_fixed(value: real, after_decimal_point: int) -> str:
     :return:                        The real as a formatted string.
     """
     # Special numbers
-    if value == real(NAN):
+    if value != value:
         return NAN
     elif value == real(NEGATIVE_INFINITY):
         return NEGATIVE_INFINITY
-- 
2.43.0


From face716f6cb61e36099115d83c56bf8f31110c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:08 +0000
Subject: [PATCH 42/54] fix: pass-through results must not share storage with
 the input

---
 src/wai/ma/core/_MultiFilter.py           | 2 +-
 src/wai/ma/transformation/_PassThrough.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/core/_MultiFilter.py b/src/wai/ma/core/_MultiFilter.py
index b60589e..8b3b0d4 100644
--- a/src/wai/ma/core/_MultiFilter.py
+++ b/src/wai/ma/core/_MultiFilter.py
@@ -30,7 +30,7 @@ class MultiFilter(Filter):
         
     def transform(self, predictors: Matrix) -> Matrix:
         # The result starts as the predictors
-        result: Matrix = predictors
+        result: Matrix = predictors.copy()
         
         # Apply each filter in ordered turn
         for filter in self.filters:
diff --git a/src/wai/ma/transformation/_PassThrough.py b/src/wai/ma/transformation/_PassThrough.py
index b06b771..e380c6e 100644
--- a/src/wai/ma/transformation/_PassThrough.py
+++ b/src/wai/ma/transformation/_PassThrough.py
@@ -22,7 +22,7 @@ class PassThrough(AbstractTransformation):
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-        return data
+        return data.copy()
 
     def do_inverse_transform(self, data: Matrix) -> Matrix:
-        return data
+        return data.copy()
-- 
2.43.0


From aa521ffd837406b37470d32eacdd0ec3035b0439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:34 +0000
Subject: [PATCH 43/54] fix: accept a 1x1 column vector for a single-row matrix

---
 src/wai/ma/core/matrix/_Matrix.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 22cb29a..acf167b 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -567,12 +567,10 @@ class Matrix(Serialisable):
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
-        if not vector.is_vector():
-            return False
-        elif vector.is_row_vector():
-            return self.num_columns() == vector.num_columns()
-        else:
-            return self.num_rows() == vector.num_rows()
+        # A 1x1 vector is both a row vector and a column vector
+        if vector.is_row_vector() and self.num_columns() == vector.num_columns():
+            return True
+        return vector.is_column_vector() and self.num_rows() == vector.num_rows()
 
     def ensure_vector_size_matches(self, vector: 'Matrix'):
         if not self.vector_size_matches(vector):
-- 
2.43.0


From 1351ddd61f069de30f3d623eed1a14d4dca19a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:07 +0000
Subject: [PATCH 44/54] fix: FFT must refuse unknown output modes and accept
 them by name

---
 src/wai/ma/transformation/_FFT.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/transformation/_FFT.py b/src/wai/ma/transformation/_FFT.py
index a961841..4fe11b2 100644
--- a/src/wai/ma/transformation/_FFT.py
+++ b/src/wai/ma/transformation/_FFT.py
@@ -44,9 +44,9 @@ class FFT(AbstractTransformation):
         self.output_mode: OutputMode = OutputMode.AMPLITUDE_ONLY
 
     def __setattr__(self, key, value):
-        # Can set output mode by int as well
-        if key == "output_mode" and isinstance(value, int):
-            value = OutputMode(value)
+        # Can set output mode by name or int as well (unknown modes raise)
+        if key == "output_mode" and not isinstance(value, OutputMode):
+            value = OutputMode[value] if isinstance(value, str) else OutputMode(value)
 
         # Otherwise just as normal
         super().__setattr__(key, value)
-- 
2.43.0


From 352acb2b8fc39e81ecbd8e5645b5a91eb879da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:47 +0000
Subject: [PATCH 45/54] fix: DIPLS must not stay trained when its domains can't
 be combined

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index 6af5665..18527fb 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -246,6 +246,9 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_source_domain:      Response from source domain.
         :return:                            Result, None if no errors, else error string.
         """
+        # A failure to combine the domains must not leave an earlier model in use
+        self.reset()
+
         self.ns = predictors_source_domain.num_rows()
         self.nt = predictors_target_domain.num_rows()
         self.model_adaption_strategy = ModelAdaptionStrategy.UNSUPERVISED
@@ -268,6 +271,9 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_target_domain:      Response from target domain.
         :return:                            Result, None if no errors, else error string.
         """
+        # A failure to combine the domains must not leave an earlier model in use
+        self.reset()
+
         self.ns = predictors_source_domain.num_rows()
         self.nt = predictors_target_domain.num_rows()
         self.model_adaption_strategy = ModelAdaptionStrategy.SUPERVISED
@@ -292,6 +298,9 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_target_domain:              Response from target domain.
         :return:                                    Result, None if no errors, else error string.
         """
+        # A failure to combine the domains must not leave an earlier model in use
+        self.reset()
+
         self.ns = predictors_source_domain.num_rows()
         self.nt = predictors_target_domain.num_rows()
         self.model_adaption_strategy = ModelAdaptionStrategy.SEMISUPERVISED
-- 
2.43.0


From 2dca4cf7489d04988f9d3552cc726165a39ea8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:51 +0000
Subject: [PATCH 46/54] fix: PRM must report its combined weights as absent
 while untrained

---
 src/wai/ma/algorithm/pls/_PRM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index ded8a3a..3a2d690 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -102,7 +102,7 @@ class PRM(AbstractSingleResponsePLS):
                 return self.W_r
             if case('Wx'):
                 return self.W_x
-            if case('W'):
+            if case('W') and self.W_r is not None:
                 return self.W_r.mul_elementwise(self.W_x)
         return None
 
-- 
2.43.0


From 0d89cfc21fce37130e32119cce2d67293356a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:00 +0000
Subject: [PATCH 47/54] fix: NIPALS must refuse a constant response with
 another number of rows

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index a3fce8a..11ea3d0 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -91,6 +91,10 @@ class NIPALS(AbstractMultiResponsePLS):
         return -1
 
     def do_perform_initialization(self, predictors: Matrix, response: Matrix) -> Optional[str]:
+        # A response that is constant is never multiplied with the predictors, so check the rows here
+        if predictors.num_rows() != response.num_rows():
+            return 'Predictors and response must have the same number of rows!'
+
         # Init
         X: Matrix = predictors
         X = self.standardize_X.transform(X)
-- 
2.43.0


From 9882be4b4138081373559605796e7e4dd42fdfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:06 +0000
Subject: [PATCH 48/54] fix: NIPALS starts from a response that is not constant

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 11ea3d0..130fbd7 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -179,7 +179,13 @@ class NIPALS(AbstractMultiResponsePLS):
         """
         iterations: int = 0
 
-        y_score: Matrix = Y.get_column(0)  # (y scores)
+        # Start with the first response that has not been used up (y scores)
+        y_score: Matrix = Y.get_column(0)
+        for i in range(1, Y.num_columns()):
+            if y_score.norm2_squared() > 0:
+                break
+            y_score = Y.get_column(i)
+
         X_weight_old: Matrix = factory.zeros(X.num_columns(), 1)
         X_p_inv: Optional[Matrix] = None
         Y_p_inv: Optional[Matrix] = None
-- 
2.43.0


From ba4f7216fc998fe34426d7cd9dea55199a151cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 49/54] fix: a Matrix of integers or single precision holds
 reals, so updates do not truncate

---
 src/wai/ma/core/matrix/_Matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index acf167b..ceb38ce 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -33,6 +33,10 @@ class Matrix(Serialisable):
             while data.ndim < 2:
                 data = np.array([data])
 
+            # Other number types (integers, single precision) would cut the values stored later on
+            if data.dtype.kind in 'biuf' and data.dtype != real:
+                data = data.astype(real)
+
         self.data = data
         self.eigenvalue_decomposition: Optional[Tuple[Matrix, Matrix]] = None
         self.singular_value_decomposition: Optional[Tuple[Matrix, Matrix, Matrix]] = None
-- 
2.43.0


From 1d8521cdc0271d2b8265a3a3e042cb7f7109fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:01 +0000
Subject: [PATCH 50/54] fix: sorting needs a limited recursion depth for every
 list

---
 src/wai/ma/core/utils.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index f2c7ac5..95c03b8 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -143,6 +143,24 @@ def quick_sort(array: List[real], index: List[int], left: int, right: int):
     :param right:   The last index of the subset to be sorted.
     :return:
     """
+    # Sort the smaller part recursively and carry on with the larger part, so that
+    # the depth of the recursion is limited for every list
+    while right - left > 2:
+        # Establish pivot
+        pivot_location: int = sort_left_right_and_center(array, index, left, right)
+
+        # Move pivot to right, partition, and restore pivot
+        swap(index, pivot_location, right - 1)
+        center: int = partition(array, index, left, right, array[index[right - 1]])
+        swap(index, center, right - 1)
+
+        if center - left < right - center:
+            quick_sort(array, index, left, center - 1)
+            left = center + 1
+        else:
+            quick_sort(array, index, center + 1, right)
+            right = center - 1
+
     diff: int = right - left
 
     if diff == 0:
@@ -158,18 +176,6 @@ def quick_sort(array: List[real], index: List[int], left: int, right: int):
         conditional_swap(array, index, left, right)
         conditional_swap(array, index, left + 1, right)
         return
-    else:
-        # Establish pivot
-        pivot_location: int = sort_left_right_and_center(array, index, left, right)
-
-        # Move pivot to right, partition, and restore pivot
-        swap(index, pivot_location, right - 1)
-        center: int = partition(array, index, left, right, array[index[right - 1]])
-        swap(index, center, right - 1)
-
-        # Sort recursively
-        quick_sort(array, index, left, center - 1)
-        quick_sort(array, index, center + 1, right)
 
 
 def sort(array: List[real]) -> List[int]:
-- 
2.43.0


From 809b5986730559c159db73c640cf381f74f6041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:49 +0000
Subject: [PATCH 51/54] fix: a refused serialisation must not destroy the file
 it was to replace

---
 src/wai/ma/core/_Serialisable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 0a07485..62993d3 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -43,6 +43,10 @@ class Serialisable(ABC):
 
         :param filename:    The name of the file to save to.
         """
+        # Serialise first, so that a refusal leaves an existing file as it is
+        stream = BytesIO()
+        self.serialise_state(stream)
+
         # Make sure the directory for the file exists
         path = os.path.dirname(filename)
         if path != '' and not os.path.exists(path):
@@ -50,7 +54,7 @@ class Serialisable(ABC):
 
         # Save the file
         with open(filename, 'wb') as file:
-            self.serialise_state(file)
+            file.write(stream.getvalue())
 
     def get_serialised_state(self) -> bytes:
         """
-- 
2.43.0


From bce1751ce7f838ffeda789eb89a700c712d5316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:47 +0000
Subject: [PATCH 52/54] fix: Savitzky-Golay powers of wide windows overflowed
 64-bit integers

---
 src/wai/ma/transformation/_SavitzkyGolay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_SavitzkyGolay.py b/src/wai/ma/transformation/_SavitzkyGolay.py
index 01749ad..ddd4d0c 100644
--- a/src/wai/ma/transformation/_SavitzkyGolay.py
+++ b/src/wai/ma/transformation/_SavitzkyGolay.py
@@ -114,7 +114,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
         for j in range(A_dim):
             sum = real(0)
             for k in range(-num_left, num_right + 1):
-                sum += np.power(k, i + j)
+                sum += np.power(real(k), i + j)
             A.set(i, j, sum)
 
     b = factory.zeros(A_dim, 1)
@@ -125,7 +125,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
     for i in range(-num_left, num_right + 1):
         sum = real(0)
         for j in range(A_dim):
-            sum += solution.get(j, 0) * np.power(i, j)
+            sum += solution.get(j, 0) * np.power(real(i), j)
         result[i + num_left] = sum
 
     return result
-- 
2.43.0


From ad4114688b378a8a318b07badb9f4f6d787a8377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 53/54] fix: DIPLS must not reuse the domains of an earlier
 training when none are given

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index 18527fb..6b93b09 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -53,6 +53,9 @@ class DIPLS(AbstractSingleResponsePLS):
             self.X_t_center = Center()
             self.X_s_center = Center()
         else:
+            # The domains have to be given by one of the initialize_* methods
+            self.ns = 0
+            self.nt = 0
             return super().initialize(predictors, response)
 
     def reset(self):
@@ -255,7 +258,7 @@ class DIPLS(AbstractSingleResponsePLS):
         X: Matrix = predictors_source_domain.concat_along_rows(predictors_target_domain)
         y: Matrix = response_source_domain
 
-        return self.initialize(X, y)
+        return super().initialize(X, y)
 
     def initialize_supervised(self,
                               predictors_source_domain: Matrix,
@@ -280,7 +283,7 @@ class DIPLS(AbstractSingleResponsePLS):
         X: Matrix = predictors_source_domain.concat_along_rows(predictors_target_domain)
         y: Matrix = response_source_domain.concat_along_rows(response_target_domain)
 
-        return self.initialize(X, y)
+        return super().initialize(X, y)
 
     def initialize_semisupervised(self,
                                   predictors_source_domain: Matrix,
@@ -309,7 +312,7 @@ class DIPLS(AbstractSingleResponsePLS):
                     .concat_along_rows(predictors_target_domain_unlabeled)
         y: Matrix = response_source_domain.concat_along_rows(response_target_domain)
 
-        return self.initialize(X, y)
+        return super().initialize(X, y)
 
 
 class ModelAdaptionStrategy(Enum):
-- 
2.43.0


From 2445a681169bca776ca0b7af462594cb2b403bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 54/54] fix: sparse PLS reports data without a feature to
 select instead of claiming success

---
 src/wai/ma/algorithm/pls/_SparsePLS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_SparsePLS.py b/src/wai/ma/algorithm/pls/_SparsePLS.py
index f72d68f..6df7df9 100644
--- a/src/wai/ma/algorithm/pls/_SparsePLS.py
+++ b/src/wai/ma/algorithm/pls/_SparsePLS.py
@@ -153,6 +153,10 @@ class SparsePLS(AbstractSingleResponsePLS):
 
             self.collect_indices(w_k)
 
+            # Without a single feature there is nothing to regress on
+            if len(self.A) == 0:
+                return 'No features selected!'
+
             X_A: Matrix = self.get_column_submatrix_of(X)
             self.B_pls = factory.zeros(X.num_columns(), y.num_columns())
             B_pls_A: Matrix = self.get_regression_coefficient(X_A, y, k)
-- 
2.43.0

