From c32ec4588b0a84d2c2011325635adbc20e7dffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 001/259] fix: MLPPVector::division_element_wise() wrote its
 result through a null pointer

---
 core/mlpp_vector.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 195479d..3ae13e9 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -419,14 +419,11 @@ void MLPPVector::hadamard_productb(const Ref<MLPPVector> &a, const Ref<MLPPVecto
 void MLPPVector::division_element_wise(const Ref<MLPPVector> &b) {
 	ERR_FAIL_COND(!b.is_valid());
 
-	Ref<MLPPVector> out;
-	out.instance();
-
 	ERR_FAIL_COND(_size != b->size());
 
 	const real_t *a_ptr = ptr();
 	const real_t *b_ptr = b->ptr();
-	real_t *out_ptr = out->ptrw();
+	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
 		out_ptr[i] = a_ptr[i] / b_ptr[i];
-- 
2.43.0


From 37a28b90378fa1a8d6c28a6c60212d7722770a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 002/259] fix: MLPPVector::cos() computed the square root

---
 core/mlpp_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 3ae13e9..4d81e6c 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -1026,7 +1026,7 @@ void MLPPVector::cos() {
 	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
-		out_ptr[i] = Math::sqrt(out_ptr[i]);
+		out_ptr[i] = Math::cos(out_ptr[i]);
 	}
 }
 Ref<MLPPVector> MLPPVector::cosn() const {
-- 
2.43.0


From 94d7e3c8a6bd109f2d7fb8961eb446f54a63ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 003/259] fix: MLPPVector::cross() and scalar_multiplyb() check
 their arguments

---
 core/mlpp_vector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 4d81e6c..86aca46 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -491,6 +491,8 @@ Ref<MLPPVector> MLPPVector::scalar_multiplyn(real_t scalar) const {
 	return out;
 }
 void MLPPVector::scalar_multiplyb(real_t scalar, const Ref<MLPPVector> &a) {
+	ERR_FAIL_COND(!a.is_valid());
+
 	int s = a->size();
 
 	if (unlikely(size() != s)) {
@@ -881,6 +883,9 @@ Ref<MLPPVector> MLPPVector::cross(const Ref<MLPPVector> &b) {
 	// Cross products exist in R^7 also. Though, I will limit it to R^3 as Wolfram does this.
 	//std::vector<std::vector<real_t>> mat = { onevec(3), a, b };
 
+	ERR_FAIL_COND_V(!b.is_valid(), Ref<MLPPVector>());
+	ERR_FAIL_COND_V(_size != 3 || b->size() != 3, Ref<MLPPVector>());
+
 	real_t det1 = element_get(1) * b->element_get(2) - element_get(2) * b->element_get(1);
 	real_t det2 = -(element_get(0) * b->element_get(2) - element_get(2) * b->element_get(0));
 	real_t det3 = element_get(0) * b->element_get(1) - element_get(1) * b->element_get(0);
-- 
2.43.0


From 1891c5c46dc9736d1391b8f307b52126c7d9f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 004/259] fix: std::vector conversions of empty containers
 indexed element 0

---
 core/mlpp_matrix.cpp  | 6 +++---
 core/mlpp_tensor3.cpp | 2 +-
 core/mlpp_vector.cpp  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 31ac48b..4af04ad 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -3164,7 +3164,7 @@ MLPPMatrix::~MLPPMatrix() {
 std::vector<real_t> MLPPMatrix::to_flat_std_vector() const {
 	std::vector<real_t> ret;
 	ret.resize(data_size());
-	real_t *w = &ret[0];
+	real_t *w = ret.data();
 	memcpy(w, _data, sizeof(real_t) * data_size());
 	return ret;
 }
@@ -3189,7 +3189,7 @@ void MLPPMatrix::set_from_std_vectors(const std::vector<std::vector<real_t>> &p_
 
 		int start_index = i * _size.x;
 
-		const real_t *from_ptr = &r[0];
+		const real_t *from_ptr = r.data();
 		for (int j = 0; j < _size.x; j++) {
 			_data[start_index + j] = from_ptr[j];
 		}
@@ -3220,7 +3220,7 @@ void MLPPMatrix::set_row_std_vector(int p_index_y, const std::vector<real_t> &p_
 
 	int ind_start = p_index_y * _size.x;
 
-	const real_t *row_ptr = &p_row[0];
+	const real_t *row_ptr = p_row.data();
 
 	for (int i = 0; i < _size.x; ++i) {
 		_data[ind_start + i] = row_ptr[i];
diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 87a6e71..147854f 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -2291,7 +2291,7 @@ MLPPTensor3::~MLPPTensor3() {
 std::vector<real_t> MLPPTensor3::to_flat_std_vector() const {
   std::vector<real_t> ret;
   ret.resize(data_size());
-  real_t *w = &ret[0];
+  real_t *w = ret.data();
   memcpy(w, _data, sizeof(real_t) * data_size());
   return ret;
 }
diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 86aca46..0ce73a4 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -1512,7 +1512,7 @@ MLPPVector::~MLPPVector() {
 std::vector<real_t> MLPPVector::to_std_vector() const {
 	std::vector<real_t> ret;
 	ret.resize(size());
-	real_t *w = &ret[0];
+	real_t *w = ret.data();
 	memcpy(w, _data, sizeof(real_t) * _size);
 	return ret;
 }
-- 
2.43.0


From 9b533a8832e065003776157f262557081fc22eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 005/259] fix: MLPPMatrix::set_from_ptr() leaked the old data,
 and dropped it before its null check

---
 core/mlpp_matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 4af04ad..6e995a1 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -592,8 +592,6 @@ void MLPPMatrix::set_from_arrays(const Array &p_from) {
 }
 
 void MLPPMatrix::set_from_ptr(const real_t *p_from, const int p_size_y, const int p_size_x) {
-	_data = NULL;
-
 	ERR_FAIL_COND(!p_from);
 
 	resize(Size2i(p_size_x, p_size_y));
-- 
2.43.0


From ee4b4dee1a08e389ad40a2f882ed44735f26c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 006/259] fix: scalar_multiplyb() and scalar_addb() of
 MLPPMatrix and MLPPTensor3 ignored the values of their argument

---
 core/mlpp_matrix.cpp  | 4 ++--
 core/mlpp_tensor3.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 6e995a1..194d7b4 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1192,7 +1192,7 @@ void MLPPMatrix::scalar_multiplyb(const real_t scalar, const Ref<MLPPMatrix> &A)
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *an_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
 		_data[i] = an_ptr[i] * scalar;
@@ -1225,7 +1225,7 @@ void MLPPMatrix::scalar_addb(const real_t scalar, const Ref<MLPPMatrix> &A) {
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *an_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
 		_data[i] = an_ptr[i] + scalar;
diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 147854f..1472c7d 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1679,7 +1679,7 @@ void MLPPTensor3::scalar_multiplyb(const real_t scalar,
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *an_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
     _data[i] = an_ptr[i] * scalar;
@@ -1712,7 +1712,7 @@ void MLPPTensor3::scalar_addb(const real_t scalar, const Ref<MLPPTensor3> &A) {
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *an_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
     _data[i] = an_ptr[i] + scalar;
-- 
2.43.0


From 250c38b71858cc5dd73707ae89efcf790cbdba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 007/259] fix: MLPPMatrix::kronecker_product() looped over the
 size of its result, and read its argument from itself after resizing

---
 core/mlpp_matrix.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 194d7b4..ed01260 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -948,6 +948,7 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 	Size2i b_size = B->size();
 
 	Ref<MLPPMatrix> A = duplicate_fast();
+	Ref<MLPPMatrix> b = B.ptr() == this ? A : B;
 
 	resize(Size2i(b_size.x * a_size.x, b_size.y * a_size.y));
 
@@ -957,12 +958,12 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 	row_tmp.instance();
 	row_tmp->resize(b_size.x);
 
-	for (int i = 0; i < _size.y; ++i) {
+	for (int i = 0; i < a_size.y; ++i) {
 		for (int j = 0; j < b_size.y; ++j) {
-			B->row_get_into_mlpp_vector(j, row_tmp);
+			b->row_get_into_mlpp_vector(j, row_tmp);
 
 			Vector<Ref<MLPPVector>> row;
-			for (int k = 0; k < _size.x; ++k) {
+			for (int k = 0; k < a_size.x; ++k) {
 				row.push_back(row_tmp->scalar_multiplyn(a_ptr[A->calculate_index(i, k)]));
 			}
 
-- 
2.43.0


From 3111b473a4925651fc947680dc2a15f2f84fecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 008/259] fix: MLPPMatrix::mult(), multb() and transposeb()
 overwrote their operand when called with the matrix itself

---
 core/mlpp_matrix.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index ed01260..750e84b 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -792,7 +792,7 @@ void MLPPMatrix::mult(const Ref<MLPPMatrix> &B) {
 	fill(0);
 
 	const real_t *a_ptr = A->ptr();
-	const real_t *b_ptr = B->ptr();
+	const real_t *b_ptr = B.ptr() == this ? a_ptr : B->ptr();
 	real_t *c_ptr = ptrw();
 
 	for (int ay = 0; ay < a_size.y; ay++) {
@@ -801,7 +801,7 @@ void MLPPMatrix::mult(const Ref<MLPPMatrix> &B) {
 
 			for (int bx = 0; bx < b_size.x; bx++) {
 				int ind_ay_bx = calculate_index(ay, bx);
-				int ind_by_bx = B->calculate_index(by, bx);
+				int ind_by_bx = by * b_size.x + bx;
 
 				c_ptr[ind_ay_bx] += a_ptr[ind_ay_by] * b_ptr[ind_by_bx];
 			}
@@ -849,6 +849,11 @@ void MLPPMatrix::multb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
 
 	ERR_FAIL_COND_MSG(a_size.x != b_size.y, "a_size.x != b_size.y: a_size: " + a_size.operator String() + " b_size: " + b_size.operator String());
 
+	if (unlikely(A.ptr() == this || B.ptr() == this)) {
+		set_from_mlpp_matrix(A->multn(B));
+		return;
+	}
+
 	Size2i rs = Size2i(b_size.x, a_size.y);
 
 	if (unlikely(_size != rs)) {
@@ -1149,6 +1154,11 @@ Ref<MLPPMatrix> MLPPMatrix::transposen() const {
 void MLPPMatrix::transposeb(const Ref<MLPPMatrix> &A) {
 	ERR_FAIL_COND(!A.is_valid());
 
+	if (unlikely(A.ptr() == this)) {
+		transpose();
+		return;
+	}
+
 	Size2i a_size = A->size();
 
 	Size2i s = Size2i(a_size.y, a_size.x);
-- 
2.43.0


From f2c9572c7d0f517e4cc1a23aab1cc57a17c17633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 009/259] fix: reset() of a matrix or tensor without elements
 kept its rows or columns

---
 core/mlpp_matrix.h  | 2 +-
 core/mlpp_tensor3.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.h b/core/mlpp_matrix.h
index 5865b52..d00ae51 100644
--- a/core/mlpp_matrix.h
+++ b/core/mlpp_matrix.h
@@ -80,8 +80,8 @@ public:
     if (_data) {
       memfree(_data);
       _data = NULL;
-      _size = Vector2i();
     }
+    _size = Vector2i();
   }
 
   _FORCE_INLINE_ bool empty() const { return data_size() == 0; }
diff --git a/core/mlpp_tensor3.h b/core/mlpp_tensor3.h
index a0c30f5..df1b8f8 100644
--- a/core/mlpp_tensor3.h
+++ b/core/mlpp_tensor3.h
@@ -81,8 +81,8 @@ public:
     if (_data) {
       memfree(_data);
       _data = NULL;
-      _size = Size3i();
     }
+    _size = Size3i();
   }
 
   _FORCE_INLINE_ bool empty() const { return _size == Size3i(); }
-- 
2.43.0


From fe24ab78b79ccaac9580834344ae65305aeeed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 010/259] fix: MLPPMatrix::kronecker_productb() read its
 operands after resizing when called with the matrix itself

---
 core/mlpp_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 750e84b..bb66b67 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1040,6 +1040,11 @@ void MLPPMatrix::kronecker_productb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatr
 	//                   A[0].size() * B[0].size()
 
 	ERR_FAIL_COND(!A.is_valid() || !B.is_valid());
+	if (unlikely(A.ptr() == this || B.ptr() == this)) {
+		set_from_mlpp_matrix(A->kronecker_productn(B));
+		return;
+	}
+
 	Size2i a_size = A->size();
 	Size2i b_size = B->size();
 
-- 
2.43.0


From 028aeefe5f05ba1e1af4eb3284d4bad427d19bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 011/259] fix: MLPPMatrix::mult_vec() and mult_veco() accepted
 a vector shorter than the rows

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index bb66b67..3413578 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2795,7 +2795,7 @@ Ref<MLPPVector> MLPPMatrix::mult_vec(const Ref<MLPPVector> &b) const {
 
 	int b_size = b->size();
 
-	ERR_FAIL_COND_V(_size.x < b->size(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(_size.x != b->size(), Ref<MLPPMatrix>());
 
 	Ref<MLPPVector> c;
 	c.instance();
@@ -2821,7 +2821,7 @@ void MLPPMatrix::mult_veco(const Ref<MLPPVector> &b, Ref<MLPPVector> out) {
 
 	int b_size = b->size();
 
-	ERR_FAIL_COND(_size.x < b->size());
+	ERR_FAIL_COND(_size.x != b->size());
 
 	if (unlikely(out->size() != _size.y)) {
 		out->resize(_size.y);
-- 
2.43.0


From 2a1e9f5b06dfe560203110aba6f567375cd1ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 012/259] fix: MLPPTensor3::z_slice_remove_unordered() read
 past the end for every slice but the first

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 1472c7d..ff95bac 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -225,7 +225,7 @@ void MLPPTensor3::z_slice_remove_unordered(int p_index) {
   int end_ind = calculate_z_slice_index(p_index + 1);
 
   for (int i = start_ind; i < end_ind; ++i) {
-    _data[i] = _data[ds + i];
+    _data[i] = _data[ds + i - start_ind];
   }
 
   _data = (real_t *)memrealloc(_data, data_size() * sizeof(real_t));
-- 
2.43.0


From 93efec9594aa6bb4a7147c7605b930b875617c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 013/259] fix: MLPPTensor3::row_get_vector() ignored its z
 index

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index ff95bac..4d2b51c 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -287,7 +287,7 @@ Vector<real_t> MLPPTensor3::row_get_vector(int p_index_z, int p_index_y) const {
 
   ret.resize(_size.x);
 
-  int ind_start = p_index_y * _size.x;
+  int ind_start = p_index_y * _size.x + _size.x * _size.y * p_index_z;
 
   real_t *row_ptr = ret.ptrw();
 
-- 
2.43.0


From fe6304a9c436c72bb62be75313ee6ca1ba780a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 014/259] fix: MLPPTensor3::x_slice_get_into() and
 x_slice_set() swapped the x and y indices

---
 core/mlpp_tensor3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 4d2b51c..0d7bdb6 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -634,7 +634,7 @@ void MLPPTensor3::x_slice_get_into(int p_index_x,
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      target->element_set(z, y, element_get(z, p_index_x, y));
+      target->element_set(z, y, element_get(z, y, p_index_x));
     }
   }
 }
@@ -655,7 +655,7 @@ void MLPPTensor3::x_slice_set(int p_index_x, const Ref<MLPPMatrix> &p_mat) {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      element_set(z, p_index_x, y, p_mat->element_get(z, y));
+      element_set(z, y, p_index_x, p_mat->element_get(z, y));
     }
   }
 }
-- 
2.43.0


From bd8f6ab1eec3165a91d7e270523ee03bc56ab71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 015/259] fix: MLPPTensor3::y_slice_get_into() and
 y_slice_set() swapped the x and y indices

---
 core/mlpp_tensor3.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 0d7bdb6..9aae404 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -665,13 +665,13 @@ void MLPPTensor3::y_slice_get_into(int p_index_y,
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!target.is_valid());
 
-  if (unlikely(target->size() != Size2i(_size.y, _size.z))) {
+  if (unlikely(target->size() != Size2i(_size.x, _size.z))) {
     target->resize(Size2i(_size.x, _size.z));
   }
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      target->element_set(z, x, element_get(z, x, p_index_y));
+      target->element_set(z, x, element_get(z, p_index_y, x));
     }
   }
 }
@@ -688,11 +688,11 @@ Ref<MLPPMatrix> MLPPTensor3::y_slice_get(int p_index_y) const {
 void MLPPTensor3::y_slice_set(int p_index_y, const Ref<MLPPMatrix> &p_mat) {
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!p_mat.is_valid());
-  ERR_FAIL_COND(p_mat->size() != Size2i(_size.y, _size.z));
+  ERR_FAIL_COND(p_mat->size() != Size2i(_size.x, _size.z));
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      element_set(z, x, p_index_y, p_mat->element_get(z, x));
+      element_set(z, p_index_y, x, p_mat->element_get(z, x));
     }
   }
 }
-- 
2.43.0


From 8ae6261428bb81a456ffea5ba2af181a09d39797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 016/259] fix: MLPPTensor3::z_slices_add_image() grew the y
 size instead of z

---
 core/mlpp_tensor3.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 9aae404..0127d15 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -729,16 +729,16 @@ void MLPPTensor3::z_slices_add_image(const Ref<Image> &p_img,
   ERR_FAIL_COND(channel_count == 0);
 
   if (unlikely(_size == Size3i())) {
-    resize(Size3i(img_size.x, img_size.y, channel_count));
+    resize(Size3i(img_size.x, img_size.y, 0));
   }
 
   Size2i fms = z_slice_size();
 
   ERR_FAIL_COND(img_size != fms);
 
-  int start_channel = _size.y;
+  int start_channel = _size.z;
 
-  _size.y += channel_count;
+  _size.z += channel_count;
 
   resize(_size);
 
-- 
2.43.0


From cd1245a754d11462ccc9fd52455bb40e458b0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 017/259] fix: the image functions of the x and y slices of
 MLPPTensor3 mixed up their indices

---
 core/mlpp_tensor3.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 0127d15..393b021 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1152,7 +1152,7 @@ Ref<Image> MLPPTensor3::x_slice_get_image(const int p_index_x) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_x, y) * 255.0);
+      wptr[i] = static_cast<uint8_t>(element_get(z, y, p_index_x) * 255.0);
 
       ++i;
     }
@@ -1215,8 +1215,8 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
 
   p_target->lock();
 
-  for (int y = 0; y < fms.y; ++y) {
-    for (int z = 0; z < fms.x; ++z) {
+  for (int z = 0; z < fms.y; ++z) {
+    for (int y = 0; y < fms.x; ++y) {
       Color c;
 
       float e = element_get(z, y, p_index_x);
@@ -1225,7 +1225,7 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
         c[channels[i]] = e;
       }
 
-      p_target->set_pixel(z, y, c);
+      p_target->set_pixel(y, z, c);
     }
   }
 
@@ -1257,9 +1257,9 @@ void MLPPTensor3::x_slice_set_image(const Ref<Image> &p_img,
 
   img->lock();
 
-  for (int y = 0; y < fms.y; ++y) {
-    for (int z = 0; z < fms.x; ++z) {
-      Color c = img->get_pixel(z, y);
+  for (int z = 0; z < fms.y; ++z) {
+    for (int y = 0; y < fms.x; ++y) {
+      Color c = img->get_pixel(y, z);
 
       element_set(z, y, p_index_x, c[channel_index]);
     }
@@ -1287,7 +1287,7 @@ Ref<Image> MLPPTensor3::y_slice_get_image(const int p_index_y) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, x, p_index_y) * 255.0);
+      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_y, x) * 255.0);
 
       ++i;
     }
@@ -1350,8 +1350,8 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
 
   p_target->lock();
 
-  for (int x = 0; x < fms.y; ++x) {
-    for (int z = 0; z < fms.x; ++z) {
+  for (int z = 0; z < fms.y; ++z) {
+    for (int x = 0; x < fms.x; ++x) {
       Color c;
 
       float e = element_get(z, p_index_y, x);
@@ -1360,7 +1360,7 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
         c[channels[i]] = e;
       }
 
-      p_target->set_pixel(z, x, c);
+      p_target->set_pixel(x, z, c);
     }
   }
 
-- 
2.43.0


From 4ba2334227db82f151505ecc1907a5b681826462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 018/259] fix: clearing an empty MLPPVector freed a null
 pointer

---
 core/mlpp_vector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 0ce73a4..55f755a 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -160,8 +160,11 @@ void MLPPVector::resize(int p_size) {
 	_size = p_size;
 
 	if (_size == 0) {
-		memfree(_data);
-		_data = NULL;
+		if (_data) {
+			memfree(_data);
+			_data = NULL;
+		}
+
 		return;
 	}
 
-- 
2.43.0


From afc6a2c3ebc6fb7a80c6483be929b5ec801a77c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 019/259] fix: MLPPLinAlg::absnvt() returned its argument
 unchanged

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index e72ea1b..cb3bf81 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1945,7 +1945,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::absnvt(const Vector<Ref<MLPPMatrix>> &A) {
 		res.write[i] = absnm(A[i]);
 	}
 
-	return A;
+	return res;
 }
 
 /*
-- 
2.43.0


From 371b55bee8ca4aea1bcf59994a1ed3092a626cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 020/259] fix: MLPPLinAlg::maxnm() read past the end of a
 smaller second matrix

---
 core/lin_alg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index cb3bf81..d9c3614 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1552,6 +1552,9 @@ Ref<MLPPVector> MLPPLinAlg::cosnv(const Ref<MLPPVector> &a) {
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::maxnm(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND_V(!A.is_valid() || !B.is_valid(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(A->size() != B->size(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	C->resize(A->size());
-- 
2.43.0


From 5ba753282d619af9b61c41680af2b1add6310b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 021/259] fix: MLPPLinAlg::mat_vec_multnv() accepted a vector
 shorter than the rows

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index d9c3614..d54073e 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1704,7 +1704,7 @@ Ref<MLPPVector> MLPPLinAlg::mat_vec_multnv(const Ref<MLPPMatrix> &A, const Ref<M
 	Size2i a_size = A->size();
 	int b_size = b->size();
 
-	ERR_FAIL_COND_V(a_size.x < b->size(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(a_size.x != b->size(), Ref<MLPPMatrix>());
 
 	Ref<MLPPVector> c;
 	c.instance();
-- 
2.43.0


From e33a2310c832acbf4fb5d86aed68c4cdaa749c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 022/259] fix: outer_product() dereferenced a null argument

---
 core/lin_alg.cpp     | 2 ++
 core/mlpp_vector.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index d54073e..03d9c63 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1746,6 +1746,8 @@ Ref<MLPPVector> MLPPLinAlg::subtract_matrix_rowsnv(const Ref<MLPPVector> &a, con
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::outer_product(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) {
+	ERR_FAIL_COND_V(!a.is_valid() || !b.is_valid(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	Size2i size = Size2i(b->size(), a->size());
diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 55f755a..2fffd23 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -1410,6 +1410,8 @@ void MLPPVector::subtract_matrix_rowsb(const Ref<MLPPVector> &a, const Ref<MLPPM
 }
 
 Ref<MLPPMatrix> MLPPVector::outer_product(const Ref<MLPPVector> &b) const {
+	ERR_FAIL_COND_V(!b.is_valid(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	Size2i sm = Size2i(b->size(), size());
-- 
2.43.0


From 9bc2bd10e99e0b01226789d3e5439d2740a77f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 023/259] fix: linear_independence_checker() took the
 determinant of the Gram matrix with the wrong size

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 03d9c63..9b82c72 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -47,7 +47,7 @@ Ref<MLPPMatrix> MLPPLinAlg::gram_matrix(const Ref<MLPPMatrix> &A) {
 }
 
 bool MLPPLinAlg::linear_independence_checker(const Ref<MLPPMatrix> &A) {
-	if (gram_matrix(A)->det(A->size().y) == 0) {
+	if (gram_matrix(A)->det(A->size().x) == 0) {
 		return false;
 	}
 
-- 
2.43.0


From 8e0614e73948814416f379b55f9061d8cab03650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 024/259] fix: MLPPLinAlg::zero_eigenvalue() was inverted

---
 core/lin_alg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 9b82c72..14fa86b 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1067,11 +1067,11 @@ bool MLPPLinAlg::zero_eigenvalue(const Ref<MLPPMatrix> &A) {
 
 	for (int i = 0; i < eigenvals_size.y; ++i) {
 		if (eigenvals->element_get(i, i) == 0) { // TODO should it use is_equal_approx?
-			return false;
+			return true;
 		}
 	}
 
-	return true;
+	return false;
 }
 
 Ref<MLPPVector> MLPPLinAlg::flattenmnv(const Vector<Ref<MLPPVector>> &A) {
-- 
2.43.0


From 39a0149a1ed8ca627c5d553003b239fc4b9bfad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 025/259] fix: the determinant of a 1x1 matrix was 0, and the
 one of a matrix that is not square was computed

---
 core/lin_alg.cpp     | 4 +++-
 core/mlpp_matrix.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 14fa86b..5137b83 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -445,7 +445,9 @@ real_t MLPPLinAlg::detm(const Ref<MLPPMatrix> &A, int d) {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		for (int i = 0; i < d; i++) {
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 3413578..0f9a9b2 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1604,6 +1604,8 @@ void MLPPMatrix::absb(const Ref<MLPPMatrix> &A) {
 
 real_t MLPPMatrix::det(int d) const {
 	if (d == -1) {
+		ERR_FAIL_COND_V(_size.x != _size.y, 0);
+
 		return detb(Ref<MLPPMatrix>(this), _size.y);
 	} else {
 		return detb(Ref<MLPPMatrix>(this), d);
@@ -1618,7 +1620,9 @@ real_t MLPPMatrix::detb(const Ref<MLPPMatrix> &A, int d) const {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		Ref<MLPPMatrix> B;
-- 
2.43.0


From 8cbd658fa8b3c05c57b879a4f9aa5b692d57a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 026/259] fix: inverse() and solve() dereferenced null for a
 matrix that is not square

---
 core/lin_alg.cpp     | 6 ++++++
 core/mlpp_matrix.cpp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 5137b83..bc414e5 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -546,6 +546,9 @@ Ref<MLPPMatrix> MLPPLinAlg::adjointnm(const Ref<MLPPMatrix> &A) {
 	return adj;
 }
 Ref<MLPPMatrix> MLPPLinAlg::inversenm(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(A->size().x != A->size().y, Ref<MLPPMatrix>());
+
 	return scalar_multiplynm(1 / detm(A, int(A->size().y)), adjointnm(A));
 }
 Ref<MLPPMatrix> MLPPLinAlg::pinversenm(const Ref<MLPPMatrix> &A) {
@@ -1028,6 +1031,9 @@ Ref<MLPPVector> MLPPLinAlg::flattenvvnv(const Ref<MLPPMatrix> &A) {
 }
 
 Ref<MLPPVector> MLPPLinAlg::solve(const Ref<MLPPMatrix> &A, const Ref<MLPPVector> &b) {
+	ERR_FAIL_COND_V(!A.is_valid() || !b.is_valid(), Ref<MLPPVector>());
+	ERR_FAIL_COND_V(A->size().x != A->size().y || A->size().y != b->size(), Ref<MLPPVector>());
+
 	return A->inverse()->mult_vec(b);
 }
 
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 0f9a9b2..f582281 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1789,11 +1789,15 @@ void MLPPMatrix::adjointo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::inverse() const {
+	ERR_FAIL_COND_V(_size.x != _size.y, Ref<MLPPMatrix>());
+
 	return adjoint()->scalar_multiplyn(1 / det());
 }
 void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
+	ERR_FAIL_COND(_size.x != _size.y);
+
 	out->set_from_mlpp_matrix(adjoint()->scalar_multiplyn(1 / det()));
 }
 
@@ -2738,6 +2742,9 @@ void MLPPMatrix::flatteno(Ref<MLPPVector> out) const {
 }
 
 Ref<MLPPVector> MLPPMatrix::solve(const Ref<MLPPVector> &b) const {
+	ERR_FAIL_COND_V(!b.is_valid(), Ref<MLPPVector>());
+	ERR_FAIL_COND_V(_size.x != _size.y || _size.y != b->size(), Ref<MLPPVector>());
+
 	return inverse()->mult_vec(b);
 }
 
-- 
2.43.0


From 35f869c97405501ebb167a0fe4b268f18247fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 027/259] fix: MLPPMatrix::pinverse() inverted A * A instead of
 At * A

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index f582281..e392f7a 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1802,12 +1802,12 @@ void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::pinverse() const {
-	return multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen());
+	return transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen());
 }
 void MLPPMatrix::pinverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
-	out->set_from_mlpp_matrix(multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen()));
+	out->set_from_mlpp_matrix(transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen()));
 }
 
 Ref<MLPPMatrix> MLPPMatrix::matn_zero(int n, int m) const {
-- 
2.43.0


From 6ec72abc25156e84134a8c0b43ccbff5ac82ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 028/259] fix: create_rotation_matrix() of the plane and of the
 z axis were not rotations

---
 core/mlpp_matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index e392f7a..76d1a04 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1933,7 +1933,7 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(0, 0)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(0, 1)] = -Math::sin(theta);
 
-		rptr[rotation_matrix->calculate_index(1, 0)] = Math::cos(theta);
+		rptr[rotation_matrix->calculate_index(1, 0)] = Math::sin(theta);
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 	} else if (axis == 0) {
 		rotation_matrix->resize(Size2(3, 3));
@@ -1978,9 +1978,9 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(1, 2)] = 0;
 
-		rptr[rotation_matrix->calculate_index(2, 0)] = 1;
+		rptr[rotation_matrix->calculate_index(2, 0)] = 0;
 		rptr[rotation_matrix->calculate_index(2, 1)] = 0;
-		rptr[rotation_matrix->calculate_index(2, 2)] = 0;
+		rptr[rotation_matrix->calculate_index(2, 2)] = 1;
 	}
 
 	return rotation_matrix;
-- 
2.43.0


From 7a503b16849665a45b8bcd2351583a5521833807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 029/259] fix: the covariance matrix of a matrix that is not
 square had the wrong shape

---
 core/lin_alg.cpp     |  4 ++--
 core/mlpp_matrix.cpp | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index bc414e5..bf2e5a7 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -708,7 +708,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 
 	Size2i a_size = A->size();
 
-	cov_mat->resize(a_size);
+	cov_mat->resize(Size2i(a_size.y, a_size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -721,7 +721,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 	for (int i = 0; i < a_size.y; ++i) {
 		A->row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < a_size.x; ++j) {
+		for (int j = 0; j < a_size.y; ++j) {
 			A->row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 76d1a04..866d129 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2199,7 +2199,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	Ref<MLPPMatrix> cov_mat;
 	cov_mat.instance();
 
-	cov_mat->resize(_size);
+	cov_mat->resize(Size2i(_size.y, _size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -2212,7 +2212,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
@@ -2226,8 +2226,10 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 
 	MLPPStat stat;
 
-	if (unlikely(out->size() != _size)) {
-		out->resize(_size);
+	Size2i cov_size = Size2i(_size.y, _size.y);
+
+	if (unlikely(out->size() != cov_size)) {
+		out->resize(cov_size);
 	}
 
 	Ref<MLPPVector> a_i_row_tmp;
@@ -2241,7 +2243,7 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			out->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
-- 
2.43.0


From b920251662fdb10ed6cc16791b7bf029ede8ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 030/259] fix: the Jacobi eigenvalue algorithm stopped early,
 lost signs and mismatched eigenvectors

---
 core/lin_alg.cpp     | 133 +---------------------
 core/mlpp_matrix.cpp | 266 ++++++++-----------------------------------
 2 files changed, 48 insertions(+), 351 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index bf2e5a7..20ba7c7 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -736,137 +736,10 @@ MLPPLinAlg::EigenResult MLPPLinAlg::eigen(Ref<MLPPMatrix> A) {
 
 	ERR_FAIL_COND_V(!A.is_valid(), res);
 
-	/*
-	A (the entered parameter) in most use cases will be X'X, XX', etc. and must be symmetric.
-	That simply means that 1) X' = X and 2) X is a square matrix. This function that computes the
-	eigenvalues of a matrix is utilizing Jacobi's method.
-	*/
+	MLPPMatrix::EigenResult eigen_result = A->eigen();
 
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
-	Ref<MLPPMatrix> a_new;
-	Ref<MLPPMatrix> eigenvectors = identitym(A->size().y);
-	Size2i a_size = A->size();
-
-	do {
-		real_t a_ij = A->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
-		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
-				real_t ca_ij = A->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
-
-				if (i != j && abs_ca_ij > a_ij) {
-					a_ij = ca_ij;
-					sub_i = i;
-					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
-				}
-			}
-		}
-
-		real_t a_ii = A->element_get(sub_i, sub_i);
-		real_t a_jj = A->element_get(sub_j, sub_j);
-		//real_t a_ji = A->element_get(sub_j, sub_i);
-		real_t theta;
-
-		if (a_ii == a_jj) {
-			theta = Math_PI / 4;
-		} else {
-			theta = 0.5 * atan(2 * a_ij / (a_ii - a_jj));
-		}
-
-		Ref<MLPPMatrix> P = identitym(A->size().y);
-		P->element_set(sub_i, sub_j, -Math::sin(theta));
-		P->element_set(sub_i, sub_i, Math::cos(theta));
-		P->element_set(sub_j, sub_j, Math::cos(theta));
-		P->element_set(sub_j, sub_i, Math::sin(theta));
-
-		a_new = matmultnm(matmultnm(inversenm(P), A), P);
-
-		Size2i a_new_size = a_new->size();
-
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
-				}
-			}
-		}
-
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
-		}
-
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
-
-		if (a_new->is_equal_approx(A)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
-				}
-			}
-		}
-
-		eigenvectors = matmultnm(eigenvectors, P);
-		A = a_new;
-
-	} while (!diagonal);
-
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
-
-	Size2i a_new_size = a_new->size();
-
-	// Bubble Sort. Should change this later.
-	for (int i = 0; i < a_new_size.y - 1; ++i) {
-		for (int j = 0; j < a_new_size.x - 1 - i; ++j) {
-			if (a_new->element_get(j, j) < a_new->element_get(j + 1, j + 1)) {
-				real_t temp = a_new->element_get(j + 1, j + 1);
-				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
-				a_new->element_set(j, j, temp);
-			}
-		}
-	}
-
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
-			}
-		}
-	}
-
-	Ref<MLPPMatrix> eigen_temp = eigenvectors->duplicate_fast();
-
-	Size2i eigenvectors_size = eigenvectors->size();
-
-	for (int i = 0; i < eigenvectors_size.y; ++i) {
-		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
-		}
-	}
-
-	res.eigen_vectors = eigenvectors;
-	res.eigen_values = a_new;
+	res.eigen_vectors = eigen_result.eigen_vectors;
+	res.eigen_values = eigen_result.eigen_values;
 
 	return res;
 }
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 866d129..7866f14 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2252,147 +2252,13 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 }
 
 MLPPMatrix::EigenResult MLPPMatrix::eigen() const {
-	EigenResult res;
-
-	/*
-	A (the entered parameter) in most use cases will be X'X, XX', etc. and must be symmetric.
-	That simply means that 1) X' = X and 2) X is a square matrix. This function that computes the
-	eigenvalues of a matrix is utilizing Jacobi's method.
-	*/
-
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
-	Ref<MLPPMatrix> a_new;
-	Ref<MLPPMatrix> a_mat = Ref<MLPPMatrix>(this);
-	Ref<MLPPMatrix> eigenvectors = identity_mat(a_mat->size().y);
-	Size2i a_size = a_mat->size();
-
-	do {
-		real_t a_ij = a_mat->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
-		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
-				real_t ca_ij = a_mat->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
-
-				if (i != j && abs_ca_ij > a_ij) {
-					a_ij = ca_ij;
-					sub_i = i;
-					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
-				}
-			}
-		}
-
-		real_t a_ii = a_mat->element_get(sub_i, sub_i);
-		real_t a_jj = a_mat->element_get(sub_j, sub_j);
-		//real_t a_ji = a_mat->element_get(sub_j, sub_i);
-		real_t theta;
-
-		if (a_ii == a_jj) {
-			theta = Math_PI / 4;
-		} else {
-			theta = 0.5 * atan(2 * a_ij / (a_ii - a_jj));
-		}
-
-		Ref<MLPPMatrix> P = identity_mat(a_mat->size().y);
-		P->element_set(sub_i, sub_j, -Math::sin(theta));
-		P->element_set(sub_i, sub_i, Math::cos(theta));
-		P->element_set(sub_j, sub_j, Math::cos(theta));
-		P->element_set(sub_j, sub_i, Math::sin(theta));
-
-		a_new = P->inverse()->multn(a_mat)->multn(P);
-
-		Size2i a_new_size = a_new->size();
-
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
-				}
-			}
-		}
-
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
-		}
-
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
-
-		if (a_new->is_equal_approx(a_mat)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
-				}
-			}
-		}
-
-		eigenvectors = eigenvectors->multn(P);
-		a_mat = a_new;
-
-	} while (!diagonal);
-
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
-
-	Size2i a_new_size = a_new->size();
-
-	// Bubble Sort. Should change this later.
-	for (int i = 0; i < a_new_size.y - 1; ++i) {
-		for (int j = 0; j < a_new_size.x - 1 - i; ++j) {
-			if (a_new->element_get(j, j) < a_new->element_get(j + 1, j + 1)) {
-				real_t temp = a_new->element_get(j + 1, j + 1);
-				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
-				a_new->element_set(j, j, temp);
-			}
-		}
-	}
-
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
-			}
-		}
-	}
-
-	Ref<MLPPMatrix> eigen_temp = eigenvectors->duplicate_fast();
-
-	Size2i eigenvectors_size = eigenvectors->size();
-
-	for (int i = 0; i < eigenvectors_size.y; ++i) {
-		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
-		}
-	}
-
-	res.eigen_vectors = eigenvectors;
-	res.eigen_values = a_new;
-
-	return res;
+	return eigenb(Ref<MLPPMatrix>(this));
 }
 MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 	EigenResult res;
 
 	ERR_FAIL_COND_V(!A.is_valid(), res);
+	ERR_FAIL_COND_V(A->size().x != A->size().y, res);
 
 	/*
 	A (the entered parameter) in most use cases will be X'X, XX', etc. and must be symmetric.
@@ -2400,37 +2266,41 @@ MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 	eigenvalues of a matrix is utilizing Jacobi's method.
 	*/
 
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
-	Ref<MLPPMatrix> a_new;
-	Ref<MLPPMatrix> a_mat = A;
+	Ref<MLPPMatrix> a_mat = A->duplicate_fast();
 	Ref<MLPPMatrix> eigenvectors = identity_mat(a_mat->size().y);
 	Size2i a_size = a_mat->size();
 
-	do {
-		real_t a_ij = a_mat->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
+	real_t max_abs = 0;
+	for (int i = 0; i < a_mat->data_size(); ++i) {
+		max_abs = MAX(max_abs, ABS(a_mat->element_get_index(i)));
+	}
+
+	// Off-diagonal elements this small next to the matrix itself are rounding errors.
+	const real_t tolerance = max_abs * (real_t)1e-7;
+	// Only a matrix that is not symmetric gets anywhere near this.
+	const int max_rotations = 100 * a_size.x * a_size.y;
+
+	// Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
+	for (int rotation = 0; rotation < max_rotations; ++rotation) {
+		real_t a_ij = 0;
+		int sub_i = 0;
+		int sub_j = 0;
 		for (int i = 0; i < a_size.y; ++i) {
 			for (int j = 0; j < a_size.x; ++j) {
 				real_t ca_ij = a_mat->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
 
-				if (i != j && abs_ca_ij > a_ij) {
+				if (i != j && ABS(ca_ij) > ABS(a_ij)) {
 					a_ij = ca_ij;
 					sub_i = i;
 					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
 				}
 			}
 		}
 
+		if (ABS(a_ij) <= tolerance) {
+			break;
+		}
+
 		real_t a_ii = a_mat->element_get(sub_i, sub_i);
 		real_t a_jj = a_mat->element_get(sub_j, sub_j);
 		//real_t a_ji = a_mat->element_get(sub_j, sub_i);
@@ -2439,7 +2309,7 @@ MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 		if (a_ii == a_jj) {
 			theta = Math_PI / 4;
 		} else {
-			theta = 0.5 * atan(2 * a_ij / (a_ii - a_jj));
+			theta = 0.5 * Math::atan(2 * a_ij / (a_ii - a_jj));
 		}
 
 		Ref<MLPPMatrix> P = identity_mat(a_mat->size().y);
@@ -2448,84 +2318,38 @@ MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 		P->element_set(sub_j, sub_j, Math::cos(theta));
 		P->element_set(sub_j, sub_i, Math::sin(theta));
 
-		a_new = P->inverse()->multn(a_mat)->multn(P);
-
-		Size2i a_new_size = a_new->size();
-
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
-				}
-			}
-		}
-
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
-		}
-
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
-
-		if (a_new->is_equal_approx(a_mat)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
-				}
-			}
-		}
-
+		a_mat = P->transposen()->multn(a_mat)->multn(P);
 		eigenvectors = eigenvectors->multn(P);
-		a_mat = a_new;
-
-	} while (!diagonal);
-
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
-
-	Size2i a_new_size = a_new->size();
-
-	// Bubble Sort. Should change this later.
-	for (int i = 0; i < a_new_size.y - 1; ++i) {
-		for (int j = 0; j < a_new_size.x - 1 - i; ++j) {
-			if (a_new->element_get(j, j) < a_new->element_get(j + 1, j + 1)) {
-				real_t temp = a_new->element_get(j + 1, j + 1);
-				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
-				a_new->element_set(j, j, temp);
-			}
-		}
 	}
 
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
+	for (int i = 0; i < a_size.y; ++i) {
+		for (int j = 0; j < a_size.x; ++j) {
+			if (i != j) {
+				a_mat->element_set(i, j, 0);
 			}
 		}
 	}
 
-	Ref<MLPPMatrix> eigen_temp = eigenvectors->duplicate_fast();
-
-	Size2i eigenvectors_size = eigenvectors->size();
-
-	for (int i = 0; i < eigenvectors_size.y; ++i) {
-		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
+	// Bubble Sort. Should change this later.
+	for (int i = 0; i < a_size.y - 1; ++i) {
+		for (int j = 0; j < a_size.x - 1 - i; ++j) {
+			if (a_mat->element_get(j, j) < a_mat->element_get(j + 1, j + 1)) {
+				real_t temp = a_mat->element_get(j + 1, j + 1);
+				a_mat->element_set(j + 1, j + 1, a_mat->element_get(j, j));
+				a_mat->element_set(j, j, temp);
+
+				// The eigenvectors move with their eigenvalues.
+				for (int k = 0; k < a_size.y; ++k) {
+					real_t vec_temp = eigenvectors->element_get(k, j + 1);
+					eigenvectors->element_set(k, j + 1, eigenvectors->element_get(k, j));
+					eigenvectors->element_set(k, j, vec_temp);
+				}
+			}
 		}
 	}
 
 	res.eigen_vectors = eigenvectors;
-	res.eigen_values = a_new;
+	res.eigen_values = a_mat;
 
 	return res;
 }
-- 
2.43.0


From d791f59f03fd69ce5078f6c8d623c8eef923c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 031/259] fix: svd() did not yield a decomposition, and failed
 for matrices that are not square

---
 core/lin_alg.cpp     | 22 ++++------------------
 core/mlpp_matrix.cpp | 45 ++++++++++++++++++--------------------------
 2 files changed, 22 insertions(+), 45 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 20ba7c7..ee0c19c 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -749,25 +749,11 @@ MLPPLinAlg::SVDResult MLPPLinAlg::svd(const Ref<MLPPMatrix> &A) {
 
 	ERR_FAIL_COND_V(!A.is_valid(), res);
 
-	Size2i a_size = A->size();
-
-	EigenResult left_eigen = eigen(matmultnm(A, transposenm(A)));
-	EigenResult right_eigen = eigen(matmultnm(transposenm(A), A));
-
-	Ref<MLPPMatrix> singularvals = sqrtnm(left_eigen.eigen_values);
-	Ref<MLPPMatrix> sigma = zeromatnm(a_size.y, a_size.x);
-
-	Size2i sigma_size = sigma->size();
-
-	for (int i = 0; i < sigma_size.y; ++i) {
-		for (int j = 0; j < sigma_size.x; ++j) {
-			sigma->element_set(i, j, singularvals->element_get(i, j));
-		}
-	}
+	MLPPMatrix::SVDResult svd_result = A->svd();
 
-	res.U = left_eigen.eigen_vectors;
-	res.S = sigma;
-	res.Vt = right_eigen.eigen_vectors;
+	res.U = svd_result.U;
+	res.S = svd_result.S;
+	res.Vt = svd_result.Vt;
 
 	return res;
 }
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 7866f14..ec088b2 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2377,27 +2377,7 @@ Array MLPPMatrix::eigenb_bind(const Ref<MLPPMatrix> &A) {
 }
 
 MLPPMatrix::SVDResult MLPPMatrix::svd() const {
-	SVDResult res;
-
-	EigenResult left_eigen = multn(transposen())->eigen();
-	EigenResult right_eigen = transposen()->multn(Ref<MLPPMatrix>(this))->eigen();
-
-	Ref<MLPPMatrix> singularvals = left_eigen.eigen_values->sqrtn();
-	Ref<MLPPMatrix> sigma = matn_zero(_size.y, _size.x);
-
-	Size2i singularvals_size = singularvals->size();
-
-	for (int i = 0; i < singularvals_size.y; ++i) {
-		for (int j = 0; j < singularvals_size.x; ++j) {
-			sigma->element_set(i, j, singularvals->element_get(i, j));
-		}
-	}
-
-	res.U = left_eigen.eigen_vectors;
-	res.S = sigma;
-	res.Vt = right_eigen.eigen_vectors;
-
-	return res;
+	return svdb(Ref<MLPPMatrix>(this));
 }
 
 MLPPMatrix::SVDResult MLPPMatrix::svdb(const Ref<MLPPMatrix> &A) const {
@@ -2410,20 +2390,31 @@ MLPPMatrix::SVDResult MLPPMatrix::svdb(const Ref<MLPPMatrix> &A) const {
 	EigenResult left_eigen = A->multn(A->transposen())->eigen();
 	EigenResult right_eigen = A->transposen()->multn(A)->eigen();
 
-	Ref<MLPPMatrix> singularvals = left_eigen.eigen_values->sqrtn();
 	Ref<MLPPMatrix> sigma = matn_zero(a_size.y, a_size.x);
+	Ref<MLPPMatrix> V = right_eigen.eigen_vectors;
+
+	Ref<MLPPMatrix> AtU = A->transposen()->multn(left_eigen.eigen_vectors);
 
-	Size2i singularvals_size = singularvals->size();
+	int num_singularvals = MIN(a_size.x, a_size.y);
 
-	for (int i = 0; i < singularvals_size.y; ++i) {
-		for (int j = 0; j < singularvals_size.x; ++j) {
-			sigma->element_set(i, j, singularvals->element_get(i, j));
+	for (int i = 0; i < num_singularvals; ++i) {
+		// The eigenvalue of a rank deficient matrix can come out slightly negative.
+		real_t singularval = Math::sqrt(MAX(left_eigen.eigen_values->element_get(i, i), (real_t)0));
+
+		sigma->element_set(i, i, singularval);
+
+		// The two sets of eigenvectors are only determined up to the sign (or a rotation when eigenvalues repeat).
+		// The right vectors have to be the ones that belong to the left vectors.
+		if (singularval > sigma->element_get(0, 0) * (real_t)4e-3) {
+			for (int j = 0; j < a_size.x; ++j) {
+				V->element_set(j, i, AtU->element_get(j, i) / singularval);
+			}
 		}
 	}
 
 	res.U = left_eigen.eigen_vectors;
 	res.S = sigma;
-	res.Vt = right_eigen.eigen_vectors;
+	res.Vt = V->transposen();
 
 	return res;
 }
-- 
2.43.0


From 39d3152d3c4fc85f4f5eb7386b76da190171b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 032/259] fix: MLPPMatrix::diagonal_zeroed() with a null vector
 emptied the matrix

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index ec088b2..c68d57f 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2815,10 +2815,10 @@ Ref<MLPPMatrix> MLPPMatrix::diagonal_setn(const Ref<MLPPVector> &a) const {
 }
 
 void MLPPMatrix::diagonal_zeroed(const Ref<MLPPVector> &a) {
-	fill(0);
-
 	ERR_FAIL_COND(!a.is_valid());
 
+	fill(0);
+
 	int a_size = a->size();
 	int ms = MIN(_size.x, _size.y);
 	ms = MIN(ms, a_size);
-- 
2.43.0


From dd2697f1e09bd98458b38948b4fbcb933abaccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 033/259] fix: selecting an activation function by identifier
 had the value and derivative forms swapped

---
 core/activation.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 4b6efab..6e0d3eb 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -37,23 +37,23 @@
 
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_real(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_real(func);
-	} else {
 		return get_activation_function_ptr_deriv_real(func);
+	} else {
+		return get_activation_function_ptr_normal_real(func);
 	}
 }
 MLPPActivation::VectorActivationFunctionPointer MLPPActivation::get_activation_function_ptr_vector(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_vector(func);
-	} else {
 		return get_activation_function_ptr_deriv_vector(func);
+	} else {
+		return get_activation_function_ptr_normal_vector(func);
 	}
 }
 MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_function_ptr_matrix(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_matrix(func);
-	} else {
 		return get_activation_function_ptr_deriv_matrix(func);
+	} else {
+		return get_activation_function_ptr_normal_matrix(func);
 	}
 }
 
@@ -433,23 +433,23 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 
 real_t MLPPActivation::run_activation_real(const ActivationFunction func, const real_t z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_real(func, z);
-	} else {
 		return run_activation_deriv_real(func, z);
+	} else {
+		return run_activation_norm_real(func, z);
 	}
 }
 Ref<MLPPVector> MLPPActivation::run_activation_vector(const ActivationFunction func, const Ref<MLPPVector> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_vector(func, z);
-	} else {
 		return run_activation_deriv_vector(func, z);
+	} else {
+		return run_activation_norm_vector(func, z);
 	}
 }
 Ref<MLPPMatrix> MLPPActivation::run_activation_matrix(const ActivationFunction func, const Ref<MLPPMatrix> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_matrix(func, z);
-	} else {
 		return run_activation_deriv_matrix(func, z);
+	} else {
+		return run_activation_norm_matrix(func, z);
 	}
 }
 
-- 
2.43.0


From 5794c08a2c0143d6bfceedb8c8b1a09fa38b3f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 034/259] fix: the scalar activation derivatives selected by
 identifier were the activations themselves

---
 core/activation.cpp | 112 ++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 6e0d3eb..7269429 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -247,61 +247,61 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_deriv_real(const ActivationFunction func) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return &MLPPActivation::linear_normr;
+			return &MLPPActivation::linear_derivr;
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return &MLPPActivation::sigmoid_normr;
+			return &MLPPActivation::sigmoid_derivr;
 		case ACTIVATION_FUNCTION_SWISH:
-			return &MLPPActivation::swish_normr;
+			return &MLPPActivation::swish_derivr;
 		case ACTIVATION_FUNCTION_MISH:
-			return &MLPPActivation::mish_normr;
+			return &MLPPActivation::mish_derivr;
 		case ACTIVATION_FUNCTION_SIN_C:
-			return &MLPPActivation::sinc_normr;
+			return &MLPPActivation::sinc_derivr;
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return &MLPPActivation::softmax_normr;
+			return &MLPPActivation::softmax_derivr;
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return &MLPPActivation::softplus_normr;
+			return &MLPPActivation::softplus_derivr;
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return &MLPPActivation::softsign_normr;
+			return &MLPPActivation::softsign_derivr;
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return &MLPPActivation::adj_softmax_normr;
+			return &MLPPActivation::adj_softmax_derivr;
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return &MLPPActivation::cloglog_normr;
+			return &MLPPActivation::cloglog_derivr;
 		case ACTIVATION_FUNCTION_LOGIT:
-			return &MLPPActivation::logit_normr;
+			return &MLPPActivation::logit_derivr;
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return &MLPPActivation::gaussian_cdf_normr;
+			return &MLPPActivation::gaussian_cdf_derivr;
 		case ACTIVATION_FUNCTION_RELU:
-			return &MLPPActivation::relu_normr;
+			return &MLPPActivation::relu_derivr;
 		case ACTIVATION_FUNCTION_GELU:
-			return &MLPPActivation::gelu_normr;
+			return &MLPPActivation::gelu_derivr;
 		case ACTIVATION_FUNCTION_SIGN:
-			return &MLPPActivation::sign_normr;
+			return &MLPPActivation::sign_derivr;
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return &MLPPActivation::unit_step_normr;
+			return &MLPPActivation::unit_step_derivr;
 		case ACTIVATION_FUNCTION_SINH:
-			return &MLPPActivation::sinh_normr;
+			return &MLPPActivation::sinh_derivr;
 		case ACTIVATION_FUNCTION_COSH:
-			return &MLPPActivation::cosh_normr;
+			return &MLPPActivation::cosh_derivr;
 		case ACTIVATION_FUNCTION_TANH:
-			return &MLPPActivation::tanh_normr;
+			return &MLPPActivation::tanh_derivr;
 		case ACTIVATION_FUNCTION_CSCH:
-			return &MLPPActivation::csch_normr;
+			return &MLPPActivation::csch_derivr;
 		case ACTIVATION_FUNCTION_SECH:
-			return &MLPPActivation::sech_normr;
+			return &MLPPActivation::sech_derivr;
 		case ACTIVATION_FUNCTION_COTH:
-			return &MLPPActivation::coth_normr;
+			return &MLPPActivation::coth_derivr;
 		case ACTIVATION_FUNCTION_ARSINH:
-			return &MLPPActivation::arsinh_normr;
+			return &MLPPActivation::arsinh_derivr;
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return &MLPPActivation::arcosh_normr;
+			return &MLPPActivation::arcosh_derivr;
 		case ACTIVATION_FUNCTION_ARTANH:
-			return &MLPPActivation::artanh_normr;
+			return &MLPPActivation::artanh_derivr;
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return &MLPPActivation::arcsch_normr;
+			return &MLPPActivation::arcsch_derivr;
 		case ACTIVATION_FUNCTION_ARSECH:
-			return &MLPPActivation::arsech_normr;
+			return &MLPPActivation::arsech_derivr;
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return &MLPPActivation::arcoth_normr;
+			return &MLPPActivation::arcoth_derivr;
 		default:
 			return NULL;
 	}
@@ -643,61 +643,61 @@ Ref<MLPPMatrix> MLPPActivation::run_activation_norm_matrix(const ActivationFunct
 real_t MLPPActivation::run_activation_deriv_real(const ActivationFunction func, const real_t z) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return linear_normr(z);
+			return linear_derivr(z);
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return sigmoid_normr(z);
+			return sigmoid_derivr(z);
 		case ACTIVATION_FUNCTION_SWISH:
-			return swish_normr(z);
+			return swish_derivr(z);
 		case ACTIVATION_FUNCTION_MISH:
-			return mish_normr(z);
+			return mish_derivr(z);
 		case ACTIVATION_FUNCTION_SIN_C:
-			return sinc_normr(z);
+			return sinc_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return softmax_normr(z);
+			return softmax_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return softplus_normr(z);
+			return softplus_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return softsign_normr(z);
+			return softsign_derivr(z);
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return adj_softmax_normr(z);
+			return adj_softmax_derivr(z);
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return cloglog_normr(z);
+			return cloglog_derivr(z);
 		case ACTIVATION_FUNCTION_LOGIT:
-			return logit_normr(z);
+			return logit_derivr(z);
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return gaussian_cdf_normr(z);
+			return gaussian_cdf_derivr(z);
 		case ACTIVATION_FUNCTION_RELU:
-			return relu_normr(z);
+			return relu_derivr(z);
 		case ACTIVATION_FUNCTION_GELU:
-			return gelu_normr(z);
+			return gelu_derivr(z);
 		case ACTIVATION_FUNCTION_SIGN:
-			return sign_normr(z);
+			return sign_derivr(z);
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return unit_step_normr(z);
+			return unit_step_derivr(z);
 		case ACTIVATION_FUNCTION_SINH:
-			return sinh_normr(z);
+			return sinh_derivr(z);
 		case ACTIVATION_FUNCTION_COSH:
-			return cosh_normr(z);
+			return cosh_derivr(z);
 		case ACTIVATION_FUNCTION_TANH:
-			return tanh_normr(z);
+			return tanh_derivr(z);
 		case ACTIVATION_FUNCTION_CSCH:
-			return csch_normr(z);
+			return csch_derivr(z);
 		case ACTIVATION_FUNCTION_SECH:
-			return sech_normr(z);
+			return sech_derivr(z);
 		case ACTIVATION_FUNCTION_COTH:
-			return coth_normr(z);
+			return coth_derivr(z);
 		case ACTIVATION_FUNCTION_ARSINH:
-			return arsinh_normr(z);
+			return arsinh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return arcosh_normr(z);
+			return arcosh_derivr(z);
 		case ACTIVATION_FUNCTION_ARTANH:
-			return artanh_normr(z);
+			return artanh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return arcsch_normr(z);
+			return arcsch_derivr(z);
 		case ACTIVATION_FUNCTION_ARSECH:
-			return arsech_normr(z);
+			return arsech_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return arcoth_normr(z);
+			return arcoth_derivr(z);
 		default:
 			ERR_FAIL_V(0);
 	}
-- 
2.43.0


From 84cc1ef31383598e5deb1ec22d43cf87281a62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 035/259] fix: several matrix activations used the vector
 operations and returned nothing

---
 core/activation.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 7269429..12e4a37 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1249,7 +1249,7 @@ Ref<MLPPVector> MLPPActivation::softplus_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softplus_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.lognv(alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.expnv(z)));
+	return alg.lognm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.expnm(z)));
 }
 
 real_t MLPPActivation::softplus_derivr(real_t z) {
@@ -1275,7 +1275,7 @@ Ref<MLPPVector> MLPPActivation::softsign_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(z, alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
+	return alg.division_element_wisenvnm(z, alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
 }
 
 real_t MLPPActivation::softsign_derivr(real_t z) {
@@ -1289,7 +1289,7 @@ Ref<MLPPVector> MLPPActivation::softsign_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenv(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
 }
 
 //GAUSSIANCDF
@@ -1463,7 +1463,7 @@ Ref<MLPPVector> MLPPActivation::swish_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.hadamard_productnv(z, sigmoid_normm(z));
+	return alg.hadamard_productnm(z, sigmoid_normm(z));
 }
 
 real_t MLPPActivation::swish_derivr(real_t z) {
@@ -1477,7 +1477,7 @@ Ref<MLPPVector> MLPPActivation::swish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(swish_normm(z), alg.subtractionnv(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
+	return alg.additionnm(swish_normm(z), alg.subtractionnm(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
 }
 
 //MISH
@@ -1514,7 +1514,7 @@ Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(
+	return alg.additionnm(
 			alg.hadamard_productnm(
 					alg.hadamard_productnm(
 							alg.hadamard_productnm(
@@ -2291,7 +2291,7 @@ Ref<MLPPVector> MLPPActivation::artanh_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::artanh_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnv(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnm(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
 }
 
 //ARCSCH
@@ -2329,7 +2329,7 @@ Ref<MLPPVector> MLPPActivation::arcsch_derivv(const Ref<MLPPVector> &z) {
 
 	return alg.division_element_wisenv(
 			alg.fullnv(z->size(), -1),
-			alg.hadamard_productnm(
+			alg.hadamard_productnv(
 					alg.hadamard_productnv(z, z),
 					alg.sqrtnv(alg.additionnv(alg.onevecnv(z->size()), alg.division_element_wisenv(alg.onevecnv(z->size()), alg.hadamard_productnv(z, z))))));
 }
-- 
2.43.0


From 583c9a49282bf14311cdc82f81c5c2f3277019ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 036/259] fix: the vector and matrix derivatives of the
 complementary log-log activation lacked a factor

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 12e4a37..35a131f 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1347,13 +1347,13 @@ real_t MLPPActivation::cloglog_derivr(real_t z) {
 Ref<MLPPVector> MLPPActivation::cloglog_derivv(const Ref<MLPPVector> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnv(alg.scalar_multiplynv(-1, alg.expnv(z)));
+	return alg.expnv(alg.subtractionnv(z, alg.expnv(z)));
 }
 
 Ref<MLPPMatrix> MLPPActivation::cloglog_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnm(alg.scalar_multiplynm(-1, alg.expnm(z)));
+	return alg.expnm(alg.subtractionnm(z, alg.expnm(z)));
 }
 
 //LOGIT
-- 
2.43.0


From a42765226efb4f5fafd78b9050a03eadfe229fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 037/259] fix: the stabilised softmax truncated its inputs to
 integers when it looked for the largest

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 35a131f..046bfec 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1020,7 +1020,7 @@ Ref<MLPPVector> MLPPActivation::adj_softmax_normv(const Ref<MLPPVector> &z) {
 	real_t c = -Math_INF;
 
 	for (int i = 0; i < size; ++i) {
-		int zpi = z_ptr[i];
+		real_t zpi = z_ptr[i];
 
 		if (c < zpi) {
 			c = zpi;
@@ -1065,7 +1065,7 @@ Ref<MLPPVector> MLPPActivation::adj_softmax_derivv(const Ref<MLPPVector> &z) {
 	real_t c = -Math_INF;
 
 	for (int i = 0; i < size; ++i) {
-		int zpi = z_ptr[i];
+		real_t zpi = z_ptr[i];
 
 		if (c < zpi) {
 			c = zpi;
-- 
2.43.0


From 876c5049bfe6a8ba698d50c217125f6bbca36f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 038/259] fix: softmax_derivm called itself without end

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 046bfec..d071d64 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -998,7 +998,7 @@ Ref<MLPPMatrix> MLPPActivation::softmax_derivm(const Ref<MLPPMatrix> &z) {
 	for (int i = 0; i < z_size.y; ++i) {
 		z->row_get_into_mlpp_vector(i, row_tmp);
 
-		Ref<MLPPVector> sfn = softmax_derivm(z);
+		Ref<MLPPVector> sfn = softmax_derivv(row_tmp);
 
 		a->row_set_mlpp_vector(i, sfn);
 	}
-- 
2.43.0


From 802670a8a6725fb0c5060dfbb9102ed74eb31a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 039/259] fix: the derivative of SELU lacked its scale factor

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index d071d64..0cf4cb3 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1831,7 +1831,7 @@ Ref<MLPPMatrix> MLPPActivation::selu_normm(const Ref<MLPPMatrix> &z, real_t lamb
 }
 
 real_t MLPPActivation::selu_derivr(real_t z, real_t lambda, real_t c) {
-	return elu_derivr(z, c);
+	return lambda * elu_derivr(z, c);
 }
 Ref<MLPPVector> MLPPActivation::selu_derivv(const Ref<MLPPVector> &z, real_t lambda, real_t c) {
 	Ref<MLPPVector> a;
-- 
2.43.0


From d9c4816a006b4788db133a822c7a91feb2f71774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 040/259] fix: arsech lacked a square root

---
 core/activation.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 0cf4cb3..ffa7260 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2346,7 +2346,7 @@ Ref<MLPPMatrix> MLPPActivation::arcsch_derivm(const Ref<MLPPMatrix> &z) {
 //ARSECH
 
 real_t MLPPActivation::arsech_normr(real_t z) {
-	return Math::log((1 / z) + ((1 / z) + 1) * ((1 / z) - 1));
+	return Math::log((1 / z) + sqrt(((1 / z) + 1) * ((1 / z) - 1)));
 }
 
 Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
@@ -2356,9 +2356,9 @@ Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
 			alg.additionnv(
 					alg.division_element_wisenv(
 							alg.onevecnv(z->size()), z),
-					alg.hadamard_productnv(
+					alg.sqrtnv(alg.hadamard_productnv(
 							alg.additionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())),
-							alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())))));
+							alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size()))))));
 }
 
 Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
@@ -2368,7 +2368,7 @@ Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
 			alg.additionnm(
 					alg.division_element_wisenvnm(
 							alg.onematnm(z->size().y, z->size().x), z),
-					alg.hadamard_productnm(
+					alg.sqrtnm(alg.hadamard_productnm(
 							alg.additionnm(
 									alg.division_element_wisenvnm(
 											alg.onematnm(z->size().y, z->size().x), z),
@@ -2376,7 +2376,7 @@ Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
 							alg.subtractionnm(
 									alg.division_element_wisenvnm(
 											alg.onematnm(z->size().y, z->size().x), z),
-									alg.onematnm(z->size().y, z->size().x)))));
+									alg.onematnm(z->size().y, z->size().x))))));
 }
 
 real_t MLPPActivation::arsech_derivr(real_t z) {
-- 
2.43.0


From 0d2c26aebce543baa0496158ee99afd23d46d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 041/259] fix: tanh was not a number for inputs whose
 exponential overflows

---
 core/activation.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index ffa7260..1a3f99d 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2071,17 +2071,39 @@ Ref<MLPPMatrix> MLPPActivation::cosh_derivm(const Ref<MLPPMatrix> &z) {
 //TANH
 
 real_t MLPPActivation::tanh_normr(real_t z) {
-	return (Math::exp(z) - Math::exp(-z)) / (Math::exp(z) + Math::exp(-z));
+	return Math::tanh(z);
 }
 Ref<MLPPVector> MLPPActivation::tanh_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.division_element_wisenv(alg.subtractionnv(alg.expnv(z), alg.expnv(alg.scalar_multiplynv(-1, z))), alg.additionnv(alg.expnv(z), alg.expnv(alg.scalar_multiplynv(-1, z))));
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = tanh_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::tanh_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.division_element_wisenvnm(alg.subtractionnm(alg.expnm(z), alg.expnm(alg.scalar_multiplynm(-1, z))), alg.additionnm(alg.expnm(z), alg.expnm(alg.scalar_multiplynm(-1, z))));
+	int z_data_size = z->data_size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = tanh_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::tanh_derivr(real_t z) {
-- 
2.43.0


From 6e603311d8b014f6de48b9a6dcfad07336338aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 042/259] fix: softplus was infinite for inputs whose
 exponential overflows

---
 core/activation.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 1a3f99d..cad46e7 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1239,17 +1239,39 @@ Vector<Ref<MLPPMatrix>> MLPPActivation::softmax_deriv_derivm(const Ref<MLPPMatri
 //SOFTPLUS
 
 real_t MLPPActivation::softplus_normr(real_t z) {
-	return Math::log(1 + exp(z));
+	return MAX(z, 0) + log1p(exp(-Math::abs(z)));
 }
 Ref<MLPPVector> MLPPActivation::softplus_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.lognv(alg.additionnv(alg.onevecnv(z->size()), alg.expnv(z)));
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = softplus_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::softplus_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.lognm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.expnm(z)));
+	int z_data_size = z->data_size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = softplus_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::softplus_derivr(real_t z) {
-- 
2.43.0


From 78c807a6c7f3f9b251e62042c1860fd12f99f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 043/259] fix: the derivative of mish was not a number at zero

---
 core/activation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index cad46e7..383521f 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1519,7 +1519,7 @@ Ref<MLPPMatrix> MLPPActivation::mish_normm(const Ref<MLPPMatrix> &z) {
 }
 
 real_t MLPPActivation::mish_derivr(real_t z) {
-	return sech_normr(softplus_normr(z)) * sech_normr(softplus_normr(z)) * z * sigmoid_normr(z) + mish_normr(z) / z;
+	return sech_normr(softplus_normr(z)) * sech_normr(softplus_normr(z)) * z * sigmoid_normr(z) + tanh(softplus_normr(z));
 }
 Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
 	MLPPLinAlg alg;
@@ -1531,7 +1531,7 @@ Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
 									sech_normv(softplus_normv(z)), sech_normv(softplus_normv(z))),
 							z),
 					sigmoid_normv(z)),
-			alg.division_element_wisenv(mish_normv(z), z));
+			tanh_normv(softplus_normv(z)));
 }
 Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
@@ -1543,7 +1543,7 @@ Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 									sech_normm(softplus_normm(z)), sech_normm(softplus_normm(z))),
 							z),
 					sigmoid_normm(z)),
-			alg.division_element_wisenvnm(mish_normm(z), z));
+			tanh_normm(softplus_normm(z)));
 }
 
 //SINC
-- 
2.43.0


From 03563e7753e43baec53f15f825784d9d7bb33665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 044/259] fix: sinc and its derivative were not a number at
 zero

---
 core/activation.cpp | 68 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 383521f..a8f1b1f 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1549,31 +1549,83 @@ Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 //SINC
 
 real_t MLPPActivation::sinc_normr(real_t z) {
+	if (z == 0) {
+		return 1;
+	}
+
 	return Math::sin(z) / z;
 }
 Ref<MLPPVector> MLPPActivation::sinc_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = sinc_normr(z_ptr[i]);
+	}
 
-	return alg.division_element_wisenv(alg.sinnv(z), z);
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::sinc_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_data_size = z->data_size();
 
-	return alg.division_element_wisenvnm(alg.sinnm(z), z);
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = sinc_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::sinc_derivr(real_t z) {
+	if (z == 0) {
+		return 0;
+	}
+
 	return (z * Math::cos(z) - Math::sin(z)) / (z * z);
 }
 Ref<MLPPVector> MLPPActivation::sinc_derivv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = sinc_derivr(z_ptr[i]);
+	}
 
-	return alg.division_element_wisenv(alg.subtractionnv(alg.hadamard_productnv(z, alg.cosnv(z)), alg.sinnv(z)), alg.hadamard_productnv(z, z));
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::sinc_derivm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_data_size = z->data_size();
 
-	return alg.division_element_wisenvnm(alg.subtractionnm(alg.hadamard_productnm(z, alg.cosnm(z)), alg.sinnm(z)), alg.hadamard_productnm(z, z));
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = sinc_derivr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 //RELU
-- 
2.43.0


From 5b6dfeb7035e1668bbce314beae5c802a4711366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 045/259] fix: the mean squared error multiplied by the number
 of samples

---
 core/cost.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 2d6ce84..b5c7f23 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -47,7 +47,7 @@ real_t MLPPCost::msev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2 * y_hat_size;
+	return sum / (2 * static_cast<real_t>(y_hat_size));
 }
 real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
@@ -62,7 +62,7 @@ real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2.0 * static_cast<real_t>(y_hat_data_size);
+	return sum / (2 * static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::mse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From cfbd2df3e36e3cb073778314ec8d7d231ff10c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 046/259] fix: the RMSE of matrices divided by the number of
 rows instead of elements

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index b5c7f23..de780b4 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -103,7 +103,7 @@ real_t MLPPCost::rmsem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return Math::sqrt(sum / static_cast<real_t>(y_hat->size().y));
+	return Math::sqrt(sum / static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 8934c0154cead55e8d3ac17336abbcf74024b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 047/259] fix: the RMSE derivatives were not the derivative of
 the RMSE

---
 core/cost.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index de780b4..5e553ee 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -109,12 +109,12 @@ real_t MLPPCost::rmsem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	MLPPLinAlg alg;
 
-	return alg.scalar_multiplynv(1 / (2.0 * Math::sqrt(msev(y_hat, y))), mse_derivv(y_hat, y));
+	return alg.scalar_multiplynv(1 / rmsev(y_hat, y), mse_derivv(y_hat, y));
 }
 Ref<MLPPMatrix> MLPPCost::rmse_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
 
-	return alg.scalar_multiplynm(1 / (2.0 / Math::sqrt(msem(y_hat, y))), mse_derivm(y_hat, y));
+	return alg.scalar_multiplynm(1 / rmsem(y_hat, y), mse_derivm(y_hat, y));
 }
 
 real_t MLPPCost::maev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 0a679dd46811fa8f3c0e009db5410542a4445c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 048/259] fix: the MAE derivatives ignored the labels

---
 core/cost.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 5e553ee..ab2c265 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -150,7 +150,10 @@ real_t MLPPCost::maem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	int y_hat_size = y_hat->size();
 
+	ERR_FAIL_COND_V(y_hat_size != y->size(), 0);
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPVector> deriv;
 	deriv.instance();
@@ -158,11 +161,11 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t diff = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (diff < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (diff == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
@@ -174,7 +177,10 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
+	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPMatrix> deriv;
 	deriv.instance();
@@ -182,11 +188,11 @@ Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t diff = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (diff < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (diff == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
-- 
2.43.0


From ba23850473ec5e87882ccf3260cf5cd0a80693d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 049/259] fix: the MBE derivative of a matrix that is not
 square had the transposed shape

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index ab2c265..7610909 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -239,7 +239,7 @@ Ref<MLPPVector> MLPPCost::mbe_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 }
 Ref<MLPPMatrix> MLPPCost::mbe_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
-	return alg.onematnm(y_hat->size().x, y_hat->size().y);
+	return alg.onematnm(y_hat->size().y, y_hat->size().x);
 }
 
 // Classification Costs
-- 
2.43.0


From be24372edd5e60c1ea3f3b3ee9ed0ffc8683f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 050/259] fix: the Huber loss derivatives were not the
 derivative of the Huber loss

---
 core/cost.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 7610909..f890fe8 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -390,13 +390,9 @@ Ref<MLPPVector> MLPPCost::huber_loss_derivv(const Ref<MLPPVector> &y_hat, const
 
 	for (int i = 0; i < y_hat_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = 2 * (y_hat_ptr[i] - y_ptr[i]);
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
-			} else {
-				deriv_ptr[i] = (0);
-			}
+			deriv_ptr[i] = y_hat_ptr[i] > y_ptr[i] ? 2 * delta : -2 * delta;
 		}
 	}
 
@@ -420,13 +416,9 @@ Ref<MLPPMatrix> MLPPCost::huber_loss_derivm(const Ref<MLPPMatrix> &y_hat, const
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = 2 * (y_hat_ptr[i] - y_ptr[i]);
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
-			} else {
-				deriv_ptr[i] = (0);
-			}
+			deriv_ptr[i] = y_hat_ptr[i] > y_ptr[i] ? 2 * delta : -2 * delta;
 		}
 	}
 
-- 
2.43.0


From e2eef32649b58ca4c9b3aab57295d5621afc4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 051/259] fix: the weighted hinge loss of matrices passed its
 weights on as a vector

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index f890fe8..d94142c 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -515,7 +515,7 @@ real_t MLPPCost::hinge_losswm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix
 	MLPPLinAlg alg;
 	MLPPReg regularization;
 
-	return C * hinge_lossm(y_hat, y) + regularization.reg_termv(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
+	return C * hinge_lossm(y_hat, y) + regularization.reg_termm(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 }
 
 Ref<MLPPVector> MLPPCost::hinge_loss_derivwv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y, real_t C) {
-- 
2.43.0


From e45e2fe650d7648aa690eede36649a58b19de12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 052/259] fix: arsinh and arcsch lost their accuracy for
 negative inputs

---
 core/activation.cpp | 75 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index a8f1b1f..60c8313 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2295,19 +2295,41 @@ Ref<MLPPMatrix> MLPPActivation::coth_derivm(const Ref<MLPPMatrix> &z) {
 //ARSINH
 
 real_t MLPPActivation::arsinh_normr(real_t z) {
-	return Math::log(z + sqrt(z * z + 1));
+	return asinh(z);
 }
 
 Ref<MLPPVector> MLPPActivation::arsinh_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.lognv(alg.additionnv(z, alg.sqrtnv(alg.additionnv(alg.hadamard_productnv(z, z), alg.onevecnv(z->size())))));
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = arsinh_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 Ref<MLPPMatrix> MLPPActivation::arsinh_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_data_size = z->data_size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
 
-	return alg.lognm(alg.additionnm(z, alg.sqrtnm(alg.additionnm(alg.hadamard_productnm(z, z), alg.onematnm(z->size().y, z->size().x)))));
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = arsinh_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::arsinh_derivr(real_t z) {
@@ -2393,28 +2415,39 @@ Ref<MLPPMatrix> MLPPActivation::artanh_derivm(const Ref<MLPPMatrix> &z) {
 //ARCSCH
 
 real_t MLPPActivation::arcsch_normr(real_t z) {
-	return Math::log(sqrt(1 + (1 / (z * z))) + (1 / z));
+	return asinh(1 / z);
 }
 Ref<MLPPVector> MLPPActivation::arcsch_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.lognv(
-			alg.additionnv(
-					alg.sqrtnv(
-							alg.additionnv(
-									alg.onevecnv(z->size()),
-									alg.division_element_wisenv(alg.onevecnv(z->size()), alg.hadamard_productnv(z, z)))),
-					alg.division_element_wisenv(alg.onevecnv(z->size()), z)));
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = arcsch_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::arcsch_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.lognm(
-			alg.additionnm(
-					alg.sqrtnm(
-							alg.additionnm(alg.onematnm(z->size().y, z->size().x),
-									alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)))),
-					alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), z)));
+	int z_data_size = z->data_size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = arcsch_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::arcsch_derivr(real_t z) {
-- 
2.43.0


From 2a6baca873a0d278d2a9b83e53e3b6b17d1d6a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 053/259] fix: convolution and pooling used the stride for the
 second window only

---
 core/convolutions.cpp | 36 +++---------------------------------
 1 file changed, 3 insertions(+), 33 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index a06f422..9de9f13 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -88,17 +88,7 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 
 			for (int k = 0; k < F; k++) {
 				for (int p = 0; p < F; p++) {
-					real_t val;
-
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
+					real_t val = input->element_get(i * S + k, j * S + p);
 
 					convolving_input->element_set(current_index, val);
 					++current_index;
@@ -172,17 +162,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 				for (int t = 0; t < input_size.z; t++) {
 					for (int k = 0; k < F; k++) {
 						for (int p = 0; p < F; p++) {
-							real_t val;
-
-							if (i == 0 && j == 0) {
-								val = input->element_get(i + k, j + p, t);
-							} else if (i == 0) {
-								val = input->element_get(i + k, j + (S - 1) + p, t);
-							} else if (j == 0) {
-								val = input->element_get(i + (S - 1) + k, j + p, t);
-							} else {
-								val = input->element_get(i + (S - 1) + k, j + (S - 1) + p, t);
-							}
+							real_t val = input->element_get(i * S + k, j * S + p, t);
 
 							convolving_input->element_set(current_index, val);
 							++current_index;
@@ -219,17 +199,7 @@ Ref<MLPPMatrix> MLPPConvolutions::pool_2d(const Ref<MLPPMatrix> &input, const in
 
 			for (int k = 0; k < F; k++) {
 				for (int p = 0; p < F; p++) {
-					real_t val;
-
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
+					real_t val = input->element_get(i * S + k, j * S + p);
 
 					pooling_input->element_set(current_index, val);
 					++current_index;
-- 
2.43.0


From 8cf677c83722b78fbf46168fa451811caf062da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 054/259] fix: convolve_3d took the channel index for the
 column

---
 core/convolutions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 9de9f13..1014372 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -133,7 +133,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 					if (i - P < 0 || j - P < 0 || i - P > input_size.y - 1 || j - P > input_size.x - 1) {
 						padded_input_slice->element_set(i, j, 0);
 					} else {
-						padded_input_slice->element_set(i, j, input->element_get(i - P, j - P, c));
+						padded_input_slice->element_set(i, j, input->element_get(c, i - P, j - P));
 					}
 				}
 			}
@@ -162,7 +162,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 				for (int t = 0; t < input_size.z; t++) {
 					for (int k = 0; k < F; k++) {
 						for (int p = 0; p < F; p++) {
-							real_t val = input->element_get(i * S + k, j * S + p, t);
+							real_t val = input->element_get(t, i * S + k, j * S + p);
 
 							convolving_input->element_set(current_index, val);
 							++current_index;
-- 
2.43.0


From f2663e0f4552815954c2dd798d31ad9bccbe4b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 055/259] fix: convolve_3d could not apply more than one filter

---
 core/convolutions.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 1014372..3cd185c 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -148,13 +148,19 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 	feature_map.instance();
 	feature_map->resize(Size3i(map_size, map_size, C));
 
-	Ref<MLPPVector> filter_flattened = filter->flatten();
-
 	Ref<MLPPVector> convolving_input;
 	convolving_input.instance();
 	convolving_input->resize(input_size.z * F * F);
 
+	Ref<MLPPVector> filter_flattened;
+	filter_flattened.instance();
+	filter_flattened->resize(input_size.z * F * F);
+
 	for (int c = 0; c < C; c++) {
+		for (int i = 0; i < filter_flattened->size(); i++) {
+			filter_flattened->element_set(i, filter->element_get_index(c * filter_flattened->size() + i));
+		}
+
 		for (int i = 0; i < map_size; i++) {
 			for (int j = 0; j < map_size; j++) {
 				int current_index = 0;
-- 
2.43.0


From 0fb067e8c8d5314de02641d7e97ec3da1d5c1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 056/259] fix: the Gaussian filter multiplied by the variance
 instead of dividing by it

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 3cd185c..496c1f1 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -288,7 +288,7 @@ Ref<MLPPVector> MLPPConvolutions::global_pool_3d(const Ref<MLPPTensor3> &input,
 
 real_t MLPPConvolutions::gaussian_2d(const real_t x, const real_t y, const real_t std) {
 	real_t std_sq = std * std;
-	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / 2 * std_sq);
+	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / (2 * std_sq));
 }
 
 Ref<MLPPMatrix> MLPPConvolutions::gaussian_filter_2d(const int size, const real_t std) {
-- 
2.43.0


From b57dcd8d5b468476c9e5d175d3fd8f198327e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 057/259] fix: the horizontal image derivative took the height
 for the width

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 496c1f1..b80170f 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -321,7 +321,7 @@ Ref<MLPPMatrix> MLPPConvolutions::dx(const Ref<MLPPMatrix> &input) {
 
 	for (int i = 0; i < input_size.y; i++) {
 		for (int j = 0; j < input_size.x; j++) {
-			if (j != 0 && j != input_size.y - 1) {
+			if (j != 0 && j != input_size.x - 1) {
 				deriv->element_set(i, j, input->element_get(i, j + 1) - input->element_get(i, j - 1));
 			} else if (j == 0) {
 				deriv->element_set(i, j, input->element_get(i, j + 1)); // E0 - 0 = Implicit zero-padding
-- 
2.43.0


From 5a5b355c262f9fffd4ed1811a0a7cd90e557bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 058/259] fix: convolution and pooling took every input for a
 square one

---
 core/convolutions.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index b80170f..48c6093 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -49,12 +49,13 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 	int N = input_size.y;
 	int F = filter->size().y;
 	int map_size = (N - F + 2 * P) / S + 1; // This is computed as ⌊map_size⌋ by def- thanks C++!
+	int map_size_x = (input_size.x - F + 2 * P) / S + 1;
 
 	if (P != 0) {
 		Ref<MLPPMatrix> padded_input;
 		padded_input.instance();
 
-		Size2i pis = Size2i(N + 2 * P, N + 2 * P);
+		Size2i pis = Size2i(input_size.x + 2 * P, N + 2 * P);
 
 		padded_input->resize(pis);
 
@@ -74,7 +75,7 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 	Ref<MLPPMatrix> feature_map;
 	feature_map.instance();
 
-	feature_map->resize(Size2i(map_size, map_size));
+	feature_map->resize(Size2i(map_size_x, map_size));
 
 	Ref<MLPPVector> filter_flattened = filter->flatten();
 
@@ -83,7 +84,7 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 	convolving_input->resize(F * F);
 
 	for (int i = 0; i < map_size; i++) {
-		for (int j = 0; j < map_size; j++) {
+		for (int j = 0; j < map_size_x; j++) {
 			int current_index = 0;
 
 			for (int k = 0; k < F; k++) {
@@ -114,6 +115,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 	int F = filter_size.y;
 	int C = filter_size.z / input_size.z;
 	int map_size = (N - F + 2 * P) / S + 1; // This is computed as ⌊map_size⌋ by def.
+	int map_size_x = (input_size.x - F + 2 * P) / S + 1;
 
 	if (P != 0) {
 		Ref<MLPPTensor3> padded_input;
@@ -122,7 +124,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 		Ref<MLPPMatrix> padded_input_slice;
 		padded_input_slice.instance();
 
-		Size2i padded_input_slice_size = Size2i(N + 2 * P, N + 2 * P);
+		Size2i padded_input_slice_size = Size2i(input_size.x + 2 * P, N + 2 * P);
 		padded_input_slice->resize(padded_input_slice_size);
 
 		padded_input->resize(Size3i(padded_input_slice_size.x, padded_input_slice_size.y, input_size.z));
@@ -146,7 +148,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 
 	Ref<MLPPTensor3> feature_map;
 	feature_map.instance();
-	feature_map->resize(Size3i(map_size, map_size, C));
+	feature_map->resize(Size3i(map_size_x, map_size, C));
 
 	Ref<MLPPVector> convolving_input;
 	convolving_input.instance();
@@ -162,7 +164,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 		}
 
 		for (int i = 0; i < map_size; i++) {
-			for (int j = 0; j < map_size; j++) {
+			for (int j = 0; j < map_size_x; j++) {
 				int current_index = 0;
 
 				for (int t = 0; t < input_size.z; t++) {
@@ -190,17 +192,18 @@ Ref<MLPPMatrix> MLPPConvolutions::pool_2d(const Ref<MLPPMatrix> &input, const in
 
 	int N = input_size.y;
 	int map_size = (N - F) / S + 1;
+	int map_size_x = (input_size.x - F) / S + 1;
 
 	Ref<MLPPMatrix> pooled_map;
 	pooled_map.instance();
-	pooled_map->resize(Size2i(map_size, map_size));
+	pooled_map->resize(Size2i(map_size_x, map_size));
 
 	Ref<MLPPVector> pooling_input;
 	pooling_input.instance();
 	pooling_input->resize(F * F);
 
 	for (int i = 0; i < map_size; i++) {
-		for (int j = 0; j < map_size; j++) {
+		for (int j = 0; j < map_size_x; j++) {
 			int current_index = 0;
 
 			for (int k = 0; k < F; k++) {
@@ -235,10 +238,11 @@ Ref<MLPPTensor3> MLPPConvolutions::pool_3d(const Ref<MLPPTensor3> &input, const
 
 	int N = input_size.y;
 	int map_size = (N - F) / S + 1;
+	int map_size_x = (input_size.x - F) / S + 1;
 
 	Ref<MLPPTensor3> pooled_map;
 	pooled_map.instance();
-	pooled_map->resize(Size3i(map_size, map_size, input_size.z));
+	pooled_map->resize(Size3i(map_size_x, map_size, input_size.z));
 
 	for (int i = 0; i < input_size.z; i++) {
 		input->z_slice_get_into_mlpp_matrix(i, z_slice);
-- 
2.43.0


From 69f040614a0c4a190f3eecd63e8886ab160461ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 059/259] fix: the image derivatives read outside an image of
 one row or column

---
 core/convolutions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 48c6093..ed6bfb3 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -327,6 +327,8 @@ Ref<MLPPMatrix> MLPPConvolutions::dx(const Ref<MLPPMatrix> &input) {
 		for (int j = 0; j < input_size.x; j++) {
 			if (j != 0 && j != input_size.x - 1) {
 				deriv->element_set(i, j, input->element_get(i, j + 1) - input->element_get(i, j - 1));
+			} else if (input_size.x == 1) {
+				deriv->element_set(i, j, 0);
 			} else if (j == 0) {
 				deriv->element_set(i, j, input->element_get(i, j + 1)); // E0 - 0 = Implicit zero-padding
 			} else {
@@ -349,6 +351,8 @@ Ref<MLPPMatrix> MLPPConvolutions::dy(const Ref<MLPPMatrix> &input) {
 		for (int j = 0; j < input_size.x; j++) {
 			if (i != 0 && i != input_size.y - 1) {
 				deriv->element_set(i, j, input->element_get(i - 1, j) - input->element_get(i + 1, j));
+			} else if (input_size.y == 1) {
+				deriv->element_set(i, j, 0);
 			} else if (i == 0) {
 				deriv->element_set(i, j, -input->element_get(i + 1, j)); // 0 - E1 = Implicit zero-padding
 			} else {
-- 
2.43.0


From 63c2123881a9af0b1e72273093cfc004db80711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 060/259] fix: the cosine transform took every matrix for a
 square one

---
 core/transforms.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/transforms.cpp b/core/transforms.cpp
index 76b844f..3b0ef75 100644
--- a/core/transforms.cpp
+++ b/core/transforms.cpp
@@ -52,6 +52,9 @@ Ref<MLPPMatrix> MLPPTransforms::discrete_cosine_transform(const Ref<MLPPMatrix>
 	real_t M = size.y;
 	real_t inv_sqrt_M = 1 / Math::sqrt(M);
 	real_t s2M = Math::sqrt(real_t(2) / real_t(M));
+	real_t N = size.x;
+	real_t inv_sqrt_N = 1 / Math::sqrt(N);
+	real_t s2N = Math::sqrt(real_t(2) / real_t(N));
 
 	for (int i = 0; i < size.y; i++) {
 		for (int j = 0; j < size.x; j++) {
@@ -66,14 +69,14 @@ Ref<MLPPMatrix> MLPPTransforms::discrete_cosine_transform(const Ref<MLPPMatrix>
 
 			real_t alphaJ;
 			if (j == 0) {
-				alphaJ = inv_sqrt_M;
+				alphaJ = inv_sqrt_N;
 			} else {
-				alphaJ = s2M;
+				alphaJ = s2N;
 			}
 
 			for (int k = 0; k < size.y; k++) {
 				for (int f = 0; f < size.x; f++) {
-					sum += A->element_get(k, f) * Math::cos((Math_PI * i * (2 * k + 1)) / (2 * M)) * Math::cos((Math_PI * j * (2 * f + 1)) / (2 * M));
+					sum += A->element_get(k, f) * Math::cos((Math_PI * i * (2 * k + 1)) / (2 * M)) * Math::cos((Math_PI * j * (2 * f + 1)) / (2 * N));
 				}
 			}
 
-- 
2.43.0


From 4b53fab14af175910334a13e4b9582eb923eab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 061/259] fix: the median of an odd number of values was the
 value below the middle

---
 core/stat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/stat.cpp b/core/stat.cpp
index 5376076..0b0f9a3 100644
--- a/core/stat.cpp
+++ b/core/stat.cpp
@@ -68,7 +68,7 @@ real_t MLPPStat::median(const Ref<MLPPVector> &p_x) {
 	if (x->size() % 2 == 0) {
 		return (x->element_get(center - 1) + x->element_get(center)) / 2.0;
 	} else {
-		return x->element_get(center - 1);
+		return x->element_get(center);
 	}
 }
 
-- 
2.43.0


From b651285f9aa791b2f59ced4334f43e684ea67a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 062/259] fix: the difference quotients used steps lost in
 single precision

---
 core/numerical_analysis.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 5252378..467f03c 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -36,18 +36,25 @@
 #include "../core/mlpp_tensor3.h"
 #include "../core/mlpp_vector.h"
 
+// Step sizes of the difference quotients. They have to grow with the order of the derivative, because the rounding
+// error of the function values gets divided by step^order. They are powers of two, so adding them loses little.
+static constexpr bool MLPP_NUM_SINGLE = sizeof(real_t) == sizeof(float);
+static constexpr real_t MLPP_NUM_EPS_1 = MLPP_NUM_SINGLE ? 1.0 / 1024 : 1.0 / (1 << 26);
+static constexpr real_t MLPP_NUM_EPS_2 = MLPP_NUM_SINGLE ? 1.0 / 64 : 1.0 / (1 << 14);
+static constexpr real_t MLPP_NUM_EPS_3 = MLPP_NUM_SINGLE ? 1.0 / 16 : 1.0 / (1 << 10);
+
 real_t MLPPNumericalAnalysis::num_diffr(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-10;
+	real_t eps = MLPP_NUM_EPS_1;
 	return (function(x + eps) - function(x)) / eps; // This is just the formal def. of the derivative.
 }
 
 real_t MLPPNumericalAnalysis::num_diff_2r(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-5;
+	real_t eps = MLPP_NUM_EPS_2;
 	return (function(x + 2 * eps) - 2 * function(x + eps) + function(x)) / (eps * eps);
 }
 
 real_t MLPPNumericalAnalysis::num_diff_3r(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-5;
+	real_t eps = MLPP_NUM_EPS_3;
 	real_t t1 = function(x + 3 * eps) - 2 * function(x + 2 * eps) + function(x + eps);
 	real_t t2 = function(x + 2 * eps) - 2 * function(x + eps) + function(x);
 	return (t1 - t2) / (eps * eps * eps);
@@ -73,7 +80,7 @@ real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector>
 	// For multivariable function analysis.
 	// This will be used for calculating Jacobian vectors.
 	// Diffrentiate with respect to indicated axis. (0, 1, 2 ...)
-	real_t eps = 1e-10;
+	real_t eps = MLPP_NUM_EPS_1;
 	Ref<MLPPVector> x_eps = x->duplicate_fast();
 	x_eps->element_get_ref(axis) += eps;
 
@@ -82,7 +89,7 @@ real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector>
 
 real_t MLPPNumericalAnalysis::num_diff_2v(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis1, int axis2) {
 	//For Hessians.
-	real_t eps = 1e-5;
+	real_t eps = MLPP_NUM_EPS_2;
 
 	Ref<MLPPVector> x_pp = x->duplicate_fast();
 	x_pp->element_get_ref(axis1) += eps;
@@ -101,7 +108,7 @@ real_t MLPPNumericalAnalysis::num_diff_3v(real_t (*function)(const Ref<MLPPVecto
 	// For third order derivative tensors.
 	// NOTE: Approximations do not appear to be accurate for sinusodial functions...
 	// Should revisit this later.
-	real_t eps = 1e-5;
+	real_t eps = MLPP_NUM_EPS_3;
 
 	Ref<MLPPVector> x_ppp = x->duplicate_fast();
 	x_ppp->element_get_ref(axis1) += eps;
-- 
2.43.0


From e05a8773b96468e40657d2c5e7ebd29c4bac49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 063/259] fix: the cubic approximations dropped the cubic term

---
 core/numerical_analysis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 467f03c..4474e9f 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -73,7 +73,7 @@ real_t MLPPNumericalAnalysis::quadratic_approximationr(real_t (*function)(real_t
 }
 
 real_t MLPPNumericalAnalysis::cubic_approximationr(real_t (*function)(real_t), real_t c, real_t x) {
-	return quadratic_approximationr(function, c, x) + (1 / 6) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
+	return quadratic_approximationr(function, c, x) + (1 / 6.0) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
 }
 
 real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis) {
@@ -348,7 +348,7 @@ real_t MLPPNumericalAnalysis::cubic_approximationv(real_t (*function)(const Ref<
 	Ref<MLPPMatrix> result_mat = third_order_tensor(function, c)->tensor_vec_mult(xsc);
 	real_t result_scalar = mxsc->multn(result_mat->multn(mxsc->transposen()))->element_get(0, 0);
 
-	return quadratic_approximationv(function, c, x) + (1 / 6) * result_scalar;
+	return quadratic_approximationv(function, c, x) + (1 / 6.0) * result_scalar;
 }
 
 real_t MLPPNumericalAnalysis::laplacian(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x) {
-- 
2.43.0


From 233cde80aa66b28fcb58019ff06a9bc89a34857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 064/259] fix: the multivariate linear approximation used only
 the first coordinate

---
 core/numerical_analysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 4474e9f..3755f96 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -309,7 +309,7 @@ real_t MLPPNumericalAnalysis::linear_approximationv(real_t (*function)(const Ref
 	mxsc.instance();
 	mxsc->row_add_mlpp_vector(xsc);
 
-	Ref<MLPPMatrix> m = mj->transposen()->multn(mxsc);
+	Ref<MLPPMatrix> m = mj->multn(mxsc->transposen());
 
 	return constant_approximationv(function, c) + m->element_get(0, 0);
 }
-- 
2.43.0


From 850ed949889c4241754d4626ed5fce8092491cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 065/259] fix: set_data_unsupervised() left its rows as columns

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index 5ad5dec..9f35605 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -325,7 +325,7 @@ void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMat
 	memdelete(file);
 
 	input_set->set_from_vectors(input_set_tmp);
-	input_set = alg.transposenm(input_set);
+	input_set->transpose();
 }
 
 void MLPPData::set_data_simple(const String &file_name, Ref<MLPPVector> input_set, Ref<MLPPVector> output_set) {
-- 
2.43.0


From 98777834ad87c823540a03e6ea8e2919fc4134cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 066/259] fix: loading a csv file that ends with a newline read
 past its fields

---
 core/data.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index 9f35605..835dd8e 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -280,6 +280,11 @@ void MLPPData::set_data_supervised(int k, const String &file_name, Ref<MLPPMatri
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
+		if (ll.size() <= k) {
+			// Blank lines, like the one after a trailing newline, hold no sample.
+			continue;
+		}
+
 		Vector<real_t> row;
 
 		for (int i = 0; i < k; ++i) {
@@ -316,6 +321,10 @@ void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMat
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
+		if (ll.size() < k) {
+			continue;
+		}
+
 		for (int i = 0; i < k; ++i) {
 			input_set_tmp.write[i].push_back(static_cast<real_t>(ll[i].to_double()));
 		}
@@ -345,7 +354,7 @@ void MLPPData::set_data_simple(const String &file_name, Ref<MLPPVector> input_se
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
-		for (int i = 0; i < ll.size(); i += 2) {
+		for (int i = 0; i + 1 < ll.size(); i += 2) {
 			input_set_tmp.push_back(static_cast<real_t>(ll[i].to_double()));
 			output_set_tmp.push_back(static_cast<real_t>(ll[i + 1].to_double()));
 		}
-- 
2.43.0


From bee44b9b040885e3deef755494bc26d9f1c072ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 067/259] fix: the output property of data sets returned their
 input

---
 core/data.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index 835dd8e..71ca849 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -73,7 +73,7 @@ void MLPPDataESimple::_bind_methods() {
 	ClassDB::bind_method(D_METHOD("set_input", "val"), &MLPPDataESimple::set_input);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "input", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "set_input", "get_input");
 
-	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataESimple::get_input);
+	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataESimple::get_output);
 	ClassDB::bind_method(D_METHOD("set_output", "val"), &MLPPDataESimple::set_output);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "set_output", "get_output");
 
@@ -104,7 +104,7 @@ void MLPPDataSimple::_bind_methods() {
 	ClassDB::bind_method(D_METHOD("set_input", "val"), &MLPPDataSimple::set_input);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "input", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_input", "get_input");
 
-	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataSimple::get_input);
+	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataSimple::get_output);
 	ClassDB::bind_method(D_METHOD("set_output", "val"), &MLPPDataSimple::set_output);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "set_output", "get_output");
 
@@ -135,7 +135,7 @@ void MLPPDataComplex::_bind_methods() {
 	ClassDB::bind_method(D_METHOD("set_input", "val"), &MLPPDataComplex::set_input);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "input", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_input", "get_input");
 
-	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataComplex::get_input);
+	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataComplex::get_output);
 	ClassDB::bind_method(D_METHOD("set_output", "val"), &MLPPDataComplex::set_output);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_output", "get_output");
 
-- 
2.43.0


From be58d65865c7d12ec5cb5e9bf231414ed45719c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 068/259] fix: split_sentences() split at ellipses instead of
 full stops

---
 core/data.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index 71ca849..8b52cd1 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -583,19 +583,17 @@ Vector<String> MLPPData::split_sentences(String data) {
 
 	int start_index = 0;
 
-	for (int i = 0; i < data.length() - 1; ++i) {
-		if (data[i] == '.' && data[i + 1] != '.') {
+	for (int i = 0; i < data.length(); ++i) {
+		if (data[i] != '.' || (i + 1 < data.length() && data[i + 1] == '.')) {
 			continue;
 		}
 
-		if (data[i] == '.') {
-			sentences.push_back(data.substr_index(start_index, i));
-			start_index = i + 1;
-		}
+		sentences.push_back(data.substr_index(start_index, i));
+		start_index = i + 1;
 	}
 
-	if (start_index != data.length() - 1) {
-		sentences.push_back(data.substr_index(start_index, data.length() - 1));
+	if (start_index < data.length()) {
+		sentences.push_back(data.substr_index(start_index, data.length()));
 	}
 
 	return sentences;
-- 
2.43.0


From eff7d121fed151cb37d6dfbdfaa8b634f267f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 069/259] fix: remove_empty() kept every second one of
 consecutive empty strings

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index 8b52cd1..d03c9de 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -610,6 +610,7 @@ Vector<String> MLPPData::remove_empty(Vector<String> data) {
 	for (int i = 0; i < data.size(); ++i) {
 		if (data[i].empty()) {
 			data.remove(i);
+			--i;
 		}
 	}
 
-- 
2.43.0


From 1d45945123837756de1fdfdc3fd3877a8e36f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 070/259] fix: segment() dropped the character after
 punctuation even when it was no space

---
 core/data.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index d03c9de..e4f238e 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -630,8 +630,12 @@ Vector<String> MLPPData::segment(String text) {
 			String punc;
 			punc += text[i];
 			segmented_data.push_back(punc);
-			prev_delim = i + 2;
-			i++;
+			prev_delim = i + 1;
+
+			if (i + 1 < text.length() && text[i + 1] == ' ') {
+				prev_delim = i + 2;
+				i++;
+			}
 		} else if (i == text.length() - 1) {
 			segmented_data.push_back(text.substr(prev_delim, text.length() - prev_delim)); // hehe oops- forgot this
 		}
-- 
2.43.0


From 462fdd3337c3a6e6c0e171e5493aecdd0975bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 071/259] fix: remove_stop_words_vec() went on comparing after
 it removed a word

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index e4f238e..157a0b2 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -690,6 +690,7 @@ Vector<String> MLPPData::remove_stop_words_vec(Vector<String> segmented_data) {
 			if (segmented_data[i] == stop_words[j]) {
 				segmented_data.remove(i);
 				--i;
+				break;
 			}
 		}
 	}
-- 
2.43.0


From 259b8cd5d5bfb5eca1c8171dbdeaf6cda7a62e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 072/259] fix: tfidf() counted words on top of uninitialised
 memory

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index 157a0b2..084dde8 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -769,6 +769,7 @@ Ref<MLPPMatrix> MLPPData::tfidf(Vector<String> sentences) {
 	Ref<MLPPMatrix> TF;
 	TF.instance();
 	TF->resize(Size2i(word_list.size(), segmented_sentences.size()));
+	TF->fill(0);
 
 	Vector<int> frequency;
 	frequency.resize(word_list.size());
-- 
2.43.0


From 17343d0cae279a2b565cd5ecdee75e4878173a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 073/259] fix: tfidf() divided by zero for sentences without
 words

---
 core/data.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/data.cpp b/core/data.cpp
index 084dde8..408eb3b 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -780,6 +780,10 @@ Ref<MLPPMatrix> MLPPData::tfidf(Vector<String> sentences) {
 	TF_row->resize(word_list.size());
 
 	for (int i = 0; i < segmented_sentences.size(); i++) {
+		if (segmented_sentences[i].empty()) {
+			continue;
+		}
+
 		Vector<bool> present;
 		present.resize(word_list.size());
 		present.fill(false);
-- 
2.43.0


From 7d3c7a5e5fe26738f3148928d8fb0da735efde2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 074/259] fix: word_to_vec() never filled in its outputs

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index 408eb3b..33dff52 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -889,7 +889,7 @@ MLPPData::WordsToVecResult MLPPData::word_to_vec(Vector<String> sentences, WordT
 
 	for (int i = 0; i < output_set_size.y; i++) {
 		bow->row_get_into_mlpp_vector(i + input_size, row_tmp);
-		input_set->row_set_mlpp_vector(i, row_tmp);
+		output_set->row_set_mlpp_vector(i, row_tmp);
 	}
 
 	MLPPSoftmaxNet *model;
-- 
2.43.0


From a821dd188612e1ba5ea6cad70eb87f11776c5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 075/259] fix: weight initialisation divided integers, so most
 matrices came out all zero

---
 core/utilities.cpp | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 288ba48..e6363b6 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -50,22 +50,22 @@ std::vector<real_t> MLPPUtilities::weightInitialization(int n, std::string type)
 	std::vector<real_t> weights;
 	for (int i = 0; i < n; i++) {
 		if (type == "XavierNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + 1)));
+			std::normal_distribution<real_t> distribution(0, sqrt(2.0 / (n + 1)));
 			weights.push_back(distribution(generator));
 		} else if (type == "XavierUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + 1)), sqrt(6 / (n + 1)));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / (n + 1)), sqrt(6.0 / (n + 1)));
 			weights.push_back(distribution(generator));
 		} else if (type == "HeNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(2.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "HeUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / n), sqrt(6.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "LeCunNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(1.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "LeCunUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(3.0 / n), sqrt(3.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "Uniform") {
 			std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
@@ -96,22 +96,22 @@ std::vector<std::vector<real_t>> MLPPUtilities::weightInitialization(int n, int
 	for (int i = 0; i < n; i++) {
 		for (int j = 0; j < m; j++) {
 			if (type == "XavierNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+				std::normal_distribution<real_t> distribution(0, sqrt(2.0 / (n + m)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "XavierUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / (n + m)), sqrt(6.0 / (n + m)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "HeNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+				std::normal_distribution<real_t> distribution(0, sqrt(2.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "HeUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / n), sqrt(6.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "LeCunNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+				std::normal_distribution<real_t> distribution(0, sqrt(1.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "LeCunUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(3.0 / n), sqrt(3.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "Uniform") {
 				std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
@@ -233,49 +233,49 @@ void MLPPUtilities::weight_initializationm(Ref<MLPPMatrix> weights, WeightDistri
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(2.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(6.0 / (n + m)), Math::sqrt(6.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(2.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(6.0 / n), Math::sqrt(6.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(1.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(3.0 / n), Math::sqrt(3.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
+			std::uniform_real_distribution<real_t> distribution(-1.0 / Math::sqrt(static_cast<real_t>(n)), 1.0 / Math::sqrt(static_cast<real_t>(n)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
-- 
2.43.0


From 35743fa80b394dcd9d47b8a4e365d11c0d773b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 076/259] fix: weight initialisation scaled matrices by their
 outputs instead of their inputs

---
 core/utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index e6363b6..ed73853 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -213,8 +213,9 @@ void MLPPUtilities::weight_initializationv(Ref<MLPPVector> weights, WeightDistri
 void MLPPUtilities::weight_initializationm(Ref<MLPPMatrix> weights, WeightDistributionType type) {
 	ERR_FAIL_COND(!weights.is_valid());
 
-	int n = weights->size().x;
-	int m = weights->size().y;
+	// The weights of a layer have a row for each of its inputs.
+	int n = weights->size().y;
+	int m = weights->size().x;
 	int data_size = weights->data_size();
 	real_t *weights_ptr = weights->ptrw();
 
-- 
2.43.0


From 715697a2b2f33fed2757e6d14b604f6ab32f39c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 077/259] fix: bias_initializationv() threw its values away

---
 core/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index ed73853..37e7e7e 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -296,15 +296,15 @@ real_t MLPPUtilities::bias_initializationr() {
 void MLPPUtilities::bias_initializationv(Ref<MLPPVector> z) {
 	ERR_FAIL_COND(!z.is_valid());
 
-	std::vector<real_t> bias;
 	std::random_device rd;
 	std::default_random_engine generator(rd());
 	std::uniform_real_distribution<real_t> distribution(0, 1);
 
 	int n = z->size();
+	real_t *z_ptr = z->ptrw();
 
 	for (int i = 0; i < n; i++) {
-		bias.push_back(distribution(generator));
+		z_ptr[i] = distribution(generator);
 	}
 }
 
-- 
2.43.0


From a39e97009d9d4f389a3170442384215131e17d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 078/259] fix: mini-batches started at a multiple of the number
 of batches instead of their size

---
 core/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 37e7e7e..3ea8885 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -641,7 +641,7 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
@@ -728,7 +728,7 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 	CreateMiniBatchMMBatch ret;
 
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
-- 
2.43.0


From 69d0cd2ea1e559a1df400aa7d12b6bc51e467df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 079/259] fix: every mini-batch got the outputs of the first
 one

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 3ea8885..37322d2 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -692,7 +692,7 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 
-			current_output_set->element_set(j, output_set->element_get(j));
+			current_output_set->element_set(j, output_set->element_get(main_indx));
 		}
 
 		ret.input_sets.push_back(current_input_set);
-- 
2.43.0


From 9a5a9dbee7e45d122b480e690282b46688ba2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 080/259] fix: mini-batches left out the rows after the last
 full batch

---
 core/utilities.cpp | 47 ++++++++++++++--------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 37322d2..28124b5 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -642,11 +642,13 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last mini-batch takes the rows that are left over.
+		int current_element_count = i == n_mini_batch - 1 ? n - mini_batch_start_offset : mini_batch_element_count;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(size.x, current_element_count));
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			input_set->row_get_into_mlpp_vector(mini_batch_start_offset + j, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 		}
@@ -654,14 +656,6 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 		input_mini_batches.push_back(current_input_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return input_mini_batches;
 }
 MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const Ref<MLPPMatrix> &input_set, const Ref<MLPPVector> &output_set, int n_mini_batch) {
@@ -678,15 +672,17 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last mini-batch takes the rows that are left over.
+		int current_element_count = i == n_mini_batch - 1 ? n - mini_batch_start_offset : mini_batch_element_count;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(size.x, current_element_count));
 
 		Ref<MLPPVector> current_output_set;
 		current_output_set.instance();
-		current_output_set->resize(mini_batch_element_count);
+		current_output_set->resize(current_element_count);
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			int main_indx = mini_batch_start_offset + j;
 
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
@@ -699,15 +695,6 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 		ret.output_sets.push_back(current_output_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n / n_mini_batch * n_mini_batch + i]);
-			outputMiniBatches[n_mini_batch - 1].push_back(outputSet[n / n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return ret;
 }
 MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const Ref<MLPPMatrix> &input_set, const Ref<MLPPMatrix> &output_set, int n_mini_batch) {
@@ -729,15 +716,17 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last mini-batch takes the rows that are left over.
+		int current_element_count = i == n_mini_batch - 1 ? n - mini_batch_start_offset : mini_batch_element_count;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(input_set_size.x, current_element_count));
 
 		Ref<MLPPMatrix> current_output_set;
 		current_output_set.instance();
-		current_output_set->resize(Size2i(output_set_size.x, mini_batch_element_count));
+		current_output_set->resize(Size2i(output_set_size.x, current_element_count));
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			int main_indx = mini_batch_start_offset + j;
 
 			input_set->row_get_into_mlpp_vector(main_indx, input_row_tmp);
@@ -751,14 +740,6 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 		ret.output_sets.push_back(current_output_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n / n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return ret;
 }
 
-- 
2.43.0


From 1d1a30d0836cc530a114a96d3af1ebc21e1ecd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 081/259] fix: a trailing newline added a row to unsupervised
 data of one column

---
 core/data.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index 33dff52..dd923e7 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -321,7 +321,8 @@ void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMat
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
-		if (ll.size() < k) {
+		if (ll.size() < k || (ll.size() == 1 && ll[0].empty())) {
+			// Blank lines, like the one after a trailing newline, hold no sample.
 			continue;
 		}
 
-- 
2.43.0


From fd25b1d948eaf89ebdfabd26d4fda919c938794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 082/259] fix: the nearest neighbours stopped at the first
 sample once it was among them

---
 modules/knn/knn.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 33c5ef1..836f6a9 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -113,13 +113,18 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 
 	//Perfom this loop unless and until all k nearest neighbors are found, appended, and returned
 	for (int i = 0; i < _k; ++i) {
-		int neighbor = 0;
+		int neighbor = -1;
 
 		for (int j = 0; j < iuss; j++) {
 			if (skip_map.has(j)) {
 				continue;
 			}
 
+			if (neighbor == -1) {
+				neighbor = j;
+				continue;
+			}
+
 			_input_set->row_get_into_mlpp_vector(j, tmpv1);
 			_input_set->row_get_into_mlpp_vector(neighbor, tmpv2);
 
@@ -130,10 +135,13 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 			}
 		}
 
-		if (!skip_map.has(neighbor)) {
-			knn.push_back(neighbor);
-			skip_map.set(neighbor, true);
+		if (neighbor == -1) {
+			// There are fewer than k samples.
+			break;
 		}
+
+		knn.push_back(neighbor);
+		skip_map.set(neighbor, true);
 	}
 
 	return knn;
-- 
2.43.0


From 9a83dd5d3e93fb37dc6bdc5692295866ed1d7bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 083/259] fix: the nearest neighbours voted with their index
 instead of their class

---
 modules/knn/knn.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 836f6a9..d47d400 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -167,12 +167,7 @@ int MLPPKNN::determine_class(const PoolIntArray &knn) {
 	int knn_size = knn.size();
 
 	for (int i = 0; i < knn_size; ++i) {
-		for (int j = 0; j < output_set_size; j++) {
-			int opj = static_cast<int>(os_ptr[j]);
-			if (knn_ptr[i] == opj) {
-				class_nums[opj]++;
-			}
-		}
+		class_nums[static_cast<int>(os_ptr[knn_ptr[i]])]++;
 	}
 
 	int final_class = static_cast<int>(os_ptr[0]);
-- 
2.43.0


From c7e679777e814b5ff6a0d27c2cb381c60d220474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 084/259] fix: k-means assigned the rows of the training set
 count instead of the given rows, and none before training

---
 modules/kmeans/kmeans.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index f658e1b..8d8da78 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -81,11 +81,11 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	ERR_FAIL_COND_V(!X.is_valid(), Ref<MLPPMatrix>());
 	ERR_FAIL_COND_V(!_initialized, Ref<MLPPMatrix>());
 
-	int input_set_size_y = _input_set->size().y;
+	int x_size_y = X->size().y;
 
 	Ref<MLPPMatrix> closest_centroids;
 	closest_centroids.instance();
-	closest_centroids->resize(Size2i(_mu->size().x, input_set_size_y));
+	closest_centroids->resize(Size2i(_mu->size().x, x_size_y));
 
 	Ref<MLPPVector> closest_centroid;
 	closest_centroid.instance();
@@ -99,13 +99,13 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	tmp_mujv.instance();
 	tmp_mujv->resize(_mu->size().x);
 
-	int r0_size = _r->size().x;
+	int mu_size_y = _mu->size().y;
 
-	for (int i = 0; i < input_set_size_y; ++i) {
+	for (int i = 0; i < x_size_y; ++i) {
 		_mu->row_get_into_mlpp_vector(0, closest_centroid);
 		X->row_get_into_mlpp_vector(i, tmp_xiv);
 
-		for (int j = 0; j < r0_size; ++j) {
+		for (int j = 0; j < mu_size_y; ++j) {
 			_mu->row_get_into_mlpp_vector(j, tmp_mujv);
 
 			bool is_centroid_closer = tmp_xiv->euclidean_distance(tmp_mujv) < tmp_xiv->euclidean_distance(closest_centroid);
-- 
2.43.0


From 76d238ef41f9241ffc78acfccf84cf71f2afa1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 085/259] fix: k-means gave samples nearest to the first
 centroid to the cluster of the sample before

---
 modules/kmeans/kmeans.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 8d8da78..b360f9d 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -355,6 +355,7 @@ void MLPPKMeans::_evaluate() {
 		_input_set->row_get_into_mlpp_vector(i, input_set_i_tempv);
 
 		closest_centroid_current_dist = input_set_i_tempv->euclidean_distance(closest_centroid);
+		closest_centroid_index = 0;
 
 		for (int j = 0; j < r_size_x; ++j) {
 			_mu->row_get_into_mlpp_vector(j, mu_j_tempv);
-- 
2.43.0


From 6868cf56b19834d8769ab35624d74a9d2f729351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 086/259] fix: k-means updates failed unless there were as many
 clusters as features

---
 modules/kmeans/kmeans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index b360f9d..8965445 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -380,7 +380,7 @@ void MLPPKMeans::_compute_mu() {
 
 	Ref<MLPPVector> num;
 	num.instance();
-	num->resize(_r->size().x);
+	num->resize(_mu->size().x);
 
 	Ref<MLPPVector> input_set_j_tempv;
 	input_set_j_tempv.instance();
-- 
2.43.0


From 168431984c045e2df0fd4122ccdbfe3517436027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 087/259] fix: a k-means cluster that lost its last sample got
 a NaN centroid

---
 modules/kmeans/kmeans.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 8965445..b89a2b3 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -409,6 +409,11 @@ void MLPPKMeans::_compute_mu() {
 			den += r_j_i;
 		}
 
+		// A cluster without samples keeps its centroid.
+		if (den == 0) {
+			continue;
+		}
+
 		mu_tempv->scalar_multiplyb(real_t(1) / real_t(den), num);
 
 		_mu->row_set_mlpp_vector(i, mu_tempv);
-- 
2.43.0


From 7fa71d22b65fe627609aa3def9308e4d18704ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 088/259] fix: k-means++ left the last centroid unset and did
 not choose the farthest sample

---
 modules/kmeans/kmeans.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index b89a2b3..af4802f 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -471,11 +471,13 @@ void MLPPKMeans::_kmeanspp_initialization() {
 	farthest_centroid.instance();
 	farthest_centroid->resize(_input_set->size().x);
 
-	for (int i = 1; i < _k - 1; ++i) {
+	for (int i = 1; i < _k; ++i) {
+		// Negative, so that a sample is chosen even if all of them are the same.
+		real_t max_dist = -1;
+
 		for (int j = 0; j < input_set_size_y; ++j) {
 			_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
 
-			real_t max_dist = 0;
 			// SUM ALL THE SQUARED DISTANCES, CHOOSE THE ONE THAT'S FARTHEST
 			// AS TO SPREAD OUT THE CLUSTER CENTROIDS.
 			real_t sum = 0;
-- 
2.43.0


From bf68432bd0c5b22a9c0380705ce87b67e3e530bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 089/259] fix: the silhouette scores did not use the samples
 and sizes of the clusters

---
 modules/kmeans/kmeans.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index af4802f..f87c5f0 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -244,6 +244,7 @@ Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 
 		// COMPUTING a[i]
 		real_t a = 0;
+		int own_cluster_size = 1;
 		for (int j = 0; j < input_set_size_y; ++j) {
 			if (i == j) {
 				continue;
@@ -255,11 +256,18 @@ Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 				_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
 
 				a += input_set_i_tempv->euclidean_distance(input_set_j_tempv);
+				++own_cluster_size;
 			}
 		}
 
+		// The only sample of a cluster scores 0.
+		if (own_cluster_size == 1) {
+			silhouette_scores->element_set(i, 0);
+			continue;
+		}
+
 		// NORMALIZE a[i]
-		a /= closest_centroids->size().x - 1;
+		a /= own_cluster_size - 1;
 
 		closest_centroids->row_get_into_mlpp_vector(i, closest_centroids_i_tempv);
 
@@ -270,23 +278,20 @@ Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 
 			if (!closest_centroids_i_tempv->is_equal_approx(mu_j_tempv)) {
 				real_t sum = 0;
-				for (int k = 0; k < input_set_size_y; ++k) {
-					_input_set->row_get_into_mlpp_vector(k, input_set_k_tempv);
-
-					sum += input_set_i_tempv->euclidean_distance(input_set_k_tempv);
-				}
-
-				// NORMALIZE b[i]
 				real_t k_cluster_size = 0;
 				for (int k = 0; k < closest_centroids_size_y; ++k) {
-					_input_set->row_get_into_mlpp_vector(k, closest_centroids_k_tempv);
+					closest_centroids->row_get_into_mlpp_vector(k, closest_centroids_k_tempv);
 
 					if (closest_centroids_k_tempv->is_equal_approx(mu_j_tempv)) {
+						_input_set->row_get_into_mlpp_vector(k, input_set_k_tempv);
+
+						sum += input_set_i_tempv->euclidean_distance(input_set_k_tempv);
 						++k_cluster_size;
 					}
 				}
 
-				if (sum / k_cluster_size < b) {
+				// NORMALIZE b[i]
+				if (k_cluster_size > 0 && sum / k_cluster_size < b) {
 					b = sum / k_cluster_size;
 				}
 			}
-- 
2.43.0


From bd79765e45ee130d67d57bb51f6576d11c648368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 090/259] fix: Gaussian naive Bayes had no priors and mixed up
 features, classes and their densities

---
 modules/gaussian_nb/gaussian_nb.cpp | 94 ++++++++++-------------------
 modules/gaussian_nb/gaussian_nb.h   |  5 +-
 2 files changed, 34 insertions(+), 65 deletions(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index a4daf57..224f8bb 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -81,33 +81,29 @@ Ref<MLPPVector> MLPPGaussianNB::model_set_test(const Ref<MLPPMatrix> &X) {
 }
 
 real_t MLPPGaussianNB::model_test(const Ref<MLPPVector> &x) {
-	LocalVector<real_t> score;
-	score.resize(_class_num);
+	ERR_FAIL_COND_V(!_initialized, 0);
 
-	real_t y_hat_i = 1;
+	real_t max_score = -Math_INF;
+	int max_score_index = 0;
 
-	for (int i = _class_num - 1; i >= 0; i--) {
-		real_t sigma_i = _sigma->element_get(i);
-		real_t x_i = x->element_get(i);
-		real_t mu_i = _mu->element_get(i);
-
-		y_hat_i += Math::log(_priors->element_get(i) * (1 / Math::sqrt(2 * Math_PI * sigma_i * sigma_i)) * Math::exp(-(x_i * mu_i) * (x_i * mu_i) / (2 * sigma_i * sigma_i)));
-		score[i] = Math::exp(y_hat_i);
-	}
+	for (int i = 0; i < _class_num; i++) {
+		// log(Pr(C_i)) + sum(log(Pr(x_j | C_i))), without the constant part.
+		real_t score = Math::log(_priors->element_get(i));
 
-	real_t max_element = -Math_INF;
-	int max_element_index = 0;
+		for (int j = 0; j < x->size(); j++) {
+			real_t sigma_i_j = _sigma->element_get(i, j);
+			real_t z = (x->element_get(j) - _mu->element_get(i, j)) / sigma_i_j;
 
-	for (int i = 0; i < _class_num; ++i) {
-		real_t score_i = score[i];
+			score -= Math::log(sigma_i_j) + z * z / 2;
+		}
 
-		if (score_i > max_element) {
-			max_element = score_i;
-			max_element_index = i;
+		if (score > max_score) {
+			max_score = score;
+			max_score_index = i;
 		}
 	}
 
-	return max_element_index;
+	return max_score_index;
 }
 
 real_t MLPPGaussianNB::score() {
@@ -140,12 +136,13 @@ MLPPGaussianNB::MLPPGaussianNB(const Ref<MLPPMatrix> &p_input_set, const Ref<MLP
 	_y_hat.instance();
 	_y_hat->resize(_output_set->size());
 
-	evaluate();
-
 	_initialized = true;
+
+	evaluate();
 }
 
 MLPPGaussianNB::MLPPGaussianNB() {
+	_class_num = 0;
 	_initialized = false;
 }
 MLPPGaussianNB::~MLPPGaussianNB() {
@@ -154,28 +151,30 @@ MLPPGaussianNB::~MLPPGaussianNB() {
 void MLPPGaussianNB::evaluate() {
 	MLPPStat stat;
 
+	Size2i input_set_size = _input_set->size();
+
 	// Computing mu_k_y and sigma_k_y
-	_mu->resize(_class_num);
-	_sigma->resize(_class_num);
+	_mu->resize(Size2i(input_set_size.x, _class_num));
+	_sigma->resize(Size2i(input_set_size.x, _class_num));
 
 	Ref<MLPPVector> set_vec;
 	set_vec.instance();
 
 	for (int i = _class_num - 1; i >= 0; i--) {
-		PoolRealArray set;
+		for (int k = 0; k < input_set_size.x; k++) {
+			PoolRealArray set;
 
-		for (int j = 0; j < _input_set->size().y; j++) {
-			for (int k = 0; k < _input_set->size().x; k++) {
+			for (int j = 0; j < input_set_size.y; j++) {
 				if (_output_set->element_get(j) == i) {
 					set.push_back(_input_set->element_get(j, k));
 				}
 			}
-		}
 
-		set_vec->set_from_pool_vector(set);
+			set_vec->set_from_pool_vector(set);
 
-		_mu->element_set(i, stat.meanv(set_vec));
-		_sigma->element_set(i, stat.standard_deviationv(set_vec));
+			_mu->element_set(i, k, stat.meanv(set_vec));
+			_sigma->element_set(i, k, stat.standard_deviationv(set_vec));
+		}
 	}
 
 	// Priors
@@ -183,43 +182,12 @@ void MLPPGaussianNB::evaluate() {
 	_priors->fill(0);
 	for (int i = 0; i < _output_set->size(); i++) {
 		int indx = static_cast<int>(_output_set->element_get(i));
-		_priors->element_set(indx, _priors->element_get(indx));
+		_priors->element_set(indx, _priors->element_get(indx) + 1);
 	}
 
 	_priors->scalar_multiply(real_t(1) / real_t(_output_set->size()));
 
-	for (int i = 0; i < _output_set->size(); i++) {
-		LocalVector<real_t> score;
-		score.resize(_class_num);
-
-		real_t y_hat_i = 1;
-
-		for (int j = _class_num - 1; j >= 0; j--) {
-			for (int k = 0; k < _input_set->size().x; k++) {
-				real_t sigma_j = _sigma->element_get(j);
-				real_t mu_j = _mu->element_get(j);
-				real_t input_set_i_k = _input_set->element_get(i, k);
-
-				y_hat_i += Math::log(_priors->element_get(j) * (1 / Math::sqrt(2 * Math_PI * sigma_j * sigma_j)) * Math::exp(-(input_set_i_k * mu_j) * (input_set_i_k * mu_j) / (2 * sigma_j * sigma_j)));
-			}
-
-			score[j] = Math::exp(y_hat_i);
-		}
-
-		real_t max_element = -Math_INF;
-		int max_element_index = 0;
-
-		for (int ii = 0; ii < _class_num; ++ii) {
-			real_t score_ii = score[ii];
-
-			if (score_ii > max_element) {
-				max_element = score_ii;
-				max_element_index = ii;
-			}
-		}
-
-		_y_hat->element_set(i, max_element_index);
-	}
+	_y_hat = model_set_test(_input_set);
 }
 
 void MLPPGaussianNB::_bind_methods() {
diff --git a/modules/gaussian_nb/gaussian_nb.h b/modules/gaussian_nb/gaussian_nb.h
index 4ece7dd..2183200 100644
--- a/modules/gaussian_nb/gaussian_nb.h
+++ b/modules/gaussian_nb/gaussian_nb.h
@@ -78,8 +78,9 @@ protected:
 	int _class_num;
 
 	Ref<MLPPVector> _priors;
-	Ref<MLPPVector> _mu;
-	Ref<MLPPVector> _sigma;
+	// A row for each class, a column for each feature.
+	Ref<MLPPMatrix> _mu;
+	Ref<MLPPMatrix> _sigma;
 
 	Ref<MLPPMatrix> _input_set;
 	Ref<MLPPVector> _output_set;
-- 
2.43.0


From dbcff6a5bb0b0a1ff43e3328851187928a97e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 091/259] fix: multinomial naive Bayes had no vocabulary, wrong
 priors and word frequencies rounded to zero

---
 modules/multinomial_nb/multinomial_nb.cpp | 94 +++++++++--------------
 modules/multinomial_nb/multinomial_nb.h   |  3 +-
 2 files changed, 39 insertions(+), 58 deletions(-)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index 0f63f0d..9beb679 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -99,7 +99,9 @@ real_t MLPPMultinomialNB::model_test(const Ref<MLPPVector> &x) {
 	LocalVector<real_t> score;
 	score.resize(_class_num);
 
-	compute_theta();
+	for (uint32_t i = 0; i < score.size(); ++i) {
+		score[i] = 0;
+	}
 
 	int vocab_size = _vocab->size();
 
@@ -180,6 +182,25 @@ MLPPMultinomialNB::MLPPMultinomialNB() {
 MLPPMultinomialNB::~MLPPMultinomialNB() {
 }
 
+void MLPPMultinomialNB::compute_vocab() {
+	HashMap<real_t, bool> found;
+
+	Size2i input_set_size = _input_set->size();
+
+	_vocab->clear();
+
+	for (int i = 0; i < input_set_size.y; i++) {
+		for (int j = 0; j < input_set_size.x; j++) {
+			real_t input_set_i_j = _input_set->element_get(i, j);
+
+			if (!found.has(input_set_i_j)) {
+				found.set(input_set_i_j, true);
+				_vocab->push_back(input_set_i_j);
+			}
+		}
+	}
+}
+
 void MLPPMultinomialNB::compute_theta() {
 	// Resizing theta for the sake of ease & proper access of the elements.
 	_theta.resize(_class_num);
@@ -202,74 +223,33 @@ void MLPPMultinomialNB::compute_theta() {
 	}
 
 	for (int i = 0; i < _theta.size(); i++) {
-		uint32_t theta_i_size = _theta[i].size();
-
-		for (uint32_t j = 0; j < theta_i_size; j++) {
-			_theta.write[i][j] /= _priors->element_get(i) * _y_hat->size();
+		for (int j = 0; j < vocab_size; j++) {
+			_theta.write[i][_vocab->element_get(j)] /= _priors->element_get(i) * _y_hat->size();
 		}
 	}
 }
 
 void MLPPMultinomialNB::evaluate() {
 	int output_set_size = _output_set->size();
-	Size2i input_set_size = _input_set->size();
 
+	// Easy computation of priors, i.e. Pr(C_k)
+	_priors->resize(_class_num);
+	_priors->fill(0);
 	for (int i = 0; i < output_set_size; i++) {
-		// Pr(B | A) * Pr(A)
-		LocalVector<real_t> score;
-		score.resize(_class_num);
-
-		// Easy computation of priors, i.e. Pr(C_k)
-		_priors->resize(_class_num);
-		for (int ii = 0; ii < _output_set->size(); ii++) {
-			int osii = static_cast<int>(_output_set->element_get(ii));
-			_priors->element_set(osii, _priors->element_get(osii) + 1);
-		}
-
-		_priors->scalar_multiply(real_t(1) / real_t(output_set_size));
-
-		// Evaluating Theta...
-		compute_theta();
-
-		for (int j = 0; j < input_set_size.y; j++) {
-			for (int k = 0; k < _vocab->size(); k++) {
-				real_t input_set_i_j = _input_set->element_get(i, j);
-				real_t vocab_k = _vocab->element_get(k);
-
-				if (Math::is_equal_approx(input_set_i_j, vocab_k)) {
-					real_t theta_i_k = _theta[i][vocab_k];
-					theta_i_k = Math::log(theta_i_k);
-
-					for (int p = _class_num - 1; p >= 0; p--) {
-						score[p] += theta_i_k;
-					}
-				}
-			}
-		}
-
-		int priors_size = _priors->size();
-
-		for (int ii = 0; ii < priors_size; ii++) {
-			score[ii] += Math::log(_priors->element_get(ii));
-			score[ii] = Math::exp(score[ii]);
-		}
-
-		// Assigning the traning example's y_hat to a class
+		int osi = static_cast<int>(_output_set->element_get(i));
+		_priors->element_set(osi, _priors->element_get(osi) + 1);
+	}
 
-		int max_index = 0;
-		real_t max_element = score[0];
+	_priors->scalar_multiply(real_t(1) / real_t(output_set_size));
 
-		for (uint32_t ii = 1; ii < score.size(); ++ii) {
-			real_t si = score[ii];
+	// Evaluating the vocab set...
+	compute_vocab();
 
-			if (si > max_element) {
-				max_index = ii;
-				max_element = si;
-			}
-		}
+	// Evaluating Theta...
+	compute_theta();
 
-		_y_hat->element_set(i, max_index);
-	}
+	// Assigning the traning examples' y_hat to a class
+	_y_hat = model_set_test(_input_set);
 }
 
 void MLPPMultinomialNB::_bind_methods() {
diff --git a/modules/multinomial_nb/multinomial_nb.h b/modules/multinomial_nb/multinomial_nb.h
index 7d447ab..1c8d3f7 100644
--- a/modules/multinomial_nb/multinomial_nb.h
+++ b/modules/multinomial_nb/multinomial_nb.h
@@ -71,6 +71,7 @@ public:
 	~MLPPMultinomialNB();
 
 protected:
+	void compute_vocab();
 	void compute_theta();
 	void evaluate();
 
@@ -79,7 +80,7 @@ protected:
 	// Model Params
 	Ref<MLPPVector> _priors;
 
-	Vector<HashMap<real_t, int>> _theta;
+	Vector<HashMap<real_t, real_t>> _theta;
 	Ref<MLPPVector> _vocab;
 	int _class_num;
 
-- 
2.43.0


From f32131c2cc7075a084a1b1581dfe8045cfe0db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 092/259] fix: Bernoulli naive Bayes rounded word frequencies
 to zero, divided them by index and had none for the first sample

---
 modules/bernoulli_nb/bernoulli_nb.cpp | 152 +++++++++++---------------
 modules/bernoulli_nb/bernoulli_nb.h   |   2 +-
 2 files changed, 64 insertions(+), 90 deletions(-)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index aa634cc..ee27d1b 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -29,7 +29,6 @@
 /*************************************************************************/
 
 #include "bernoulli_nb.h"
-#include "../core/data.h"
 #include "../core/utilities.h"
 
 #include <iostream>
@@ -54,38 +53,29 @@ Ref<MLPPVector> MLPPBernoulliNB::model_set_test(const Ref<MLPPMatrix> &X) {
 }
 
 real_t MLPPBernoulliNB::model_test(const Ref<MLPPVector> &x) {
-	real_t score_0 = 1;
-	real_t score_1 = 1;
-
-	Vector<int> found_indices;
-
-	for (int j = 0; j < x->size(); j++) {
-		for (int k = 0; k < _vocab->size(); k++) {
-			if (x->element_get(j) == _vocab->element_get(k)) {
-				score_0 *= _theta[0][_vocab->element_get(k)];
-				score_1 *= _theta[1][_vocab->element_get(k)];
-
-				found_indices.push_back(k);
-			}
-		}
-	}
+	// Pr(B | A) * Pr(A)
+	real_t score_0 = _prior_0;
+	real_t score_1 = _prior_1;
 
 	for (int i = 0; i < _vocab->size(); i++) {
+		real_t vocab_i = _vocab->element_get(i);
+
 		bool found = false;
-		for (int j = 0; j < found_indices.size(); j++) {
-			if (_vocab->element_get(i) == _vocab->element_get(found_indices[j])) {
+		for (int j = 0; j < x->size(); j++) {
+			if (x->element_get(j) == vocab_i) {
 				found = true;
 			}
 		}
-		if (!found) {
-			score_0 *= 1 - _theta[0][_vocab->element_get(i)];
-			score_1 *= 1 - _theta[1][_vocab->element_get(i)];
+
+		if (found) {
+			score_0 *= _theta[0][vocab_i];
+			score_1 *= _theta[1][vocab_i];
+		} else {
+			score_0 *= 1 - _theta[0][vocab_i];
+			score_1 *= 1 - _theta[1][vocab_i];
 		}
 	}
 
-	score_0 *= _prior_0;
-	score_1 *= _prior_1;
-
 	// Assigning the traning example to a class
 
 	if (score_0 > score_1) {
@@ -118,6 +108,8 @@ MLPPBernoulliNB::MLPPBernoulliNB(const Ref<MLPPMatrix> &p_input_set, const Ref<M
 }
 
 MLPPBernoulliNB::MLPPBernoulliNB() {
+	_class_num = 2;
+
 	_prior_1 = 0;
 	_prior_0 = 0;
 }
@@ -125,9 +117,20 @@ MLPPBernoulliNB::~MLPPBernoulliNB() {
 }
 
 void MLPPBernoulliNB::compute_vocab() {
-	MLPPData data;
+	HashMap<real_t, bool> found;
 
-	_vocab = data.vec_to_setnv(_input_set->flatten());
+	_vocab->clear();
+
+	for (int i = 0; i < _input_set->size().y; i++) {
+		for (int j = 0; j < _input_set->size().x; j++) {
+			real_t input_set_i_j = _input_set->element_get(i, j);
+
+			if (!found.has(input_set_i_j)) {
+				found.set(input_set_i_j, true);
+				_vocab->push_back(input_set_i_j);
+			}
+		}
+	}
 }
 
 void MLPPBernoulliNB::compute_theta() {
@@ -141,86 +144,57 @@ void MLPPBernoulliNB::compute_theta() {
 		}
 	}
 
+	real_t class_sizes[2] = { 0, 0 };
+
 	for (int i = 0; i < _input_set->size().y; i++) {
+		int osi = static_cast<int>(_output_set->element_get(i));
+
+		++class_sizes[osi];
+
+		// A word counts once for each sample that contains it.
+		HashMap<real_t, bool> found;
+
 		for (int j = 0; j < _input_set->size().x; j++) {
-			_theta.write[_output_set->element_get(i)][_input_set->element_get(i, j)]++;
+			real_t input_set_i_j = _input_set->element_get(i, j);
+
+			if (!found.has(input_set_i_j)) {
+				found.set(input_set_i_j, true);
+				_theta.write[osi][input_set_i_j]++;
+			}
 		}
 	}
 
 	for (int i = 0; i < _theta.size(); i++) {
-		for (uint32_t j = 0; j < _theta[i].size(); j++) {
-			if (i == 0) {
-				_theta.write[i][j] /= _prior_0 * _y_hat->size();
-			} else {
-				_theta.write[i][j] /= _prior_1 * _y_hat->size();
-			}
+		if (class_sizes[i] == 0) {
+			continue;
+		}
+
+		for (int j = 0; j < _vocab->size(); j++) {
+			_theta.write[i][_vocab->element_get(j)] /= class_sizes[i];
 		}
 	}
 }
 
 void MLPPBernoulliNB::evaluate() {
+	real_t sum = 0;
 	for (int i = 0; i < _output_set->size(); i++) {
-		// Pr(B | A) * Pr(A)
-		real_t score_0 = 1;
-		real_t score_1 = 1;
-
-		real_t sum = 0;
-		for (int ii = 0; ii < _output_set->size(); ii++) {
-			if (_output_set->element_get(ii) == 1) {
-				sum += 1;
-			}
-		}
-
-		// Easy computation of priors, i.e. Pr(C_k)
-		_prior_1 = sum / _y_hat->size();
-		_prior_0 = 1 - _prior_1;
-
-		// Evaluating Theta...
-		compute_theta();
-
-		// Evaluating the vocab set...
-		compute_vocab();
-
-		Vector<int> found_indices;
-
-		for (int j = 0; j < _input_set->size().x; j++) {
-			for (int k = 0; k < _vocab->size(); k++) {
-				if (_input_set->element_get(i, j) == _vocab->element_get(k)) {
-					score_0 += Math::log(static_cast<real_t>(_theta[0][_vocab->element_get(k)]));
-					score_1 += Math::log(static_cast<real_t>(_theta[1][_vocab->element_get(k)]));
-
-					found_indices.push_back(k);
-				}
-			}
-		}
-
-		for (int ii = 0; ii < _vocab->size(); ii++) {
-			bool found = false;
-			for (int j = 0; j < found_indices.size(); j++) {
-				if (_vocab->element_get(ii) == _vocab->element_get(found_indices[j])) {
-					found = true;
-				}
-			}
-			if (!found) {
-				score_0 += Math::log(1.0 - _theta[0][_vocab->element_get(ii)]);
-				score_1 += Math::log(1.0 - _theta[1][_vocab->element_get(ii)]);
-			}
+		if (_output_set->element_get(i) == 1) {
+			sum += 1;
 		}
+	}
 
-		score_0 += Math::log(_prior_0);
-		score_1 += Math::log(_prior_1);
+	// Easy computation of priors, i.e. Pr(C_k)
+	_prior_1 = sum / _output_set->size();
+	_prior_0 = 1 - _prior_1;
 
-		score_0 = Math::exp(score_0);
-		score_1 = Math::exp(score_1);
+	// Evaluating the vocab set...
+	compute_vocab();
 
-		// Assigning the traning example to a class
+	// Evaluating Theta...
+	compute_theta();
 
-		if (score_0 > score_1) {
-			_y_hat->element_set(i, 0);
-		} else {
-			_y_hat->element_set(i, 1);
-		}
-	}
+	// Assigning the traning examples to a class
+	_y_hat = model_set_test(_input_set);
 }
 
 void MLPPBernoulliNB::_bind_methods() {
diff --git a/modules/bernoulli_nb/bernoulli_nb.h b/modules/bernoulli_nb/bernoulli_nb.h
index 810778e..fab859b 100644
--- a/modules/bernoulli_nb/bernoulli_nb.h
+++ b/modules/bernoulli_nb/bernoulli_nb.h
@@ -69,7 +69,7 @@ protected:
 	real_t _prior_1;
 	real_t _prior_0;
 
-	Vector<HashMap<real_t, int>> _theta;
+	Vector<HashMap<real_t, real_t>> _theta;
 	Ref<MLPPVector> _vocab;
 	int _class_num;
 
-- 
2.43.0


From 308c301870eb5d60696575e521a50edb1130847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 093/259] fix: integer division made the linear regression
 optimisers' gradients zero

---
 modules/lin_reg/lin_reg.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 73a1243..52dd5bb 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -310,7 +310,7 @@ void MLPPLinReg::momentum(real_t learning_rate, int max_epoch, int mini_batch_si
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
@@ -366,7 +366,7 @@ void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -419,7 +419,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -472,7 +472,7 @@ void MLPPLinReg::adadelta(real_t learning_rate, int max_epoch, int mini_batch_si
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -525,7 +525,7 @@ void MLPPLinReg::adam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -582,7 +582,7 @@ void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -639,7 +639,7 @@ void MLPPLinReg::nadam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-- 
2.43.0


From 2f58eb3594e775c3e445448488fc33974cfcd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 094/259] fix: linear regression's nag applied the momentum
 twice

---
 modules/lin_reg/lin_reg.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 52dd5bb..6290ddf 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -372,7 +372,8 @@ void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			v = v->scalar_multiplyn(gamma)->addn(weight_grad->scalar_multiplyn(learning_rate));
 
-			_weights->sub(v);
+			// The part that comes from the momentum is already there.
+			_weights->sub(weight_grad->scalar_multiplyn(learning_rate));
 
 			// Calculating the bias gradients
 			_bias -= learning_rate * error->sum_elements() / current_output_mini_batch->size(); // As normal
-- 
2.43.0


From 106f979fdec6c36b6d6f905ff108d6615e9cef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 095/259] fix: linear regression's adagrad did not accumulate
 the squared gradients

---
 modules/lin_reg/lin_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 6290ddf..648916e 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -424,7 +424,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-			v = weight_grad->hadamard_productn(weight_grad);
+			v = v->addn(weight_grad->hadamard_productn(weight_grad));
 			_weights->sub(weight_grad->division_element_wisen(v->scalar_addn(e)->sqrtn())->scalar_multiplyn(learning_rate));
 
 			// Calculating the bias gradients
-- 
2.43.0


From ef8acb20f694a0a91f36d725b7fd874ebf2c2e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 096/259] fix: linear regression's nadam did not correct the
 bias of the momentum

---
 modules/lin_reg/lin_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 648916e..0802b67 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -647,9 +647,9 @@ void MLPPLinReg::nadam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			m = m->scalar_multiplyn(b1)->addn(weight_grad->scalar_multiplyn(1 - b1));
 			v = v->scalar_multiplyn(b2)->addn(weight_grad->exponentiaten(2)->scalar_multiplyn(1 - b2));
 
-			m_final = m->scalar_multiplyn(b1)->addn(weight_grad->scalar_multiplyn((1 - b1) / (1 - Math::pow(b1, epoch))));
-
 			Ref<MLPPVector> m_hat = m->scalar_multiplyn(1 / (1 - Math::pow(b1, epoch)));
+			m_final = m_hat->scalar_multiplyn(b1)->addn(weight_grad->scalar_multiplyn((1 - b1) / (1 - Math::pow(b1, epoch))));
+
 			Ref<MLPPVector> v_hat = v->scalar_multiplyn(1 / (1 - Math::pow(b2, epoch)));
 
 			_weights->sub(m_final->division_element_wisen(v_hat->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate));
-- 
2.43.0


From dc42519c310aa466dc6b29c3806bacec66e972c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 097/259] fix: linear regression rounded its regularisation
 parameters to integers

---
 modules/lin_reg/lin_reg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/lin_reg/lin_reg.h b/modules/lin_reg/lin_reg.h
index 5390364..d755bfd 100644
--- a/modules/lin_reg/lin_reg.h
+++ b/modules/lin_reg/lin_reg.h
@@ -115,8 +115,8 @@ protected:
 
 	// Regularization Params
 	MLPPReg::RegularizationType _reg;
-	int _lambda;
-	int _alpha; /* This is the controlling param for Elastic Net*/
+	real_t _lambda;
+	real_t _alpha; /* This is the controlling param for Elastic Net*/
 
 	bool _initialized;
 };
-- 
2.43.0


From af52e08723ecb947ef4491e8492636bfbc53ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 098/259] fix: linear regression's sgd reported the cost of the
 expected output

---
 modules/lin_reg/lin_reg.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 0802b67..d800d9e 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -208,7 +208,7 @@ void MLPPLinReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		output_set_row_tmp->element_set(0, output_element_set);
 
 		real_t y_hat = evaluatev(input_set_row_tmp);
-		y_hat_tmp->element_set(0, output_element_set);
+		y_hat_tmp->element_set(0, y_hat);
 
 		cost_prev = cost(y_hat_tmp, output_set_row_tmp);
 
@@ -222,6 +222,7 @@ void MLPPLinReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias -= learning_rate * error;
 
 		y_hat = evaluatev(input_set_row_tmp);
+		y_hat_tmp->element_set(0, y_hat);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_tmp, output_set_row_tmp));
-- 
2.43.0


From 875ef6b85d19fedbe9e1ba8550e893a886dc7793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 099/259] fix: maximum likelihood of the complementary log-log
 regression went uphill

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index eef50ca..5d831b8 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -93,7 +93,7 @@ void MLPPCLogLogReg::mle(real_t learning_rate, int max_epoch, bool ui) {
 	while (true) {
 		cost_prev = cost(_y_hat, _output_set);
 
-		Ref<MLPPVector> error = _y_hat->subn(_output_set);
+		Ref<MLPPVector> error = _output_set->subn(_y_hat);
 
 		_weights->add(_input_set->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(_z)))->scalar_multiplyn(learning_rate / _n));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From fb6877696be7eae0f721f28ec72d0b4c19008c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 100/259] fix: mini-batches of the complementary log-log
 regression were averaged over the whole data set

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index 5d831b8..dd527e0 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -203,12 +203,12 @@ void MLPPCLogLogReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_si
 			Ref<MLPPVector> error = y_hat->subn(current_output_batch);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input_batch->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(z)))->scalar_multiplyn(learning_rate / _n));
+			_weights->sub(current_input_batch->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(z)))->scalar_multiplyn(learning_rate / current_output_batch->size()));
 
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
-			bias -= learning_rate * error->hadamard_productn(avn.cloglog_derivv(z))->sum_elements() / _n;
+			bias -= learning_rate * error->hadamard_productn(avn.cloglog_derivv(z))->sum_elements() / current_output_batch->size();
 
 			forward_pass();
 
-- 
2.43.0


From d3faa66bb1a584c5d86779b84c0839fb321591e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 101/259] fix: mini-batches of the probit regression used the
 outputs as inputs and could not be trained on

---
 modules/probit_reg/probit_reg.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 56aab86..0fbc478 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -275,10 +275,6 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 	int epoch = 1;
 	int n = _input_set->size().y;
 
-	Ref<MLPPVector> z_tmp;
-	z_tmp.instance();
-	z_tmp->resize(1);
-
 	// Creating the mini-batches
 	int n_mini_batch = n / mini_batch_size;
 
@@ -290,22 +286,21 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 			Ref<MLPPVector> current_output = batches.output_sets[i];
 
 			Ref<MLPPVector> y_hat = evaluatem(current_input);
-			real_t z = propagatev(current_output);
+			Ref<MLPPVector> z = propagatem(current_input);
 
-			z_tmp->element_set(0, z);
 
 			cost_prev = cost(y_hat, current_output);
 
 			Ref<MLPPVector> error = y_hat->subn(current_output);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp)))->scalar_multiplyn(learning_rate / batches.input_sets.size()));
+			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z)))->scalar_multiplyn(learning_rate / current_output->size()));
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
 
-			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp))->sum_elements() / batches.input_sets.size();
-			y_hat = evaluatev(current_input);
+			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z))->sum_elements() / current_output->size();
+			y_hat = evaluatem(current_input);
 
 			if (ui) {
 				MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, current_output));
-- 
2.43.0


From 331219f21a819f0d526a2a7535ef34681c51c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 102/259] fix: stochastic gradient descent of the tanh
 regression did not change the weights

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 623b632..02ec3e1 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -245,7 +245,7 @@ void MLPPTanhReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t error = y_hat - output_set_entry;
 
 		// Weight Updation
-		_weights->subn(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
+		_weights->sub(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 		// Bias updation
-- 
2.43.0


From f5f3eb161ff2d1ae33219bc788f2a88a1e4c5f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 103/259] fix: mini-batches of the tanh regression used the
 whole data set's slopes and size

---
 modules/tanh_reg/tanh_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 02ec3e1..a69b375 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -297,11 +297,11 @@ void MLPPTanhReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch
 
 			// Calculating the weight gradients
 
-			_weights->sub(current_input_batch_entry->transposen()->mult_vec(error->hadamard_productn(avn.tanh_derivv(z)))->scalar_multiplyn(learning_rate / n));
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(error->hadamard_productn(avn.tanh_derivv(z)))->scalar_multiplyn(learning_rate / current_output_batch_entry->size()));
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(_z))->sum_elements() / n;
+			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(z))->sum_elements() / current_output_batch_entry->size();
 
 			forward_pass();
 
-- 
2.43.0


From 34b6395952b7a74fc3e87dab918edc9a4144a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 104/259] fix: the tanh regression's output set could only be
 set to a matrix, which it is not

---
 modules/tanh_reg/tanh_reg.cpp | 6 +++---
 modules/tanh_reg/tanh_reg.h   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index a69b375..c478220 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -44,10 +44,10 @@ void MLPPTanhReg::set_input_set(const Ref<MLPPMatrix> &val) {
 	_input_set = val;
 }
 
-Ref<MLPPMatrix> MLPPTanhReg::get_output_set() const {
+Ref<MLPPVector> MLPPTanhReg::get_output_set() const {
 	return _output_set;
 }
-void MLPPTanhReg::set_output_set(const Ref<MLPPMatrix> &val) {
+void MLPPTanhReg::set_output_set(const Ref<MLPPVector> &val) {
 	_output_set = val;
 }
 
@@ -403,7 +403,7 @@ void MLPPTanhReg::_bind_methods() {
 
 	ClassDB::bind_method(D_METHOD("get_output_set"), &MLPPTanhReg::get_output_set);
 	ClassDB::bind_method(D_METHOD("set_output_set", "val"), &MLPPTanhReg::set_output_set);
-	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output_set", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_output_set", "get_output_set");
+	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output_set", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "set_output_set", "get_output_set");
 
 	ClassDB::bind_method(D_METHOD("get_reg"), &MLPPTanhReg::get_reg);
 	ClassDB::bind_method(D_METHOD("set_reg", "val"), &MLPPTanhReg::set_reg);
diff --git a/modules/tanh_reg/tanh_reg.h b/modules/tanh_reg/tanh_reg.h
index bc30180..ddea86a 100644
--- a/modules/tanh_reg/tanh_reg.h
+++ b/modules/tanh_reg/tanh_reg.h
@@ -51,8 +51,8 @@ public:
 	Ref<MLPPMatrix> get_input_set() const;
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
-	Ref<MLPPMatrix> get_output_set() const;
-	void set_output_set(const Ref<MLPPMatrix> &val);
+	Ref<MLPPVector> get_output_set() const;
+	void set_output_set(const Ref<MLPPVector> &val);
 
 	MLPPReg::RegularizationType get_reg() const;
 	void set_reg(const MLPPReg::RegularizationType val);
-- 
2.43.0


From ad66ea5d4a30dc463b850c7407968dd9b427f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 105/259] fix: the output set of the support vector classifier
 could only be set to a matrix, which it is not

---
 modules/svc/svc.cpp | 2 +-
 modules/svc/svc.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index edda1df..c9fe4b0 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -48,7 +48,7 @@ void MLPPSVC::set_input_set(const Ref<MLPPMatrix> &val) {
 Ref<MLPPVector> MLPPSVC::get_output_set() const {
 	return _output_set;
 }
-void MLPPSVC::set_output_set(const Ref<MLPPMatrix> &val) {
+void MLPPSVC::set_output_set(const Ref<MLPPVector> &val) {
 	_output_set = val;
 }
 
diff --git a/modules/svc/svc.h b/modules/svc/svc.h
index 7e4290c..a1062ba 100644
--- a/modules/svc/svc.h
+++ b/modules/svc/svc.h
@@ -55,7 +55,7 @@ public:
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
 	Ref<MLPPVector> get_output_set() const;
-	void set_output_set(const Ref<MLPPMatrix> &val);
+	void set_output_set(const Ref<MLPPVector> &val);
 
 	real_t get_c() const;
 	void set_c(const real_t val);
-- 
2.43.0


From 43c9ccfb2f058173b2f496a38da71e9c3c1d886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 106/259] fix: the gradients of the exponential regression left
 out the initial values

---
 modules/exp_reg/exp_reg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 5ca6a13..7e1effb 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -62,7 +62,7 @@ void MLPPExpReg::gradient_descent(real_t learning_rate, int max_epoch, bool ui)
 			// Calculating the weight gradient
 			real_t sum = 0;
 			for (int j = 0; j < _n; j++) {
-				sum += error->element_get(j) * _input_set->element_get(j, i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
+				sum += error->element_get(j) * _initial->element_get(i) * _input_set->element_get(j, i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
 			}
 			real_t w_gradient = sum / _n;
 
@@ -143,7 +143,7 @@ void MLPPExpReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		for (int i = 0; i < _k; i++) {
 			// Calculating the weight gradients
 
-			real_t w_gradient = (y_hat - output_element_set) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
+			real_t w_gradient = (y_hat - output_element_set) * _initial->element_get(i) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
 			real_t i_gradient = (y_hat - output_element_set) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i));
 
 			// Weight/initial updation
@@ -198,7 +198,7 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				// Calculating the weight gradient
 				real_t sum = 0;
 				for (int k = 0; k < current_output_batch->size(); k++) {
-					sum += error->element_get(k) * current_input_batch->element_get(k, j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
+					sum += error->element_get(k) * _initial->element_get(j) * current_input_batch->element_get(k, j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
 				}
 				real_t w_gradient = sum / current_output_batch->size();
 
-- 
2.43.0


From a38ef7a4fbb3e4a04896f3c63a327d4256ac0a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 107/259] fix: mini-batches of the exponential regression
 changed the wrong weights

---
 modules/exp_reg/exp_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 7e1effb..327868a 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -211,8 +211,8 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				real_t i_gradient = sum2 / current_output_batch->size();
 
 				// Weight/initial updation
-				_weights->element_set(i, _weights->element_get(i) - learning_rate * w_gradient);
-				_initial->element_set(i, _initial->element_get(i) - learning_rate * i_gradient);
+				_weights->element_set(j, _weights->element_get(j) - learning_rate * w_gradient);
+				_initial->element_set(j, _initial->element_get(j) - learning_rate * i_gradient);
 			}
 
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From f1c0c0a367889dc0cc163067b77cfc5592db3abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 108/259] fix: mini-batches of the exponential regression did
 not train the bias

---
 modules/exp_reg/exp_reg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 327868a..291bdd9 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -217,6 +217,9 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
+			// Calculating the bias gradients
+			_bias -= learning_rate * error->sum_elements() / current_output_batch->size();
+
 			// Calculating the bias gradient
 			//real_t sum = 0;
 			//for (int j = 0; j < current_output_batch->size(); j++) {
-- 
2.43.0


From 3d5954d5d58df3b19e4d04c20cac24aa819f1418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 109/259] fix: stochastic gradient descent of the softmax
 regression evaluated an output as an input

---
 modules/softmax_reg/softmax_reg.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index 5109514..d632253 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -208,7 +208,8 @@ void MLPPSoftmaxReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		// Bias updation
 		_bias->sub(b_gradient->scalar_multiplyn(learning_rate));
 
-		y_hat = evaluatev(output_set_row_tmp);
+		y_hat = evaluatev(input_set_row_tmp);
+		y_hat_matrix_tmp->row_set_mlpp_vector(0, y_hat);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_matrix_tmp, output_set_row_matrix_tmp));
-- 
2.43.0


From 5ce6c65b3032758342e74a0068156be4b700bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 110/259] fix: gradient descent of the support vector
 classifier moved the bias uphill, by the loss of the classes instead of the
 margins

---
 modules/svc/svc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index c9fe4b0..29f2805 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -115,19 +115,19 @@ void MLPPSVC::train_gradient_descent(real_t learning_rate, int max_epoch, bool u
 	forward_pass();
 
 	while (true) {
-		cost_prev = cost(_y_hat, _output_set, _weights, _c);
+		cost_prev = cost(_z, _output_set, _weights, _c);
 
 		_weights->sub(_input_set->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(_z, _output_set, _c))->scalar_multiplyn(learning_rate / n));
 		_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 		// Calculating the bias gradients
-		_bias += learning_rate * mlpp_cost.hinge_loss_derivwv(_y_hat, _output_set, _c)->sum_elements() / n;
+		_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(_z, _output_set, _c)->sum_elements() / n;
 
 		forward_pass();
 
 		// UI PORTION
 		if (ui) {
-			MLPPUtilities::cost_info(epoch, cost_prev, cost(_y_hat, _output_set, _weights, _c));
+			MLPPUtilities::cost_info(epoch, cost_prev, cost(_z, _output_set, _weights, _c));
 			MLPPUtilities::print_ui_vb(_weights, _bias);
 		}
 
-- 
2.43.0


From 297ae72fcbbb253040ff43511a0a14799816a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 111/259] fix: mini-batches of the support vector classifier
 did not change the weights by the loss

---
 modules/svc/svc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 29f2805..3be5344 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -242,11 +242,11 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			cost_prev = cost(z, current_output_batch_entry, _weights, _c);
 
 			// Calculating the weight gradients
-			_weights->subn(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
 			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(y_hat, current_output_batch_entry, _c)->sum_elements() / n;
+			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c)->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From 507155f1cc6d8d6a924c46b420980113ea045342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 112/259] fix: mini-batches of the support vector classifier
 were averaged over the whole data set

---
 modules/svc/svc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 3be5344..ccca077 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -242,11 +242,11 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			cost_prev = cost(z, current_output_batch_entry, _weights, _c);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
-			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / current_output_batch_entry->size()));
+			_weights = regularization.reg_weightsv(_weights, learning_rate / current_output_batch_entry->size(), 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c)->sum_elements() / n;
+			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c)->sum_elements() / current_output_batch_entry->size();
 
 			forward_pass();
 
-- 
2.43.0


From 2ebeb90ba8644705af23e7f702b61082514f44bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 113/259] fix: mini-batches of the softmax network did not
 train the output bias

---
 modules/softmax_net/softmax_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 0ef1231..b16ce97 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -334,7 +334,7 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
 			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
-- 
2.43.0


From 1b617a38e5041f7ae094068c4998cfb5fa755ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 114/259] fix: stochastic gradient descent of the softmax
 network kept its output in a row as long as the hidden layer

---
 modules/softmax_net/softmax_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index b16ce97..dcdd57d 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -232,7 +232,7 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 	Ref<MLPPMatrix> y_hat_mat_tmp;
 	y_hat_mat_tmp.instance();
-	y_hat_mat_tmp->resize(Size2i(_bias1->size(), 1));
+	y_hat_mat_tmp->resize(Size2i(_bias2->size(), 1));
 
 	Ref<MLPPMatrix> output_row_mat_tmp;
 	output_row_mat_tmp.instance();
-- 
2.43.0


From 4d181b1a4b580c52986b1c19374bd8f45b560b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 115/259] fix: the auto encoder's output bias was not trained
 by the average gradient

---
 modules/auto_encoder/auto_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index fb457b0..664f483 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -95,7 +95,7 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / _n));
 
 		// Calculating the bias gradients for layer 2
-		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
+		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate / _n));
 
 		//Calculating the weight/bias for layer 1
 		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
-- 
2.43.0


From 633f43f440ef73e9a75e90fec71e7eee06bac9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 116/259] fix: mini-batches of the auto encoder mixed up its
 layers and sizes

---
 modules/auto_encoder/auto_encoder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index 664f483..97b99d2 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -232,17 +232,17 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			//Calculating the weight/bias for layer 1
 
-			Ref<MLPPMatrix> D1_1 = _weights2->transposen()->multn(error);
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_batch->transposen()->multn(D1_2);
 
 			// weight an bias updation for layer 1
-			_weights2->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().x));
-			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().x));
+			_weights1->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().y));
+			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			y_hat = evaluatem(current_batch);
 
-- 
2.43.0


From 6be780118e50dfe5c28059316de3c89f514bab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 117/259] fix: dual SVC bias update used only the first sample
 and moved away from the margin

---
 modules/dual_svc/dual_svc.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/dual_svc/dual_svc.cpp b/modules/dual_svc/dual_svc.cpp
index eddcd6f..0aca786 100644
--- a/modules/dual_svc/dual_svc.cpp
+++ b/modules/dual_svc/dual_svc.cpp
@@ -81,11 +81,12 @@ void MLPPDualSVC::gradient_descent(real_t learning_rate, int max_epoch, bool ui)
 						sum += _alpha->element_get(j) * _output_set->element_get(j) * input_set_j_row_tmp->dot(input_set_i_row_tmp); // TO DO: DON'T forget to add non-linear kernelizations.
 					}
 				}
-			}
 
-			biasGradient = (1 - _output_set->element_get(i) * sum) / _output_set->element_get(i);
+				// On the margin y_i * (sum + bias) = 1, so (with y_i = +-1) the bias is driven to y_i - sum.
+				biasGradient = sum + _bias - _output_set->element_get(i);
 
-			break;
+				break;
+			}
 		}
 
 		_bias -= biasGradient * learning_rate;
-- 
2.43.0


From 7d8b0c13345f4298e336d23a3018569e8c1610bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 118/259] fix: the normal equation did not give the least
 squares solution unless the inputs were centered

---
 modules/lin_reg/lin_reg.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index d800d9e..1a7e3b8 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -696,19 +696,25 @@ void MLPPLinReg::normal_equation() {
 		x_means->element_set(i, stat.meanv(input_set_t_row_tmp));
 	}
 
-	Ref<MLPPVector> temp;
-	//temp.resize(_k);
-
-	temp = input_set_t->multn(_input_set)->inverse()->mult_vec(input_set_t->mult_vec(_output_set));
+	// The model has an intercept (which isn't penalised), so the inputs have to be centered for the weights.
+	for (int i = 0; i < input_set_t->size().y; i++) {
+		for (int j = 0; j < input_set_t->size().x; j++) {
+			input_set_t->element_set(i, j, input_set_t->element_get(i, j) - x_means->element_get(i));
+		}
+	}
 
-	ERR_FAIL_COND_MSG(Math::is_nan(temp->element_get(0)), "ERR: Resulting matrix was noninvertible/degenerate, and so the normal equation could not be performed. Try utilizing gradient descent.");
+	Ref<MLPPMatrix> gram = input_set_t->multn(input_set_t->transposen());
 
 	if (_reg == MLPPReg::REGULARIZATION_TYPE_RIDGE) {
-		_weights = _input_set->transposen()->multn(_input_set)->addn(MLPPMatrix::create_identity_mat(_k)->scalar_multiplyn(_lambda))->inverse()->mult_vec(_input_set->transposen()->mult_vec(_output_set));
-	} else {
-		_weights = _input_set->transposen()->multn(_input_set)->inverse()->mult_vec(_input_set->transposen()->mult_vec(_output_set));
+		gram = gram->addn(MLPPMatrix::create_identity_mat(_k)->scalar_multiplyn(_lambda));
 	}
 
+	Ref<MLPPVector> temp = gram->inverse()->mult_vec(input_set_t->mult_vec(_output_set));
+
+	ERR_FAIL_COND_MSG(Math::is_nan(temp->element_get(0)), "ERR: Resulting matrix was noninvertible/degenerate, and so the normal equation could not be performed. Try utilizing gradient descent.");
+
+	_weights = temp;
+
 	_bias = stat.meanv(_output_set) - _weights->dot(x_means);
 
 	forward_pass();
-- 
2.43.0


From 7c3a64fc8d5b5f879e1b1d1f2293a3ad5fc74df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 119/259] fix: every setter of the hidden layer discarded its
 weights

---
 modules/hidden_layer/hidden_layer.cpp | 29 ++++++++++++++++-----------
 modules/hidden_layer/hidden_layer.h   |  2 ++
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index 67e3633..5d32414 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -47,7 +47,6 @@ MLPPActivation::ActivationFunction MLPPHiddenLayer::get_activation() const {
 }
 void MLPPHiddenLayer::set_activation(const MLPPActivation::ActivationFunction val) {
 	_activation = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_input() {
@@ -55,7 +54,8 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_input() {
 }
 void MLPPHiddenLayer::set_input(const Ref<MLPPMatrix> &val) {
 	_input = val;
-	_initialized = false;
+	// Only new dimensions need new weights.
+	_initialized = _initialized && parameters_fit();
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
@@ -63,7 +63,7 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
 }
 void MLPPHiddenLayer::set_weights(const Ref<MLPPMatrix> &val) {
 	_weights = val;
-	_initialized = false;
+	_initialized = parameters_fit();
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
@@ -71,7 +71,7 @@ Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
 }
 void MLPPHiddenLayer::set_bias(const Ref<MLPPVector> &val) {
 	_bias = val;
-	_initialized = false;
+	_initialized = parameters_fit();
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
@@ -79,7 +79,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
 }
 void MLPPHiddenLayer::set_z(const Ref<MLPPMatrix> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
@@ -87,7 +86,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
 }
 void MLPPHiddenLayer::set_a(const Ref<MLPPMatrix> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
@@ -95,7 +93,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
 }
 void MLPPHiddenLayer::set_z_test(const Ref<MLPPVector> &val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
@@ -103,7 +100,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
 }
 void MLPPHiddenLayer::set_a_test(const Ref<MLPPVector> &val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
@@ -111,7 +107,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
 }
 void MLPPHiddenLayer::set_delta(const Ref<MLPPMatrix> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
@@ -119,7 +114,6 @@ MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
 }
 void MLPPHiddenLayer::set_reg(const MLPPReg::RegularizationType val) {
 	_reg = val;
-	_initialized = false;
 }
 
 real_t MLPPHiddenLayer::get_lambda() const {
@@ -127,7 +121,6 @@ real_t MLPPHiddenLayer::get_lambda() const {
 }
 void MLPPHiddenLayer::set_lambda(const real_t val) {
 	_lambda = val;
-	_initialized = false;
 }
 
 real_t MLPPHiddenLayer::get_alpha() const {
@@ -135,7 +128,6 @@ real_t MLPPHiddenLayer::get_alpha() const {
 }
 void MLPPHiddenLayer::set_alpha(const real_t val) {
 	_alpha = val;
-	_initialized = false;
 }
 
 MLPPUtilities::WeightDistributionType MLPPHiddenLayer::get_weight_init() const {
@@ -165,6 +157,19 @@ void MLPPHiddenLayer::initialize() {
 	_initialized = true;
 }
 
+// Whether the current weights, and biases can be used with the current input as they are.
+bool MLPPHiddenLayer::parameters_fit() const {
+	if (!_weights.is_valid() || !_bias.is_valid() || _n_hidden <= 0) {
+		return false;
+	}
+
+	if (_weights->size().x != _n_hidden || _bias->size() != _n_hidden) {
+		return false;
+	}
+
+	return !_input.is_valid() || _weights->size().y == _input->size().x;
+}
+
 void MLPPHiddenLayer::forward_pass() {
 	if (!_initialized) {
 		initialize();
diff --git a/modules/hidden_layer/hidden_layer.h b/modules/hidden_layer/hidden_layer.h
index bcd8626..787a0ec 100644
--- a/modules/hidden_layer/hidden_layer.h
+++ b/modules/hidden_layer/hidden_layer.h
@@ -109,6 +109,8 @@ public:
 	~MLPPHiddenLayer();
 
 protected:
+	bool parameters_fit() const;
+
 	static void _bind_methods();
 
 	int _n_hidden;
-- 
2.43.0


From ceafff041630de86b33b3d6b603b9fb1a0f355cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 120/259] fix: every setter of the output layer discarded its
 weights

---
 modules/output_layer/output_layer.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 4b5b2e7..6688058 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -45,7 +45,6 @@ MLPPActivation::ActivationFunction MLPPOutputLayer::get_activation() {
 }
 void MLPPOutputLayer::set_activation(const MLPPActivation::ActivationFunction val) {
 	_activation = val;
-	_initialized = false;
 }
 
 MLPPCost::CostTypes MLPPOutputLayer::get_cost() {
@@ -53,7 +52,6 @@ MLPPCost::CostTypes MLPPOutputLayer::get_cost() {
 }
 void MLPPOutputLayer::set_cost(const MLPPCost::CostTypes val) {
 	_cost = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
@@ -61,7 +59,6 @@ Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
 }
 void MLPPOutputLayer::set_input(const Ref<MLPPMatrix> &val) {
 	_input = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_weights() {
@@ -69,7 +66,7 @@ Ref<MLPPVector> MLPPOutputLayer::get_weights() {
 }
 void MLPPOutputLayer::set_weights(const Ref<MLPPVector> &val) {
 	_weights = val;
-	_initialized = false;
+	_initialized = _weights.is_valid() && _n_hidden > 0 && _weights->size() == _n_hidden;
 }
 
 real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
@@ -77,7 +74,6 @@ real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
 }
 void MLPPOutputLayer::set_bias(const real_t val) {
 	_bias = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_z() {
@@ -85,7 +81,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_z() {
 }
 void MLPPOutputLayer::set_z(const Ref<MLPPVector> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_a() {
@@ -93,7 +88,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_a() {
 }
 void MLPPOutputLayer::set_a(const Ref<MLPPVector> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_z_test() {
@@ -101,7 +95,6 @@ real_t MLPPOutputLayer::get_z_test() {
 }
 void MLPPOutputLayer::set_z_test(const real_t val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_a_test() {
@@ -109,7 +102,6 @@ real_t MLPPOutputLayer::get_a_test() {
 }
 void MLPPOutputLayer::set_a_test(const real_t val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_delta() {
@@ -117,7 +109,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_delta() {
 }
 void MLPPOutputLayer::set_delta(const Ref<MLPPVector> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPOutputLayer::get_reg() {
@@ -132,7 +123,6 @@ real_t MLPPOutputLayer::get_lambda() {
 }
 void MLPPOutputLayer::set_lambda(const real_t val) {
 	_lambda = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_alpha() {
@@ -140,7 +130,6 @@ real_t MLPPOutputLayer::get_alpha() {
 }
 void MLPPOutputLayer::set_alpha(const real_t val) {
 	_alpha = val;
-	_initialized = false;
 }
 
 MLPPUtilities::WeightDistributionType MLPPOutputLayer::get_weight_init() {
-- 
2.43.0


From c82f97863592ca1fd7538e4a617ef0beef213eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 121/259] fix: default constructed layers left their
 regularization and cost type unset

---
 modules/hidden_layer/hidden_layer.cpp             | 2 +-
 modules/multi_output_layer/multi_output_layer.cpp | 4 +++-
 modules/output_layer/output_layer.cpp             | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index 5d32414..0181472 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -230,7 +230,7 @@ MLPPHiddenLayer::MLPPHiddenLayer() {
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
diff --git a/modules/multi_output_layer/multi_output_layer.cpp b/modules/multi_output_layer/multi_output_layer.cpp
index 8cffae6..c1dbfff 100644
--- a/modules/multi_output_layer/multi_output_layer.cpp
+++ b/modules/multi_output_layer/multi_output_layer.cpp
@@ -196,9 +196,11 @@ MLPPMultiOutputLayer::MLPPMultiOutputLayer(int n_output, int p_n_hidden, MLPPAct
 MLPPMultiOutputLayer::MLPPMultiOutputLayer() {
 	_n_hidden = 0;
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
+	_n_output = 0;
+	_cost = MLPPCost::COST_TYPE_MSE;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 6688058..25a1a50 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -218,9 +218,10 @@ MLPPOutputLayer::MLPPOutputLayer(int p_n_hidden, MLPPActivation::ActivationFunct
 MLPPOutputLayer::MLPPOutputLayer() {
 	_n_hidden = 0;
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
+	_cost = MLPPCost::COST_TYPE_MSE;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
-- 
2.43.0


From 847361651a55693f20b1e60fe294a519a50047b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 122/259] fix: stochastic gradient descent of the ANN used the
 layer state of other samples

---
 modules/ann/ann.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 546e6cc..085b920 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -142,9 +142,9 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 	input_set_row_tmp.instance();
 	input_set_row_tmp->resize(_input_set->size().x);
 
-	Ref<MLPPVector> y_hat_row_tmp;
-	y_hat_row_tmp.instance();
-	y_hat_row_tmp->resize(1);
+	Ref<MLPPMatrix> input_row_mat_tmp;
+	input_row_mat_tmp.instance();
+	input_row_mat_tmp->resize(Size2i(_input_set->size().x, 1));
 
 	Ref<MLPPVector> output_set_row_tmp;
 	output_set_row_tmp.instance();
@@ -159,8 +159,9 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t output_element_set = _output_set->element_get(output_index);
 		output_set_row_tmp->element_set(0, output_element_set);
 
-		real_t y_hat = model_test(input_set_row_tmp);
-		y_hat_row_tmp->element_set(0, y_hat);
+		// The gradients need the state of the layers for this sample.
+		input_row_mat_tmp->row_set_mlpp_vector(0, input_set_row_tmp);
+		Ref<MLPPVector> y_hat_row_tmp = model_set_test(input_row_mat_tmp);
 
 		cost_prev = cost(y_hat_row_tmp, output_set_row_tmp);
 
@@ -170,7 +171,7 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		grads.output_w_grad->scalar_multiply(learning_rate / _n);
 
 		update_parameters(grads.cumulative_hidden_layer_w_grad, grads.output_w_grad, learning_rate); // subject to change. may want bias to have this matrix too.
-		y_hat = model_test(input_set_row_tmp);
+		y_hat_row_tmp = model_set_test(input_row_mat_tmp);
 
 		if (ui) {
 			print_ui(epoch, cost_prev, y_hat_row_tmp, output_set_row_tmp);
-- 
2.43.0


From c2a7fc1c06168f928752125604af7d150c04c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 123/259] fix: the cost of the ANN left out the regularization
 of the last hidden layer

---
 modules/ann/ann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 085b920..97b5a89 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -841,7 +841,7 @@ real_t MLPPANN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
 			total_reg_term += regularization.reg_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg());
-- 
2.43.0


From 6d9263d498a7825b7aa8b5cd36f5a9b010fccb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 124/259] fix: nesterov momentum of the ANN moved twice instead
 of looking ahead

---
 modules/ann/ann.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 97b5a89..7aa36e7 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -277,7 +277,13 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 			}
 
 			if (nag) { // "Aposterori" calculation
-				update_parameters(v_hidden, v_output, 0); // DON'T update bias.
+				// The gradients are needed at the position the velocity alone would lead to.
+				update_parameters(alg.scalar_multiplynvt(gamma, v_hidden), v_output->scalar_multiplyn(gamma), 0); // DON'T update bias.
+
+				y_hat = model_set_test(current_input_batch);
+				grads = compute_gradients(y_hat, current_output_batch);
+
+				update_parameters(alg.scalar_multiplynvt(-gamma, v_hidden), v_output->scalar_multiplyn(-gamma), 0);
 			}
 
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(gamma, v_hidden), alg.scalar_multiplynvt(learning_rate / _n, grads.cumulative_hidden_layer_w_grad));
-- 
2.43.0


From 7d1fae2e55f608b795e39787e44e99f0c167a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 125/259] fix: adadelta of the ANN did not use decaying
 averages of the squared gradients

---
 modules/ann/ann.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 7aa36e7..aab7f03 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -413,8 +413,8 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 				v_output->resize(grads.output_w_grad->size());
 			}
 
-			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
-			v_output->add(grads.output_w_grad->exponentiaten(2));
+			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, v_hidden), alg.scalar_multiplynvt(1 - b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
+			v_output = v_output->scalar_multiplyn(b1)->addn(grads.output_w_grad->exponentiaten(2)->scalar_multiplyn(1 - b1));
 
 			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate / _n, alg.division_element_wisenvnvt(grads.cumulative_hidden_layer_w_grad, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden))));
 			Ref<MLPPVector> output_layer_updation = grads.output_w_grad->division_element_wisen(v_output->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate / _n);
-- 
2.43.0


From bb7ebf222bbe92fcc24ead63affa99ae5b199d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 126/259] fix: adam of the ANN never sized its output layer
 moments

---
 modules/ann/ann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index aab7f03..6bb2f14 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -477,7 +477,7 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 				alg.resizevt(v_hidden, grads.cumulative_hidden_layer_w_grad);
 			}
 
-			if (m_output->size() == 0 && v_output->size()) {
+			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
 				v_output->resize(grads.output_w_grad->size());
 			}
-- 
2.43.0


From 76a9cd0eb969719d50724722213c150ebf1b8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 127/259] fix: the default constructed ANN left its members
 unset

---
 modules/ann/ann.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 6bb2f14..effea21 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -819,6 +819,12 @@ MLPPANN::MLPPANN(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVector> &p_ou
 }
 
 MLPPANN::MLPPANN() {
+	_n = 0;
+	_k = 0;
+
+	_lr_scheduler = SCHEDULER_TYPE_NONE;
+	_decay_constant = 0;
+	_drop_rate = 0;
 }
 
 MLPPANN::~MLPPANN() {
-- 
2.43.0


From 083a726a51c057b3cd7696ad22ecda3cdcac407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 128/259] fix: back propagation of the MANN through more than
 one hidden layer

---
 modules/mann/mann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 7d8e0dc..17eb0f4 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -159,7 +159,7 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 				layer = _network[i];
 				Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
 
 				hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
-- 
2.43.0


From 7a14f1950f22ef58ae53592b71fba534a98c1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:39 +0000
Subject: [PATCH 129/259] fix: the cost of the MANN left out the regularization
 of the last hidden layer

---
 modules/mann/mann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 17eb0f4..cafd7fc 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -278,7 +278,7 @@ real_t MLPPMANN::cost(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
 			total_reg_term += regularization.reg_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg());
-- 
2.43.0


From b2fc3053b11930b745d294bc85bc4cdbc1e6b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:39 +0000
Subject: [PATCH 130/259] fix: a MANN without data could be marked as
 initialized, then crashed

---
 modules/mann/mann.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index cafd7fc..a9c8e74 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -249,7 +249,7 @@ void MLPPMANN::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!input_set.is_valid() || !output_set.is_valid() || n_hidden == 0);
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
@@ -265,6 +265,10 @@ MLPPMANN::MLPPMANN(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPMatrix> &p_
 }
 
 MLPPMANN::MLPPMANN() {
+	_n = 0;
+	_k = 0;
+	_n_output = 0;
+
 	_initialized = false;
 }
 
-- 
2.43.0


From 465349bc80ae77e2547f09cce1a82e043180ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 131/259] fix: the generator of the WGAN was trained with the
 outputs of an earlier pass

---
 modules/wgan/wgan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index 225f046..3623a66 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -117,7 +117,7 @@ void MLPPWGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
     loutput_set = MLPPVector::create_vec_one(n);
 
     Vector<Ref<MLPPMatrix>> cumulative_generator_hidden_layer_w_grad =
-        compute_generator_gradients(_y_hat, loutput_set);
+        compute_generator_gradients(ly_hat, loutput_set);
 
     real_t lrpn = learning_rate / n;
 
-- 
2.43.0


From 5b93a8d8be0f44504e93276eacfc5dddec19f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 132/259] fix: the output layer of the WGAN ignored its
 regularization

---
 modules/wgan/wgan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index 3623a66..70bd40f 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -235,6 +235,7 @@ void MLPPWGAN::add_output_layer(
   _output_layer->set_cost(MLPPCost::COST_TYPE_WASSERSTEIN_LOSS);
   _output_layer->set_input(_network.write[_network.size() - 1]->get_a());
   _output_layer->set_weight_init(weight_init);
+  _output_layer->set_reg(reg);
   _output_layer->set_lambda(lambda);
   _output_layer->set_alpha(alpha);
 }
-- 
2.43.0


From 4eeb774187a0047909bca94a071cfc4330def36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 133/259] fix: the cost of the WGAN left out the regularization
 of the last hidden layer

---
 modules/wgan/wgan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index 70bd40f..b3f6f42 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -295,7 +295,7 @@ real_t MLPPWGAN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 
   real_t total_reg_term = 0;
 
-  for (int i = 0; i < _network.size() - 1; ++i) {
+  for (int i = 0; i < _network.size(); ++i) {
     Ref<MLPPHiddenLayer> layer = _network[i];
 
     total_reg_term +=
-- 
2.43.0


From a381fb6e21f7a3d9794dc5ce9bac1bba2459e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 134/259] fix: get_layer_count of the WGAN was bound to score

---
 modules/wgan/wgan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index b3f6f42..2d5b022 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -575,7 +575,7 @@ void MLPPWGAN::_bind_methods() {
   ClassDB::bind_method(D_METHOD("get_layer", "index"), &MLPPWGAN::get_layer);
   ClassDB::bind_method(D_METHOD("remove_layer", "index"),
                        &MLPPWGAN::remove_layer);
-  ClassDB::bind_method(D_METHOD("get_layer_count"), &MLPPWGAN::score);
+  ClassDB::bind_method(D_METHOD("get_layer_count"), &MLPPWGAN::get_layer_count);
 
   ClassDB::bind_method(
       D_METHOD("add_output_layer", "weight_init", "reg", "lambda", "alpha"),
-- 
2.43.0


From 7c3a9e1f92372f19599d72028bd2cdb2b91c58fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 135/259] fix: the GAN stored its differently sized gradients
 in a single tensor

---
 modules/gan/gan.cpp | 42 ++++++++++++++++++++++--------------------
 modules/gan/gan.h   |  9 ++++-----
 2 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index 3d422ae..cb50c2e 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -93,7 +93,9 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 
 		ComputeDiscriminatorGradientsResult dgrads = compute_discriminator_gradients(y_hat, _output_set);
 
-		dgrads.cumulative_hidden_layer_w_grad->scalar_multiply(learning_rate / _n);
+		for (int i = 0; i < dgrads.cumulative_hidden_layer_w_grad.size(); i++) {
+			dgrads.cumulative_hidden_layer_w_grad.write[i]->scalar_multiply(learning_rate / _n);
+		}
 		dgrads.output_w_grad->scalar_multiply(learning_rate / _n);
 
 		update_discriminator_parameters(dgrads.cumulative_hidden_layer_w_grad, dgrads.output_w_grad, learning_rate);
@@ -104,9 +106,11 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		y_hat = model_set_test_discriminator(discriminator_input_set);
 		_output_set = MLPPVector::create_vec_one(_n);
 
-		Ref<MLPPTensor3> cumulative_generator_hidden_layer_w_grad = compute_generator_gradients(y_hat, _output_set);
+		Vector<Ref<MLPPMatrix>> cumulative_generator_hidden_layer_w_grad = compute_generator_gradients(y_hat, _output_set);
 
-		cumulative_generator_hidden_layer_w_grad->scalar_multiply(learning_rate / _n);
+		for (int i = 0; i < cumulative_generator_hidden_layer_w_grad.size(); i++) {
+			cumulative_generator_hidden_layer_w_grad.write[i]->scalar_multiply(learning_rate / _n);
+		}
 
 		update_generator_parameters(cumulative_generator_hidden_layer_w_grad, learning_rate);
 
@@ -249,19 +253,18 @@ void MLPPGAN::forward_pass() {
 	_y_hat = _output_layer->get_a();
 }
 
-void MLPPGAN::update_discriminator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate) {
+void MLPPGAN::update_discriminator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate) {
 	_output_layer->set_weights(_output_layer->get_weights()->subn(output_layer_updation));
 	real_t output_layer_bias = _output_layer->get_bias();
 	output_layer_bias -= learning_rate * _output_layer->get_delta()->sum_elements() / _n;
 	_output_layer->set_bias(output_layer_bias);
 
 	Ref<MLPPMatrix> slice;
-	slice.instance();
 
 	if (!_network.empty()) {
 		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
-		hidden_layer_updations->z_slice_get_into_mlpp_matrix(0, slice);
+		slice = hidden_layer_updations[0];
 
 		layer->set_weights(layer->get_weights()->subn(slice));
 		layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
@@ -269,7 +272,7 @@ void MLPPGAN::update_discriminator_parameters(const Ref<MLPPTensor3> &hidden_lay
 		for (int i = _network.size() - 2; i > _network.size() / 2; i--) {
 			layer = _network[i];
 
-			hidden_layer_updations->z_slice_get_into_mlpp_matrix((_network.size() - 2) - i + 1, slice);
+			slice = hidden_layer_updations[(_network.size() - 2) - i + 1];
 
 			layer->set_weights(layer->get_weights()->subn(slice));
 			layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
@@ -277,15 +280,14 @@ void MLPPGAN::update_discriminator_parameters(const Ref<MLPPTensor3> &hidden_lay
 	}
 }
 
-void MLPPGAN::update_generator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, real_t learning_rate) {
+void MLPPGAN::update_generator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, real_t learning_rate) {
 	if (!_network.empty()) {
 		Ref<MLPPMatrix> slice;
-		slice.instance();
 
 		for (int i = _network.size() / 2; i >= 0; i--) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
-			hidden_layer_updations->z_slice_get_into_mlpp_matrix((_network.size() - 2) - i + 1, slice);
+			slice = hidden_layer_updations[(_network.size() - 2) - i + 1];
 
 			//std::cout << network[i].weights.size() << "x" << network[i].weights[0].size() << std::endl;
 			//std::cout << hidden_layer_updations[(network.size() - 2) - i + 1].size() << "x" << hidden_layer_updations[(network.size() - 2) - i + 1][0].size() << std::endl;
@@ -313,38 +315,38 @@ MLPPGAN::ComputeDiscriminatorGradientsResult MLPPGAN::compute_discriminator_grad
 	if (!_network.empty()) {
 		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
-		Ref<MLPPVector> hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
+		Ref<MLPPMatrix> hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
 
 		layer->set_delta(_output_layer->get_delta()->outer_product(_output_layer->get_weights())->hadamard_productn(hidden_layer_activ_deriv));
 
 		Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
 		hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
-		res.cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
+		res.cumulative_hidden_layer_w_grad.push_back(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
 
 		for (int i = static_cast<int>(_network.size()) - 2; i > static_cast<int>(_network.size()) / 2; i--) {
 			layer = _network[i];
 			Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-			hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
+			hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
 
 			layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(hidden_layer_activ_deriv));
 
 			hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
-			res.cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad->addn(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()))); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
+			res.cumulative_hidden_layer_w_grad.push_back(hidden_layer_w_grad->addn(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()))); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
 		}
 	}
 
 	return res;
 }
 
-Ref<MLPPTensor3> MLPPGAN::compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set) {
+Vector<Ref<MLPPMatrix>> MLPPGAN::compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set) {
 	MLPPCost mlpp_cost;
 	MLPPActivation avn;
 	MLPPReg regularization;
 
-	Ref<MLPPTensor3> cumulative_hidden_layer_w_grad; // Tensor containing ALL hidden grads.
+	Vector<Ref<MLPPMatrix>> cumulative_hidden_layer_w_grad; // ALL hidden grads.
 
 	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, _output_set);
 	Ref<MLPPVector> activ_deriv = avn.run_activation_deriv_vector(_output_layer->get_activation(), _output_layer->get_z());
@@ -358,27 +360,27 @@ Ref<MLPPTensor3> MLPPGAN::compute_generator_gradients(const Ref<MLPPVector> &y_h
 	if (!_network.empty()) {
 		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
-		Ref<MLPPVector> hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
+		Ref<MLPPMatrix> hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
 
 		layer->set_delta(_output_layer->get_delta()->outer_product(_output_layer->get_weights())->hadamard_productn(hidden_layer_activ_deriv));
 
 		Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 		hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
 
-		cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
+		cumulative_hidden_layer_w_grad.push_back(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
 
 		for (int i = _network.size() - 2; i >= 0; i--) {
 			layer = _network[i];
 			Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-			hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
+			hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
 
 			layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(hidden_layer_activ_deriv));
 
 			hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 			hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
 
-			cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
+			cumulative_hidden_layer_w_grad.push_back(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
 		}
 	}
 
diff --git a/modules/gan/gan.h b/modules/gan/gan.h
index 63beba8..49c78c7 100644
--- a/modules/gan/gan.h
+++ b/modules/gan/gan.h
@@ -86,21 +86,20 @@ protected:
 
 	void forward_pass();
 
-	void update_discriminator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate);
-	void update_generator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, real_t learning_rate);
+	void update_discriminator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate);
+	void update_generator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, real_t learning_rate);
 
 	struct ComputeDiscriminatorGradientsResult {
-		Ref<MLPPTensor3> cumulative_hidden_layer_w_grad; // Tensor containing ALL hidden grads.
+		Vector<Ref<MLPPMatrix>> cumulative_hidden_layer_w_grad; // ALL hidden grads.
 		Ref<MLPPVector> output_w_grad;
 
 		ComputeDiscriminatorGradientsResult() {
-			cumulative_hidden_layer_w_grad.instance();
 			output_w_grad.instance();
 		}
 	};
 
 	ComputeDiscriminatorGradientsResult compute_discriminator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
-	Ref<MLPPTensor3> compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
+	Vector<Ref<MLPPMatrix>> compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
 
 	void print_ui(int epoch, real_t cost_prev, const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
 
-- 
2.43.0


From 35c5beba07f0cf5bade487e607dac8f43c9bce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 136/259] fix: the GAN replaced its real samples with the
 labels during training

---
 modules/gan/gan.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index cb50c2e..2a2e620 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -91,7 +91,7 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		Ref<MLPPVector> output_set_real = MLPPVector::create_vec_one(_n);
 		output_set->append_mlpp_vector(output_set_real); // Fake + real output scores.
 
-		ComputeDiscriminatorGradientsResult dgrads = compute_discriminator_gradients(y_hat, _output_set);
+		ComputeDiscriminatorGradientsResult dgrads = compute_discriminator_gradients(y_hat, output_set);
 
 		for (int i = 0; i < dgrads.cumulative_hidden_layer_w_grad.size(); i++) {
 			dgrads.cumulative_hidden_layer_w_grad.write[i]->scalar_multiply(learning_rate / _n);
@@ -104,9 +104,9 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		generator_input_set = MLPPMatrix::create_gaussian_noise(_n, _k);
 		discriminator_input_set = model_set_test_generator(generator_input_set);
 		y_hat = model_set_test_discriminator(discriminator_input_set);
-		_output_set = MLPPVector::create_vec_one(_n);
+		output_set = MLPPVector::create_vec_one(_n);
 
-		Vector<Ref<MLPPMatrix>> cumulative_generator_hidden_layer_w_grad = compute_generator_gradients(y_hat, _output_set);
+		Vector<Ref<MLPPMatrix>> cumulative_generator_hidden_layer_w_grad = compute_generator_gradients(y_hat, output_set);
 
 		for (int i = 0; i < cumulative_generator_hidden_layer_w_grad.size(); i++) {
 			cumulative_generator_hidden_layer_w_grad.write[i]->scalar_multiply(learning_rate / _n);
@@ -304,7 +304,7 @@ MLPPGAN::ComputeDiscriminatorGradientsResult MLPPGAN::compute_discriminator_grad
 
 	ComputeDiscriminatorGradientsResult res;
 
-	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, _output_set);
+	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, output_set);
 	Ref<MLPPVector> activ_deriv = avn.run_activation_deriv_vector(_output_layer->get_activation(), _output_layer->get_z());
 
 	_output_layer->set_delta(cost_deriv->hadamard_productn(activ_deriv));
@@ -348,7 +348,7 @@ Vector<Ref<MLPPMatrix>> MLPPGAN::compute_generator_gradients(const Ref<MLPPVecto
 
 	Vector<Ref<MLPPMatrix>> cumulative_hidden_layer_w_grad; // ALL hidden grads.
 
-	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, _output_set);
+	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, output_set);
 	Ref<MLPPVector> activ_deriv = avn.run_activation_deriv_vector(_output_layer->get_activation(), _output_layer->get_z());
 
 	_output_layer->set_delta(cost_deriv->hadamard_productn(activ_deriv));
@@ -388,7 +388,7 @@ Vector<Ref<MLPPMatrix>> MLPPGAN::compute_generator_gradients(const Ref<MLPPVecto
 }
 
 void MLPPGAN::print_ui(int epoch, real_t cost_prev, const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set) {
-	MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, _output_set));
+	MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, output_set));
 
 	PLOG_MSG("Layer " + itos(_network.size() + 1) + ": ");
 	MLPPUtilities::print_ui_vb(_output_layer->get_weights(), _output_layer->get_bias());
-- 
2.43.0


From b6c181cc04521db817012316ad3fe3cbea4fac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 137/259] fix: the cost of the GAN left out the regularization
 of the last hidden layer

---
 modules/gan/gan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index 2a2e620..d3ea5f4 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -227,7 +227,7 @@ real_t MLPPGAN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			total_reg_term += regularization.reg_termm(_network.write[i]->get_weights(), _network.write[i]->get_lambda(), _network.write[i]->get_alpha(), _network.write[i]->get_reg());
 		}
 	}
-- 
2.43.0


From 11a9b7c2c06908acdbb2e9f852add2ff1cf49b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 138/259] fix: the discriminator of a GAN with one or two
 layers used, and changed the generator

---
 modules/gan/gan.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index d3ea5f4..29802ff 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -202,7 +202,10 @@ Ref<MLPPMatrix> MLPPGAN::model_set_test_generator(const Ref<MLPPMatrix> &X) {
 }
 
 Ref<MLPPVector> MLPPGAN::model_set_test_discriminator(const Ref<MLPPMatrix> &X) {
-	if (!_network.empty()) {
+	if (_network.size() / 2 + 1 >= _network.size()) {
+		// The output layer is the whole discriminator.
+		_output_layer->set_input(X);
+	} else {
 		for (int i = _network.size() / 2 + 1; i < _network.size(); i++) {
 			if (i == _network.size() / 2 + 1) {
 				_network.write[i]->set_input(X);
@@ -261,7 +264,7 @@ void MLPPGAN::update_discriminator_parameters(const Vector<Ref<MLPPMatrix>> &hid
 
 	Ref<MLPPMatrix> slice;
 
-	if (!_network.empty()) {
+	if (_network.size() - 1 > _network.size() / 2) {
 		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
 		slice = hidden_layer_updations[0];
@@ -312,7 +315,7 @@ MLPPGAN::ComputeDiscriminatorGradientsResult MLPPGAN::compute_discriminator_grad
 	res.output_w_grad = _output_layer->get_input()->transposen()->mult_vec(_output_layer->get_delta());
 	res.output_w_grad->add(regularization.reg_deriv_termv(_output_layer->get_weights(), _output_layer->get_lambda(), _output_layer->get_alpha(), _output_layer->get_reg()));
 
-	if (!_network.empty()) {
+	if (_network.size() - 1 > _network.size() / 2) {
 		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
 		Ref<MLPPMatrix> hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
-- 
2.43.0


From cff3406ded2906f4ac0df677139b0db9f9a68a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 139/259] fix: the discriminator of a WGAN with one or two
 layers used, and changed the generator

---
 modules/wgan/wgan.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index 2d5b022..fb3d06e 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -271,7 +271,10 @@ Ref<MLPPMatrix> MLPPWGAN::model_set_test_generator(const Ref<MLPPMatrix> &X) {
 
 Ref<MLPPVector>
 MLPPWGAN::model_set_test_discriminator(const Ref<MLPPMatrix> &X) {
-  if (!_network.empty()) {
+  if (_network.size() / 2 + 1 >= _network.size()) {
+    // The output layer is the whole discriminator.
+    _output_layer->set_input(X);
+  } else {
     for (int i = _network.size() / 2 + 1; i < _network.size(); i++) {
       if (i == _network.size() / 2 + 1) {
         _network.write[i]->set_input(X);
@@ -348,7 +351,7 @@ void MLPPWGAN::update_discriminator_parameters(
                           learning_rate *
                               _output_layer->get_delta()->sum_elements() / n);
 
-  if (!_network.empty()) {
+  if (_network.size() - 1 > _network.size() / 2) {
     Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
     Ref<MLPPMatrix> slice = hidden_layer_updations[0];
@@ -415,7 +418,7 @@ MLPPWGAN::compute_discriminator_gradients(const Ref<MLPPVector> &y_hat,
       _output_layer->get_weights(), _output_layer->get_lambda(),
       _output_layer->get_alpha(), _output_layer->get_reg()));
 
-  if (!_network.empty()) {
+  if (_network.size() - 1 > _network.size() / 2) {
     Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
     layer->set_delta(_output_layer->get_delta()
-- 
2.43.0


From 60dc594eb83e68e3b9e95cff227f03dd8dfe7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 140/259] fix: the default constructed GAN left its members
 unset

---
 modules/gan/gan.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index 29802ff..4f11933 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -182,6 +182,8 @@ MLPPGAN::MLPPGAN(real_t k, const Ref<MLPPMatrix> &output_set) {
 }
 
 MLPPGAN::MLPPGAN() {
+	_n = 0;
+	_k = 0;
 }
 
 MLPPGAN::~MLPPGAN() {
-- 
2.43.0


From 46703786b9b28d5c2ca593fe3a234a2f4d0a9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 141/259] fix: an MLP that is not initialized refuses
 predictions and scores

---
 modules/mlp/mlp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 3a08a9f..7361884 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -99,10 +99,14 @@ void MLPPMLP::set_reg(const MLPPReg::RegularizationType val) {
 }
 
 Ref<MLPPVector> MLPPMLP::model_set_test(const Ref<MLPPMatrix> &X) {
+	ERR_FAIL_COND_V(!_initialized, Ref<MLPPVector>());
+
 	return evaluatem(X);
 }
 
 real_t MLPPMLP::model_test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND_V(!_initialized, 0);
+
 	return evaluatev(x);
 }
 
@@ -325,6 +329,8 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 }
 
 real_t MLPPMLP::score() {
+	ERR_FAIL_COND_V(!_initialized, 0);
+
 	MLPPUtilities util;
 	return util.performance_vec(_y_hat, _output_set);
 }
-- 
2.43.0


From 168c01c4c91a20e2e7bf1d832f7d4ff291756464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 142/259] fix: the optimisers of ANN started from uninitialised
 moments of the output layer

---
 modules/ann/ann.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index effea21..2c6846c 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -274,6 +274,7 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			if (nag) { // "Aposterori" calculation
@@ -346,6 +347,7 @@ void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(v_hidden, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2));
@@ -411,6 +413,7 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, v_hidden), alg.scalar_multiplynvt(1 - b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
@@ -479,7 +482,9 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -557,7 +562,9 @@ void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			if (m_output->size() == 0 && u_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				u_output->resize(grads.output_w_grad->size());
+				u_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -632,7 +639,9 @@ void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, re
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -720,8 +729,11 @@ void MLPPANN::amsgrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 				v_output_hat->resize(grads.output_w_grad->size());
+				v_output_hat->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
-- 
2.43.0


From ad259ea60721fd34d084c9bc3a6ba704c5e89d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 143/259] fix: resizevt and resizencvt left new tensors
 uninitialised, where optimisers start from them

---
 core/lin_alg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index ee0c19c..8436666 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1778,6 +1778,7 @@ void MLPPLinAlg::resizevt(Vector<Ref<MLPPMatrix>> &r_target, const Vector<Ref<ML
 		Ref<MLPPMatrix> m;
 		m.instance();
 		m->resize(A[i]->size());
+		m->fill(0);
 
 		r_target.write[i] = m;
 	}
@@ -1791,6 +1792,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::resizencvt(const Vector<Ref<MLPPMatrix>> &A)
 		Ref<MLPPMatrix> m;
 		m.instance();
 		m->resize(A[i]->size());
+		m->fill(0);
 
 		res.write[i] = m;
 	}
-- 
2.43.0


From a86ca781d4c78e00c7c1ed6ebaf1c3a2e874fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 144/259] fix: removing from and inserting into local vectors
 did not compile

---
 platform/sfw.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 0daf73d..9ecd4eb 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9388,7 +9388,7 @@ public:
 	}
 
 	void remove(U p_index) {
-		ERR_FAIL_UNSIGNED_INDEX(p_index, count);
+		ERR_FAIL_INDEX(p_index, count);
 		count--;
 		for (U i = p_index; i < count; i++) {
 			data[i] = data[i + 1];
@@ -9503,7 +9503,7 @@ public:
 	}
 
 	void insert(U p_pos, T p_val) {
-		ERR_FAIL_UNSIGNED_INDEX(p_pos, count + 1);
+		ERR_FAIL_INDEX(p_pos, count + 1);
 		if (p_pos == count) {
 			push_back(p_val);
 		} else {
@@ -9674,7 +9674,7 @@ public:
 	}
 
 	void remove(U p_index) {
-		ERR_FAIL_UNSIGNED_INDEX(p_index, count);
+		ERR_FAIL_INDEX(p_index, count);
 		count--;
 		for (U i = p_index; i < count; i++) {
 			data[i] = data[i + 1];
@@ -9792,7 +9792,7 @@ public:
 	}
 
 	void insert(U p_pos, T p_val) {
-		ERR_FAIL_UNSIGNED_INDEX(p_pos, count + 1);
+		ERR_FAIL_INDEX(p_pos, count + 1);
 		if (p_pos == count) {
 			push_back(p_val);
 		} else {
-- 
2.43.0


From 2ed97c45b51d92db6564a4c9bf582cec3deca668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 145/259] fix: local vectors of objects were converted byte by
 byte, so two containers owned the same memory

---
 platform/sfw.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 9ecd4eb..ac239a7 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9553,7 +9553,9 @@ public:
 		Vector<T> ret;
 		ret.resize(size());
 		T *w = ret.ptrw();
-		memcpy(w, data, sizeof(T) * count);
+		for (U i = 0; i < count; i++) {
+			w[i] = data[i];
+		}
 		return ret;
 	}
 
@@ -9563,7 +9565,9 @@ public:
 			pl.resize(size());
 			typename PoolVector<T>::Write w = pl.write();
 			T *dest = w.ptr();
-			memcpy(dest, data, sizeof(T) * count);
+			for (U i = 0; i < count; i++) {
+				dest[i] = data[i];
+			}
 		}
 		return pl;
 	}
@@ -9842,7 +9846,9 @@ public:
 		Vector<T> ret;
 		ret.resize(size());
 		T *w = ret.ptrw();
-		memcpy(w, data, sizeof(T) * count);
+		for (U i = 0; i < count; i++) {
+			w[i] = data[i];
+		}
 		return ret;
 	}
 
@@ -9852,7 +9858,9 @@ public:
 			pl.resize(size());
 			typename PoolVector<T>::Write w = pl.write();
 			T *dest = w.ptr();
-			memcpy(dest, data, sizeof(T) * count);
+			for (U i = 0; i < count; i++) {
+				dest[i] = data[i];
+			}
 		}
 		return pl;
 	}
-- 
2.43.0


From 523490f73f7868db3b08c341a65aab0f826654a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 146/259] fix: ring buffers refused reading when full, and
 copied and searched a wrong number of elements near their end

---
 platform/sfw.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index ac239a7..6db70ef 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5897,7 +5897,7 @@ class RingBuffer {
 
 public:
 	T read() {
-		ERR_FAIL_COND_V(space_left() < 1, T());
+		ERR_FAIL_COND_V(data_left() < 1, T());
 		return data.ptr()[inc(read_pos, 1)];
 	};
 
@@ -5927,7 +5927,7 @@ public:
 	int copy(T *p_buf, int p_offset, int p_size) const {
 		int left = data_left();
 		if ((p_offset + p_size) > left) {
-			p_size -= left - p_offset;
+			p_size = left - p_offset;
 			if (p_size <= 0) {
 				return 0;
 			}
@@ -5953,9 +5953,9 @@ public:
 	int find(const T &t, int p_offset, int p_max_size) const {
 		int left = data_left();
 		if ((p_offset + p_max_size) > left) {
-			p_max_size -= left - p_offset;
+			p_max_size = left - p_offset;
 			if (p_max_size <= 0) {
-				return 0;
+				return -1;
 			}
 		}
 		p_max_size = MIN(left, p_max_size);
-- 
2.43.0


From eb5bf3787a5cb238e7336d6d3de38cfa5fd3543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 147/259] fix: moving a list element to the end by move_before
 cut it off the forward chain

---
 platform/sfw.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 6db70ef..0b329e4 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5729,6 +5729,11 @@ public:
 		value->next_ptr = where;
 		if (!where) {
 			value->prev_ptr = _data->last;
+			if (_data->last) {
+				_data->last->next_ptr = value;
+			} else {
+				_data->first = value;
+			}
 			_data->last = value;
 			return;
 		};
-- 
2.43.0


From da7b7bc409602103abcfe40c7a2eb0c84f87f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 148/259] fix: nth_element swapped two positions instead of the
 elements there when it ran out of depth

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 0b329e4..4771103 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -3396,7 +3396,7 @@ public:
 		while (p_last - p_first > 3) {
 			if (p_max_depth == 0) {
 				partial_select(p_first, p_nth + 1, p_last, p_array);
-				SWAP(p_first, p_nth);
+				SWAP(p_array[p_first], p_array[p_nth]);
 				return;
 			}
 
-- 
2.43.0


From 31f39306e84a8f5c0f567b000504118c3e963e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 149/259] fix: assigning an ordered hash map kept the entries
 that were there before

---
 platform/sfw.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 4771103..6e67bc9 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -16067,6 +16067,12 @@ public:
 
 private:
 	void _copy_from(const OrderedHashMap &p_map) {
+		if (this == &p_map) {
+			return;
+		}
+
+		clear();
+
 		for (ConstElement E = p_map.front(); E; E = E.next()) {
 			insert(E.key(), E.value());
 		}
-- 
2.43.0


From 43ffcd98e111bd52a5a07e6baf01774bbafdadb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 150/259] fix: assigning a map, set or list to itself emptied
 it

---
 platform/sfw.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 6e67bc9..41fcacf 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -3964,6 +3964,10 @@ private:
 	}
 
 	void _copy_from(const RBMap &p_map) {
+		if (this == &p_map) {
+			return;
+		}
+
 		clear();
 		// not the fastest way, but safeset to write.
 		for (Element *I = p_map.front(); I; I = I->next()) {
@@ -4599,6 +4603,10 @@ private:
 	}
 
 	void _copy_from(const RBSet &p_set) {
+		if (this == &p_set) {
+			return;
+		}
+
 		clear();
 		// not the fastest way, but safeset to write.
 		for (Element *I = p_set.front(); I; I = I->next()) {
@@ -5611,6 +5619,10 @@ public:
 	 * copy the list
 	 */
 	void operator=(const List &p_list) {
+		if (this == &p_list) {
+			return;
+		}
+
 		clear();
 		const Element *it = p_list.front();
 		while (it) {
-- 
2.43.0


From 21a9751f3dfa3ddfa1a6899c45b4799e7ce36670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 151/259] fix: nth_element selected in the wrong part of the
 array when it ran out of depth

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 41fcacf..92d796a 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -3395,7 +3395,7 @@ public:
 	inline void introselect(int p_first, int p_nth, int p_last, T *p_array, int p_max_depth) const {
 		while (p_last - p_first > 3) {
 			if (p_max_depth == 0) {
-				partial_select(p_first, p_nth + 1, p_last, p_array);
+				partial_select(p_first, p_last, p_nth + 1, p_array);
 				SWAP(p_array[p_first], p_array[p_nth]);
 				return;
 			}
-- 
2.43.0


From bf43bb460c7b1e8acc1909da906184899e18e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 152/259] fix: substr_index lost the last character when its
 end was past the end of the string

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 608d517..f1a6ad8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3772,7 +3772,7 @@ String String::substr_index(const int start_index, const int end_index) const {
 	}
 
 	if (end_index > s) {
-		return substr(start_index, (s - 1) - start_index);
+		return substr(start_index, s - start_index);
 	}
 
 	return substr(start_index, end_index - start_index);
-- 
2.43.0


From 9348a31d1a7c54305438f029ccd482ba336bfe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 153/259] fix: is_word_at missed words at the end of the string

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f1a6ad8..f90f69b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4116,7 +4116,7 @@ bool String::is_word_at(const int index, const String &p_str) const {
 
 	ERR_FAIL_INDEX_V(index, size, false);
 
-	if (index + p_str.length() >= size) {
+	if (index + p_str.length() > size) {
 		return false;
 	}
 
-- 
2.43.0


From d0693aa7814eab59381fc6a0bb8ce934ea955e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 154/259] fix: splitting an empty string into floats crashed

---
 platform/sfw.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f90f69b..16aa12c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -5267,6 +5267,15 @@ Vector<float> String::split_floats(const String &p_splitter, bool p_allow_empty)
 	int from = 0;
 	int len = length();
 
+	if (len == 0) {
+		// There is no text to split, and no terminator to put in place of a splitter.
+		if (p_allow_empty) {
+			ret.push_back(0);
+		}
+
+		return ret;
+	}
+
 	String buffer = *this;
 	while (true) {
 		int end = find(p_splitter, from);
@@ -5294,6 +5303,15 @@ Vector<float> String::split_floats_mk(const Vector<String> &p_splitters, bool p_
 	int from = 0;
 	int len = length();
 
+	if (len == 0) {
+		// There is no text to split, and no terminator to put in place of a splitter.
+		if (p_allow_empty) {
+			ret.push_back(0);
+		}
+
+		return ret;
+	}
+
 	String buffer = *this;
 	while (true) {
 		int idx;
-- 
2.43.0


From 6738e31240d565a06f852e9ae74ad47794b3b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 155/259] fix: similarity counted a repeated bigram more than
 once, so it was above 1 or differed when turned round

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 16aa12c..81d924b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4262,6 +4262,9 @@ float String::similarity(const String &p_string) const {
 		for (int j = 0; j < tgt_size; j++) {
 			if (src_bigrams[i] == tgt_bigrams[j]) {
 				inter++;
+				// Every bigram can be matched once.
+				tgt_bigrams.remove(j);
+				tgt_size--;
 				break;
 			}
 		}
-- 
2.43.0


From 3051cfb8fc7576dfbc3e4a099c4d5749a07afda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 156/259] fix: natural comparison found equal strings of dots
 different

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 81d924b..af66736 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3639,7 +3639,7 @@ signed char String::naturalnocasecmp_to(const String &p_str) const {
 				return -1;
 			}
 			if (!*that_str) {
-				return 1;
+				return *this_str ? 1 : 0;
 			}
 			if (!*this_str) {
 				return -1;
-- 
2.43.0


From dddcc8825bbe4ec602d2d1ab4e74597f929d129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 157/259] fix: C strings are Latin-1, but were compared,
 searched and hashed with their bytes above 127 sign-extended

---
 platform/sfw.cpp | 14 +++++++-------
 platform/sfw.h   | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index af66736..c120cb9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3426,7 +3426,7 @@ bool String::operator==(const char *p_str) const {
 
 	// Compare char by char
 	for (int i = 0; i < l; i++) {
-		if ((CharType)p_str[i] != dst[i]) {
+		if ((uint8_t)p_str[i] != dst[i]) {
 			return false;
 		}
 	}
@@ -3837,7 +3837,7 @@ int String::find(const char *p_str, int p_from) const {
 	}
 
 	if (src_len == 1) {
-		const CharType needle = p_str[0];
+		const CharType needle = (uint8_t)p_str[0];
 
 		for (int i = p_from; i < len; i++) {
 			if (src[i] == needle) {
@@ -3856,7 +3856,7 @@ int String::find(const char *p_str, int p_from) const {
 					return -1;
 				};
 
-				if (src[read_pos] != (CharType)p_str[j]) {
+				if (src[read_pos] != (uint8_t)p_str[j]) {
 					found = false;
 					break;
 				}
@@ -4102,7 +4102,7 @@ bool String::is_word_at(const int index, const char *p_str) const {
 			return false;
 		}
 
-		if (operator[](iind) != (CharType)p_str[i]) {
+		if (operator[](iind) != (uint8_t)p_str[i]) {
 			return false;
 		}
 
@@ -4178,7 +4178,7 @@ bool String::begins_with(const char *p_string) const {
 	int i = 0;
 
 	while (*p_string && i < l) {
-		if ((CharType)(*p_string) != str[i]) {
+		if ((uint8_t)(*p_string) != str[i]) {
 			return false;
 		}
 		i++;
@@ -6210,7 +6210,7 @@ uint32_t String::hash(const char *p_cstr) {
 	uint32_t hashv = 5381;
 	uint32_t c;
 
-	while ((c = *p_cstr++)) {
+	while ((c = (uint8_t)*p_cstr++)) {
 		hashv = ((hashv << 5) + hashv) + c; /* hash * 33 + c */
 	}
 
@@ -6220,7 +6220,7 @@ uint32_t String::hash(const char *p_cstr) {
 uint32_t String::hash(const char *p_cstr, int p_len) {
 	uint32_t hashv = 5381;
 	for (int i = 0; i < p_len; i++) {
-		hashv = ((hashv << 5) + hashv) + p_cstr[i]; /* hash * 33 + c */
+		hashv = ((hashv << 5) + hashv) + (uint8_t)p_cstr[i]; /* hash * 33 + c */
 	}
 
 	return hashv;
diff --git a/platform/sfw.h b/platform/sfw.h
index 92d796a..c35ef1f 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -8407,11 +8407,21 @@ struct NaturalNoCaseComparator {
 	}
 };
 
+// The code of a character: C strings are Latin-1.
+_FORCE_INLINE_ char32_t str_char_code(char p_char) {
+	return (uint8_t)p_char;
+}
+
+template <typename T>
+_FORCE_INLINE_ char32_t str_char_code(T p_char) {
+	return p_char;
+}
+
 template <typename L, typename R>
 _FORCE_INLINE_ bool is_str_less(const L *l_ptr, const R *r_ptr) {
 	while (true) {
-		const CharType l = *l_ptr;
-		const CharType r = *r_ptr;
+		const char32_t l = str_char_code(*l_ptr);
+		const char32_t r = str_char_code(*r_ptr);
 
 		if (l == 0 && r == 0) {
 			return false;
-- 
2.43.0


From 9d2f18a512e439fa5d9a8f117add3134890f88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 158/259] fix: http_unescape lost all characters outside ASCII
 and did not know lower case digits

---
 platform/sfw.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c120cb9..210d441 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6893,25 +6893,19 @@ String String::http_escape() const {
 }
 
 String String::http_unescape() const {
-	String res;
-	for (int i = 0; i < length(); ++i) {
-		if (ord_at(i) == '%' && i + 2 < length()) {
-			CharType ord1 = ord_at(i + 1);
-			if ((ord1 >= '0' && ord1 <= '9') || (ord1 >= 'A' && ord1 <= 'Z')) {
-				CharType ord2 = ord_at(i + 2);
-				if ((ord2 >= '0' && ord2 <= '9') || (ord2 >= 'A' && ord2 <= 'Z')) {
-					char bytes[3] = { (char)ord1, (char)ord2, 0 };
-					res += (char)strtol(bytes, nullptr, 16);
-					i += 2;
-				}
-			} else {
-				res += ord_at(i);
-			}
+	// The escapes are bytes of UTF-8 text, so they are put together as bytes.
+	const CharString src = utf8();
+	CharString res;
+	for (int i = 0; i < src.length(); ++i) {
+		if (src[i] == '%' && i + 2 < src.length() && is_hex_digit(src[i + 1]) && is_hex_digit(src[i + 2])) {
+			char bytes[3] = { src[i + 1], src[i + 2], 0 };
+			res += (char)strtol(bytes, nullptr, 16);
+			i += 2;
 		} else {
-			res += ord_at(i);
+			res += src[i];
 		}
 	}
-	return String::utf8(res.ascii());
+	return String::utf8(res);
 }
 
 String String::uri_encode() const {
-- 
2.43.0


From 2ee7e6c38d0a6f1e45aaccec9e8c165b15ae5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 159/259] fix: uri_decode did not know lower case digits and
 lost percent signs

---
 platform/sfw.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 210d441..29d5104 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6927,21 +6927,13 @@ String String::uri_encode() const {
 }
 
 String String::uri_decode() const {
-	CharString src = utf8();
+	const CharString src = utf8();
 	CharString res;
 	for (int i = 0; i < src.length(); ++i) {
-		if (src[i] == '%' && i + 2 < src.length()) {
-			char ord1 = src[i + 1];
-			if (is_digit(ord1) || is_ascii_upper_case(ord1)) {
-				char ord2 = src[i + 2];
-				if (is_digit(ord2) || is_ascii_upper_case(ord2)) {
-					char bytes[3] = { (char)ord1, (char)ord2, 0 };
-					res += (char)strtol(bytes, nullptr, 16);
-					i += 2;
-				}
-			} else {
-				res += src[i];
-			}
+		if (src[i] == '%' && i + 2 < src.length() && is_hex_digit(src[i + 1]) && is_hex_digit(src[i + 2])) {
+			char bytes[3] = { src[i + 1], src[i + 2], 0 };
+			res += (char)strtol(bytes, nullptr, 16);
+			i += 2;
 		} else if (src[i] == '+') {
 			res += ' ';
 		} else {
-- 
2.43.0


From 9434f034f8d12464b1ea9d4a4b6a014555b2e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 160/259] fix: percent_decode stopped decoding too early in
 text outside ASCII

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 29d5104..d9295e5 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7152,7 +7152,7 @@ String String::percent_decode() const {
 	CharString cs = utf8();
 	for (int i = 0; i < cs.length(); i++) {
 		uint8_t c = cs[i];
-		if (c == '%' && i < length() - 2) {
+		if (c == '%' && i < cs.length() - 2) {
 			uint8_t a = LOWERCASE(cs[i + 1]);
 			uint8_t b = LOWERCASE(cs[i + 2]);
 
-- 
2.43.0


From 797859a16daf07a7f51ff95094e6d736d509f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 161/259] fix: c_unescape read an escaped backslash and the
 letter after it as another escape

---
 platform/sfw.cpp | 65 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d9295e5..0933601 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6969,20 +6969,59 @@ String String::c_escape_multiline() const {
 }
 
 String String::c_unescape() const {
-	String escaped = *this;
-	escaped = escaped.replace("\\a", "\a");
-	escaped = escaped.replace("\\b", "\b");
-	escaped = escaped.replace("\\f", "\f");
-	escaped = escaped.replace("\\n", "\n");
-	escaped = escaped.replace("\\r", "\r");
-	escaped = escaped.replace("\\t", "\t");
-	escaped = escaped.replace("\\v", "\v");
-	escaped = escaped.replace("\\'", "\'");
-	escaped = escaped.replace("\\\"", "\"");
-	escaped = escaped.replace("\\?", "\?");
-	escaped = escaped.replace("\\\\", "\\");
+	String unescaped;
+	const CharType *src = get_data();
+	int len = length();
 
-	return escaped;
+	// One pass, so that an escaped backslash cannot become the start of another escape.
+	for (int i = 0; i < len; ++i) {
+		CharType c = src[i];
+
+		if (c == '\\' && i + 1 < len) {
+			bool known = true;
+
+			switch (src[i + 1]) {
+				case 'a':
+					c = '\a';
+					break;
+				case 'b':
+					c = '\b';
+					break;
+				case 'f':
+					c = '\f';
+					break;
+				case 'n':
+					c = '\n';
+					break;
+				case 'r':
+					c = '\r';
+					break;
+				case 't':
+					c = '\t';
+					break;
+				case 'v':
+					c = '\v';
+					break;
+				case '\'':
+				case '\"':
+				case '\?':
+				case '\\':
+					c = src[i + 1];
+					break;
+				default:
+					known = false;
+					break;
+			}
+
+			if (known) {
+				++i;
+			}
+		}
+
+		unescaped += c;
+	}
+
+	return unescaped;
 }
 
 String String::json_escape() const {
-- 
2.43.0


From 1b36e2c52b17f493e5fb67dc30bd0337689c4830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 162/259] fix: is_valid_bool refused false

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0933601..6c2b80f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7467,7 +7467,7 @@ bool String::is_valid_bool() const {
 		String l = to_lower();
 		const CharType *p = l.ptr();
 
-		if (p[0] == 'f' && p[1] == 'a' && p[2] == 'l' && p[3] == 's' && p[3] == 'e') {
+		if (p[0] == 'f' && p[1] == 'a' && p[2] == 'l' && p[3] == 's' && p[4] == 'e') {
 			return true;
 		} else {
 			return false;
-- 
2.43.0


From 4881d0a587ed4efdf9a30e0c439dee3ba9dca094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 163/259] fix: to_uint limited numbers to the signed range

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6c2b80f..34e325d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -8045,7 +8045,7 @@ bool String::to_bool() const {
 
 uint32_t String::to_uint() const {
 	if (is_numeric()) {
-		return static_cast<uint32_t>(to_int());
+		return static_cast<uint32_t>(to_int64());
 	}
 
 	return 0;
-- 
2.43.0


From 494633c86fa36ea5b746a1f948dd746135580aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 164/259] fix: to_int did not notice numbers just above the
 largest one

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 34e325d..7163e65 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -8174,7 +8174,7 @@ int64_t String::to_int(const CharType *p_str, int p_len, bool p_clamp) {
 			}
 			case READING_INT: {
 				if (is_digit(c)) {
-					if (integer > INT64_MAX / 10) {
+					if ((integer > INT64_MAX / 10) || (integer == INT64_MAX / 10 && ((sign == 1 && c > '7') || (sign == -1 && c > '8')))) {
 						String number("");
 						str = p_str;
 						while (*str && str != limit) {
-- 
2.43.0


From 222f32c4917c31b179fa4d36106ea29e1f788e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 165/259] fix: numbers of more than 255 digits were cut off

---
 platform/sfw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7163e65..ca19140 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4596,15 +4596,15 @@ String String::num(double p_num, int p_decimals) {
 		fmt[5] = 'f';
 		fmt[6] = 0;
 	}
-	char buf[256];
+	char buf[384]; // the largest double has 309 digits before its point
 
 #if defined(__GNUC__) || defined(_MSC_VER)
-	snprintf(buf, 256, fmt, p_num);
+	snprintf(buf, 384, fmt, p_num);
 #else
 	sprintf(buf, fmt, p_num);
 #endif
 
-	buf[255] = 0;
+	buf[383] = 0;
 	//destroy trailing zeroes
 	{
 		bool period = false;
-- 
2.43.0


From e69c3b398549075f2ffbc862282d8e94675d988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 166/259] fix: num_real printed garbage for numbers above the
 32 bit range

---
 platform/sfw.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ca19140..1a0d65a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4768,18 +4768,23 @@ String String::num_real(double p_num) {
 		}
 	}
 
+	if (Math::abs(p_num) >= 1e15) {
+		// There are no decimals to print, and it might not fit into an integer.
+		return String::num(p_num, 0) + ".0";
+	}
+
 	String s;
 	String sd;
 	/* integer part */
 
 	bool neg = p_num < 0;
 	p_num = ABS(p_num);
-	int intn = (int)p_num;
+	int64_t intn = (int64_t)p_num;
 
 	/* decimal part */
 
-	if ((int)p_num != p_num) {
-		double dec = p_num - (double)((int)p_num);
+	if ((int64_t)p_num != p_num) {
+		double dec = p_num - (double)((int64_t)p_num);
 
 		int digit = 0;
 		int decimals = MAX_DIGITS;
-- 
2.43.0


From 836eb1e679b856367a8ebc20590faf6d064938de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 167/259] fix: a signed hexadecimal prefix without digits was a
 valid number

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1a0d65a..0172479 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7387,7 +7387,7 @@ bool String::is_valid_hex_number(bool p_with_prefix) const {
 	}
 
 	if (p_with_prefix) {
-		if (len < 3) {
+		if (len < from + 3) {
 			return false;
 		}
 		if (operator[](from) != '0' || operator[](from + 1) != 'x') {
-- 
2.43.0


From 534e38d2858488ee3df9c35018ed78f57f56a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 168/259] fix: UTF-16 with half a pair before another character
 decoded to an incomplete string

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0172479..f02c9b8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6114,6 +6114,9 @@ Error String::parse_utf16(const char16_t *p_utf16, int p_len) {
 			}
 			skip = false;
 		} else {
+			if (skip) {
+				*(dst++) = c_prev; // unpaired, store as is
+			}
 			*(dst++) = c;
 			skip = false;
 		}
-- 
2.43.0


From f82b6410271e7428ad9f486ea70921f16f0dcc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 169/259] fix: path_to from and to a root counted the root as a
 directory

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f02c9b8..19f3cb1 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6359,8 +6359,8 @@ String String::path_to(const String &p_path) const {
 	}
 
 	//remove leading and trailing slash and split
-	Vector<String> src_dirs = src.substr(1, src.length() - 2).split("/");
-	Vector<String> dst_dirs = dst.substr(1, dst.length() - 2).split("/");
+	Vector<String> src_dirs = src.substr(1, src.length() - 2).split("/", false);
+	Vector<String> dst_dirs = dst.substr(1, dst.length() - 2).split("/", false);
 
 	//find common parent
 	int common_parent = 0;
-- 
2.43.0


From 3207d92ac7afbed87055a9527154ea696ebed89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 170/259] fix: path_clean_end_slash crashed on empty paths and
 kept the slash of one letter names

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 19f3cb1..52fd9b8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6663,11 +6663,15 @@ String String::path_clean_end_slash() const {
 
 	String ret = *this;
 
+	if (ret.length() == 0) {
+		return ret;
+	}
+
 	int strip_to = ret.length() - 1;
 
 	CharType c = ret[strip_to];
 
-	while (strip_to > 1 && (c == '/' || c == '\\')) {
+	while (strip_to > 0 && (c == '/' || c == '\\')) {
 		--strip_to;
 		c = ret[strip_to];
 	}
-- 
2.43.0


From 6336b4490bc11a9d063a55f19be68d085763de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 171/259] fix: append_path doubled the slash, treated some
 letters as slashes and appended to nothing differently

---
 platform/sfw.cpp | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 52fd9b8..09bf1eb 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6591,26 +6591,21 @@ String String::append_path(const char *path) const {
 	int sindex = 0;
 	char ch = path[sindex];
 	while (ch == '/' || ch == '\\') {
-		if (ch == '\0') {
-			return ret;
-		}
-
 		ch = path[++sindex];
 	}
 
+	if (ch == '\0') {
+		return ret;
+	}
+
 	// /////folder
 	//      ^ (sindex)
 
 	if (ret.ends_with("/") || ret.ends_with("\\")) {
 		ret += &path[sindex];
 	} else {
-		if (sindex > 0) {
-			ret += '/';
-			ret += &path[sindex - 1];
-		} else {
-			ret += '/';
-			ret += &path[sindex];
-		}
+		ret += '/';
+		ret += &path[sindex];
 	}
 
 	return ret;
@@ -6629,15 +6624,15 @@ String String::append_path(const String &path) const {
 
 	int sindex = 0;
 	int ts = path.size() - 1;
-	char ch = path[sindex];
+	CharType ch = path[sindex];
 	while (ch == '/' || ch == '\\') {
-		if (sindex == ts) {
-			return *this;
-		}
-
 		ch = path[++sindex];
 	}
 
+	if (sindex == ts) {
+		return *this;
+	}
+
 	String ret = *this;
 
 	// /////folder
@@ -6646,13 +6641,8 @@ String String::append_path(const String &path) const {
 	if (ret.ends_with("/") || ret.ends_with("\\")) {
 		ret += &path[sindex];
 	} else {
-		if (sindex > 0) {
-			ret += '/';
-			ret += &path[sindex - 1];
-		} else {
-			ret += '/';
-			ret += &path[sindex];
-		}
+		ret += '/';
+		ret += &path[sindex];
 	}
 
 	return ret;
-- 
2.43.0


From 8977ad6a8068898ee8309cab44a17ca060b00d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 172/259] fix: Rect2::distance_to measures to the nearest
 corner outside of both sides

---
 platform/sfw.h | 32 +++-----------------------------
 1 file changed, 3 insertions(+), 29 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index c35ef1f..d3a32bb 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10662,35 +10662,9 @@ struct _NO_DISCARD_CLASS_ Rect2 {
 	}
 
 	inline real_t distance_to(const Vector2 &p_point) const {
-		real_t dist = 0.0;
-		bool inside = true;
-
-		if (p_point.x < position.x) {
-			real_t d = position.x - p_point.x;
-			dist = d;
-			inside = false;
-		}
-		if (p_point.y < position.y) {
-			real_t d = position.y - p_point.y;
-			dist = inside ? d : MIN(dist, d);
-			inside = false;
-		}
-		if (p_point.x >= (position.x + size.x)) {
-			real_t d = p_point.x - (position.x + size.x);
-			dist = inside ? d : MIN(dist, d);
-			inside = false;
-		}
-		if (p_point.y >= (position.y + size.y)) {
-			real_t d = p_point.y - (position.y + size.y);
-			dist = inside ? d : MIN(dist, d);
-			inside = false;
-		}
-
-		if (inside) {
-			return 0;
-		} else {
-			return dist;
-		}
+		real_t dx = MAX(MAX(position.x - p_point.x, p_point.x - (position.x + size.x)), 0);
+		real_t dy = MAX(MAX(position.y - p_point.y, p_point.y - (position.y + size.y)), 0);
+		return Math::sqrt(dx * dx + dy * dy);
 	}
 
 	bool intersects_transformed(const Transform2D &p_xform, const Rect2 &p_rect) const;
-- 
2.43.0


From ae5f472d892af3beb5ce279b72d14c2820696dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 173/259] fix: Rect2i::encloses refused rectangles that share
 the right or bottom border

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index d3a32bb..abde973 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10954,8 +10954,8 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 
 	inline bool encloses(const Rect2i &p_rect) const {
 		return (p_rect.position.x >= position.x) && (p_rect.position.y >= position.y) &&
-				((p_rect.position.x + p_rect.size.x) < (position.x + size.x)) &&
-				((p_rect.position.y + p_rect.size.y) < (position.y + size.y));
+				((p_rect.position.x + p_rect.size.x) <= (position.x + size.x)) &&
+				((p_rect.position.y + p_rect.size.y) <= (position.y + size.y));
 	}
 
 	_FORCE_INLINE_ bool has_no_area() const {
-- 
2.43.0


From 95bb490e149c490658cbd0a7e219a9edaa8e2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 174/259] fix: AABB::intersects_ray gave ray parameters instead
 of the point of entry, and one normal for both sides

---
 platform/sfw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 09bf1eb..88ff2ea 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9217,7 +9217,7 @@ bool AABB::intersects_ray(const Vector3 &p_from, const Vector3 &p_dir, Vector3 *
 			c2[i] = (end[i] - p_from[i]) / p_dir[i];
 
 			if (c1[i] > c2[i]) {
-				SWAP(c1, c2);
+				SWAP(c1[i], c2[i]);
 			}
 			if (c1[i] > aabb_near) {
 				aabb_near = c1[i];
@@ -9233,11 +9233,11 @@ bool AABB::intersects_ray(const Vector3 &p_from, const Vector3 &p_dir, Vector3 *
 	}
 
 	if (r_clip) {
-		*r_clip = c1;
+		*r_clip = p_from + p_dir * MAX(aabb_near, 0);
 	}
 	if (r_normal) {
 		*r_normal = Vector3();
-		(*r_normal)[axis] = p_dir[axis] ? -1 : 1;
+		(*r_normal)[axis] = p_dir[axis] > 0 ? -1 : 1;
 	}
 
 	return true;
-- 
2.43.0


From 18916570ca300f5e6a2a4e723cdb42a5423e06ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 175/259] fix: Rect2i::intersects reported rectangles that only
 touch, unlike Rect2 and has_point

---
 platform/sfw.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index abde973..ea64ad5 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10936,16 +10936,16 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 	_FORCE_INLINE_ Vector2i get_center() const { return position + (size / 2); }
 
 	inline bool intersects(const Rect2i &p_rect) const {
-		if (position.x > (p_rect.position.x + p_rect.size.width)) {
+		if (position.x >= (p_rect.position.x + p_rect.size.width)) {
 			return false;
 		}
-		if ((position.x + size.width) < p_rect.position.x) {
+		if ((position.x + size.width) <= p_rect.position.x) {
 			return false;
 		}
-		if (position.y > (p_rect.position.y + p_rect.size.height)) {
+		if (position.y >= (p_rect.position.y + p_rect.size.height)) {
 			return false;
 		}
-		if ((position.y + size.height) < p_rect.position.y) {
+		if ((position.y + size.height) <= p_rect.position.y) {
 			return false;
 		}
 
-- 
2.43.0


From 230e7dc0d820f0b8a7a14285ec57e8906233e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 176/259] fix: Transform2D::interpolate_with scaled along the
 axes of the world, so that its ends were not the transforms given

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 88ff2ea..6637f6b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9837,7 +9837,7 @@ Transform2D Transform2D::interpolate_with(const Transform2D &p_transform, real_t
 
 	//construct matrix
 	Transform2D res(Math::atan2(v.y, v.x), Vector2::linear_interpolate(p1, p2, p_c));
-	res.scale_basis(Vector2::linear_interpolate(s1, s2, p_c));
+	res.set_scale(Vector2::linear_interpolate(s1, s2, p_c));
 	return res;
 }
 
-- 
2.43.0


From ae075e10165ea3ed336021bd11fb15ecbccfc7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 177/259] fix: the shortest arc between opposite directions
 kept vertical ones in place

---
 platform/sfw.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index ea64ad5..bb57361 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -13215,9 +13215,11 @@ struct _NO_DISCARD_CLASS_ Quaternion {
 		real_t d = v0.dot(v1);
 
 		if (d < -1 + (real_t)CMP_EPSILON) {
-			x = 0;
-			y = 1;
-			z = 0;
+			// Half a turn about any axis perpendicular to v0.
+			Vector3 axis = v0.cross(Math::abs(v0.x) < Math::abs(v0.y) ? Vector3(1, 0, 0) : Vector3(0, 1, 0)).normalized();
+			x = axis.x;
+			y = axis.y;
+			z = axis.z;
 			w = 0;
 		} else {
 			real_t s = Math::sqrt((1 + d) * 2);
-- 
2.43.0


From 85bd27d0f94d34a9c0347dab184f76b12f60c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 178/259] fix: Transform::inverse_xform turned the offset
 forwards instead of back

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index bb57361..58aabf4 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -14455,7 +14455,7 @@ struct _NO_DISCARD_CLASS_ Transform {
 	_FORCE_INLINE_ Transform inverse_xform(const Transform &t) const {
 		Vector3 v = t.origin - origin;
 		return Transform(basis.transpose_xform(t.basis),
-				basis.xform(v));
+				basis.xform_inv(v));
 	}
 
 	void set(real_t xx, real_t xy, real_t xz, real_t yx, real_t yy, real_t yz, real_t zx, real_t zy, real_t zz, real_t tx, real_t ty, real_t tz) {
-- 
2.43.0


From a170f297524a47da551b2f559d4ceb7c0b397cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 179/259] fix: order arrays and pool arrays lexicographically
 in Variant::evaluate()

---
 platform/sfw.cpp | 55 ++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6637f6b..c504325 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24011,14 +24011,17 @@ bool Variant::booleanize() const {
 	}
 
 #define DEFAULT_OP_ARRAY_LT(m_prefix, m_op_name, m_name, m_type) \
-	DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, <, !=, false, a_len < array_b.size(), true)
+	DEFAULT_OP_ARRAY_CMP(m_prefix, m_op_name, m_name, m_type, p_a, p_b)
 
 #define DEFAULT_OP_ARRAY_GT(m_prefix, m_op_name, m_name, m_type) \
-	DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, >, !=, false, a_len < array_b.size(), true)
+	DEFAULT_OP_ARRAY_CMP(m_prefix, m_op_name, m_name, m_type, p_b, p_a)
 
-#define DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, m_opa, m_opb, m_ret_def, m_ret_s, m_ret_f)      \
-	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                     \
-		DEFAULT_OP_ARRAY_OP_BODY(m_prefix, m_op_name, m_name, m_type, m_opa, m_opb, m_ret_def, m_ret_s, m_ret_f) \
+#define DEFAULT_OP_ARRAY_CMP(m_prefix, m_op_name, m_name, m_type, m_lesser, m_greater)                                  \
+	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                            \
+		if (p_a.type != p_b.type)                                                                                       \
+			_RETURN_FAIL                                                                                                \
+		_RETURN(pool_vector_less(*reinterpret_cast<const PoolVector<m_type> *>((m_lesser)._data._mem),                  \
+				*reinterpret_cast<const PoolVector<m_type> *>((m_greater)._data._mem)));                                \
 	}
 
 #define DEFAULT_OP_ARRAY_OP_BODY(m_prefix, m_op_name, m_name, m_type, m_opa, m_opb, m_ret_def, m_ret_s, m_ret_f) \
@@ -24055,6 +24058,26 @@ bool Variant::booleanize() const {
 		_RETURN(sum);                                                                                      \
 	}
 
+// Element by element; if one is the beginning of the other then the shorter one is less.
+template <class T>
+static bool pool_vector_less(const PoolVector<T> &p_a, const PoolVector<T> &p_b) {
+	const int a_len = p_a.size();
+	const int b_len = p_b.size();
+	typename PoolVector<T>::Read ra = p_a.read();
+	typename PoolVector<T>::Read rb = p_b.read();
+
+	for (int i = 0; i < a_len && i < b_len; i++) {
+		if (ra[i] < rb[i]) {
+			return true;
+		}
+		if (rb[i] < ra[i]) {
+			return false;
+		}
+	}
+
+	return a_len < b_len;
+}
+
 void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 		const Variant &p_b, Variant &r_ret, bool &r_valid) {
 	CASES(math);
@@ -24285,16 +24308,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 				const Array *arr_a = reinterpret_cast<const Array *>(p_a._data._mem);
 				const Array *arr_b = reinterpret_cast<const Array *>(p_b._data._mem);
 
-				int l = arr_a->size();
-				if (arr_b->size() < l)
-					_RETURN(false);
-				for (int i = 0; i < l; i++) {
-					if (!((*arr_a)[i] < (*arr_b)[i])) {
-						_RETURN(true);
-					}
-				}
-
-				_RETURN(false);
+				_RETURN(*arr_a < *arr_b);
 			}
 
 			DEFAULT_OP_NUM(math, OP_LESS, INT, <, _int);
@@ -24408,16 +24422,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 				const Array *arr_a = reinterpret_cast<const Array *>(p_a._data._mem);
 				const Array *arr_b = reinterpret_cast<const Array *>(p_b._data._mem);
 
-				int l = arr_a->size();
-				if (arr_b->size() > l)
-					_RETURN(false);
-				for (int i = 0; i < l; i++) {
-					if (((*arr_a)[i] < (*arr_b)[i])) {
-						_RETURN(false);
-					}
-				}
-
-				_RETURN(true);
+				_RETURN(*arr_a > *arr_b);
 			}
 
 			DEFAULT_OP_NUM(math, OP_GREATER, INT, >, _int);
-- 
2.43.0


From e99550f458590d386b5994590d632fac886771ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 180/259] fix: SFWCore::setup() never created the names used to
 access members of a Variant

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c504325..2231ee3 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18253,6 +18253,7 @@ void SFWCore::setup() {
 	_initialized = true;
 
 	StringName::setup();
+	CoreStringNames::create();
 	MemoryPool::setup();
 }
 
@@ -18263,6 +18264,7 @@ void SFWCore::cleanup() {
 
 	_initialized = false;
 
+	CoreStringNames::free();
 	StringName::cleanup();
 	MemoryPool::cleanup();
 }
-- 
2.43.0


From 0d36a932aa7ffe567b32f53968cfca63cfe7a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 181/259] fix: multiplying a Variant with a Projection read the
 value's pointer as the matrix

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2231ee3..eb491a6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24691,7 +24691,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 						_RETURN(p_a._data._projection->xform(*(const Plane *)p_b._data._mem));
 					}
 					case PROJECTION: {
-						_RETURN(p_a._data._projection->operator*(*(const Projection *)p_b._data._mem));
+						_RETURN(p_a._data._projection->operator*(*p_b._data._projection));
 					}
 					default:
 						_RETURN_FAIL;
-- 
2.43.0


From 0b6b32f7852819d6fd71565f7a81969b83de49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 182/259] fix: Variant::zero() wrote over the pointers of AABB
 and Projection values

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index eb491a6..eb7620b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -21121,13 +21121,13 @@ void Variant::zero() {
 			*reinterpret_cast<Quaternion *>(this->_data._mem) = Quaternion();
 			break;
 		case AABB:
-			*reinterpret_cast<::AABB *>(this->_data._mem) = ::AABB();
+			*_data._aabb = ::AABB();
 			break;
 		case COLOR:
 			*reinterpret_cast<Color *>(this->_data._mem) = Color();
 			break;
 		case PROJECTION:
-			*reinterpret_cast<Projection *>(this->_data._mem) = Projection();
+			*_data._projection = Projection();
 			break;
 		default:
 			this->clear();
-- 
2.43.0


From 0620b06ae336dc99ae5e26026a24e94c06233011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 183/259] fix: comparing a String with a StringName mixed up
 the two representations

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index eb7620b..7291371 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -23875,7 +23875,7 @@ bool Variant::booleanize() const {
 		if (p_b.type == STRING)                                                                                                    \
 			_RETURN(*reinterpret_cast<const m_type *>(p_b._data._mem) m_op *reinterpret_cast<const String *>(p_a._data._mem));     \
 		if (p_b.type == STRING_NAME)                                                                                               \
-			_RETURN(*reinterpret_cast<const m_type *>(p_b._data._mem) m_op *reinterpret_cast<const StringName *>(p_a._data._mem)); \
+			_RETURN(m_type(*reinterpret_cast<const StringName *>(p_b._data._mem)) m_op *reinterpret_cast<const m_type *>(p_a._data._mem)); \
                                                                                                                                    \
 		_RETURN_FAIL                                                                                                               \
 	};
-- 
2.43.0


From d9e61fee482d5b9d06cc49f09d116666c10e3e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 184/259] fix: dividing an integer vector in a Variant by zero
 killed the process

---
 platform/sfw.cpp | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7291371..4c639cb 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -23838,6 +23838,25 @@ bool Variant::booleanize() const {
 	};
 #endif
 
+#ifdef DEBUG_ENABLED
+#define DEFAULT_OP_LOCALMEM_DIV_INT(m_prefix, m_op_name, m_name, m_type)                                              \
+	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                          \
+		const m_type &dividend = *reinterpret_cast<const m_type *>(p_a._data._mem);                                   \
+		if (p_b.type != m_name && p_b.type != INT && p_b.type != REAL)                                                \
+			_RETURN_FAIL                                                                                              \
+		if (p_b.type == m_name ? has_zero(*reinterpret_cast<const m_type *>(p_b._data._mem)) : (int32_t)p_b == 0) { \
+			r_valid = false;                                                                                          \
+			_RETURN("Division By Zero");                                                                              \
+		}                                                                                                             \
+		if (p_b.type == m_name)                                                                                       \
+			_RETURN(dividend / *reinterpret_cast<const m_type *>(p_b._data._mem));                                    \
+		_RETURN(dividend / (int32_t)p_b);                                                                             \
+	};
+#else
+#define DEFAULT_OP_LOCALMEM_DIV_INT(m_prefix, m_op_name, m_name, m_type) \
+	DEFAULT_OP_LOCALMEM_NUM(m_prefix, m_op_name, m_name, /, m_type)
+#endif
+
 #define DEFAULT_OP_NUM_NEG(m_prefix, m_op_name, m_name, m_type) \
 	CASE_TYPE(m_prefix, m_op_name, m_name) {                    \
 		_RETURN(-p_a._data.m_type);                             \
@@ -24060,6 +24079,18 @@ bool Variant::booleanize() const {
 		_RETURN(sum);                                                                                      \
 	}
 
+#ifdef DEBUG_ENABLED
+static bool has_zero(const Vector2i &p_v) {
+	return p_v.x == 0 || p_v.y == 0;
+}
+static bool has_zero(const Vector3i &p_v) {
+	return p_v.x == 0 || p_v.y == 0 || p_v.z == 0;
+}
+static bool has_zero(const Vector4i &p_v) {
+	return p_v.x == 0 || p_v.y == 0 || p_v.z == 0 || p_v.w == 0;
+}
+#endif
+
 // Element by element; if one is the beginning of the other then the shorter one is less.
 template <class T>
 static bool pool_vector_less(const PoolVector<T> &p_a, const PoolVector<T> &p_b) {
@@ -24749,11 +24780,11 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 			DEFAULT_OP_NUM_DIV(math, OP_DIVIDE, INT, _int);
 			DEFAULT_OP_NUM_DIV(math, OP_DIVIDE, REAL, _real);
 			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR2, /, Vector2);
-			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR2I, /, Vector2i);
+			DEFAULT_OP_LOCALMEM_DIV_INT(math, OP_DIVIDE, VECTOR2I, Vector2i);
 			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR3, /, Vector3);
-			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR3I, /, Vector3i);
+			DEFAULT_OP_LOCALMEM_DIV_INT(math, OP_DIVIDE, VECTOR3I, Vector3i);
 			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR4, /, Vector4);
-			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR4I, /, Vector4i);
+			DEFAULT_OP_LOCALMEM_DIV_INT(math, OP_DIVIDE, VECTOR4I, Vector4i);
 			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, COLOR, /, Color);
 
 			CASE_TYPE(math, OP_DIVIDE, NIL)
-- 
2.43.0


From 2ba960d6de4d6d244abb9590121d48830331010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 185/259] fix: Variant::sub() and blend() read the pointer of
 an AABB as the box

---
 platform/sfw.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 4c639cb..63a9e7a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28649,8 +28649,8 @@ void Variant::sub(const Variant &a, const Variant &b, Variant &r_dst) {
 		}
 			return;
 		case AABB: {
-			const ::AABB *ra = reinterpret_cast<const ::AABB *>(a._data._mem);
-			const ::AABB *rb = reinterpret_cast<const ::AABB *>(b._data._mem);
+			const ::AABB *ra = a._data._aabb;
+			const ::AABB *rb = b._data._aabb;
 			r_dst = ::AABB(ra->position - rb->position, ra->size - rb->size);
 		}
 			return;
@@ -28748,8 +28748,8 @@ void Variant::blend(const Variant &a, const Variant &b, float c, Variant &r_dst)
 		}
 			return;
 		case AABB: {
-			const ::AABB *ra = reinterpret_cast<const ::AABB *>(a._data._mem);
-			const ::AABB *rb = reinterpret_cast<const ::AABB *>(b._data._mem);
+			const ::AABB *ra = a._data._aabb;
+			const ::AABB *rb = b._data._aabb;
 			r_dst = ::AABB(ra->position + rb->position * c, ra->size + rb->size * c);
 		}
 			return;
-- 
2.43.0


From f03018b9c937488f9f68cabe515de406e5556282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 186/259] fix: Variant::sub() and interpolate() mixed up the
 parts of a Rect2i

---
 platform/sfw.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 63a9e7a..f1d869b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28594,16 +28594,7 @@ void Variant::sub(const Variant &a, const Variant &b, Variant &r_dst) {
 			const Rect2i *ra = reinterpret_cast<const Rect2i *>(a._data._mem);
 			const Rect2i *rb = reinterpret_cast<const Rect2i *>(b._data._mem);
 
-			int32_t vax = ra->position.x;
-			int32_t vay = ra->position.y;
-			int32_t vbx = ra->size.x;
-			int32_t vby = ra->size.y;
-			int32_t vcx = rb->position.x;
-			int32_t vcy = rb->position.y;
-			int32_t vdx = rb->size.x;
-			int32_t vdy = rb->size.y;
-
-			r_dst = Rect2i(int32_t(vax - vbx), int32_t(vay - vby), int32_t(vcx - vdx), int32_t(vcy - vdy));
+			r_dst = Rect2i(ra->position - rb->position, ra->size - rb->size);
 		}
 			return;
 		case VECTOR2: {
@@ -28861,7 +28852,7 @@ void Variant::interpolate(const Variant &a, const Variant &b, float c, Variant &
 		}
 			return;
 		case RECT2I: {
-			r_dst = Rect2(reinterpret_cast<const Rect2i *>(a._data._mem)->position.linear_interpolate(reinterpret_cast<const Rect2i *>(b._data._mem)->position, c), reinterpret_cast<const Rect2 *>(a._data._mem)->size.linear_interpolate(reinterpret_cast<const Rect2 *>(b._data._mem)->size, c));
+			r_dst = Rect2i(reinterpret_cast<const Rect2i *>(a._data._mem)->position.linear_interpolate(reinterpret_cast<const Rect2i *>(b._data._mem)->position, c), reinterpret_cast<const Rect2i *>(a._data._mem)->size.linear_interpolate(reinterpret_cast<const Rect2i *>(b._data._mem)->size, c));
 		}
 			return;
 		case VECTOR2: {
-- 
2.43.0


From 06a648b46697210049791f56131413524cced210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 187/259] fix: the components of a Color in a Variant could not
 be read by StringName

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f1d869b..8162553 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -27601,7 +27601,7 @@ Variant Variant::get(const Variant &p_index, bool *r_valid) const {
 					valid = true;
 					return (*v)[idx];
 				}
-			} else if (p_index.get_type() == Variant::STRING) {
+			} else if (p_index.get_type() == Variant::STRING_NAME) {
 				const Color *v = reinterpret_cast<const Color *>(_data._mem);
 				if (p_index == CoreStringNames::singleton->r) {
 					valid = true;
-- 
2.43.0


From de92facfb8458a138186111c03f9868b5024b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 188/259] fix: Variant::blend() rounded negative integers the
 wrong way

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 8162553..9aff26f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28693,7 +28693,7 @@ void Variant::blend(const Variant &a, const Variant &b, float c, Variant &r_dst)
 		case INT: {
 			int64_t va = a._data._int;
 			int64_t vb = b._data._int;
-			r_dst = int(va + vb * c + 0.5);
+			r_dst = int(Math::floor(va + vb * double(c) + 0.5));
 		}
 			return;
 		case REAL: {
-- 
2.43.0


From b326e1c20b4c0bd9ec6d7fbbcbf9d5d50290ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 189/259] fix: Variant::set() by string on Vector3i and
 Vector4i, and on any Transform2D

---
 platform/sfw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 9aff26f..f235dcc 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -26183,7 +26183,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 			} else if (p_index.get_type() == Variant::STRING) {
 				//scalar name
 				const String *str = reinterpret_cast<const String *>(p_index._data._mem);
-				Vector3 *v = reinterpret_cast<Vector3 *>(_data._mem);
+				Vector3i *v = reinterpret_cast<Vector3i *>(_data._mem);
 				if (*str == "x") {
 					valid = true;
 					v->x = p_value;
@@ -26298,7 +26298,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 			} else if (p_index.get_type() == Variant::STRING) {
 				//scalar name
 				const String *str = reinterpret_cast<const String *>(p_index._data._mem);
-				Vector4 *v = reinterpret_cast<Vector4 *>(_data._mem);
+				Vector4i *v = reinterpret_cast<Vector4i *>(_data._mem);
 				if (*str == "x") {
 					valid = true;
 					v->x = p_value;
@@ -26633,7 +26633,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 
 		} break;
 		case TRANSFORM2D: {
-			if (p_value.type != Variant::VECTOR2 || p_value.get_type() != Variant::VECTOR2I) {
+			if (p_value.type != Variant::VECTOR2 && p_value.get_type() != Variant::VECTOR2I) {
 				return;
 			}
 
-- 
2.43.0


From 47c76eff2ccc2f1fec13c9f44fe14231166a7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 190/259] fix: erase_contents_recursive does not follow
 symbolic links out of the directory

---
 platform/sfw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f235dcc..644e92e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16502,7 +16502,8 @@ static Error _erase_recursive(DirAccess *da) {
 	String n = da->get_next();
 	while (n != String()) {
 		if (n != "." && n != "..") {
-			if (da->current_is_dir()) {
+			// A link to a directory is removed like a file, what it points to is not ours to erase.
+			if (da->current_is_dir() && !da->is_link(n)) {
 				dirs.push_back(n);
 			} else {
 				files.push_back(n);
-- 
2.43.0


From 14a471f09b2cdfc1611bffa98fe1bb135944ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 191/259] fix: is_link is false for a path that does not exist

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 644e92e..06e4ac3 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16407,7 +16407,7 @@ bool DirAccess::is_link(String p_file) {
 
 	struct stat flags;
 	if ((lstat(p_file.utf8().get_data(), &flags) != 0)) {
-		return FAILED;
+		return false;
 	}
 
 	return S_ISLNK(flags.st_mode);
-- 
2.43.0


From ed351539e1baaee3aae453045c10bb2cee51a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 192/259] fix: DirAccess::remove removes symbolic links instead
 of looking through them

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 06e4ac3..dc6cd0f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16389,7 +16389,7 @@ Error DirAccess::remove(String p_path) {
 	}
 
 	struct stat flags;
-	if ((stat(p_path.utf8().get_data(), &flags) != 0)) {
+	if ((lstat(p_path.utf8().get_data(), &flags) != 0)) {
 		return FAILED;
 	}
 
-- 
2.43.0


From c83475016ddaafcd3206e39938be6b171332bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 193/259] fix: '..' is a special directory entry

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index dc6cd0f..292fa82 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16797,7 +16797,7 @@ String DirAccess::get_filesystem_abspath_for(String p_path) {
 }
 
 bool DirAccess::is_special(const String &p_path) {
-	if (p_path.size() > 2) {
+	if (p_path.length() > 2) {
 		return false;
 	}
 
-- 
2.43.0


From b75847b0cf159c2cb34b7979ca7723132c85d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 194/259] fix: read_link returns targets longer than 256 bytes
 in full

---
 platform/sfw.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 292fa82..ec59183 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16418,8 +16418,7 @@ String DirAccess::read_link(String p_file) {
 		p_file = get_current_dir().plus_file(p_file);
 	}
 
-	char buf[256];
-	memset(buf, 0, 256);
+	char buf[PATH_MAX];
 	ssize_t len = readlink(p_file.utf8().get_data(), buf, sizeof(buf));
 	String link;
 	if (len > 0) {
-- 
2.43.0


From fe03c7978ef64014e2362fcd45a2dc52fd12c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 195/259] fix: DirAccess::exists resolves a relative directory
 once

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ec59183..e436c81 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16780,7 +16780,7 @@ Error DirAccess::copy_dir(String p_from, String p_to, int p_chmod_flags, bool p_
 }
 
 bool DirAccess::exists(String p_dir) {
-	DirAccess *da = DirAccess::create_for_path(p_dir);
+	DirAccess *da = DirAccess::create();
 	bool valid = da->change_dir(p_dir) == OK;
 	memdelete(da);
 	return valid;
-- 
2.43.0


From 4d8a539dcd08acf5ffd95b5922c2217563832244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 196/259] fix: make_dir_recursive fails when a file is in the
 way

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e436c81..f96aa1a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16590,6 +16590,9 @@ Error DirAccess::make_dir_recursive(String p_dir) {
 	for (int i = 0; i < subdirs.size(); i++) {
 		curpath = curpath.plus_file(subdirs[i]);
 		Error err = make_dir(curpath);
+		if (err == ERR_ALREADY_EXISTS && !dir_exists(curpath)) {
+			err = ERR_CANT_CREATE;
+		}
 		if (err != OK && err != ERR_ALREADY_EXISTS) {
 			ERR_FAIL_V_MSG(err, "Could not create directory: " + curpath);
 		}
-- 
2.43.0


From 4523349bcc670065cc2be4281b36d3196ea0c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 197/259] fix: opening another file first closes the open one
 properly, failed opens leave nothing to rename

---
 platform/sfw.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f96aa1a..191da18 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14821,10 +14821,7 @@ void FileAccess::check_errors() const {
 }
 
 Error FileAccess::_open(const String &p_path, int p_mode_flags) {
-	if (f) {
-		fclose(f);
-	}
-	f = nullptr;
+	close();
 
 	path_src = p_path;
 	path = fix_path(p_path);
@@ -14877,6 +14874,7 @@ Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 				last_error = ERR_FILE_CANT_OPEN;
 			} break;
 		}
+		save_path = "";
 		return last_error;
 	}
 
-- 
2.43.0


From 3b2b6b82e50191ca5dc570fc65267b2fe80a525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 198/259] fix: seek_end leaves the end of file state behind
 like seek does

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 191da18..8141472 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14944,6 +14944,7 @@ void FileAccess::seek(uint64_t p_position) {
 void FileAccess::seek_end(int64_t p_position) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 
+	last_error = OK;
 	if (fseeko(f, p_position, SEEK_END)) {
 		check_errors();
 	}
-- 
2.43.0


From 7d33685308fdb8cad6c906a36c0881cb266c7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 199/259] fix: StringBuilder takes the characters of a C string
 as Latin-1, like String does

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 8141472..29fde36 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14424,7 +14424,7 @@ String StringBuilder::as_string() const {
 			const char *s = c_strings[c_string_elem];
 
 			for (int32_t j = 0; j < appended_strings[i]; j++) {
-				buffer[current_position + j] = s[j];
+				buffer[current_position + j] = (uint8_t)s[j];
 			}
 
 			current_position += appended_strings[i];
-- 
2.43.0


From 794b56b61aedc974991ecf6f733b2635f23db3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 200/259] fix: StringBuffer takes the characters of a C string
 as Latin-1, like String does

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 58aabf4..72714a6 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17276,7 +17276,7 @@ StringBuffer<SHORT_BUFFER_SIZE> &StringBuffer<SHORT_BUFFER_SIZE>::append(const c
 
 	CharType *buf = current_buffer_ptr();
 	for (const char *c_ptr = p_str; *c_ptr; ++c_ptr) {
-		buf[string_length++] = *c_ptr;
+		buf[string_length++] = (uint8_t)*c_ptr;
 	}
 	return *this;
 }
-- 
2.43.0


From 21d2c559e5928a2da8833f3a81f491bf14777e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 201/259] fix: StringBuffer grows again after as_string()
 shrank a reserved buffer

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 72714a6..0dfe4f7 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17296,7 +17296,7 @@ StringBuffer<SHORT_BUFFER_SIZE> &StringBuffer<SHORT_BUFFER_SIZE>::append(const C
 
 template <int SHORT_BUFFER_SIZE>
 StringBuffer<SHORT_BUFFER_SIZE> &StringBuffer<SHORT_BUFFER_SIZE>::reserve(int p_size) {
-	if (p_size < SHORT_BUFFER_SIZE || p_size < buffer.size()) {
+	if ((p_size < SHORT_BUFFER_SIZE && buffer.empty()) || p_size < buffer.size()) {
 		return *this;
 	}
 
-- 
2.43.0


From ad88055c3dc819ce3178000a481c2692ee33fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 202/259] fix: save_png closes the file it wrote and frees the
 encoded image

---
 platform/image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index d14dfaa..53dd198 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1674,10 +1674,13 @@ Error Image::save_png(const String &file_name) {
 	FileAccess *f = FileAccess::create_and_open(file_name, FileAccess::WRITE);
 
 	if (!f) {
+		STBIW_FREE(ret_arr);
 		return FAILED;
 	}
 
 	f->store_buffer(ret_arr, out_length);
+	memdelete(f);
+	STBIW_FREE(ret_arr);
 
 	return OK;
 }
-- 
2.43.0


From a5c2470589186364ad9e2fa6e580aee9dc961eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 203/259] fix: load_from_file loads images without an alpha
 channel, and frees the pixels the way they were allocated

---
 platform/image.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 53dd198..591207a 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1432,12 +1432,6 @@ void Image::load_from_file(const String &file_name, Format p_format) {
 
 	ERR_FAIL_COND_MSG(!pixels, "Couldn't load image! " + file_name);
 
-	if (n != img_n) {
-		memdelete(pixels);
-		ERR_PRINT("Couldn't load image! n != img_n");
-		return;
-	}
-
 	int size = x * y * get_format_pixel_size(FORMAT_RGBA8);
 
 	data.resize(size);
@@ -1452,7 +1446,7 @@ void Image::load_from_file(const String &file_name, Format p_format) {
 	mipmaps = false;
 	format = FORMAT_RGBA8;
 
-	memdelete(pixels);
+	stbi_image_free(pixels);
 
 	if (p_format != FORMAT_RGBA8) {
 		convert(p_format);
-- 
2.43.0


From 2c297c8c0640e0a7922c8dc57fcf8dc855716bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 204/259] fix: get_rect returns an image of the size of the
 area

---
 platform/image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 591207a..5630492 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1964,7 +1964,7 @@ Rect2 Image::get_used_rect() const {
 }
 
 Ref<Image> Image::get_rect(const Rect2 &p_area) const {
-	Ref<Image> img = new Image(p_area.position.x, p_area.position.y, mipmaps, format);
+	Ref<Image> img = memnew(Image(p_area.size.x, p_area.size.y, mipmaps, format));
 	img->blit_rect(Ref<Image>((Image *)this), p_area, Vector2(0, 0));
 	return img;
 }
-- 
2.43.0


From 35a612e4b12763a45d368b5a561ddafe103d91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 205/259] fix: blitting and blending to negative positions
 reads the right part of the source, and nothing behind it

---
 platform/image.cpp | 60 +++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 5630492..d5fbc8b 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1980,19 +1980,22 @@ void Image::blit_rect(const Ref<Image> &p_src, const Rect2 &p_src_rect, const Ve
 
 	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
 
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
+	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
+	Vector2 dest = p_dest - src_underscan;
+
+	// What falls outside of this image to the left or above is skipped in the source too.
+	if (dest.x < 0) {
+		clipped_src_rect.position.x += ABS(dest.x);
 	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
+	if (dest.y < 0) {
+		clipped_src_rect.position.y += ABS(dest.y);
 	}
 
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
+	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(dest, clipped_src_rect.size));
 
 	write_lock = true;
 	uint8_t *dst_data_ptr = data.ptrw();
@@ -2036,19 +2039,22 @@ void Image::blit_rect_mask(const Ref<Image> &p_src, const Ref<Image> &p_mask, co
 
 	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
 
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
+	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
+	Vector2 dest = p_dest - src_underscan;
+
+	// What falls outside of this image to the left or above is skipped in the source too.
+	if (dest.x < 0) {
+		clipped_src_rect.position.x += ABS(dest.x);
 	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
+	if (dest.y < 0) {
+		clipped_src_rect.position.y += ABS(dest.y);
 	}
 
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
+	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(dest, clipped_src_rect.size));
 
 	write_lock = true;
 
@@ -2095,19 +2101,22 @@ void Image::blend_rect(const Ref<Image> &p_src, const Rect2 &p_src_rect, const V
 
 	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
 
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
+	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
+	Vector2 dest = p_dest - src_underscan;
+
+	// What falls outside of this image to the left or above is skipped in the source too.
+	if (dest.x < 0) {
+		clipped_src_rect.position.x += ABS(dest.x);
 	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
+	if (dest.y < 0) {
+		clipped_src_rect.position.y += ABS(dest.y);
 	}
 
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
+	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(dest, clipped_src_rect.size));
 
 	lock();
 	Ref<Image> img = p_src;
@@ -2149,19 +2158,22 @@ void Image::blend_rect_mask(const Ref<Image> &p_src, const Ref<Image> &p_mask, c
 
 	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
 
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
+	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
+	Vector2 dest = p_dest - src_underscan;
+
+	// What falls outside of this image to the left or above is skipped in the source too.
+	if (dest.x < 0) {
+		clipped_src_rect.position.x += ABS(dest.x);
 	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
+	if (dest.y < 0) {
+		clipped_src_rect.position.y += ABS(dest.y);
 	}
 
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
+	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(dest, clipped_src_rect.size));
 
 	lock();
 	Ref<Image> img = p_src;
-- 
2.43.0


From 2ccd7d3fd6ca0c23d8a5c13fb15792a0aa2ff811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 206/259] fix: converting between grayscale formats does not
 mix in neighboring pixels or alpha

---
 platform/image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index d5fbc8b..85c7901 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -184,7 +184,7 @@ static void _convert(int p_width, int p_height, const uint8_t *p_src, uint8_t *p
 			const uint8_t *rofs = &p_src[((y * p_width) + x) * (read_bytes + (read_alpha ? 1 : 0))];
 			uint8_t *wofs = &p_dst[((y * p_width) + x) * (write_bytes + (write_alpha ? 1 : 0))];
 
-			uint8_t rgba[4];
+			uint8_t rgba[4] = { 0, 0, 0, 0 };
 
 			if (read_gray) {
 				rgba[0] = rofs[0];
@@ -202,7 +202,7 @@ static void _convert(int p_width, int p_height, const uint8_t *p_src, uint8_t *p
 
 			if (write_gray) {
 				// TODO: not correct grayscale, should use fixed point version of actual weights
-				wofs[0] = uint8_t((uint16_t(rofs[0]) + uint16_t(rofs[1]) + uint16_t(rofs[2])) / 3);
+				wofs[0] = uint8_t((uint16_t(rgba[0]) + uint16_t(rgba[1]) + uint16_t(rgba[2])) / 3);
 			} else {
 				for (uint32_t i = 0; i < write_bytes; i++) {
 					wofs[i] = rgba[i];
-- 
2.43.0


From e29ca7bde8f39206d4f3d9298911020a9cb5027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 207/259] fix: cubic resize weights its first row and column
 right

---
 platform/image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 85c7901..abbe0eb 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -400,13 +400,13 @@ static void _scale_cubic(const uint8_t *__restrict p_src, uint8_t *__restrict p_
 	for (uint32_t y = 0; y < p_dst_height; y++) {
 		// Y coordinates
 		oy = (double)y * yfac - 0.5f;
-		oy1 = (int)oy;
+		oy1 = (int)Math::floor(oy);
 		dy = oy - (double)oy1;
 
 		for (uint32_t x = 0; x < p_dst_width; x++) {
 			// X coordinates
 			ox = (double)x * xfac - 0.5f;
-			ox1 = (int)ox;
+			ox1 = (int)Math::floor(ox);
 			dx = ox - (double)ox1;
 
 			// initial pixel value
-- 
2.43.0


From a96d5fe67176a948835efdffdd8b35978862c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 208/259] fix: images made from XPM data start unlocked

---
 platform/image.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index abbe0eb..d30331d 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1896,6 +1896,7 @@ Image::Image(const char **p_xpm) {
 	height = 0;
 	mipmaps = false;
 	format = FORMAT_L8;
+	write_lock = false;
 
 	create(p_xpm);
 }
-- 
2.43.0


From d7d6f36a4f49a1f65a79a0011bd54ad41b536a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 209/259] fix: shrink_x2 rejects images it cannot shrink

---
 platform/image.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index d30331d..7ff2bdc 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1186,6 +1186,8 @@ void Image::shrink_x2() {
 		// just use the lower mipmap as base and copy all
 		Vector<uint8_t> new_img;
 
+		ERR_FAIL_COND(get_mipmap_count() < 1);
+
 		int ofs = get_mipmap_offset(1);
 
 		int new_size = data.size() - ofs;
@@ -1205,7 +1207,7 @@ void Image::shrink_x2() {
 	} else {
 		Vector<uint8_t> new_img;
 
-		ERR_FAIL_COND(!_can_modify(format));
+		ERR_FAIL_COND(format == FORMAT_RGBA4444 || format == FORMAT_RGBA5551);
 		int ps = get_format_pixel_size(format);
 		new_img.resize((width / 2) * (height / 2) * ps);
 		ERR_FAIL_COND(new_img.size() == 0);
-- 
2.43.0


From 1e8920f1dd441dbf1e71b2f1c790cbd62a77de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 210/259] fix: is_invisible looks at the alpha of every format
 that has one, and is false for the others

---
 platform/image.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 7ff2bdc..0d5008e 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1789,8 +1789,9 @@ Error Image::save_hdr(const String &file_name) {
 	}
 
 bool Image::is_invisible() const {
-	if (format == FORMAT_L8 ||
-			format == FORMAT_RGB8 || format == FORMAT_RG8) {
+	if (format == FORMAT_L8 || format == FORMAT_R8 ||
+			format == FORMAT_RGB8 || format == FORMAT_RG8 ||
+			format == FORMAT_RF || format == FORMAT_RGF || format == FORMAT_RGBF) {
 		return false;
 	}
 
@@ -1822,6 +1823,12 @@ bool Image::is_invisible() const {
 		} break;
 
 		default: {
+			for (int i = 0; i < width * height; i++) {
+				if (get_pixel(i % width, i / width).a > 0) {
+					detected = true;
+					break;
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From f191e910ffd3195fddec2629e1ca3738e3d966a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 211/259] fix: bumpmap_to_normalmap keeps mipmaps

---
 platform/image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 0d5008e..074f09a 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2614,6 +2614,10 @@ void Image::bumpmap_to_normalmap(float bump_scale) {
 	}
 	format = FORMAT_RGBA8;
 	data = result_image;
+
+	if (mipmaps) {
+		generate_mipmaps();
+	}
 }
 
 void Image::srgb_to_linear() {
-- 
2.43.0


From 322271e4dc669dd5c6f3a7a2d57b69fa6c0a5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 212/259] fix: RGBA5551 colors have 31 steps when read too, and
 stay the same when written back

---
 platform/image.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 074f09a..33cdbed 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2346,9 +2346,9 @@ Color Image::get_pixel(int p_x, int p_y) const {
 		}
 		case FORMAT_RGBA5551: {
 			uint16_t u = ((uint16_t *)ptr)[ofs];
-			float r = ((u >> 11) & 0x1F) / 15.0;
-			float g = ((u >> 6) & 0x1F) / 15.0;
-			float b = ((u >> 1) & 0x1F) / 15.0;
+			float r = ((u >> 11) & 0x1F) / 31.0;
+			float g = ((u >> 6) & 0x1F) / 31.0;
+			float b = ((u >> 1) & 0x1F) / 31.0;
 			float a = (u & 0x1) / 1.0;
 			return Color(r, g, b, a);
 		}
@@ -2437,9 +2437,9 @@ void Image::set_pixel(int p_x, int p_y, const Color &p_color) {
 		case FORMAT_RGBA5551: {
 			uint16_t rgba = 0;
 
-			rgba = uint16_t(CLAMP(p_color.r * 31.0, 0, 31)) << 11;
-			rgba |= uint16_t(CLAMP(p_color.g * 31.0, 0, 31)) << 6;
-			rgba |= uint16_t(CLAMP(p_color.b * 31.0, 0, 31)) << 1;
+			rgba = uint16_t(CLAMP(Math::round(p_color.r * 31.0), 0, 31)) << 11;
+			rgba |= uint16_t(CLAMP(Math::round(p_color.g * 31.0), 0, 31)) << 6;
+			rgba |= uint16_t(CLAMP(Math::round(p_color.b * 31.0), 0, 31)) << 1;
 			rgba |= uint16_t(p_color.a > 0.5 ? 1 : 0);
 
 			((uint16_t *)ptr)[ofs] = rgba;
-- 
2.43.0


From bcd2a51b250d2f568937999f6ae63e1f3c1ab252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 213/259] fix: resizing RGBA4444 and RGBA5551 images keeps
 their content

---
 platform/image.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 33cdbed..d2c7e2e 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -746,6 +746,15 @@ void Image::resize(int p_width, int p_height, Interpolation p_interpolation) {
 		return;
 	}
 
+	if (format == FORMAT_RGBA4444 || format == FORMAT_RGBA5551) {
+		// Channels do not lie at byte boundaries here.
+		Format packed_format = format;
+		convert(FORMAT_RGBA8);
+		resize(p_width, p_height, p_interpolation);
+		convert(packed_format);
+		return;
+	}
+
 	Image dst(p_width, p_height, false, format);
 
 	// Setup mipmap-aware scaling
-- 
2.43.0


From f59efa10a2717e887e4c5d8e55e1d2ab1161aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 214/259] fix: trilinear resize blends float images by value,
 not byte by byte

---
 platform/image.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index d2c7e2e..fa9f318 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -708,6 +708,12 @@ static void _overlay(const uint8_t *__restrict p_src, uint8_t *__restrict p_dst,
 	}
 }
 
+static void _overlay_float(const float *__restrict p_src, float *__restrict p_dst, float p_alpha, uint32_t p_count) {
+	for (uint32_t i = 0; i < p_count; i++) {
+		p_dst[i] += (p_src[i] - p_dst[i]) * p_alpha;
+	}
+}
+
 bool Image::is_size_po2() const {
 	return uint32_t(width) == next_power_of_2(width) && uint32_t(height) == next_power_of_2(height);
 }
@@ -896,7 +902,11 @@ void Image::resize(int p_width, int p_height, Interpolation p_interpolation) {
 
 			if (interpolate_mipmaps) {
 				// Switch to read again from the first scaled mipmap to overlay it over the second
-				_overlay(dst.data.ptr(), w_ptr, mip1_weight, p_width, p_height, get_format_pixel_size(format));
+				if (format >= FORMAT_RF) {
+					_overlay_float((const float *)dst.data.ptr(), (float *)w_ptr, mip1_weight, p_width * p_height * get_format_pixel_size(format) / 4);
+				} else {
+					_overlay(dst.data.ptr(), w_ptr, mip1_weight, p_width, p_height, get_format_pixel_size(format));
+				}
 			}
 
 		} break;
-- 
2.43.0


From e92dc3fee800e38e2fbdcfd58133d226a6dfe85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 215/259] fix: objects start without a class name pointer and
 without a reference count, instead of with garbage

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 29fde36..c595d3e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18469,6 +18469,8 @@ void Object::cancel_free() {
 Object::Object() {
 	_is_queued_for_deletion = false;
 	_predelete_ok = 0;
+	_class_ptr = nullptr;
+	_rc.store(nullptr, std::memory_order_release);
 	_instance_id = 0;
 	_instance_id = ObjectDB::add_instance(this);
 }
-- 
2.43.0


From e9983e2078fde102ede662baf73d58d22238fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 216/259] fix: deleted objects leave the object database, and
 variants that hold them notice

---
 platform/sfw.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c595d3e..c4891c9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18476,6 +18476,13 @@ Object::Object() {
 }
 
 Object::~Object() {
+	ObjectRC *rc = _rc.load(std::memory_order_acquire);
+	if (rc && rc->invalidate()) {
+		memdelete(rc);
+	}
+
+	ObjectDB::remove_instance(this);
+	_instance_id = 0;
 }
 
 ObjectRC *Object::_use_rc() {
-- 
2.43.0


From 15e71776d7351812c6a193d0e93041f9541ad476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 217/259] fix: a Ref can be assigned from a member of the
 object it holds

---
 platform/sfw.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 0dfe4f7..be24a9f 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -19240,7 +19240,9 @@ class Ref {
 			return;
 		}
 
-		unref();
+		// p_from may be part of the object that is let go here, so take the new one first
+		Ref old;
+		old.reference = reference;
 
 		reference = p_from.reference;
 		if (reference) {
-- 
2.43.0


From 7656efb199a3956337aac1c105e87d3fd9f1d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 218/259] fix: signals free their connections

---
 platform/sfw.cpp | 31 +++++++++++++++++++++++++++++++
 platform/sfw.h   | 18 ++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c4891c9..de790d3 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19810,6 +19810,7 @@ void Signal::disconnect_static(void (*func)(Signal *)) {
 
 			if (se->func == func) {
 				entries.remove(i);
+				memdelete(e);
 				return;
 			}
 		}
@@ -19908,8 +19909,38 @@ void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const
 }
 
 Signal::Signal() {
+	emitter = nullptr;
+}
+Signal::Signal(const Signal &p_other) {
+	emitter = nullptr;
+	*this = p_other;
 }
 Signal::~Signal() {
+	_clear_entries();
+}
+
+void Signal::operator=(const Signal &p_other) {
+	if (this == &p_other) {
+		return;
+	}
+
+	_clear_entries();
+
+	emitter = p_other.emitter;
+	params = p_other.params;
+	static_data = p_other.static_data;
+
+	for (int i = 0; i < p_other.entries.size(); ++i) {
+		entries.push_back(p_other.entries[i]->duplicate());
+	}
+}
+
+void Signal::_clear_entries() {
+	for (int i = 0; i < entries.size(); ++i) {
+		memdelete(entries[i]);
+	}
+
+	entries.clear();
 }
 #line 0
 
diff --git a/platform/sfw.h b/platform/sfw.h
index be24a9f..3e8c979 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18750,8 +18750,11 @@ public:
 	void emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4, const Variant &p5);
 
 	Signal();
+	Signal(const Signal &p_other);
 	~Signal();
 
+	void operator=(const Signal &p_other);
+
 protected:
 	enum SignalEntryType {
 		SIGNAL_ENTRY_TYPE_NONE = 0,
@@ -18765,6 +18768,10 @@ protected:
 		virtual void call(Signal *s) {
 		}
 
+		virtual SignalEntry *duplicate() const {
+			return memnew(SignalEntry(*this));
+		}
+
 		SignalEntry() {
 			type = SIGNAL_ENTRY_TYPE_NONE;
 		}
@@ -18777,6 +18784,10 @@ protected:
 			func(s);
 		}
 
+		virtual SignalEntry *duplicate() const {
+			return memnew(StaticSignalEntry(*this));
+		}
+
 		StaticSignalEntry() {
 			type = SIGNAL_ENTRY_TYPE_STATIC;
 			func = nullptr;
@@ -18812,6 +18823,10 @@ protected:
 			func(obj, s);
 		}
 
+		virtual SignalEntry *duplicate() const {
+			return memnew(ClassSignalEntrySpec<T>(*this));
+		}
+
 		void *get_obj_ptr() {
 			return obj_ptr;
 		}
@@ -18827,6 +18842,8 @@ protected:
 	};
 
 protected:
+	void _clear_entries();
+
 	Vector<SignalEntry *> entries;
 };
 
@@ -18856,6 +18873,7 @@ void Signal::disconnect(T *obj, void (*func)(T *, Signal *)) {
 
 			if (se->get_obj_ptr() == obj_ptr && se->get_func_ptr() == func_ptr) {
 				entries.remove(i);
+				memdelete(e);
 				return;
 			}
 		}
-- 
2.43.0


From 7f0f67fb049d1a93e5f58704916f3ab646d0b556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 219/259] fix: a signal emitted by its own callback leaves the
 outer emission its parameters and emitter

---
 platform/sfw.cpp | 80 ++++++++++++++++--------------------------------
 platform/sfw.h   |  1 +
 2 files changed, 28 insertions(+), 53 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index de790d3..1901251 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19832,80 +19832,54 @@ bool Signal::is_connected_static(void (*func)(Signal *)) {
 	return false;
 }
 
-void Signal::emit(Object *p_emitter) {
-	emitter = p_emitter;
+void Signal::_emit(Object *p_emitter, const Variant **p_args, int p_arg_count) {
+	// A callback may emit again, the outer emission goes on with its own parameters afterwards
+	Object *last_emitter = emitter;
+	Vector<Variant> last_params = params;
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
+	Vector<Variant> new_params;
+	for (int i = 0; i < p_arg_count; ++i) {
+		new_params.push_back(*p_args[i]);
 	}
-}
 
-void Signal::emit(Object *p_emitter, const Variant &p1) {
 	emitter = p_emitter;
-
-	params.push_back(p1);
+	params = new_params;
 
 	for (int i = 0; i < entries.size(); ++i) {
 		entries[i]->call(this);
 	}
 
-	params.clear();
+	emitter = last_emitter;
+	params = last_params;
 }
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2) {
-	emitter = p_emitter;
-
-	params.push_back(p1);
-	params.push_back(p2);
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
-
-	params.clear();
+void Signal::emit(Object *p_emitter) {
+	_emit(p_emitter, nullptr, 0);
 }
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3) {
-	emitter = p_emitter;
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
+void Signal::emit(Object *p_emitter, const Variant &p1) {
+	const Variant *args[] = { &p1 };
+	_emit(p_emitter, args, 1);
+}
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2) {
+	const Variant *args[] = { &p1, &p2 };
+	_emit(p_emitter, args, 2);
+}
 
-	params.clear();
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3) {
+	const Variant *args[] = { &p1, &p2, &p3 };
+	_emit(p_emitter, args, 3);
 }
 
 void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4) {
-	emitter = p_emitter;
-
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-	params.push_back(p4);
-
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
-
-	params.clear();
+	const Variant *args[] = { &p1, &p2, &p3, &p4 };
+	_emit(p_emitter, args, 4);
 }
 
 void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4, const Variant &p5) {
-	emitter = p_emitter;
-
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-	params.push_back(p4);
-	params.push_back(p5);
-
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
-
-	params.clear();
+	const Variant *args[] = { &p1, &p2, &p3, &p4, &p5 };
+	_emit(p_emitter, args, 5);
 }
 
 Signal::Signal() {
diff --git a/platform/sfw.h b/platform/sfw.h
index 3e8c979..00f084d 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18842,6 +18842,7 @@ protected:
 	};
 
 protected:
+	void _emit(Object *p_emitter, const Variant **p_args, int p_arg_count);
 	void _clear_entries();
 
 	Vector<SignalEntry *> entries;
-- 
2.43.0


From fe48505976cb3ad1cbaf7e2ea487898e8cd17020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 220/259] fix: normalizing a zero Vector4 gives zero like for
 the other vectors

---
 platform/sfw.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1901251..d6dd18a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14250,11 +14250,18 @@ real_t Vector4::length() const {
 }
 
 void Vector4::normalize() {
-	*this /= length();
+	const real_t l = length();
+	if (l == 0) {
+		*this = Vector4();
+	} else {
+		*this /= l;
+	}
 }
 
 Vector4 Vector4::normalized() const {
-	return *this / length();
+	Vector4 v = *this;
+	v.normalize();
+	return v;
 }
 
 bool Vector4::is_normalized() const {
-- 
2.43.0


From 6e97b2c8d57e76a953a070b58eae039574c083f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 221/259] fix: create_orthogonal uses the near distance it is
 given

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d6dd18a..7ead1d1 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9926,7 +9926,7 @@ Projection Projection::create_for_hmd(int p_eye, real_t p_aspect, real_t p_intra
 
 Projection Projection::create_orthogonal(real_t p_left, real_t p_right, real_t p_bottom, real_t p_top, real_t p_znear, real_t p_zfar) {
 	Projection proj;
-	proj.set_orthogonal(p_left, p_right, p_bottom, p_top, p_zfar, p_zfar);
+	proj.set_orthogonal(p_left, p_right, p_bottom, p_top, p_znear, p_zfar);
 	return proj;
 }
 
-- 
2.43.0


From ea1325f7bffa7f6969b7153a3413d5a3092c6d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 222/259] fix: a triangle's edge back to its first vertex can
 be its support

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7ead1d1..2f30452 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -12583,7 +12583,7 @@ void Face3::get_support(const Vector3 &p_normal, const Transform &p_transform, V
 	/** TEST EDGES AS SUPPORT **/
 
 	for (int i = 0; i < 3; i++) {
-		if (i != vert_support_idx && i + 1 != vert_support_idx) {
+		if (i != vert_support_idx && (i + 1) % 3 != vert_support_idx) {
 			continue;
 		}
 
-- 
2.43.0


From f72d057f7ce3a3adaa922050b8c776298ad07f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 223/259] fix: a thread takes its own id from itself, not from
 the Thread object that may not have it yet

---
 platform/sfw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2f30452..7008be0 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -1642,7 +1642,8 @@ void Thread::_set_platform_funcs(
 }
 
 void Thread::callback(Thread *p_self, const Settings &p_settings, Callback p_callback, void *p_userdata) {
-	caller_id = _thread_id_hash(p_self->thread.get_id());
+	// p_self may not have been given the thread yet, or not be there any more
+	caller_id = _thread_id_hash(std::this_thread::get_id());
 	caller_id_cached = true;
 
 	if (set_priority_func) {
-- 
2.43.0


From e8ae02f9019f50217393d1affec8c89f1d5f6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 224/259] fix: ObjectDB::get_instance reads the entry while it
 holds the lock

---
 platform/sfw.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7008be0..4b607f9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18555,13 +18555,11 @@ void ObjectDB::remove_instance(Object *p_object) {
 }
 Object *ObjectDB::get_instance(ObjectID p_instance_id) {
 	rw_lock.read_lock();
-	Object **obj = instances.getptr(p_instance_id);
+	Object **entry = instances.getptr(p_instance_id);
+	Object *obj = entry ? *entry : nullptr;
 	rw_lock.read_unlock();
 
-	if (!obj) {
-		return nullptr;
-	}
-	return *obj;
+	return obj;
 }
 
 void ObjectDB::debug_objects(DebugFunc p_func) {
-- 
2.43.0


From ea5731fdff1790875900824d81d51f7666a82a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 225/259] fix: PagedAllocator::free counts the slot while it
 holds the lock

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 00f084d..1ae3d97 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -6141,10 +6141,10 @@ public:
 		}
 		p_mem->~T();
 		available_pool[allocs_available >> page_shift][allocs_available & page_mask] = p_mem;
+		allocs_available++;
 		if (thread_safe) {
 			spin_lock.unlock();
 		}
-		allocs_available++;
 	}
 
 	void reset(bool p_allow_unfreed = false) {
-- 
2.43.0


From b2345d529cf97cafbec4f5c892893d41a0c002ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 226/259] fix: a PoolVector can be resized while a copy of it
 is being read

---
 platform/sfw.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 1ae3d97..f719233 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9261,7 +9261,8 @@ Error PoolVector<T>::resize(int p_size) {
 		MemoryPool::alloc_mutex.unlock();
 
 	} else {
-		ERR_FAIL_COND_V_MSG(alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked."); //can't resize if locked!
+		// When the memory is shared this vector gets its own before it is resized, so only a lock on memory of its own is in the way.
+		ERR_FAIL_COND_V_MSG(alloc->refcount.get() == 1 && alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked."); //can't resize if locked!
 	}
 
 	size_t new_size = sizeof(T) * p_size;
-- 
2.43.0


From 3136ad9b366829195a60da60e0667e686bf9c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 227/259] fix: the last user of an ObjectRC frees it after all
 uses by the others

---
 platform/sfw.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index f719233..aa9a153 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -19204,7 +19204,8 @@ public:
 	}
 
 	_FORCE_INLINE_ bool decrement() {
-		return _users.fetch_sub(1, std::memory_order_relaxed) == 1;
+		// Whoever frees this has to see everything the other users did with it before.
+		return _users.fetch_sub(1, std::memory_order_acq_rel) == 1;
 	}
 
 	_FORCE_INLINE_ bool invalidate() {
-- 
2.43.0


From 72fb53169d7b2f71dd02a43698bc182d3c4d8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 228/259] fix: a loopback-only IPv4 InetAddress is the loopback
 address, not every address

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 4b607f9..77c9585 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16889,7 +16889,7 @@ struct in6__addruint {
 
 // INADDR_ANY use (type)value casting.
 static const in_addr_t kInaddrAny = INADDR_ANY;
-static const in_addr_t kInaddrLoopback = INADDR_ANY;
+static const in_addr_t kInaddrLoopback = INADDR_LOOPBACK;
 
 //     /* Structure describing an Internet socket address.  */
 //     struct sock_addrin {
-- 
2.43.0


From 2f23c6053e58584a0d8d1ba14645765d00133a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 229/259] fix: an InetAddress made from a sockaddr_in knows
 that it is IPv4

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 77c9585..cf1ba3c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17126,6 +17126,7 @@ InetAddress::InetAddress(const struct sockaddr_in &addr) {
 	_data = memnew(InetAddressData);
 
 	_data->_addr = addr;
+	_is_ip_v6 = false;
 	_is_unspecified = false;
 }
 
-- 
2.43.0


From da8a351ad7cf99ba1c97b394c8a873fad1555a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 230/259] fix: an InetAddress whose text is no address is
 unspecified

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index cf1ba3c..5697c2f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17100,6 +17100,7 @@ InetAddress::InetAddress(const String &ip, uint16_t port, bool ipv6) {
 	_data = memnew(InetAddressData);
 
 	_is_ip_v6 = ipv6;
+	_is_unspecified = true;
 
 	if (ipv6) {
 		memset(&_data->_addr6, 0, sizeof(_data->_addr6));
-- 
2.43.0


From 30d4a271ddfd8d0fbb7f4521166a88e368e4540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 231/259] fix: InetAddress::is_unspecified can be called from
 other files

---
 platform/sfw.cpp | 2 +-
 platform/sfw.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 5697c2f..9df4a2a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17058,7 +17058,7 @@ void InetAddress::set_port_net_endian(uint16_t port) {
 	_data->_addr.sin_port = port;
 }
 
-inline bool InetAddress::is_unspecified() const {
+bool InetAddress::is_unspecified() const {
 	return _is_unspecified;
 }
 
diff --git a/platform/sfw.h b/platform/sfw.h
index aa9a153..33128e4 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17801,7 +17801,7 @@ public:
 
 	void set_port_net_endian(uint16_t port);
 
-	inline bool is_unspecified() const;
+	bool is_unspecified() const;
 
 	InetAddress(uint16_t port = 0, bool loopbackOnly = false, bool ipv6 = false);
 	InetAddress(const String &ip, uint16_t port, bool ipv6 = false);
-- 
2.43.0


From 55fda0a15373e775a1ebddbeb62680b7862a8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 232/259] fix: copies of an InetAddress have data of their own

---
 platform/sfw.cpp | 14 ++++++++++++++
 platform/sfw.h   |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 9df4a2a..a9c7cac 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17139,6 +17139,20 @@ InetAddress::InetAddress(const struct sockaddr_in6 &addr) {
 	_is_unspecified = false;
 }
 
+InetAddress::InetAddress(const InetAddress &other) {
+	_data = memnew(InetAddressData);
+	*_data = *other._data;
+	_is_ip_v6 = other._is_ip_v6;
+	_is_unspecified = other._is_unspecified;
+}
+
+InetAddress &InetAddress::operator=(const InetAddress &other) {
+	*_data = *other._data;
+	_is_ip_v6 = other._is_ip_v6;
+	_is_unspecified = other._is_unspecified;
+	return *this;
+}
+
 InetAddress::~InetAddress() {
 	memdelete(_data);
 }
diff --git a/platform/sfw.h b/platform/sfw.h
index 33128e4..80dd2bb 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17808,6 +17808,8 @@ public:
 
 	explicit InetAddress(const struct sockaddr_in &addr);
 	explicit InetAddress(const struct sockaddr_in6 &addr);
+	InetAddress(const InetAddress &other);
+	InetAddress &operator=(const InetAddress &other);
 
 	~InetAddress();
 
-- 
2.43.0


From 2b770c368098a17f811faec8f47766f19341bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 233/259] fix: the text of an InetAddress of another family is
 empty

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a9c7cac..3a2e477 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17013,7 +17013,7 @@ sa_family_t InetAddress::family() const {
 }
 
 String InetAddress::to_ip() const {
-	char buf[64];
+	char buf[64] = "";
 	if (_data->_addr.sin_family == AF_INET) {
 #if defined GCCWIN || (_MSC_VER && _MSC_VER >= 1900)
 		::inet_ntop(AF_INET, (PVOID)&_data->_addr.sin_addr, buf, sizeof(buf));
-- 
2.43.0


From d3e170ec227ea6430b8b9a6b95c461344beb579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 234/259] fix: the arguments of a process whose output is read
 reach it unchanged

---
 platform/sfw.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3a2e477..a276cea 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17901,6 +17901,11 @@ SubProcess::~SubProcess() {
 #include <sys/wait.h>
 #include <unistd.h>
 
+// Makes the shell pass the text on as it is.
+static String _shell_quote(const String &p_text) {
+	return "'" + p_text.replace("'", "'\\''") + "'";
+}
+
 Error SubProcess::start() {
 #ifdef __EMSCRIPTEN__
 	// Don't compile this code at all to avoid undefined references.
@@ -17917,10 +17922,10 @@ Error SubProcess::start() {
 
 	if (_blocking && _read_output) {
 		String argss;
-		argss = "\"" + _executable_path + "\"";
+		argss = _shell_quote(_executable_path);
 
 		for (int i = 0; i < _arguments.size(); i++) {
-			argss += String(" \"") + _arguments[i] + "\"";
+			argss += " " + _shell_quote(_arguments[i]);
 		}
 
 		if (_read_std_err) {
@@ -17952,10 +17957,10 @@ Error SubProcess::start() {
 
 	if (!_blocking && _read_output) {
 		String argss;
-		argss = "\"" + _executable_path + "\"";
+		argss = _shell_quote(_executable_path);
 
 		for (int i = 0; i < _arguments.size(); i++) {
-			argss += String(" \"") + _arguments[i] + "\"";
+			argss += " " + _shell_quote(_arguments[i]);
 		}
 
 		if (_read_std_err) {
-- 
2.43.0


From ccf39bda7cad4bdf6f5ecf41794477cf0b0bde62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 235/259] fix: starting a SubProcess again closes the pipe of
 the one that ended

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a276cea..9de4a9b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17920,6 +17920,9 @@ Error SubProcess::start() {
 		return ERR_BUSY;
 	}
 
+	// Collect an earlier process that has ended.
+	stop();
+
 	if (_blocking && _read_output) {
 		String argss;
 		argss = _shell_quote(_executable_path);
-- 
2.43.0


From 7551d2edf7e4fe07818231c83a76de3c18f737e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 236/259] fix: the data of a SubProcess is from its latest run

---
 platform/sfw.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 9de4a9b..6200329 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17923,6 +17923,14 @@ Error SubProcess::start() {
 	// Collect an earlier process that has ended.
 	stop();
 
+	if (_pipe_mutex) {
+		_pipe_mutex->lock();
+	}
+	_pipe = String();
+	if (_pipe_mutex) {
+		_pipe_mutex->unlock();
+	}
+
 	if (_blocking && _read_output) {
 		String argss;
 		argss = _shell_quote(_executable_path);
-- 
2.43.0


From a90c6603eeda38016358c0a94f50647035348b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 237/259] fix: characters at the edge of a SubProcess's read
 buffer stay whole

---
 platform/sfw.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6200329..02baaa6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17906,6 +17906,20 @@ static String _shell_quote(const String &p_text) {
 	return "'" + p_text.replace("'", "'\\''") + "'";
 }
 
+// The number of bytes at the end of the text that begin a character without finishing it.
+static int _unfinished_utf8_bytes(const char *p_text, int p_len) {
+	for (int i = 1; i <= 3 && i <= p_len; i++) {
+		uint8_t c = p_text[p_len - i];
+
+		if ((c & 0xc0) != 0x80) {
+			int needed = c >= 0xf0 ? 4 : (c >= 0xe0 ? 3 : (c >= 0xc0 ? 2 : 1));
+			return needed > i ? i : 0;
+		}
+	}
+
+	return 0;
+}
+
 Error SubProcess::start() {
 #ifdef __EMSCRIPTEN__
 	// Don't compile this code at all to avoid undefined references.
@@ -17949,15 +17963,22 @@ Error SubProcess::start() {
 		ERR_FAIL_COND_V_MSG(!f, ERR_CANT_OPEN, "Cannot pipe stream from process running with following arguments '" + argss + "'.");
 
 		char buf[65535];
+		int kept = 0;
+
+		while (fgets(buf + kept, 65535 - kept, f)) {
+			// A character that the end of the buffer cuts waits for the rest of it.
+			int len = strlen(buf);
+			kept = feof(f) ? 0 : _unfinished_utf8_bytes(buf, len);
 
-		while (fgets(buf, 65535, f)) {
 			if (_pipe_mutex) {
 				_pipe_mutex->lock();
 			}
-			_pipe += String::utf8(buf);
+			_pipe += String::utf8(buf, len - kept);
 			if (_pipe_mutex) {
 				_pipe_mutex->unlock();
 			}
+
+			memmove(buf, buf + len - kept, kept);
 		}
 		int rv = pclose(f);
 
-- 
2.43.0


From 4d75284c969b294eea470081d013edcbbd320059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 238/259] fix: a process ended by a signal does not report
 success

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 02baaa6..31a5f17 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17982,7 +17982,7 @@ Error SubProcess::start() {
 		}
 		int rv = pclose(f);
 
-		_exitcode = WEXITSTATUS(rv);
+		_exitcode = WIFEXITED(rv) ? WEXITSTATUS(rv) : rv;
 
 		return OK;
 	}
@@ -18062,7 +18062,7 @@ Error SubProcess::stop() {
 	if (_process_fp) {
 		int rv = pclose(_process_fp);
 		_process_fp = NULL;
-		_exitcode = WEXITSTATUS(rv);
+		_exitcode = WIFEXITED(rv) ? WEXITSTATUS(rv) : rv;
 		_process_id = 0;
 		return OK;
 	}
-- 
2.43.0


From 1eb5847db84076a37fdaa725af64ed9b01e05e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 239/259] fix: a SubProcess that ended has its exit code, and
 stopping it does not kill who has its id by then

---
 platform/sfw.cpp | 14 ++++++++++++--
 platform/sfw.h   |  5 +++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 31a5f17..ae3a3fe 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18072,8 +18072,9 @@ Error SubProcess::stop() {
 
 		if (!ret) {
 			//avoid zombie process
-			int st;
+			int st = 0;
 			::waitpid(_process_id, &st, 0);
+			_exitcode = WIFEXITED(st) ? WEXITSTATUS(st) : st;
 		}
 
 		_process_id = 0;
@@ -18139,7 +18140,16 @@ bool SubProcess::is_process_running() const {
 	}
 
 	int status = 0;
-	if (waitpid(_process_id, &status, WNOHANG) != 0) {
+	int ret = waitpid(_process_id, &status, WNOHANG);
+
+	if (ret != 0) {
+		// It is gone now, its id can already be that of another process.
+		_process_id = 0;
+
+		if (ret > 0) {
+			_exitcode = WIFEXITED(status) ? WEXITSTATUS(status) : status;
+		}
+
 		return false;
 	}
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 80dd2bb..afec0e3 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17977,8 +17977,9 @@ protected:
 
 	bool _open_console;
 
-	ProcessID _process_id;
-	int _exitcode;
+	// These also change when is_process_running() finds that the process has ended.
+	mutable ProcessID _process_id;
+	mutable int _exitcode;
 
 #if defined(_WIN64) || defined(_WIN32)
 
-- 
2.43.0


From a978a58b394ac6fd1f2714456ee53decc37e5472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 240/259] fix: a SubProcess frees its mutex

---
 platform/sfw.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ae3a3fe..db6bbf8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18178,6 +18178,10 @@ SubProcess::SubProcess() {
 }
 SubProcess::~SubProcess() {
 	stop();
+
+	if (_pipe_mutex) {
+		memdelete(_pipe_mutex);
+	}
 }
 
 #endif
-- 
2.43.0


From 96d0f50e6f438aa9e2d42aa1e5ee99e57539b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:29 +0000
Subject: [PATCH 241/259] fix: a chunk of a PoolAllocator cannot be resized to
 nothing

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index db6bbf8..079428b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2383,6 +2383,8 @@ int PoolAllocator::get_size(ID p_mem) const {
 }
 
 Error PoolAllocator::resize(ID p_mem, int p_new_size) {
+	ERR_FAIL_COND_V(p_new_size < 1, ERR_INVALID_PARAMETER);
+
 	mt_lock();
 	Entry *e = get_entry(p_mem);
 
-- 
2.43.0


From 4680dbfb6c0b811e01d1e5926c10eaff809065f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:29 +0000
Subject: [PATCH 242/259] fix: a chunk of a PoolAllocator can grow into all of
 the free space behind it

---
 platform/sfw.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 079428b..3dd73f8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2437,7 +2437,7 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		next_pos = entry_array[entry_indices[entry_indices_pos + 1]].pos;
 	};
 
-	if ((next_pos - e->pos) > alloc_size) {
+	if ((next_pos - e->pos) >= alloc_size) {
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
 		free_mem -= alloc_size;
@@ -2448,7 +2448,7 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 
 	compact(entry_indices_pos + 1);
 
-	if ((next_pos - e->pos) > alloc_size) {
+	if ((next_pos - e->pos) >= alloc_size) {
 		//now fits! hooray!
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
@@ -2464,7 +2464,11 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 
 	compact_up(entry_indices_pos + 1);
 
-	if ((entry_array[entry_indices[entry_indices_pos + 1]].pos - e->pos) > alloc_size) {
+	if (entry_indices_pos + 1 < entry_count) {
+		next_pos = entry_array[entry_indices[entry_indices_pos + 1]].pos;
+	}
+
+	if ((next_pos - e->pos) >= alloc_size) {
 		//now fits! hooray!
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
-- 
2.43.0


From 2c7ab67f6eb886846e726e8dc2732e5a9d73fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:29 +0000
Subject: [PATCH 243/259] fix: making room in a PoolAllocator keeps the chunks
 aligned

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3dd73f8..19a208e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2211,7 +2211,7 @@ void PoolAllocator::compact(int p_up_to) {
 }
 
 void PoolAllocator::compact_up(int p_from) {
-	uint32_t next_entry_end_pos = pool_size; // - static_area_size;
+	uint32_t next_entry_end_pos = pool_size - pool_size % align; // - static_area_size;
 
 	for (int i = entry_count - 1; i >= p_from; i--) {
 		Entry &entry = entry_array[entry_indices[i]];
-- 
2.43.0


From 3bb8e4d2b6967ac464c034f3735f7c48a4dee16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 244/259] fix: every way to grow a chunk of a PoolAllocator
 counts for its peak

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 19a208e..7567f8e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2442,6 +2442,9 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		e->len = p_new_size;
 		free_mem -= alloc_size;
 		mt_unlock();
+		if (free_mem < free_mem_peak) {
+			free_mem_peak = free_mem;
+		}
 		return OK;
 	}
 	//it doesn't fit, compact around BEFORE current index (make room behind)
-- 
2.43.0


From 46fa8a0574f61d88beea5a069d55da53c2351971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 245/259] fix: a PoolAllocator allocates its memory the way it
 frees it

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7567f8e..2cb60c0 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2657,7 +2657,7 @@ PoolAllocator::PoolAllocator(void *p_mem, int p_size, int p_align, bool p_needs_
 
 PoolAllocator::PoolAllocator(int p_align, int p_size, bool p_needs_locking, int p_max_entries) {
 	ERR_FAIL_COND(p_align < 1);
-	mem_ptr = Memory::alloc_static(p_size + p_align, true);
+	mem_ptr = memalloc(p_size + p_align);
 	uint8_t *mem8 = (uint8_t *)mem_ptr;
 	uint64_t ofs = (uint64_t)mem8;
 	if (ofs % p_align) {
-- 
2.43.0


From f3b4484b717b32ea35af4a393e8394efd2c228f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 246/259] fix: Vector4 and Vector4i set_all set all four
 components

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index afec0e3..77e77e5 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -12057,7 +12057,7 @@ struct _NO_DISCARD_CLASS_ Vector4 {
 };
 
 void Vector4::set_all(const real_t p_value) {
-	x = y = z = p_value;
+	x = y = z = w = p_value;
 }
 
 real_t Vector4::dot(const Vector4 &p_vec4) const {
@@ -12326,7 +12326,7 @@ struct _NO_DISCARD_CLASS_ Vector4i {
 };
 
 void Vector4i::set_all(const int32_t p_value) {
-	x = y = z = p_value;
+	x = y = z = w = p_value;
 }
 
 int64_t Vector4i::length_squared() const {
-- 
2.43.0


From 0f5dfb757fc1a90e42d02d7c45c9b2b9513673dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 247/259] fix: Vector4 zero clears the fourth component too

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 77e77e5..81bcffa 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -12069,7 +12069,7 @@ real_t Vector4::length_squared() const {
 }
 
 void Vector4::zero() {
-	x = y = z = 0;
+	x = y = z = w = 0;
 }
 
 void Vector4::operator+=(const Vector4 &p_vec4) {
-- 
2.43.0


From 7a2b383d63e2287f2dd9e25bcaf235a143a79484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 248/259] fix: Rect2i clip keeps whole numbers, which a float
 cannot hold from 2^24 on

---
 platform/sfw.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 81bcffa..1c178d8 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10974,11 +10974,11 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 		new_rect.position.x = MAX(p_rect.position.x, position.x);
 		new_rect.position.y = MAX(p_rect.position.y, position.y);
 
-		Point2 p_rect_end = p_rect.position + p_rect.size;
-		Point2 end = position + size;
+		Point2i p_rect_end = p_rect.position + p_rect.size;
+		Point2i end = position + size;
 
-		new_rect.size.x = (int)(MIN(p_rect_end.x, end.x) - new_rect.position.x);
-		new_rect.size.y = (int)(MIN(p_rect_end.y, end.y) - new_rect.position.y);
+		new_rect.size.x = MIN(p_rect_end.x, end.x) - new_rect.position.x;
+		new_rect.size.y = MIN(p_rect_end.y, end.y) - new_rect.position.y;
 
 		return new_rect;
 	}
-- 
2.43.0


From e461281a1821c1635522f7aab2a7d4733009fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 249/259] fix: Math log10 of a double has the precision of a
 double

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 1c178d8..15d4bdf 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -2285,8 +2285,8 @@ public:
 	static _ALWAYS_INLINE_ double log1p(double p_x) { return ::log1p(p_x); }
 	static _ALWAYS_INLINE_ float log1p(float p_x) { return ::log1pf(p_x); }
 
-	static _ALWAYS_INLINE_ double log10(double p_x) { return ::log10f(p_x); }
-	static _ALWAYS_INLINE_ float log10(float p_x) { return ::log10(p_x); }
+	static _ALWAYS_INLINE_ double log10(double p_x) { return ::log10(p_x); }
+	static _ALWAYS_INLINE_ float log10(float p_x) { return ::log10f(p_x); }
 
 	static _ALWAYS_INLINE_ double log2(double p_x) { return ::log2(p_x); }
 	static _ALWAYS_INLINE_ float log2(float p_x) { return ::log2f(p_x); }
-- 
2.43.0


From 9f1f802f244436fa7f05b4f6c8e3e1a93e436b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 250/259] fix: Rect2 intersects_filled_polygon with edges
 parallel to a side

---
 platform/sfw.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 15d4bdf..11a1434 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10868,18 +10868,25 @@ struct _NO_DISCARD_CLASS_ Rect2 {
 
 			//check ray box
 			r /= l;
-			Vector2 ir(1.0f / r.x, 1.0f / r.y);
 
-			// lb is the corner of AABB with minimal coordinates - left bottom, rt is maximal corner
-			// r.org is origin of ray
-			Vector2 t13 = (position - a) * ir;
-			Vector2 t24 = (end - a) * ir;
-
-			float tmin = MAX(MIN(t13.x, t24.x), MIN(t13.y, t24.y));
-			float tmax = MIN(MAX(t13.x, t24.x), MAX(t13.y, t24.y));
+			// the part of the edge that is between the sides of the rectangle, on both axes
+			float tmin = 0;
+			float tmax = l;
+			for (int j = 0; j < 2; j++) {
+				if (r[j] == 0) {
+					// parallel to these sides: between them all along, or nowhere
+					if (a[j] < position[j] || a[j] > end[j]) {
+						tmax = -1;
+					}
+					continue;
+				}
+				float t1 = (position[j] - a[j]) / r[j];
+				float t2 = (end[j] - a[j]) / r[j];
+				tmin = MAX(tmin, MIN(t1, t2));
+				tmax = MIN(tmax, MAX(t1, t2));
+			}
 
-			// if tmax < 0, ray (line) is intersecting AABB, but the whole AABB is behind us
-			if (tmax < 0 || tmin > tmax || tmin >= l) {
+			if (tmin > tmax || tmin >= l) {
 				continue;
 			}
 
-- 
2.43.0


From 8d963a6396894c219595c6a35d71ce88d9deab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 251/259] fix: Rect2i is made from whole numbers without
 rounding them to floats

---
 platform/sfw.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 11a1434..be070ad 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -11141,10 +11141,10 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 	}
 	Rect2i() {}
 	Rect2i(int p_x, int p_y, int p_width, int p_height) :
-			position(Point2(p_x, p_y)),
-			size(Size2(p_width, p_height)) {
+			position(Point2i(p_x, p_y)),
+			size(Size2i(p_width, p_height)) {
 	}
-	Rect2i(const Point2 &p_pos, const Size2 &p_size) :
+	Rect2i(const Point2i &p_pos, const Size2i &p_size) :
 			position(p_pos),
 			size(p_size) {
 	}
-- 
2.43.0


From dc08c1cba049ff2b1838702c33cd293bb7bb7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 252/259] fix: Vector2i is ordered without rounding to floats

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index be070ad..eba3a44 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10555,8 +10555,8 @@ struct _NO_DISCARD_CLASS_ Vector2i {
 	Vector2i operator-() const;
 	bool operator<(const Vector2i &p_vec2) const { return (x == p_vec2.x) ? (y < p_vec2.y) : (x < p_vec2.x); }
 	bool operator>(const Vector2i &p_vec2) const { return (x == p_vec2.x) ? (y > p_vec2.y) : (x > p_vec2.x); }
-	bool operator<=(const Vector2 &p_vec2) const { return x == p_vec2.x ? (y <= p_vec2.y) : (x < p_vec2.x); }
-	bool operator>=(const Vector2 &p_vec2) const { return x == p_vec2.x ? (y >= p_vec2.y) : (x > p_vec2.x); }
+	bool operator<=(const Vector2i &p_vec2) const { return x == p_vec2.x ? (y <= p_vec2.y) : (x < p_vec2.x); }
+	bool operator>=(const Vector2i &p_vec2) const { return x == p_vec2.x ? (y >= p_vec2.y) : (x > p_vec2.x); }
 
 	bool operator==(const Vector2i &p_vec2) const;
 	bool operator!=(const Vector2i &p_vec2) const;
-- 
2.43.0


From c88e49a76e2ee042e675cdae348f3c4d3b47442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 253/259] fix: orthogonalize keeps a mirrored basis mirrored

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2cb60c0..76c0335 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -11213,7 +11213,7 @@ bool Basis::is_orthogonal() const {
 }
 
 void Basis::orthogonalize() {
-	Vector3 scl = get_scale();
+	Vector3 scl = get_scale_abs();
 	orthonormalize();
 	scale_local(scl);
 }
-- 
2.43.0


From b996fb39bee9b905e111c7f359905ff9a2dbd10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:38 +0000
Subject: [PATCH 254/259] fix: select_word of an empty text

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 76c0335..881a547 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2944,7 +2944,7 @@ bool select_word(const String &p_s, int p_col, int &r_beg, int &r_end) {
 	int beg = CLAMP(p_col, 0, s.length());
 	int end = beg;
 
-	if (s[beg] > 32 || beg == s.length()) {
+	if (beg == s.length() || s[beg] > 32) {
 		bool symbol = beg < s.length() && is_symbol(s[beg]);
 
 		while (beg > 0 && s[beg - 1] > 32 && (symbol == is_symbol(s[beg - 1]))) {
-- 
2.43.0


From 52277baa6250d8777c1832ce46503e8e17dfa8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:01 +0000
Subject: [PATCH 255/259] fix: reading faces from corners that are not whole
 triangles

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 881a547..12c73e9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -22197,7 +22197,7 @@ Variant::operator PoolVector<Plane>() const {
 Variant::operator PoolVector<Face3>() const {
 	PoolVector<Vector3> va = operator PoolVector<Vector3>();
 	PoolVector<Face3> faces;
-	int va_size = va.size();
+	int va_size = va.size() / 3 * 3; // whole faces only
 	if (va_size == 0) {
 		return faces;
 	}
-- 
2.43.0


From 42aae10d4cea5bd928e7340605cf20a23f0735ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:01 +0000
Subject: [PATCH 256/259] fix: a text read as uint64_t is not cut to 32 bits

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 12c73e9..d5a1869 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -21419,7 +21419,7 @@ Variant::operator uint64_t() const {
 		case REAL:
 			return _data._real;
 		case STRING:
-			return operator String().to_int();
+			return operator String().to_int64();
 		default: {
 			return 0;
 		}
-- 
2.43.0


From cf738521f492a8a6f7eb3cdfe4adc3bfb0f48f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 257/259] fix: can_convert knows that arrays of Vector4 and
 Vector4i become Arrays

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d5a1869..56b6efc 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -20343,6 +20343,8 @@ bool Variant::can_convert(Variant::Type p_type_from, Variant::Type p_type_to) {
 				POOL_VECTOR2I_ARRAY,
 				POOL_VECTOR3_ARRAY,
 				POOL_VECTOR3I_ARRAY,
+				POOL_VECTOR4_ARRAY,
+				POOL_VECTOR4I_ARRAY,
 				NIL
 			};
 
-- 
2.43.0


From 44172cfd8dac75a7fc28e0f09923b636d2c9f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:29 +0000
Subject: [PATCH 258/259] fix: drives whose paths are not ASCII

---
 platform/sfw.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 56b6efc..5b4803f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16234,8 +16234,9 @@ static void _get_drives(List<String> *list) {
 		while (getmntent_r(mtab, &mnt, strings, sizeof(strings))) {
 			if (mnt.mnt_dir != nullptr && _filter_drive(&mnt)) {
 				// Avoid duplicates
-				if (!list->find(mnt.mnt_dir)) {
-					list->push_back(mnt.mnt_dir);
+				const String mnt_dir = String::utf8(mnt.mnt_dir);
+				if (!list->find(mnt_dir)) {
+					list->push_back(mnt_dir);
 				}
 			}
 		}
@@ -16248,8 +16249,9 @@ static void _get_drives(List<String> *list) {
 	const char *home = getenv("HOME");
 	if (home) {
 		// Only add if it's not a duplicate
-		if (!list->find(home)) {
-			list->push_back(home);
+		const String home_dir = String::utf8(home);
+		if (!list->find(home_dir)) {
+			list->push_back(home_dir);
 		}
 
 		// Check $HOME/.config/gtk-3.0/bookmarks
@@ -16262,7 +16264,7 @@ static void _get_drives(List<String> *list) {
 				// Parse only file:// links
 				if (strncmp(string, "file://", 7) == 0) {
 					// Strip any unwanted edges on the strings and push_back if it's not a duplicate
-					String fpath = String(string + 7).strip_edges().split_spaces()[0].percent_decode();
+					String fpath = String::utf8(string + 7).strip_edges().split_spaces()[0].percent_decode();
 					if (!list->find(fpath)) {
 						list->push_back(fpath);
 					}
-- 
2.43.0


From 3b48fc11f05a9074baf5746ab695317af65c2efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 259/259] fix: bookmarks without a path are no drives

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 5b4803f..89065e5 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16264,7 +16264,11 @@ static void _get_drives(List<String> *list) {
 				// Parse only file:// links
 				if (strncmp(string, "file://", 7) == 0) {
 					// Strip any unwanted edges on the strings and push_back if it's not a duplicate
-					String fpath = String::utf8(string + 7).strip_edges().split_spaces()[0].percent_decode();
+					Vector<String> words = String::utf8(string + 7).strip_edges().split_spaces();
+					if (words.empty()) {
+						continue;
+					}
+					String fpath = words[0].percent_decode();
 					if (!list->find(fpath)) {
 						list->push_back(fpath);
 					}
-- 
2.43.0

