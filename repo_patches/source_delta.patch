From bb6ae198a0fa43c51294169e17744b6bfca21677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:31 +0000
Subject: [PATCH 01/34] fix: sub(SizedVec, DynVec, vr) returns the result
 vector

---
 include/lalib/ops/vec_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 2694bcb..7e221dd 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -329,7 +329,7 @@ auto sub(const SizedVec<T, N> &v1, const DynVec<T> &v2, SizedVec<T, N> &vr) -> S
 {
     __check_size(v1.size(), v2.size());
     sub_core(v1.data(), v2.data(), vr.data(), N);
-    return v1;
+    return vr;
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 4da6b7cb5648412d416600d40752f325c189f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:19 +0000
Subject: [PATCH 02/34] fix: reciprocal keeps the element type, so float and
 complex<float> vectors can be divided by a scalar

---
 include/lalib/ops/ops_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 3c00e25..4c257f1 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -41,13 +41,13 @@ struct One<std::complex<T>> {
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const T& val) noexcept {
-    return 1.0 / val;
+    return T(1) / val;
 }
 
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const std::complex<T>& val) noexcept {
-    return 1.0 / val;
+    return T(1) / val;
 }
 
 }
-- 
2.43.0


From 6a56e457a098fe0fbf3599d5856cdae1a996eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:19 +0000
Subject: [PATCH 03/34] fix: generic dot product returns the computed value

---
 include/lalib/ops/vec_ops_core.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 4babe41..33b852f 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -215,8 +215,7 @@ inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
 
 template<typename T>
 inline auto dot_core(const T* v1, const T* v2, size_t size) -> T {
-    __dot_core_simd(v1, v2, size);
-    return v2;
+    return __dot_core_simd(v1, v2, size);
 }
 
 template<>
-- 
2.43.0


From 9a26da1da511fb07dc7d891411d6624b8b0ac73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:19 +0000
Subject: [PATCH 04/34] fix: dot product of empty vectors is zero instead of
 reading element 0

---
 include/lalib/ops/vec_ops_core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 33b852f..1de77d7 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -205,6 +205,7 @@ inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const st
 
 template<typename T>
 inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
+    if (size == 0) { return T(0); }
     auto r = v1[0] * v2[0];
     #pragma omp simd reduction(+:r)
     for (auto i = 1u; i < size; ++i) {
-- 
2.43.0


From 2d9050d19fc2b29937a055a7e9aa1ff0677bb091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:19 +0000
Subject: [PATCH 05/34] fix: 3-D cross products with a dynamic left operand
 build the declared SizedVec result

---
 include/lalib/ops/vec_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 7e221dd..129c697 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -539,7 +539,7 @@ inline auto cross(const SizedVec<T, 3>& x, const DynVec<T>& y, DynVec<T>& vr) no
 template<typename T>
 inline auto cross(const DynVec<T>& x, const SizedVec<T, 3>& y) noexcept -> SizedVec<T, 3> {
     assert(x.size() == 3);
-    auto vr = x;
+    auto vr = SizedVec<T, 3>::uninit();
     cross3_core(x.data(), y.data(), vr.data());
     return vr;
 }
@@ -561,7 +561,7 @@ template<typename T>
 inline auto cross(const DynVec<T>& x, const DynVec<T>& y) noexcept -> SizedVec<T, 3> {
     assert(x.size() == 3);
     assert(y.size() == 3);
-    auto vr = x;
+    auto vr = SizedVec<T, 3>::uninit();
     cross3_core(x.data(), y.data(), vr.data());
     return vr;
 }
-- 
2.43.0


From 79b803db4ac30ad1887af9bb36ae461df159a7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:47 +0000
Subject: [PATCH 06/34] fix: size-checking vector operations can throw
 SizeMismatched instead of terminating

---
 include/lalib/ops/vec_ops.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 129c697..a04a9da 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -24,7 +24,7 @@ template<typename T, size_t N>
 inline auto neg(const SizedVec<T, N>& v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto neg(const DynVec<T>& v, DynVec<T>& vr) noexcept -> DynVec<T>&;
+inline auto neg(const DynVec<T>& v, DynVec<T>& vr) -> DynVec<T>&;
 
 
 template<typename T, size_t N>
@@ -113,7 +113,7 @@ template<typename T, size_t N>
 inline auto axpy(T alpha, const SizedVec<T, N>& x, SizedVec<T, N>& y) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) noexcept -> DynVec<T>&;
+inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) -> DynVec<T>&;
 
 
 /// @brief      Calculate scalar multipliation of vectors
@@ -160,7 +160,7 @@ template<typename T, size_t N>
 inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T;
 
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T;
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T;
 
 
 template<typename T>
@@ -245,7 +245,7 @@ auto neg(const SizedVec<T, N> &v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>
 }
 
 template <typename T>
-auto neg(const DynVec<T> &v, DynVec<T>& vr) noexcept -> DynVec<T> &
+auto neg(const DynVec<T> &v, DynVec<T>& vr) -> DynVec<T> &
 {
     __check_size(v.size(), vr.size());
     __neg_core_simd(v.data(), vr.data(), v.size());
@@ -373,7 +373,7 @@ auto axpy(T alpha, const SizedVec<T, N> &x, SizedVec<T, N> &y) noexcept -> Sized
     return y;
 }
 template <typename T>
-auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) noexcept -> DynVec<T> &
+auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) -> DynVec<T> &
 {
     __check_size(x.size(), y.size());
     axpy_core(alpha, x.data(), y.data(), x.size());
@@ -458,7 +458,7 @@ inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T
     return d;
 }
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T {
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T {
     T d;
     __check_size(x.size(), y.size());
     d = dot_core(x.data(), y.data(), x.size());
-- 
2.43.0


From e7edeb3f36051ccfa0e1ef8b89f9eca87af2820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:47 +0000
Subject: [PATCH 07/34] fix: add and sub of dynamic vectors check the size of
 the result vector

---
 include/lalib/ops/vec_ops.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index a04a9da..02b8714 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -296,6 +296,7 @@ auto add(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto add(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     add_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
@@ -343,6 +344,7 @@ auto sub(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto sub(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     sub_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
-- 
2.43.0


From 1fdfd2cd0202aee905a1fd319b9044c9bc7ec08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:47 +0000
Subject: [PATCH 08/34] fix: SizedVec::dot(DynVec) rejects a vector of another
 size

---
 include/lalib/vec/sized_vec.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lalib/vec/sized_vec.hpp b/include/lalib/vec/sized_vec.hpp
index 0236cb8..b49ca49 100644
--- a/include/lalib/vec/sized_vec.hpp
+++ b/include/lalib/vec/sized_vec.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <initializer_list>
 #include "lalib/ops/vec_ops_core.hpp"
+#include "lalib/err/error.hpp"
 
 namespace lalib {
 
@@ -74,7 +75,7 @@ public:
 
     // === Operations === //
     constexpr auto dot(const SizedVec<T, N>& v) const noexcept -> T;
-    constexpr auto dot(const DynVec<T>& v) const noexcept -> T;
+    constexpr auto dot(const DynVec<T>& v) const -> T;
 
     constexpr auto norm2() const noexcept -> T;
 
@@ -205,8 +206,10 @@ inline constexpr auto SizedVec<T, N>::dot(const SizedVec<T, N> &v) const noexcep
 }
 
 template <typename T, size_t N>
-inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const noexcept -> T
+inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const -> T
 {
+    if (this->size() != v.size()) { throw vec_error::SizeMismatched(this->size(), v.size()); }
+
     T d;
     d = dot_core(this->data(), v.data(), this->size());
     return d;
-- 
2.43.0


From f4f5e3d4b3e4035da6b92be1510d8a21342aa6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:03 +0000
Subject: [PATCH 09/34] fix: unary minus of a matrix works for every element
 type

---
 include/lalib/ops/mat_ops.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_ops.hpp b/include/lalib/ops/mat_ops.hpp
index 7182db1..34a6b97 100644
--- a/include/lalib/ops/mat_ops.hpp
+++ b/include/lalib/ops/mat_ops.hpp
@@ -78,7 +78,7 @@ template<typename T, size_t N, size_t M>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SizedMat<T, N, M>& mat) noexcept -> SizedMat<T, N, M> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1), rmat);
     return rmat;
 }
 
@@ -86,7 +86,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const DynMat<T>& mat) noexcept -> DynMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1), rmat);
     return rmat;
 }
 
@@ -94,7 +94,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpCooMat<T>& mat) noexcept -> SpCooMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1), rmat);
     return rmat;
 }
 
@@ -102,7 +102,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpMat<T>& mat) noexcept -> SpMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1), rmat);
     return rmat;
 }
 
-- 
2.43.0


From 91d8c857712db616b57bec19804db6c37510dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:03 +0000
Subject: [PATCH 10/34] fix: matrix-vector operators work for every element
 type

---
 include/lalib/ops/mat_vec_ops.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/lalib/ops/mat_vec_ops.hpp b/include/lalib/ops/mat_vec_ops.hpp
index c2370b8..ef62c99 100644
--- a/include/lalib/ops/mat_vec_ops.hpp
+++ b/include/lalib/ops/mat_vec_ops.hpp
@@ -59,7 +59,7 @@ inline auto mul(T alpha, const SpMat<T>& mat, const DynVec<T>& v, T beta, DynVec
 template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const SizedVec<T, M>& vec) noexcept -> SizedVec<T, N> {
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -67,7 +67,7 @@ template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const DynVec<T>& vec) noexcept -> SizedVec<T, N> {
     assert(M == vec.size());
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -76,7 +76,7 @@ inline auto operator*(const DynMat<T>& mat, const SizedVec<T, N>& vec) noexcept
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -85,7 +85,7 @@ inline auto operator*(const DynMat<T>& mat, const DynVec<T>& vec) noexcept -> Dy
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -94,7 +94,7 @@ inline auto operator*(const SpMat<T>& mat, const DynVec<T>& vec) noexcept -> Dyn
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), 1.0, mat.values().data(), vec.data(), 0.0, vr.data());
+    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), T(1), mat.values().data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
-- 
2.43.0


From d92aeb92829d964472f7cfbac7ae127d4413afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:03 +0000
Subject: [PATCH 11/34] fix: matrix-matrix operators work for every element
 type

---
 include/lalib/ops/mat_mat_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index 2bef08f..e8f07f8 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -183,14 +183,14 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, DynMat<
 template<typename T, size_t N, size_t M, size_t L>
 inline auto operator*(const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b) noexcept -> SizedMat<T, N, M> {
     auto mr = lalib::SizedMat<T, N, M>::uninit();
-    mul(1.0, a, b, 0.0, mr);
+    mul(T(1), a, b, T(0), mr);
     return mr;
 }
 
 template<typename T>
 inline auto operator*(const DynMat<T>& a, const DynMat<T>& b) noexcept -> DynMat<T> {
     auto mr = lalib::DynMat<T>::uninit(a.shape().first, b.shape().second);
-    mul(1.0, a, b, 0.0, mr);
+    mul(T(1), a, b, T(0), mr);
     return mr;
 }
 
-- 
2.43.0


From d9ccf7df3ccd93b12c29930c9ea9998ed467e674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:03 +0000
Subject: [PATCH 12/34] fix: product of fixed-size matrices into a DynMat
 compiles with assertions enabled

---
 include/lalib/ops/mat_mat_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index e8f07f8..b063d3c 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -142,7 +142,7 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, SizedMa
 
 template<typename T, size_t N, size_t M, size_t L>
 inline auto mul(T alpha, const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b, T beta, DynMat<T>& c) noexcept -> DynMat<T>& {
-    assert(c.shape().frist == N);
+    assert(c.shape().first == N);
     assert(c.shape().second == M);
     mul_core(N, M, L, alpha, a.data(), b.data(), beta, c.data());
     return c;
-- 
2.43.0


From ba8affdfced7fec2e691301da0cf872f74781ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:03 +0000
Subject: [PATCH 13/34] fix: 2x2 inverse works for float matrices

---
 include/lalib/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat.hpp b/include/lalib/mat.hpp
index 15b8c71..d11d065 100644
--- a/include/lalib/mat.hpp
+++ b/include/lalib/mat.hpp
@@ -34,14 +34,14 @@ inline auto invert(const SizedMat<T, 2, 2>& mat, SizedMat<T, 2, 2>& rmat) -> Siz
         rmat(1, 1) = mat(0, 0);
         rmat(0, 1) = -mat(0, 1);
         rmat(1, 0) = -mat(1, 0);
-        scale(1.0 / denom, rmat);
+        scale(T(1) / denom, rmat);
         return rmat;
     } else {
         auto denom = mat(0, 0) * mat(1, 1) - mat(0, 1) * mat(1, 0);
         std::swap(rmat(0, 0), rmat(1, 1));
         rmat(0, 1) *= -1.0;
         rmat(1, 0) *= -1.0;
-        scale(1.0 / denom, rmat);
+        scale(T(1) / denom, rmat);
         return rmat;
     }
 }
-- 
2.43.0


From 12bf9d7cc2d03722ef4efdcc842961eb2e27d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:36 +0000
Subject: [PATCH 14/34] fix: BLAS matrix-vector product onto its own operand
 keeps the beta term

---
 include/lalib/ops/mat_vec_ops_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index d5db0dc..59cd56e 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -74,6 +74,7 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_sgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
@@ -90,6 +91,7 @@ inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_dgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
-- 
2.43.0


From 9e574321ff9f515932f2aef51a7f169e670b9995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 15/34] fix: BLAS matrix-vector product with a matrix without
 columns still applies beta

---
 include/lalib/ops/mat_vec_ops_core.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index 59cd56e..d28dd84 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -72,6 +72,8 @@ inline auto mul_core(size_t n, size_t m, T alpha, const T* mat, const T* x, T be
 template<>
 inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, const float* x, float beta, float* y) noexcept -> float* {
     #if defined(LALIB_BLAS_BACKEND)
+    // BLAS returns without scaling y if the matrix has no columns.
+    if (m == 0) { return __mul_core_simd(n, m, alpha, mat, x, beta, y); }
     if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
         std::copy(y, y + n, tmp.get());
@@ -89,6 +91,8 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
 template<>
 inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat, const double* x, double beta, double* y) noexcept -> double* {
     #if defined(LALIB_BLAS_BACKEND)
+    // BLAS returns without scaling y if the matrix has no columns.
+    if (m == 0) { return __mul_core_simd(n, m, alpha, mat, x, beta, y); }
     if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
         std::copy(y, y + n, tmp.get());
-- 
2.43.0


From 83645eda824471302c871ac7758f2294b839e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:40 +0000
Subject: [PATCH 16/34] fix: BLAS matrix product passes the row length of the
 result as its leading dimension

---
 include/lalib/ops/mat_mat_ops_core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops_core.hpp b/include/lalib/ops/mat_mat_ops_core.hpp
index be1f614..0d30a8f 100644
--- a/include/lalib/ops/mat_mat_ops_core.hpp
+++ b/include/lalib/ops/mat_mat_ops_core.hpp
@@ -61,10 +61,10 @@ inline auto mul_core<float>(size_t n, size_t m, size_t l, float alpha, const flo
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<float[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
@@ -78,10 +78,10 @@ inline auto mul_core<double>(size_t n, size_t m, size_t l, double alpha, const d
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<double[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
-- 
2.43.0


From 800a7d6992b52a8bf9e2357e3b7f6a9bd8fd2ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:45 +0000
Subject: [PATCH 17/34] fix: Zero and One are usable for complex elements, so
 complex identity matrices compile

---
 include/lalib/ops/ops_traits.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 4c257f1..5248d56 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -10,7 +10,6 @@ namespace lalib {
 // === Zero === //
 
 template<typename T>
-requires std::floating_point<T>
 struct Zero {
     static auto value() noexcept -> T { return 0.0; }
 };
@@ -18,13 +17,12 @@ struct Zero {
 template<typename T>
 requires std::floating_point<T>
 struct Zero<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(0.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(0.0, 0.0); }
 };
 
 // === One === //
 
 template<typename T>
-requires std::floating_point<T>
 struct One {
     static auto value() noexcept -> T { return 1.0; }
 };
@@ -32,7 +30,7 @@ struct One {
 template<typename T>
 requires std::floating_point<T>
 struct One<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(1.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(1.0, 0.0); }
 };
 
 
-- 
2.43.0


From fe5685a0251d08cbc394bccbec6a622836b98635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:45 +0000
Subject: [PATCH 18/34] fix: reading a tri-diagonal matrix outside the band
 does not return a dangling reference

---
 include/lalib/mat/dyn_mat.hpp   | 4 +++-
 include/lalib/mat/sized_mat.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index f81c6c1..f3394c5 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -265,6 +265,8 @@ private:
     std::vector<T> _dl;
     std::vector<T> _d;
     std::vector<T> _du;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template <typename T>
@@ -290,7 +292,7 @@ inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) const ->
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return this->_zero;
 }
 template <typename T>
 inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) -> T &
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index d2bba69..56ba0d5 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -285,6 +285,8 @@ private:
     std::array<T, N - 1>    _dl;
     std::array<T, N>        _d;
     std::array<T, N - 1>    _du;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template <typename T, size_t N>
@@ -304,7 +306,7 @@ inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) cons
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return this->_zero;
 }
 template <typename T, size_t N>
 inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) -> T &
-- 
2.43.0


From d096226c6b794badb10aa3d039e753f026af45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:45 +0000
Subject: [PATCH 19/34] fix: lower triangular matrices are zero above the
 diagonal

---
 include/lalib/mat/dyn_mat.hpp   | 6 ++++--
 include/lalib/mat/sized_mat.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index f3394c5..1593dac 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -659,6 +659,8 @@ struct DynLowerTriMat {
 private:
     size_t _n;
     std::vector<T> _lower_elems;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template<typename T>
@@ -674,13 +676,13 @@ constexpr auto DynLowerTriMat<T>::shape() const noexcept -> std::pair<size_t, si
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return this->_zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index 56ba0d5..ffc3474 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -386,6 +386,8 @@ struct SizedLowerTriMat {
 
 private:
     std::array<T, N * (N + 1) / 2> _lower_elems;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template<typename T, size_t N>
@@ -401,13 +403,13 @@ constexpr auto SizedLowerTriMat<T, N>::shape() const noexcept -> std::pair<size_
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return this->_zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
-- 
2.43.0


From b9baa2a50a0e162b81ece192234410ea316702df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:45 +0000
Subject: [PATCH 20/34] fix: a default constructed upper triangular matrix is
 empty

---
 include/lalib/mat/dyn_mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 1593dac..fd2ef1e 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -531,7 +531,7 @@ struct DynUpperTriMat {
     auto data() noexcept -> T*;
 
 private:
-    size_t _n;
+    size_t _n = 0;
     std::vector<T> _upper_elems;
 
     const T _zero = Zero<T>::value();
-- 
2.43.0


From 06a4566faba2038d0da299ff2b23c21181fb413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:45 +0000
Subject: [PATCH 21/34] fix: an upper triangular matrix of an invalid element
 count throws instead of terminating

---
 include/lalib/mat/dyn_mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index fd2ef1e..f9f542e 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -496,7 +496,7 @@ struct DynUpperTriMat {
     DynUpperTriMat() noexcept = default;
 
     /// @brief Creates a upper triangular matrix with given elements.
-    DynUpperTriMat(std::vector<T>&& upper_elems) noexcept;
+    DynUpperTriMat(std::vector<T>&& upper_elems);
 
     /// @brief Creates an empty upper triangular matrix by allocating memory for the given capacity.
     static constexpr auto with_capacity(size_t cap) noexcept -> DynUpperTriMat<T>;
@@ -550,7 +550,7 @@ private:
 };
 
 template<typename T>
-DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems) noexcept:
+DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems):
     _n(_calc_size(upper_elems.size())),
     _upper_elems(std::move(upper_elems))
 {}
-- 
2.43.0


From 25e11b8d1867bb281c0a7ff9c1ef6529656a5c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:20 +0000
Subject: [PATCH 22/34] fix: extending an empty Hessenberg matrix takes one
 element, as extend_with_zero does

---
 include/lalib/mat/dyn_mat.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index f9f542e..a58b14c 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -466,8 +466,10 @@ void HessenbergMat<T>::extend_with_zero() noexcept {
 
 template<typename T>
 void HessenbergMat<T>::extend_with(std::vector<T>&& new_elems) {
-    if (new_elems.size() != this->_n + 2) {
-        throw std::invalid_argument("New components must have length n + 2 = " + std::to_string(this->_n + 2));
+    // The first extension has no sub-diagonal element.
+    auto len = this->_n == 0 ? 1 : this->_n + 2;
+    if (new_elems.size() != len) {
+        throw std::invalid_argument("New components must have length " + std::to_string(len));
     }
     this->_h.insert(this->_h.end(), new_elems.begin(), new_elems.end());
     this->_n += 1;
-- 
2.43.0


From 6033a7b8577b38d2f8cf4a668da8c4c2a41a2597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:49 +0000
Subject: [PATCH 23/34] fix: the shape of a sparse matrix without elements is
 well defined

---
 include/lalib/mat/sp_mat.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index d8401c9..e48ca9d 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -308,6 +308,8 @@ auto SpCooMat<T>::unit(size_t n) -> SpCooMat<T> {
 
 template<typename T>
 constexpr auto SpCooMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
+    if (this->_row_ids.empty()) { return std::make_pair(size_t(0), size_t(0)); }
+
     size_t nrow = *std::ranges::max_element(this->_row_ids) + 1;
     size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
 
@@ -520,8 +522,8 @@ auto SpMat<T>::unit(size_t n) -> SpMat<T> {
 
 template<typename T>
 constexpr auto SpMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
-    size_t nrow = this->_row_ptr.size() - 1;
-    size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
+    size_t nrow = this->_row_ptr.empty() ? 0 : this->_row_ptr.size() - 1;
+    size_t ncol = this->_col_ids.empty() ? 0 : *std::ranges::max_element(this->_col_ids) + 1;
 
     return std::make_pair(nrow, ncol);
 }
-- 
2.43.0


From c73d66103ed65f298fa72186fe8c19cd7858f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:49 +0000
Subject: [PATCH 24/34] fix: accessing a row beyond the end of a CSR matrix
 reads zero or throws out_of_range, as documented

---
 include/lalib/mat/sp_mat.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index e48ca9d..e0643cc 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -535,6 +535,7 @@ constexpr auto SpMat<T>::nnz() const noexcept -> size_t {
 
 template<typename T>
 auto SpMat<T>::operator()(size_t i, size_t j) const noexcept -> const T& {
+    if (i + 1 >= this->_row_ptr.size()) { return this->_zero; }
     for (auto cnt: std::views::iota(this->_row_ptr[i], this->_row_ptr[i + 1])) {
         if (this->_col_ids[cnt] == j) {
             return this->_val[cnt];
@@ -550,6 +551,9 @@ auto SpMat<T>::at(size_t i, size_t j) const noexcept -> const T& {
 
 template<typename T>
 auto SpMat<T>::mut_at(size_t i, size_t j) -> T& {
+    if (i + 1 >= this->_row_ptr.size()) {
+        throw std::out_of_range("Index out of range or does not point to a non-zero element.");
+    }
     for (auto cnt: std::views::iota(this->_row_ptr[i], this->_row_ptr[i + 1])) {
         if (this->_col_ids[cnt] == j) {
             return this->_val[cnt];
-- 
2.43.0


From 0dfb7a32e53125850e311b7e4b08beaa183469cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:49 +0000
Subject: [PATCH 25/34] fix: adding a sparse matrix with elements in a row
 missing on the left keeps them in their row

---
 include/lalib/mat/sp_mat.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index e0643cc..9f8b3e5 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -384,7 +384,14 @@ auto SpCooMat<T>::operator+=(const SpCooMat<T>& mat) -> SpCooMat<T>& {
         auto rcursor_end = std::distance(mat._row_ids.begin(), rrow_iter_end) - 1;
 
         while (rcursor <= rcursor_end) {
-            if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
+            if (cursor > cursor_end) {
+                // This matrix has no element in the row.
+                this->_val.emplace_back(mat._val[rcursor]);
+                this->_row_ids.emplace_back(i);
+                this->_col_ids.emplace_back(mat._col_ids[rcursor]);
+                ++rcursor;
+            }
+            else if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
                 this->_val[cursor] += mat._val[rcursor];
 
                 if (rcursor == rcursor_end) { break; }
-- 
2.43.0


From b2b2585fe7b71148190807ba21be11de56db45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 26/34] fix: sparse matrix-vector product onto its own operand
 gives the product, as the dense one does

---
 include/lalib/ops/mat_vec_ops_core.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index d28dd84..564b208 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -53,11 +53,25 @@ inline auto __mul_core_simd(size_t n, size_t m, T alpha, const T* mat, const T*
 
 template<typename T>
 inline auto _sp_mul_core(size_t n, const size_t* col_ids, const size_t* row_ptr, T alpha, const T* mat, const T* x, T beta, T* y) noexcept -> T* {
-    #pragma omp simd
-    for (auto i = 0u; i < n; ++i) {
-        y[i] = beta * y[i];
-        for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
-            y[i] += alpha * mat[k] * x[col_ids[k]];
+    // If the pointers of the multiplier and one storing the result are the same
+    if (x == y) {
+        auto tmp = std::make_unique<T[]>(n);
+        #pragma omp simd
+        for (auto i = 0u; i < n; ++i) {
+            tmp[i] = beta * y[i];
+            for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
+                tmp[i] += alpha * mat[k] * x[col_ids[k]];
+            }
+        }
+        std::copy(tmp.get(), tmp.get() + n, y);
+    }
+    else {
+        #pragma omp simd
+        for (auto i = 0u; i < n; ++i) {
+            y[i] = beta * y[i];
+            for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
+                y[i] += alpha * mat[k] * x[col_ids[k]];
+            }
         }
     }
     return y;
-- 
2.43.0


From 45bb2afb1e2d264f273aaade877d69e6e99e2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:48 +0000
Subject: [PATCH 27/34] fix: Cholesky factorization reports a non-positive
 first pivot and NaN pivots

---
 include/lalib/solver/internal/cholesky_decomposition.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index dcd5c4b..18a04a1 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -36,12 +36,10 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 			l[index<MType>(n, i, i)] -= std::pow(l[index<MType>(n, i, k)], 2); 
 		} 
 
-		if (l[index<MType>(n, i, i)] == 0) { 
-            return i;
+		// Not positive (or not a number): report the order of the leading minor, as LAPACK does (0 stands for success).
+		if (!(l[index<MType>(n, i, i)] > 0)) { 
+            return i + 1;
 		} 
-		else if (l[index<MType>(n, i, i)] < 0) { 
-            return i;
-		}
 
 		l[index<MType>(n, i, i)] = std::sqrt( l[index<MType>(n, i, i)] );
 	}
-- 
2.43.0


From 580f8eb5cafb29f57aaf439ba7db768a06abccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:48 +0000
Subject: [PATCH 28/34] fix: Cholesky factorizations work for float matrices

---
 include/lalib/solver/cholesky_factorization.hpp  | 16 ++++++++--------
 .../solver/internal/cholesky_decomposition.hpp   |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/lalib/solver/cholesky_factorization.hpp b/include/lalib/solver/cholesky_factorization.hpp
index 9b94a40..2982ebc 100644
--- a/include/lalib/solver/cholesky_factorization.hpp
+++ b/include/lalib/solver/cholesky_factorization.hpp
@@ -107,7 +107,7 @@ template<Vector V>
 inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
    	assert(this->_data.shape().first == rhs.size());
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -118,7 +118,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const V& rhs) const ->
    	assert(this->_data.shape().first == rhs.size());
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -130,7 +130,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M&
    	assert(rhs.shape().first == rhs.shape().first);
    	assert(rhs.shape().second == rhs.shape().second);
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -143,7 +143,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const M& rhs) const ->
    	assert(rhs.shape().second == rhs.shape().second);
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -179,7 +179,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rhs.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -194,7 +194,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const V& rhs) const -> V {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rslt.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
@@ -210,7 +210,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rhs.data(), rhs.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -227,7 +227,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const M& rhs) const -> M {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rslt.data(), rslt.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index 18a04a1..5a1dc34 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -23,7 +23,7 @@ inline constexpr auto index<MemType::Triangle>(size_t, size_t i, size_t j) noexc
 
 
 template<typename T, MemType MType>
-auto cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto cholesky_decomposition(size_t n, T* l) -> int32_t {
     for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j < i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -47,7 +47,7 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs, double* rslt) -> double* {
+auto cholesky_linear(size_t n, size_t nrow, const T* l, const T* rhs, T* rslt) -> T* {
 	for (auto k = 0u; k < nrow; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
@@ -70,7 +70,7 @@ auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs,
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto mod_cholesky_decomposition(size_t n, T* l) -> int32_t {
 	for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j <= i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -85,7 +85,7 @@ auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_linear(size_t n, size_t nrhs, const double* l, const double* rhs, double* rslt) {
+auto mod_cholesky_linear(size_t n, size_t nrhs, const T* l, const T* rhs, T* rslt) {
 	for (auto k = 0u; k < nrhs; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
-- 
2.43.0


From 361061c7a29a0bb5b020e72668c8944f11131775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:48 +0000
Subject: [PATCH 29/34] fix: tri-diagonal solver does not read outside 1x1 and
 empty matrices

---
 include/lalib/solver/internal/tdma.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lalib/solver/internal/tdma.hpp b/include/lalib/solver/internal/tdma.hpp
index 23fcb3e..2b65576 100644
--- a/include/lalib/solver/internal/tdma.hpp
+++ b/include/lalib/solver/internal/tdma.hpp
@@ -10,7 +10,13 @@ namespace lalib::solver::_internal_ {
 template<typename T>
 requires ::std::floating_point<T>
 auto tdma(size_t n, size_t nrow, const T* dl, const T* d, const T* du, const T* b, T* x) -> T* {
+    if (n == 0) { return x; }
     for (auto k = 0u; k < nrow; ++k) {
+        if (n == 1) {
+            x[k] = b[k] / d[0];
+            continue;
+        }
+
         std::vector<T> p, q;
         p.reserve(n);
         q.reserve(n);
-- 
2.43.0


From 3f171db217fa872d3bf375aa6bb4c6e846abd81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:48 +0000
Subject: [PATCH 30/34] fix: the LAPACK tri-diagonal solver keeps the matrix,
 so a second system can be solved

---
 include/lalib/solver/tri_diag.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/tri_diag.hpp b/include/lalib/solver/tri_diag.hpp
index 844ddd1..6f493cc 100644
--- a/include/lalib/solver/tri_diag.hpp
+++ b/include/lalib/solver/tri_diag.hpp
@@ -55,7 +55,8 @@ inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), 1);
+    auto mat = this->_mat;  // overwritten by the LU factors
+    _lapack_::gtsv(n, 1, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), 1);
     #else
     _internal_::tdma(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
@@ -75,7 +76,8 @@ inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) noe
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), rslt.shape().second);
+    auto mat = this->_mat;  // overwritten by the LU factors
+    _lapack_::gtsv(n, nrow, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), rslt.shape().second);
     #else
     _internal_::tdma(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
-- 
2.43.0


From 7e3f6516a64086a285f716d36c0b0ca00796a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:48 +0000
Subject: [PATCH 31/34] fix: ILU reports a zero pivot even if no later row
 needs it, as documented

---
 include/lalib/solver/ilu.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/solver/ilu.hpp b/include/lalib/solver/ilu.hpp
index 13dff23..45bddfe 100644
--- a/include/lalib/solver/ilu.hpp
+++ b/include/lalib/solver/ilu.hpp
@@ -57,6 +57,8 @@ namespace internal {
                     mat.mut_at(i, j) = sum;
                 }
             }
+
+            if (mat(i, i) == 0) { return false; }
         }
 
         return true;
-- 
2.43.0


From 9281b792d462fef3668d65386a20acacdc3b059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:48 +0000
Subject: [PATCH 32/34] fix: GMRES compiles for float matrices

---
 include/lalib/solver/gmres.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index ca0684e..f43ee68 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -48,7 +48,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
-    q.emplace_back((1.0 / b_prime.norm2()) * b_prime);
+    q.emplace_back((One<T>::value() / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
     auto c = std::vector<T>();
@@ -82,7 +82,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     // Transform the solution from the Krylov subspace
     auto x = lalib::DynVec<T>::filled(n, Zero<T>::value());
     for (auto i = 0u; i < beta.size() - 1; ++i) {
-        axpy(1.0, beta[i] * q[i], x);
+        axpy(One<T>::value(), beta[i] * q[i], x);
     }
 
     return x;
@@ -105,11 +105,11 @@ void Gmres<T, M>::_arnoldi(std::vector<DynVec<T>>& q, HessenbergMat<T>& hess, T&
         hess(j, i) = dot(q[j], v);
     }
     for (auto j: std::views::iota(0u, i + 1)) {
-        axpy(-1.0, hess(j, i) * q[j], v);
+        axpy(-One<T>::value(), hess(j, i) * q[j], v);
     }
 
     h = v.norm2();
-    q.emplace_back((1.0 / h) * v);
+    q.emplace_back((One<T>::value() / h) * v);
 }
 
 template<typename T, typename M>
-- 
2.43.0


From 5846c9ccd6d8f1fdfe3c95f7a1b041d5768a6196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:48 +0000
Subject: [PATCH 33/34] fix: GMRES returns zero for a zero right-hand side
 instead of NaN

---
 include/lalib/solver/gmres.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index f43ee68..b4f7f87 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -48,6 +48,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
+    if (b_prime.norm2() == Zero<T>::value()) { return b_prime; }
     q.emplace_back((One<T>::value() / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
-- 
2.43.0


From 0a27a4f2211d4fa2250432ce214bf27b7de30c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:15 +0000
Subject: [PATCH 34/34] fix: orthogonalizing no vectors does not read the first
 one

---
 include/lalib/ops/orthogonal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/orthogonal.hpp b/include/lalib/ops/orthogonal.hpp
index 4f01b89..e9cd103 100644
--- a/include/lalib/ops/orthogonal.hpp
+++ b/include/lalib/ops/orthogonal.hpp
@@ -4,6 +4,7 @@
 
 #include "lalib/type_traits.hpp"
 #include "lalib/ops/vec_ops.hpp"
+#include <cassert>
 #include <ranges>
 #include <concepts>
 
@@ -13,11 +14,10 @@ namespace lalib::orth {
 template<std::ranges::random_access_range C>
 requires Vector<std::ranges::range_value_t<C>>
 inline void cgs(C& vecs) {
-    auto n = vecs[0].size();
     auto m = vecs.size();
 
     for (auto j = 1u; j < m; ++j) {
-        assert(n == vecs[1].size());
+        assert(vecs[0].size() == vecs[j].size());
         auto vj = vecs[j];
         for (auto k = 0u; k < j; ++k) {
             lalib::axpy(-lalib::dot(vecs[k], vj) / vecs[k].dot(vecs[k]), vecs[k], vecs[j]);
-- 
2.43.0

