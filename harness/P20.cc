// @bound every symmetric matrix of size 1..3: accepted exactly if its leading principal minors are positive, and then L L^T gives the matrix back; matrices of size 1..5 whose k-th pivot is an arbitrary non-positive value, for every k; sizes 8, 12, 17, 33 and 65 with band or diagonal factors and a non-positive pivot at any position; a NaN at every position of an otherwise positive definite matrix of size 1..4; failures at pivots 128, 129 and 256 of matrices of size 129, 130 and 257
// @assume real arithmetic
// @bound under LAPACK, complex Hermitian matrices of size 1..3 (thorough 1..4) whose k-th pivot is positive, zero or any negative value
// @bound two calls in sequence on one path: 12 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside larger matrices, rounding error, complex matrices without LAPACK (the internal code does not accept them)
#include "sym.h"
#include <cmath>
#include <limits>
#include <string>
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
using namespace lalib; using namespace lalib::solver;
template<class T> static std::vector<T> packed(const M<T>& a) { std::vector<T> v; for (u64 i = 0; i < a.n; ++i) for (u64 j = 0; j <= i; ++j) v.push_back(a(i, j)); return v; }
template<class T> static int build(const M<T>& a, M<T>& l, bool pk) {
    l = M<T>(a.n, a.n); u64 n = a.n;
    if (pk) return raised<std::runtime_error>([&] { DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, packed(a))); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) l(i, j) = f.lower_mat()(i, j); });
    return raised<std::runtime_error>([&] { DynCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) l(i, j) = f.factor_mat()(i, j); });
}
template<class T> static void exact(bool pk) {
    precision<T>();
    u64 n = vf_choose("n", 1, 3); M<T> a(n, n), l; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) a(i, j) = a(j, i) = in<T>("a");
    int r = build(a, l, pk);
    bool pd = a(0, 0) > 0;
    if (pd && n > 1) pd = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0) > 0;
    if (pd && n > 2) pd = a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)) > 0;
    u((u64)r, pd ? 0 : 1, "accepted exactly if positive definite");
    if (r == 0) for (u64 i = 0; i < n; ++i) { vf_check(l(i, i) > 0, "the factor has a positive diagonal"); for (u64 j = 0; j <= i; ++j) { T s = T(0); for (u64 k = 0; k <= j; ++k) s += l(i, k) * l(j, k); eq<T>(s, a(i, j), "L L^T gives the matrix back"); } }
}
template<class T> static void pivot(bool pk) {   // L D L^T with unit-free L; pivot k replaced by a non-positive value
    precision<T>();
    u64 n = vf_choose("n", 1, Q(4, 5)), k = vf_choose("k", 0, n - 1); M<T> l(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) { l(i, j) = in<T>("l"); if (i == j) pos<T>(l(i, j)); }
    auto a = mm(l, tr(l)); T p = in<T>("p"); a(k, k) = a(k, k) - l(k, k) * l(k, k) - (vf_choose("zero", 0, 1) ? T(0) : p * p);
    M<T> o; u((u64)build(a, o, pk), 1, "a matrix with a non-positive pivot is rejected");
}
template<class T> static void large(bool pk) {   // band factors: pivot k replaced
    precision<T>(); u64 c = vf_choose("n", 0, 4), n = c == 0 ? 8 : c == 1 ? 12 : c == 2 ? 17 : c == 3 ? 33 : 65, k = vf_choose("k", 0, n - 1), band = vf_choose("band", 0, 1); if (n == 33) vf_assume(k % 5 == 0 || k > 28 || k == 16 || k == 17); if (n == 65) vf_assume(k == 0 || k == 40 || k > 62);
    M<T> l(n, n); for (u64 i = 0; i < n; ++i) { l(i, i) = i % 4 == 1 ? in<T>("l") : T(2); if (i % 4 == 1) pos<T>(l(i, i)); if (band && i) l(i, i - 1) = i % 4 == 2 ? in<T>("l") : T(1); }
    M<T> a(n, n); for (u64 i = 0; i < n; ++i) { a(i, i) = l(i, i) * l(i, i); if (i) { a(i, i) = a(i, i) + l(i, i - 1) * l(i, i - 1); a(i, i - 1) = a(i - 1, i) = l(i, i - 1) * l(i - 1, i - 1); } }
    M<T> o; u((u64)build(a, o, pk), 0, "a positive definite matrix is accepted"); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) eq<T>(o(i, j), l(i, j), "factor");
    T p = in<T>("p"); a(k, k) = a(k, k) - l(k, k) * l(k, k) - (vf_choose("zero", 0, 1) ? T(0) : p * p); u((u64)build(a, o, pk), 1, "a matrix with a non-positive pivot is rejected");
}
template<class T> static void narrow(bool pk) {   // a failure at the pivots whose number does not fit in seven or eight bits
    u64 c = vf_choose("k", 0, 2), k = c == 0 ? 127 : c == 1 ? 128 : 255, n = k + 2; M<T> a(n, n), o; T p = in<T>("p"); for (u64 i = 0; i < n; ++i) a(i, i) = i == k ? -p * p : T(1);
    if (pk) { u((u64)raised<std::runtime_error>([&] { DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, packed(a))); }), 1, "a matrix with a non-positive pivot is rejected"); }
    else u((u64)raised<std::runtime_error>([&] { DynCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); }), 1, "a matrix with a non-positive pivot is rejected");
}
template<class T> static void nan_(bool pk) {
    u64 n = vf_choose("n", 1, 4), i = vf_choose("i", 0, 3), j = vf_choose("j", 0, 3); vf_assume(i < n && j <= i);
    M<T> a(n, n); for (u64 r = 0; r < n; ++r) for (u64 c = 0; c < n; ++c) a(r, c) = r == c ? T(4) : T(1);
    a(i, j) = a(j, i) = std::numeric_limits<T>::quiet_NaN(); M<T> o; u((u64)build(a, o, pk), 1, "a matrix with a NaN is rejected");
}
#if defined(LALIB_LAPACK_BACKEND)
template<class T> static void hermite() {   // complex Hermitian matrices: pivot k replaced
    using R = typename T::value_type; u64 n = vf_choose("n", 1, Q(3, 4)), k = vf_choose("k", 0, n - 1); M<T> l(n, n), lh(n, n);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) { if (i == j) { R d = in<R>("d"); vf_assume(d > 0); l(i, i) = T(d, R(0)); } else l(i, j) = in<T>("l"); lh(j, i) = std::conj(l(i, j)); }
    auto a = mm(l, lh); u64 how = vf_choose("pivot", 0, 2);   // kept, zero, non-positive
    if (how) { R p = in<R>("p"); a(k, k) = a(k, k) - l(k, k) * l(k, k) - (how == 1 ? T(0) : T(p * p, R(0))); }
    int r = raised<std::runtime_error>([&] { DynCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); }); u((u64)r, how ? 1 : 0, how ? "a Hermitian matrix with a non-positive pivot is rejected" : "a Hermitian positive definite matrix is accepted");
}
// @run mode=real cfg=lapack
ENTRY(h_hermite_cd) { precision<double>(); hermite<cd>(); }
ENTRY(h_hermite_cf) { precision<float>(); hermite<cf>(); }
#endif
// @run mode=real cfg=internal,lapack
ENTRY(h_exact_double) { exact<double>(false); }
ENTRY(h_pivot_double) { pivot<double>(false); }
ENTRY(h_pivot_float) { pivot<float>(false); }
ENTRY(h_large_double) { large<double>(false); }
ENTRY(h_narrow_double) { narrow<double>(false); }
ENTRY(h_nan_double) { nan_<double>(false); }
// @run mode=real cfg=internal
ENTRY(h_exact_packed_double) { exact<double>(true); }
ENTRY(h_pivot_packed_double) { pivot<double>(true); }
ENTRY(h_large_packed_double) { large<double>(true); }
ENTRY(h_narrow_packed_double) { narrow<double>(true); }
ENTRY(h_nan_packed_double) { nan_<double>(true); }
ENTRY(h_nan_packed_float) { nan_<float>(true); }
// @run mode=real cfg=internal,lapack
ENTRY(h_twice_double) { twice(12, {[] { exact<double>(false); }, [] { pivot<double>(false); }}); }
