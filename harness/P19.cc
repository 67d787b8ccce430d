// @bound every positive definite matrix of size 1..4 (thorough 1..5) given as L L^T with arbitrary L of positive diagonal, every solution; one vector or 1..3 columns of right-hand sides; dynamic and fixed-size right-hand sides; in place and copying; packed and square storage
// @bound dense factors of size 17, 33, 65 and 130 (thorough 200) with fixed elements, every right-hand side, one vector and five columns; up to 65 columns of right-hand sides for size 1 and 2
// @bound sizes 6 and 8 (and 12, 17, 33) with band or arrow factors (symbolic; in the larger ones every fourth element), diagonal of size 33
// @assume real arithmetic
// @bound under LAPACK, every complex Hermitian positive definite matrix of size 1..3 (thorough 1..4) with 1 or 2 right-hand sides
// @bound fixed-size right-hand sides of size 1, 2, 3, 4, 6, 8 and 17 with 1, 2, 3, 4, 5, 9 and 17 columns
// @bound two calls in sequence on one path: 12 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside larger general matrices, rounding error, complex matrices without LAPACK (the internal code does not accept them)
#include "sym.h"
#include <cmath>
#include <functional>
#include <string>
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
using namespace lalib; using namespace lalib::solver;
static const u64 NM = Q(4, 5);
static bool in_pat(u64 p, u64 i, u64 j) { return p == 0 ? true : p == 1 ? i <= j + 1 : (j == 0 || i == j); }
template<class T> static M<T> factor(u64 n, u64 pat) { M<T> l(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) if (in_pat(pat, i, j)) { l(i, j) = in<T>("l"); if (i == j) pos<T>(l(i, j)); } return l; }
template<class T> static std::vector<T> packed(const M<T>& a) { std::vector<T> v; for (u64 i = 0; i < a.n; ++i) for (u64 j = 0; j <= i; ++j) v.push_back(a(i, j)); return v; }
template<class T, class F> static void use(const F& f, u64 n, const M<T>& a, const std::function<void()>& intact) {
    auto x = ins<T>(n, "x"), y = ins<T>(n, "y"); auto b = mv(a, x), c = mv(a, y);
    switch (vf_choose("rhs", 0, 2)) {
    case 0: {
        DynVec<T> v(b); auto s = f.solve_linear(v); eqv(s, x, "solution"); eqv(v, b, "the right-hand side is untouched");
        auto& r = f.solve_linear_mut(v); vf_check(&r == &v, "in-place solve returns its argument"); eqv(v, x, "solution in place");
        intact(); DynVec<T> w(c); auto s2 = f.solve_linear(w); eqv(s2, y, "solution of a second system"); break; }
    case 1: {
        u64 m = vf_choose("nrhs", 1, 3); M<T> xs(n, m); for (u64 i = 0; i < n; ++i) for (u64 k = 0; k < m; ++k) xs(i, k) = k == 0 ? x[i] : k == 1 ? y[i] : in<T>("z");
        auto bs = mm(a, xs); DynMat<T> B(n, m, bs.a); auto s = f.solve_linear(B); eqm(s, xs, "solutions of several right-hand sides"); eqm(B, bs, "the right-hand sides are untouched");
        auto& r = f.solve_linear_mut(B); vf_check(&r == &B, "in-place solve returns its argument"); eqm(B, xs, "solutions in place"); break; }
    default:
        if (n == 3) { SizedVec<T, 3> v(b); auto s = f.solve_linear(v); eqv(s, x, "solution (fixed size)"); f.solve_linear_mut(v); eqv(v, x, "solution in place (fixed size)");
            M<T> xs(3, 2); for (u64 i = 0; i < 3; ++i) { xs(i, 0) = x[i]; xs(i, 1) = y[i]; } auto bs = mm(a, xs); SizedMat<T, 3, 2> B(bs.a); auto t = f.solve_linear(B); eqm(t, xs, "solutions (fixed size)"); f.solve_linear_mut(B); eqm(B, xs, "solutions in place (fixed size)"); }
    }
    intact();
}
template<class T> static void square_n(u64 n, u64 pat) {
    auto l = factor<T>(n, pat); auto a = mm(l, tr(l)); DynCholeskyFactorization<T> f(DynMat<T>(n, n, a.a));
    auto ok = [&] { u(f.factor_mat().shape().first, n, "factor rows"); u(f.factor_mat().shape().second, n, "factor columns"); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) eq<T>(f.factor_mat()(i, j), l(i, j), "factor"); };
    ok(); use<T>(f, n, a, ok);
}
template<class T> static void packed_n(u64 n, u64 pat) {
    auto l = factor<T>(n, pat); auto a = mm(l, tr(l)); DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, packed(a)));
    auto ok = [&] { eqm(f.lower_mat(), l, "factor"); };
    ok(); use<T>(f, n, a, ok);
}
template<class T> static void square() { precision<T>(); square_n<T>(vf_choose("n", 1, NM), 0); }
template<class T> static void pack() { precision<T>(); packed_n<T>(vf_choose("n", 1, NM), 0); }
template<class T> static void pats() { precision<T>(); u64 n = vf_choose("big", 0, 1) ? 8 : 6, p = vf_choose("pattern", 1, 2); if (vf_choose("packed", 0, 1)) packed_n<T>(n, p); else square_n<T>(n, p); }
template<class T> static M<T> thin(u64 n, u64 pat) { M<T> l(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) if (pat == 0 ? i == j : in_pat(pat, i, j)) { if ((i + 2 * j) % 4 == 1) { l(i, j) = in<T>("l"); if (i == j) pos<T>(l(i, j)); } else l(i, j) = T(i == j ? 2 : -1); } return l; }
// fixed-size right-hand sides of other sizes
template<class T, size_t N, size_t K, class F> static void fixed_rhs(const F& f, const M<T>& a) {
    auto x = ins<T>(N, "x"); auto b = mv(a, x); SizedVec<T, N> v(b); auto s = f.solve_linear(v); eqv(s, x, "solution (fixed size)"); eqv(v, b, "the right-hand side is untouched"); f.solve_linear_mut(v); eqv(v, x, "solution in place (fixed size)");
    auto xs = fewm<T>(N, K, "x", N * K / 4 + 1); auto bs = mm(a, xs); SizedMat<T, N, K> B(bs.a); auto t = f.solve_linear(B); eqm(t, xs, "solutions (fixed size)"); eqm(B, bs, "the right-hand sides are untouched"); f.solve_linear_mut(B); eqm(B, xs, "solutions in place (fixed size)");
}
template<class T, size_t N, size_t K> static void fixed_one() {
    u64 p = vf_choose("pattern", 1, 2); auto l = thin<T>(N, p); auto a = mm(l, tr(l));
    if (vf_choose("packed", 0, 1)) fixed_rhs<T, N, K>(DynTriCholeskyFactorization<T>(DynHermiteMat<T>(N, packed(a))), a); else fixed_rhs<T, N, K>(DynCholeskyFactorization<T>(DynMat<T>(N, N, a.a)), a);
}
template<class T> static void fixed() { precision<T>(); switch (vf_choose("size", 0, 5)) { case 0: fixed_one<T, 1, 5>(); break; case 1: fixed_one<T, 2, 9>(); break; case 2: fixed_one<T, 4, 4>(); break; case 3: fixed_one<T, 6, 3>(); break; case 4: fixed_one<T, 8, 17>(); break; default: fixed_one<T, 17, 2>(); } }
template<class T> static void large() {
    precision<T>(); u64 k = vf_choose("n", 0, 2), n = k == 0 ? 12 : k == 1 ? 17 : 33; auto l = thin<T>(n, vf_choose("pattern", 0, 2)); auto a = mm(l, tr(l)); auto x = ins<T>(n, "x"); auto b = mv(a, x);
    if (vf_choose("packed", 0, 1)) { DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, packed(a))); eqm(f.lower_mat(), l, "factor"); DynVec<T> v(b); auto s = f.solve_linear(v); eqv(s, x, "solution"); f.solve_linear_mut(v); eqv(v, x, "solution in place"); }
    else { DynCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); DynVec<T> v(b); auto s = f.solve_linear(v); eqv(s, x, "solution"); DynMat<T> B(n, 1, b); f.solve_linear_mut(B); for (u64 i = 0; i < n; ++i) eq<T>(B(i, 0), x[i], "solution in place"); }
}
template<class T> static T fixed(u64 i, u64 j) { return T((double)((i * 7 + j * 3) % 5) - 2) / T(8); }   // element of a dense fixed factor
template<class T> static void dense() {   // dense fixed factors of larger size, every right-hand side
    precision<T>(); u64 k = vf_choose("n", 0, Q(3, 4)), n = k == 0 ? 17 : k == 1 ? 33 : k == 2 ? 65 : k == 3 ? 130 : 200; M<T> l(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) l(i, j) = i == j ? T(2) : fixed<T>(i, j);
    M<T> a(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) { T t = T(0); for (u64 q = 0; q <= j; ++q) t += l(i, q) * l(j, q); a(i, j) = a(j, i) = t; } u64 m = 5; M<T> x(n, m); for (u64 i = 0; i < n; ++i) for (u64 c = 0; c < m; ++c) x(i, c) = (n < 65 ? c == 3 || (i + c) % 5 == 2 : (i + c) % (n < 100 ? 23 : 61) == 2) ? in<T>("x") : fixed<T>(c, i); auto B = mm(a, x); auto b = B.col(3), xs = x.col(3);
    auto solve = [&](const auto& f) { DynVec<T> v(b); auto s = f.solve_linear(v); eqv(s, xs, "solution"); f.solve_linear_mut(v); eqv(v, xs, "solution in place"); DynMat<T> w(n, m, B.a); auto t = f.solve_linear(w); eqm(t, x, "solutions of several right-hand sides"); f.solve_linear_mut(w); eqm(w, x, "solutions in place"); };
    if (vf_choose("packed", 0, 1)) { DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, packed(a))); eqm(f.lower_mat(), l, "factor"); solve(f); }
    else { DynCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) eq<T>(f.factor_mat()(i, j), l(i, j), "factor"); solve(f); }
}
template<class T> static void many() {   // many right-hand sides
    precision<T>(); static const u64 C[] = {4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 65}; u64 n = vf_choose("n", 1, 2), m = C[vf_choose("columns", 0, 10)]; auto l = factor<T>(n, 0); auto a = mm(l, tr(l)); M<T> x(n, m); for (u64 i = 0; i < n; ++i) for (u64 c = 0; c < m; ++c) x(i, c) = (i + c) % 3 == 0 || c + 2 > m ? in<T>("x") : fixed<T>(i, c);
    auto B = mm(a, x); DynMat<T> w(n, m, B.a); auto solve = [&](const auto& f) { auto t = f.solve_linear(w); eqm(t, x, "solutions of many right-hand sides"); f.solve_linear_mut(w); eqm(w, x, "solutions in place"); };
    if (vf_choose("packed", 0, 1)) { DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, packed(a))); solve(f); } else { DynCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); solve(f); }
}
#if defined(LALIB_LAPACK_BACKEND)
template<class T> static void hermite() {   // complex Hermitian matrices (LAPACK only: the internal code takes real elements)
    using R = typename T::value_type; u64 n = vf_choose("n", 1, Q(3, 4)), m = vf_choose("columns", 1, 2); M<T> l(n, n), lh(n, n);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) { if (i == j) { R d = in<R>("d"); vf_assume(d > 0); l(i, i) = T(d, R(0)); } else l(i, j) = in<T>("l"); lh(j, i) = std::conj(l(i, j)); }
    auto a = mm(l, lh); M<T> x(n, m); for (auto& e : x.a) e = in<T>("x"); auto B = mm(a, x); auto b = B.col(0), xs = x.col(0);
    DynCholeskyFactorization<T> f(DynMat<T>(n, n, a.a));
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) eq<T>(f.factor_mat()(i, j), l(i, j), "factor of a Hermitian matrix");
    DynVec<T> v(b); auto s = f.solve_linear(v); eqv(s, xs, "solution"); eqv(v, b, "the right-hand side is untouched"); auto& r = f.solve_linear_mut(v); vf_check(&r == &v, "in-place solve returns its argument"); eqv(v, xs, "solution in place");
    DynMat<T> w(n, m, B.a); auto t = f.solve_linear(w); eqm(t, x, "solutions of several right-hand sides"); eqm(w, B, "the right-hand sides are untouched"); f.solve_linear_mut(w); eqm(w, x, "solutions in place");
}
// @run mode=real cfg=lapack
ENTRY(h_hermite_cd) { precision<double>(); hermite<cd>(); }
ENTRY(h_hermite_cf) { precision<float>(); hermite<cf>(); }
#endif
// @run mode=real cfg=internal,lapack
ENTRY(h_fixed_double) { fixed<double>(); }
ENTRY(h_dense_double) { dense<double>(); }
ENTRY(h_many_double) { many<double>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_square_double) { square<double>(); }
ENTRY(h_square_float) { square<float>(); }
ENTRY(h_patterns_double) { pats<double>(); }
// @run mode=real cfg=internal
ENTRY(h_packed_double) { pack<double>(); }
ENTRY(h_packed_float) { pack<float>(); }
// @run mode=real cfg=internal,lapack
ENTRY(h_twice_double) { twice(12, {dense<double>, many<double>, square<double>, pats<double>}); }
