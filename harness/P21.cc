// @bound every symmetric matrix of size 1..4 (thorough 1..5) with nonzero leading minors, given as L D^-1 L^T with arbitrary L of nonzero diagonal D (indefinite included), every solution; one vector or 1..3 columns of right-hand sides; in place and copying; k-th pivot zero for every k; band and arrow factors of size 6 and 8, and, with every fourth element symbolic, of size 12, 17 and 33, with any pivot vanishing
// @bound dense factors of size 17, 33, 65 and 130 (thorough 200) with fixed elements, every right-hand side, one vector and five columns; up to 65 columns of right-hand sides for size 1 and 2
// @bound fixed-size right-hand sides of size 1, 2, 3, 4, 6, 8 and 17 with 1, 2, 3, 4, 5, 9 and 17 columns
// @bound two calls in sequence on one path: 12 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume real arithmetic
// @outside larger general matrices, rounding error, complex matrices
#include "sym.h"
#include <cmath>
#include <string>
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
using namespace lalib; using namespace lalib::solver;
static bool in_pat(u64 p, u64 i, u64 j) { return p == 0 ? true : p == 1 ? i <= j + 1 : (j == 0 || i == j); }
template<class T> static M<T> factor(u64 n, u64 pat) { M<T> l(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) if (in_pat(pat, i, j)) { l(i, j) = in<T>("l"); if (i == j) nz<T>(l(i, j)); } return l; }
template<class T> static M<T> product(const M<T>& l) { u64 n = l.n; M<T> a(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) { T s = T(0); for (u64 k = 0; k <= j; ++k) s += l(i, k) * l(j, k) / l(k, k); a(i, j) = a(j, i) = s; } return a; }
template<class T> static void solve_n(u64 n, u64 pat) {
    auto l = factor<T>(n, pat); auto a = product(l); DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a.a));
    auto ok = [&] { for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) eq<T>(f.factor_mat()(i, j), l(i, j), "factor"); };
    ok(); auto x = ins<T>(n, "x"), y = ins<T>(n, "y"); auto b = mv(a, x), c = mv(a, y);
    if (vf_choose("matrix", 0, 1)) {
        u64 m = vf_choose("nrhs", 1, 3); M<T> xs(n, m); for (u64 i = 0; i < n; ++i) for (u64 k = 0; k < m; ++k) xs(i, k) = k == 0 ? x[i] : k == 1 ? y[i] : in<T>("z");
        auto bs = mm(a, xs); DynMat<T> B(n, m, bs.a); auto s = f.solve_linear(B); eqm(s, xs, "solutions of several right-hand sides"); eqm(B, bs, "the right-hand sides are untouched");
        auto& r = f.solve_linear_mut(B); vf_check(&r == &B, "in-place solve returns its argument"); eqm(B, xs, "solutions in place");
    } else {
        DynVec<T> v(b); auto s = f.solve_linear(v); eqv(s, x, "solution"); eqv(v, b, "the right-hand side is untouched");
        auto& r = f.solve_linear_mut(v); vf_check(&r == &v, "in-place solve returns its argument"); eqv(v, x, "solution in place");
        DynVec<T> w(c); auto s2 = f.solve_linear(w); eqv(s2, y, "solution of a second system");
        if (n == 3) { SizedVec<T, 3> q(b); auto t = f.solve_linear(q); eqv(t, x, "solution (fixed size)"); f.solve_linear_mut(q); eqv(q, x, "solution in place (fixed size)"); }
    }
    ok();
}
template<class T> static void solve() { precision<T>(); solve_n<T>(vf_choose("n", 1, Q(4, 5)), 0); }
template<class T> static void pats() { precision<T>(); solve_n<T>(vf_choose("big", 0, 1) ? 8 : 6, vf_choose("pattern", 1, 2)); }
template<class T> static void large(bool piv) {
    precision<T>(); u64 c = vf_choose("n", 0, 2), n = c == 0 ? 12 : c == 1 ? 17 : 33, pat = vf_choose("pattern", 0, 2); M<T> l(n, n);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) if (pat == 0 ? i == j : in_pat(pat, i, j)) { if ((i + 2 * j) % 4 == 1) { l(i, j) = in<T>("l"); if (i == j) nz<T>(l(i, j)); } else l(i, j) = T(i == j ? 2 : -1); }
    auto a = product(l); u64 k = piv ? vf_choose("vanishing", 0, n - 1) : n;
    if (piv) { if (n == 33) vf_assume(k % 5 == 0 || k > 28 || k == 16 || k == 17); a(k, k) = a(k, k) - l(k, k); u((u64)raised<std::runtime_error>([&] { DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); }), 1, "a matrix with a vanishing pivot is rejected"); return; }
    DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) eq<T>(f.factor_mat()(i, j), l(i, j), "factor");
    auto x = ins<T>(n, "x"); auto b = mv(a, x); DynVec<T> v(b); auto s = f.solve_linear(v); eqv(s, x, "solution"); DynMat<T> B(n, 1, b); f.solve_linear_mut(B); for (u64 i = 0; i < n; ++i) eq<T>(B(i, 0), x[i], "solution in place");
}
template<class T> static void any() {   // arbitrary symmetric matrix: accepted exactly if no leading minor vanishes
    precision<T>();
    u64 n = vf_choose("n", 1, 3); M<T> a(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) a(i, j) = a(j, i) = in<T>("a");
    M<T> l(n, n); int r = raised<std::runtime_error>([&] { DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) l(i, j) = f.factor_mat()(i, j); });
    bool ok = a(0, 0) != 0;
    if (ok && n > 1) ok = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0) != 0;
    if (ok && n > 2) ok = a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)) != 0;
    u((u64)r, ok ? 0 : 1, "rejected exactly if a pivot vanishes");
    if (r == 0) for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) { T s = T(0); for (u64 k = 0; k <= j; ++k) s += l(i, k) * l(j, k) / l(k, k); eq<T>(s, a(i, j), "L D^-1 L^T gives the matrix back"); }
}
template<class T> static void pivot() {
    precision<T>();
    u64 n = vf_choose("n", 1, Q(4, 5)), k = vf_choose("k", 0, n - 1); auto l = factor<T>(n, 0); auto a = product(l); a(k, k) = a(k, k) - l(k, k);
    u((u64)raised<std::runtime_error>([&] { DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); }), 1, "a matrix with a vanishing pivot is rejected");
}
template<class T> static T fixed(u64 i, u64 j) { return T((double)((i * 7 + j * 3) % 5) - 2) / T(8); }   // element of a dense fixed factor
template<class T> static void dense() {   // dense fixed factors of larger size, every right-hand side
    precision<T>(); u64 k = vf_choose("n", 0, Q(3, 4)), n = k == 0 ? 17 : k == 1 ? 33 : k == 2 ? 65 : k == 3 ? 130 : 200; M<T> l(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) l(i, j) = i == j ? T(i % 3 ? 2 : -4) : fixed<T>(i, j);
    auto a = product(l); u64 m = 5; M<T> x(n, m); for (u64 i = 0; i < n; ++i) for (u64 c = 0; c < m; ++c) x(i, c) = (n < 65 ? c == 3 || (i + c) % 5 == 2 : (i + c) % (n < 100 ? 23 : 61) == 2) ? in<T>("x") : fixed<T>(c, i); auto B = mm(a, x); auto b = B.col(3), xs = x.col(3);
    DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) eq<T>(f.factor_mat()(i, j), l(i, j), "factor");
    DynVec<T> v(b); auto s = f.solve_linear(v); eqv(s, xs, "solution"); f.solve_linear_mut(v); eqv(v, xs, "solution in place"); DynMat<T> w(n, m, B.a); auto t = f.solve_linear(w); eqm(t, x, "solutions of several right-hand sides"); f.solve_linear_mut(w); eqm(w, x, "solutions in place");
}
template<class T> static void many() {   // many right-hand sides
    precision<T>(); static const u64 C[] = {4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 65}; u64 n = vf_choose("n", 1, 2), m = C[vf_choose("columns", 0, 10)]; auto l = factor<T>(n, 0); auto a = product(l); M<T> x(n, m); for (u64 i = 0; i < n; ++i) for (u64 c = 0; c < m; ++c) x(i, c) = (i + c) % 3 == 0 || c + 2 > m ? in<T>("x") : fixed<T>(i, c);
    auto B = mm(a, x); DynMat<T> w(n, m, B.a); DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); auto t = f.solve_linear(w); eqm(t, x, "solutions of many right-hand sides"); f.solve_linear_mut(w); eqm(w, x, "solutions in place");
}
// fixed-size right-hand sides of other sizes
template<class T, size_t N, size_t K> static void fixed_one() {
    u64 p = vf_choose("pattern", 1, 2); M<T> l(N, N); for (u64 i = 0; i < N; ++i) for (u64 j = 0; j <= i; ++j) if (in_pat(p, i, j)) { if ((i + 2 * j) % 4 == 1) { l(i, j) = in<T>("l"); if (i == j) nz<T>(l(i, j)); } else l(i, j) = T(i == j ? 2 : -1); }
    auto a = product(l); const DynModCholeskyFactorization<T> f(DynMat<T>(N, N, a.a));
    auto x = ins<T>(N, "x"); auto b = mv(a, x); SizedVec<T, N> v(b); auto s = f.solve_linear(v); eqv(s, x, "solution (fixed size)"); eqv(v, b, "the right-hand side is untouched"); f.solve_linear_mut(v); eqv(v, x, "solution in place (fixed size)");
    auto xs = fewm<T>(N, K, "x", N * K / 4 + 1); auto bs = mm(a, xs); SizedMat<T, N, K> B(bs.a); auto t = f.solve_linear(B); eqm(t, xs, "solutions (fixed size)"); eqm(B, bs, "the right-hand sides are untouched"); f.solve_linear_mut(B); eqm(B, xs, "solutions in place (fixed size)");
}
template<class T> static void fixed() { precision<T>(); switch (vf_choose("size", 0, 5)) { case 0: fixed_one<T, 1, 5>(); break; case 1: fixed_one<T, 2, 9>(); break; case 2: fixed_one<T, 4, 4>(); break; case 3: fixed_one<T, 6, 3>(); break; case 4: fixed_one<T, 8, 17>(); break; default: fixed_one<T, 17, 2>(); } }
// @run mode=real cfg=internal
ENTRY(h_fixed_double) { fixed<double>(); }
ENTRY(h_dense_double) { dense<double>(); }
ENTRY(h_many_double) { many<double>(); }
ENTRY(h_solve_double) { solve<double>(); }
ENTRY(h_solve_float) { solve<float>(); }
ENTRY(h_patterns_double) { pats<double>(); }
ENTRY(h_large_double) { large<double>(false); }
ENTRY(h_any_double) { any<double>(); }
ENTRY(h_pivot_double) { pivot<double>(); }
ENTRY(h_pivot_float) { pivot<float>(); }
// @run mode=real cfg=internal witness=0
ENTRY(h_large_pivot_double) { large<double>(true); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(12, {dense<double>, many<double>, solve<double>, pats<double>}); }
