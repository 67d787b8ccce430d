// @bound 33000 and 65601 unknowns, mostly fixed elements
// @bound every tri-diagonal matrix of size 1..6 (thorough 1..8) whose elimination without interchanges has nonzero pivots (given by its bidiagonal factors), sizes 9, 12, 16, 17, 20, 33 and 70 (every third pivot symbolic) with one vector or two columns; every solution; sizes 17, 33, 64, 65, 130, 257 and 1025 with fixed or few symbolic factors, one vector or 1, 2 or 17 columns; one vector, or 1..3 columns; dynamic and fixed-size matrix and right-hand sides (fixed sizes 2, 3, 5, 9, 17, 33); result distinct from or the same as the right-hand side; several systems with one solver object
// @bound two calls in sequence on one path: 12 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume real arithmetic; nonzero pivots
// @outside matrices that need row interchanges, singular matrices, rounding error
#include "sym.h"
#include <cmath>
#include <string>
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/solver/tri_diag.hpp"
using namespace lalib; using namespace lalib::solver;
template<class T> struct Tri { std::vector<T> dl, d, du; M<T> a; };
template<class T> static Tri<T> gen(u64 n, u64 plain) {
    Tri<T> t; std::vector<T> piv; t.a = M<T>(n, n);
    for (u64 i = 0; i < n; ++i) {
        T p = plain && i % (plain > 1 ? plain : 3) != 1 ? T(2) : in<T>("pivot"); nz<T>(p); piv.push_back(p);
        if (i == 0) t.d.push_back(p); else { T l = plain && (i % 2 || (plain > 1 && i % plain)) ? T(1) : in<T>("l"); T c = plain && (i % 4 || (plain > 1 && i % plain)) ? T(-1) : in<T>("du"); t.dl.push_back(l * piv[i - 1]); t.du.push_back(c); t.d.push_back(p + l * c); }
    }
    for (u64 i = 0; i < n; ++i) { t.a(i, i) = t.d[i]; if (i + 1 < n) { t.a(i + 1, i) = t.dl[i]; t.a(i, i + 1) = t.du[i]; } }
    return t;
}
template<class T> static std::vector<T> mv3(const Tri<T>& t, const std::vector<T>& x) { u64 n = x.size(); std::vector<T> b(n); for (u64 i = 0; i < n; ++i) { b[i] = t.d[i] * x[i]; if (i) b[i] += t.dl[i - 1] * x[i - 1]; if (i + 1 < n) b[i] += t.du[i] * x[i + 1]; } return b; }
template<class T, class S> static void vec(S& s, const Tri<T>& t, u64 n) {
    auto x = ins<T>(n, "x"); auto b = mv(t.a, x); DynVec<T> v(b), r(n > 0 ? ins<T>(n, "old") : b);
    auto& q = s.solve_linear(v, r); vf_check(&q == &r, "the result argument is returned"); eqv(r, x, "solution"); eqv(v, b, "the right-hand side is untouched");
    auto& w = s.solve_linear(v, v); vf_check(&w == &v, "the result argument is returned"); eqv(v, x, "solution onto the right-hand side");
}
template<class T, class S> static void mat(S& s, const Tri<T>& t, u64 n, u64 m) {
    auto x = inm<T>(n, m, "x"); auto b = mm(t.a, x); DynMat<T> v(n, m, b.a); auto o = inm<T>(n, m, "old"); DynMat<T> r(n, m, o.a);
    auto& q = s.solve_linear(v, r); vf_check(&q == &r, "the result argument is returned"); eqm(r, x, "solutions"); eqm(v, b, "the right-hand sides are untouched");
    s.solve_linear(v, v); eqm(v, x, "solutions onto the right-hand sides");
}
template<class T> static void dyn() {
    precision<T>();
    u64 n = vf_choose("n", 1, Q(6, 8)); auto t = gen<T>(n, false); DynTriDiagMat<T> A(t.dl, t.d, t.du); u64 k = vf_choose("how", 0, 3);
    if (k == 0) { TriDiag<DynTriDiagMat<T>> s(A); vec<T>(s, t, n); vec<T>(s, t, n); auto c = A(0, 0); eq<T>(c, t.d[0], "the matrix given is untouched"); }
    else { TriDiag<DynTriDiagMat<T>> s(std::move(A)); mat<T>(s, t, n, k); if (n < 5) { vec<T>(s, t, n); mat<T>(s, t, n, 1); } }
}
template<class T> static void large() { precision<T>(); static const u64 N[] = {9, 12, 16, 17, 20, 33, 70}; u64 n = N[vf_choose("n", 0, 6)]; auto t = gen<T>(n, true); TriDiag<DynTriDiagMat<T>> s(DynTriDiagMat<T>(t.dl, t.d, t.du)); if (vf_choose("columns", 0, 1)) mat<T>(s, t, n, 2); else vec<T>(s, t, n); }
template<class T> static void huge() {   // mostly fixed elements
    precision<T>(); static const u64 N[] = {17, 33, 64, 65, 130, 257, 1025}; u64 n = N[vf_choose("n", 0, 6)], m = vf_choose("columns", 0, 3), q = vf_choose("symbolic", 0, 1); auto t = gen<T>(n, q ? 1000 + n : 64); TriDiag<DynTriDiagMat<T>> s(DynTriDiagMat<T>(t.dl, t.d, t.du)); vf_assume(n < 1000 || m < 2);
    if (m == 0) { auto x = few<T>(n, "x", n / 5); auto b = mv3(t, x); DynVec<T> v(b), r(b); s.solve_linear(v, r); eqv(r, x, "solution"); eqv(v, b, "the right-hand side is untouched"); s.solve_linear(v, v); eqv(v, x, "solution onto the right-hand side"); }
    else { m = m == 3 ? 17 : m; auto x = fewm<T>(n, m, "x", n * m / 5); M<T> b(n, m); for (u64 c = 0; c < m; ++c) { auto w = mv3(t, x.col(c)); for (u64 i = 0; i < n; ++i) b(i, c) = w[i]; } DynMat<T> v(n, m, b.a), r(n, m, x.a); s.solve_linear(v, r); eqm(r, x, "solutions"); eqm(v, b, "the right-hand sides are untouched"); s.solve_linear(v, v); eqm(v, x, "solutions onto the right-hand sides"); }
}
template<class T> static void longest() {   // more rows than a 16-bit counter reaches, no dense copy of the matrix
    precision<T>(); u64 n = vf_choose("n", 0, 1) ? 65601 : 33000; Tri<T> t; T pr = T(2); std::vector<T> x;   // symbolic blocks of two rows, decoupled from the fixed rows around them
    for (u64 i = 0; i < n; ++i) {
        u64 r = i % (n / 3); bool s = r == 77 || r == 78 || i + 2 >= n; bool cut = r == 77 || r == 79 || i + 2 == n;
        T p = s ? in<T>("pivot") : T(2), l = cut ? T(0) : s ? in<T>("l") : T(1), c = cut ? T(0) : s ? in<T>("du") : T(-1); nz<T>(p); if (i) { t.dl.push_back(l * pr); t.du.push_back(c); } t.d.push_back(i ? p + l * c : p); pr = p; x.push_back(s ? in<T>("x") : fix<T>(i));
    }
    TriDiag<DynTriDiagMat<T>> s(DynTriDiagMat<T>(t.dl, t.d, t.du)); auto b = mv3(t, x); DynVec<T> v(b); s.solve_linear(v, v); eqv(v, x, "solution onto the right-hand side");
}
template<class T, size_t N> static void sz() {
    auto t = gen<T>(N, false); std::array<T, N - 1> l{}, c{}; std::array<T, N> d{}; for (u64 i = 0; i < N; ++i) { d[i] = t.d[i]; if (i + 1 < N) { l[i] = t.dl[i]; c[i] = t.du[i]; } }
    SizedTriDiagMat<T, N> A(l, d, c); TriDiag<SizedTriDiagMat<T, N>> s(A); vec<T>(s, t, N);
    auto x = ins<T>(N, "x"); auto b = mv(t.a, x); SizedVec<T, N> v(b), r(b); s.solve_linear(v, r); eqv(r, x, "solution (fixed size)"); eqv(v, b, "the right-hand side is untouched"); s.solve_linear(v, v); eqv(v, x, "solution onto the right-hand side (fixed size)");
    auto xm = inm<T>(N, 2, "x"); auto bm = mm(t.a, xm); SizedMat<T, N, 2> vm(bm.a), rm(bm.a); s.solve_linear(vm, rm); eqm(rm, xm, "solutions (fixed size)"); mat<T>(s, t, N, 2);
}
template<class T, size_t N> static void szbig() {   // every third pivot symbolic
    auto t = gen<T>(N, true); std::array<T, N - 1> l{}, c{}; std::array<T, N> d{}; for (u64 i = 0; i < N; ++i) { d[i] = t.d[i]; if (i + 1 < N) { l[i] = t.dl[i]; c[i] = t.du[i]; } }
    SizedTriDiagMat<T, N> A(l, d, c); TriDiag<SizedTriDiagMat<T, N>> s(A); TriDiag<DynTriDiagMat<T>> q(DynTriDiagMat<T>(t.dl, t.d, t.du));
    if (vf_choose("columns", 0, 1)) { auto xm = inm<T>(N, 2, "x"); auto bm = mm(t.a, xm); SizedMat<T, N, 2> vm(bm.a), rm(bm.a); s.solve_linear(vm, rm); eqm(rm, xm, "solutions (fixed size)"); eqm(vm, bm, "the right-hand sides are untouched"); q.solve_linear(vm, vm); eqm(vm, xm, "solutions onto the right-hand sides (fixed size)"); }
    else { auto x = ins<T>(N, "x"); auto b = mv(t.a, x); SizedVec<T, N> v(b), r(b); s.solve_linear(v, r); eqv(r, x, "solution (fixed size)"); eqv(v, b, "the right-hand side is untouched"); q.solve_linear(v, v); eqv(v, x, "solution onto the right-hand side (fixed size)"); }
}
template<class T> static void sized_more() { precision<T>(); switch (vf_choose("N", 0, 2)) { case 0: szbig<T, 9>(); break; case 1: szbig<T, 17>(); break; default: szbig<T, 33>(); } }
template<class T> static void sized() { precision<T>(); switch (vf_choose("N", 0, 2)) { case 0: sz<T, 2>(); break; case 1: sz<T, 3>(); break; default: sz<T, 5>(); } }
template<class T> static void one() { precision<T>(); T d = in<T>("d"), b = in<T>("b"); nz<T>(d); TriDiag<DynTriDiagMat<T>> s(DynTriDiagMat<T>({}, {d}, {})); DynVec<T> v({b}), r({b}); s.solve_linear(v, r); eq<T>(r[0] * d, b, "1 x 1 system"); std::array<T, 0> z{}; TriDiag<SizedTriDiagMat<T, 1>> q(SizedTriDiagMat<T, 1>(z, {d}, z)); q.solve_linear(v, v); eq<T>(v[0] * d, b, "1 x 1 system"); }
// @run mode=real cfg=internal,lapack
ENTRY(h_dyn_double) { dyn<double>(); }
ENTRY(h_dyn_float) { dyn<float>(); }
ENTRY(h_sized_double) { sized<double>(); }
ENTRY(h_sizedmore_double) { sized_more<double>(); }
ENTRY(h_one_double) { one<double>(); }
ENTRY(h_one_float) { one<float>(); }
// @run mode=real cfg=internal
ENTRY(h_longest_double) { longest<double>(); }
ENTRY(h_huge_double) { huge<double>(); }
ENTRY(h_huge_float) { huge<float>(); }
ENTRY(h_large_double) { large<double>(); }
// @run mode=real cfg=internal,lapack
ENTRY(h_twice_double) { twice(12, {dyn<double>, sized<double>, one<double>}); }
