// @bound every regular 1x1 and 2x2 matrix with nonzero elements; every 3x3 and 4x4 tri-diagonal and arrow matrix given by factors; every right-hand side in these cases and every positive tolerance
// @bound nine matrices of size 3..6 whose incomplete factorization drops fill (several iterations), each with five right-hand side directions times an arbitrary nonzero factor, with tolerances from far above to far below the residual; sparse compressed and dense storage
// @bound diagonal and tri-diagonal matrices of size 6, 9, 17 and 33 given by factors (every eighth element symbolic) with partly symbolic solutions
// @bound hub-and-chain matrices of size 9, 17, 33 and (dense storage; thorough: also sparse) 65 with 5, 9, 17 and 33 iterations, right-hand side times an arbitrary factor, four tolerances
// @bound two calls in sequence on one path: 20 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume regular matrix with nonzero pivots, positive tolerance, real arithmetic
// @outside general symbolic matrices above 2x2, convergence under rounding
#include "spm.h"
#include <string>
#include "lalib/solver/gmres.hpp"
using namespace lalib::solver;
template<class Mt, class T> static Mt make(const M<T>& a, const std::vector<char>& p) {
    if constexpr (std::is_same_v<Mt, DynMat<T>>) return DynMat<T>(a.n, a.m, a.a);
    else { Ent<T> e; for (u64 i = 0; i < a.n; ++i) for (u64 j = 0; j < a.m; ++j) if (p[i * a.m + j]) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(a(i, j)); } return Mt(SpCooMat<T>(e.v, e.r, e.c)); }
}
template<class Mt, class T> static void large() {   // factors mostly fixed: diagonal and tri-diagonal matrices of larger size
    precision<T>();
    u64 c = vf_choose("n", 0, 3), n = c == 0 ? 6 : c == 1 ? 9 : c == 2 ? 17 : 33, k = vf_choose("kind", 0, 1); std::vector<char> p(n * n); M<T> l(n, n), w(n, n);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (p[i * n + j] = i == j || (k && i <= j + 1 && j <= i + 1)) { bool s = (i + 2 * j) % 8 == 1; if (i == j) { l(i, i) = T(1); w(i, i) = s ? in<T>("u") : T(4); if (s) nz<T>(w(i, i)); } else if (j < i) l(i, j) = s ? in<T>("l") : T(-1); else w(i, j) = s ? in<T>("u") : T(1); }
    auto a = mm(l, w); for (u64 i = 0; i < n * n; ++i) if (p[i]) nz<T>(a.a[i]);
    std::vector<T> x; for (u64 i = 0; i < n; ++i) x.push_back(i % 4 == 2 ? in<T>("x") : T((double)(i % 3) - 1)); auto b = mv(a, x); T tol = in<T>("tol"); pos<T>(tol);
    Gmres<T, Mt> g(make<Mt>(a, p), tol); DynVec<T> v(b); auto s = g.solve(v); eqv(s, x, "solution"); eqv(v, b, "the right-hand side is untouched");
}
template<class Mt, class T> static void small() {
    precision<T>();
    u64 n = vf_choose("n", 1, 2); M<T> a(n, n); for (auto& v : a.a) { v = in<T>("a"); nz<T>(v); } if (n == 2) nz<T>(a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0));
    auto x = ins<T>(n, "x"); auto b = mv(a, x); T tol = in<T>("tol"); pos<T>(tol);
    const Gmres<T, Mt> g(make<Mt>(a, std::vector<char>(4, 1)), tol); DynVec<T> v(b); auto s = g.solve(v); eqv(s, x, "solution"); eqv(v, b, "the right-hand side is untouched");
    auto y = ins<T>(n, "y"); DynVec<T> w(mv(a, y)); eqv(g.solve(w), y, "solution of a second system");
}
template<class Mt, class T> static void nofill() {
    precision<T>();
    u64 n = vf_choose("n", 3, 4), k = vf_choose("kind", 0, 1); std::vector<char> p(n * n); M<T> l(n, n), w(n, n), a(n, n);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) { bool t = p[i * n + j] = k ? (i == j || i == n - 1 || j == n - 1) : (i <= j + 1 && j <= i + 1); if (i == j) { l(i, i) = T(1); w(i, i) = in<T>("u"); nz<T>(w(i, i)); } else if (t) { if (j < i) l(i, j) = in<T>("l"); else w(i, j) = in<T>("u"); } }
    a = mm(l, w); for (u64 i = 0; i < n * n; ++i) if (p[i]) nz<T>(a.a[i]);
    auto x = ins<T>(n, "x"); auto b = mv(a, x); T tol = in<T>("tol"); pos<T>(tol);
    Gmres<T, Mt> g(make<Mt>(a, p), tol); DynVec<T> v(b); auto s = g.solve(v); eqv(s, x, "solution");
}
struct Sys { int n; int a[36]; };
static const Sys S[] = {
    {3, {4, 1, 1, 1, 4, 0, 1, 0, 4}}, {3, {3, 1, 2, 1, 5, 0, -1, 0, 2}}, {3, {1, 2, 3, 1, 1, 0, 2, 0, 5}},
    {4, {4, -1, -1, 0, -1, 4, 0, -1, -1, 0, 4, -1, 0, -1, -1, 4}}, {4, {2, 1, 0, 1, 1, 3, 1, 0, 0, 1, 2, 1, 1, 0, -1, 4}}, {4, {2, 0, 1, 1, 0, 3, 1, 0, 2, 1, 5, 0, -1, 0, 0, 1}},
    {5, {4, 1, 0, 0, 1, 1, 4, 1, 0, 0, 0, 1, 4, 1, 0, 0, 0, 1, 4, 1, 1, 0, 0, 1, 4}}, {5, {5, 1, 1, 1, 1, 1, 3, 0, 0, 0, 1, 0, 3, 0, 0, 2, 0, 0, 4, 0, 1, 0, 0, 0, 2}},
    {6, {5, -1, 0, -1, 0, 0, -1, 5, -1, 0, -1, 0, 0, -1, 5, 0, 0, -1, -1, 0, 0, 5, -1, 0, 0, -1, 0, -1, 5, -1, 0, 0, -1, 0, -1, 5}}};
static const int X[][9] = {{1, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 1, 1, 1, 1, 1, 1, 1, 1}, {1, -2, 3, -1, 2, 1, 0, -1, 2}, {0, 0, 1, 0, 0, 1, 0, 0, 0}, {3, 0, -1, 1, 4, 0, 2, -1, 1}};
template<class T> static M<T> ilu0(M<T> g) {   // reference elimination on the nonzero pattern
    auto a = g; for (u64 i = 0; i < g.n; ++i) for (u64 j = 0; j < g.n; ++j) if (a(i, j) != 0) { for (u64 q = 0; q < std::min(i, j); ++q) g(i, j) -= g(i, q) * g(q, j); if (j < i) g(i, j) /= g(j, j); } return g;
}
template<class T> static std::vector<T> precond(const M<T>& f, std::vector<T> y) {
    u64 n = f.n; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < i; ++j) y[i] -= f(i, j) * y[j];
    for (u64 i = n; i-- > 0;) { for (u64 j = i + 1; j < n; ++j) y[i] -= f(i, j) * y[j]; y[i] /= f(i, i); } return y;
}
template<class T> static void sys(M<T>& a, std::vector<T>& x, std::vector<char>& p, u64& n, u64 last = 7) {
    u64 k = vf_choose("system", 0, last); n = S[k].n; a = M<T>(n, n); p = std::vector<char>(n * n); for (u64 i = 0; i < n * n; ++i) { a.a[i] = T(S[k].a[i]); p[i] = S[k].a[i] != 0; }
    u64 d = vf_choose("direction", 0, Q(2, 4)); x.clear(); for (u64 i = 0; i < n; ++i) x.push_back(T(X[d][i]));
}
template<class Mt, class T> static void fill() {
    precision<T>(); u64 n; M<T> a; std::vector<T> x; std::vector<char> p; sys(a, x, p, n);
    T t = in<T>("t"); pos<T>(t); if (vf_choose("negative", 0, 1)) for (auto& v : x) v = -v;
    for (auto& v : x) v = v * t; auto b = mv(a, x); T tol = t / T(1 << 20);
    Gmres<T, Mt> g(make<Mt>(a, p), tol); DynVec<T> v(b); auto s = g.solve(v); eqv(s, x, "solution"); eqv(v, b, "the right-hand side is untouched"); eqv(g.solve(v), x, "a second solve gives the same");
}
template<class Mt, class T> static void tolerance() {
    precision<T>(); u64 n; M<T> a; std::vector<T> x; std::vector<char> p; sys(a, x, p, n, 8);
    T t = in<T>("t"); pos<T>(t); auto f = ilu0(a);
    static const double F[] = {64, 1, 0.25, 0.0625, 0.00390625}; T tol = t * T(F[vf_choose("tol", 0, 4)]); const Gmres<T, Mt> g(make<Mt>(a, p), tol);
    for (u64 k = 0; k < 2; ++k) {   // the second right-hand side after a solve that may have stopped early
        for (u64 i = 0; i < n; ++i) x[i] = k ? T(X[2][n - 1 - i]) * t : x[i] * t;
        auto b = mv(a, x); DynVec<T> v(b); auto s = g.solve(v); eqv(v, b, "the right-hand side is untouched");
        std::vector<T> r(n); auto sx = std::vector<T>(); for (u64 i = 0; i < n; ++i) sx.push_back(s[i]); auto as = mv(a, sx); for (u64 i = 0; i < n; ++i) r[i] = b[i] - as[i]; r = precond(f, r);
        T q = T(0); for (u64 i = 0; i < n; ++i) q += r[i] * r[i]; vf_check(q < tol * tol, "the preconditioned residual is below the tolerance");
    }
}
template<class T> static T frac(int p, int q) { return T(p) / T(q); }   // exact: not folded by the compiler
template<class Mt, class T> static void chain() {   // hubs and a chain: the dropped fill makes every iteration add one rational Krylov direction
    precision<T>(); constexpr bool d = std::is_same_v<Mt, DynMat<T>>; u64 c = vf_choose("length", 0, d ? 3 : Q(2, 3)), m = c == 0 ? 5 : c == 1 ? 9 : c == 2 ? 17 : 33, n = 2 * m - 1; M<T> a(n, n); std::vector<char> p(n * n); auto at = [&](u64 i, u64 j, T v) { a(i, j) = v; p[i * n + j] = 1; };
    for (u64 i = 0; i < n; ++i) at(i, i, T(1));
    for (u64 k = 0; k + 1 < m; ++k) { at(k, m - 1 + k, frac<T>(3, 4)); at(m + k, k, k == 0 || k + 2 == m ? frac<T>(4, 5) : frac<T>(16, 25)); }   // Givens rotations by 3/5, 4/5 throughout
    auto f = ilu0(a); T t = in<T>("t"); nz<T>(t); std::vector<T> b(n); b[m - 1] = t; { std::vector<T> lb(n), w = b; for (u64 i = 0; i < n; ++i) { w[i] = T(0); for (u64 j = i; j < n; ++j) w[i] += f(i, j) * b[j]; } for (u64 i = 0; i < n; ++i) { lb[i] = w[i]; for (u64 j = 0; j < i; ++j) lb[i] += f(i, j) * w[j]; } b = lb; }
    static const double F[] = {0.0000000000000000000542101086242752217, 0.5, 0.03125, 0.0009765625}; u64 e = vf_choose("tol", 0, 3); vf_assume(m < 33 || e == 0 || Q(0, 1)); T tol = std::abs(t) * T(F[e]);
    Gmres<T, Mt> g(make<Mt>(a, p), tol); DynVec<T> v(b); auto s = g.solve(v); std::vector<T> sx; for (u64 i = 0; i < n; ++i) sx.push_back(s[i]); auto r = mv(a, sx); for (u64 i = 0; i < n; ++i) r[i] = b[i] - r[i];
    if (e == 0) for (auto q : r) eq<T>(q * T(1 << 16), T(0), "the residual vanishes after the last iteration");
    r = precond(f, r); T q = T(0); for (u64 i = 0; i < n; ++i) q += r[i] * r[i]; if (e) vf_check(q < tol * tol, "the preconditioned residual is below the tolerance"); eqv(v, b, "the right-hand side is untouched");
}
// @run mode=real cfg=internal
ENTRY(h_chain_csr_double) { chain<SpMat<double>, double>(); }
ENTRY(h_chain_dense_double) { chain<DynMat<double>, double>(); }
ENTRY(h_small_csr_double) { small<SpMat<double>, double>(); }
ENTRY(h_small_dense_double) { small<DynMat<double>, double>(); }
ENTRY(h_small_csr_float) { small<SpMat<float>, float>(); }
ENTRY(h_nofill_csr_double) { nofill<SpMat<double>, double>(); }
ENTRY(h_large_csr_double) { large<SpMat<double>, double>(); }
ENTRY(h_large_dense_double) { large<DynMat<double>, double>(); }
ENTRY(h_fill_csr_double) { fill<SpMat<double>, double>(); }
ENTRY(h_fill_csr_float) { fill<SpMat<float>, float>(); }
ENTRY(h_fill_dense_double) { fill<DynMat<double>, double>(); }
ENTRY(h_tolerance_csr_double) { tolerance<SpMat<double>, double>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(20, {small<SpMat<double>, double>, nofill<SpMat<double>, double>, chain<SpMat<double>, double>, fill<SpMat<double>, double>, tolerance<SpMat<double>, double>}); }
