// @bound every nonzero pattern with a full diagonal of a 3x3 matrix (64) with arbitrary factors on the pattern, band and arrow patterns without fill of size 5 and 7, and (every fourth factor element symbolic) of size 12, 17 and 33, dense 4x4; sparse compressed, sparse coordinate and dense storage; every solution
// @bound arbitrary matrices of size 1..3 on every pattern with full diagonal: accepted exactly if no pivot vanishes, and then the product of the factors agrees with the matrix on its pattern
// @bound dense and scattered patterns of size 17 and 33, with dropped fill, with fixed factors and every solution
// @bound diagonal matrices of size 70 and (but for coordinate storage) 140 with a few elements far from the diagonal
// @bound two calls in sequence on one path: 8 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume real arithmetic; stored elements nonzero (the library treats a zero as outside the pattern)
// @outside larger patterns with fill, rounding error, explicitly stored zeros
#include "spm.h"
#include <string>
#include "lalib/solver/ilu.hpp"
using namespace lalib::solver;
// matrix on the pattern: product of unit lower and upper factors, cut to the pattern
template<class Mt, class T> static Mt make(const M<T>& a, u64 mask) {
    if constexpr (std::is_same_v<Mt, DynMat<T>>) return DynMat<T>(a.n, a.m, a.a);
    else { Ent<T> e; for (u64 i = 0; i < a.n; ++i) for (u64 j = 0; j < a.m; ++j) if (mask == 0 || (mask >> (i * a.m + j) & 1)) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(a(i, j)); } return Mt(SpCooMat<T>(e.v, e.r, e.c)); }
}
template<class T> struct Fac { M<T> l, u, a; std::vector<char> p; };
template<class Mt, class T> static Mt make(const Fac<T>& f) {
    u64 n = f.a.n; if constexpr (std::is_same_v<Mt, DynMat<T>>) return DynMat<T>(n, n, f.a.a);
    else { Ent<T> e; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (f.p[i * n + j]) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(f.a(i, j)); } return Mt(SpCooMat<T>(e.v, e.r, e.c)); }
}
template<class T> static Fac<T> gen(u64 n, const std::vector<char>& p) {
    Fac<T> f; f.l = f.u = f.a = M<T>(n, n); f.p = p;
    for (u64 i = 0; i < n; ++i) { for (u64 j = 0; j < n; ++j) { if (i == j) { f.l(i, i) = T(1); f.u(i, i) = in<T>("u"); nz<T>(f.u(i, i)); } else if (p[i * n + j]) { if (j < i) f.l(i, j) = in<T>("l"); else f.u(i, j) = in<T>("u"); } } }
    auto q = mm(f.l, f.u); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (p[i * n + j]) { f.a(i, j) = q(i, j); nz<T>(f.a(i, j)); }
    return f;
}
template<class Mt, class T> static void check(const Fac<T>& f) {
    u64 n = f.a.n; auto A = make<Mt>(f); const Ilu<T, Mt> s(std::move(A));
    auto x = ins<T>(n, "x"); auto b = mv(mm(f.l, f.u), x); DynVec<T> v(b); auto r = s.solve(v); eqv(r, x, "L U x = b"); eqv(v, b, "the right-hand side is untouched"); auto r2 = s.solve(v); eqv(r2, x, "a second solve gives the same");
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (f.p[i * n + j]) eq<T>(s.mat()(i, j), j < i ? f.l(i, j) : f.u(i, j), "factors on the pattern");
}
template<class Mt, class T> static void pats() {
    precision<T>(); u64 k = vf_choose("pattern", 0, 63); std::vector<char> p(9); u64 b = 0; for (u64 i = 0; i < 3; ++i) for (u64 j = 0; j < 3; ++j) p[i * 3 + j] = i == j ? 1 : (k >> b++) & 1;
    if constexpr (std::is_same_v<Mt, DynMat<T>>) vf_assume(k == 63 || k == 0 || k == 1 || k == 8 || k == 35);
    check<Mt>(gen<T>(3, p));
}
template<class Mt, class T> static void nofill() {
    precision<T>(); u64 k = vf_choose("kind", 0, 3), n = k == 0 ? 5 : k == 1 ? 7 : k == 2 ? 5 : 4; std::vector<char> p(n * n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) p[i * n + j] = k < 2 ? (i <= j + 1 && j <= i + 1) : k == 2 ? (i == j || i == n - 1 || j == n - 1) : 1;
    auto f = gen<T>(n, p); check<Mt>(f);
    auto A = make<Mt>(f); Ilu<T, Mt> s(std::move(A)); auto x = ins<T>(n, "x"); DynVec<T> v(mv(f.a, x)); eqv(s.solve(v), x, "A x = b where the factorization has no fill");
}
template<class Mt, class T> static void large() {
    precision<T>(); u64 c = vf_choose("n", 0, 2), n = c == 0 ? 12 : c == 1 ? 17 : 33, k = vf_choose("kind", 0, 2); Fac<T> f; f.l = f.u = f.a = M<T>(n, n); f.p = std::vector<char>(n * n);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (f.p[i * n + j] = i == j || (k == 1 && i <= j + 1 && j <= i + 1) || (k == 2 && (i == n - 1 || j == n - 1 || (i == j + 1 && i % 2)))) {
        bool s = (i + 2 * j) % 4 == 1; if (i == j) { f.l(i, i) = T(1); f.u(i, i) = s ? in<T>("u") : T(8); if (s) nz<T>(f.u(i, i)); } else if (j < i) f.l(i, j) = s ? in<T>("l") : T(-1); else f.u(i, j) = s ? in<T>("u") : T(1); }
    auto q = mm(f.l, f.u); for (u64 i = 0; i < n * n; ++i) if (f.p[i]) { f.a.a[i] = q.a[i]; nz<T>(f.a.a[i]); }
    check<Mt>(f);
}
template<class T> static T fixed(u64 i, u64 j) { return T((double)((i * 7 + j * 3) % 5) - 2) / T(8); }   // element of a dense fixed factor
template<class Mt, class T> static void dense() {   // dense and scattered patterns of larger size (with fill) with fixed factors, every solution
    constexpr bool d = std::is_same_v<Mt, DynMat<T>>; precision<T>(); u64 c = vf_choose("n", 0, 2), n = c == 0 ? 17 : c == 1 ? 33 : 65, k = vf_choose("kind", 0, 2); vf_assume(n < 65 || d || k != 0); Fac<T> f; f.l = f.u = f.a = M<T>(n, n); f.p = std::vector<char>(n * n);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (f.p[i * n + j] = i == j || k == 0 || (k == 1 ? (i * 7 + j * 5) % 4 == 0 : (i + j) % 8 == 0 || j % 8 == 3)) {
        T e = fixed<T>(i, j) + T((double)((i * 13 + j * 11) % 7) + 1) / T(512); if (i == j) { f.l(i, i) = T(1); f.u(i, i) = T(2); } else if (j < i) f.l(i, j) = e; else f.u(i, j) = e; }
    auto q = mm(f.l, f.u); for (u64 i = 0; i < n * n; ++i) if (f.p[i]) { f.a.a[i] = q.a[i]; nz<T>(f.a.a[i]); }
    check<Mt>(f);
}
template<class Mt, class T> static void far() {   // diagonal plus a few elements far from it (no fill), in the last row and column and in row 66
    precision<T>(); const u64 n = !std::is_same_v<Mt, SpCooMat<T>> && vf_choose("n", 0, 1) ? 140 : 70, z = n - 1; std::vector<T> d(n, T(2)), lz(n, T(0)), uz(n, T(0)); d[1] = in<T>("d"); nz<T>(d[1]); d[n / 2] = T(4);
    lz[0] = in<T>("l"); nz<T>(lz[0]); lz[1] = T(3); lz[n / 2] = T(-1); lz[n - 3] = in<T>("l"); nz<T>(lz[n - 3]); uz[1] = in<T>("u"); nz<T>(uz[1]); uz[2] = T(5); uz[n / 2] = T(1.5); uz[n - 2] = T(7); T w = in<T>("w"); nz<T>(w);
    Fac<T> f; f.a = M<T>(n, n); f.p = std::vector<char>(n * n); auto put = [&](u64 i, u64 j, T v) { f.a(i, j) = v; f.p[i * n + j] = 1; };
    for (u64 i = 0; i < z; ++i) { put(i, i, d[i]); if (lz[i] != T(0)) put(z, i, lz[i] * d[i]); if (uz[i] != T(0)) put(i, z, uz[i]); } put(66, 0, w * d[0]); T e = d[z] + lz[1] * uz[1] + lz[n / 2] * uz[n / 2]; nz<T>(e); put(z, z, e);
    auto A = make<Mt>(f); const Ilu<T, Mt> s(std::move(A)); std::vector<T> x(n, T(1)); x[0] = in<T>("x"); x[n / 2] = in<T>("x"); x[z] = in<T>("x"); x[7] = T(-3);
    auto b = mv(f.a, x); DynVec<T> v(b); eqv(s.solve(v), x, "A x = b where the factorization has no fill"); eqv(v, b, "the right-hand side is untouched");
    for (u64 i = 0; i < z; ++i) { eq<T>(s.mat()(i, i), d[i], "factors on the pattern"); eq<T>(s.mat()(z, i), lz[i], "factors on the pattern"); eq<T>(s.mat()(i, z), uz[i], "factors on the pattern"); } eq<T>(s.mat()(66, 0), w, "factors on the pattern"); eq<T>(s.mat()(z, z), d[z], "factors on the pattern");
}
template<class Mt, class T> static void any() {
    precision<T>();
    u64 n = vf_choose("n", 1, 3), k = vf_choose("pattern", 0, n == 1 ? 0 : n == 2 ? 3 : 63); std::vector<char> p(n * n); u64 b = 0; M<T> a(n, n); Fac<T> f; f.p = std::vector<char>(n * n);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) { bool in_ = i == j || ((k >> b++) & 1); f.p[i * n + j] = in_; if (in_) { a(i, j) = in<T>("a"); nz<T>(a(i, j)); } }
    f.a = a; M<T> l(n, n), w(n, n); auto A = make<Mt>(f);
    int r = raised<std::runtime_error>([&] { Ilu<T, Mt> s(std::move(A)); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) { if (j < i) l(i, j) = s.mat()(i, j); else w(i, j) = s.mat()(i, j); } });
    // reference elimination on the pattern
    bool ok = true; M<T> g = a;
    for (u64 i = 0; i < n && ok; ++i) { for (u64 j = 0; j < n; ++j) if (f.p[i * n + j]) { T s = g(i, j); for (u64 q = 0; q < std::min(i, j); ++q) s -= g(i, q) * g(q, j); g(i, j) = j < i ? s / g(j, j) : s; } if (g(i, i) == 0) ok = false; }
    u((u64)r, ok ? 0 : 1, "rejected exactly if a pivot vanishes");
    if (r == 0) { for (u64 i = 0; i < n; ++i) l(i, i) = T(1); auto q = mm(l, w); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (f.p[i * n + j]) eq<T>(q(i, j), a(i, j), "L U agrees with the matrix on its pattern"); else { eq<T>(l(i, j), T(0), "no element outside the pattern"); eq<T>(w(i, j), T(0), "no element outside the pattern"); } }
}
// @run mode=real cfg=internal
ENTRY(h_pats_csr_double) { pats<SpMat<double>, double>(); }
ENTRY(h_pats_csr_float) { pats<SpMat<float>, float>(); }
ENTRY(h_pats_coo_double) { pats<SpCooMat<double>, double>(); }
ENTRY(h_nofill_csr_double) { nofill<SpMat<double>, double>(); }
ENTRY(h_nofill_coo_double) { nofill<SpCooMat<double>, double>(); }
ENTRY(h_dense_csr_double) { dense<SpMat<double>, double>(); }
ENTRY(h_dense_dense_double) { dense<DynMat<double>, double>(); }
ENTRY(h_large_csr_double) { large<SpMat<double>, double>(); }
ENTRY(h_large_coo_double) { large<SpCooMat<double>, double>(); }
ENTRY(h_far_csr_double) { far<SpMat<double>, double>(); }
ENTRY(h_far_coo_double) { far<SpCooMat<double>, double>(); }
ENTRY(h_far_dense_double) { far<DynMat<double>, double>(); }
ENTRY(h_any_csr_double) { any<SpMat<double>, double>(); }
ENTRY(h_any_coo_double) { any<SpCooMat<double>, double>(); }
ENTRY(h_pats_dense_double) { pats<DynMat<double>, double>(); }
ENTRY(h_any_dense_double) { any<DynMat<double>, double>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(8, {pats<SpMat<double>, double>, nofill<SpMat<double>, double>, dense<SpMat<double>, double>}); }
