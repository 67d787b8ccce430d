// @bound every pattern of a 2x3 and a 3x3 matrix (thorough), band, arrow and dense patterns up to 10x10, diagonal, band and scattered patterns of 33x33, 40x25 and 25x40, seven large patterns (bands, long rows and columns, far rows and columns, 24..606 entries, every 16th symbolic), symbolic values, alpha and beta; result vector distinct from or the same as the operand; scaling and negation of every 2x3 pattern
// @bound two calls in sequence on one path: 20 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume matrix sizes equal the vector sizes (rows and columns up to the last stored one)
// @outside other matrices above 10x10
#include "spm.h"
#include "lalib/ops/mat_ops.hpp"
#include "lalib/ops/mat_vec_ops.hpp"
template<class T> static SpMat<T> csr(const Ent<T>& e) { return SpMat<T>(SpCooMat<T>(e.v, e.r, e.c)); }
template<class T> static void prod(const Ent<T>& e) {
    u64 n = e.n, m = e.m; auto d = image(e, n, m); auto a = csr(e); auto x = ins<T>(m, "x"), y = ins<T>(n, "y"); T al = in<T>("alpha"), be = in<T>("beta");
    auto ax = mv(d, x); std::vector<T> w(n); for (u64 i = 0; i < n; ++i) w[i] = al * ax[i] + be * y[i];
    DynVec<T> vx(x), vy(y); auto& r = mul(al, a, vx, be, vy); vf_check(&r == &vy, "the result vector itself is returned"); eqv(vy, w, "alpha A x + beta y"); eqv(vx, x, "x is untouched"); csr_is(a, e, "the matrix is untouched");
    auto p = a * vx; u(p.size(), n, "size of A x"); eqv(p, ax, "A x");
    DynMat<T> dm(n, m, d.a); DynVec<T> vz(y); mul(al, dm, vx, be, vz); eqv(vz, w, "dense and sparse products agree");
    if (n == m) { for (u64 i = 0; i < n; ++i) w[i] = al * ax[i] + be * x[i]; mul(al, a, vx, be, vx); eqv(vx, w, "product onto its own operand"); }
}
template<class T> static void pats() { precision<T>(); u64 s = vf_choose("shape", 0, 1), n = s ? 3 : 2, m = s ? 2 : 3; auto e = masked<T>(vf_choose("mask", 0, 63), n, m, "a"); prod(e); }
template<class T> static void pats3() { auto e = masked<T>(vf_choose("mask", 0, 511), 3, 3, "a"); prod(e); }
template<class T> static void big() {
    precision<T>(); u64 p = vf_choose("pattern", 0, 3), n = 8; Ent<T> e; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (p == 0 ? i == j : p == 1 ? (i <= j + 1 && j <= i + 1) : p == 2 ? (i == 0 || j == 0 || i == j) : true) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(in<T>("a")); }
    fin(e); prod(e);
}
template<class T> static void large() {
    precision<T>(); u64 s = vf_choose("shape", 0, 2), p = vf_choose("pattern", 0, 2), n = s == 0 ? 33 : s == 1 ? 40 : 25, m = s == 0 ? 33 : s == 1 ? 25 : 40; Ent<T> e;
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) if ((i == n - 1 && j == m - 1) || (p == 0 ? i == j : p == 1 ? (i <= j + 1 && j <= i + 1) : (i % 3 == 1 && (i * 5 + j) % 7 == 2))) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(in<T>("a")); }
    fin(e); prod(e);
}
template<class T> static void far() {   // bands, long rows and columns, far rows and columns
    precision<T>(); u64 p = vf_choose("pattern", 0, 6), k = vf_choose("operation", 0, 2); vf_assume(p != 5 || k == 2); auto e = wide<T>(p, "a"); SpCooMat<T> c(e.v, e.r, e.c); SpMat<T> a(c); T al = in<T>("alpha");
    if (k == 2) { auto f = e, g = e; for (auto& v : f.v) v = al * v; for (auto& v : g.v) v = -v; csr_list(al * a, f, "alpha A"); csr_list(-a, g, "-A"); coo_list(al * c, f, "alpha A"); coo_list(-c, g, "-A"); scale(al, a); csr_list(a, f, "scale in place"); scale(al, c); coo_list(c, f, "scale in place"); return; }
    auto x = few<T>(e.m, "x", e.m / 5), y = few<T>(e.n, "y", e.n / 5); std::vector<T> ax(e.n, T(0)); for (u64 i = 0; i < e.v.size(); ++i) ax[e.r[i]] += e.v[i] * x[e.c[i]]; DynVec<T> vx(x), vy(y);
    if (k == 0) { eqv(a * vx, ax, "A x"); eqv(vx, x, "x is untouched"); return; }
    T be = in<T>("beta"); auto w = y; for (u64 i = 0; i < e.n; ++i) w[i] = al * ax[i] + be * y[i]; mul(al, a, vx, be, vy); eqv(vy, w, "alpha A x + beta y"); csr_list(a, e, "the matrix is untouched"); if (e.n == e.m) { for (u64 i = 0; i < e.n; ++i) w[i] = al * ax[i] + be * x[i]; mul(al, a, vx, be, vx); eqv(vx, w, "product onto its own operand"); }
}
template<class T> static void scl() {
    precision<T>(); auto e = masked<T>(vf_choose("mask", 0, 63), 2, 3, "a"); T al = in<T>("alpha"); auto f = e, g = e; for (auto& v : f.v) v = al * v; for (auto& v : g.v) v = -v;
    SpCooMat<T> c(e.v, e.r, e.c); auto a = csr(e); auto df = image(f, 3, 4), dg = image(g, 3, 4), de = image(e, 3, 4);
    coo_is(al * c, df, 3, 0, "alpha A"); csr_is(al * a, f, "alpha A");
    if constexpr (!std::is_same_v<T, cd>) { coo_is(-c, dg, 3, 0, "-A"); csr_is(-a, g, "-A"); }
    coo_is(c, de, 3, 0, "the operand is untouched"); csr_is(a, e, "the operand is untouched");
    auto& r = scale(al, c); vf_check(&r == &c, "scale returns its operand"); coo_is(c, df, 3, 0, "scale in place"); auto& q = scale(al, a); vf_check(&q == &a, "scale returns its operand"); csr_is(a, f, "scale in place");
}
template<class T> static void categories() {
    auto e = masked<T>(vf_choose("mask", 0, 3) * 17 + 12, 2, 3, "a"); T al = in<T>("alpha"); auto f = e, g = e; for (auto& v : f.v) v = al * v; for (auto& v : g.v) v = -v; auto x = ins<T>(e.m, "x"); auto w = mv(image(e, e.n, e.m), x);
    auto keep = [&](SpMat<T>& p) { csr_is(p, e, "operand unchanged"); }; auto de = image(e, 3, 4), df = image(f, 3, 4), dg = image(g, 3, 4); auto keepc = [&](SpCooMat<T>& p) { coo_is(p, de, 3, 0, "operand unchanged"); };
    SpCooMat<T> c(e.v, e.r, e.c); SpMat<T> a(c); DynVec<T> vx(x);
    switch (vf_choose("operation", 0, 4)) {
    case 0: cats1(a, [&](auto&& p) { auto r = al * FW(p); csr_is(r, f, "scaling for any value category"); }, keep); break;
    case 1: cats1(a, [&](auto&& p) { auto r = -FW(p); csr_is(r, g, "negation for any value category"); }, keep); break;
    case 2: cats1(c, [&](auto&& p) { auto r = al * FW(p); coo_is(r, df, 3, 0, "scaling for any value category"); }, keepc); break;
    case 3: cats1(c, [&](auto&& p) { auto r = -FW(p); coo_is(r, dg, 3, 0, "negation for any value category"); }, keepc); break;
    default: cats(a, vx, [&](auto&& p, auto&& q) { auto r = FW(p) * FW(q); eqv(r, w, "A * x for any value category"); }, [&](SpMat<T>& p, DynVec<T>& q) { csr_is(p, e, "A unchanged"); eqv(q, x, "x unchanged"); });
    }
}
// @run mode=real cfg=internal
ENTRY(h_pats_double) { pats<double>(); }
ENTRY(h_pats_float) { pats<float>(); }
ENTRY(h_pats_zdouble) { pats<cd>(); }
ENTRY(h_big_double) { big<double>(); }
ENTRY(h_far_double) { far<double>(); }
ENTRY(h_far_float) { far<float>(); }
ENTRY(h_large_double) { large<double>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_scale_double) { scl<double>(); }
ENTRY(h_scale_float) { scl<float>(); }
ENTRY(h_scale_zdouble) { scl<cd>(); }
// @run mode=real cfg=internal tier=thorough
ENTRY(h_pats3_double) { pats3<double>(); }
// @run mode=real cfg=internal
ENTRY(h_cat_double) { categories<double>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(20, {pats<double>, big<double>, scl<double>, categories<double>}); }
