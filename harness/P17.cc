// @bound sums and differences of two matrices: every pair of 2x2 patterns (256) in two input orders, every pair of 1x5 patterns (1024), up to 2+1 entries (thorough: 2+2) at symbolic distinct positions of a 3x3 matrix, band/arrow/diagonal/scattered patterns of 9x9, of 20x20 and of 40x40 (up to 58 entries per operand); every pair of six large patterns (bands, long rows and columns, far rows and columns, 24..606 entries, every 16th symbolic); in-place addition of a matrix to itself; chains of up to 4 additions
// @bound integer elements too (32-bit unsigned over all values, 64-bit signed within +-30000; internal backend) for some of these cases
// @bound two calls in sequence on one path: 20 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume entry positions are pairwise distinct within each operand
// @outside more than 2+2 entries at arbitrary positions
#include "spm.h"
#include "lalib/ops/sp_mat_ops.hpp"
template<class T> static void pair_(const Ent<T>& x, const Ent<T>& y) {
    u64 n = std::max(x.n, y.n) + 1, m = std::max(x.m, y.m) + 1;
    auto dx = image(x, n, m), dy = image(y, n, m), s = dx, f = dx; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) { s(i, j) = dx(i, j) + dy(i, j); f(i, j) = dx(i, j) - dy(i, j); }
    u64 cnt = 0; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) cnt += stored(x, i, j) || stored(y, i, j);
    SpCooMat<T> a(x.v, x.r, x.c), b(y.v, y.r, y.c);
    auto p = a + b; coo_is(p, s, n, cnt, "sum"); u(p.nnz(), cnt, "the sum stores every position of either operand once");
    auto q = a - b; coo_is(q, f, n, cnt, "difference"); u(q.nnz(), cnt, "the difference stores every position of either operand once");
    coo_is(a, dx, n, 0, "operands are untouched"); coo_is(b, dy, n, 0, "operands are untouched");
    auto& r = (a += b); vf_check(&r == &a, "+= gives the matrix itself"); coo_is(a, s, n, cnt, "in-place sum"); u(a.nnz(), cnt, "the sum stores every position of either operand once"); coo_is(b, dy, n, 0, "operands are untouched");
}
template<class T> static void pats() { precision<T>(); auto x = masked<T>(vf_choose("left", 0, 15), 2, 2, "x"), y = masked<T>(vf_choose("right", 0, 15), 2, 2, "y"); if (vf_choose("order", 0, 1)) { x = permuted(x, 1); y = permuted(y, 3); } pair_(x, y); }
template<class T> static void any() { precision<T>(); u64 k = vf_choose("left", 0, Q(2, 2)), l = vf_choose("right", 0, Q(1, 2)); pair_(anywhere<T>(k, 3, 3, "x"), anywhere<T>(l, 3, 3, "y")); }
template<class T> static Ent<T> pat(u64 p, u64 n, const char* nm) { Ent<T> e; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (p == 0 ? i == j : p == 1 ? (i <= j + 1 && j <= i + 1) : p == 2 ? (i == 0 || j == 0 || i == j) : p == 3 ? (i % 3 == 1 && j % 2 == 0) : (i + j == n - 1)) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(in<T>(nm)); } fin(e); return e; }
template<class T> static void big() { precision<T>(); auto x = pat<T>(vf_choose("left", 0, 4), 9, "x"); auto y = pat<T>(vf_choose("right", 0, 4), 9, "y"); pair_(permuted(x, 2), y); }
template<class T> static void large() { precision<T>(); u64 n = vf_choose("wide", 0, 1) ? 40 : 20, q = vf_choose("left", 0, 3), r = vf_choose("right", 0, 3); u64 K[] = {0, 4, n == 20 ? 1ul : 3ul, n == 20 ? 2ul : 0ul}; auto x = pat<T>(K[q], n, "x"); auto y = pat<T>(K[r], n, "y"); if (n == 40) { vf_assume(q + r < 4); } pair_(permuted(x, 1), y); }
template<class T> static void far() {   // bands, long rows and columns, far rows and columns
    precision<T>(); u64 p = vf_choose("left", 0, 5), q = vf_choose("right", 0, 5); auto x = wide<T>(p, "x"), y = wide<T>(q, "y"); auto fx = permuted(x, 1); SpCooMat<T> a(fx.v, fx.r, fx.c), b(y.v, y.r, y.c); auto s = merged(x, y, T(1)), d = merged(x, y, T(-1));
    coo_list(a + b, s, "sum"); coo_list(a - b, d, "difference"); coo_list(a, x, "operands are untouched"); a += b; coo_list(a, s, "in-place sum"); coo_list(b, y, "operands are untouched");
}
template<class T> static void row() {   // one long row against another: every pair of 5-column patterns
    precision<T>(); auto x = masked<T>(vf_choose("left", 0, 31), 1, 5, "x"), y = masked<T>(vf_choose("right", 0, 31), 1, 5, "y"); pair_(x, y); }
template<class T> static void self() {
    auto x = masked<T>(vf_choose("mask", 0, 63), 2, 3, "x"); auto d = image(x, 3, 4), d2 = d; for (auto& v : d2.a) v = v + v; M<T> z(3, 4);
    SpCooMat<T> a(x.v, x.r, x.c); auto p = a + a; coo_is(p, d2, 3, 0, "a + a"); auto q = a - a; coo_is(q, z, 3, 0, "a - a"); a += a; coo_is(a, d2, 3, 0, "a += a"); u(a.nnz(), x.v.size(), "a += a keeps the pattern");
}
template<class T> static void chain() {
    u64 len = vf_choose("length", 2, 4); auto acc = SpCooMat<T>(); M<T> d(3, 3);
    for (u64 s = 0; s < len; ++s) { auto e = masked<T>(vf_choose("mask", 0, s < 2 ? 15 : 3) * (s == 2 ? 5 : s == 3 ? 2 : 1), 2, 2, "x"); acc += SpCooMat<T>(e.v, e.r, e.c); auto i = image(e, 3, 3); for (u64 k = 0; k < 9; ++k) d.a[k] = d.a[k] + i.a[k]; }
    coo_is(acc, d, 3, 0, "sum of several matrices");
}
template<class T> static void categories() {
    auto x = masked<T>(vf_choose("left", 1, 15), 2, 2, "x"), y = masked<T>(vf_choose("right", 0, 1) ? 11 : 6, 2, 2, "y"); SpCooMat<T> a(x.v, x.r, x.c), b(y.v, y.r, y.c);
    auto dx = image(x, 3, 3), dy = image(y, 3, 3), s = dx, f = dx; for (u64 i = 0; i < 9; ++i) { s.a[i] = dx.a[i] + dy.a[i]; f.a[i] = dx.a[i] - dy.a[i]; }
    bool minus = vf_choose("minus", 0, 1); auto keep = [&](SpCooMat<T>& p, SpCooMat<T>& q) { coo_is(p, dx, 3, 0, "left operand unchanged"); coo_is(q, dy, 3, 0, "right operand unchanged"); };
    if (minus) cats(a, b, [&](auto&& p, auto&& q) { auto r = FW(p) - FW(q); coo_is(r, f, 3, 0, "difference for any value category"); }, keep);
    else cats(a, b, [&](auto&& p, auto&& q) { auto r = FW(p) + FW(q); coo_is(r, s, 3, 0, "sum for any value category"); }, keep);
}
// @run mode=real cfg=internal
ENTRY(h_pats_double) { pats<double>(); }
ENTRY(h_pats_float) { pats<float>(); }
ENTRY(h_any_double) { any<double>(); }
ENTRY(h_far_double) { far<double>(); }
ENTRY(h_row_double) { row<double>(); }
ENTRY(h_big_double) { big<double>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_self_double) { self<double>(); }
// @run mode=real cfg=internal tier=thorough
ENTRY(h_chain_double) { chain<double>(); }
// @run mode=real cfg=internal
ENTRY(h_cat_double) { categories<double>(); }
// @run mode=real cfg=internal
ENTRY(h_pats_uint) { pats<unsigned>(); }
ENTRY(h_big_long) { big<long>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(20, {pats<double>, row<double>, big<double>, self<double>, categories<double>}); }
