// @bound up to 2 entries at symbolic distinct positions of a 4x4 matrix in any order (thorough: 3 entries); every pattern of a 2x3 and 3x2 matrix in four input orders; band, dense and scattered patterns of 17..73 entries; bands, long rows and columns, far rows (65537) and far columns (12884901888) with 24..606 entries, every 16th symbolic; unit matrices of size 0..6
// @bound integer elements too (32-bit unsigned over all values, 64-bit signed within +-30000; internal backend) for some of these cases
// @bound two calls in sequence on one path: 16 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume entry positions are pairwise distinct
// @outside more than 3 entries at arbitrary positions, duplicate positions
#include "spm.h"
template<class T> static void check_all(const Ent<T>& e) {
    u64 n = e.n, m = e.m; auto d = image(e, n + 1, m + 1);
    SpCooMat<T> a(e.v, e.r, e.c);
    u(a.nnz(), e.v.size(), "number of stored elements"); coo_is(a, d, n, e.v.size(), "entry");
    auto sh = a.shape(); u(sh.first, n, "row count"); u(sh.second, m, "column count");
    SpCooMat<T> b(a); coo_is(b, d, n, e.v.size(), "entry of a copy");
    auto v = e.v; auto r = e.r, c = e.c; SpCooMat<T> g(std::move(v), std::move(r), std::move(c)); coo_is(g, d, n, e.v.size(), "entry (moved lists)"); u(g.nnz(), e.v.size(), "number of stored elements");
    SpCooMat<T> h; h.reserve(3); h = a; coo_is(h, d, n, e.v.size(), "entry after assignment"); SpCooMat<T> k(std::move(g)); coo_is(k, d, n, e.v.size(), "entry after move"); h = std::move(k); coo_is(h, d, n, e.v.size(), "entry after move assignment");
    // writes
    u64 i = vf_choose("i", 0, n), j = vf_choose("j", 0, m); T w = in<T>("w"); bool st = stored(e, i, j);
    int q = raised<std::out_of_range>([&] { b.mut_at(i, j) = w; }); u((u64)q, st ? 0 : 1, "mut_at rejects exactly the positions that are not stored");
    auto f = d; if (st) f(i, j) = w; coo_is(b, f, n, e.v.size(), "a write changes exactly one entry"); coo_is(a, d, n, e.v.size(), "copies are independent");
    for (u64 x = 0; x < e.v.size(); ++x) a.data()[x] = a.values()[x] + w;
    auto f2 = d; for (u64 x = 0; x < e.v.size(); ++x) f2(e.r[x], e.c[x]) += w; coo_is(a, f2, n, e.v.size(), "data() gives the stored values");
}
template<class T> static void any() { precision<T>(); u64 k = vf_choose("nnz", 0, Q(2, 3)); check_all(anywhere<T>(k, 4, 4, "v")); }
template<class T> static void sym3() {   // symbolic positions, no per-value forking: the sort itself decides
    Ent<T> e; const u64 K = 3;
    for (u64 a = 0; a < K; ++a) { u64 i = vf_u64("row", 0, 2), j = vf_u64("col", 0, 2); for (u64 b = 0; b < a; ++b) vf_assume(!(e.r[b] == i && e.c[b] == j)); e.r.push_back(i); e.c.push_back(j); e.v.push_back(in<T>("v")); }
    SpCooMat<T> a(e.v, e.r, e.c); sorted_coo(a);
    u64 x = vf_choose("which", 0, K - 1); eq<T>(a(e.r[x], e.c[x]), e.v[x], "the entry put in at (i, j) is read at (i, j)");
}
template<class T> static void pats() {
    precision<T>();
    u64 s = vf_choose("shape", 0, 1), n = s ? 3 : 2, m = s ? 2 : 3; auto e = masked<T>(vf_choose("mask", 0, 63), n, m, "v"); e = permuted(e, vf_choose("order", 0, 3)); auto d = image(e, 4, 4);
    SpCooMat<T> a(e.v, e.r, e.c); coo_is(a, d, e.n, e.v.size(), "entry"); u(a.nnz(), e.v.size(), "number of stored elements"); auto sh = a.shape(); u(sh.first, e.n, "row count"); u(sh.second, e.m, "column count");
}
template<class T> static void big() {
    precision<T>();
    Ent<T> e; u64 p = vf_choose("pattern", 0, 5), n = p == 0 ? 17 : p == 1 ? 12 : p == 2 ? 6 : p == 3 ? 40 : p == 4 ? 9 : 25;
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (p == 0 ? i == j : p == 1 ? (i <= j + 1 && j <= i + 1) : p == 2 ? true : p == 3 ? (i % 2 == 0 && (i * 3) % n == j) : p == 5 ? (i <= j + 1 && j <= i + 1) : (i == 0 || j == 0 || i == j)) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(in<T>("v")); }
    fin(e); e = permuted(e, vf_choose("order", 0, 3)); auto d = image(e, e.n + 1, e.m + 1);
    SpCooMat<T> a(e.v, e.r, e.c); coo_is(a, d, e.n, e.v.size(), "entry"); u(a.nnz(), e.v.size(), "number of stored elements"); auto sh = a.shape(); u(sh.first, e.n, "row count"); u(sh.second, e.m, "column count");
}
template<class T> static void large() {
    precision<T>(); u64 p = vf_choose("pattern", 0, 6), o = vf_choose("order", 0, 3); vf_assume(p < 6 || o == 2); auto e = wide<T>(p, "v"); auto f = permuted(e, o); SpCooMat<T> a(f.v, f.r, f.c); coo_list(a, e, "entry"); SpCooMat<T> b(a); coo_list(b, e, "entry of a copy");
    u64 k = vf_choose("which", 0, 2) * (e.v.size() - 1) / 2; T w = in<T>("w"); b.mut_at(e.r[k], e.c[k]) = w; auto g = e; g.v[k] = w; coo_list(b, g, "a write changes exactly one entry"); coo_list(a, e, "copies are independent"); must_throw<std::out_of_range>([&] { a.mut_at(e.n, 0); }, "mut_at rejects positions that are not stored");
}
static void rejects() {
    u64 a = vf_choose("values", 0, 3), b = vf_choose("rows", 0, 3), c = vf_choose("cols", 0, 3);
    std::vector<double> v = ins<double>(a, "v"); std::vector<u64> r(b), q(c); for (u64 i = 0; i < b; ++i) r[i] = i; for (u64 i = 0; i < c; ++i) q[i] = i;
    u((u64)raised<std::runtime_error>([&] { SpCooMat<double> m(v, r, q); }), a == b && b == c ? 0 : 1, "lists of different lengths are rejected");
    u((u64)raised<std::runtime_error>([&] { SpCooMat<double> m(std::move(v), std::move(r), std::move(q)); }), a == b && b == c ? 0 : 1, "lists of different lengths are rejected");
}
template<class T> static void unit() {
    precision<T>(); u64 n = vf_choose("n", 0, 6); auto a = SpCooMat<T>::unit(n); M<T> d(n + 1, n + 1); for (u64 i = 0; i < n; ++i) d(i, i) = T(1);
    coo_is(a, d, n, n, "unit matrix"); u(a.nnz(), n, "stored elements of the unit matrix"); auto sh = a.shape(); u(sh.first, n, "row count"); u(sh.second, n, "column count");
    SpCooMat<T> z; u(z.nnz(), 0, "default is empty"); u(z.shape().first, 0, "default has no rows"); u(z.shape().second, 0, "default has no columns"); eq<T>(z(0, 0), T(0), "default is zero everywhere");
}
// @run mode=real cfg=internal
ENTRY(h_any_double) { any<double>(); }
ENTRY(h_sym3_double) { sym3<double>(); }
ENTRY(h_pats_double) { pats<double>(); }
ENTRY(h_pats_float) { pats<float>(); }
ENTRY(h_big_double) { big<double>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_rejects) { rejects(); }
ENTRY(h_unit_double) { unit<double>(); }
ENTRY(h_unit_float) { unit<float>(); }
ENTRY(h_pats_zdouble) { pats<cd>(); }
// @run mode=real cfg=internal
ENTRY(h_pats_uint) { pats<unsigned>(); }
ENTRY(h_big_long) { big<long>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(16, {pats<double>, big<double>, unit<double>}); }
