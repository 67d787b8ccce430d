// @bound coordinate-to-compressed conversion: up to 2 entries (thorough: 3) at symbolic distinct positions of a 3x4 matrix, every pattern of a 2x3 and 3x2 matrix in four input orders, patterns of 17..73 entries; bands, long rows and columns, far rows (65537) and far columns (12884901888) with 24..606 entries, every 16th symbolic; compressed construction from every 3x3 pattern with columns ascending or descending inside rows; list sizes 0..3 for rejection; unit matrices of size 0..6
// @bound integer elements too (32-bit unsigned over all values, 64-bit signed within +-30000; internal backend) for some of these cases
// @bound two calls in sequence on one path: 20 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume entry positions are pairwise distinct, row pointers ascend and end at the number of elements
// @outside more than 3 entries at arbitrary positions, duplicate positions, malformed row pointers
#include "spm.h"
template<class T> static void check_all(const Ent<T>& e) {
    SpCooMat<T> c(e.v, e.r, e.c); SpMat<T> a(c); csr_is(a, e, "entry"); u(c.nnz(), e.v.size(), "the coordinate matrix is not consumed");
    SpMat<T> b(std::move(c)); csr_is(b, e, "entry (moved coordinate matrix)");
    SpMat<T> d(a); csr_is(d, e, "entry of a copy"); SpMat<T> g; g.reserve(2, 5); g = d; csr_is(g, e, "entry after assignment"); g = std::move(d); csr_is(g, e, "entry after move assignment"); SpMat<T> h(std::move(g)); csr_is(h, e, "entry after move");
    u64 i = vf_choose("i", 0, e.n), j = vf_choose("j", 0, e.m); T w = in<T>("w"); bool st = stored(e, i, j);
    u((u64)raised<std::out_of_range>([&] { h.mut_at(i, j) = w; }), st ? 0 : 1, "mut_at rejects exactly the positions that are not stored");
    auto f = e; for (u64 k = 0; k < e.v.size(); ++k) if (e.r[k] == i && e.c[k] == j) f.v[k] = w;
    csr_is(h, f, "a write changes exactly one entry"); csr_is(a, e, "copies are independent");
    for (u64 k = 0; k < e.v.size(); ++k) a.data()[k] = a.values()[k] + w;
    f = e; for (auto& x : f.v) x += w; csr_is(a, f, "data() gives the stored values");
}
template<class T> static void any() { precision<T>(); u64 k = vf_choose("nnz", 0, Q(2, 3)); check_all(anywhere<T>(k, 3, 4, "v")); }
template<class T> static void pats() {
    precision<T>();
    u64 s = vf_choose("shape", 0, 1), n = s ? 3 : 2, m = s ? 2 : 3; auto e = permuted(masked<T>(vf_choose("mask", 0, 63), n, m, "v"), vf_choose("order", 0, 3));
    SpMat<T> a{SpCooMat<T>(e.v, e.r, e.c)}; csr_is(a, e, "entry");
}
template<class T> static void big() {
    precision<T>();
    Ent<T> e; u64 p = vf_choose("pattern", 0, 5), n = p == 0 ? 17 : p == 1 ? 12 : p == 2 ? 6 : p == 3 ? 40 : p == 4 ? 9 : 25;
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (p == 0 ? i == j : p == 1 ? (i <= j + 1 && j <= i + 1) : p == 2 ? true : p == 3 ? (i % 2 == 0 && (i * 3) % n == j) : p == 5 ? (i <= j + 1 && j <= i + 1) : (i == 0 || j == 0 || i == j)) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(in<T>("v")); }
    fin(e); e = permuted(e, vf_choose("order", 0, 3)); SpMat<T> a{SpCooMat<T>(e.v, e.r, e.c)}; csr_is(a, e, "entry");
}
template<class T> static void large() {
    precision<T>(); u64 p = vf_choose("pattern", 0, 6), o = vf_choose("order", 0, 3); vf_assume(p < 6 || o == 2); auto e = wide<T>(p, "v"); auto f = permuted(e, o); SpCooMat<T> c(f.v, f.r, f.c); SpMat<T> a(c); csr_list(a, e, "entry"); SpMat<T> b(std::move(c)); csr_list(b, e, "entry (moved coordinate matrix)"); SpMat<T> d(a); csr_list(d, e, "entry of a copy");
    u64 k = vf_choose("which", 0, 2) * (e.v.size() - 1) / 2; T w = in<T>("w"); d.mut_at(e.r[k], e.c[k]) = w; auto g = e; g.v[k] = w; csr_list(d, g, "a write changes exactly one entry"); csr_list(a, e, "copies are independent"); must_throw<std::out_of_range>([&] { a.mut_at(0, e.m); }, "mut_at rejects positions that are not stored");
    auto v = e.v; auto q = e.c; auto rp = a.row_ptr(); SpMat<T> h(std::move(v), std::move(rp), std::move(q)); csr_list(h, e, "entry of a matrix built from compressed lists");
}
// compressed lists given directly: the columns of a row in any order
template<class T> static void direct() {
    precision<T>();
    u64 mask = vf_choose("mask", 0, 511), desc = vf_choose("descending", 0, 1); auto e = masked<T>(mask, 3, 3, "v"); M<T> d = image(e, 4, 4);
    std::vector<T> v; std::vector<u64> p{0}, c;
    for (u64 i = 0; i < 3; ++i) { for (u64 q = 0; q < 3; ++q) { u64 j = desc ? 2 - q : q; if (mask >> (i * 3 + j) & 1) { v.push_back(d(i, j)); c.push_back(j); } } p.push_back(v.size()); }
    SpMat<T> a(v, p, c); auto v2 = v; auto p2 = p, c2 = c; SpMat<T> b(std::move(v2), std::move(p2), std::move(c2));
    for (auto* m : {&a, &b}) {
        u(m->nnz(), v.size(), "number of stored elements"); u(m->shape().first, 3, "row count"); u(m->shape().second, e.m, "column count");
        for (u64 i = 0; i < 4; ++i) for (u64 j = 0; j < 4; ++j) { eq<T>((*m)(i, j), d(i, j), "entry"); eq<T>(m->at(i, j), d(i, j), "entry"); }
        for (u64 k = 0; k < 4; ++k) u(m->row_ptr()[k], p[k], "row pointers as given");
    }
}
static void rejects() {
    u64 a = vf_choose("values", 0, 3), c = vf_choose("cols", 0, 3); std::vector<double> v = ins<double>(a, "v"); std::vector<u64> p{0, a}, q(c); for (u64 i = 0; i < c; ++i) q[i] = i;
    u((u64)raised<std::runtime_error>([&] { SpMat<double> m(v, p, q); }), a == c ? 0 : 1, "lists of different lengths are rejected");
    u((u64)raised<std::runtime_error>([&] { SpMat<double> m(std::move(v), std::move(p), std::move(q)); }), a == c ? 0 : 1, "lists of different lengths are rejected");
}
template<class T> static void unit() {
    precision<T>(); u64 n = vf_choose("n", 0, 6); Ent<T> e; for (u64 i = 0; i < n; ++i) { e.r.push_back(i); e.c.push_back(i); e.v.push_back(T(1)); } fin(e);
    auto a = SpMat<T>::unit(n); csr_is(a, e, "unit matrix"); SpMat<T> b(SpCooMat<T>::unit(n)); csr_is(b, e, "unit matrix");
    SpMat<T> z; u(z.nnz(), 0, "default is empty"); u(z.shape().first, 0, "default has no rows"); u(z.shape().second, 0, "default has no columns"); eq<T>(z(0, 0), T(0), "default is zero everywhere"); u((u64)raised<std::out_of_range>([&] { z.mut_at(n, 0); }), 1, "mut_at rejects positions of an empty matrix");
}
// @run mode=real cfg=internal
ENTRY(h_any_double) { any<double>(); }
ENTRY(h_pats_double) { pats<double>(); }
ENTRY(h_pats_float) { pats<float>(); }
ENTRY(h_pats_zdouble) { pats<cd>(); }
ENTRY(h_big_double) { big<double>(); }
ENTRY(h_direct_double) { direct<double>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_rejects) { rejects(); }
ENTRY(h_unit_double) { unit<double>(); }
ENTRY(h_unit_float) { unit<float>(); }
// @run mode=real cfg=internal
ENTRY(h_pats_uint) { pats<unsigned>(); }
ENTRY(h_big_long) { big<long>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(20, {pats<double>, big<double>, direct<double>, unit<double>}); }
