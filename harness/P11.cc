// @bound sizes 1..7 (thorough 1..10) with symbolic indices and 12, 15, 16, 17, 24, 33 with every index, 65, 130, 257, 363 with indices at the ends and around powers of two, for dynamic, 1,2,3,5 for fixed-size matrices and 9, 17 (lower 8, 17) with every index; stored elements arbitrary; row and column indices symbolic over the whole matrix
// @bound two calls in sequence on one path: 12 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside indices outside the matrix; inconsistent lengths of the stored parts (unchecked by the library); complex elements of Hermitian matrices (reading does not conjugate)
#include "sym.h"
#include <cmath>
#include "lalib/mat.hpp"
using namespace lalib;
static const u64 NM = Q(7, 10);
static u64 ix(u64 n, const char* s) { return vf_concretize(vf_u64(s, 0, n - 1)); }
// every const read equals the dense image e; a write at a symbolic position inside the pattern changes exactly that entry (and its mirror),
// outside it is rejected and changes nothing
template<class A, class T, class P> static void probe(A& a, u64 n, M<T> e, P inside, bool mirror) {
    u(a.shape().first, n, "row count"); u(a.shape().second, n, "column count");
    const A& c = a;
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) { eq<T>(c(i, j), e(i, j), "read"); eq<T>(c.at(i, j), e(i, j), "at"); if (inside(i, j)) { eq<T>(a(i, j), e(i, j), "mutable read"); eq<T>(a.mut_at(i, j), e(i, j), "mut_at"); } }
    u64 i = ix(n, "i"), j = ix(n, "j"); T w = in<T>("w"); bool p = vf_choose("path", 0, 1);
    bool threw = false;
    try { if (p) a(i, j) = w; else a.mut_at(i, j) = w; } catch (const std::logic_error&) { threw = true; }
    vf_check(threw == !inside(i, j), "a write outside the stored pattern is rejected, inside it is not");
    if (!threw) { e(i, j) = w; if (mirror) e(j, i) = w; }
    for (u64 k = 0; k < n; ++k) for (u64 l = 0; l < n; ++l) eq<T>(c(k, l), e(k, l), "write changes exactly the addressed entry");
}
static bool band(u64 i, u64 j) { return i <= j + 1 && j <= i + 1; }
template<class T> static void tridiag_e(const std::vector<T>& dl, const std::vector<T>& d, const std::vector<T>& du, M<T>& e) {
    u64 n = d.size(); e = M<T>(n, n);
    for (u64 i = 0; i < n; ++i) { e(i, i) = d[i]; if (i + 1 < n) { e(i + 1, i) = dl[i]; e(i, i + 1) = du[i]; } }
}
template<class A, class T> static void tri_parts(A& m, const std::vector<T>& dl, const std::vector<T>& d, const std::vector<T>& du) {
    const A& c = m;
    for (u64 i = 0; i < d.size(); ++i) { eq<T>(c.data_d()[i], d[i], "diagonal storage"); eq<T>(m.data_d()[i], d[i], "diagonal storage"); }
    for (u64 i = 0; i + 1 < d.size(); ++i) { eq<T>(c.data_dl()[i], dl[i], "sub-diagonal storage"); eq<T>(c.data_du()[i], du[i], "super-diagonal storage"); eq<T>(m.data_dl()[i], dl[i], "sub-diagonal storage"); eq<T>(m.data_du()[i], du[i], "super-diagonal storage"); }
}
// larger sizes, every position read, one write at each corner of the pattern
template<class A, class T, class P> static void scan(A& a, u64 n, M<T> e, P inside, bool mirror) {
    const A& c = a; u(c.shape().first, n, "row count"); u(c.shape().second, n, "column count");
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) { eq<T>(c(i, j), e(i, j), "read"); eq<T>(c.at(i, j), e(i, j), "at"); if (inside(i, j)) eq<T>(a.mut_at(i, j), e(i, j), "mut_at"); else must_throw<std::logic_error>([&] { a.mut_at(i, j); }, "outside the pattern"); }
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (inside(i, j) && (i + j) % 3 == 0) { T w = T(0.5) + T(i) + T(n) * T(j); a(i, j) = w; e(i, j) = w; if (mirror) e(j, i) = w; }
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) eq<T>(c(i, j), e(i, j), "writes change exactly the addressed entries");
}
template<class A, class T, class P> static void see(A& a, u64 n, const M<T>& e, P inside, bool mirror) { if (n < 8) probe(a, n, e, inside, mirror); else scan(a, n, e, inside, mirror); }
template<class T> static void dyn_tri() {
    precision<T>();
    u64 n = vf_choose("n", 1, NM); auto dl = ins<T>(n - 1, "dl"), d = ins<T>(n, "d"), du = ins<T>(n - 1, "du");
    M<T> e; tridiag_e(dl, d, du, e);
    if (vf_choose("ctor", 0, 1)) { DynTriDiagMat<T> m(dl, d, du); tri_parts(m, dl, d, du); probe(m, n, e, band, false); }
    else { auto a = dl, b = d, c = du; DynTriDiagMat<T> m(std::move(a), std::move(b), std::move(c)); tri_parts(m, dl, d, du); probe(m, n, e, band, false); }
}
template<class T, size_t N> static std::array<T, N> arr(const std::vector<T>& v) { std::array<T, N> a{}; for (u64 i = 0; i < N; ++i) a[i] = v[i]; return a; }
template<class T, size_t N> static void s_tri() {
    auto dl = ins<T>(N - 1, "dl"), d = ins<T>(N, "d"), du = ins<T>(N - 1, "du"); M<T> e; tridiag_e(dl, d, du, e);
    SizedTriDiagMat<T, N> m(arr<T, N - 1>(dl), arr<T, N>(d), arr<T, N - 1>(du)); tri_parts(m, dl, d, du); see(m, N, e, band, false);
}
template<class T> static void sized_tri() { precision<T>(); switch (vf_choose("N", 0, 5)) { case 3: s_tri<T, 9>(); break; case 4: s_tri<T, 17>(); break; case 0: s_tri<T, 1>(); break; case 1: s_tri<T, 2>(); break; case 2: s_tri<T, 3>(); break; default: s_tri<T, 5>(); } }
template<class T> static M<T> low(u64 n, const std::vector<T>& v, bool mirror) { M<T> e(n, n); u64 k = 0; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) { e(i, j) = v[k]; if (mirror) e(j, i) = v[k]; ++k; } return e; }
template<class A, class T> static void low_parts(A& m, const std::vector<T>& v) { const A& c = m; for (u64 i = 0; i < v.size(); ++i) { eq<T>(c.lower_data()[i], v[i], "packed storage by rows"); eq<T>(m.lower_data()[i], v[i], "packed storage by rows"); } }
template<class T> static void dyn_low() {
    precision<T>();
    u64 n = vf_choose("n", 1, NM); auto v = ins<T>(n * (n + 1) / 2, "l"); auto w = v;
    auto inl = [](u64 i, u64 j) { return j <= i; };
    switch (vf_choose("kind", 0, 2)) {
    case 0: { DynLowerTriMat<T> m(n, std::move(w)); low_parts(m, v); probe(m, n, low(n, v, false), inl, false); break; }
    case 1: { DynHermiteMat<T> m(n, std::move(w)); low_parts(m, v); probe(m, n, low(n, v, true), [](u64, u64) { return true; }, true); break; }
    default: { DynHermiteMat<T> h(n, std::move(w)); auto m = h.into_lower_mat(); low_parts(m, v); probe(m, n, low(n, v, false), inl, false); }
    }
}
template<class T, size_t N> static void s_low() {
    auto v = ins<T>(N * (N + 1) / 2, "l"); auto a = arr<T, N * (N + 1) / 2>(v); auto inl = [](u64 i, u64 j) { return j <= i; };
    switch (vf_choose("kind", 0, 2)) {
    case 0: { SizedLowerTriMat<T, N> m(a); low_parts(m, v); see(m, N, low(N, v, false), inl, false); break; }
    case 1: { SizedHermiteMat<T, N> m(a); low_parts(m, v); see(m, N, low(N, v, true), [](u64, u64) { return true; }, true); break; }
    default: { SizedHermiteMat<T, N> h(a); auto m = h.into_lower_mat(); low_parts(m, v); see(m, N, low(N, v, false), inl, false); }
    }
}
template<class T> static void sized_low() { precision<T>(); switch (vf_choose("N", 0, 5)) { case 3: s_low<T, 8>(); break; case 4: s_low<T, 17>(); break; case 0: s_low<T, 1>(); break; case 1: s_low<T, 2>(); break; case 2: s_low<T, 3>(); break; default: s_low<T, 5>(); } }
template<class T> static void upper() {
    precision<T>();
    u64 n = vf_choose("n", 1, NM); auto v = ins<T>(n * (n + 1) / 2, "u"); M<T> e(n, n); u64 k = 0;
    for (u64 j = 0; j < n; ++j) for (u64 i = 0; i <= j; ++i) e(i, j) = v[k++];
    auto w = v; DynUpperTriMat<T> m(std::move(w));
    for (u64 i = 0; i < v.size(); ++i) eq<T>(m.data()[i], v[i], "packed storage by columns");
    probe(m, n, e, [](u64 i, u64 j) { return i <= j; }, false);
}
template<class T> static void hess() {
    precision<T>();
    u64 n = vf_choose("n", 1, NM); u64 len = 0; M<T> e(n, n); std::vector<T> v;
    for (u64 j = 0; j < n; ++j) for (u64 i = 0; i <= j + 1 && i < n; ++i) { T x = in<T>("h"); v.push_back(x); e(i, j) = x; ++len; }
    auto w = v; HessenbergMat<T> m(std::move(w));
    for (u64 i = 0; i < len; ++i) eq<T>(m.data()[i], v[i], "packed storage by columns");
    for (u64 j = 0; j < n; ++j) { auto c = m.get_col(j); u(c.size(), std::min(j + 2, n), "stored length of a column"); for (u64 i = 0; i < c.size(); ++i) eq<T>(c[i], e(i, j), "column view"); }
    probe(m, n, e, [](u64 i, u64 j) { return i <= j + 1; }, false);
}
template<class T> static void large() {
    static const u64 B[] = {12, 15, 16, 17, 24, 33};
    precision<T>(); u64 n = B[vf_choose("n", 0, 5)]; auto inl = [](u64 i, u64 j) { return j <= i; };
    switch (vf_choose("kind", 0, 4)) {
    case 0: { auto dl = ins<T>(n - 1, "dl"), d = ins<T>(n, "d"), du = ins<T>(n - 1, "du"); M<T> e; tridiag_e(dl, d, du, e); DynTriDiagMat<T> m(dl, d, du); scan(m, n, e, band, false); break; }
    case 1: { auto v = ins<T>(n * (n + 1) / 2, "l"); auto w = v; DynLowerTriMat<T> m(n, std::move(w)); scan(m, n, low(n, v, false), inl, false); break; }
    case 2: { auto v = ins<T>(n * (n + 1) / 2, "l"); auto w = v; DynHermiteMat<T> m(n, std::move(w)); scan(m, n, low(n, v, true), [](u64, u64) { return true; }, true); break; }
    case 3: { std::vector<T> v; M<T> e(n, n); for (u64 j = 0; j < n; ++j) for (u64 i = 0; i <= j; ++i) { e(i, j) = in<T>("u"); v.push_back(e(i, j)); } DynUpperTriMat<T> m(std::move(v)); scan(m, n, e, [](u64 i, u64 j) { return i <= j; }, false); break; }
    default: { std::vector<T> v; M<T> e(n, n); for (u64 j = 0; j < n; ++j) for (u64 i = 0; i <= j + 1 && i < n; ++i) { e(i, j) = in<T>("h"); v.push_back(e(i, j)); } HessenbergMat<T> m(std::move(v)); scan(m, n, e, [](u64 i, u64 j) { return i <= j + 1; }, false); }
    }
}
// sizes around block sizes and overflows of narrow indices: positions at the ends and around powers of two
template<class A, class T, class E, class P> static void visit(A& a, u64 n, E e, P inside, bool mirror) {
    const A& c = a; u(c.shape().first, n, "row count"); u(c.shape().second, n, "column count"); auto look = [&](const char* s, u64 x, u64 y, T w, bool t) { spots(n, n, [&](u64 i, u64 j) { T z = t && ((i == x && j == y) || (mirror && i == y && j == x)) ? w : e(i, j); eq<T>(c(i, j), z, s); eq<T>(c.at(i, j), z, s); }); };
    look("read", 0, 0, T(0), false); u64 p = vf_choose("position", 0, 5), x = p == 0 ? n - 1 : p == 1 ? n - 1 : p == 2 ? 64 : p == 3 ? 63 : p == 4 ? n / 2 : 0, y = p == 0 ? n - 1 : p == 1 ? 0 : p == 2 ? 63 : p == 3 ? 64 : p == 4 ? n / 2 : n - 1; T w = in<T>("w");
    if (inside(x, y)) { T old = e(x, y); if (p % 2) a.mut_at(x, y) = w; else a(x, y) = w; look("write changes exactly the addressed entry", x, y, w, true); a(x, y) = old; } else must_throw<std::logic_error>([&] { a.mut_at(x, y) = w; }, "outside the pattern"); look("writing back restores the matrix", 0, 0, T(0), false);
}
template<class T> static void huge() {
    static const u64 B[] = {65, 130, 257, 363}; precision<T>(); u64 n = B[vf_choose("n", 0, 3)]; auto in_low = [](u64 i, u64 j) { return j <= i; }; auto in_up = [](u64 i, u64 j) { return i <= j; };
    switch (vf_choose("kind", 0, 4)) {
    case 0: { auto dl = few<T>(n - 1, "dl"), d = few<T>(n, "d"), du = few<T>(n - 1, "du"); DynTriDiagMat<T> m(dl, d, du); visit<DynTriDiagMat<T>, T>(m, n, [&](u64 i, u64 j) { return i == j ? d[i] : i == j + 1 ? dl[j] : j == i + 1 ? du[i] : T(0); }, band, false); break; }
    case 1: { auto v = few<T>(n * (n + 1) / 2, "l", n * n / 9); auto w = v; DynLowerTriMat<T> m(n, std::move(w)); visit<DynLowerTriMat<T>, T>(m, n, [&](u64 i, u64 j) { return j <= i ? v[i * (i + 1) / 2 + j] : T(0); }, in_low, false); break; }
    case 2: { auto v = few<T>(n * (n + 1) / 2, "l", n * n / 9); auto w = v; DynHermiteMat<T> m(n, std::move(w)); visit<DynHermiteMat<T>, T>(m, n, [&](u64 i, u64 j) { return j <= i ? v[i * (i + 1) / 2 + j] : v[j * (j + 1) / 2 + i]; }, [](u64, u64) { return true; }, true); break; }
    case 3: { auto v = few<T>(n * (n + 1) / 2, "u", n * n / 9); auto w = v; DynUpperTriMat<T> m(std::move(w)); visit<DynUpperTriMat<T>, T>(m, n, [&](u64 i, u64 j) { return i <= j ? v[j * (j + 1) / 2 + i] : T(0); }, in_up, false); break; }
    default: { auto v = few<T>((n * n + 3 * n - 2) / 2, "h", n * n / 9); auto w = v; HessenbergMat<T> m(std::move(w)); visit<HessenbergMat<T>, T>(m, n, [&](u64 i, u64 j) { return i <= j + 1 ? v[j * (j + 3) / 2 + i] : T(0); }, [](u64 i, u64 j) { return i <= j + 1; }, false); }
    }
}
// only the lengths of a packed triangle (or packed Hessenberg pattern) are accepted
static void lengths() {
    u64 len = vf_choose("len", 0, Q(40, 120)); u64 n = 0; bool t = false, h = len == 0; u64 hn = 0;
    for (u64 k = 0; k * (k + 1) / 2 <= len; ++k) if (k * (k + 1) / 2 == len) { t = true; n = k; }
    for (u64 k = 1; (k * k + 3 * k - 2) / 2 <= len; ++k) if ((k * k + 3 * k - 2) / 2 == len) { h = true; hn = k; }
    { std::vector<double> v(len, 1.0); int r = raised<std::invalid_argument>([&] { DynUpperTriMat<double> m(std::move(v)); u(m.shape().first, n, "size of the triangle"); }); u((u64)r, t ? 0 : 1, "only triangular numbers of elements make an upper triangular matrix"); }
    { std::vector<double> v(len, 1.0); int r = raised<std::invalid_argument>([&] { HessenbergMat<double> m(std::move(v)); u(m.shape().first, hn, "size of the Hessenberg matrix"); }); u((u64)r, h ? 0 : 1, "only Hessenberg element counts make a Hessenberg matrix"); }
    DynUpperTriMat<double> z; u(z.shape().first, 0, "default is empty"); u(z.shape().second, 0, "default is empty");
}
// @run mode=real cfg=internal
ENTRY(h_dyn_tri_double) { dyn_tri<double>(); }
ENTRY(h_dyn_tri_float) { dyn_tri<float>(); }
ENTRY(h_sized_tri_double) { sized_tri<double>(); }
ENTRY(h_sized_tri_float) { sized_tri<float>(); }
ENTRY(h_dyn_low_double) { dyn_low<double>(); }
ENTRY(h_dyn_low_float) { dyn_low<float>(); }
ENTRY(h_sized_low_double) { sized_low<double>(); }
ENTRY(h_sized_low_float) { sized_low<float>(); }
ENTRY(h_upper_double) { upper<double>(); }
ENTRY(h_upper_float) { upper<float>(); }
ENTRY(h_hess_double) { hess<double>(); }
ENTRY(h_hess_float) { hess<float>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_huge_double) { huge<double>(); }
ENTRY(h_lengths) { lengths(); }
ENTRY(h_dyn_tri_zdouble) { dyn_tri<cd>(); }
ENTRY(h_sized_tri_zdouble) { sized_tri<cd>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(12, {dyn_tri<double>, sized_tri<double>, dyn_low<double>, sized_low<double>, upper<double>, hess<double>}); }
