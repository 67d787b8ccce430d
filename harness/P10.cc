// @bound every shape n x m with n,m in 0..6 plus 1x40, 40x1, 17x9, 33x18, 9x34; 65x66, 257x258, 3x1025, 1025x2, 1x70000, 70000x1 with few symbolic elements (thorough 0..10), vectors of length 0..24 and 65 (thorough 0..64); fixed sizes 0..4 and 17, fixed-size matrices also 5x7, 9x9, 16x3, 17x17
// @bound all bit patterns of float/double elements, complex elements; row and column indices symbolic over the whole valid range
// @bound integer elements too (32-bit unsigned over all values, 64-bit signed within +-30000; internal backend) for the dynamic and small fixed-size cases
// @bound two calls in sequence on one path: 32 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside indices outside the matrix (unchecked by the library), dynamic matrices built from a list of the wrong length (unchecked by the library)
#include "sym.h"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
using namespace lalib;
static std::pair<u64, u64> shp() {
    static const u64 B[][2] = {{1, 40}, {40, 1}, {17, 9}, {33, 18}, {9, 34}};
    const u64 s = Q(7, 11); u64 k = vf_choose("shape", 0, s * s + 4);
    if (k < s * s) return {k / s, k % s};
    return {B[k - s * s][0], B[k - s * s][1]};
}
template<class A, class T> static void all(A& a, u64 n, u64 m, const std::vector<T>& e, const char* s) {
    const A& c = a;
    u(c.shape().first, n, "row count"); u(c.shape().second, m, "column count");
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) {
        same<T>(c(i, j), e[i * m + j], s); same<T>(a(i, j), e[i * m + j], s); same<T>(c.at(i, j), e[i * m + j], "at"); same<T>(a.mut_at(i, j), e[i * m + j], "mut_at");
        same<T>(c.data()[i * m + j], e[i * m + j], "row-major storage"); 
    }
    vf_check(a.data() == c.data(), "data() of the same object");
    u64 k = 0; for (auto& x : c) { same<T>(x, e[k], "iteration order"); ++k; } u(k, n * m, "iteration count");
    k = 0; for (auto& x : a) { same<T>(x, e[k], "iteration order"); ++k; } u(k, n * m, "iteration count");
    u((u64)(c.cend() - c.cbegin()), n * m, "distance of const iterators"); u((u64)(a.end() - a.begin()), n * m, "distance of iterators");
}
// a write through any mutable access path changes exactly the addressed element
template<class A, class T> static void writes(A& a, u64 n, u64 m, std::vector<T> e) {
    if (n * m == 0) return;
    u64 i = vf_u64("i", 0, n - 1), j = vf_u64("j", 0, m - 1);
    i = vf_concretize(i); j = vf_concretize(j);
    T w = in<T>("w");
    A b = a; const A b0 = a;
    switch (vf_choose("path", 0, 3)) { case 0: b(i, j) = w; break; case 1: b.mut_at(i, j) = w; break; case 2: b.data()[i * m + j] = w; break; default: *(b.begin() + (i * m + j)) = w; }
    auto f = e; f[i * m + j] = w;
    all(b, n, m, f, "write changes exactly one element"); 
    for (u64 p = 0; p < n * m; ++p) same<T>(b0.data()[p], e[p], "copies do not share storage");
    for (u64 p = 0; p < n * m; ++p) same<T>(a.data()[p], e[p], "copies do not share storage");
    a = b; all(a, n, m, f, "assignment copies every element");
    b(i, j) = e[i * m + j]; all(a, n, m, f, "assigned matrix is independent");
}
template<class T> static void mat_ctor() {
    auto [n, m] = shp();
    auto e = ins<T>(n * m, "e");
    DynMat<T> a(n, m, e); all(a, n, m, e, "row-major element order");
    if constexpr (std::is_constructible_v<DynMat<T>, const std::vector<T>&, size_t, size_t>) { DynMat<T> o(e, n, m); all(o, n, m, e, "row-major element order (list first)"); }
    DynMat<T> c(a); all(c, n, m, e, "copy");
    T v = in<T>("v"); auto f = DynMat<T>::filled(v, n, m); all(f, n, m, std::vector<T>(n * m, v), "filled");
    auto z = DynMat<T>::uninit(n, m); u(z.shape().first, n, "uninit rows"); u(z.shape().second, m, "uninit columns"); u((u64)(z.end() - z.begin()), n * m, "uninit elements");
    if (n != m) { a = f; all(a, n, m, std::vector<T>(n * m, v), "assignment"); auto w = DynMat<T>(m, n, e); a = w; all(a, m, n, e, "assignment of another shape"); }
}
template<class T> static void mat_write() {
    u64 n = vf_choose("n", 0, Q(3, 5)), m = vf_choose("m", 0, Q(3, 5));
    auto e = ins<T>(n * m, "e"); DynMat<T> a(n, m, e); writes(a, n, m, e);
}
template<class T> static void large() {   // mostly fixed elements; every element in storage order, positions around powers of two through the accessors
    static const u64 B[][2] = {{65, 66}, {257, 258}, {3, 1025}, {1025, 2}, {1, 70000}, {70000, 1}}; u64 c = vf_choose("shape", 0, 5), n = B[c][0], m = B[c][1]; auto e = few<T>(n * m, "e", n * m / 5);
    auto chk = [&](auto& a, const std::vector<T>& w, const char* s) { const auto& k = a; u(k.shape().first, n, "row count"); u(k.shape().second, m, "column count"); u((u64)(k.cend() - k.cbegin()), n * m, "number of elements"); spots(n, m, [&](u64 i, u64 j) { T x = w[i * m + j]; same<T>(k(i, j), x, s); same<T>(a(i, j), x, s); same<T>(k.at(i, j), x, "at"); same<T>(a.mut_at(i, j), x, "mut_at"); }); for (u64 q = 0; q < n * m; ++q) same<T>(k.data()[q], w[q], s); };
    u64 p = vf_choose("position", 0, 3), i = p == 0 ? 0 : p == 1 ? n / 2 : n - 1, j = p == 0 ? m - 1 : p == 1 ? m / 3 : p == 2 ? m - 1 : 0; T w = in<T>("w"); auto f = e; f[i * m + j] = w;
    DynMat<T> a(n, m, e); switch (p) { case 0: chk(a, e, "row-major element order"); a(i, j) = w; break; case 1: { DynMat<T> b(a); b.mut_at(i, j) = w; chk(b, f, "a write to a copy changes exactly one element"); chk(a, e, "copies do not share storage"); a = b; break; } case 2: { auto b = DynMat<T>::filled(T(1), m, n + 1); b = a; b(i, j) = w; chk(a, e, "copies do not share storage"); a = std::move(b); break; } default: { DynMat<T> b(std::move(a)); b(i, j) = w; a = b; } } chk(a, f, "write changes exactly one element");
    if (c == 4) { DynVec<T> v(e), x(v); x[j] = w; for (u64 q = 0; q < m; ++q) { same<T>(v[q], e[q], "copies do not share storage"); same<T>(x[q], f[q], "write changes exactly one element"); } v = x; u(v.size(), m, "size"); for (u64 q = 0; q < m; ++q) same<T>(v[q], f[q], "assignment copies"); }
}
template<class T> static void large_diag() { u64 n = vf_choose("n", 0, 1) ? 65 : 130; auto d = few<T>(n, "d", 9); T v = in<T>("v"); auto a = DynMat<T>::diag(d), b = DynMat<T>::diag(v, n), c = DynMat<T>::identity(n), f = DynMat<T>::filled(v, n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) { same<T>(a(i, j), i == j ? d[i] : T(0), "diag(list)"); same<T>(b(i, j), i == j ? v : T(0), "diag(value)"); same<T>(c(i, j), T(i == j), "identity"); same<T>(f(i, j), v, "filled"); } }
template<class T> static void mat_diag() {
    u64 n = vf_choose("n", 0, Q(9, 17));
    auto d = ins<T>(n, "d"); T v = in<T>("v");
    std::vector<T> e(n * n, T(0)), g(n * n, T(0)), h(n * n, T(0));
    for (u64 i = 0; i < n; ++i) { e[i * n + i] = d[i]; g[i * n + i] = v; h[i * n + i] = T(1); }
    auto a = DynMat<T>::diag(d); all(a, n, n, e, "diag(list)");
    auto b = DynMat<T>::diag(v, n); all(b, n, n, g, "diag(value)");
    auto c = DynMat<T>::identity(n); all(c, n, n, h, "identity");
}
template<class T> static void mat_init() {
    auto e = ins<T>(6, "e");
    DynMat<T> a(2, 3, {e[0], e[1], e[2], e[3], e[4], e[5]}); all(a, 2, 3, e, "initializer list");
    DynMat<T> b(3, 2, {e[0], e[1], e[2], e[3], e[4], e[5]}); all(b, 3, 2, e, "initializer list");
    SizedMat<T, 2, 3> c{e[0], e[1], e[2], e[3], e[4], e[5]}; all(c, 2, 3, e, "initializer list");
    DynVec<T> v{e[0], e[1], e[2]}; u(v.size(), 3, "list size"); for (u64 i = 0; i < 3; ++i) same<T>(v[i], e[i], "list element");
    SizedVec<T, 3> w{e[0], e[1], e[2]}; u(w.size(), 3, "list size"); for (u64 i = 0; i < 3; ++i) same<T>(w[i], e[i], "list element");
}
template<class T, size_t N, size_t K> static void sz() {
    auto e = ins<T>(N * K, "e"); std::array<T, N * K> ar; for (u64 i = 0; i < N * K; ++i) ar[i] = e[i];
    SizedMat<T, N, K> a(e); all(a, N, K, e, "from vector"); SizedMat<T, N, K> b(ar); all(b, N, K, e, "from array");
    T v = in<T>("v"); auto f = SizedMat<T, N, K>::filled(v); all(f, N, K, std::vector<T>(N * K, v), "filled");
    if constexpr (N == K) {
        std::array<T, N> d; for (u64 i = 0; i < N; ++i) d[i] = e[i];
        std::vector<T> x(N * N, T(0)), y = x, z = x; for (u64 i = 0; i < N; ++i) { x[i * N + i] = d[i]; y[i * N + i] = v; z[i * N + i] = T(1); }
        auto p = SizedMat<T, N, N>::diag(d); all(p, N, N, x, "diag(list)"); auto q = SizedMat<T, N, N>::diag(v); all(q, N, N, y, "diag(value)");
        auto r = SizedMat<T, N, N>::identity(); all(r, N, N, z, "identity");
    }
    for (u64 bad : {N * K - 1, N * K + 1, (u64)0}) { if (bad == N * K) continue; auto w = ins<T>(bad, "x"); must_throw<std::runtime_error>([&] { SizedMat<T, N, K> q(w); }, "a list of the wrong length is rejected"); }
    a = f; all(a, N, K, std::vector<T>(N * K, v), "assignment"); all(b, N, K, e, "other matrix untouched");
}
template<class T, size_t N, size_t K> static void szw() { auto e = ins<T>(N * K, "e"); SizedMat<T, N, K> a(e); writes(a, N, K, e); }
template<class T> static void szall() { sz<T, 1, 1>(); sz<T, 2, 2>(); sz<T, 2, 3>(); sz<T, 3, 2>(); sz<T, 4, 4>(); sz<T, 1, 17>(); sz<T, 17, 1>(); }
template<class T> static void szmore() { switch (vf_choose("shape", 0, 3)) { case 0: sz<T, 5, 7>(); break; case 1: sz<T, 9, 9>(); break; case 2: sz<T, 16, 3>(); break; default: sz<T, 17, 17>(); } }
template<class V, class T> static void vall(V& a, const std::vector<T>& e, const char* s) {
    const V& c = a; u(c.size(), e.size(), "size");
    for (u64 i = 0; i < e.size(); ++i) { same<T>(c[i], e[i], s); same<T>(a[i], e[i], s); same<T>(c.data()[i], e[i], "contiguous storage"); }
    vf_check(a.data() == c.data(), "data() of the same object");
    u64 k = 0; for (auto& x : c) { same<T>(x, e[k], "iteration"); ++k; } u(k, e.size(), "iteration count"); k = 0; for (auto& x : a) { same<T>(x, e[k], "iteration"); ++k; } u(k, e.size(), "iteration count");
    u((u64)(c.cend() - c.cbegin()), e.size(), "distance");
}
template<class T> static void vec() {
    const u64 s = Q(24, 64); u64 n = vf_choose("n", 0, s + 1); if (n > s) n = 65;
    auto e = ins<T>(n, "e"); T v = in<T>("v");
    DynVec<T> a(e); vall(a, e, "from list"); DynVec<T> c(a); vall(c, e, "copy"); std::vector<T> t(e); DynVec<T> mv(std::move(t)); vall(mv, e, "from moved list");
    DynVec<T> mm(std::move(mv)); vall(mm, e, "move"); auto f = DynVec<T>::filled(n, v); vall(f, std::vector<T>(n, v), "filled"); u(DynVec<T>::uninit(n).size(), n, "uninit size");
    DynVec<T> d; u(d.size(), 0, "default is empty"); d = a; vall(d, e, "assignment"); d = std::move(mm); vall(d, e, "move assignment");
    if (n) { u64 i = vf_u64("i", 0, n - 1); i = vf_concretize(i % n); T w = in<T>("w"); auto g = e; g[i] = w; if (vf_choose("path", 0, 1)) c[i] = w; else *(c.begin() + i) = w; vall(c, g, "write changes exactly one element"); vall(a, e, "copies do not share storage"); a = c; c[i] = e[i]; vall(a, g, "assignment copies"); }
}
template<class T, size_t N> static void sv() {
    auto e = ins<T>(N, "e"); std::array<T, N> ar; for (u64 i = 0; i < N; ++i) ar[i] = e[i]; T v = in<T>("v");
    SizedVec<T, N> a(e), b(ar); vall(a, e, "from list"); vall(b, e, "from array"); auto f = SizedVec<T, N>::filled(v); vall(f, std::vector<T>(N, v), "filled"); u(SizedVec<T, N>::uninit().size(), N, "uninit size");
    auto c = a; if constexpr (N > 0) { c[N - 1] = v; auto g = e; g[N - 1] = v; vall(c, g, "write changes exactly one element"); vall(a, e, "copies do not share storage"); } b = f; vall(b, std::vector<T>(N, v), "assignment");
    for (u64 bad : {(u64)N + 1, (u64)N - 1}) { if (bad > 20) continue; auto w = ins<T>(bad, "x"); must_throw<std::runtime_error>([&] { SizedVec<T, N> q(w); }, "a list of the wrong length is rejected"); }
}
template<class T> static void svall() { sv<T, 1>(); sv<T, 2>(); sv<T, 3>(); sv<T, 4>(); sv<T, 17>(); }
// @run mode=ieee cfg=internal
ENTRY(h_mat_double) { mat_ctor<double>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_large_diag_double) { large_diag<double>(); }
ENTRY(h_mat_float) { mat_ctor<float>(); }
ENTRY(h_write_double) { mat_write<double>(); }
ENTRY(h_diag_double) { mat_diag<double>(); }
ENTRY(h_diag_float) { mat_diag<float>(); }
ENTRY(h_init_double) { mat_init<double>(); }
ENTRY(h_sized_double) { szall<double>(); }
ENTRY(h_sized_float) { szall<float>(); }
ENTRY(h_szmore_double) { szmore<double>(); }
ENTRY(h_sizedw_double) { szw<double, 2, 3>(); }
ENTRY(h_vec_double) { vec<double>(); }
ENTRY(h_vec_float) { vec<float>(); }
ENTRY(h_svec_double) { svall<double>(); }
ENTRY(h_svec_float) { svall<float>(); }
// @run mode=real cfg=internal
ENTRY(h_mat_zdouble) { mat_ctor<cd>(); }
ENTRY(h_diag_zdouble) { mat_diag<cd>(); }
ENTRY(h_sized_zdouble) { szall<cd>(); }
ENTRY(h_vec_zfloat) { precision<cf>(); vec<cf>(); }
// @run mode=ieee cfg=dbg
ENTRY(h_write_dbg) { mat_write<double>(); }
// @run mode=real cfg=internal
ENTRY(h_mat_uint) { mat_ctor<unsigned>(); }
ENTRY(h_write_long) { mat_write<long>(); }
ENTRY(h_vec_uint) { vec<unsigned>(); }
ENTRY(h_svec_uint) { svall<unsigned>(); }
ENTRY(h_diag_long) { mat_diag<long>(); }
ENTRY(h_sized_long) { szall<long>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(32, {mat_ctor<double>, mat_write<double>, mat_diag<double>, mat_init<double>, szall<double>, szw<double, 2, 3>, vec<double>, svall<double>}); }
