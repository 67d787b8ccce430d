// @bound every shape n x m with n,m in 0..5 plus 1x17, 17x1, 7x9, 16x16, 33x4, 3x90, 130x2; 66x67, 130x129, 257x3, 3x257, 1025x2, 2x1025, 1x4097, 257x258 with up to nine symbolic elements (thorough 0..8 plus the same); fixed shapes 1x1, 2x2, 2x3, 3x2, 4x4, 1x5, 5x7, 9x9, 16x3, 2x33, 17x17
// @bound sum, difference and negation over all bit patterns of float/double; scaling over the reals; complex elements over the reals
// @bound result distinct from, or identical to, either operand; scale factor a separate value or an element of the scaled matrix
// @bound integer elements too (32-bit unsigned over all values, 64-bit signed within +-30000; internal backend) for the dynamic and small fixed-size cases
// @bound two calls in sequence on one path: 32 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside larger shapes; operands of different shapes (only asserted by the library)
#include "sym.h"
#include "lalib/mat.hpp"
using namespace lalib;
static std::pair<u64, u64> shp() {
    static const u64 B[][2] = {{1, 17}, {17, 1}, {7, 9}, {16, 16}, {33, 4}, {3, 90}, {130, 2}};
    const u64 s = Q(6, 9);
    u64 k = vf_choose("shape", 0, s * s + 6);
    if (k < s * s) return {k / s, k % s};
    return {B[k - s * s][0], B[k - s * s][1]};
}
template<class T> static M<T> mk(u64 n, u64 m, const char* nm) { return inm<T>(n, m, nm); }
template<class A, class T> static void sm(const A& a, u64 n, u64 m, const std::vector<T>& e, const char* s) {
    u(a.shape().first, n, s); u(a.shape().second, m, s);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) same<T>(a(i, j), e[i * m + j], s);
}
template<class T> static std::vector<T> z3(const std::vector<T>& a, const std::vector<T>& b, int op) {
    std::vector<T> r(a);
    for (u64 i = 0; i < a.size(); ++i) r[i] = op == 0 ? a[i] + b[i] : op == 1 ? a[i] - b[i] : -a[i];
    return r;
}
template<class T> static void dyn_addsub() {
    auto [n, m] = shp();
    auto a = ins<T>(n * m, "a"), b = ins<T>(n * m, "b");
    auto S = z3(a, b, 0), D = z3(a, b, 1);
    DynMat<T> x(n, m, a), y(n, m, b);
    auto r = DynMat<T>::filled(T(7), n, m);
    auto& ref = add(x, y, r); vf_check(&ref == &r, "add returns its result matrix"); sm(r, n, m, S, "add");
    sub(x, y, r); sm(r, n, m, D, "sub");
    sm(x + y, n, m, S, "operator+"); sm(x - y, n, m, D, "operator-");
    sm(x, n, m, a, "left operand unchanged"); sm(y, n, m, b, "right operand unchanged");
    { DynMat<T> p = x; add(p, y, p); sm(p, n, m, S, "add into left"); }
    { DynMat<T> p = y; add(x, p, p); sm(p, n, m, S, "add into right"); }
    { DynMat<T> p = x; sub(p, y, p); sm(p, n, m, D, "sub into left"); }
    { DynMat<T> p = y; sub(x, p, p); sm(p, n, m, D, "sub into right"); }
    sm(x, n, m, a, "copies are independent"); sm(y, n, m, b, "copies are independent");
}
template<class T> static void dyn_neg() {
    auto [n, m] = shp();
    auto a = ins<T>(n * m, "a");
    DynMat<T> x(n, m, a);
    auto g = -x;
    u(g.shape().first, n, "shape of negation"); u(g.shape().second, m, "shape of negation");
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) eq<T>(g(i, j), -a[i * m + j], "unary minus");
    sm(x, n, m, a, "operand unchanged");
}
template<class T> static void dyn_scale() {
    precision<T>();
    auto [n, m] = shp();
    T s = in<T>("s");
    auto a = ins<T>(n * m, "a"); M<T> e(n, m);
    for (u64 i = 0; i < n * m; ++i) e.a[i] = s * a[i];
    DynMat<T> x(n, m, a);
    eqm(s * x, e, "s * x"); sm(x, n, m, a, "operand unchanged");
    auto& ref = scale(s, x); vf_check(&ref == &x, "scale returns its argument"); eqm(x, e, "scale in place");
    if (n && m) {
        DynMat<T> w(n, m, a); u64 k = (n * m) / 2; T f = a[k];
        scale(w.data()[k], w);
        for (u64 i = 0; i < n * m; ++i) e.a[i] = f * a[i];
        eqm(w, e, "scaling by one of the matrix's own elements");
    }
}
template<class T> static void large() {   // mostly fixed elements
    static const u64 B[][2] = {{66, 67}, {130, 129}, {257, 3}, {3, 257}, {1025, 2}, {2, 1025}, {1, 4097}, {257, 258}}; u64 c = vf_choose("shape", 0, 7), n = B[c][0], m = B[c][1];
    auto a = few<T>(n * m, "a", n * m / 9 + 1), b = few<T>(n * m, "b", n * m / 7 + 1); auto S = z3(a, b, 0), D = z3(a, b, 1); DynMat<T> x(n, m, a), y(n, m, b);
    u64 op = vf_choose("operation", 0, 3); vf_assume(c < 7 || op >= 2 || Q(0, 1));
    switch (op) {
    case 0: { auto r = DynMat<T>::filled(T(7), n, m); add(x, y, r); sm(r, n, m, S, "add"); sub(x, y, r); sm(r, n, m, D, "sub"); sm(x, n, m, a, "left operand unchanged"); sm(y, n, m, b, "right operand unchanged"); break; }
    case 1: sm(x + y, n, m, S, "operator+"); sm(x - y, n, m, D, "operator-"); break;
    case 2: add(x, y, x); sm(x, n, m, S, "add into left"); sub(S.size() ? x : y, y, y); break;
    default: sub(x, y, y); sm(y, n, m, D, "sub into right"); sm(x, n, m, a, "left operand unchanged");
    }
}
template<class T> static void large_scale() {
    precision<T>(); static const u64 B[][2] = {{66, 67}, {130, 129}, {257, 3}, {3, 257}, {1025, 2}, {2, 1025}, {1, 4097}, {257, 258}}; u64 c = vf_choose("shape", 0, 7), n = B[c][0], m = B[c][1];
    auto a = fewm<T>(n, m, "a", n * m / 9 + 1); auto e = a; DynMat<T> x(n, m, a.a); T s = in<T>("s");
    if (vf_choose("operation", 0, 1)) { for (auto& v : e.a) v = s * v; eqm(s * x, e, "s * x"); scale(s, x); eqm(x, e, "scale in place"); } else { for (auto& v : e.a) v = -v; eqm(-x, e, "unary minus"); eqm(x, a, "operand unchanged"); }
}
template<class T, size_t N, size_t MM> static void sz() {
    auto a = ins<T>(N * MM, "a"), b = ins<T>(N * MM, "b");
    auto S = z3(a, b, 0), D = z3(a, b, 1), G = z3(a, a, 2);
    SizedMat<T, N, MM> x(a), y(b); DynMat<T> dx(N, MM, a), dy(N, MM, b);
    auto r = SizedMat<T, N, MM>::filled(T(3));
    add(x, y, r); sm(r, N, MM, S, "add sized"); add(x, dy, r); sm(r, N, MM, S, "add sized/dyn"); add(dx, y, r); sm(r, N, MM, S, "add dyn/sized");
    sub(x, y, r); sm(r, N, MM, D, "sub sized"); sub(x, dy, r); sm(r, N, MM, D, "sub sized/dyn"); sub(dx, y, r); sm(r, N, MM, D, "sub dyn/sized");
    sm(x + y, N, MM, S, "operator+ sized"); sm(x - y, N, MM, D, "operator- sized");
    { auto p = x; add(p, y, p); sm(p, N, MM, S, "add into left"); } { auto p = y; sub(x, p, p); sm(p, N, MM, D, "sub into right"); }
    sm(x, N, MM, a, "left unchanged"); sm(y, N, MM, b, "right unchanged"); sm(dx, N, MM, a, "left unchanged"); sm(dy, N, MM, b, "right unchanged");
}
template<class T, size_t N, size_t MM> static void szs() {
    T s = in<T>("s"); auto a = ins<T>(N * MM, "a"); M<T> e(N, MM);
    for (u64 i = 0; i < N * MM; ++i) e.a[i] = s * a[i];
    SizedMat<T, N, MM> x(a); eqm(s * x, e, "s * x sized");
    if constexpr (std::is_floating_point_v<T>) { M<T> g(N, MM); for (u64 i = 0; i < N * MM; ++i) g.a[i] = -a[i]; eqm(-x, g, "unary minus sized"); }
    for (u64 i = 0; i < N * MM; ++i) eq<T>(x.data()[i], a[i], "operand unchanged");
    { auto w = x; scale(w.data()[N * MM / 2], w); M<T> f(N, MM); for (u64 i = 0; i < N * MM; ++i) f.a[i] = a[N * MM / 2] * a[i]; eqm(w, f, "scaling by an own element"); }
    scale(s, x); eqm(x, e, "scale sized in place");
}
template<class T> static void szall() { sz<T, 1, 1>(); sz<T, 2, 2>(); sz<T, 2, 3>(); sz<T, 3, 2>(); sz<T, 4, 4>(); sz<T, 1, 5>(); }
template<class T> static void szsall() { precision<T>(); szs<T, 1, 1>(); szs<T, 2, 2>(); szs<T, 2, 3>(); szs<T, 3, 2>(); szs<T, 4, 4>(); szs<T, 1, 5>(); }
template<class T> static void szmore() { switch (vf_choose("shape", 0, 4)) { case 0: sz<T, 5, 7>(); break; case 1: sz<T, 9, 9>(); break; case 2: sz<T, 16, 3>(); break; case 3: sz<T, 2, 33>(); break; default: sz<T, 17, 17>(); } }
template<class T> static void szsmore() { precision<T>(); switch (vf_choose("shape", 0, 4)) { case 0: szs<T, 5, 7>(); break; case 1: szs<T, 9, 9>(); break; case 2: szs<T, 16, 3>(); break; case 3: szs<T, 2, 33>(); break; default: szs<T, 17, 17>(); } }
template<class T, class X> static void cat_one(const X& x, const X& y, const M<T>& a, const M<T>& b) {
    auto keep = [&](X& p, X& q) { eqm(p, a, "left operand unchanged"); eqm(q, b, "right operand unchanged"); }; auto keep1 = [&](X& p) { eqm(p, a, "operand unchanged"); };
    auto e = a; u64 n = a.a.size(); T s = in<T>("s");
    switch (vf_choose("operation", 0, 3)) {
    case 0: for (u64 i = 0; i < n; ++i) e.a[i] = a.a[i] + b.a[i]; cats(x, y, [&](auto&& p, auto&& q) { auto r = FW(p) + FW(q); eqm(r, e, "sum for any value category"); }, keep); break;
    case 1: for (u64 i = 0; i < n; ++i) e.a[i] = a.a[i] - b.a[i]; cats(x, y, [&](auto&& p, auto&& q) { auto r = FW(p) - FW(q); eqm(r, e, "difference for any value category"); }, keep); break;
    case 2: for (u64 i = 0; i < n; ++i) e.a[i] = -a.a[i]; cats1(x, [&](auto&& p) { auto r = -FW(p); eqm(r, e, "negation for any value category"); }, keep1); break;
    default: for (u64 i = 0; i < n; ++i) e.a[i] = s * a.a[i]; cats1(x, [&](auto&& p) { auto r = s * FW(p); eqm(r, e, "scaling for any value category"); }, keep1); break;
    }
}
template<class T> static void categories() {
    precision<T>(); u64 k = vf_choose("kind", 0, 2); auto [n, m] = k < 2 ? std::pair<u64, u64>(2, 3) : std::pair<u64, u64>(5, 4); auto a = inm<T>(n, m, "A"), b = inm<T>(n, m, "B");
    if (k == 0) cat_one<T>(SizedMat<T, 2, 3>(a.a), SizedMat<T, 2, 3>(b.a), a, b); else cat_one<T>(DynMat<T>(n, m, a.a), DynMat<T>(n, m, b.a), a, b);
}
// @run mode=ieee cfg=internal,accel
ENTRY(h_addsub_double) { dyn_addsub<double>(); }
ENTRY(h_large_double) { large<double>(); }
// @run mode=ieee cfg=internal
ENTRY(h_addsub_float) { dyn_addsub<float>(); }
ENTRY(h_large_float) { large<float>(); }
ENTRY(h_sized_double) { szall<double>(); }
ENTRY(h_sized_float) { szall<float>(); }
ENTRY(h_szmore_double) { szmore<double>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_neg_double) { dyn_neg<double>(); }
ENTRY(h_large_scale_double) { large_scale<double>(); }
ENTRY(h_large_scale_float) { large_scale<float>(); }
ENTRY(h_scale_double) { dyn_scale<double>(); }
ENTRY(h_scale_float) { dyn_scale<float>(); }
ENTRY(h_scale_zdouble) { dyn_scale<cd>(); }
ENTRY(h_sizeds_double) { szsall<double>(); }
ENTRY(h_szsmore_double) { szsmore<double>(); }
// @run mode=real cfg=internal
ENTRY(h_neg_float) { precision<float>(); dyn_neg<float>(); }
ENTRY(h_addsub_zdouble) { dyn_addsub<cd>(); }
ENTRY(h_scale_zfloat) { dyn_scale<cf>(); }
ENTRY(h_sizeds_float) { szsall<float>(); }
ENTRY(h_sizeds_zdouble) { szsall<cd>(); }
ENTRY(h_sized_zfloat) { precision<cf>(); szall<cf>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_cat_double) { categories<double>(); }
ENTRY(h_cat_float) { categories<float>(); }
// @run mode=real cfg=internal
ENTRY(h_addsub_uint) { dyn_addsub<unsigned>(); }
ENTRY(h_neg_long) { dyn_neg<long>(); }
ENTRY(h_sized_uint) { szall<unsigned>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_twice_double) { twice(32, {dyn_addsub<double>, dyn_neg<double>, dyn_scale<double>, szall<double>, szsall<double>, categories<double>}); }
