// @bound vectors of every length 0..24 plus 33,64,65,127,128,129,257,1025, and 33000 and 65601 with few symbolic elements (thorough: 0..70 plus 2049,4097); fixed sizes 1,2,3,4,8,16,17,33,65,130
// @bound float, double and complex elements over the reals; double and float scaling also over all bit patterns
// @bound scalar a separate value, or an element of either vector (every position, length 1..4 and 18)
// @bound two calls in sequence on one path: 28 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume divisor nonzero for the division operator
// @outside lengths above the listed ones; rounding of axpy and of division by a scalar
#include "sym.h"
#include "lalib/vec.hpp"
using namespace lalib;
static const u64 BIG[] = {33, 64, 65, 127, 128, 129, 257, 1025, 2049, 4097};
static u64 pick_len(u64 small, u64 nb) { u64 k = vf_choose("len", 0, small + nb); return k <= small ? k : BIG[k - small - 1]; }
static u64 len() { return pick_len(Q(24, 70), Q(8, 10)); }

template<class T> static void axpy_dyn() {
    precision<T>();
    u64 n = len();
    T al = in<T>("alpha");
    auto a = ins<T>(n, "x"), b = ins<T>(n, "y");
    DynVec<T> x(a), y(b);
    auto& r = axpy(al, x, y);
    vf_check(&r == &y, "axpy returns y");
    for (u64 i = 0; i < n; ++i) { eq<T>(y[i], al * a[i] + b[i], "y := alpha x + y"); eq<T>(x[i], a[i], "x unchanged"); }
    if constexpr (std::is_floating_point_v<T>) { DynVec<T> z(a); axpy(al, z, z);
    for (u64 i = 0; i < n; ++i) eq<T>(z[i], al * a[i] + a[i], "axpy of a vector onto itself"); }
}
template<class T> static void huge(u64 n) {   // more elements than a 16-bit counter reaches; mostly fixed
    precision<T>(); T al = in<T>("alpha"); auto a = few<T>(n, "x", n / 3 + 1), b = few<T>(n, "y", n / 2 + 3); DynVec<T> x(a), y(b);
    switch (vf_choose("operation", 0, 2)) {
    case 0: { axpy(al, x, y); for (u64 i = 0; i < n; ++i) { eq<T>(y[i], al * a[i] + b[i], "axpy"); eq<T>(x[i], a[i], "x unchanged"); } break; }
    case 1: { auto s = al * x; for (u64 i = 0; i < n; ++i) eq<T>(s[i], al * a[i], "alpha * x"); scale(al, x); for (u64 i = 0; i < n; ++i) eq<T>(x[i], al * a[i], "scale in place"); break; }
    default: { nz<T>(al); auto q = x / al; for (u64 i = 0; i < n; ++i) eq<T>(q[i], a[i] / al, "x / alpha"); axpy(al, x, x); for (u64 i = 0; i < n; ++i) eq<T>(x[i], al * a[i] + a[i], "axpy onto itself"); }
    }
}
template<class T> static void scale_dyn() {
    precision<T>();
    u64 n = len();
    T al = in<T>("alpha");
    auto a = ins<T>(n, "x");
    DynVec<T> x(a);
    auto s = scaled(al, x); auto l = al * x; auto r = x * al;
    for (u64 i = 0; i < n; ++i) {
        T e = al * a[i];
        eq<T>(s[i], e, "scaled"); eq<T>(l[i], e, "alpha * x"); eq<T>(r[i], e, "x * alpha"); eq<T>(x[i], a[i], "operand unchanged");
    }
    u(s.size(), n, "size"); u(l.size(), n, "size"); u(r.size(), n, "size");
    auto& ref = scale(al, x);
    vf_check(&ref == &x, "scale returns its argument");
    for (u64 i = 0; i < n; ++i) eq<T>(x[i], al * a[i], "scale in place");
}
// the scalar is an element of the vector that is updated
template<class V, class T> static void own1(const std::vector<T>& a, const std::vector<T>& b, u64 k) {
    u64 n = a.size();
    { V x(a); scale(x[k], x); for (u64 i = 0; i < n; ++i) eq<T>(x[i], a[k] * a[i], "scale(x[k], x)"); }
    { V x(a); x = x[k] * x; for (u64 i = 0; i < n; ++i) eq<T>(x[i], a[k] * a[i], "x = x[k] * x"); }
    { V x(a); x = x * x[k]; for (u64 i = 0; i < n; ++i) eq<T>(x[i], a[k] * a[i], "x = x * x[k]"); }
    { V x(a), y(b); axpy(y[k], x, y); for (u64 i = 0; i < n; ++i) eq<T>(y[i], b[k] * a[i] + b[i], "axpy(y[k], x, y)"); }
    { V x(a), y(b); axpy(x[k], x, y); for (u64 i = 0; i < n; ++i) { eq<T>(y[i], a[k] * a[i] + b[i], "axpy(x[k], x, y)"); eq<T>(x[i], a[i], "x unchanged"); } }
    if constexpr (std::is_floating_point_v<T>) { V x(a); axpy(x[k], x, x); for (u64 i = 0; i < n; ++i) eq<T>(x[i], a[k] * a[i] + a[i], "axpy(x[k], x, x)"); }
}
template<class T> static void own() {
    precision<T>();
    u64 n = vf_choose("n", 1, Q(5, 9)), k = vf_choose("k", 0, n - 1); if (n == Q(5, 9)) { n = 18; k = k * 17 / (Q(5, 9) - 1); }
    auto a = ins<T>(n, "x"), b = ins<T>(n, "y");
    own1<DynVec<T>>(a, b, k);
    if (n == 1) own1<SizedVec<T, 1>>(a, b, k);
    if (n == 3) own1<SizedVec<T, 3>>(a, b, k);
    if (n == 18) own1<SizedVec<T, 18>>(a, b, k);
}
template<class T> static void div_dyn() {
    precision<T>();
    u64 n = len();
    T al = in<T>("alpha"); nz<T>(al);
    auto a = ins<T>(n, "x");
    DynVec<T> x(a);
    auto d = x / al;
    u(d.size(), n, "size");
    for (u64 i = 0; i < n; ++i) { eq<T>(d[i], a[i] / al, "x / alpha"); eq<T>(x[i], a[i], "operand unchanged"); }
}
template<class T, size_t N> static void sized1() {
    T al = in<T>("alpha"); nz<T>(al);
    auto a = ins<T>(N, "x"), b = ins<T>(N, "y");
    SizedVec<T, N> x(a), y(b);
    axpy(al, x, y);
    auto z = x; axpy(al, z, z);
    auto s = scaled(al, x); auto l = al * x; auto r = x * al; auto d = x / al; auto p = x; scale(al, p);
    for (u64 i = 0; i < N; ++i) {
        T e = al * a[i];
        eq<T>(y[i], e + b[i], "axpy"); eq<T>(z[i], e + a[i], "axpy onto itself");
        eq<T>(s[i], e, "scaled"); eq<T>(l[i], e, "alpha * x"); eq<T>(r[i], e, "x * alpha"); eq<T>(p[i], e, "scale in place");
        eq<T>(d[i], a[i] / al, "x / alpha"); eq<T>(x[i], a[i], "operand unchanged");
    }
}
template<class T> static void sized() { precision<T>(); sized1<T, 1>(); sized1<T, 3>(); sized1<T, 4>(); sized1<T, 16>(); sized1<T, 17>(); }
template<class T> static void sized_more() { precision<T>(); switch (vf_choose("N", 0, 4)) { case 0: sized1<T, 2>(); break; case 1: sized1<T, 8>(); break; case 2: sized1<T, 33>(); break; case 3: sized1<T, 65>(); break; default: sized1<T, 130>(); } }
template<class T> static void scale_bits() {
    u64 n = pick_len(Q(20, 40), Q(3, 5));
    T al = in<T>("alpha");
    auto a = ins<T>(n, "x");
    DynVec<T> x(a);
    auto s = scaled(al, x); auto r = x * al;
    scale(al, x);
    for (u64 i = 0; i < n; ++i) { T e = al * a[i]; same<T>(s[i], e, "scaled (bits)"); same<T>(r[i], e, "x * alpha (bits)"); same<T>(x[i], e, "scale (bits)"); }
}
template<class T, class X> static void cat_one(const X& x, const std::vector<T>& a) {
    T al = in<T>("alpha"); auto e = a, d = a; for (auto& v : e) v = al * v;
    auto keep = [&](X& p) { eqv(p, a, "operand unchanged"); };
    switch (vf_choose("operation", 0, 3)) {
    case 0: cats1(x, [&](auto&& p) { auto r = al * FW(p); eqv(r, e, "alpha * x for any value category"); }, keep); break;
    case 1: cats1(x, [&](auto&& p) { auto r = FW(p) * al; eqv(r, e, "x * alpha for any value category"); }, keep); break;
    case 2: cats1(x, [&](auto&& p) { auto r = scaled(al, FW(p)); eqv(r, e, "scaled for any value category"); }, keep); break;
    default: nz<T>(al); for (auto& v : d) v = v / al; cats1(x, [&](auto&& p) { auto r = FW(p) / al; eqv(r, d, "x / alpha for any value category"); }, keep); break;
    }
}
template<class T> static void categories() {
    precision<T>(); u64 k = vf_choose("kind", 0, 2), n = k == 0 ? 3 : k == 1 ? 4 : 20; auto a = ins<T>(n, "x");
    if (k == 0) cat_one<T>(SizedVec<T, 3>(a), a); else cat_one<T>(DynVec<T>(a), a);
}
// @run mode=real cfg=internal,blas,accel
ENTRY(h_axpy_double) { axpy_dyn<double>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_axpy_float) { axpy_dyn<float>(); }
ENTRY(h_axpy_zdouble) { axpy_dyn<cd>(); }
ENTRY(h_axpy_zfloat) { axpy_dyn<cf>(); }
ENTRY(h_scale_double) { scale_dyn<double>(); }
ENTRY(h_scale_float) { scale_dyn<float>(); }
ENTRY(h_scale_zdouble) { scale_dyn<cd>(); }
ENTRY(h_div_double) { div_dyn<double>(); }
ENTRY(h_div_float) { div_dyn<float>(); }
ENTRY(h_own_double) { own<double>(); }
ENTRY(h_own_float) { own<float>(); }
// @run mode=real cfg=internal
ENTRY(h_huge_double) { huge<double>(65601); }
ENTRY(h_huge_float) { huge<float>(33000); }
ENTRY(h_own_zdouble) { own<cd>(); }
ENTRY(h_own_zfloat) { own<cf>(); }
ENTRY(h_div_zdouble) { div_dyn<cd>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_sized_double) { sized<double>(); }
ENTRY(h_sized_float) { sized<float>(); }
ENTRY(h_sizedmore_double) { sized_more<double>(); }
ENTRY(h_sizedmore_float) { sized_more<float>(); }
// @run mode=real cfg=internal
ENTRY(h_sized_zdouble) { sized<cd>(); }
// @run mode=ieee cfg=internal
ENTRY(h_scale_bits_double) { scale_bits<double>(); }
ENTRY(h_scale_bits_float) { scale_bits<float>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_cat_double) { categories<double>(); }
ENTRY(h_cat_float) { categories<float>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_twice_double) { twice(28, {axpy_dyn<double>, scale_dyn<double>, div_dyn<double>, own<double>, sized<double>, categories<double>}); }
