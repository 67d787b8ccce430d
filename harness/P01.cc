// @bound vectors of every length 0..40 plus 63,64,65,127,128,129,255,256,257,1000,1023,1024,1025,2049, and 33000 and 65601 with few symbolic elements (thorough: 0..130 plus 4095,4096,4097,10001); fixed sizes 0,1,2,3,4,8,15,16,17,32,33,64,65,130
// @bound float and double elements over all bit patterns; complex elements over the reals
// @bound result vector distinct from, or identical to, either operand; element-wise operators and free functions; Sized/Dyn combinations
// @bound integer elements too (32-bit unsigned over all values, 64-bit signed within +-30000; internal backend) for the dynamic and small fixed-size cases
// @bound two calls in sequence on one path: 24 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside lengths above the listed ones (a length of 2^32 or more in particular), partially overlapping storage
#include "sym.h"
#include "lalib/vec.hpp"
using namespace lalib;

static const u64 BIG[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 10001};
static u64 pick_len() {
    const u64 small = Q(40, 130), nb = Q(14, 18);
    u64 k = vf_choose("len", 0, small + nb);
    return k <= small ? k : BIG[k - small - 1];
}

template<class T> static void dyn_all() {
    u64 n = pick_len();
    auto a = ins<T>(n, "a"), b = ins<T>(n, "b");
    DynVec<T> x(a), y(b);
    DynVec<T> r = DynVec<T>::filled(n, T(7));
    auto& ra = add(x, y, r);
    vf_check(&ra == &r, "add returns its result vector");
    auto r2 = DynVec<T>::filled(n, T(7)); sub(x, y, r2);
    auto r3 = DynVec<T>::filled(n, T(7)); neg(x, r3);
    for (u64 i = 0; i < n; ++i) {
        same<T>(r[i], a[i] + b[i], "add"); same<T>(r2[i], a[i] - b[i], "sub"); same<T>(r3[i], -a[i], "neg");
        same<T>(x[i], a[i], "left operand unchanged"); same<T>(y[i], b[i], "right operand unchanged");
    }
    u(r.size(), n, "result size");
}
template<class T> static void huge(u64 n) {   // more elements than a 16-bit counter reaches; mostly fixed
    auto a = few<T>(n, "a", n / 3 + 1), b = few<T>(n, "b", n / 2 + 3); DynVec<T> x(a), y(b);
    auto all = [&](const DynVec<T>& v, int k, const char* m) { u(v.size(), n, "size"); for (u64 i = 0; i < n; ++i) if (i < 300 || i % 5 == 1 || i > n - 300) same<T>(v[i], k == 0 ? a[i] + b[i] : k == 1 ? a[i] - b[i] : -a[i], m); };
    switch (vf_choose("operation", 0, 5)) {
    case 0: add(x, y, y); all(y, 0, "add into right"); break;
    case 1: sub(x, y, x); all(x, 1, "sub into left"); break;
    case 2: neg(x, y); all(y, 2, "neg"); break;
    case 3: all(x + y, 0, "operator+"); break;
    case 4: all(x - y, 1, "operator-"); break;
    default: all(-x, 2, "unary -");
    }
}
template<class T> static void dyn_ops() {
    u64 n = pick_len();
    auto a = ins<T>(n, "a"), b = ins<T>(n, "b");
    DynVec<T> x(a), y(b);
    auto s = x + y; auto d = x - y; auto m = -x;
    u(s.size(), n, "size of sum"); u(d.size(), n, "size of difference"); u(m.size(), n, "size of negation");
    for (u64 i = 0; i < n; ++i) {
        same<T>(s[i], a[i] + b[i], "operator+"); same<T>(d[i], a[i] - b[i], "operator-"); same<T>(m[i], -a[i], "unary -");
        same<T>(x[i], a[i], "left operand unchanged"); same<T>(y[i], b[i], "right operand unchanged");
    }
}
template<class T> static void dyn_alias() {
    u64 n = vf_choose("len", 0, Q(36, 80));
    auto a = ins<T>(n, "a"), b = ins<T>(n, "b");
    { DynVec<T> x(a), y(b); add(x, y, x); for (u64 i = 0; i < n; ++i) { same<T>(x[i], a[i] + b[i], "add into left"); same<T>(y[i], b[i], "right kept"); } }
    { DynVec<T> x(a), y(b); add(x, y, y); for (u64 i = 0; i < n; ++i) { same<T>(y[i], a[i] + b[i], "add into right"); same<T>(x[i], a[i], "left kept"); } }
    { DynVec<T> x(a), y(b); sub(x, y, x); for (u64 i = 0; i < n; ++i) { same<T>(x[i], a[i] - b[i], "sub into left"); same<T>(y[i], b[i], "right kept"); } }
    { DynVec<T> x(a), y(b); sub(x, y, y); for (u64 i = 0; i < n; ++i) { same<T>(y[i], a[i] - b[i], "sub into right"); same<T>(x[i], a[i], "left kept"); } }
    { DynVec<T> x(a); neg(x, x); for (u64 i = 0; i < n; ++i) same<T>(x[i], -a[i], "neg in place"); }
    { DynVec<T> x(a); add(x, x, x); for (u64 i = 0; i < n; ++i) same<T>(x[i], a[i] + a[i], "doubling in place"); }
    { DynVec<T> x(a), r(b); sub(x, x, r); for (u64 i = 0; i < n; ++i) same<T>(r[i], a[i] - a[i], "self difference"); }
}
template<class T, size_t N> static void sized_all() {
    auto a = ins<T>(N, "a"), b = ins<T>(N, "b");
    SizedVec<T, N> x(a), y(b);
    DynVec<T> dx(a), dy(b);
    auto z = SizedVec<T, N>::filled(T(3));
    auto r1 = z, r2 = z, r3 = z, q1 = z, q2 = z, q3 = z, g = z;
    add(x, y, r1); add(x, dy, r2); add(dx, y, r3);
    sub(x, y, q1); sub(x, dy, q2); sub(dx, y, q3); neg(x, g);
    auto s = x + y; auto d = x - y; auto m = -x;
    auto ia = x; add(ia, y, ia);
    auto ib = y; sub(x, ib, ib);
    auto ic = x; neg(ic, ic);
    for (u64 i = 0; i < N; ++i) {
        T S = a[i] + b[i], D = a[i] - b[i], G = -a[i];
        same<T>(r1[i], S, "add sized"); same<T>(r2[i], S, "add sized/dyn"); same<T>(r3[i], S, "add dyn/sized");
        same<T>(q1[i], D, "sub sized"); same<T>(q2[i], D, "sub sized/dyn"); same<T>(q3[i], D, "sub dyn/sized");
        same<T>(g[i], G, "neg sized");
        same<T>(s[i], S, "operator+ sized"); same<T>(d[i], D, "operator- sized"); same<T>(m[i], G, "unary - sized");
        same<T>(ia[i], S, "add sized in place"); same<T>(ib[i], D, "sub sized into right"); same<T>(ic[i], G, "neg sized in place");
        same<T>(x[i], a[i], "left operand unchanged"); same<T>(y[i], b[i], "right operand unchanged");
        same<T>(dx[i], a[i], "left dyn unchanged"); same<T>(dy[i], b[i], "right dyn unchanged");
    }
}
template<class T> static void sized_set() {
    sized_all<T, 1>(); sized_all<T, 3>(); sized_all<T, 15>(); sized_all<T, 16>(); sized_all<T, 17>(); sized_all<T, 33>();
}
template<class T> static void sized_more() { switch (vf_choose("N", 0, 6)) { case 0: sized_all<T, 2>(); break; case 1: sized_all<T, 4>(); break; case 2: sized_all<T, 8>(); break; case 3: sized_all<T, 32>(); break; case 4: sized_all<T, 64>(); break; case 5: sized_all<T, 65>(); break; default: sized_all<T, 130>(); } }

template<class T, class X> static void cat_one(const X& x, const X& y, const std::vector<T>& a, const std::vector<T>& b) {
    auto same2 = [&](X& p, X& q) { eqv(p, a, "left operand unchanged"); eqv(q, b, "right operand unchanged"); };
    auto e = a; u64 n = a.size();
    switch (vf_choose("operation", 0, 2)) {
    case 0: for (u64 i = 0; i < n; ++i) e[i] = a[i] + b[i]; cats(x, y, [&](auto&& p, auto&& q) { auto r = FW(p) + FW(q); eqv(r, e, "operator+ for any value category"); }, same2); break;
    case 1: for (u64 i = 0; i < n; ++i) e[i] = a[i] - b[i]; cats(x, y, [&](auto&& p, auto&& q) { auto r = FW(p) - FW(q); eqv(r, e, "operator- for any value category"); }, same2); break;
    default: for (u64 i = 0; i < n; ++i) e[i] = -a[i]; cats1(x, [&](auto&& p) { auto r = -FW(p); eqv(r, e, "unary - for any value category"); }, [&](X& p) { eqv(p, a, "operand unchanged"); }); break;
    }
}
template<class T> static void categories() {   // temporaries and moved objects as operands
    precision<T>(); u64 k = vf_choose("kind", 0, 2), n = k == 0 ? 3 : k == 1 ? 4 : 20; auto a = ins<T>(n, "a"), b = ins<T>(n, "b");
    if (k == 0) cat_one<T>(SizedVec<T, 3>(a), SizedVec<T, 3>(b), a, b); else cat_one<T>(DynVec<T>(a), DynVec<T>(b), a, b);
}
// @run mode=ieee cfg=internal,accel
ENTRY(h_dyn_double) { dyn_all<double>(); }
ENTRY(h_dyn_float) { dyn_all<float>(); }
// @run mode=ieee cfg=internal,accel
ENTRY(h_ops_double) { dyn_ops<double>(); }
ENTRY(h_ops_float) { dyn_ops<float>(); }
// @run mode=ieee cfg=internal
ENTRY(h_huge_double) { huge<double>(65601); }
ENTRY(h_huge_float) { huge<float>(33000); }
// @run mode=ieee cfg=internal,blas
ENTRY(h_alias_double) { dyn_alias<double>(); }
ENTRY(h_alias_float) { dyn_alias<float>(); }
ENTRY(h_sized_double) { sized_set<double>(); }
ENTRY(h_sized_float) { sized_set<float>(); }
ENTRY(h_sizedmore_double) { sized_more<double>(); }
ENTRY(h_sizedmore_float) { sized_more<float>(); }
// @run mode=real cfg=internal
ENTRY(h_dyn_zdouble) { dyn_all<cd>(); }
ENTRY(h_alias_zdouble) { dyn_alias<cd>(); }
ENTRY(h_sized_zdouble) { sized_set<cd>(); }
ENTRY(h_sized_zfloat) { precision<cf>(); sized_set<cf>(); }
ENTRY(h_cat_double) { categories<double>(); }
ENTRY(h_cat_float) { categories<float>(); }
// @run mode=real cfg=internal,accel
ENTRY(h_dyn_uint) { dyn_all<unsigned>(); }
ENTRY(h_ops_long) { dyn_ops<long>(); }
ENTRY(h_alias_uint) { dyn_alias<unsigned>(); }
ENTRY(h_sized_uint) { sized_set<unsigned>(); }
// @run mode=real cfg=internal,accel,blas
ENTRY(h_twice_double) { twice(24, {dyn_all<double>, dyn_ops<double>, dyn_alias<double>, sized_set<double>, categories<double>}); }
