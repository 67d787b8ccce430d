// @bound vectors of every length 0..20 plus 33,64,65,128,257, and 511,1000,1023,1024,1025,2049,4097,10001,65601 with few symbolic elements (thorough: 0..64 plus 1025,2049); fixed sizes 1,2,3,4,8,16,17,33,65,130
// @bound float and double elements over the reals; 64-bit integer elements up to 2^20, length 0..5
// @bound two calls in sequence on one path: 16 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside lengths above the listed ones; rounding and intermediate overflow; complex elements (those reductions do not compile under OpenMP)
#include "sym.h"
#include "lalib/vec.hpp"
using namespace lalib;
static const u64 BIG[] = {33, 64, 65, 128, 257, 1025, 2049};
static u64 len() { u64 s = Q(20, 64), k = vf_choose("len", 0, s + Q(5, 7)); return k <= s ? k : BIG[k - s - 1]; }
template<class T> static T sum(const std::vector<T>& a, const std::vector<T>& b) { T s = T(0); for (u64 i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
template<class T> static void dot_dyn() {
    precision<T>();
    u64 n = len();
    auto a = ins<T>(n, "a"), b = ins<T>(n, "b");
    DynVec<T> x(a), y(b);
    T e = sum(a, b);
    eq<T>(x.dot(y), e, "x.dot(y)"); eq<T>(y.dot(x), e, "y.dot(x)"); eq<T>(dot(x, y), e, "dot(x, y)"); eq<T>(x.dot(x), sum(a, a), "x.dot(x)");
    for (u64 i = 0; i < n; ++i) { eq<T>(x[i], a[i], "operand unchanged"); eq<T>(y[i], b[i], "operand unchanged"); }
}
template<class T> static void norm_check(T r, T e, const char* m) {
    if constexpr (std::is_same_v<T, float>) { vf_check(r >= 0, m); }
    else vf_check(r >= 0, m);
    eq<T>(r * r, e, m);
}
template<class T> static void norm_dyn() {
    precision<T>();
    u64 n = len();
    auto a = ins<T>(n, "a");
    DynVec<T> x(a);
    norm_check<T>(x.norm2(), sum(a, a), "norm2 is the nonnegative root of the sum of squares");
    for (u64 i = 0; i < n; ++i) eq<T>(x[i], a[i], "operand unchanged");
}
template<class T> static void large() {   // mostly fixed elements
    precision<T>(); static const u64 B[] = {511, 1000, 1023, 1024, 1025, 2049, 4097, 10001, 65601}; u64 n = B[vf_choose("n", 0, 8)]; auto a = few<T>(n, "a", n / 4), b = few<T>(n, "b", n / 3); DynVec<T> x(a), y(b); T e = sum(a, b);
    eq<T>(x.dot(y), e, "x.dot(y)"); eq<T>(dot(x, y), e, "dot(x, y)"); norm_check<T>(x.norm2(), sum(a, a), "norm2"); for (u64 i = 0; i < n; ++i) { eq<T>(x[i], a[i], "operand unchanged"); eq<T>(y[i], b[i], "operand unchanged"); }
}
template<class T, size_t N> static void s1() {
    auto a = ins<T>(N, "a"), b = ins<T>(N, "b");
    SizedVec<T, N> x(a), y(b); DynVec<T> dx(a), dy(b);
    T e = sum(a, b);
    eq<T>(x.dot(y), e, "sized.sized"); eq<T>(x.dot(dy), e, "sized.dyn"); eq<T>(dx.dot(y), e, "dyn.sized"); eq<T>(dot(x, y), e, "dot(sized, sized)");
    if constexpr (std::is_floating_point_v<T>) norm_check<T>(x.norm2(), sum(a, a), "sized norm2");
}
template<class T> static void sized() { precision<T>(); s1<T, 1>(); s1<T, 2>(); s1<T, 3>(); s1<T, 16>(); s1<T, 17>(); }
template<class T> static void sized_more() { precision<T>(); switch (vf_choose("N", 0, 4)) { case 0: s1<T, 4>(); break; case 1: s1<T, 8>(); break; case 2: s1<T, 33>(); break; case 3: s1<T, 65>(); break; default: s1<T, 130>(); } }
static void dot_int() {
    u64 n = vf_choose("len", 0, 5);
    std::vector<long> a, b; long e = 0;
    for (u64 i = 0; i < n; ++i) { a.push_back((long)vf_u64("a", 0, 1 << 20)); b.push_back((long)vf_u64("b", 0, 1 << 20)); e += a[i] * b[i]; }
    DynVec<long> x(a), y(b);
    u((u64)x.dot(y), (u64)e, "integer dot"); u((u64)dot(x, y), (u64)e, "integer dot(x, y)");
}
// @run mode=real cfg=internal,blas
ENTRY(h_dot_double) { dot_dyn<double>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_large_float) { large<float>(); }
ENTRY(h_dot_float) { dot_dyn<float>(); }
ENTRY(h_norm_double) { norm_dyn<double>(); }
ENTRY(h_norm_float) { norm_dyn<float>(); }
ENTRY(h_sized_double) { sized<double>(); }
ENTRY(h_sized_float) { sized<float>(); }
ENTRY(h_sizedmore_double) { sized_more<double>(); }
ENTRY(h_sizedmore_float) { sized_more<float>(); }
// @run mode=real cfg=internal
ENTRY(h_dot_int) { dot_int(); }
// @run mode=real cfg=internal,blas
ENTRY(h_twice_double) { twice(16, {dot_dyn<double>, norm_dyn<double>, sized<double>}); }
