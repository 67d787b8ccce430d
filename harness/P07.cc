// @bound every shape n x m with n,m in 0..6 plus 1x33, 33x1, 17x9, 8x31, 130x2, 2x130, 33x34; 65x65, 66x67, 130x129, 257x3, 3x257, 1025x2, 2x1025, 257x257 with up to seven symbolic elements (thorough 0..10 plus the same); fixed shapes 1x1, 2x2, 2x3, 3x2, 4x4, 1x5, 5x1, 6x7, 8x8, 9x9, 17x16, 33x3, 3x33
// @bound alpha and beta arbitrary, and each of the literal combinations of 0 and 1; y distinct from x, or the same vector (square matrices)
// @bound two calls in sequence on one path: 24 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside larger shapes; complex elements under a BLAS backend (no specialisation exists; the generic kernel is checked); rounding; mismatched sizes (only asserted by the library)
#include "sym.h"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
using namespace lalib;
static std::pair<u64, u64> shp() {
    static const u64 B[][2] = {{1, 33}, {33, 1}, {17, 9}, {8, 31}, {130, 2}, {2, 130}, {33, 34}};
    const u64 s = Q(7, 11);
    u64 k = vf_choose("shape", 0, s * s + 6);
    if (k < s * s) return {k / s, k % s};
    return {B[k - s * s][0], B[k - s * s][1]};
}
template<class T> static void coef(T& al, T& be) {
    switch (vf_choose("coef", 0, 4)) {
    case 0: al = in<T>("alpha"); be = in<T>("beta"); break;
    case 1: al = T(1); be = T(0); break;
    case 2: al = T(0); be = in<T>("beta"); break;
    case 3: al = in<T>("alpha"); be = T(0); break;
    default: al = T(1); be = T(1);
    }
}
template<class T> static std::vector<T> ref(T al, const M<T>& a, const std::vector<T>& x, T be, const std::vector<T>& y) {
    auto r = mv(a, x); for (u64 i = 0; i < r.size(); ++i) r[i] = al * r[i] + be * y[i]; return r;
}
template<class T> static void dyn() {
    precision<T>();
    auto [n, m] = shp();
    T al, be; coef(al, be);
    auto a = inm<T>(n, m, "A"); auto x = ins<T>(m, "x"), y = ins<T>(n, "y");
    DynMat<T> A(n, m, a.a); DynVec<T> X(x), Y(y);
    auto e = ref(al, a, x, be, y);
    auto& r = mul(al, A, X, be, Y); vf_check(&r == &Y, "mul returns y");
    eqv(Y, e, "y := alpha A x + beta y");
    eqv(X, x, "x unchanged"); eqm(A, a, "A unchanged");
    if (n == m) { DynVec<T> W(x); mul(al, A, W, be, W); eqv(W, ref(al, a, x, be, x), "mul with x and y the same vector"); }
}
template<class T> static void large() {   // mostly fixed elements
    precision<T>(); static const u64 B[][2] = {{65, 65}, {66, 67}, {130, 129}, {257, 3}, {3, 257}, {1025, 2}, {2, 1025}, {257, 257}}; u64 c = vf_choose("shape", 0, 7), n = B[c][0], m = B[c][1]; T al, be; vf_assume(c < 7 || sizeof(T) == 8 || Q(0, 1)); coef(al, be);
    auto a = fewm<T>(n, m, "A", n * m / 5 + 1); auto x = few<T>(m, "x", m + 5), y = few<T>(n, "y", n / 3); DynMat<T> A(n, m, a.a); DynVec<T> X(x), Y(y); mul(al, A, X, be, Y); eqv(Y, ref(al, a, x, be, y), "y := alpha A x + beta y"); eqv(X, x, "x unchanged"); eqv(A * X, mv(a, x), "A * x"); eqm(A, a, "A unchanged");
    if (n == m) { mul(al, A, X, be, X); eqv(X, ref(al, a, x, be, x), "mul with x and y the same vector"); }
}
template<class T> static void ops() {
    precision<T>();
    auto [n, m] = shp();
    auto a = inm<T>(n, m, "A"); auto x = ins<T>(m, "x");
    DynMat<T> A(n, m, a.a); DynVec<T> X(x);
    eqv(A * X, mv(a, x), "A * x"); eqv(X, x, "x unchanged"); eqm(A, a, "A unchanged");
}
template<class T, size_t N, size_t K> static void sz() {
    T al = in<T>("alpha"), be = in<T>("beta");
    auto a = inm<T>(N, K, "A"); auto x = ins<T>(K, "x"), y = ins<T>(N, "y");
    SizedMat<T, N, K> A(a.a); DynMat<T> DA(N, K, a.a); SizedVec<T, K> X(x); DynVec<T> DX(x); SizedVec<T, N> Y(y); DynVec<T> DY(y);
    auto e = ref(al, a, x, be, y); auto p = mv(a, x);
    auto Y1 = Y; mul(al, A, X, be, Y1); eqv(Y1, e, "sized mat, sized vec");
    auto Y2 = Y; mul(al, A, DX, be, Y2); eqv(Y2, e, "sized mat, dyn vec");
    auto Y3 = DY; mul(al, DA, X, be, Y3); eqv(Y3, e, "dyn mat, sized vec");
    eqv(A * X, p, "sized * sized"); eqv(A * DX, p, "sized * dyn"); eqv(DA * X, p, "dyn * sized");
    if constexpr (N == K) { auto W = X; mul(al, A, W, be, W); eqv(W, ref(al, a, x, be, x), "sized, x and y the same vector"); }
    eqv(X, x, "x unchanged"); eqm(A, a, "A unchanged"); eqm(DA, a, "A unchanged");
}
template<class T> static void szall() { precision<T>(); sz<T, 1, 1>(); sz<T, 2, 2>(); sz<T, 2, 3>(); sz<T, 3, 2>(); sz<T, 4, 4>(); sz<T, 1, 5>(); sz<T, 5, 1>(); }
template<class T> static void szmore() { precision<T>(); switch (vf_choose("shape", 0, 5)) { case 0: sz<T, 6, 7>(); break; case 1: sz<T, 8, 8>(); break; case 2: sz<T, 9, 9>(); break; case 3: sz<T, 17, 16>(); break; case 4: sz<T, 33, 3>(); break; default: sz<T, 3, 33>(); } }
template<class T, class A, class X> static void cat_one(const A& A0, const X& x0, const M<T>& a, const std::vector<T>& x) {
    auto e = mv(a, x); cats(A0, x0, [&](auto&& p, auto&& q) { auto r = FW(p) * FW(q); eqv(r, e, "A * x for any value category"); }, [&](A& p, X& q) { eqm(p, a, "A unchanged"); eqv(q, x, "x unchanged"); });
}
template<class T> static void categories() {
    precision<T>(); u64 n = vf_choose("n", 2, 3), k = vf_choose("kind", 0, 3); auto a = inm<T>(n, 3, "A"); auto x = ins<T>(3, "x");
    if (k == 0) cat_one<T>(DynMat<T>(n, 3, a.a), DynVec<T>(x), a, x); else if (n < 3) return; else if (k == 1) cat_one<T>(SizedMat<T, 3, 3>(a.a), SizedVec<T, 3>(x), a, x);
    else if (k == 2) cat_one<T>(SizedMat<T, 3, 3>(a.a), DynVec<T>(x), a, x); else cat_one<T>(DynMat<T>(3, 3, a.a), SizedVec<T, 3>(x), a, x);
}
// @run mode=real cfg=internal,blas
ENTRY(h_dyn_double) { dyn<double>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_large_float) { large<float>(); }
ENTRY(h_dyn_float) { dyn<float>(); }
ENTRY(h_ops_double) { ops<double>(); }
ENTRY(h_ops_float) { ops<float>(); }
ENTRY(h_sized_double) { szall<double>(); }
ENTRY(h_sized_float) { szall<float>(); }
ENTRY(h_szmore_double) { szmore<double>(); }
ENTRY(h_szmore_float) { szmore<float>(); }
// @run mode=real cfg=internal
ENTRY(h_large_zdouble) { large<cd>(); }
ENTRY(h_dyn_zdouble) { dyn<cd>(); }
ENTRY(h_ops_zdouble) { ops<cd>(); }
ENTRY(h_sized_zdouble) { szall<cd>(); }
// @run mode=real cfg=internal tier=thorough
ENTRY(h_dyn_zfloat) { dyn<cf>(); }
ENTRY(h_sized_zfloat) { szall<cf>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_cat_double) { categories<double>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_twice_double) { twice(24, {dyn<double>, ops<double>, szall<double>, categories<double>}); }
