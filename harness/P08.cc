// @bound every n x l times l x m with n,l,m in 0..3 plus 1x5x2, 4x2x5, 5x5x5, 2x9x3, 9x1x2, 1x17x1, 65x1x2, 1x2x65, 2x65x1, 18x17x2, 34x3x35, 3x34x33, 35x33x2, 17x18x19; 130x2x3, 2x130x3, 3x2x130, 66x67x65, 257x3x2, 3x1025x2, 2x3x257 (thorough also 130x129x131) with few symbolic elements (thorough: 0..5 plus the same, 7x6x8)
// @bound alpha and beta arbitrary, and literal combinations of 0 and 1; result distinct from, or the same matrix as, either or both factors; all eight fixed/dynamic combinations (fixed sizes up to 3x3x3, 1x4x2, 2x1x4, and 5x4x6, 8x8x8, 9x10x7, 2x17x3, 17x2x17)
// @bound two calls in sequence on one path: 24 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside larger shapes; complex elements under a BLAS backend (no specialisation exists); rounding; mismatched shapes (only asserted by the library)
#include "sym.h"
#include "lalib/mat.hpp"
using namespace lalib;
static void shp(u64& n, u64& m, u64& l) {
    static const u64 B[][3] = {{1, 5, 2}, {4, 2, 5}, {5, 5, 5}, {2, 9, 3}, {9, 1, 2}, {1, 17, 1}, {65, 1, 2}, {1, 2, 65}, {2, 65, 1}, {18, 17, 2}, {34, 3, 35}, {3, 34, 33}, {35, 33, 2}, {17, 18, 19}, {7, 6, 8}};
    const u64 s = Q(4, 6), c = s * s * s;
    u64 k = vf_choose("shape", 0, c + Q(13, 14));
    if (k < c) { n = k / s / s; l = k / s % s; m = k % s; } else { n = B[k - c][0]; l = B[k - c][1]; m = B[k - c][2]; }
}
template<class T> static void coef(T& al, T& be) {
    switch (vf_choose("coef", 0, 3)) {
    case 0: al = in<T>("alpha"); be = in<T>("beta"); break;
    case 1: al = T(1); be = T(0); break;
    case 2: al = T(0); be = in<T>("beta"); break;
    default: al = in<T>("alpha"); be = T(1);
    }
}
template<class T> static M<T> ref(T al, const M<T>& a, const M<T>& b, T be, const M<T>& c) {
    auto r = mm(a, b); for (u64 i = 0; i < r.a.size(); ++i) r.a[i] = al * r.a[i] + be * c.a[i]; return r;
}
template<class T> static void dyn() {
    precision<T>();
    u64 n, m, l; shp(n, m, l);
    T al, be; coef(al, be);
    auto a = inm<T>(n, l, "A"), b = inm<T>(l, m, "B"), c = inm<T>(n, m, "C");
    DynMat<T> A(n, l, a.a), B(l, m, b.a), C(n, m, c.a);
    auto& r = mul(al, A, B, be, C); vf_check(&r == &C, "mul returns C");
    eqm(C, ref(al, a, b, be, c), "C := alpha A B + beta C");
    eqm(A, a, "A unchanged"); eqm(B, b, "B unchanged");
    eqm(A * B, mm(a, b), "A * B");
}
template<class T> static void alias() {
    precision<T>();
    u64 n = vf_choose("n", 0, Q(4, 6)), m = vf_choose("m", 0, Q(4, 6));
    T al, be; coef(al, be);
    auto a = inm<T>(n, m, "A"), s = inm<T>(m, m, "S"), t = inm<T>(n, n, "T");
    DynMat<T> S(m, m, s.a), R(n, n, t.a);
    { DynMat<T> A(n, m, a.a); mul(al, A, S, be, A); eqm(A, ref(al, a, s, be, a), "result onto the left factor"); eqm(S, s, "right factor unchanged"); }
    { DynMat<T> A(n, m, a.a); mul(al, R, A, be, A); eqm(A, ref(al, t, a, be, a), "result onto the right factor"); eqm(R, t, "left factor unchanged"); }
    { DynMat<T> X = S; mul(al, X, X, be, X); eqm(X, ref(al, s, s, be, s), "result onto both factors"); }
    { DynMat<T> X = S; auto Y = DynMat<T>::filled(T(1), m, m); mul(al, X, X, T(0), Y); eqm(Y, ref(al, s, s, T(0), s), "a matrix times itself"); eqm(X, s, "factor unchanged"); }
}
template<class T> static void large() {   // mostly fixed elements
    precision<T>(); static const u64 B[][3] = {{130, 2, 3}, {2, 130, 3}, {3, 2, 130}, {66, 67, 65}, {257, 3, 2}, {3, 1025, 2}, {2, 3, 257}, {130, 129, 131}}; u64 c = vf_choose("shape", 0, Q(6, 7)), n = B[c][0], l = B[c][1], m = B[c][2];
    T al = T(1), be = T(0); if (vf_choose("coef", 0, 1)) { al = in<T>("alpha"); be = in<T>("beta"); }
    auto a = fewm<T>(n, l, "A", n * l / 3 + 1), b = fewm<T>(l, m, "B", n * l * m + 5), d = fewm<T>(n, m, "C", n * m / 3 + 1);
    DynMat<T> A(n, l, a.a), B_(l, m, b.a), C(n, m, d.a); mul(al, A, B_, be, C); eqm(C, ref(al, a, b, be, d), "C := alpha A B + beta C"); eqm(A, a, "A unchanged"); eqm(B_, b, "B unchanged");
}
template<class T, size_t N, size_t L, size_t K> static void sz() {
    T al = in<T>("alpha"), be = in<T>("beta");
    auto a = inm<T>(N, L, "A"), b = inm<T>(L, K, "B"), c = inm<T>(N, K, "C");
    auto e = ref(al, a, b, be, c);
    SizedMat<T, N, L> A(a.a); SizedMat<T, L, K> B(b.a); SizedMat<T, N, K> C(c.a);
    DynMat<T> dA(N, L, a.a), dB(L, K, b.a), dC(N, K, c.a);
    { auto r = C; mul(al, A, B, be, r); eqm(r, e, "sss"); } { auto r = C; mul(al, dA, B, be, r); eqm(r, e, "dss"); }
    { auto r = C; mul(al, A, dB, be, r); eqm(r, e, "sds"); } { auto r = C; mul(al, dA, dB, be, r); eqm(r, e, "dds"); }
    { auto r = dC; mul(al, A, B, be, r); eqm(r, e, "ssd"); } { auto r = dC; mul(al, dA, B, be, r); eqm(r, e, "dsd"); }
    { auto r = dC; mul(al, A, dB, be, r); eqm(r, e, "sdd"); } { auto r = dC; mul(al, dA, dB, be, r); eqm(r, e, "ddd"); }
    eqm(A * B, mm(a, b), "A * B sized");
    if constexpr (N == L && L == K) {
        { auto X = A; mul(al, X, B, be, X); eqm(X, ref(al, a, b, be, a), "sized, onto left"); }
        { auto X = B; mul(al, A, X, be, X); eqm(X, ref(al, a, b, be, b), "sized, onto right"); }
        { auto X = A; mul(al, X, X, be, X); eqm(X, ref(al, a, a, be, a), "sized, onto both"); }
    }
    eqm(A, a, "A unchanged"); eqm(B, b, "B unchanged");
}
template<class T> static void szall() { precision<T>(); sz<T, 1, 1, 1>(); sz<T, 2, 2, 2>(); sz<T, 2, 3, 1>(); sz<T, 3, 1, 2>(); sz<T, 3, 3, 3>(); sz<T, 1, 4, 2>(); sz<T, 2, 1, 4>(); }
template<class T> static void szmore() { precision<T>(); switch (vf_choose("shape", 0, 4)) { case 0: sz<T, 5, 4, 6>(); break; case 1: sz<T, 8, 8, 8>(); break; case 2: sz<T, 9, 10, 7>(); break; case 3: sz<T, 2, 17, 3>(); break; default: sz<T, 17, 2, 17>(); } }
template<class T> static void categories() {
    precision<T>(); u64 k = vf_choose("kind", 0, 2), n = 2, l = k == 1 ? 3 : 2, m = 2; auto a = inm<T>(n, l, "A"), b = inm<T>(l, m, "B"); auto e = mm(a, b);
    auto f = [&](auto&& p, auto&& q) { auto r = FW(p) * FW(q); eqm(r, e, "A * B for any value category"); }; auto g = [&](auto& p, auto& q) { eqm(p, a, "A unchanged"); eqm(q, b, "B unchanged"); };
    if (k < 2) cats(DynMat<T>(n, l, a.a), DynMat<T>(l, m, b.a), f, g); else cats(SizedMat<T, 2, 2>(a.a), SizedMat<T, 2, 2>(b.a), f, g);
}
// @run mode=real cfg=internal,blas
ENTRY(h_dyn_double) { dyn<double>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_large_float) { large<float>(); }
ENTRY(h_dyn_float) { dyn<float>(); }
ENTRY(h_alias_double) { alias<double>(); }
ENTRY(h_alias_float) { alias<float>(); }
ENTRY(h_sized_double) { szall<double>(); }
ENTRY(h_sized_float) { szall<float>(); }
ENTRY(h_szmore_double) { szmore<double>(); }
ENTRY(h_szmore_float) { szmore<float>(); }
// @run mode=real cfg=internal
ENTRY(h_dyn_zdouble) { dyn<cd>(); }
ENTRY(h_alias_zdouble) { alias<cd>(); }
ENTRY(h_sized_zfloat) { szall<cf>(); }
// @run mode=real cfg=dbg
ENTRY(h_dbg_double) { dyn<double>(); }
ENTRY(h_dbg_sized) { szall<double>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_cat_double) { categories<double>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_twice_double) { twice(24, {dyn<double>, alias<double>, szall<double>, categories<double>}); }
