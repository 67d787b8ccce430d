// @bound histories of 1..3 operations (thorough 4) out of 24 (in-place and value sums, differences, negation, scaling, axpy, division, dot and norm as scalars, matrix-vector and matrix-matrix products with results on operands, matrix sums, element writes, copies, moves, sparse products and sums) on two vectors, two matrices and a sparse matrix of size 2, every order and combination; histories of 1..2 operations on size 3 mixing fixed-size and dynamic objects; histories of 2 operations of size 17, 33, 130, 1025 (vectors; the larger ones mostly fixed) and 34, 66 (vectors and matrices, mostly fixed); two operations on different objects at the same addresses
// @bound every backend configuration (internal, BLAS, LAPACK, accelerator on the host, assertions on); double and float elements
// @assume divisor nonzero; real arithmetic
// @outside longer histories; other sizes (see the properties of the single operations)
#include "spm.h"
#include "lalib/ops/mat_ops.hpp"
#include "lalib/ops/mat_vec_ops.hpp"
#include "lalib/ops/mat_mat_ops.hpp"
template<class T> using V = std::vector<T>;
template<class T> static V<T> lin(T p, const V<T>& a, T q, const V<T>& b) { V<T> r(a.size()); for (u64 i = 0; i < r.size(); ++i) r[i] = p * a[i] + q * b[i]; return r; }
template<class T> static M<T> linm(T p, const M<T>& a, T q, const M<T>& b) { M<T> r(a.n, a.m); r.a = lin(p, a.a, q, b.a); return r; }
template<class T> static T dp(const V<T>& a, const V<T>& b) { T s = T(0); for (u64 i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
template<class T> struct World {   // library objects and their definitions side by side
    u64 n; DynVec<T> a, b; DynMat<T> A, B; V<T> oa, ob; M<T> oA, oB;
    World(u64 n_) : n(n_), a(V<T>(n_)), b(V<T>(n_)), A(n_, n_, V<T>(n_ * n_)), B(n_, n_, V<T>(n_ * n_)) { oa = ins<T>(n, "a"); ob = ins<T>(n, "b"); oA = inm<T>(n, n, "A"); oB = inm<T>(n, n, "B"); a = DynVec<T>(oa); b = DynVec<T>(ob); A = DynMat<T>(n, n, oA.a); B = DynMat<T>(n, n, oB.a); }
    void op(u64 k) {
        T I = T(1), O = T(0), J = T(-1);
        if (k > 22 && n > 2) k = 22;
        if constexpr (std::is_same_v<T, cd>) { if (k == 11) k = 2; if (k == 19) k = 15; }   // no complex reduction under OpenMP, no complex matrix negation
        switch (k) {
        case 0: add(a, b, a); oa = lin(I, oa, I, ob); break;
        case 1: b = a - b; ob = lin(I, oa, J, ob); break;
        case 2: { T s = in<T>("s"); axpy(s, a, b); ob = lin(s, oa, I, ob); break; }
        case 3: { T s = in<T>("s"); scale(s, a); oa = lin(s, oa, O, oa); break; }
        case 4: { T s = in<T>("s"), t = in<T>("t"); mul(s, A, a, t, b); ob = lin(s, mv(oA, oa), t, ob); break; }
        case 5: { T s = in<T>("s"), t = in<T>("t"); mul(s, B, b, t, b); ob = lin(s, mv(oB, ob), t, ob); break; }
        case 6: a = A * b; oa = mv(oA, ob); break;
        case 7: { T s = in<T>("s"), t = in<T>("t"); mul(s, A, B, t, B); oB = linm(s, mm(oA, oB), t, oB); break; }
        case 8: A = B * A; oA = mm(oB, oA); break;
        case 9: A = A + B; oA = linm(I, oA, I, oB); break;
        case 10: sub(A, B, B); oB = linm(I, oA, J, oB); break;
        case 11: { T d = T(0); if constexpr (!std::is_same_v<T, cd>) d = dot(a, b); eq<T>(d, dp(oa, ob), "inner product in a sequence"); b = d * b; ob = lin(dp(oa, ob), ob, O, ob); break; }
        case 12: neg(a, b); ob = lin(J, oa, O, ob); break;
        case 13: { T w = in<T>("w"); A(n - 1, 0) = w; b[n - 1] = a[0]; oA(n - 1, 0) = w; ob[n - 1] = oa[0]; break; }
        case 14: { DynVec<T> c = a; a = std::move(b); b = std::move(c); std::swap(oa, ob); DynMat<T> C(A); A = B; B = std::move(C); std::swap(oA, oB); break; }
        case 15: { T s = in<T>("s"); scale(s, B); oB = linm(s, oB, O, oB); break; }
        case 16: { Ent<T> e = masked<T>(n == 2 ? 13 : 0x1b1, n, n, "S"); SpCooMat<T> c(e.v, e.r, e.c); c += c; SpMat<T> S(std::move(c)); auto d = image(e, n, n); for (auto& x : d.a) x = x + x; T s = in<T>("s"), t = in<T>("t"); mul(s, S, a, t, a); oa = lin(s, mv(d, oa), t, oa); break; }
        case 17: { T s = in<T>("s"); nz<T>(s); a = a / s; for (auto& x : oa) x = x / s; break; }
        case 18: b = T(2) * a + (b - a); ob = lin(I, oa, I, ob); break;
        case 20: a = b - T(2) * a; oa = lin(I, ob, T(-2), oa); b = (a + b) - (b - a); ob = lin(T(2), oa, O, ob); break;
        case 21: B = A - T(2) * B; oB = linm(I, oA, T(-2), oB); A = (A + B) - (B - A); oA = linm(T(2), oA, O, oB); break;
        case 22: b = A * (a - b); ob = mv(oA, lin(I, oa, J, ob)); b = (A + B) * b; ob = mv(linm(I, oA, I, oB), ob); break;
        case 23: A = (A - B) * (A * B); oA = mm(linm(I, oA, J, oB), mm(oA, oB)); break;
        case 19: if constexpr (!std::is_same_v<T, cd>) A = -B + T(3) * B - A; oA = linm(T(2), oB, J, oA); break;
        }
    }
    void is(const char* s) { eqv(a, oa, s); eqv(b, ob, s); eqm(A, oA, s); eqm(B, oB, s); }
};
template<class T> static void hist(u64 n, u64 len) { precision<T>(); World<T> w(n); for (u64 s = 0; s < len; ++s) { w.op(vf_choose("operation", 0, 23)); if (s + 1 < len) eqv(w.a, w.oa, "first vector"); } w.is("after a sequence of operations"); }
// the second world lies where the first one was: nothing remembered by address may leak into it
template<class T> static void again(u64 n) { precision<T>(); vf_reuse(); u64 k = vf_choose("operation", 0, 23), l = vf_choose("same operation", 0, 1) ? k : (k + 7) % 24; { World<T> w(n); w.op(k); w.is("first objects"); } { World<T> w(n); w.op(l); w.is("new objects in the place of released ones"); } }
// fixed-size and dynamic objects of size 3 together
template<class T> struct Mixed {
    SizedVec<T, 3> a; DynVec<T> b; SizedMat<T, 3, 3> A; DynMat<T> B; V<T> oa, ob; M<T> oA, oB;
    Mixed() : a(V<T>(3)), b(V<T>(3)), A(V<T>(9)), B(3, 3, V<T>(9)) { oa = ins<T>(3, "a"); ob = ins<T>(3, "b"); oA = inm<T>(3, 3, "A"); oB = inm<T>(3, 3, "B"); a = SizedVec<T, 3>(oa); b = DynVec<T>(ob); A = SizedMat<T, 3, 3>(oA.a); B = DynMat<T>(3, 3, oB.a); }
    void op(u64 k) {
        T I = T(1), O = T(0), J = T(-1);
        switch (k) {
        case 0: add(a, b, a); oa = lin(I, oa, I, ob); break;
        case 1: sub(b, a, a); oa = lin(I, ob, J, oa); break;
        case 2: { T s = in<T>("s"), t = in<T>("t"); mul(s, A, b, t, a); oa = lin(s, mv(oA, ob), t, oa); break; }
        case 3: { T s = in<T>("s"), t = in<T>("t"); mul(s, B, a, t, b); ob = lin(s, mv(oB, oa), t, ob); break; }
        case 4: { T s = in<T>("s"), t = in<T>("t"); mul(s, A, B, t, A); oA = linm(s, mm(oA, oB), t, oA); break; }
        case 5: { T s = in<T>("s"), t = in<T>("t"); mul(s, B, A, t, B); oB = linm(s, mm(oB, oA), t, oB); break; }
        case 6: a = A * b; oa = mv(oA, ob); break;
        case 7: b = B * a; ob = mv(oB, oa); break;
        case 8: { T s = in<T>("s"); axpy(s, b, b); ob = lin(s, ob, I, ob); mul(s, A, a, s, a); oa = lin(s, mv(oA, oa), s, oa); break; }
        case 9: A = A + A; oA = linm(T(2), oA, O, oA); break;
        case 10: { SizedVec<T, 3> c = a; c = T(2) * c - a; a = a + c; oa = lin(T(2), oa, O, oa); break; }
        case 11: { T d = dot(b, b); scale(d, a); auto e = dp(ob, ob); oa = lin(e, oa, O, oa); break; }
        case 12: { cross(a, b, a); oa = V<T>{oa[1] * ob[2] - oa[2] * ob[1], oa[2] * ob[0] - oa[0] * ob[2], oa[0] * ob[1] - oa[1] * ob[0]}; break; }
        default: { T w = in<T>("w"); A(0, 2) = w; a[1] = w; oA(0, 2) = w; oa[1] = w; A = A * A; oA = mm(oA, oA); break; }
        }
    }
    void is(const char* s) { eqv(a, oa, s); eqv(b, ob, s); eqm(A, oA, s); eqm(B, oB, s); }
};
template<class T> static void mixed(u64 len) { precision<T>(); Mixed<T> w; for (u64 s = 0; s < len; ++s) w.op(vf_choose("operation", 0, 13)); w.is("after a sequence of operations"); }
// vectors to both sides of any blocking or threshold
template<class T> static void longer() {
    precision<T>(); static const u64 N[] = {17, 33, 130, 1025}; u64 n = N[vf_choose("n", 0, 3)]; auto oa = n < 100 ? ins<T>(n, "a") : few<T>(n, "a", n / 5), ob = n < 100 ? ins<T>(n, "b") : few<T>(n, "b", n / 4); DynVec<T> a(oa), b(ob); T I = T(1), O = T(0), J = T(-1);
    for (u64 s = 0; s < Q(2, 3); ++s) switch (vf_choose("operation", 0, 7)) {
        case 0: add(a, b, a); oa = lin(I, oa, I, ob); break;
        case 1: sub(b, a, b); ob = lin(I, ob, J, oa); break;
        case 2: { T p = in<T>("s"); axpy(p, a, b); ob = lin(p, oa, I, ob); break; }
        case 3: neg(a, a); oa = lin(J, oa, O, oa); break;
        case 4: { T p = a[n - 2]; scale(p, a); p = oa[n - 2]; oa = lin(p, oa, O, oa); break; }
        case 5: b = a - b; ob = lin(I, oa, J, ob); break;
        case 6: { a = b - (a - b); oa = lin(T(2), ob, J, oa); break; }
        default: { DynVec<T> c(a); a = b + b; b = std::move(c); auto t = oa; oa = lin(I, ob, I, ob); ob = t; }
    }
    eqv(a, oa, "after a sequence of operations"); eqv(b, ob, "after a sequence of operations");
}
// two large matrices and vectors, mostly fixed
template<class T> static void wide_() {
    precision<T>(); u64 n = vf_choose("n", 0, 1) ? 66 : 34; auto oa = few<T>(n, "a", n / 3), ob = few<T>(n, "b", n / 2); auto oA = fewm<T>(n, n, "A", n * n / 3), oB = fewm<T>(n, n, "B", n * n / 2); for (auto* p : {&oA, &oB}) for (auto& x : p->a) x = x / T(32);
    DynVec<T> a(oa), b(ob); DynMat<T> A(n, n, oA.a), B(n, n, oB.a); T I = T(1), O = T(0), J = T(-1);
    for (u64 s = 0; s < 2; ++s) switch (vf_choose("operation", 0, 8)) {
        case 0: { T p = in<T>("s"); mul(p, A, a, I, b); ob = lin(p, mv(oA, oa), I, ob); break; }
        case 1: mul(I, B, b, O, b); ob = mv(oB, ob); break;
        case 2: a = A * b; oa = mv(oA, ob); break;
        case 3: A = A + B; oA = linm(I, oA, I, oB); break;
        case 4: sub(A, B, B); oB = linm(I, oA, J, oB); break;
        case 5: { T p = B(n - 1, 1); scale(B(n - 1, 1), B); p = oB(n - 1, 1); oB = linm(p, oB, O, oB); break; }
        case 6: { DynMat<T> C(A); A = std::move(B); B = C; std::swap(oA, oB); break; }
        case 7: { T w = in<T>("w"); A(n - 1, 0) = w; oA(n - 1, 0) = w; b[n - 1] = a[0]; ob[n - 1] = oa[0]; break; }
        default: if (s == 0) { mul(I, A, B, O, B); oB = mm(oA, oB); } else { A = -A; oA = linm(J, oA, O, oA); }
    }
    eqv(a, oa, "after a sequence of operations"); eqv(b, ob, "after a sequence of operations"); eqm(A, oA, "after a sequence of operations"); eqm(B, oB, "after a sequence of operations");
}
// @run mode=real cfg=internal,blas
ENTRY(h_wide_double) { wide_<double>(); }
ENTRY(h_hist_double) { hist<double>(2, Q(3, 4)); }
ENTRY(h_mixed_double) { mixed<double>(Q(2, 3)); }
ENTRY(h_longer_double) { longer<double>(); }
ENTRY(h_again_double) { again<double>(2); }
ENTRY(h_again_float) { again<float>(3); }
// @run mode=real cfg=accel,lapack,dbg
ENTRY(h_hist2_double) { hist<double>(2, Q(2, 3)); }
ENTRY(h_longer2_double) { longer<double>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_hist_float) { hist<float>(2, 2); }
ENTRY(h_mixed_float) { mixed<float>(2); }
ENTRY(h_hist3_double) { hist<double>(3, 2); }
ENTRY(h_hist_zdouble) { hist<cd>(2, 2); }
