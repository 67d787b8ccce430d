// @bound every operation of the parallel kernels (add, sub, neg on vectors and matrices) at lengths 0..24, 31..33, 48, 64, and 100, 257, 1025 (vectors), up to 66x3, 33x34 and 257x2 (matrices) with few symbolic elements; every other dense and structured operation at lengths 17 / shapes up to 5x4
// @bound team sizes 1, 2, 3 and one thread per iteration (which covers every assignment of iterations to threads); offloaded regions as 3 teams of those sizes on the host
// @bound elements are symbolic reals (float and double) or complex numbers over the reals; every pair of accesses of the same region is decided by the solver
// @assume the OpenMP runtime implements the specification; sequentially consistent execution of race-free regions (data-race freedom)
// @outside other loops of more than 64 iterations (160 thorough), nested parallelism, tasks, real accelerator devices
#include "sym.h"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/mat/sp_mat.hpp"
#include "lalib/ops/mat_vec_ops.hpp"
#include "lalib/ops/mat_ops.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
using namespace lalib;

static const u64 L[] = {31, 32, 33, 48, 64, 65, 96, 127, 129, 160};
static u64 len() { u64 k = vf_choose("len", 0, Q(29, 34)); return k <= 24 ? k : L[k - 25]; }

template<class T> static void vec_core() {
    u64 n = len();
    auto a = ins<T>(n, "a"), b = ins<T>(n, "b");
    DynVec<T> x(a), y(b); auto r = DynVec<T>::filled(n, T(7)), q = r, g = r;
    add(x, y, r); sub(x, y, q); neg(x, g);
    for (u64 i = 0; i < n; ++i) { eq<T>(r[i], a[i] + b[i], "add"); eq<T>(q[i], a[i] - b[i], "sub"); eq<T>(g[i], -a[i], "neg"); }
    for (u64 i = 0; i < n; ++i) { same<T>(x[i], a[i], "left kept"); same<T>(y[i], b[i], "right kept"); }
}
template<class T> static void large() {   // longer loops, mostly fixed elements
    static const u64 B[] = {100, 257, 1025}; u64 n = B[vf_choose("n", 0, 2)]; auto a = few<T>(n, "a", n / 5), b = few<T>(n, "b", n / 4); DynVec<T> x(a), y(b); auto r = DynVec<T>::filled(n, T(7)), q = r, g = r;
    add(x, y, r); sub(x, y, q); neg(x, g); for (u64 i = 0; i < n; ++i) { eq<T>(r[i], a[i] + b[i], "add"); eq<T>(q[i], a[i] - b[i], "sub"); eq<T>(g[i], -a[i], "neg"); }
    add(x, y, x); sub(r, y, y); neg(g, g); for (u64 i = 0; i < n; ++i) { eq<T>(x[i], a[i] + b[i], "add into left"); eq<T>(y[i], a[i], "sub into right"); eq<T>(g[i], a[i], "neg in place"); }
}
template<class T> static void large_mat() {
    static const u64 SH[][2] = {{33, 34}, {66, 3}, {3, 130}, {257, 2}}; auto& s = SH[vf_choose("shape", 0, 3)]; u64 n = s[0], m = s[1]; auto a = fewm<T>(n, m, "a", n * m / 5), b = fewm<T>(n, m, "b", n * m / 4); DynMat<T> x(n, m, a.a), y(n, m, b.a); auto r = DynMat<T>::filled(T(7), n, m), q = r;
    add(x, y, r); sub(x, y, q); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) { eq<T>(r(i, j), a(i, j) + b(i, j), "add"); eq<T>(q(i, j), a(i, j) - b(i, j), "sub"); }
    add(x, y, x); sub(r, y, y); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) { eq<T>(x(i, j), a(i, j) + b(i, j), "add in place"); eq<T>(y(i, j), a(i, j), "sub into right"); }
}
template<class T> static void vec_alias() {
    u64 n = len();
    auto a = ins<T>(n, "a"), b = ins<T>(n, "b");
    DynVec<T> x(a), y(b), z(a); const DynVec<T> x0(a), y0(b);
    add(x, y0, x); sub(x0, y, y); neg(z, z);
    for (u64 i = 0; i < n; ++i) { eq<T>(x[i], a[i] + b[i], "add into left"); eq<T>(y[i], a[i] - b[i], "sub into right"); eq<T>(z[i], -a[i], "neg in place"); }
    auto s = x0 + y0; auto d = x0 - y0; auto m = -x0;
    for (u64 i = 0; i < n; ++i) { eq<T>(s[i], a[i] + b[i], "operator+"); eq<T>(d[i], a[i] - b[i], "operator-"); eq<T>(m[i], -a[i], "unary -"); }
}
template<class T, size_t N> static void sized() {
    auto a = ins<T>(N, "a"), b = ins<T>(N, "b");
    SizedVec<T, N> x(a), y(b); DynVec<T> dy(b);
    auto r = SizedVec<T, N>::filled(T(3)), q = r, g = r;
    add(x, y, r); sub(x, dy, q); neg(y, g);
    for (u64 i = 0; i < N; ++i) { eq<T>(r[i], a[i] + b[i], "add"); eq<T>(q[i], a[i] - b[i], "sub"); eq<T>(g[i], -b[i], "neg"); }
}
template<class T> static void mat_core() {
    static const u64 SH[][2] = {{1, 16}, {16, 1}, {3, 5}, {4, 4}, {3, 6}, {5, 4}, {6, 3}, {5, 5}, {2, 17}, {8, 8}};
    auto& s = SH[vf_choose("shape", 0, 9)]; u64 n = s[0], m = s[1];
    auto a = inm<T>(n, m, "a"), b = inm<T>(n, m, "b");
    DynMat<T> x(n, m, a.a), y(n, m, b.a); auto r = DynMat<T>::filled(T(7), n, m); auto q = r;
    add(x, y, r); sub(x, y, q); auto z = x + y; auto w = x - y;
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) {
        eq<T>(r(i, j), a(i, j) + b(i, j), "add"); eq<T>(q(i, j), a(i, j) - b(i, j), "sub");
        eq<T>(z(i, j), a(i, j) + b(i, j), "operator+"); eq<T>(w(i, j), a(i, j) - b(i, j), "operator-");
    }
    add(x, y, x); sub(x, y, y);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) {
        eq<T>(x(i, j), a(i, j) + b(i, j), "add in place"); eq<T>(y(i, j), a(i, j), "sub into right");
    }
}
// operations that are serial today: they stay correct and race-free however they are parallelised
template<class T> static void vec_rest() {
    static const u64 LR[] = {15, 16, 17, 18, 33, 65, 130, 257, 513, 1025};
    u64 n = LR[vf_choose("len", 0, 9)];
    auto a = ins<T>(n, "a"), b = ins<T>(n, "b"); T al = in<T>("alpha");
    DynVec<T> x(a), y(b), z(b);
    if constexpr (std::is_floating_point_v<T>) {        // complex reductions do not compile under OpenMP
        T d = T(0);
        for (u64 i = 0; i < n; ++i) d += a[i] * b[i];
        eq<T>(dot(x, y), d, "dot");
    }
    scale(al, x); axpy(al, DynVec<T>(a), y);
    for (u64 i = 0; i < n; ++i) { eq<T>(x[i], al * a[i], "scale"); eq<T>(y[i], al * a[i] + b[i], "axpy"); }
}
template<class T> static void mat_rest() {
    static const u64 SH[][3] = {{4, 4, 4}, {5, 3, 4}, {1, 17, 2}, {17, 1, 1}, {2, 2, 17}, {33, 2, 1}, {34, 3, 2}, {2, 34, 3}, {65, 1, 2}, {130, 2, 1}, {3, 2, 66}};
    auto& s = SH[vf_choose("shape", 0, 10)]; u64 n = s[0], k = s[1], m = s[2];
    auto a = inm<T>(n, k, "a"), b = inm<T>(k, m, "b"); auto xv = ins<T>(k, "x"); T al = in<T>("alpha");
    DynMat<T> A(n, k, a.a), B(k, m, b.a); DynVec<T> x(xv);
    auto P = mm(a, b); auto v = mv(a, xv);
    auto C = A * B; eqm(C, P, "matrix product");
    auto y = A * x; eqv(y, v, "matrix-vector product");
    auto Z = DynMat<T>::filled(T(2), n, m); mul(al, A, B, T(3), Z);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) eq<T>(Z(i, j), al * P(i, j) + T(6), "alpha A B + beta C");
    auto S = al * A; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < k; ++j) eq<T>(S(i, j), al * a(i, j), "scale");
}
template<class T> static void mat_alias() {
    u64 n = vf_choose("n", 0, 2); static const u64 N[] = {3, 8, 9}; n = N[n];
    auto a = inm<T>(n, n, "a"), b = inm<T>(n, n, "b"); auto xv = ins<T>(n, "x"); T al = in<T>("alpha"), be = in<T>("beta");
    DynMat<T> A(n, n, a.a), B(n, n, b.a), A2(n, n, a.a); DynVec<T> x(xv);
    auto P = mm(a, b); auto v = mv(a, xv);
    mul(al, A, x, be, x);
    for (u64 i = 0; i < n; ++i) eq<T>(x[i], al * v[i] + be * xv[i], "alpha A x + beta x into x");
    mul(al, A, B, be, A); mul(al, A2, B, be, B);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) {
        eq<T>(A(i, j), al * P(i, j) + be * a(i, j), "alpha A B + beta A into A"); eq<T>(B(i, j), al * P(i, j) + be * b(i, j), "alpha A B + beta B into B");
    }
}
template<class T> static void sp_rest() {
    u64 n = vf_choose("rows", 0, 4); static const u64 R[] = {3, 17, 33, 65, 130}; n = R[n];
    std::vector<T> v; std::vector<u64> c; std::vector<u64> ptr{0};
    for (u64 i = 0; i < n; ++i) { for (u64 j = 0; j < (i % 3); ++j) { v.push_back(in<T>("a")); c.push_back((i + 2 * j) % 3); } ptr.push_back(v.size()); }
    auto xv = ins<T>(3, "x"), yv = ins<T>(n, "y"); T al = in<T>("alpha"), be = in<T>("beta");
    DynVec<T> x(xv), y(yv);
    SpMat<T> A(v, ptr, c);
    mul(al, A, x, be, y);
    for (u64 i = 0; i < n; ++i) {
        T e = be * yv[i]; for (u64 k = ptr[i]; k < ptr[i + 1]; ++k) e += al * v[k] * xv[c[k]];
        eq<T>(y[i], e, "alpha A x + beta y, A sparse");
    }
}
static void chol_rest() {
    u64 n = 2 + vf_choose("n", 0, 1);
    M<double> l(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) { l(i, j) = in<double>("l"); if (i == j) pos(l(i, j)); }
    auto a = mm(l, tr(l)); auto b = ins<double>(n, "b");
    auto x = solver::DynModCholeskyFactorization<double>(DynMat<double>(n, n, a.a)).solve_linear(DynVec<double>(b));
    auto r = mv(a, std::vector<double>(x.begin(), x.end()));
    for (u64 i = 0; i < n; ++i) eq<double>(r[i], b[i], "solution of A x = b");
}
// @run mode=real cfg=omp,ompacc
ENTRY(h_vec_d) TENTRY(vec_core, double)
ENTRY(h_large_d) TENTRY(large, double)
ENTRY(h_largemat_d) TENTRY(large_mat, double)
ENTRY(h_vec_f) TENTRY(vec_core, float)
ENTRY(h_vec_z) TENTRY(vec_core, cd)
ENTRY(h_vec_c) TENTRY(vec_core, cf)
ENTRY(h_alias_d) TENTRY(vec_alias, double)
ENTRY(h_alias_z) TENTRY(vec_alias, cd)
ENTRY(h_sized15_d) TENTRY(sized, double, 15)
ENTRY(h_sized16_d) TENTRY(sized, double, 16)
ENTRY(h_sized33_f) TENTRY(sized, float, 33)
ENTRY(h_sized20_z) TENTRY(sized, cd, 20)
ENTRY(h_mat_d) TENTRY(mat_core, double)
ENTRY(h_mat_f) TENTRY(mat_core, float)
ENTRY(h_mat_z) TENTRY(mat_core, cd)
// @run mode=real cfg=omp
ENTRY(h_vecrest_d) TENTRY(vec_rest, double)
ENTRY(h_vecrest_f) TENTRY(vec_rest, float)
ENTRY(h_vecrest_z) TENTRY(vec_rest, cd)
ENTRY(h_matrest_d) TENTRY(mat_rest, double)
ENTRY(h_matrest_z) TENTRY(mat_rest, cd)
ENTRY(h_matalias_d) TENTRY(mat_alias, double)
ENTRY(h_sprest_d) TENTRY(sp_rest, double)
ENTRY(h_sprest_f) TENTRY(sp_rest, float)
ENTRY(h_chol) { chol_rest(); }
