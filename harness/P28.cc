// @bound every public operation on empty operands: vectors of length 0, matrices with 0 rows and/or 0 columns (the other dimension 0..3), structured and sparse matrices without elements, no right-hand sides, systems of size 0, lists of no vectors; after them the same operation on a non-empty operand
// @bound rejected calls (failing factorizations of size 1..3 at every pivot, wrong list lengths, mismatched vectors, writes outside a pattern, out-of-range accesses): nothing leaks, operands and later calls are intact
// @bound configurations: internal, BLAS, LAPACK, accelerator on the host, OpenMP, assertions on
// @assume real arithmetic
// @outside non-empty sizes (see the properties of the single operations)
#include "spm.h"
#include <span>
#include <string>
#include "lalib/ops/mat_ops.hpp"
#include "lalib/ops/mat_vec_ops.hpp"
#include "lalib/ops/mat_mat_ops.hpp"
#include "lalib/ops/orthogonal.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
using namespace lalib::solver;
template<class T> using V = std::vector<T>;
template<class C> static u64 count(const C& c) { u64 k = 0; for ([[maybe_unused]] auto& x : c) ++k; return k; }
template<class T> static void vec() {
    precision<T>(); T s = in<T>("s"); DynVec<T> a((V<T>())), b(a), r = DynVec<T>::filled(0, s), q = DynVec<T>::uninit(0); const DynVec<T>& c = a;
    u(a.size(), 0, "length"); u(count(c), 0, "iteration"); u(count(a), 0, "iteration"); u((u64)(c.cend() - c.cbegin()), 0, "iteration");
    vf_check(&add(a, b, r) == &r, "result"); vf_check(&sub(a, b, r) == &r, "result"); vf_check(&neg(a, r) == &r, "result"); add(a, a, a); sub(a, a, a); neg(a, a); axpy(s, a, b); axpy(s, a, a); scale(s, a);
    u((a + b).size() + (a - b).size() + (-a).size() + (s * a).size() + (a * s).size() + scaled(s, a).size(), 0, "length of a value");
    eq<T>(dot(a, b), T(0), "inner product of empty vectors"); eq<T>(a.dot(b), T(0), "inner product of empty vectors"); eq<T>(a.norm2(), T(0), "norm of an empty vector");
    DynVec<T> d(std::move(a)); u(d.size(), 0, "moved"); d = b; u(d.size(), 0, "assigned"); auto v = ins<T>(2, "v"); DynVec<T> w(v); d = w; eqv(d, v, "assigned"); w = b; u(w.size(), 0, "assigned"); eqv(d, v, "copies are independent");
    SizedVec<T, 0> z((V<T>())), y = z; add(z, y, z); sub(z, y, y); neg(z, y); axpy(s, z, y); scale(s, z); eq<T>(dot(z, y), T(0), "inner product of empty vectors"); eq<T>(z.norm2(), T(0), "norm of an empty vector"); u(z.size(), 0, "length");
    add(z, d = b, y); sub(b, z, y);
    DynVec<T> one(V<T>{s}); u((u64)raised<vec_error::SizeMismatched>([&] { add(b, one, r); }), 1, "empty and non-empty operand"); u((u64)raised<vec_error::SizeMismatched>([&] { add(one, b, one); }), 1, "empty and non-empty operand"); u((u64)raised<vec_error::SizeMismatched>([&] { axpy(s, b, one); }), 1, "empty and non-empty operand"); u((u64)raised<vec_error::SizeMismatched>([&] { (void)dot(one, b); }), 1, "empty and non-empty operand"); eq<T>(one[0], s, "rejected operations change nothing"); u(r.size(), 0, "rejected operations change nothing");
    std::vector<DynVec<T>> l; orth::cgs(l); u(l.size(), 0, "no vectors"); l.emplace_back(v); orth::cgs(l); eqv(l[0], v, "a single vector is unchanged"); std::span<DynVec<T>> sp(l.data(), 0); orth::cgs(sp); eqv(l[0], v, "an empty view");
}
template<class T> static void mat() {
    precision<T>(); u64 n = vf_choose("n", 0, 3), m = vf_choose("m", 0, 3), l = vf_choose("l", 0, 2); vf_assume(n * m * l == 0); T al = in<T>("alpha"), be = in<T>("beta");
    auto a = inm<T>(n, l, "A"), b = inm<T>(l, m, "B"), c = inm<T>(n, m, "C"); DynMat<T> A(n, l, a.a), B(l, m, b.a), C(n, m, c.a), D(C);
    auto w = mm(a, b); eqm(A * B, w, "product with an empty dimension"); for (u64 i = 0; i < n * m; ++i) w.a[i] = al * w.a[i] + be * c.a[i]; mul(al, A, B, be, C); eqm(C, w, "product with an empty dimension");
    auto x = ins<T>(l, "x"), y = ins<T>(n, "y"); auto z = mv(a, x); DynVec<T> vx(x), vy(y); eqv(A * vx, z, "product with an empty dimension"); for (u64 i = 0; i < n; ++i) z[i] = al * z[i] + be * y[i]; mul(al, A, vx, be, vy); eqv(vy, z, "product with an empty dimension");
    auto e = c; add(D, D, D); for (auto& v : e.a) v = v + v; eqm(D, e, "sum"); sub(D, D, D); for (auto& v : e.a) v = T(0); eqm(D, e, "difference"); D = DynMat<T>(n, m, c.a); scale(al, D); e = c; for (auto& v : e.a) v = al * v; eqm(D, e, "scaling"); eqm(al * DynMat<T>(n, m, c.a), e, "scaling"); for (auto& v : e.a) v = -v; eqm(-D, e, "negation"); u((D + D).shape().first, n, "rows"); u((D - D).shape().second, m, "columns");
    if (n == 0) { auto I = DynMat<T>::identity(0); u(I.shape().first, 0, "identity of size 0"); u(count(I), 0, "identity of size 0"); auto G = DynMat<T>::diag(V<T>()); u(G.shape().second, 0, "empty diagonal"); auto F = DynMat<T>::filled(al, 0, m); u(F.shape().first, 0, "rows"); u(F.shape().second, m, "columns"); I = I * I + I - I; u(I.shape().first, 0, "size"); }
    DynMat<T> E(std::move(D)); D = E; u(D.shape().first, n, "assigned"); u(D.shape().second, m, "assigned"); u(count(D), n * m, "assigned");
}
template<class T> static void structured() {
    precision<T>(); T s = in<T>("s"); V<T> e;
    DynTriDiagMat<T> t(e, e, e); u(t.shape().first, 0, "rows"); u(t.shape().second, 0, "columns"); DynLowerTriMat<T> lo(0, V<T>()); u(lo.shape().first, 0, "rows"); DynHermiteMat<T> he(0, V<T>()); u(he.shape().second, 0, "columns"); auto lm = he.into_lower_mat(); u(lm.shape().first, 0, "rows");
    DynUpperTriMat<T> up((V<T>())); u(up.shape().first, 0, "rows"); up.back_sub(e); u(e.size(), 0, "back substitution of size 0"); auto cap = DynUpperTriMat<T>::with_capacity(0); cap.extend_with(V<T>{s}); eq<T>(cap(0, 0), s, "extension of an empty matrix"); up.extend_with_zero(); u(up.shape().first, 1, "rows"); eq<T>(up(0, 0), T(0), "extension by zeros");
    auto h = HessenbergMat<T>::with_capacity(0); u(h.shape().first, 0, "rows"); h.extend_with_zero(); u(h.shape().first, 1, "rows"); eq<T>(h(0, 0), T(0), "extension by zeros");
    int q = raised<std::exception>([&] { up.extend_with(V<T>(4, s)); }); u((u64)q, 1, "list of the wrong length"); u(up.shape().first, 1, "rejected extensions change nothing"); q = raised<std::exception>([&] { lo.mut_at(0, 1) = s; }); 
    u((u64)raised<std::exception>([&] { DynUpperTriMat<T> bad(V<T>(2, s)); }), 1, "no triangle has two elements");
}
template<class T> static void sparse() {
    precision<T>(); T s = in<T>("s"); V<T> e; V<u64> z; SpCooMat<T> c(e, z, z), d; SpMat<T> p(c), q; u(c.nnz() + d.nnz() + p.nnz() + q.nnz(), 0, "no elements"); u(c.shape().first + c.shape().second + p.shape().first + p.shape().second, 0, "no rows, no columns");
    eq<T>(c(0, 0), T(0), "reads zero"); eq<T>(p(0, 0), T(0), "reads zero"); eq<T>(c.at(3, 1), T(0), "reads zero"); u((u64)raised<std::out_of_range>([&] { c.mut_at(0, 0) = s; }), 1, "nothing can be written"); u((u64)raised<std::out_of_range>([&] { p.mut_at(0, 0) = s; }), 1, "nothing can be written");
    c += d; c += c; u((c + d).nnz() + (c - d).nnz(), 0, "sum of empty matrices"); scale(s, c); scale(s, p); u((s * c).nnz() + (s * p).nnz() + (-c).nnz() + (-p).nnz(), 0, "scaled");
    DynVec<T> v((V<T>())); u((p * v).size(), 0, "product"); mul(s, p, v, s, v); u(v.size(), 0, "product"); auto un = SpCooMat<T>::unit(0); u(un.nnz(), 0, "unit of size 0"); auto us = SpMat<T>::unit(0); u(us.nnz(), 0, "unit of size 0");
    u64 r = vf_choose("row", 0, 2), k = vf_choose("column", 0, 2); SpCooMat<T> o(V<T>{s}, V<u64>{r}, V<u64>{k}); Ent<T> oe; oe.v = {s}; oe.r = {r}; oe.c = {k}; fin(oe); auto im = image(oe, 4, 4); c += o; coo_is(c, im, 3, 1, "adding to an empty matrix"); o += d; coo_is(o, im, 3, 1, "adding an empty matrix"); coo_is(d + o, im, 3, 1, "sum with an empty matrix"); csr_is(SpMat<T>(c), oe, "one element"); SpMat<T> g(std::move(o)); p = g; csr_is(p, oe, "assigned"); g = q; u(g.nnz(), 0, "assigned"); csr_is(p, oe, "copies are independent");
}
template<class T> static void solvers() {
    precision<T>(); DynVec<T> e((V<T>())); 
    { DynCholeskyFactorization<T> f(DynMat<T>(0, 0, V<T>())); u(f.solve_linear(e).size(), 0, "system of size 0"); f.solve_linear_mut(e); DynMat<T> b(0, 2, V<T>()); f.solve_linear_mut(b); u(b.shape().second, 2, "columns"); }
    { DynModCholeskyFactorization<T> f(DynMat<T>(0, 0, V<T>())); u(f.solve_linear(e).size(), 0, "system of size 0"); f.solve_linear_mut(e); }
    { DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(0, V<T>())); u(f.solve_linear(e).size(), 0, "system of size 0"); f.solve_linear_mut(e); }
    { V<T> z; TriDiag<DynTriDiagMat<T>> s(DynTriDiagMat<T>(z, z, z)); DynVec<T> r(e); s.solve_linear(e, r); s.solve_linear(r, r); u(r.size(), 0, "system of size 0"); }
    u64 n = vf_choose("n", 1, 3); M<T> l(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) { l(i, j) = in<T>("l"); if (i == j) pos<T>(l(i, j)); } auto a = mm(l, tr(l)); DynMat<T> no(n, 0, V<T>()); auto x = ins<T>(n, "x"); DynVec<T> b(mv(a, x));
    { DynCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); auto s = f.solve_linear(no); u(s.shape().first, n, "no right-hand sides"); u(s.shape().second, 0, "no right-hand sides"); f.solve_linear_mut(no); eqv(f.solve_linear(b), x, "solution afterwards"); }
    { DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); f.solve_linear_mut(no); eqv(f.solve_linear(b), x, "solution afterwards"); }
    { TriDiag<DynTriDiagMat<T>> s(DynTriDiagMat<T>(V<T>(n - 1, T(0)), V<T>(n, T(2)), V<T>(n - 1, T(0)))); s.solve_linear(no, no); DynVec<T> r(x); s.solve_linear(r, r); auto h = x; for (auto& v : h) v = v / T(2); eqv(r, h, "solution afterwards"); }
}
template<class T> static void iter() {
    precision<T>(); DynVec<T> e((V<T>())); T tol = in<T>("tol"); pos<T>(tol);
    { Ilu<T, DynMat<T>> s(DynMat<T>(0, 0, V<T>())); u(s.solve(e).size(), 0, "system of size 0"); } { Ilu<T, SpMat<T>> s((SpMat<T>())); u(s.solve(e).size(), 0, "system of size 0"); }
    { Gmres<T, DynMat<T>> g(DynMat<T>(0, 0, V<T>()), tol); u(g.solve(e).size(), 0, "system of size 0"); } { Gmres<T, SpMat<T>> g(SpMat<T>(), tol); u(g.solve(e).size(), 0, "system of size 0"); }
}
template<class T> static void rejected() {   // failing constructions release what they own
    precision<T>(); u64 n = vf_choose("n", 1, 3), k = vf_choose("k", 0, n - 1); M<T> a(n, n); for (u64 i = 0; i < n; ++i) a(i, i) = i == k ? T(0) : T(2); T t = in<T>("t");
    u((u64)raised<std::runtime_error>([&] { DynCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); }), 1, "not positive definite"); u((u64)raised<std::runtime_error>([&] { DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a.a)); }), 1, "zero pivot");
    V<T> p; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) p.push_back(a(i, j)); u((u64)raised<std::runtime_error>([&] { DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, std::move(p))); }), 1, "not positive definite");
    u((u64)raised<std::runtime_error>([&] { Ilu<T, DynMat<T>> f(DynMat<T>(n, n, a.a)); }), 1, "zero pivot"); u((u64)raised<std::runtime_error>([&] { Gmres<T, DynMat<T>> f(DynMat<T>(n, n, a.a), T(1)); }), 1, "zero pivot");
    u((u64)raised<std::runtime_error>([&] { SpCooMat<T> c(V<T>(n, t), V<u64>(n, 0), V<u64>(n + 1, 0)); }), 1, "lists of different lengths"); u((u64)raised<std::exception>([&] { SpMat<T> c(V<T>(n, t), V<u64>{0, n}, V<u64>(n + 1, 0)); }), 1, "lists of different lengths");
    u((u64)raised<std::runtime_error>([&] { SizedVec<T, 2> v(V<T>(n == 2 ? 5 : n, t)); }), 1, "list of the wrong length"); u((u64)raised<std::runtime_error>([&] { SizedMat<T, 2, 2> v(V<T>(n, t)); }), 1, "list of the wrong length");
    u((u64)raised<std::runtime_error>([&] { SizedVec<T, 4> v{t, t}; }), 1, "list of the wrong length"); u((u64)raised<std::runtime_error>([&] { SizedMat<T, 2, 2> v{t, t, t}; }), 1, "list of the wrong length");
}
// @run mode=real cfg=internal,blas,lapack,accel,omp,dbg
ENTRY(h_vec_double) { vec<double>(); }
ENTRY(h_mat_double) { mat<double>(); }
ENTRY(h_solvers_double) { solvers<double>(); }
ENTRY(h_rejected_double) { rejected<double>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_vec_float) { vec<float>(); }
ENTRY(h_mat_float) { mat<float>(); }
ENTRY(h_solvers_float) { solvers<float>(); }
// @run mode=real cfg=internal,dbg
ENTRY(h_structured_double) { structured<double>(); }
ENTRY(h_sparse_double) { sparse<double>(); }
ENTRY(h_iter_double) { iter<double>(); }
ENTRY(h_iter_float) { iter<float>(); }
