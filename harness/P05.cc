// @bound every pair/triple of operand lengths 0..4 (thorough 0..7), every pair out of 15, 16, 17, 20, 32, 64, 65, 257, and every pair out of 128, 256, 1023, 1024, 1025, 4097 with few symbolic elements (triples with two equal), operand values symbolic, fixed-size operands of length 1,2,3
// @bound two calls in sequence on one path: 20 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside cross products (their size rule is only an assertion), matrices (only assertions), larger lengths
#include "sym.h"
#include "lalib/vec.hpp"
using namespace lalib;
using SM = vec_error::SizeMismatched;
static const u64 L = Q(4, 7);
template<class T, class F> static void judge_op(bool match, F&& f, DynVec<T>& r, const std::vector<T>& before, const char* m) {
    int k = raised<SM>(f);
    u((u64)k, match ? 0 : 1, m);
    if (!match) { u(r.size(), before.size(), "length of the result after a rejected call"); for (u64 i = 0; i < before.size(); ++i) same<T>(r[i], before[i], "a rejected call changes nothing"); }
}
// small lengths in every combination, and lengths around block sizes
static const u64 W[] = {15, 16, 17, 20, 32, 64, 65, 257};
static void lens2(u64& a, u64& b) {
    if (!vf_choose("large", 0, 1)) { a = vf_choose("n1", 0, L); b = vf_choose("n2", 0, L); return; }
    a = W[vf_choose("n1", 0, 7)]; b = W[vf_choose("n2", 0, 7)];
}
static void lens3(u64& a, u64& b, u64& c) {
    if (!vf_choose("large", 0, 1)) { a = vf_choose("n1", 0, L); b = vf_choose("n2", 0, L); c = vf_choose("n3", 0, L); return; }
    a = W[vf_choose("n1", 0, 7)]; b = a; c = a;
    u64 d = W[vf_choose("n2", 0, 7)]; switch (vf_choose("odd one", 0, 2)) { case 0: a = d; break; case 1: b = d; break; default: c = d; }
}
template<class T> static void large() {   // mostly fixed elements, lengths around larger block sizes
    precision<T>(); static const u64 B[] = {128, 256, 1023, 1024, 1025, 4097}; u64 n1 = B[vf_choose("n1", 0, 5)], n2 = B[vf_choose("n2", 0, 5)]; auto a = few<T>(n1, "a", n1 / 2), b = few<T>(n2, "b", n2 / 2); DynVec<T> x(a), y(b), r(a); bool ok = n1 == n2;
    switch (vf_choose("op", 0, 6)) {
    case 0: judge_op<T>(ok, [&] { neg(x, y); }, y, b, "neg(x, r) rejects exactly mismatched lengths"); break;
    case 1: judge_op<T>(ok, [&] { T s = in<T>("s"); axpy(s, x, y); }, y, b, "axpy(s, x, y) rejects exactly mismatched lengths"); break;
    case 2: judge_op<T>(ok, [&] { dot(x, y); }, y, b, "dot(x, y) rejects exactly mismatched lengths"); break;
    case 3: judge_op<T>(ok, [&] { add(x, y, r); }, r, a, "add(x, y, r) rejects exactly mismatched lengths"); break;
    case 4: judge_op<T>(ok, [&] { sub(x, r, y); }, y, b, "sub(x, y, r) rejects exactly mismatched lengths"); break;
    case 5: judge_op<T>(ok, [&] { auto z = x + y; }, y, b, "x + y rejects exactly mismatched lengths"); break;
    default: judge_op<T>(ok, [&] { auto z = x - y; }, y, b, "x - y rejects exactly mismatched lengths");
    }
}
template<class T> static void dyn3() {
    precision<T>();
    u64 n1, n2, n3; lens3(n1, n2, n3); u64 op = vf_choose("op", 0, 1);
    auto a = ins<T>(n1, "a"), b = ins<T>(n2, "b"), c = ins<T>(n3, "c");
    DynVec<T> x(a), y(b), r(c);
    bool ok = n1 == n2 && n2 == n3;
    if (op == 0) judge_op<T>(ok, [&] { add(x, y, r); }, r, c, "add(x, y, r) rejects exactly mismatched lengths");
    else judge_op<T>(ok, [&] { sub(x, y, r); }, r, c, "sub(x, y, r) rejects exactly mismatched lengths");
    for (u64 i = 0; i < n1; ++i) same<T>(x[i], a[i], "operand unchanged");
    for (u64 i = 0; i < n2; ++i) same<T>(y[i], b[i], "operand unchanged");
}
template<class T> static void dyn2() {
    precision<T>();
    u64 n1, n2; lens2(n1, n2);
    u64 op = vf_choose("op", 0, 5);
    auto a = ins<T>(n1, "a"), b = ins<T>(n2, "b");
    DynVec<T> x(a), y(b);
    bool ok = n1 == n2;
    switch (op) {
    case 0: judge_op<T>(ok, [&] { neg(x, y); }, y, b, "neg(x, r) rejects exactly mismatched lengths"); break;
    case 1: judge_op<T>(ok, [&] { T s = in<T>("s"); axpy(s, x, y); }, y, b, "axpy(s, x, y) rejects exactly mismatched lengths"); break;
    case 2: judge_op<T>(ok, [&] { dot(x, y); }, y, b, "dot(x, y) rejects exactly mismatched lengths"); break;
    case 3: judge_op<T>(ok, [&] { x.dot(y); }, y, b, "x.dot(y) rejects exactly mismatched lengths"); break;
    case 4: judge_op<T>(ok, [&] { auto z = x + y; }, y, b, "x + y rejects exactly mismatched lengths"); break;
    case 5: judge_op<T>(ok, [&] { auto z = x - y; }, y, b, "x - y rejects exactly mismatched lengths"); break;
    }
    for (u64 i = 0; i < n1; ++i) same<T>(x[i], a[i], "operand unchanged");
}
template<class T, size_t N> static void mix() {
    u64 n = vf_choose("n", 0, L), op = vf_choose("op", 0, 7);
    auto a = ins<T>(N, "a"), c = ins<T>(N, "c"), b = ins<T>(n, "b");
    SizedVec<T, N> x(a), r(c); DynVec<T> y(b);
    bool ok = n == N; int k = 0;
    switch (op) {
    case 0: k = raised<SM>([&] { add(x, y, r); }); break;
    case 1: k = raised<SM>([&] { add(y, x, r); }); break;
    case 2: k = raised<SM>([&] { sub(x, y, r); }); break;
    case 3: k = raised<SM>([&] { sub(y, x, r); }); break;
    case 4: k = raised<SM>([&] { y.dot(x); }); break;
    case 5: k = raised<SM>([&] { x.dot(y); }); break;
    case 6: if (ok) k = 0; else k = raised<std::runtime_error>([&] { SizedVec<T, N> z(b); }); break;
    case 7: k = ok ? 0 : raised<std::exception>([&] { SizedVec<T, N> z{in<T>("i"), in<T>("i"), in<T>("i"), in<T>("i"), in<T>("i")}; }); break;
    }
    u((u64)k, ok ? 0 : 1, "fixed/dynamic operation rejects exactly mismatched lengths");
    if (!ok) for (u64 i = 0; i < N; ++i) same<T>(r[i], c[i], "a rejected call changes nothing");
    for (u64 i = 0; i < n; ++i) same<T>(y[i], b[i], "operand unchanged");
}
template<class T> static void mixes() { precision<T>(); switch (vf_choose("N", 1, 3)) { case 1: mix<T, 1>(); break; case 2: mix<T, 2>(); break; default: mix<T, 3>(); } }
// @run mode=real cfg=internal,blas
ENTRY(h_dyn3_double) { dyn3<double>(); }
ENTRY(h_dyn2_double) { dyn2<double>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_dyn2_float) { dyn2<float>(); }
ENTRY(h_mix_double) { mixes<double>(); }
// @run mode=real cfg=internal
ENTRY(h_dyn3_float) { dyn3<float>(); }
ENTRY(h_mix_float) { mixes<float>(); }
ENTRY(h_dyn3_complex) { dyn3<cd>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(20, {dyn3<double>, dyn2<double>, mixes<double>}); }
