// @bound sizes 0..6 (thorough 0..8), 9, 12, 15, 16, 17, 20, 24, 32, 33 (64, 65, 100, 129 with part of the elements symbolic), every right-hand side, any diagonal without zeros; std::vector, std::span, DynVec and SizedVec storage, and a view of a prefix
// @bound two calls in sequence on one path: 16 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume diagonal entries nonzero; real arithmetic
// @outside larger sizes, rounding error
#include "sym.h"
#include <cmath>
#include <span>
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
using namespace lalib;
template<class T> static void mk(u64 n, std::vector<T>& v, M<T>& e) {
    e = M<T>(n, n);
    for (u64 j = 0; j < n; ++j) for (u64 i = 0; i <= j; ++i) { T x = in<T>("u"); if (i == j) nz<T>(x); v.push_back(x); e(i, j) = x; }
}
template<class T> static void bs() {
    precision<T>();
    static const u64 BIG[] = {9, 12, 15, 16, 17, 20, 24, 32, 33};
    u64 n = vf_choose("n", 0, Q(6, 8) + 9); if (n > Q(6, 8)) n = BIG[n - Q(6, 8) - 1];
    std::vector<T> v; M<T> e; mk(n, v, e);
    auto x = ins<T>(n, "x"); auto y = mv(e, x);
    auto w = v; const DynUpperTriMat<T> U(std::move(w));
    switch (vf_choose("storage", 0, 3)) {
    case 0: { auto z = y; U.back_sub(z); for (u64 i = 0; i < n; ++i) eq<T>(z[i], x[i], "solution of U x = y (std::vector)"); u(z.size(), n, "size kept"); break; }
    case 1: { auto z = y; U.back_sub(std::span<T>(z)); for (u64 i = 0; i < n; ++i) eq<T>(z[i], x[i], "solution of U x = y (std::span)"); break; }
    case 2: { DynVec<T> z(y); U.back_sub(z); for (u64 i = 0; i < n; ++i) eq<T>(z[i], x[i], "solution of U x = y (DynVec)"); break; }
    default: { auto z = y; T t = in<T>("tail"); z.push_back(t); U.back_sub(z | std::views::take(n)); for (u64 i = 0; i < n; ++i) eq<T>(z[i], x[i], "solution of U x = y (prefix view)"); eq<T>(z[n], t, "elements after the prefix are untouched"); }
    }
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) eq<T>(U(i, j), e(i, j), "matrix unchanged");
}
template<class T> static void large() {   // mostly fixed elements
    precision<T>(); static const u64 B[] = {64, 65, 100, 129, 260}; u64 n = B[vf_choose("n", 0, Q(3, 4))]; std::vector<T> v; M<T> e(n, n); for (u64 j = 0; j < n; ++j) for (u64 i = 0; i <= j; ++i) { bool s = i == j ? i % 64 == 3 : (i + 3 * j) % 97 == 5 && j % 8 == 1; T x = s ? in<T>("u") : fix<T>(i + 7 * j); if (i == j && s) nz<T>(x); v.push_back(x); e(i, j) = x; }
    auto x = few<T>(n, "x", n / 3); auto y = mv(e, x); DynUpperTriMat<T> U(std::move(v)); if (vf_choose("storage", 0, 1)) { U.back_sub(y); for (u64 i = 0; i < n; ++i) eq<T>(y[i], x[i], "solution of U x = y (std::vector)"); } else { DynVec<T> z(y); U.back_sub(z); eqv(z, x, "solution of U x = y (DynVec)"); }
}
template<class T> static void residual() {
    precision<T>();
    u64 n = vf_choose("n", 1, Q(4, 5)); std::vector<T> v; M<T> e; mk(n, v, e);
    auto y = ins<T>(n, "y"); auto z = y; DynUpperTriMat<T> U(std::move(v)); U.back_sub(z);
    auto r = mv(e, z); for (u64 i = 0; i < n; ++i) eq<T>(r[i], y[i], "U x equals the right-hand side");
    auto z2 = y; U.back_sub(z2); for (u64 i = 0; i < n; ++i) eq<T>(z2[i], z[i], "a second solve gives the same solution");
}
template<class T> static void rejects() {
    precision<T>();
    u64 n = vf_choose("n", 0, 5), k = vf_choose("k", 0, 6); std::vector<T> v; M<T> e; mk(n, v, e); auto y = ins<T>(k, "y"); auto z = y;
    DynUpperTriMat<T> U(std::move(v)); int r = raised<std::invalid_argument>([&] { U.back_sub(z); });
    u((u64)r, n == k ? 0 : 1, "a right-hand side of another length is rejected");
    if (n != k) for (u64 i = 0; i < k; ++i) eq<T>(z[i], y[i], "a rejected call changes nothing");
}
// @run mode=real cfg=internal
ENTRY(h_bs_double) { bs<double>(); }
ENTRY(h_bs_float) { bs<float>(); }
ENTRY(h_large_double) { large<double>(); }
ENTRY(h_large_float) { large<float>(); }
ENTRY(h_residual_double) { residual<double>(); }
ENTRY(h_rejects_double) { rejects<double>(); }
ENTRY(h_rejects_float) { rejects<float>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(16, {bs<double>, residual<double>}); }
