// @bound histories of up to 3 extensions (thorough 5), each by zeros or by a list, starting from an empty, a reserved (capacity 0..4) or a given matrix of size 1..3; one rejected extension with a list of any other length 0..9 at any point; one history of 70 (140) mixed extensions
// @bound integer elements too (32-bit unsigned over all values, 64-bit signed within +-30000; internal backend) for some of these cases
// @bound two calls in sequence on one path: 16 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside longer histories
#include "sym.h"
#include <cmath>
#include "lalib/mat.hpp"
using namespace lalib;
template<class A, class T> static void cmp(const A& a, const M<T>& e) {
    u(a.shape().first, e.n, "row count"); u(a.shape().second, e.n, "column count");
    for (u64 i = 0; i < e.n; ++i) for (u64 j = 0; j < e.n; ++j) eq<T>(a(i, j), e(i, j), "entry after extension");
}
template<class T> static M<T> grow(const M<T>& e) { M<T> r(e.n + 1, e.n + 1); for (u64 i = 0; i < e.n; ++i) for (u64 j = 0; j < e.n; ++j) r(i, j) = e(i, j); return r; }
template<class A, class T, bool H> static void run(A m, M<T> e) {
    cmp(m, e);
    u64 steps = vf_choose("steps", 1, Q(3, 5)); u64 bad = vf_choose("bad at", 0, steps);   // bad == steps: none
    for (u64 s = 0; s < steps; ++s) {
        u64 n = e.n, need = H ? (n == 0 ? 1 : n + 2) : n + 1;
        if (s == bad) {
            u64 k = vf_choose("bad length", 0, 9); auto v = ins<T>(k, "x");
            if (k != need) { must_throw<std::invalid_argument>([&] { m.extend_with(std::move(v)); }, "an extension of the wrong length is rejected"); cmp(m, e); }
        }
        auto f = grow(e);
        if (vf_choose("how", 0, 1)) { m.extend_with_zero(); }
        else {
            auto v = ins<T>(need, "x"); u64 k = 0;
            if (H && n > 0) f(n, n - 1) = v[k++];
            for (u64 i = 0; i <= n; ++i) f(i, n) = v[k++];
            m.extend_with(std::move(v));
        }
        e = f; cmp(m, e);
        A c(m); cmp(c, e);
    }
    // the extended matrix stays writable at the right places
    u64 i = vf_choose("i", 0, e.n - 1), j = e.n - 1; T w = in<T>("w"); m(i, j) = w; e(i, j) = w; cmp(m, e);
}
// one long history
template<class A, class T, bool H> static void longrun() {
    precision<T>(); A m = vf_choose("reserved", 0, 1) ? A::with_capacity(vf_choose("cap", 0, 1) ? 30 : 5) : A::with_capacity(0); M<T> e(0, 0); u64 ph = vf_choose("phase", 0, 2);
    for (u64 s = 0; s < Q(70, 140); ++s) {
        u64 n = e.n, need = H ? (n == 0 ? 1 : n + 2) : n + 1; auto f = grow(e);
        if (s % 3 == ph) m.extend_with_zero();
        else {
            auto v = few<T>(need, "x", 16); u64 k = 0;
            if (H && n > 0) f(n, n - 1) = v[k++];
            for (u64 i = 0; i <= n; ++i) f(i, n) = v[k++];
            m.extend_with(std::move(v));
        }
        e = f;
    }
    cmp(m, e);
}
template<class T> static void upper() {
    precision<T>();
    u64 start = vf_choose("start", 0, 4); M<T> e(0, 0);
    if (start == 0) { run<DynUpperTriMat<T>, T, false>(DynUpperTriMat<T>(), e); return; }
    if (start == 1) { run<DynUpperTriMat<T>, T, false>(DynUpperTriMat<T>::with_capacity(vf_choose("cap", 0, 4)), e); return; }
    u64 n = start - 1; e = M<T>(n, n); std::vector<T> v;
    for (u64 j = 0; j < n; ++j) for (u64 i = 0; i <= j; ++i) { T x = in<T>("u"); v.push_back(x); e(i, j) = x; }
    run<DynUpperTriMat<T>, T, false>(DynUpperTriMat<T>(std::move(v)), e);
}
template<class T> static void hess() {
    precision<T>();
    u64 start = vf_choose("start", 1, 4); M<T> e(0, 0);
    if (start == 1) { run<HessenbergMat<T>, T, true>(HessenbergMat<T>::with_capacity(vf_choose("cap", 0, 4)), e); return; }
    u64 n = start - 1; e = M<T>(n, n); std::vector<T> v;
    for (u64 j = 0; j < n; ++j) for (u64 i = 0; i <= j + 1 && i < n; ++i) { T x = in<T>("h"); v.push_back(x); e(i, j) = x; }
    run<HessenbergMat<T>, T, true>(HessenbergMat<T>(std::move(v)), e);
}
// @run mode=real cfg=internal
ENTRY(h_upper_double) { upper<double>(); }
ENTRY(h_hess_double) { hess<double>(); }
ENTRY(h_long_upper) { longrun<DynUpperTriMat<double>, double, false>(); }
ENTRY(h_long_hess) { longrun<HessenbergMat<double>, double, true>(); }
// @run mode=real cfg=internal tier=thorough
ENTRY(h_upper_float) { upper<float>(); }
ENTRY(h_hess_float) { hess<float>(); }
// @run mode=real cfg=internal
ENTRY(h_upper_long) { upper<long>(); }
ENTRY(h_hess_uint) { hess<unsigned>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(16, {upper<double>, hess<double>}); }
