// @bound every list of 0..2 independent vectors of length 1..4 (thorough 1..6) and 3 vectors of length 3; 5, 6 and 10 vectors of length 5, 8, 17 and 20 given as triangular combinations of axis vectors; 33, 40, 20 and 5 vectors of length 33, 65, 130 and 257, mostly fixed; every basis of 3-space and 4-space given as an arbitrary orthogonal frame (quaternion parameters and arbitrary lengths) times an arbitrary invertible triangular matrix; std::vector, std::array and span containers of dynamic and fixed-size vectors (fixed sizes up to 33)
// @bound two calls in sequence on one path: 12 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume vectors are linearly independent, real arithmetic
// @outside complex vectors, more than 4 vectors of general direction, loss of orthogonality by rounding
#include "sym.h"
#include <cmath>
#include <span>
#include "lalib/vec.hpp"
#include "lalib/ops/orthogonal.hpp"
using namespace lalib;
template<class T> static T dp(const std::vector<T>& a, const std::vector<T>& b) { T s = T(0); for (u64 i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
template<class C> static auto vals(const C& c) { using T = typename C::ElemType; std::vector<T> v; for (u64 i = 0; i < c.size(); ++i) v.push_back(c[i]); return v; }
template<class T> static void direct() {
    precision<T>();
    u64 m = vf_choose("m", 0, 3), n = m == 3 ? 3 : vf_choose("n", m == 0 ? 1 : m, Q(4, 6)); std::vector<std::vector<T>> v; std::vector<DynVec<T>> c;
    for (u64 k = 0; k < m; ++k) { v.push_back(m == 3 && k < 2 ? std::vector<T>{T(1), in<T>("v"), T((double)k)} : ins<T>(n, "v")); c.emplace_back(v[k]); }
    if (m > 0) nz<T>(dp(v[0], v[0]));
    if (m > 1) nz<T>(dp(v[0], v[0]) * dp(v[1], v[1]) - dp(v[0], v[1]) * dp(v[0], v[1]));
    orth::cgs(c); u(c.size(), m, "number of vectors");
    std::vector<std::vector<T>> w; for (auto& x : c) { w.push_back(vals(x)); u(x.size(), n, "vector length"); }
    for (u64 k = 0; k < m; ++k) { for (u64 j = 0; j < k; ++j) { eq<T>(dp(w[j], w[k]), T(0), "orthogonal"); eq<T>(dp(v[j], w[k]), T(0), "orthogonal to every earlier vector"); } eq<T>(dp(v[k], w[k]), dp(w[k], w[k]), "only components along earlier vectors are removed"); }
    for (u64 i = 0; i < n && m > 0; ++i) eq<T>(w[0][i], v[0][i], "the first vector is kept");
}
// orthogonal frames
template<class T> static std::vector<std::vector<T>> frame(u64 n) {
    T a = in<T>("a"), b = in<T>("b"), c = in<T>("c"), d = in<T>("d"); nz<T>(a * a + b * b + c * c + d * d);
    if (n == 4) return {{a, b, c, d}, {-b, a, d, -c}, {-c, -d, a, b}, {-d, c, -b, a}};
    if (n == 3) return {{a * a + b * b - c * c - d * d, T(2) * (b * c + a * d), T(2) * (b * d - a * c)}, {T(2) * (b * c - a * d), a * a - b * b + c * c - d * d, T(2) * (c * d + a * b)}, {T(2) * (b * d + a * c), T(2) * (c * d - a * b), a * a - b * b - c * c + d * d}};
    return {{a, b}, {-b, a}};
}
template<class T> static std::vector<std::vector<T>> basis(const std::vector<std::vector<T>>& q, u64 m, std::vector<std::vector<T>>& e) {
    std::vector<std::vector<T>> v; u64 n = q[0].size();
    for (u64 k = 0; k < m; ++k) { std::vector<T> x(n, T(0)), y(n); for (u64 j = 0; j <= k; ++j) { T r = in<T>("r"); if (j == k) nz<T>(r); for (u64 i = 0; i < n; ++i) { x[i] = x[i] + r * q[j][i]; if (j == k) y[i] = r * q[k][i]; } } v.push_back(x); e.push_back(y); }
    return v;
}
template<class T> static void frames() {
    precision<T>();
    u64 n = vf_choose("n", 2, 4), m = vf_choose("m", 1, 4); vf_assume(m <= n); auto q = frame<T>(n); if (n == 2) nz<T>(q[0][0] * q[0][0] + q[0][1] * q[0][1]);
    std::vector<std::vector<T>> e; auto v = basis(q, m, e); std::vector<DynVec<T>> c; for (auto& x : v) c.emplace_back(x);
    if (vf_choose("container", 0, 1)) orth::cgs(c); else { std::span<DynVec<T>> s(c); orth::cgs(s); }
    for (u64 k = 0; k < m; ++k) eqv(c[k], e[k], "orthogonalized basis");
}
template<class T> static void axes() {   // q: scaled axis vectors in a permuted order; v: triangular combinations
    precision<T>(); u64 c = vf_choose("size", 0, 3), n = c == 0 ? 5 : c == 1 ? 8 : c == 2 ? 17 : 20, m = c == 0 ? 5 : c == 1 ? 6 : 10; std::vector<std::vector<T>> q(m, std::vector<T>(n, T(0))), v, e; for (u64 k = 0; k < m; ++k) q[k][(k * 3 + 2) % n] = T(1);
    for (u64 k = 0; k < m; ++k) { std::vector<T> x(n, T(0)), y(n, T(0)); for (u64 j = 0; j <= k; ++j) { T r = in<T>("r"); if (j == k) nz<T>(r); u64 i = (j * 3 + 2) % n; x[i] = r; if (j == k) y[i] = r; } v.push_back(x); e.push_back(y); }
    std::vector<DynVec<T>> d; for (auto& x : v) d.emplace_back(x); orth::cgs(d); for (u64 k = 0; k < m; ++k) eqv(d[k], e[k], "orthogonalized basis");
}
template<class T> static void many() {   // more and longer vectors: axis directions, combinations mostly fixed
    precision<T>(); u64 c = vf_choose("size", 0, 3), n = c == 0 ? 33 : c == 1 ? 65 : c == 2 ? 130 : 257, m = c == 0 ? 33 : c == 1 ? 40 : c == 2 ? 20 : 5; std::vector<std::vector<T>> v, e; auto at = [&](u64 j) { return (j * 8 + 2) % n; };
    for (u64 k = 0; k < m; ++k) { std::vector<T> x(n, T(0)), y(n, T(0)); for (u64 j = 0; j <= k; ++j) { T r = (k * 7 + j) % 97 == 3 && j < k ? in<T>("r") : j == k ? T((double)(k % 3) + 1) : fix<T>(k + 5 * j) / T(64); x[at(j)] = r; if (j == k) y[at(j)] = r; } v.push_back(x); e.push_back(y); }
    std::vector<DynVec<T>> d; for (auto& x : v) d.emplace_back(x); orth::cgs(d); for (u64 k = 0; k < m; ++k) eqv(d[k], e[k], "orthogonalized basis");
}
template<class T> static void fixed() {
    precision<T>();
    auto q = frame<T>(3); std::vector<std::vector<T>> e; auto v = basis(q, 3, e);
    std::array<SizedVec<T, 3>, 3> c{SizedVec<T, 3>(v[0]), SizedVec<T, 3>(v[1]), SizedVec<T, 3>(v[2])}; orth::cgs(c); for (u64 k = 0; k < 3; ++k) eqv(c[k], e[k], "orthogonalized basis (fixed size)");
    std::vector<SizedVec<T, 3>> d{SizedVec<T, 3>(v[0]), SizedVec<T, 3>(v[1])}; orth::cgs(d); for (u64 k = 0; k < 2; ++k) eqv(d[k], e[k], "orthogonalized basis (fixed size)");
}
template<class T, size_t N, size_t K> static void fixed_axes() {   // scaled axis vectors, triangular combinations, fixed-size vectors
    std::vector<SizedVec<T, N>> d; std::vector<std::vector<T>> e; for (u64 k = 0; k < K; ++k) { std::vector<T> x(N, T(0)), y(N, T(0)); for (u64 j = 0; j <= k; ++j) { T r = in<T>("r"); if (j == k) nz<T>(r); u64 i = (j * 2 + 1) % N; x[i] = r; if (j == k) y[i] = r; } d.emplace_back(x); e.push_back(y); }
    if (vf_choose("container", 0, 1)) orth::cgs(d); else { std::span<SizedVec<T, N>> s(d); orth::cgs(s); } for (u64 k = 0; k < K; ++k) eqv(d[k], e[k], "orthogonalized basis (fixed size)");
}
template<class T> static void fixed_more() { precision<T>(); switch (vf_choose("size", 0, 4)) { case 0: fixed_axes<T, 1, 1>(); break; case 1: fixed_axes<T, 5, 5>(); break; case 2: fixed_axes<T, 9, 4>(); break; case 3: fixed_axes<T, 17, 8>(); break; default: fixed_axes<T, 33, 3>(); } }
// @run mode=real cfg=internal,blas
ENTRY(h_direct_double) { direct<double>(); }
ENTRY(h_frames_double) { frames<double>(); }
ENTRY(h_frames_float) { frames<float>(); }
ENTRY(h_axes_double) { axes<double>(); }
ENTRY(h_many_double) { many<double>(); }
ENTRY(h_fixed_double) { fixed<double>(); }
ENTRY(h_fixedmore_double) { fixed_more<double>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(12, {direct<double>, frames<double>, axes<double>}); }
