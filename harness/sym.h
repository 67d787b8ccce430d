// Harness API. Under the symbolic engine these functions introduce symbolic values and obligations; in a
// native build (native/native.cc) the same harness runs on the real compiled library with recorded values.
#pragma once
#include <array>
#include <cassert>
#include <complex>
#include <cmath>
#include <cstddef>
#include <exception>
#include <initializer_list>
#include <stdexcept>
#include <utility>
#include <vector>

extern "C" {
double vf_real(const char*);
float vf_realf(const char*);
unsigned long vf_u64(const char*, unsigned long lo, unsigned long hi);      // symbolic integer
unsigned long vf_choose(const char*, unsigned long lo, unsigned long hi);   // one path per value
unsigned long vf_concretize(unsigned long);
void vf_assume(bool);
void vf_assume_pos(double); void vf_assume_posf(float);
void vf_assume_nz(double); void vf_assume_nzf(float);
void vf_assume_nonneg(double);
void vf_check(bool, const char*);
void vf_check_u64(unsigned long, unsigned long, const char*);
void vf_check_eq(double, double, const char*); void vf_check_eqf(float, float, const char*);
void vf_check_same(double, double, const char*); void vf_check_samef(float, float, const char*);
void vf_reach(const char*);
void vf_fail(const char*);
void vf_float_mode();
void vf_leak_ok();
void vf_reuse();
void vf_flush();
bool vf_is_nan(double);
bool vf_is_finite(double);
int vf_symbolic();
}

#ifdef VF_THOROUGH
#define Q(q, t) (t)
#else
#define Q(q, t) (q)
#endif
#define ENTRY(name) extern "C" void name()
#define TENTRY(fn, ...) { fn<__VA_ARGS__>(); }

namespace vf {
using u64 = unsigned long;
using cd = std::complex<double>;
using cf = std::complex<float>;

template<class T> struct real_of { using type = T; };
template<class T> struct real_of<std::complex<T>> { using type = T; };

template<class T> inline T in(const char* n) {
    if constexpr (std::is_same_v<T, float>) return vf_realf(n);
    else if constexpr (std::is_same_v<T, double>) return vf_real(n);
    else if constexpr (std::is_integral_v<T>) return (T)(vf_u64(n, 0, std::is_signed_v<T> ? 60000 : 0xffffffff) - (std::is_signed_v<T> ? 30000 : 0));   // signed: sums and products stay in range
    else { using R = typename real_of<T>::type; R a = in<R>(n); R b = in<R>(n); return T(a, b); }
}
template<class T> inline void eq(T a, T b, const char* m) {
    if constexpr (std::is_same_v<T, float>) vf_check_eqf(a, b, m);
    else if constexpr (std::is_same_v<T, double>) vf_check_eq(a, b, m);
    else if constexpr (std::is_integral_v<T>) vf_check_u64((u64)a, (u64)b, m);
    else { eq(a.real(), b.real(), m); eq(a.imag(), b.imag(), m); }
}
template<class T> inline void same(T a, T b, const char* m) {
    if constexpr (std::is_same_v<T, float>) vf_check_samef(a, b, m);
    else if constexpr (std::is_same_v<T, double>) vf_check_same(a, b, m);
    else if constexpr (std::is_integral_v<T>) vf_check_u64((u64)a, (u64)b, m);
    else { same(a.real(), b.real(), m); same(a.imag(), b.imag(), m); }
}
template<class T> inline void nz(T a) {
    if constexpr (std::is_same_v<T, float>) vf_assume_nzf(a);
    else if constexpr (std::is_same_v<T, double>) vf_assume_nz(a);
    else { using R = typename real_of<T>::type; R n = a.real() * a.real() + a.imag() * a.imag(); nz<R>(n); }
}
template<class T> inline void pos(T a) {
    if constexpr (std::is_same_v<T, float>) vf_assume_posf(a); else vf_assume_pos(a);
}
template<class T> inline void precision() {
    if constexpr (std::is_same_v<typename real_of<T>::type, float>) vf_float_mode();
}
template<class T> inline std::vector<T> ins(u64 n, const char* nm) {
    std::vector<T> v; v.reserve(n);
    for (u64 i = 0; i < n; ++i) v.push_back(in<T>(nm));
    return v;
}
inline void u(u64 a, u64 b, const char* m) { vf_check_u64(a, b, m); }
// large objects: fixed distinct nonzero values, every k-th element symbolic
template<class T> inline T fix(u64 i) { return T((double)((i * 37 + 11) % 61) - 30.5); }
template<class T> inline std::vector<T> few(u64 n, const char* nm, u64 k = 64) {
    std::vector<T> v; v.reserve(n);
    for (u64 i = 0; i < n; ++i) v.push_back(i % (k ? k : 1) == k / 2 || i + 1 == n ? in<T>(nm) : fix<T>(i));
    return v;
}

// plain dense oracle matrix
template<class T> struct M {
    u64 n = 0, m = 0; std::vector<T> a;
    M() {}
    M(u64 n_, u64 m_) : n(n_), m(m_), a(n_ * m_, T(0)) {}
    std::vector<T> col(u64 j) const { std::vector<T> r; for (u64 i = 0; i < n; ++i) r.push_back((*this)(i, j)); return r; }
    T& operator()(u64 i, u64 j) { return a[i * m + j]; }
    const T& operator()(u64 i, u64 j) const { return a[i * m + j]; }
};
template<class T> inline M<T> inm(u64 n, u64 m, const char* nm) {
    M<T> r(n, m); for (auto& x : r.a) x = in<T>(nm); return r;
}
template<class F> inline void spots(u64 n, u64 m, F f) {   // positions at the ends and around powers of two
    auto pick = [](u64 k) { std::vector<u64> r; for (u64 i = 0; i < k; ++i) if (i < 3 || i + 2 >= k || i == k / 2 || i == k / 3 || ((i & (i - 1)) == 0 || (i & (i + 1)) == 0 ? i >= 15 : false)) r.push_back(i); return r; };
    auto a = pick(n), b = pick(m); for (u64 i : a) for (u64 j : b) f(i, j);
}
template<class T> inline M<T> fewm(u64 n, u64 m, const char* nm, u64 k = 64) { M<T> r(n, m); r.a = few<T>(n * m, nm, k); return r; }
template<class T> inline M<T> mm(const M<T>& a, const M<T>& b) {
    M<T> r(a.n, b.m);
    for (u64 i = 0; i < a.n; ++i) for (u64 j = 0; j < b.m; ++j) for (u64 k = 0; k < a.m; ++k) r(i, j) += a(i, k) * b(k, j);
    return r;
}
template<class T> inline std::vector<T> mv(const M<T>& a, const std::vector<T>& x) {
    std::vector<T> r(a.n, T(0));
    for (u64 i = 0; i < a.n; ++i) for (u64 k = 0; k < a.m; ++k) r[i] += a(i, k) * x[k];
    return r;
}
template<class T> inline M<T> tr(const M<T>& a) {
    M<T> r(a.m, a.n); for (u64 i = 0; i < a.n; ++i) for (u64 j = 0; j < a.m; ++j) r(j, i) = a(i, j); return r;
}
template<class V, class T> inline void eqv(const V& v, const std::vector<T>& w, const char* m) {
    u(v.size(), w.size(), m);
    for (u64 i = 0; i < w.size(); ++i) eq<T>(v[i], w[i], m);
}
template<class A, class T> inline void eqm(const A& a, const M<T>& w, const char* m) {
    auto s = a.shape();
    u(s.first, w.n, m); u(s.second, w.m, m);
    for (u64 i = 0; i < w.n; ++i) for (u64 j = 0; j < w.m; ++j) eq<T>(a(i, j), w(i, j), m);
}
// 0: returned normally, 1: exception of type E, 2: another exception
template<class E, class F> inline int raised(F&& f) {
    try { f(); return 0; } catch (const E&) { return 1; } catch (...) { return 2; }
}
template<class E, class F> inline void must_throw(F&& f, const char* m) { vf_check(raised<E>(f) == 1, m); }
// f(l, r) with every value category of the operands (lvalue, const lvalue, temporary); l and r are copies of x and y
#define FW(x) std::forward<decltype(x)>(x)
template<class X, class Y, class F, class G> inline void cats(const X& x, const Y& y, F f, G intact) {
    X a(x); Y b(y); const X& ca = a; const Y& cb = b;
    switch (vf_choose("value categories", 0, 8)) {
    case 0: f(a, b); break;
    case 1: f(ca, cb); break;
    case 2: f(X(a), b); break;
    case 3: f(a, Y(b)); break;
    case 4: f(X(a), Y(b)); break;
    case 5: f(X(a), cb); break;
    case 6: f(ca, Y(b)); break;
    case 7: { X c(a); f(std::move(c), b); break; }
    default: { Y d(b); f(a, std::move(d)); break; }
    }
    intact(a, b);
}
template<class X, class F, class G> inline void cats1(const X& x, F f, G intact) {
    X a(x); const X& ca = a;
    switch (vf_choose("value category", 0, 3)) {
    case 0: f(a); break;
    case 1: f(ca); break;
    case 2: f(X(a)); break;
    default: { X c(a); f(std::move(c)); break; }
    }
    intact(a);
}
// In twice() every choice is a fixed function of the combination and of the number of choices made before it.
inline u64 tw_on = 0, tw_seed = 0, tw_k = 0;
inline u64 pick(const char* n, u64 lo, u64 hi) {
    if (!tw_on) return vf_choose(n, lo, hi);
    u64 h = (tw_seed + 1) * 0x9e3779b97f4a7c15ul + ++tw_k * 0xbf58476d1ce4e5b9ul; h ^= h >> 29; h *= 0x94d049bb133111ebul; h ^= h >> 32;
    return lo + h % (hi - lo + 1);
}
// two bodies one after the other on one path, each with values of its own: nothing may be carried from the first to the second.
// Combinations: the same body with the same choices or with others, different bodies; memory reused or not
inline void twice(u64 n, std::initializer_list<void (*)()> fs) {
    u64 s = vf_choose("combination", 0, n - 1), k = fs.size(), i = (s / 4) % k, j = s & 2 ? (i + (s / (4 * k)) % k) % k : i;
    if (s & 1) vf_reuse();
    tw_on = 1; tw_seed = s; tw_k = 0; fs.begin()[i](); tw_k = 0; if (s & 2) tw_seed += 1000; fs.begin()[j](); tw_on = 0;
}
template<class F> inline void must_raise(F&& f, const char* m) { vf_check(raised<std::exception>(f) == 1, m); }
}
using namespace vf;
#define vf_choose vf::pick
