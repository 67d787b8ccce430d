// engine self-test: library features a change may start to use (not a property; ./check.sh T99 quick)
#include "spm.h"
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <list>
#include <forward_list>
#include <deque>
#include <queue>
#include <stack>
#include <valarray>
#include <bitset>
#include <optional>
#include <variant>
#include <any>
#include <functional>
#include <memory>
#include <memory_resource>
#include <sstream>
#include <string>
#include <mutex>
#include <atomic>
#include <random>
#include <algorithm>
#include <numeric>
#include <execution>
#include <iostream>
#include <format>
#include <limits>
#include <cstring>
#include <cmath>
#include <bit>
#include <thread>
using T = double;
ENTRY(h_map) { std::map<int, T> m; for (int i = 0; i < 20; ++i) m[(i * 7) % 20] = in<T>("a"); T s = 0, r = 0; for (auto& [k, v] : m) s += v; for (auto it = m.rbegin(); it != m.rend(); ++it) r += it->second; m.erase(5); eq<T>(s, r, "x"); vf_check(m.size() == 19, "n"); }
ENTRY(h_set) { std::multiset<int> m; for (int i = 0; i < 20; ++i) m.insert((i * 7) % 5); vf_check(m.count(3) == 4, "n"); }
ENTRY(h_umap) { std::unordered_map<size_t, T> m; for (size_t i = 0; i < 40; ++i) m[(i * 7) % 20] = in<T>("a"); vf_check(m.size() == 20, "n"); }
ENTRY(h_list) { std::list<T> m; for (int i = 0; i < 5; ++i) m.push_back(T(i)); m.push_front(in<T>("a")); m.sort(); m.reverse(); m.pop_back(); vf_check(m.size() == 5, "n"); }
ENTRY(h_deque) { std::deque<T> m; for (int i = 0; i < 200; ++i) m.push_front(T(i)); std::queue<T> q; q.push(1); q.pop(); vf_check(m[0] == 199, "n"); }
ENTRY(h_pq) { std::priority_queue<int> m; for (int i = 0; i < 20; ++i) m.push((i * 7) % 20); vf_check(m.top() == 19, "n"); std::stack<int> s; s.push(1); }
ENTRY(h_valarray) { std::valarray<T> a(5), b(5); a = in<T>("a"); b = in<T>("b"); std::valarray<T> c = a * b + b; eq<T>(c.sum(), 5.0 * (a[0] * b[0] + b[0]), "s"); }
ENTRY(h_opt) { std::optional<T> a; vf_check(!a, "o"); a = in<T>("a"); std::variant<int, T> v = *a; vf_check(v.index() == 1, "v"); std::bitset<70> b; b.set(69); vf_check(b.count() == 1, "b"); }
ENTRY(h_any) { std::any a = in<T>("a"); (void)std::any_cast<T>(a); }
ENTRY(h_func) { T k = in<T>("k"); std::function<T(T)> f = [k](T x) { return k * x; }; eq<T>(f(2), 2 * k, "f"); }
ENTRY(h_shared) { auto p = std::make_shared<std::vector<T>>(3); std::weak_ptr<std::vector<T>> w = p; auto q = p; vf_check(p.use_count() == 2, "u"); p.reset(); q.reset(); vf_check(w.expired(), "e"); }
ENTRY(h_ss) { std::ostringstream s; s << "size " << 5 << " and " << size_t(7) << std::endl; try { throw std::invalid_argument(s.str()); } catch (const std::invalid_argument& e) {} }
ENTRY(h_str) { std::string s = "abc"; s += "defghijklmnopqrstuvwxyz"; s.append(std::to_string(17)); s = "pre" + s + 'c'; try { throw std::runtime_error(s); } catch (const std::exception& e) {} }
ENTRY(h_fmt) { try { throw std::runtime_error(std::format("size {} {}", 3, 5)); } catch (const std::exception& e) {} }
ENTRY(h_mutex) { static std::mutex m; std::lock_guard<std::mutex> g(m); static std::once_flag f; int c = 0; std::call_once(f, [&] { ++c; }); vf_check(c == 1, "c"); }
ENTRY(h_atomic) { std::atomic<int> a{0}; a.fetch_add(3); int e = 3; a.compare_exchange_strong(e, 4); vf_check(a.load() == 4, "a"); }
ENTRY(h_rand) { std::mt19937 g(5); std::vector<int> v{1, 2, 3, 4, 5}; std::shuffle(v.begin(), v.end(), g); vf_check(v.size() == 5, "r"); }
ENTRY(h_cerr) { std::cerr << "warning\n"; }
ENTRY(h_alg) { auto v = ins<T>(6, "v"); auto w = v; std::rotate(w.begin(), w.begin() + 2, w.end()); std::reverse(w.begin(), w.end()); std::partial_sum(w.begin(), w.end(), w.begin()); T s = std::accumulate(v.begin(), v.end(), T(0)); eq<T>(w[5], s, "sum"); std::vector<int> i{5, 3, 1, 4}; std::nth_element(i.begin(), i.begin() + 1, i.end()); std::make_heap(i.begin(), i.end()); std::sort_heap(i.begin(), i.end()); vf_check(std::is_sorted(i.begin(), i.end()), "h"); std::inplace_merge(i.begin(), i.begin() + 2, i.end()); T e = std::reduce(v.begin(), v.end()); eq<T>(e, s, "r"); std::swap_ranges(v.begin(), v.begin() + 3, v.begin() + 3); }
ENTRY(h_exec) { auto v = ins<T>(6, "v"); auto w = v; std::for_each(std::execution::unseq, w.begin(), w.end(), [](T& x) { x = -x; }); eq<T>(w[3], -v[3], "neg"); }
ENTRY(h_mem) { auto v = ins<T>(6, "v"); std::vector<T> w(6); std::memcpy(w.data(), v.data(), 48); std::memmove(w.data() + 1, w.data(), 40); eq<T>(w[5], v[4], "m"); double* p = (double*)std::malloc(64); p[0] = v[0]; p = (double*)std::realloc(p, 128); eq<T>(p[0], v[0], "re"); std::free(p); p = (double*)std::calloc(4, 8); vf_check(p[3] == 0, "c"); std::free(p); p = (double*)std::aligned_alloc(64, 128); p[0] = 1; std::free(p); auto* q = new (std::align_val_t(64)) double[4]; q[0] = 1; ::operator delete[](q, std::align_val_t(64)); }
ENTRY(h_math) { T a = in<T>("a"), b = in<T>("b"); eq<T>(std::fma(a, b, a), a * b + a, "fma"); eq<T>(std::fabs(a) * std::fabs(a), a * a, "abs"); eq<T>(std::max(a, b) + std::min(a, b), a + b, "mm"); eq<T>(std::hypot(a, b) * std::hypot(a, b), a * a + b * b, "hypot"); T c = std::copysign(a, b); eq<T>(c * c, a * a, "cs"); vf_check(std::isfinite(a), "fin"); vf_check(!std::isnan(a), "nan"); vf_check(!std::signbit(T(1)), "sb"); eq<T>(std::pow(a, 3), a * a * a, "p3"); eq<T>(std::lerp(T(0), a, T(1)), a, "lerp"); }
ENTRY(h_cplx) { using C = std::complex<T>; C a = in<C>("a"), b = in<C>("b"); eq<C>(std::conj(a * b), std::conj(a) * std::conj(b), "conj"); vf_check(std::norm(a) >= 0, "norm"); vf_assume(std::norm(b) > 0); eq<C>(a / b * b, a, "div"); }
ENTRY(h_bit) { vf_check(std::bit_ceil(17u) == 32, "bc"); vf_check(std::popcount(7u) == 3, "pc"); vf_check(std::countl_zero(1u) == 31, "cz"); vf_check(std::bit_width(8u) == 4, "bw"); auto n = vf_u64("n", 1, 999); vf_check(std::bit_floor(n) <= n, "bf"); vf_check(std::countr_zero(n) < 10, "cz"); }
ENTRY(h_isqrt) { for (size_t n = 0; n < 20; ++n) { auto s = static_cast<size_t>(std::sqrt(static_cast<double>(n))); vf_check(s * s <= n, "sq"); auto r = std::lround(std::sqrt(n * 1.0)); (void)r; auto f = std::floor(n / 3.0); auto c = std::ceil(n / 3.0); vf_check(f <= c, "fc"); vf_check(std::exp2(3.0) == 8, "e2"); vf_check(std::ldexp(1.0, -(int)n) * std::ldexp(1.0, n) == 1, "ld"); } }
