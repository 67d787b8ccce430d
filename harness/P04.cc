// @bound all combinations of fixed-size and dynamic operands and results, result identical to either or both operands; float and double over all reals, complex over the complex numbers
// @bound two calls in sequence on one path: 16 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @outside rounding; the by-value product of two dynamic vectors (its call is ambiguous between the 2-D and 3-D overloads, so no program can use it)
#include "sym.h"
#include "lalib/vec.hpp"
using namespace lalib;
template<class T> struct C3 { T v[3]; };
template<class T> static C3<T> spec(const std::vector<T>& a, const std::vector<T>& b) {
    return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}};
}
template<class T, class V> static void is(const V& v, const C3<T>& e, const char* m) { u(v.size(), 3, m); for (u64 i = 0; i < 3; ++i) eq<T>(v[i], e.v[i], m); }
template<class T, class X, class Y> static void one(const std::vector<T>& a, const std::vector<T>& b, const std::vector<T>& c) {
    X x(a); Y y(b);
    auto e = spec(a, b);
    C3<T> ac{{e.v[0] + c[0], e.v[1] + c[1], e.v[2] + c[2]}};
    SizedVec<T, 3> s(c); DynVec<T> d(c);
    auto& rs = cross(x, y, s); vf_check(&rs == &s, "cross returns its result vector");
    auto& rd = cross(x, y, d); vf_check(&rd == &d, "cross returns its result vector");
    is<T>(s, e, "cross into a sized vector"); is<T>(d, e, "cross into a dynamic vector");
    SizedVec<T, 3> s2(c); DynVec<T> d2(c);
    cross_acc(x, y, s2); cross_acc(x, y, d2);
    is<T>(s2, ac, "cross_acc into a sized vector"); is<T>(d2, ac, "cross_acc into a dynamic vector");
    if constexpr (!(std::is_same_v<X, DynVec<T>> && std::is_same_v<Y, DynVec<T>>)) {
        auto r = cross(x, y);
        is<T>(r, e, "cross by value");
    }
    for (u64 i = 0; i < 3; ++i) { eq<T>(x[i], a[i], "operand unchanged"); eq<T>(y[i], b[i], "operand unchanged"); }
}
template<class T> static void cross3() {
    precision<T>();
    auto a = ins<T>(3, "a"), b = ins<T>(3, "b"), c = ins<T>(3, "c");
    using S = SizedVec<T, 3>; using D = DynVec<T>;
    one<T, S, S>(a, b, c); one<T, S, D>(a, b, c); one<T, D, S>(a, b, c); one<T, D, D>(a, b, c);
}
template<class T, class V> static void al(const std::vector<T>& a, const std::vector<T>& b) {
    auto e = spec(a, b);
    C3<T> ea{{e.v[0] + a[0], e.v[1] + a[1], e.v[2] + a[2]}}, eb{{e.v[0] + b[0], e.v[1] + b[1], e.v[2] + b[2]}};
    { V x(a), y(b); cross(x, y, x); is<T>(x, e, "cross into left"); for (u64 i = 0; i < 3; ++i) eq<T>(y[i], b[i], "right kept"); }
    { V x(a), y(b); cross(x, y, y); is<T>(y, e, "cross into right"); for (u64 i = 0; i < 3; ++i) eq<T>(x[i], a[i], "left kept"); }
    { V x(a), y(b); cross_acc(x, y, x); is<T>(x, ea, "cross_acc into left"); }
    { V x(a), y(b); cross_acc(x, y, y); is<T>(y, eb, "cross_acc into right"); }
    { V x(a); cross(x, x, x); is<T>(x, C3<T>{{T(0), T(0), T(0)}}, "x cross x is zero"); }
}
template<class T> static void alias() {
    precision<T>();
    auto a = ins<T>(3, "a"), b = ins<T>(3, "b");
    al<T, SizedVec<T, 3>>(a, b); al<T, DynVec<T>>(a, b);
}
template<class T> static void cross2() {
    auto a = ins<T>(2, "a"), b = ins<T>(2, "b");
    SizedVec<T, 2> x(a), y(b); DynVec<T> dx(a), dy(b);
    T e = a[0] * b[1] - b[0] * a[1];
    eq<T>(cross(x, y), e, "2-D sized/sized"); eq<T>(cross(x, dy), e, "2-D sized/dyn"); eq<T>(cross(dx, y), e, "2-D dyn/sized");
}
// @run mode=real cfg=internal,dbg
ENTRY(h_cross3_double) { cross3<double>(); }
ENTRY(h_cross3_float) { cross3<float>(); }
ENTRY(h_alias_double) { alias<double>(); }
ENTRY(h_alias_float) { alias<float>(); }
ENTRY(h_cross2_double) { cross2<double>(); }
// @run mode=real cfg=internal
ENTRY(h_cross3_zdouble) { cross3<cd>(); }
// @run mode=real cfg=internal
ENTRY(h_twice_double) { twice(16, {cross3<double>, alias<double>, cross2<double>}); }
