// @bound every 2x2 matrix with nonzero determinant; result separate, or the same matrix; copying and in-place forms
// @bound two calls in sequence on one path: 16 combinations of the cases above (the same sizes and kinds with other values, other sizes, other operations; memory of the first reused or not)
// @assume determinant nonzero; real arithmetic
// @outside singular matrices, rounding error, complex elements of single precision in the in-place form beyond the identity checked
#include "sym.h"
#include "lalib/mat.hpp"
using namespace lalib;
template<class T> using M2 = SizedMat<T, 2, 2>;
template<class T, class A> static void inv_ok(const A& r, const std::vector<T>& a, const char* m) {
    // A * R = R * A = I
    M<T> p(2, 2), q(2, 2); for (u64 i = 0; i < 2; ++i) for (u64 j = 0; j < 2; ++j) { p(i, j) = a[i * 2] * r(0, j) + a[i * 2 + 1] * r(1, j); q(i, j) = r(i, 0) * a[j] + r(i, 1) * a[2 + j]; }
    for (u64 i = 0; i < 2; ++i) for (u64 j = 0; j < 2; ++j) { eq<T>(p(i, j), T(i == j), m); eq<T>(q(i, j), T(i == j), m); }
}
template<class T> static void run() {
    precision<T>();
    auto a = ins<T>(4, "a"); T d = a[0] * a[3] - a[1] * a[2]; nz<T>(d);
    M2<T> A(a); M2<T> R = M2<T>::filled(T(5));
    auto ret = invert(A, R); inv_ok<T>(R, a, "invert(A, R) stores the inverse"); inv_ok<T>(ret, a, "invert(A, R) returns the inverse");
    for (u64 i = 0; i < 4; ++i) eq<T>(A.data()[i], a[i], "operand unchanged");
    auto I = inverted(A); inv_ok<T>(I, a, "inverted(A)"); for (u64 i = 0; i < 4; ++i) eq<T>(A.data()[i], a[i], "operand unchanged");
    auto B = A; auto& ref = invert(B); vf_check(&ref == &B, "invert(A) returns its argument"); inv_ok<T>(B, a, "invert(A) in place");
    auto C = A; auto c2 = invert(C, C); inv_ok<T>(C, a, "invert(A, A) in place"); inv_ok<T>(c2, a, "invert(A, A) returns the inverse");
    auto D = inverted(I); for (u64 i = 0; i < 4; ++i) eq<T>(D.data()[i], a[i], "the inverse of the inverse");
}
// @run mode=real cfg=internal,blas
ENTRY(h_double) { run<double>(); }
ENTRY(h_float) { run<float>(); }
// @run mode=real cfg=internal
ENTRY(h_zdouble) { run<cd>(); }
ENTRY(h_zfloat) { run<cf>(); }
// @run mode=real cfg=internal,blas
ENTRY(h_twice_double) { twice(16, {run<double>}); }
