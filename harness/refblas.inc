// Reference models of the BLAS/LAPACK entry points used by the library, compiled only into the symbolic build.
// They follow the reference-BLAS contract, including the rejection of illegal leading dimensions/arguments
// (a rejected call changes nothing). The native replay links the real OpenBLAS/LAPACKE instead.
#if defined(LALIB_BLAS_BACKEND) || defined(LALIB_LAPACK_BACKEND)
#include <cblas.h>
extern "C" bool vf_known_zero(double);
extern "C" bool vf_known_zerof(float);
namespace refblas {
template<class T> inline bool kz(T x) { return x == T(0); }
template<> inline bool kz<double>(double x) { return vf_known_zero(x); }
template<> inline bool kz<float>(float x) { return vf_known_zerof(x); }
template<> inline bool kz<std::complex<double>>(std::complex<double> x) { return vf_known_zero(x.real()) && vf_known_zero(x.imag()); }
template<> inline bool kz<std::complex<float>>(std::complex<float> x) { return vf_known_zerof(x.real()) && vf_known_zerof(x.imag()); }
inline long off(long n, long inc) { return inc < 0 ? (1 - n) * inc : 0; }
template<class T> void axpy(long n, T a, const T* x, long ix, T* y, long iy) {
    if (n <= 0) return;
    x += off(n, ix); y += off(n, iy);
    for (long i = 0; i < n; ++i) y[i * iy] += a * x[i * ix];
}
template<class T> void copy(long n, const T* x, long ix, T* y, long iy) {
    if (n <= 0) return;
    x += off(n, ix); y += off(n, iy);
    for (long i = 0; i < n; ++i) y[i * iy] = x[i * ix];
}
template<class T> T dot(long n, const T* x, long ix, const T* y, long iy) {
    T r = T(0);
    if (n <= 0) return r;
    x += off(n, ix); y += off(n, iy);
    for (long i = 0; i < n; ++i) r += x[i * ix] * y[i * iy];
    return r;
}
template<class T> void scal(long n, T a, T* x, long ix) {
    if (n <= 0 || ix <= 0) return;
    for (long i = 0; i < n; ++i) x[i * ix] *= a;
}
template<class T> T nrm2(long n, const T* x, long ix) {
    if (n < 1 || ix < 1) return T(0);
    T r = T(0);
    for (long i = 0; i < n; ++i) r += x[i * ix] * x[i * ix];
    return std::sqrt(r);
}
template<class T> T asum(long n, const T* x, long ix) {
    T r = T(0);
    if (n < 1 || ix < 1) return r;
    for (long i = 0; i < n; ++i) r += std::abs(x[i * ix]);
    return r;
}
template<class T> T cj(T x) { return x; }
template<class T> std::complex<T> cj(std::complex<T> x) { return std::conj(x); }

template<class T> void gemv(int layout, int trans, long m, long n, T alpha, const T* a, long lda, const T* x, long ix, T beta, T* y, long iy) {
    bool row = layout == CblasRowMajor, t = trans == CblasTrans || trans == CblasConjTrans, c = trans == CblasConjTrans;
    if (m < 0 || n < 0 || ix == 0 || iy == 0) return;
    if (lda < std::max<long>(1, row ? n : m)) return;
    if (m == 0 || n == 0) return;
    long ly = t ? n : m, lx = t ? m : n;
    x += off(lx, ix); y += off(ly, iy);
    for (long i = 0; i < ly; ++i) y[i * iy] = kz(beta) ? T(0) : beta * y[i * iy];
    if (kz(alpha)) return;
    for (long i = 0; i < ly; ++i) {
        T s = T(0);
        for (long k = 0; k < lx; ++k) {
            long r = t ? k : i, q = t ? i : k;
            T e = a[row ? r * lda + q : q * lda + r];
            s += (c ? cj(e) : e) * x[k * ix];
        }
        y[i * iy] += alpha * s;
    }
}
template<class T> void gemm(int layout, int ta, int tb, long m, long n, long k, T alpha, const T* a, long lda, const T* b, long ldb, T beta, T* c, long ldc) {
    bool row = layout == CblasRowMajor;
    bool tA = ta == CblasTrans || ta == CblasConjTrans, tB = tb == CblasTrans || tb == CblasConjTrans;
    if (m < 0 || n < 0 || k < 0) return;
    long ra = tA ? k : m, ca = tA ? m : k, rb = tB ? n : k, cb = tB ? k : n;
    if (lda < (row ? ca : ra)) return;
    if (ldb < (row ? cb : rb)) return;
    if (ldc < (row ? n : m)) return;
    if (m == 0 || n == 0) return;
    for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) {
        T& e = c[row ? i * ldc + j : j * ldc + i];
        e = kz(beta) ? T(0) : beta * e;
    }
    if (kz(alpha) || k == 0) return;
    for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) {
        T s = T(0);
        for (long p = 0; p < k; ++p) {
            long r = tA ? p : i, q = tA ? i : p;
            T x = a[row ? r * lda + q : q * lda + r];
            if (ta == CblasConjTrans) x = cj(x);
            r = tB ? j : p; q = tB ? p : j;
            T z = b[row ? r * ldb + q : q * ldb + r];
            if (tb == CblasConjTrans) z = cj(z);
            s += x * z;
        }
        c[row ? i * ldc + j : j * ldc + i] += alpha * s;
    }
}
template<class T> void swap(long n, T* x, long ix, T* y, long iy) {
    if (n <= 0) return;
    x += off(n, ix); y += off(n, iy);
    for (long i = 0; i < n; ++i) { T t = x[i * ix]; x[i * ix] = y[i * iy]; y[i * iy] = t; }
}
template<class T> void ger(int layout, long m, long n, T al, const T* x, long ix, const T* y, long iy, T* a, long lda) {
    bool row = layout == CblasRowMajor;
    if (m <= 0 || n <= 0 || ix == 0 || iy == 0 || lda < (row ? n : m)) return;
    x += off(m, ix); y += off(n, iy);
    for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) a[row ? i * lda + j : j * lda + i] += al * x[i * ix] * y[j * iy];
}
template<class T> void trsm(int layout, int side, int uplo, int trans, int diag, long m, long n, T al, const T* a, long lda, T* b, long ldb) {
    bool row = layout == CblasRowMajor, left = side == CblasLeft, t = trans != CblasNoTrans, up = uplo == CblasUpper; long k = left ? m : n;
    if (m <= 0 || n <= 0 || lda < k || ldb < (row ? n : m)) return;
    auto A = [&](long i, long j) -> T { if (t) std::swap(i, j); if (up ? j < i : j > i) return T(0); if (i == j && diag == CblasUnit) return T(1); T e = a[row ? i * lda + j : j * lda + i]; return trans == CblasConjTrans ? cj(e) : e; };
    auto B = [&](long i, long j) -> T& { return b[row ? i * ldb + j : j * ldb + i]; };
    bool fwd = (up == t) == left;   // order of the unknowns
    for (long c = 0; c < (left ? n : m); ++c) for (long s = 0; s < k; ++s) {
        long i = fwd ? s : k - 1 - s; auto X = [&](long q) -> T& { return left ? B(q, c) : B(c, q); };
        T v = al * X(i);
        for (long r = 0; r < s; ++r) { long q = fwd ? r : k - 1 - r; v -= (left ? A(i, q) : A(q, i)) * X(q); }
        X(i) = diag == CblasUnit ? v : v / A(i, i);
    }
}
template<class T> void trsv(int layout, int uplo, int trans, int diag, long n, const T* a, long lda, T* x, long ix) {
    if (n <= 0 || ix == 0 || lda < n) return;
    bool row = layout == CblasRowMajor, t = trans != CblasNoTrans, up = uplo == CblasUpper; x += off(n, ix);
    auto A = [&](long i, long j) -> T { if (t) std::swap(i, j); T e = a[row ? i * lda + j : j * lda + i]; return trans == CblasConjTrans ? cj(e) : e; };
    bool fwd = up == t;
    for (long s = 0; s < n; ++s) { long i = fwd ? s : n - 1 - s; T v = x[i * ix]; for (long r = 0; r < s; ++r) { long q = fwd ? r : n - 1 - r; v -= A(i, q) * x[q * ix]; } x[i * ix] = diag == CblasUnit ? v : v / A(i, i); }
}
template<class T> void syrk(int layout, int uplo, int trans, long n, long k, T al, const T* a, long lda, T be, T* c, long ldc) {
    bool row = layout == CblasRowMajor, t = trans != CblasNoTrans, up = uplo == CblasUpper;
    if (n <= 0 || k < 0 || ldc < n || lda < (row != t ? k : n)) return;
    for (long i = 0; i < n; ++i) for (long j = up ? i : 0; j <= (up ? n - 1 : i); ++j) {
        T s = T(0); for (long p = 0; p < k; ++p) { auto e = [&](long r, long q) { if (t) std::swap(r, q); return a[row ? r * lda + q : q * lda + r]; }; s += e(i, p) * e(j, p); }
        T& x = c[row ? i * ldc + j : j * ldc + i]; x = (kz(be) ? T(0) : be * x) + (kz(al) ? T(0) : al * s);
    }
}
template<class T> void symv(int layout, int uplo, long n, T al, const T* a, long lda, const T* x, long ix, T be, T* y, long iy) {
    bool row = layout == CblasRowMajor, up = uplo == CblasUpper; if (n <= 0 || lda < n || ix == 0 || iy == 0) return; x += off(n, ix); y += off(n, iy);
    for (long i = 0; i < n; ++i) { T s = T(0); for (long j = 0; j < n; ++j) { long r = i, q = j; if (up ? q < r : q > r) std::swap(r, q); s += a[row ? r * lda + q : q * lda + r] * x[j * ix]; } y[i * iy] = (kz(be) ? T(0) : be * y[i * iy]) + (kz(al) ? T(0) : al * s); }
}
}
extern "C" {
#define VF_BLAS_(p, T) \
void cblas_##p##swap(blasint n, T* x, blasint ix, T* y, blasint iy) { refblas::swap<T>(n, x, ix, y, iy); } \
void cblas_##p##ger(enum CBLAS_ORDER o, blasint m, blasint n, T al, const T* x, blasint ix, const T* y, blasint iy, T* a, blasint lda) { refblas::ger<T>(o, m, n, al, x, ix, y, iy, a, lda); } \
void cblas_##p##trsm(enum CBLAS_ORDER o, enum CBLAS_SIDE s, enum CBLAS_UPLO u, enum CBLAS_TRANSPOSE t, enum CBLAS_DIAG d, blasint m, blasint n, T al, const T* a, blasint lda, T* b, blasint ldb) { refblas::trsm<T>(o, s, u, t, d, m, n, al, a, lda, b, ldb); } \
void cblas_##p##trsv(enum CBLAS_ORDER o, enum CBLAS_UPLO u, enum CBLAS_TRANSPOSE t, enum CBLAS_DIAG d, blasint n, const T* a, blasint lda, T* x, blasint ix) { refblas::trsv<T>(o, u, t, d, n, a, lda, x, ix); } \
void cblas_##p##syrk(enum CBLAS_ORDER o, enum CBLAS_UPLO u, enum CBLAS_TRANSPOSE t, blasint n, blasint k, T al, const T* a, blasint lda, T be, T* c, blasint ldc) { refblas::syrk<T>(o, u, t, n, k, al, a, lda, be, c, ldc); } \
void cblas_##p##symv(enum CBLAS_ORDER o, enum CBLAS_UPLO u, blasint n, T al, const T* a, blasint lda, const T* x, blasint ix, T be, T* y, blasint iy) { refblas::symv<T>(o, u, n, al, a, lda, x, ix, be, y, iy); } \
void cblas_##p##axpby(blasint n, T al, const T* x, blasint ix, T be, T* y, blasint iy) { if (n <= 0) return; x += refblas::off(n, ix); y += refblas::off(n, iy); for (long i = 0; i < n; ++i) y[i * iy] = (refblas::kz(al) ? T(0) : al * x[i * ix]) + (refblas::kz(be) ? T(0) : be * y[i * iy]); }
VF_BLAS_(s, float)
VF_BLAS_(d, double)
#undef VF_BLAS_
void cblas_csscal(blasint n, float a, void* x, blasint ix) { using C = std::complex<float>; refblas::scal<C>(n, C(a), (C*)x, ix); }
void cblas_zdscal(blasint n, double a, void* x, blasint ix) { using C = std::complex<double>; refblas::scal<C>(n, C(a), (C*)x, ix); }
void cblas_ccopy(blasint n, const void* x, blasint ix, void* y, blasint iy) { using C = std::complex<float>; refblas::copy<C>(n, (const C*)x, ix, (C*)y, iy); }
void cblas_zcopy(blasint n, const void* x, blasint ix, void* y, blasint iy) { using C = std::complex<double>; refblas::copy<C>(n, (const C*)x, ix, (C*)y, iy); }
void cblas_saxpy(blasint n, float a, const float* x, blasint ix, float* y, blasint iy) { refblas::axpy<float>(n, a, x, ix, y, iy); }
void cblas_daxpy(blasint n, double a, const double* x, blasint ix, double* y, blasint iy) { refblas::axpy<double>(n, a, x, ix, y, iy); }
void cblas_caxpy(blasint n, const void* a, const void* x, blasint ix, void* y, blasint iy) { using C = std::complex<float>; refblas::axpy<C>(n, *(const C*)a, (const C*)x, ix, (C*)y, iy); }
void cblas_zaxpy(blasint n, const void* a, const void* x, blasint ix, void* y, blasint iy) { using C = std::complex<double>; refblas::axpy<C>(n, *(const C*)a, (const C*)x, ix, (C*)y, iy); }
void cblas_scopy(blasint n, const float* x, blasint ix, float* y, blasint iy) { refblas::copy<float>(n, x, ix, y, iy); }
void cblas_dcopy(blasint n, const double* x, blasint ix, double* y, blasint iy) { refblas::copy<double>(n, x, ix, y, iy); }
float cblas_sdot(blasint n, const float* x, blasint ix, const float* y, blasint iy) { return refblas::dot<float>(n, x, ix, y, iy); }
double cblas_ddot(blasint n, const double* x, blasint ix, const double* y, blasint iy) { return refblas::dot<double>(n, x, ix, y, iy); }
void cblas_sscal(blasint n, float a, float* x, blasint ix) { refblas::scal<float>(n, a, x, ix); }
void cblas_dscal(blasint n, double a, double* x, blasint ix) { refblas::scal<double>(n, a, x, ix); }
void cblas_cscal(blasint n, const void* a, void* x, blasint ix) { using C = std::complex<float>; refblas::scal<C>(n, *(const C*)a, (C*)x, ix); }
void cblas_zscal(blasint n, const void* a, void* x, blasint ix) { using C = std::complex<double>; refblas::scal<C>(n, *(const C*)a, (C*)x, ix); }
float cblas_snrm2(blasint n, const float* x, blasint ix) { return refblas::nrm2<float>(n, x, ix); }
double cblas_dnrm2(blasint n, const double* x, blasint ix) { return refblas::nrm2<double>(n, x, ix); }
float cblas_sasum(blasint n, const float* x, blasint ix) { return refblas::asum<float>(n, x, ix); }
double cblas_dasum(blasint n, const double* x, blasint ix) { return refblas::asum<double>(n, x, ix); }
void cblas_sgemv(enum CBLAS_ORDER o, enum CBLAS_TRANSPOSE t, blasint m, blasint n, float al, const float* a, blasint lda, const float* x, blasint ix, float be, float* y, blasint iy) { refblas::gemv<float>(o, t, m, n, al, a, lda, x, ix, be, y, iy); }
void cblas_dgemv(enum CBLAS_ORDER o, enum CBLAS_TRANSPOSE t, blasint m, blasint n, double al, const double* a, blasint lda, const double* x, blasint ix, double be, double* y, blasint iy) { refblas::gemv<double>(o, t, m, n, al, a, lda, x, ix, be, y, iy); }
void cblas_cgemv(enum CBLAS_ORDER o, enum CBLAS_TRANSPOSE t, blasint m, blasint n, const void* al, const void* a, blasint lda, const void* x, blasint ix, const void* be, void* y, blasint iy) { using C = std::complex<float>; refblas::gemv<C>(o, t, m, n, *(const C*)al, (const C*)a, lda, (const C*)x, ix, *(const C*)be, (C*)y, iy); }
void cblas_zgemv(enum CBLAS_ORDER o, enum CBLAS_TRANSPOSE t, blasint m, blasint n, const void* al, const void* a, blasint lda, const void* x, blasint ix, const void* be, void* y, blasint iy) { using C = std::complex<double>; refblas::gemv<C>(o, t, m, n, *(const C*)al, (const C*)a, lda, (const C*)x, ix, *(const C*)be, (C*)y, iy); }
void cblas_sgemm(enum CBLAS_ORDER o, enum CBLAS_TRANSPOSE ta, enum CBLAS_TRANSPOSE tb, blasint m, blasint n, blasint k, float al, const float* a, blasint lda, const float* b, blasint ldb, float be, float* c, blasint ldc) { refblas::gemm<float>(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
void cblas_dgemm(enum CBLAS_ORDER o, enum CBLAS_TRANSPOSE ta, enum CBLAS_TRANSPOSE tb, blasint m, blasint n, blasint k, double al, const double* a, blasint lda, const double* b, blasint ldb, double be, double* c, blasint ldc) { refblas::gemm<double>(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
void cblas_cgemm(enum CBLAS_ORDER o, enum CBLAS_TRANSPOSE ta, enum CBLAS_TRANSPOSE tb, blasint m, blasint n, blasint k, const void* al, const void* a, blasint lda, const void* b, blasint ldb, const void* be, void* c, blasint ldc) { using C = std::complex<float>; refblas::gemm<C>(o, ta, tb, m, n, k, *(const C*)al, (const C*)a, lda, (const C*)b, ldb, *(const C*)be, (C*)c, ldc); }
void cblas_zgemm(enum CBLAS_ORDER o, enum CBLAS_TRANSPOSE ta, enum CBLAS_TRANSPOSE tb, blasint m, blasint n, blasint k, const void* al, const void* a, blasint lda, const void* b, blasint ldb, const void* be, void* c, blasint ldc) { using C = std::complex<double>; refblas::gemm<C>(o, ta, tb, m, n, k, *(const C*)al, (const C*)a, lda, (const C*)b, ldb, *(const C*)be, (C*)c, ldc); }
}
#endif

#if defined(LALIB_LAPACK_BACKEND)
#include <lapacke.h>
namespace reflapack {
inline bool is0(double x) { return x == 0; }
inline bool is0(float x) { return x == 0; }
template<class R> inline bool is0(std::complex<R> x) { return x.real() == 0 && x.imag() == 0; }
template<class T> T re(T x) { return x; }
template<class R> R re(std::complex<R> x) { return x.real(); }
template<class T> T sq(T x) { return x * x; }
template<class R> R sq(std::complex<R> x) { return x.real() * x.real() + x.imag() * x.imag(); }
// Gaussian elimination of a tridiagonal system; the diagonals are overwritten as xGTSV overwrites them
// (d by the pivots, dl by the fill of the second super-diagonal). Row interchanges are not modelled:
// harnesses only pose systems whose elimination without interchanges has nonzero pivots, for which the
// solution is the same; what the real routine leaves in dl/d/du differs and is never relied on.
template<class T> int gtsv(int layout, long n, long nrhs, T* dl, T* d, T* du, T* b, long ldb) {
    if (layout != LAPACK_ROW_MAJOR && layout != LAPACK_COL_MAJOR) return -1;
    bool row = layout == LAPACK_ROW_MAJOR;
    if (n < 0) return -2;
    if (nrhs < 0) return -3;
    if (ldb < (row ? nrhs : std::max<long>(1, n))) return -8;
    if (n == 0) return 0;
    auto B = [&](long i, long j) -> T& { return b[row ? i * ldb + j : j * ldb + i]; };
    for (long k = 0; k + 1 < n; ++k) {
        if (is0(d[k])) return (int)k + 1;
        T f = dl[k] / d[k];
        d[k + 1] = d[k + 1] - f * du[k];
        for (long j = 0; j < nrhs; ++j) B(k + 1, j) = B(k + 1, j) - f * B(k, j);
        dl[k] = T(0);
    }
    if (is0(d[n - 1])) return (int)n;
    for (long j = 0; j < nrhs; ++j) {
        B(n - 1, j) = B(n - 1, j) / d[n - 1];
        for (long k = n - 2; k >= 0; --k) B(k, j) = (B(k, j) - du[k] * B(k + 1, j)) / d[k];
    }
    return 0;
}
template<class T> int potrf(int layout, char uplo, long n, T* a, long lda) {
    if (layout != LAPACK_ROW_MAJOR && layout != LAPACK_COL_MAJOR) return -1;
    bool lower = uplo == 'L' || uplo == 'l';
    if (!lower && uplo != 'U' && uplo != 'u') return -2;
    if (n < 0) return -3;
    if (lda < (layout == LAPACK_ROW_MAJOR ? n : std::max<long>(1, n))) return -5;   // the row-major wrappers of LAPACKE ask for lda >= n only
    bool row = layout == LAPACK_ROW_MAJOR;
    auto A = [&](long i, long j) -> T& { if (!lower) { long t = i; i = j; j = t; } return a[row ? i * lda + j : j * lda + i]; };
    for (long j = 0; j < n; ++j) {
        auto s = re(A(j, j));
        for (long k = 0; k < j; ++k) s -= sq(A(j, k));
        if (!(s > 0)) return (int)j + 1;
        auto r = std::sqrt(s);
        A(j, j) = r;
        for (long i = j + 1; i < n; ++i) {
            T t = A(i, j);
            for (long k = 0; k < j; ++k) t -= A(i, k) * refblas::cj(A(j, k));
            A(i, j) = t / r;
        }
    }
    return 0;
}
template<class T> int potrs(int layout, char uplo, long n, long nrhs, const T* a, long lda, T* b, long ldb) {
    if (layout != LAPACK_ROW_MAJOR && layout != LAPACK_COL_MAJOR) return -1;
    bool lower = uplo == 'L' || uplo == 'l';
    if (!lower && uplo != 'U' && uplo != 'u') return -2;
    if (n < 0) return -3;
    if (nrhs < 0) return -4;
    bool row = layout == LAPACK_ROW_MAJOR;
    if (lda < (row ? n : std::max<long>(1, n))) return -6;
    if (ldb < (row ? nrhs : std::max<long>(1, n))) return -8;
    auto L = [&](long i, long j) -> const T& { if (!lower) { long t = i; i = j; j = t; } return a[row ? i * lda + j : j * lda + i]; };
    auto B = [&](long i, long j) -> T& { return b[row ? i * ldb + j : j * ldb + i]; };
    for (long c = 0; c < nrhs; ++c) {
        for (long i = 0; i < n; ++i) {
            T s = B(i, c);
            for (long k = 0; k < i; ++k) s -= (lower ? L(i, k) : refblas::cj(L(i, k))) * B(k, c);
            B(i, c) = s / re(L(i, i));
        }
        for (long i = n - 1; i >= 0; --i) {
            T s = B(i, c);
            for (long k = i + 1; k < n; ++k) s -= (lower ? refblas::cj(L(k, i)) : L(k, i)) * B(k, c);
            B(i, c) = s / re(L(i, i));
        }
    }
    return 0;
}
}
extern "C" {
lapack_int LAPACKE_sgtsv(int l, lapack_int n, lapack_int r, float* dl, float* d, float* du, float* b, lapack_int ldb) { return reflapack::gtsv<float>(l, n, r, dl, d, du, b, ldb); }
lapack_int LAPACKE_dgtsv(int l, lapack_int n, lapack_int r, double* dl, double* d, double* du, double* b, lapack_int ldb) { return reflapack::gtsv<double>(l, n, r, dl, d, du, b, ldb); }
lapack_int LAPACKE_spotrf(int l, char u, lapack_int n, float* a, lapack_int lda) { return reflapack::potrf<float>(l, u, n, a, lda); }
lapack_int LAPACKE_dpotrf(int l, char u, lapack_int n, double* a, lapack_int lda) { return reflapack::potrf<double>(l, u, n, a, lda); }
lapack_int LAPACKE_spotrs(int l, char u, lapack_int n, lapack_int r, const float* a, lapack_int lda, float* b, lapack_int ldb) { return reflapack::potrs<float>(l, u, n, r, a, lda, b, ldb); }
lapack_int LAPACKE_dpotrs(int l, char u, lapack_int n, lapack_int r, const double* a, lapack_int lda, double* b, lapack_int ldb) { return reflapack::potrs<double>(l, u, n, r, a, lda, b, ldb); }
lapack_int LAPACKE_cgtsv(int l, lapack_int n, lapack_int r, lapack_complex_float* dl, lapack_complex_float* d, lapack_complex_float* du, lapack_complex_float* b, lapack_int ldb) { using C = std::complex<float>; return reflapack::gtsv<C>(l, n, r, (C*)dl, (C*)d, (C*)du, (C*)b, ldb); }
lapack_int LAPACKE_zgtsv(int l, lapack_int n, lapack_int r, lapack_complex_double* dl, lapack_complex_double* d, lapack_complex_double* du, lapack_complex_double* b, lapack_int ldb) { using C = std::complex<double>; return reflapack::gtsv<C>(l, n, r, (C*)dl, (C*)d, (C*)du, (C*)b, ldb); }
lapack_int LAPACKE_cpotrf(int l, char u, lapack_int n, lapack_complex_float* a, lapack_int lda) { using C = std::complex<float>; return reflapack::potrf<C>(l, u, n, (C*)a, lda); }
lapack_int LAPACKE_zpotrf(int l, char u, lapack_int n, lapack_complex_double* a, lapack_int lda) { using C = std::complex<double>; return reflapack::potrf<C>(l, u, n, (C*)a, lda); }
lapack_int LAPACKE_cpotrs(int l, char u, lapack_int n, lapack_int r, const lapack_complex_float* a, lapack_int lda, lapack_complex_float* b, lapack_int ldb) { using C = std::complex<float>; return reflapack::potrs<C>(l, u, n, r, (const C*)a, lda, (C*)b, ldb); }
lapack_int LAPACKE_zpotrs(int l, char u, lapack_int n, lapack_int r, const lapack_complex_double* a, lapack_int lda, lapack_complex_double* b, lapack_int ldb) { using C = std::complex<double>; return reflapack::potrs<C>(l, u, n, r, (const C*)a, lda, (C*)b, ldb); }
lapack_int LAPACKE_spotrf_work(int l, char u, lapack_int n, float* a, lapack_int lda) { return reflapack::potrf<float>(l, u, n, a, lda); }
lapack_int LAPACKE_dpotrf_work(int l, char u, lapack_int n, double* a, lapack_int lda) { return reflapack::potrf<double>(l, u, n, a, lda); }
lapack_int LAPACKE_spotrf2(int l, char u, lapack_int n, float* a, lapack_int lda) { return reflapack::potrf<float>(l, u, n, a, lda); }
lapack_int LAPACKE_dpotrf2(int l, char u, lapack_int n, double* a, lapack_int lda) { return reflapack::potrf<double>(l, u, n, a, lda); }
lapack_int LAPACKE_spotrs_work(int l, char u, lapack_int n, lapack_int r, const float* a, lapack_int lda, float* b, lapack_int ldb) { return reflapack::potrs<float>(l, u, n, r, a, lda, b, ldb); }
lapack_int LAPACKE_dpotrs_work(int l, char u, lapack_int n, lapack_int r, const double* a, lapack_int lda, double* b, lapack_int ldb) { return reflapack::potrs<double>(l, u, n, r, a, lda, b, ldb); }
lapack_int LAPACKE_sgtsv_work(int l, lapack_int n, lapack_int r, float* dl, float* d, float* du, float* b, lapack_int ldb) { return reflapack::gtsv<float>(l, n, r, dl, d, du, b, ldb); }
lapack_int LAPACKE_dgtsv_work(int l, lapack_int n, lapack_int r, double* dl, double* d, double* du, double* b, lapack_int ldb) { return reflapack::gtsv<double>(l, n, r, dl, d, du, b, ldb); }
lapack_int LAPACKE_sposv(int l, char u, lapack_int n, lapack_int r, float* a, lapack_int lda, float* b, lapack_int ldb) { auto i = reflapack::potrf<float>(l, u, n, a, lda); return i ? i : reflapack::potrs<float>(l, u, n, r, a, lda, b, ldb); }
lapack_int LAPACKE_dposv(int l, char u, lapack_int n, lapack_int r, double* a, lapack_int lda, double* b, lapack_int ldb) { auto i = reflapack::potrf<double>(l, u, n, a, lda); return i ? i : reflapack::potrs<double>(l, u, n, r, a, lda, b, ldb); }
}
#endif
