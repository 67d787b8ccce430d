// @bound copy, copy assignment, self-assignment, move and swap of every dense, structured and sparse matrix type (sizes 1..4; sparse: every 2x3 pattern; sizes 33 and 70 partly symbolic), one write or extension at an arbitrary position in either object afterwards
// @bound assignment, move assignment, swap, rotation and container insertion between two objects of any sizes 0..3 (sparse: none, one, two and six entries) and between solvers of sizes 2 and 3
// @bound every solver object (Cholesky, packed, modified, tri-diagonal, incomplete LU, GMRES) of size 2 and 3: built from a matrix that is then changed and destroyed, copied, moved, original destroyed, several right-hand sides in any order; a second solver (size 2 and 3) built at the addresses of a destroyed one
// @assume solvable systems as in the properties of the solvers; real arithmetic
// @outside larger sizes, the contents of moved-from objects
#include "spm.h"
#include <memory>
#include <string>
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
using namespace lalib::solver;
template<class A, class T> static void img(const A& a, const M<T>& e, const char* s) { for (u64 i = 0; i < e.n; ++i) for (u64 j = 0; j < e.m; ++j) { eq<T>(a(i, j), e(i, j), s); eq<T>(a.at(i, j), e(i, j), s); } auto h = a.shape(); u(h.first, e.n, s); u(h.second, e.m, s); }
// a: the object, e: its image; put(x, v, image): changes x and the image
template<class A, class T, class P> static void values(A a, const M<T>& e, P put) {
    img(a, e, "the object itself"); A c(a); img(c, e, "copy"); auto f = e, e2 = e; T w = in<T>("w");
    switch (vf_choose("how", 0, 4)) {
    case 0: put(c, w, f); img(a, e, "changing a copy leaves the original"); img(c, f, "changed copy"); break;
    case 1: put(a, w, f); img(c, e, "changing the original leaves the copy"); img(a, f, "changed original"); break;
    case 2: { auto p = std::make_unique<A>(a); A d(std::move(*p)); p.reset(); img(d, e, "moved object"); put(d, w, f); img(d, f, "changed moved object"); img(a, e, "the original of a moved copy"); break; }
    case 3: if constexpr (std::is_copy_assignable_v<A>) { A d(a); put(d, w, f); d = a; img(d, e, "assignment replaces every element"); d = *&d; img(d, e, "self-assignment"); auto g = e; put(d, w, g); img(a, e, "assigned objects are independent"); img(d, g, "changed assigned object"); d = std::move(c); img(d, e, "move assignment"); } break;
    default: put(c, w, f); if constexpr (std::is_copy_assignable_v<A>) std::swap(a, c); else { A d(std::move(c)); put(a, w, e2); img(d, f, "moved object"); img(a, e2, "the original of a moved copy"); return; } img(a, f, "swap"); img(c, e, "swap"); { std::vector<A> v; for (u64 i = 0; i < 3; ++i) v.push_back(i == 1 ? c : a); img(v[0], f, "elements of a growing container"); img(v[1], e, "elements of a growing container"); img(v[2], f, "elements of a growing container"); }
    }
}
template<class T> static std::vector<T> tri(u64 n, M<T>& e, bool cols, u64 extra, bool mirror) {   // packed pattern (by rows: lower, by columns: upper or Hessenberg)
    std::vector<T> v; e = M<T>(n, n); for (u64 k = 0; k < n; ++k) for (u64 q = 0; q <= k + extra && q < n; ++q) { T x = in<T>("e"); v.push_back(x); if (cols) e(q, k) = x; else { e(k, q) = x; if (mirror) e(q, k) = x; } } return v;
}
template<class T> static void dense() {
    precision<T>(); u64 n = vf_choose("n", 1, 3), m = vf_choose("m", 1, 3), p = vf_choose("position", 0, 8); vf_assume(p < n * m); auto e = inm<T>(n, m, "A");
    values(DynMat<T>(n, m, e.a), e, [&](auto& x, T w, M<T>& f) { x(p / m, p % m) = w; f.a[p] = w; });
    if (n == 2 && m == 3) values(SizedMat<T, 2, 3>(e.a), e, [&](auto& x, T w, M<T>& f) { x(p / m, p % m) = w; f.a[p] = w; });
}
template<class T> static void structured() {
    precision<T>(); u64 n = vf_choose("n", 1, 4), i = vf_choose("i", 0, 3), j = vf_choose("j", 0, 3); vf_assume(i < n && j < n); M<T> e;
    auto put = [&](auto& x, T w, M<T>& f) { x(i, j) = w; f(i, j) = w; };
    switch (vf_choose("type", 0, 5)) {
    case 0: { auto dl = ins<T>(n - 1, "dl"), d = ins<T>(n, "d"), du = ins<T>(n - 1, "du"); e = M<T>(n, n); for (u64 k = 0; k < n; ++k) { e(k, k) = d[k]; if (k + 1 < n) { e(k + 1, k) = dl[k]; e(k, k + 1) = du[k]; } } vf_assume(i <= j + 1 && j <= i + 1); values(DynTriDiagMat<T>(dl, d, du), e, put); break; }
    case 1: { vf_assume(j <= i); auto v = tri<T>(n, e, false, 0, false); values(DynLowerTriMat<T>(n, std::move(v)), e, put); break; }
    case 2: { auto v = tri<T>(n, e, false, 0, true); values(DynHermiteMat<T>(n, std::move(v)), e, [&](auto& x, T w, M<T>& f) { x(i, j) = w; f(i, j) = f(j, i) = w; }); break; }
    case 3: { vf_assume(i <= j); auto v = tri<T>(n, e, true, 0, false); values(DynUpperTriMat<T>(std::move(v)), e, put); break; }
    case 4: { vf_assume(i <= j + 1); auto v = tri<T>(n, e, true, 1, false); values(HessenbergMat<T>(std::move(v)), e, put); break; }
    default: if (n == 3) {
        M<T> g; auto v = tri<T>(3, e, false, 0, false); auto w = tri<T>(3, g, false, 0, true); std::array<T, 6> a, b; for (u64 k = 0; k < 6; ++k) { a[k] = v[k]; b[k] = w[k]; }
        if (j <= i) values(SizedLowerTriMat<T, 3>(a), e, put); else values(SizedHermiteMat<T, 3>(b), g, [&](auto& x, T w, M<T>& f) { x(i, j) = w; f(i, j) = f(j, i) = w; });
    } else if (n == 2) { std::array<T, 1> l{in<T>("l")}, c{in<T>("c")}; std::array<T, 2> d{in<T>("d"), in<T>("d")}; M<T> q(2, 2); q(0, 0) = d[0]; q(1, 1) = d[1]; q(1, 0) = l[0]; q(0, 1) = c[0]; values(SizedTriDiagMat<T, 2>(l, d, c), q, put); }
    }
}
// large objects: both sides of any blocking, partly symbolic, positions at the ends and in the middle
template<class T> static void big() {
    precision<T>(); u64 k = vf_choose("type", 0, 7), p = vf_choose("position", 0, 2), n = vf_choose("n", 0, 1) ? 70 : 33, m = n + 1; vf_assume(n == 33 || Q(p == 1 && k < 6, 1)); M<T> e; auto put = [&](auto& x, T w, M<T>& f) { u64 i = p == 0 ? 0 : p == 1 ? f.n / 2 : f.n - 1, j = std::min(i, f.m - 1); x.mut_at(i, j) = w; f(i, j) = w; };
    auto pack = [&](bool cols, u64 extra, bool mirror) { std::vector<T> v; e = M<T>(n, n); for (u64 a = 0; a < n; ++a) for (u64 q = 0; q <= a + extra && q < n; ++q) { T x = (a * n + q) % 97 == 5 ? in<T>("e") : fix<T>(a * n + q); v.push_back(x); if (cols) e(q, a) = x; else { e(a, q) = x; if (mirror) e(q, a) = x; } } return v; };
    switch (k) {
    case 0: e = fewm<T>(n, m, "e", 97); values(DynMat<T>(n, m, e.a), e, put); break;
    case 1: { auto dl = few<T>(n - 1, "dl", 9), d = few<T>(n, "d", 9), du = few<T>(n - 1, "du", 9); e = M<T>(n, n); for (u64 i = 0; i < n; ++i) { e(i, i) = d[i]; if (i + 1 < n) { e(i + 1, i) = dl[i]; e(i, i + 1) = du[i]; } } values(DynTriDiagMat<T>(dl, d, du), e, put); break; }
    case 2: { auto v = pack(false, 0, false); values(DynLowerTriMat<T>(n, std::move(v)), e, put); break; }
    case 3: { auto v = pack(false, 0, true); values(DynHermiteMat<T>(n, std::move(v)), e, put); break; }
    case 4: { auto v = pack(true, 0, false); values(DynUpperTriMat<T>(std::move(v)), e, put); break; }
    case 5: { auto v = pack(true, 1, false); values(HessenbergMat<T>(std::move(v)), e, put); break; }
    default: { Ent<T> t; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (i == j || (i % 3 == 0 && (j == 0 || j + 1 == n))) { t.r.push_back(i); t.c.push_back(j); t.v.push_back(t.v.size() % 16 == 3 ? in<T>("v") : fix<T>(i + j)); } fin(t); e = image(t, t.n, t.m); SpCooMat<T> c(t.v, t.r, t.c); if (k == 6) values(c, e, put); else { SpMat<T> s(c); values(s, e, put); } }
    }
}
template<class T> static void growing() {   // the change is an extension
    precision<T>(); u64 n = vf_choose("n", 0, 3), zero = vf_choose("by zeros", 0, 1); M<T> e; auto col = ins<T>(n + 1, "column");
    auto grow = [&](const M<T>& f, u64 rows) { M<T> g(f.n + 1, f.n + 1); for (u64 i = 0; i < f.n; ++i) for (u64 j = 0; j < f.n; ++j) g(i, j) = f(i, j); for (u64 i = 0; i < rows && !zero; ++i) g(i, f.n) = col[i]; return g; };
    if (vf_choose("type", 0, 1)) { auto v = tri<T>(n, e, true, 0, false); DynUpperTriMat<T> a(std::move(v)); values(a, e, [&](auto& x, T, M<T>& f) { if (zero) x.extend_with_zero(); else x.extend_with(std::vector<T>(col)); f = grow(f, n + 1); }); }
    else { auto v = tri<T>(n, e, true, 1, false); HessenbergMat<T> a(std::move(v)); values(a, e, [&](auto& x, T, M<T>& f) { x.extend_with_zero(); zero = 1; f = grow(f, 0); }); }
}
template<class T> static void sparse() {
    precision<T>(); auto e = masked<T>(vf_choose("mask", 1, 63), 2, 3, "v"); u64 k = vf_choose("entry", 0, 5); vf_assume(k < e.v.size()); auto d = image(e, e.n, e.m); u64 i = e.r[k], j = e.c[k];
    SpCooMat<T> c(e.v, e.r, e.c); auto put = [&](auto& x, T w, M<T>& f) { x.mut_at(i, j) = w; f(i, j) = w; };
    if (vf_choose("compressed", 0, 1)) { SpMat<T> s(c); values(s, d, put); } else { values(c, d, put); SpCooMat<T> b(c); b += c; img(c, d, "adding to a copy leaves the original"); SpMat<T> s(c); c.mut_at(i, j) = T(0); img(s, d, "a converted matrix is independent of its source"); }
}
// assignment between objects of any two sizes (0 included), from and to temporaries, named objects and moved-from objects
template<class A, class T, class P> static void assign(A a, const M<T>& ea, A b, const M<T>& eb, P put) {
    T w = in<T>("w"); auto f = eb, g = ea;
    switch (vf_choose("how", 0, 5)) {
    case 0: { auto& r = (a = b); vf_check(&r == &a, "assignment gives its target"); img(a, eb, "assigned"); put(a, w, f); img(a, f, "changed after assignment"); img(b, eb, "the source of an assignment"); break; }
    case 1: { A c(b); auto& r = (a = std::move(c)); vf_check(&r == &a, "assignment gives its target"); img(a, eb, "move-assigned"); put(a, w, f); img(a, f, "changed after move assignment"); img(b, eb, "a copy of the source"); break; }
    case 2: { A c(b), d(a); a = std::move(c); c = d; img(c, ea, "a moved-from object is assigned"); put(c, w, g); img(c, g, "a moved-from object is assigned"); img(a, eb, "move-assigned"); img(d, ea, "the source of an assignment"); break; }
    case 3: std::swap(a, b); img(a, eb, "swap"); img(b, ea, "swap"); put(a, w, f); img(a, f, "changed after swap"); img(b, ea, "swap"); break;
    case 4: { A c(std::move(a)); a = std::move(b); b = std::move(c); img(a, eb, "rotation"); img(b, ea, "rotation"); put(b, w, g); img(b, g, "changed after rotation"); img(a, eb, "rotation"); break; }
    default: { std::vector<A> v; v.push_back(a); v.push_back(b); v.push_back(a); v.erase(v.begin()); img(v[0], eb, "erasing from a container"); img(v[1], ea, "erasing from a container"); v.insert(v.begin(), v[1]); img(v[0], ea, "inserting into a container"); img(v[1], eb, "inserting into a container"); put(v[1], w, f); img(v[1], f, "an element of a container"); img(v[2], ea, "an element of a container"); }
    }
}
template<class T> static void sizes() {
    precision<T>(); u64 k = vf_choose("type", 0, 5), n = vf_choose("n", 0, 3), m = vf_choose("m", 0, 3); M<T> e, f; auto put = [&](auto& x, T w, M<T>& g) { if (g.n == 0 || g.m == 0) return; u64 i = g.n - 1; u64 j = k < 4 ? std::min(i, g.m - 1) : g.m - 1; x.mut_at(i, j) = w; g(i, j) = w; };
    if ((k == 1 || k == 2) && (n == 0 || m == 0)) return;
    switch (k) {
    case 0: e = inm<T>(n, n ? m + 1 : 0, "A"); f = inm<T>(m, m ? n : 0, "B"); assign(DynMat<T>(e.n, e.m, e.a), e, DynMat<T>(f.n, f.m, f.a), f, put); break;
    case 1: { auto v = tri<T>(n, e, false, 0, false); auto w = tri<T>(m, f, false, 0, false); assign(DynLowerTriMat<T>(n, std::move(v)), e, DynLowerTriMat<T>(m, std::move(w)), f, put); break; }
    case 2: { auto v = tri<T>(n, e, false, 0, true); auto w = tri<T>(m, f, false, 0, true); assign(DynHermiteMat<T>(n, std::move(v)), e, DynHermiteMat<T>(m, std::move(w)), f, put); break; }
    case 3: { auto td = [](u64 q, M<T>& g) { auto dl = ins<T>(q, "dl"), d = ins<T>(q + 1, "d"), du = ins<T>(q, "du"); g = M<T>(q + 1, q + 1); for (u64 i = 0; i <= q; ++i) { g(i, i) = d[i]; if (i < q) { g(i + 1, i) = dl[i]; g(i, i + 1) = du[i]; } } return DynTriDiagMat<T>(dl, d, du); }; auto a = td(n, e), b = td(m, f); assign(std::move(a), e, std::move(b), f, put); break; }
    default: { static const u64 K[] = {0, 1, 36, 63}; auto x = masked<T>(K[n], 2, 3, "x"), y = masked<T>(K[m], 2, 3, "y"); e = image(x, x.n, x.m); f = image(y, y.n, y.m); auto mk = [](const Ent<T>& t) { if (t.v.empty()) return SpCooMat<T>(); return SpCooMat<T>(t.v, t.r, t.c); }; SpCooMat<T> a = mk(x), b = mk(y);
        if (k == 4) assign(a, e, b, f, put); else { auto cs = [](const SpCooMat<T>& c) { if (c.nnz() == 0) return SpMat<T>(); return SpMat<T>(c); }; assign(cs(a), e, cs(b), f, put); } }
    }
}
// solvers: f(A) builds, g(solver, b) solves
template<class S, class T, class G> static void objects(std::unique_ptr<S> s, const M<T>& a, G g) {
    u64 n = a.n; auto x = ins<T>(n, "x"), y = ins<T>(n, "y"), z = ins<T>(n, "z"); auto b = mv(a, x), c = mv(a, y), d = mv(a, z);
    auto one = [&](auto& q, const std::vector<T>& r, const std::vector<T>& w, const char* m) { DynVec<T> v(r); auto o = g(q, v); eqv(o, w, m); eqv(v, r, "the right-hand side is untouched"); };
    switch (vf_choose("how", 0, 2)) {
    case 0: { S t(*s); one(*s, b, x, "original"); one(t, c, y, "copy"); s.reset(); one(t, d, z, "copy after its original is gone"); one(t, b, x, "copy after its original is gone"); break; }
    case 1: { S t(std::move(*s)); s.reset(); one(t, b, x, "moved solver"); one(t, c, y, "moved solver"); S w(t); one(w, d, z, "copy of a moved solver"); one(t, d, z, "moved solver"); break; }
    default: { one(*s, b, x, "first system"); one(*s, c, y, "second system"); one(*s, b, x, "first system again"); std::vector<S> v; v.push_back(*s); v.push_back(*s); v.push_back(v[0]); s.reset(); one(v[0], d, z, "solver in a container"); one(v[2], c, y, "solver in a container"); }
    }
}
template<class T> static M<T> spd(u64 n) { M<T> l(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) { l(i, j) = in<T>("l"); if (i == j) pos<T>(l(i, j)); } return mm(l, tr(l)); }
template<class T> static void chol() {
    precision<T>(); u64 n = vf_choose("n", 2, 3); auto a = spd<T>(n); DynMat<T> A(n, n, a.a); auto lin = [](auto& s, const DynVec<T>& b) { return s.solve_linear(b); };
    switch (vf_choose("kind", 0, 2)) {
    case 0: { auto B = A; auto s = std::make_unique<DynCholeskyFactorization<T>>(std::move(B)); B = A; B(0, 0) = T(0); objects(std::move(s), a, lin); break; }
    case 1: { auto B = A; auto s = std::make_unique<DynModCholeskyFactorization<T>>(std::move(B)); B = A; B(0, 0) = T(0); objects(std::move(s), a, lin); break; }
    default: { std::vector<T> v; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) v.push_back(a(i, j)); auto h = std::make_unique<DynHermiteMat<T>>(n, std::move(v)); auto s = std::make_unique<DynTriCholeskyFactorization<T>>(std::move(*h)); h.reset(); objects(std::move(s), a, lin); }
    }
    eqm(A, a, "the matrix the argument was copied from");
}
template<class T> static void tridiag() {
    precision<T>(); u64 n = vf_choose("n", 2, 3); std::vector<T> piv, dl, d, du; M<T> a(n, n); for (u64 i = 0; i < n; ++i) { T p = in<T>("pivot"); nz<T>(p); piv.push_back(p); if (i) { T l = in<T>("l"), c = in<T>("du"); dl.push_back(l * piv[i - 1]); du.push_back(c); p = p + l * c; } d.push_back(p); }
    for (u64 i = 0; i < n; ++i) { a(i, i) = d[i]; if (i + 1 < n) { a(i + 1, i) = dl[i]; a(i, i + 1) = du[i]; } }
    auto A = std::make_unique<DynTriDiagMat<T>>(dl, d, du); bool mv_ = vf_choose("by move", 0, 1); auto s = mv_ ? std::make_unique<TriDiag<DynTriDiagMat<T>>>(std::move(*A)) : std::make_unique<TriDiag<DynTriDiagMat<T>>>(*A);
    if (!mv_) { img(*A, a, "the matrix is copied"); (*A)(0, 0) = T(0); } A.reset();
    objects(std::move(s), a, [&](auto& q, const DynVec<T>& b) { auto r = b; q.solve_linear(b, r); return r; });
}
template<class T, class Mt> static Mt mat(const M<T>& a) {
    if constexpr (std::is_same_v<Mt, DynMat<T>>) return DynMat<T>(a.n, a.n, a.a); else { Ent<T> e; for (u64 i = 0; i < a.n; ++i) for (u64 j = 0; j < a.n; ++j) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(a(i, j)); } return Mt(SpCooMat<T>(e.v, e.r, e.c)); }
}
template<class T, class Mt> static void iter() {
    precision<T>(); u64 n = 2; M<T> l(n, n), w(n, n); l(0, 0) = l(1, 1) = T(1); l(1, 0) = in<T>("l"); for (u64 i = 0; i < n; ++i) for (u64 j = i; j < n; ++j) { w(i, j) = in<T>("u"); } nz<T>(w(0, 0)); nz<T>(w(1, 1)); auto a = mm(l, w); for (auto& v : a.a) nz<T>(v);
    auto A = std::make_unique<Mt>(mat<T, Mt>(a)); auto go = [](auto& q, const DynVec<T>& b) { return q.solve(b); };
    if (vf_choose("gmres", 0, 1)) { T tol = in<T>("tol"); pos<T>(tol); auto s = std::make_unique<Gmres<T, Mt>>(std::move(*A), tol); A.reset(); objects(std::move(s), a, go); }
    else { auto s = std::make_unique<Ilu<T, Mt>>(std::move(*A)); A.reset(); objects(std::move(s), a, go); }
}
// assignment, move assignment and swap of solvers of different sizes
template<class S, class F, class G> static void reassign(S a, S b, F ga, G gb) {   // ga, gb: solve with the solver and compare
    if constexpr (std::is_copy_assignable_v<S>) switch (vf_choose("how", 0, 3)) {
        case 0: a = b; gb(a); gb(b); break;
        case 1: { S c(b); a = std::move(c); gb(a); gb(b); c = a; gb(c); break; }
        case 2: std::swap(a, b); gb(a); ga(b); gb(a); break;
        default: { S c(a); a = b; b = c; c = a; gb(a); ga(b); gb(c); } } else { ga(a); gb(b); }
}
template<class T> static void solvers() {
    precision<T>(); u64 k = vf_choose("kind", 0, 5); M<T> a[2]; std::vector<T> x[2];
    for (u64 r = 0; r < 2; ++r) {
        u64 n = r ? 3 : 2; M<T> l(n, n), w(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (i == j) { l(i, j) = in<T>("l"); pos<T>(l(i, j)); w(i, j) = T(1); } else if (j < i && (k < 3 || j + 1 == i)) l(i, j) = in<T>("l"); else if (j == i + 1) w(i, j) = in<T>("w");
        a[r] = k < 3 ? mm(l, tr(l)) : mm(l, w); if (k > 3) for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (i <= j + 1 && j <= i + 1) nz<T>(a[r](i, j)); x[r] = ins<T>(n, "x");
    }
    auto go = [&](auto build, auto solve) {
        auto chk = [&](u64 r) { return [&, r](auto& q) { DynVec<T> v(mv(a[r], x[r])); auto o = solve(q, v); eqv(o, x[r], "solution after assignment of solvers"); }; };
        reassign(build(a[0]), build(a[1]), chk(0), chk(1));
    };
    auto lin = [](auto& s, const DynVec<T>& v) { return s.solve_linear(v); }; auto plain = [](auto& s, const DynVec<T>& v) { return s.solve(v); }; auto dm = [](const M<T>& m) { return DynMat<T>(m.n, m.n, m.a); };
    switch (k) {
    case 0: go([&](const M<T>& m) { return DynCholeskyFactorization<T>(dm(m)); }, lin); break;
    case 1: go([&](const M<T>& m) { return DynModCholeskyFactorization<T>(dm(m)); }, lin); break;
    case 2: go([&](const M<T>& m) { std::vector<T> q; for (u64 i = 0; i < m.n; ++i) for (u64 j = 0; j <= i; ++j) q.push_back(m(i, j)); return DynTriCholeskyFactorization<T>(DynHermiteMat<T>(m.n, std::move(q))); }, lin); break;
    case 3: go([&](const M<T>& m) { std::vector<T> dl, d, du; for (u64 i = 0; i < m.n; ++i) { d.push_back(m(i, i)); if (i + 1 < m.n) { dl.push_back(m(i + 1, i)); du.push_back(m(i, i + 1)); } } return TriDiag<DynTriDiagMat<T>>(DynTriDiagMat<T>(dl, d, du)); }, [](auto& s, const DynVec<T>& v) { auto r = v; s.solve_linear(v, r); return r; }); break;
    case 4: go([&](const M<T>& m) { return Ilu<T, DynMat<T>>(dm(m)); }, plain); break;
    default: go([&](const M<T>& m) { Ent<T> e; for (u64 i = 0; i < m.n; ++i) for (u64 j = 0; j < m.n; ++j) if (i <= j + 1 && j <= i + 1) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(m(i, j)); } return Ilu<T, SpMat<T>>(SpMat<T>(SpCooMat<T>(e.v, e.r, e.c))); }, plain);
    }
}
// a second solver (and matrix) in the place of a destroyed one
template<class T> static void again() {
    precision<T>(); vf_reuse(); u64 k = vf_choose("kind", 0, 6), n = k < 3 ? 2 : 3;
    for (u64 r = 0; r < 2; ++r) {
        M<T> l(n, n), w(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (i == j) { l(i, j) = in<T>("l"); pos<T>(l(i, j)); w(i, j) = T(1); } else if (j < i && (k < 3 || j + 1 == i)) l(i, j) = in<T>("l"); else if (j == i + 1) w(i, j) = in<T>("w");
        auto a = k < 3 ? mm(l, tr(l)) : mm(l, w); if (k > 4) for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (i <= j + 1 && j <= i + 1) nz<T>(a(i, j));
        auto x = ins<T>(n, "x"); auto b = mv(a, x); DynVec<T> v(b), o(std::vector<T>(n, T(0)));
        switch (k) {
        case 0: { DynCholeskyFactorization<T> s(DynMat<T>(n, n, a.a)); o = s.solve_linear(v); break; }
        case 1: { DynModCholeskyFactorization<T> s(DynMat<T>(n, n, a.a)); o = s.solve_linear(v); break; }
        case 2: { std::vector<T> q; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) q.push_back(a(i, j)); DynTriCholeskyFactorization<T> s(DynHermiteMat<T>(n, std::move(q))); o = s.solve_linear(v); break; }
        case 3: { TriDiag<DynTriDiagMat<T>> s(DynTriDiagMat<T>({a(1, 0), a(2, 1)}, {a(0, 0), a(1, 1), a(2, 2)}, {a(0, 1), a(1, 2)})); s.solve_linear(v, o); break; }
        case 4: { TriDiag<SizedTriDiagMat<T, 3>> s(SizedTriDiagMat<T, 3>({a(1, 0), a(2, 1)}, {a(0, 0), a(1, 1), a(2, 2)}, {a(0, 1), a(1, 2)})); s.solve_linear(v, o); break; }
        case 5: { Ilu<T, DynMat<T>> s(DynMat<T>(n, n, a.a)); o = s.solve(v); break; }
        default: { Ent<T> e; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (i <= j + 1 && j <= i + 1) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(a(i, j)); } Ilu<T, SpMat<T>> s(SpMat<T>(SpCooMat<T>(e.v, e.r, e.c))); o = s.solve(v); }
        }
        eqv(o, x, r ? "a solver in the place of a destroyed one" : "first solver"); eqv(v, b, "the right-hand side is untouched");
    }
}
// @run mode=real cfg=internal
ENTRY(h_dense_double) { dense<double>(); }
ENTRY(h_dense_zdouble) { dense<cd>(); }
ENTRY(h_structured_double) { structured<double>(); }
ENTRY(h_structured_float) { structured<float>(); }
ENTRY(h_big_double) { big<double>(); }
ENTRY(h_growing_double) { growing<double>(); }
ENTRY(h_sparse_double) { sparse<double>(); }
ENTRY(h_sizes_double) { sizes<double>(); }
ENTRY(h_iter_csr_double) { iter<double, SpMat<double>>(); }
ENTRY(h_iter_dense_double) { iter<double, DynMat<double>>(); }
// @run mode=real cfg=internal,lapack
ENTRY(h_chol_double) { chol<double>(); }
ENTRY(h_chol_float) { chol<float>(); }
ENTRY(h_tridiag_double) { tridiag<double>(); }
ENTRY(h_tridiag_float) { tridiag<float>(); }
ENTRY(h_solvers_double) { solvers<double>(); }
ENTRY(h_again_double) { again<double>(); }
