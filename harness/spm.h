// helpers for sparse harnesses: entry lists with distinct positions, dense images
#pragma once
#include "sym.h"
#include <cmath>
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
using namespace lalib;
template<class T> struct Ent { std::vector<T> v; std::vector<u64> r, c; u64 n = 0, m = 0; };   // n, m: 1 + largest index
template<class T> static M<T> image(const Ent<T>& e, u64 n, u64 m) { M<T> d(n, m); for (u64 k = 0; k < e.v.size(); ++k) d(e.r[k], e.c[k]) = e.v[k]; return d; }
template<class T> static void fin(Ent<T>& e) { e.n = e.m = 0; for (u64 k = 0; k < e.r.size(); ++k) { if (e.r[k] + 1 > e.n) e.n = e.r[k] + 1; if (e.c[k] + 1 > e.m) e.m = e.c[k] + 1; } }
// entries of the n x m positions selected by a mask, in row-major order
template<class T> static Ent<T> masked(u64 mask, u64 n, u64 m, const char* nm) {
    Ent<T> e; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) if (mask >> (i * m + j) & 1) { e.r.push_back(i); e.c.push_back(j); e.v.push_back(in<T>(nm)); } fin(e); return e;
}
// k entries at symbolic, pairwise distinct positions below n x m, in symbolic order
template<class T> static Ent<T> anywhere(u64 k, u64 n, u64 m, const char* nm) {
    Ent<T> e;
    for (u64 a = 0; a < k; ++a) {
        u64 i = vf_concretize(vf_u64("row", 0, n - 1)), j = vf_concretize(vf_u64("col", 0, m - 1));
        for (u64 b = 0; b < a; ++b) vf_assume(!(e.r[b] == i && e.c[b] == j));
        e.r.push_back(i); e.c.push_back(j); e.v.push_back(in<T>(nm));
    }
    fin(e); return e;
}
template<class T> static Ent<T> permuted(const Ent<T>& e, u64 how) {
    Ent<T> f = e; u64 k = e.v.size(), g = k % 7 ? 7 : k % 11 ? 11 : 13;   // coprime to k
    for (u64 a = 0; a < k; ++a) { u64 b = how == 0 ? a : how == 1 ? k - 1 - a : how == 2 ? (a * g + 3) % k : (a ^ 1) < k ? (a ^ 1) : a; f.v[a] = e.v[b]; f.r[a] = e.r[b]; f.c[a] = e.c[b]; }
    return f;
}
template<class T> static bool stored(const Ent<T>& e, u64 i, u64 j) { for (u64 k = 0; k < e.v.size(); ++k) if (e.r[k] == i && e.c[k] == j) return true; return false; }
template<class T> static void sorted_coo(const SpCooMat<T>& m) {
    auto& r = m.row_indices(); auto& c = m.col_indices();
    u(r.size(), m.nnz(), "row list length"); u(c.size(), m.nnz(), "column list length"); u(m.values().size(), m.nnz(), "value list length");
    for (u64 k = 1; k < r.size(); ++k) vf_check(r[k - 1] < r[k] || (r[k - 1] == r[k] && c[k - 1] < c[k]), "entries are ordered by row, then column, without repetition");
}
template<class T> static void coo_is(const SpCooMat<T>& m, const M<T>& d, u64 n, u64 k, const char* s) {
    sorted_coo(m);
    for (u64 i = 0; i < d.n; ++i) for (u64 j = 0; j < d.m; ++j) { eq<T>(m(i, j), d(i, j), s); eq<T>(m.at(i, j), d(i, j), s); }
    auto& r = m.row_indices(); auto& c = m.col_indices(); auto& v = m.values();
    for (u64 p = 0; p < r.size(); ++p) { vf_check(r[p] < d.n && c[p] < d.m, "entry inside the matrix"); if (r[p] < d.n && c[p] < d.m) eq<T>(v[p], d(r[p], c[p]), s); }
}
template<class T> static void csr_is(const SpMat<T>& m, const Ent<T>& e, const char* s) {
    auto d = image(e, e.n, e.m); auto& p = m.row_ptr(); auto& c = m.col_indices(); auto& v = m.values();
    u(m.nnz(), e.v.size(), "number of stored elements"); u(c.size(), e.v.size(), "column list length"); u(v.size(), e.v.size(), "value list length");
    u(p.size(), e.n + 1, "row pointer length"); if (p.size() != e.n + 1) return;
    u(p[0], 0, "first row pointer"); u(p[e.n], e.v.size(), "last row pointer");
    auto sh = m.shape(); u(sh.first, e.n, "row count"); u(sh.second, e.m, "column count");
    for (u64 i = 0; i < e.n; ++i) {
        u64 cnt = 0; for (u64 k = 0; k < e.v.size(); ++k) cnt += e.r[k] == i;
        u(p[i + 1] - p[i], cnt, "elements per row");
        for (u64 k = p[i]; k < p[i + 1]; ++k) { if (k > p[i]) vf_check(c[k - 1] < c[k], "columns ascend within a row"); vf_check(stored(e, i, c[k]), "stored position"); eq<T>(v[k], d(i, c[k]), s); }
        for (u64 j = 0; j < e.m + 1; ++j) { T x = j < e.m ? d(i, j) : T(0); eq<T>(m(i, j), x, s); eq<T>(m.at(i, j), x, s); }
    }
}
// large patterns in row-major order, every 16th value symbolic: bands, wide rows, far rows, far columns
template<class T> static Ent<T> wide(u64 p, const char* nm) {
    Ent<T> e; auto put = [&](u64 i, u64 j) { u64 k = e.v.size(); e.r.push_back(i); e.c.push_back(j); e.v.push_back(k % 16 == 5 ? in<T>(nm) : fix<T>(i + 3 * j)); };
    switch (p) {
    case 0: for (u64 i = 0; i < 130; ++i) for (u64 j = i ? i - 1 : 0; j < 130 && j <= i + 1; ++j) put(i, j); break;
    case 1: for (u64 i = 0; i < 300; ++i) for (u64 j = 0; j < 7; ++j) if ((i * 5 + j * 3) % 7 == 1 || i == 299) put(i, j); break;
    case 2: for (u64 i = 0; i < 3; ++i) for (u64 j = 0; j < 300; ++j) if (i != 1 || j % 50 == 0) put(i, j); break;
    case 3: for (u64 i : {0, 17, 255, 256, 257, 1030}) for (u64 j : {3, 255, 256, 1029}) put(i, j); break;
    case 4: for (u64 i = 0; i < 70; ++i) for (u64 j = 0; j < 70; ++j) if (i == 0 || j == 0 || i == j || j == 69) put(i, j); break;
    case 5: for (u64 i = 0; i < 4; ++i) for (u64 j : {0ul, 255ul, 256ul, 65535ul, 65536ul, 2147483647ul, 2147483648ul, 4294967295ul, 4294967296ul, 4294967297ul, 12884901888ul}) if ((i + j) % 3) put(i, j); break;
    default: for (u64 i : {0, 3, 32767, 32768, 65535, 65536, 65537}) for (u64 j : {0, 2, 5}) put(i, j);
    }
    fin(e); return e;
}
template<class T> static void coo_list(const SpCooMat<T>& m, const Ent<T>& e, const char* s) {   // e in row-major order
    u(m.nnz(), e.v.size(), "number of stored elements"); auto sh = m.shape(); u(sh.first, e.n, "row count"); u(sh.second, e.m, "column count"); sorted_coo(m); if (m.nnz() != e.v.size()) return;
    auto& r = m.row_indices(); auto& c = m.col_indices(); auto& v = m.values();
    for (u64 k = 0; k < e.v.size(); ++k) {
        u(r[k], e.r[k], "row of an entry"); u(c[k], e.c[k], "column of an entry"); eq<T>(v[k], e.v[k], s); eq<T>(m(e.r[k], e.c[k]), e.v[k], s);
        bool nx = k + 1 < e.v.size() && e.r[k + 1] == e.r[k] && e.c[k + 1] == e.c[k] + 1; if (!nx) eq<T>(m(e.r[k], e.c[k] + 1), T(0), "zero beside the entries");
    }
    eq<T>(m(e.n, 0), T(0), "zero below the entries"); eq<T>(m(0, e.m), T(0), "zero right of the entries");
}
template<class T> static void csr_list(const SpMat<T>& m, const Ent<T>& e, const char* s) {
    auto& p = m.row_ptr(); auto& c = m.col_indices(); auto& v = m.values(); u(m.nnz(), e.v.size(), "number of stored elements"); u(p.size(), e.n + 1, "row pointer length"); auto sh = m.shape(); u(sh.first, e.n, "row count"); u(sh.second, e.m, "column count"); if (p.size() != e.n + 1 || m.nnz() != e.v.size()) return;
    u64 k = 0; for (u64 i = 0; i <= e.n; ++i) { while (k < e.r.size() && e.r[k] < i) ++k; if (i < 3 || i + 3 > e.n || i % 61 == 0 || p[i] != k) u(p[i], k, "row pointer"); }
    for (u64 k = 0; k < e.v.size(); ++k) { u(c[k], e.c[k], "column of an entry"); eq<T>(v[k], e.v[k], s); eq<T>(m(e.r[k], e.c[k]), e.v[k], s); bool nx = k + 1 < e.v.size() && e.r[k + 1] == e.r[k] && e.c[k + 1] == e.c[k] + 1; if (!nx) eq<T>(m(e.r[k], e.c[k] + 1), T(0), "zero beside the entries"); }
}
template<class T> static Ent<T> merged(const Ent<T>& a, const Ent<T>& b, T sg) {   // a + sg b, both in row-major order
    Ent<T> e; u64 i = 0, j = 0, n = a.v.size(), m = b.v.size();
    while (i < n || j < m) {
        int t = i == n ? 1 : j == m ? -1 : a.r[i] != b.r[j] ? (a.r[i] < b.r[j] ? -1 : 1) : a.c[i] != b.c[j] ? (a.c[i] < b.c[j] ? -1 : 1) : 0;
        e.r.push_back(t <= 0 ? a.r[i] : b.r[j]); e.c.push_back(t <= 0 ? a.c[i] : b.c[j]); e.v.push_back(t < 0 ? a.v[i] : t > 0 ? sg * b.v[j] : a.v[i] + sg * b.v[j]); i += t <= 0; j += t >= 0;
    }
    fin(e); return e;
}
