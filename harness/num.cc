// P14 graphs, P15 statistics and scalar functions, P16 matrices, vectors, solver, SVD.
#include "mc.hh"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
extern "C" {
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_graph.h"
#include "virg/nexus/nx_math.h"
#include "virg/nexus/nx_statistics.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_mat234.h"
#include "virg/nexus/nx_vec.h"
#include "virg/nexus/nx_vec234.h"
#include "virg/nexus/nx_svd.h"
#include "virg/nexus/nx_linear_solvers.h"
}
using namespace mc;
typedef std::string S;
typedef std::vector<double> V;

// sizes around the powers of two and between them
static std::vector<int> sizes(int upto, int from = 64) {
    std::vector<int> r;
    for (int b = from; b / 2 <= upto; b *= 2) for (int d : {-1, 0, 1, b / 4 + 3, b / 2}) if (b + d <= upto) r.push_back(b + d);
    r.push_back(upto); return r;
}
// ------------------------------------------------------------------ P14
struct Op { int v, w; double x; };
struct GModel {
    int n; std::map<std::pair<int, int>, double> e;
    void ins(int v, int w, double x) { if (v != w) e[{std::min(v, w), std::max(v, w)}] = x; }
};
static void check_mat(const NXGraphAdjMat *g, const GModel &m, const char *what) {
    step();
    if (g->n_v != m.n || g->n_e != (int)m.e.size()) return fail("%s: matrix has %d vertices %d edges, expected %d and %d", what, g->n_v, g->n_e, m.n, (int)m.e.size());
    for (int v = 0; v < m.n; ++v) for (int w = 0; w < m.n; ++w) {
        auto it = m.e.find({std::min(v, w), std::max(v, w)}); double e = it == m.e.end() ? NX_ABSENT_EDGE_WEIGHT : it->second;
        if (g->weights[w * m.n + v] != e) return fail("%s: matrix weight %d-%d is %g, expected %g", what, v, w, g->weights[w * m.n + v], e);
    }
}
static void check_lst(const NXGraphAdjLst *g, const GModel &m, const char *what) {
    step();
    if (g->n_v != m.n || g->n_e != (int)m.e.size()) return fail("%s: list has %d vertices %d edges, expected %d and %d", what, g->n_v, g->n_e, m.n, (int)m.e.size());
    for (int v = 0; v < m.n; ++v) {
        std::map<int, double> got, exp;
        int cnt = 0;
        for (NXGraphEdge *e = g->edges[v]; e; e = e->next) { if (++cnt > m.n + 2) return fail("%s: edge list of %d is too long", what, v); if (got.count(e->v)) return fail("%s: duplicate edge %d-%d", what, v, e->v); got[e->v] = e->weight; }
        for (auto &x : m.e) { if (x.first.first == v) exp[x.first.second] = x.second; if (x.first.second == v) exp[x.first.first] = x.second; }
        if (got != exp) return fail("%s: edges of vertex %d are wrong", what, v);
        for (int w = -1; w <= m.n; ++w) { NXGraphEdge *e = nx_graph_edge_list_seach(g->edges[v], w); if ((e != nullptr) != (exp.count(w) > 0) || (e && (e->v != w || e->weight != exp[w]))) return fail("%s: searching %d in the edges of %d", what, w, v); }
    }
}
static void run_graph(int n, const std::vector<Op> &ops, const char *name) {
    size_t h0 = heap();
    {
        GModel m; m.n = n;
        NXGraphAdjMat *a = nx_graph_new_adj_mat(name, n); NXGraphAdjLst *l = nx_graph_new_adj_lst(name, n);
        if (S(a->name) != (name ? name : "G") || S(l->name) != (name ? name : "G")) fail("graph name");
        check_mat(a, m, "new"); check_lst(l, m, "new");
        for (auto &o : ops) {
            nx_graph_insert_adj_mat(a, o.v, o.w, o.x); nx_graph_insert_adj_lst(l, o.v, o.w, o.x); m.ins(o.v, o.w, o.x);
            check_mat(a, m, "insert"); check_lst(l, m, "insert");
            uint64_t h = n; for (auto &x : m.e) h = mix(mix(h, x.first.first * 64 + x.first.second), hash_bytes(&x.second, 8)); state(h);
        }
        nx_graph_free_adj_mat(a); nx_graph_free_adj_lst(l);
    }
    if (heap() != h0) fail("graph memory leaks");
}
static void p14() {
    auto seqs = [](const char *g, int n, const V &ws, int L) {
        std::vector<Op> ops; for (int v = 0; v < n; ++v) for (int w = 0; w < n; ++w) for (double x : ws) ops.push_back({v, w, x});
        uint64_t N = 1; for (int i = 0; i < L; ++i) N *= ops.size();
        for (uint64_t k = 0; k < N; ++k) if (begin(g)) {
            std::vector<Op> s; uint64_t r = k; for (int i = 0; i < L; ++i) { s.push_back(ops[r % ops.size()]); r /= ops.size(); }
            describe([&] { S t = fmt("%d vertices", n); for (auto &o : s) t += fmt(" %d-%d:%g", o.v, o.w, o.x); return t; });
            run_graph(n, s, k % 2 ? "net" : nullptr);
        }
    };
    seqs("insert3", 3, {1.0, -2.5}, pick(4, 5));
    seqs("insert2", 2, {0.0, 1e300, -1.0}, pick(4, 5));
    seqs("insert4", 4, {3.0}, pick(4, 5));
    for (int n = 0; n <= pick(14, 40); ++n) for (int pat = 0; pat < 6; ++pat) if (begin("sizes")) {
        std::vector<Op> s;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            bool use = pat == 0 ? i < j : pat == 1 ? i > j : pat == 2 ? true : pat == 3 ? i == 0 : pat == 4 ? abs(i - j) == 1 : (i * 7 + j * 3) % 5 == 0;
            if (use) s.push_back({i, j, i * 100.0 + j});
        }
        describe([&] { return fmt("%d vertices, pattern %d", n, pat); });
        run_graph(n, s, "g");
    }
    for (int n : sizes(pick(300, 1100), 16)) for (int pat = 0; pat < 5; ++pat) if (begin("large")) { // checked now and then and at the end
        describe([&] { return fmt("%d vertices, pattern %d", n, pat); });
        size_t h0 = heap();
        {
            GModel m; m.n = n; NXGraphAdjMat *a = nx_graph_new_adj_mat("big", n); NXGraphAdjLst *l = nx_graph_new_adj_lst("big", n); int cnt = 0, tot = pat == 0 ? 2 * (n - 1) : pat == 4 ? n : 3 * n;
            for (int i = 0; i < tot; ++i) { int v = pat == 0 ? (i % 2 ? 0 : 1 + i / 2) : pat == 1 ? i * 7 % n : pat == 2 ? n - 1 - i % n : pat == 3 ? (int)(i * 2654435761u >> 9) % n : i, w = pat == 0 ? (i % 2 ? 1 + i / 2 : n - 1) : pat == 1 ? (i * 11 + 3) % n : pat == 2 ? i % 2 ? 0 : n - 1 : pat == 3 ? (int)(i * 40503u >> 3) % n : n - 1 - i; double x = i * .5 - 3;
                nx_graph_insert_adj_mat(a, v, w, x); nx_graph_insert_adj_lst(l, v, w, x); m.ins(v, w, x); step(2); if (++cnt % (tot / 5 + 1) == 0) { check_mat(a, m, "filling"); check_lst(l, m, "filling"); } }
            check_mat(a, m, "filled"); check_lst(l, m, "filled"); nx_graph_free_adj_mat(a); nx_graph_free_adj_lst(l); state(mix(n, pat));
        }
        if (heap() != h0) fail("graph memory leaks");
    }
    for (int n : {30, 60}) for (int pat = 0; pat < 2; ++pat) if (begin("complete")) { // every vertex with every other, updated once
        size_t h0 = heap(); { GModel m; m.n = n; NXGraphAdjMat *a = nx_graph_new_adj_mat(nullptr, n); NXGraphAdjLst *l = nx_graph_new_adj_lst(nullptr, n); for (int r = 0; r < 2; ++r) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int v = pat ? n - 1 - i : i, w = (j + r * 3) % n; double x = r * 1000 + i * 10 + j; nx_graph_insert_adj_mat(a, v, w, x); nx_graph_insert_adj_lst(l, v, w, x); m.ins(v, w, x); } check_mat(a, m, "complete"); check_lst(l, m, "complete"); nx_graph_free_adj_mat(a); nx_graph_free_adj_lst(l); state(mix(n, pat)); } if (heap() != h0) fail("graph memory leaks"); }
    for (int n : sizes(pick(3000, 70000))) if (begin("names")) { S nm(n, 'x'); nm[n - 1] = 'y'; NXGraphAdjMat *a = nx_graph_new_adj_mat(nm.c_str(), 2); NXGraphAdjLst *l = nx_graph_new_adj_lst(nm.c_str(), 2); step(2); if (nm != a->name || nm != l->name) fail("name of length %d", n); nx_graph_free_adj_mat(a); nx_graph_free_adj_lst(l); state(n); }
}

// ------------------------------------------------------------------ P15
template <class T> static void check_stats(const std::vector<T> &x0) {
    std::vector<T> s = x0; std::sort(s.begin(), s.end()); int n = s.size();
    T *x = (T *)malloc(n * sizeof(T) + (n == 0)); if (n) memcpy(x, x0.data(), n * sizeof(T));
    NXStatistics1D st; memset(&st, 0x5a, sizeof st);
    if constexpr (sizeof(T) == 8) nx_dstatistics_1d(&st, n, x); else nx_istatistics_1d(&st, n, (int *)x);
    step();
    std::vector<T> after(x, x + n); std::sort(after.begin(), after.end());
    if (after != s) fail("the samples are not kept");
    free(x);
    auto med = [&](int a, int b) -> long double { int k = b - a; return k % 2 ? (long double)s[a + k / 2] : ((long double)s[a + k / 2 - 1] + (long double)s[a + k / 2]) / 2; };
    long double mean = 0, sd = 0, me = 0, lq = 0, uq = 0, mn = 0, mx = 0, scale = 1;
    if (n) {
        for (T v : s) { mean += v; scale = std::max(scale, fabsl((long double)v)); } mean /= n;
        for (T v : s) sd += (v - mean) * (v - mean);
        sd = n > 1 ? sqrtl(sd / (n - 1)) : 0;
        me = med(0, n); lq = n == 1 ? (long double)s[0] : med(0, n / 2); uq = n == 1 ? (long double)s[0] : med((n + 1) / 2, n); mn = s[0]; mx = s[n - 1];
    }
    auto ck = [&](const char *w, double g, long double e) { if (!(fabsl(g - e) <= 1e-12L * scale)) { S t; for (T v : x0) t += fmt(" %.17g", (double)v); fail("%s of {%s } is %.17g, expected %.17Lg", w, t.c_str(), g, e); } };
    if (st.n != n) fail("n is %d, expected %d", st.n, n);
    ck("mean", st.mean, mean); ck("median", st.median, me); ck("lower quartile", st.lower_quartile, lq); ck("upper quartile", st.upper_quartile, uq);
    ck("interquartile range", st.interquartile_range, uq - lq); ck("stdev", st.stdev, sd); ck("min", st.min, mn); ck("max", st.max, mx);
    state(hash_bytes(&st, sizeof st));
}
template <class T> static void stat_seqs(const char *g, const std::vector<T> &vals, int L) {
    for (int n = 0; n <= L; ++n) { uint64_t N = 1; for (int i = 0; i < n; ++i) N *= vals.size();
        for (uint64_t k = 0; k < N; ++k) if (begin(g)) {
            std::vector<T> x; uint64_t r = k; for (int i = 0; i < n; ++i) { x.push_back(vals[r % vals.size()]); r /= vals.size(); }
            describe([&] { S t; for (T v : x) t += fmt(" %.17g", (double)v); return "samples" + t; });
            check_stats(x);
        } }
}
static void p15() {
    stat_seqs<double>("real", {-3.5, 0, 1.25, 40}, pick(8, 10));
    stat_seqs<double>("real-wide", {-1e15, -1e-9, 0.1, 1e15, -0.0}, pick(6, 8));
    stat_seqs<int>("int", {-3, 0, 1, 7}, pick(8, 10));
    stat_seqs<int>("int-extreme", {INT_MIN, INT_MAX, -1, 1073741824, 0}, pick(6, 8));
    for (int n = 0; n <= pick(120, 400); ++n) for (int p = 0; p < 12; ++p) if (begin("length")) {
        std::vector<double> d; std::vector<int> v;
        for (int i = 0; i < n; ++i) { int t = p == 0 ? i : p == 1 ? n - i : p == 2 ? 5 : p == 3 ? (i * 37) % 101 : p == 4 ? -(i * i % 67) : p == 5 ? (i % 2 ? i : -i) : p == 6 ? (i < n / 2) : p == 7 ? (i == n - 1 ? -1000 : 3) : p == 8 ? (i == 0 ? 1000 : 3) : p == 9 ? i % 3 - 1 : p == 10 ? 1000000 + i % 7 : -1000000 - i * 13 % 29; d.push_back(t + 0.25); v.push_back(t); }
        describe([&] { return fmt("%d samples of pattern %d", n, p); });
        check_stats(d); check_stats(v);
    }
    for (int n : sizes(pick(70000, 1000000))) for (int p = 0; p < 8; ++p) if (begin("long")) {
        std::vector<double> d; std::vector<int> v; uint32_t x = n + p;
        for (int i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; int t = p == 0 ? i : p == 1 ? n - i : p == 2 ? 5 : p == 3 ? (int)(x >> 8) % 1000 : p == 4 ? (int)(x >> 4) - (1 << 27) : p == 5 ? (i % 2 ? i : -i) : p == 6 ? (i == n - 1 ? -1000 : 3) : (i == n / 2 ? 100000 : i % 3); d.push_back(t + 0.25); v.push_back(t); }
        describe([&] { return fmt("%d samples of pattern %d", n, p); });
        size_t h0 = heap(); check_stats(d); check_stats(v); if (heap() != h0) fail("statistics of %d leak", n);
    }
    V dv = {-DBL_MAX, -1e10, -1.5, -1, -DBL_MIN, -4.9e-324, -0.0, 0.0, 4.9e-324, DBL_MIN, 0.5, 1, 1 + DBL_EPSILON, 1e10, DBL_MAX, INFINITY, -INFINITY};
    std::vector<int> iv = {INT_MIN, INT_MIN + 1, -65536, -2, -1, 0, 1, 2, 65535, 1 << 30, INT_MAX - 1, INT_MAX};
    for (double a : dv) for (double b : dv) if (begin("scalar-real")) {
        describe([&] { return fmt("%g and %g", a, b); }); step(7); state(mix(hash_bytes(&a, 8), hash_bytes(&b, 8)));
        auto sg = [](int x) { return (x > 0) - (x < 0); };
        if (sg(nx_compare_double_incr(&a, &b)) != (a > b) - (a < b)) fail("comparing %g and %g", a, b);
        if (nx_min_d(a, b) != std::min(a, b) || nx_max_d(a, b) != std::max(a, b)) fail("double min/max of %g and %g", a, b);
        float fa = a, fb = b; if (nx_min_s(fa, fb) != std::min(fa, fb) || nx_max_s(fa, fb) != std::max(fa, fb)) fail("float min/max of %g and %g", a, b);
        if (nx_signum(a) != (a > 0) - (a < 0)) fail("signum of %g is %d", a, nx_signum(a));
    }
    for (int a : iv) for (int b : iv) if (begin("scalar-int")) {
        describe([&] { return fmt("%d and %d", a, b); }); step(3); state(mix(a, b));
        auto sg = [](int x) { return (x > 0) - (x < 0); };
        if (sg(nx_compare_int_incr(&a, &b)) != (a > b) - (a < b)) fail("comparing %d and %d", a, b);
        if (nx_min_i(a, b) != std::min(a, b) || nx_max_i(a, b) != std::max(a, b)) fail("min/max of %d and %d", a, b);
    }
    for (int i = -pick(20000, 200000); i <= pick(20000, 200000); ++i) if (begin("erf")) {
        double x = i * (8.0 / pick(20000, 200000)); double e = nx_erf(x); step(); state(hash_bytes(&e, 8));
        if (!(fabs(e - erf(x)) <= 1.6e-7)) fail("erf(%g) is %.9g, expected %.9g", x, e, erf(x));
        if (fabs(e + nx_erf(-x)) > 1e-8) fail("erf is not odd at %g", x);
    }
}

// ------------------------------------------------------------------ P16
static V mat(int m, int n, uint64_t seed) { V a(m * n); for (auto &x : a) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; x = (double)((int)(seed >> 40) % 19 - 9); } return a; }
static S show(int m, int n, const double *a, int ld) { S t; for (int r = 0; r < m; ++r) { t += r ? " ; " : ""; for (int c = 0; c < n; ++c) t += fmt("%.9g ", a[c * ld + r]); } return t; }
static bool near(double a, double b, double tol) { return fabs(a - b) <= tol; }
template <class T> struct Svd;
template <> struct Svd<double> {
    static void os(double *s, int m, int n, double *a, int l) { nx_dsvd_only_s(s, m, n, a, l); }
    static void us(double *u, int lu, double *s, int m, int n, double *a, int l) { nx_dsvd_us(u, lu, s, m, n, a, l); }
    static void sv(double *s, double *v, int lv, int m, int n, double *a, int l) { nx_dsvd_svt(s, v, lv, m, n, a, l); }
    static void usv(double *u, int lu, double *s, double *v, int lv, int m, int n, double *a, int l) { nx_dsvd_usvt(u, lu, s, v, lv, m, n, a, l); }
};
template <> struct Svd<float> {
    static void os(float *s, int m, int n, float *a, int l) { nx_ssvd_only_s(s, m, n, a, l); }
    static void us(float *u, int lu, float *s, int m, int n, float *a, int l) { nx_ssvd_us(u, lu, s, m, n, a, l); }
    static void sv(float *s, float *v, int lv, int m, int n, float *a, int l) { nx_ssvd_svt(s, v, lv, m, n, a, l); }
    static void usv(float *u, int lu, float *s, float *v, int lv, int m, int n, float *a, int l) { nx_ssvd_usvt(u, lu, s, v, lv, m, n, a, l); }
};
template <class T> static T *xbuf(size_t n, T v) { T *p = (T *)malloc(n * sizeof(T) + 1); for (size_t i = 0; i < n; ++i) p[i] = v; return p; }
template <class T> static void check_svd(int m, int n, const V &A, int pad) {
    double tol = sizeof(T) == 8 ? 1e-11 : 2e-4; double nrm = 0; for (double x : A) nrm = std::max(nrm, fabs(x)); if (nrm == 0) nrm = 1; double at = tol * nrm * std::max(m, n);
    int k = std::min(m, n), la = m + pad, lu = m + pad, lv = n + pad;
    std::vector<T> Sv[4]; for (auto &x : Sv) x.resize(k); T *U[4] = {}, *W[4] = {};
    const T G = 12345;
    for (int w = 0; w < 4; ++w) { // s, us, svt, usvt
        T *a = xbuf<T>((size_t)la * n, G), *s = xbuf<T>(k, G), *u = xbuf<T>((size_t)lu * m, G), *v = xbuf<T>((size_t)lv * n, G);
        for (int c = 0; c < n; ++c) for (int r = 0; r < m; ++r) a[c * la + r] = (T)A[c * m + r];
        if (w == 0) Svd<T>::os(s, m, n, a, la); else if (w == 1) Svd<T>::us(u, lu, s, m, n, a, la); else if (w == 2) Svd<T>::sv(s, v, lv, m, n, a, la); else Svd<T>::usv(u, lu, s, v, lv, m, n, a, la);
        step();
        for (int i = 0; i < k; ++i) { Sv[w][i] = s[i]; if (!(s[i] >= 0) || (i && s[i] > s[i - 1] + at)) fail("singular values are not sorted or negative: %g", (double)s[i]); if (w && !near(s[i], Sv[0][i], at)) fail("singular value %d differs between variants: %g %g", i, (double)s[i], (double)Sv[0][i]); }
        double fro = 0, ss = 0; for (double x : A) fro += x * x; for (int i = 0; i < k; ++i) ss += (double)s[i] * s[i];
        if (!near(fro, ss, at * nrm * 16)) fail("squared singular values sum to %g, expected %g", ss, fro);
        auto ortho = [&](T *q, int l, int d, const char *nm) { for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { double x = 0; for (int t = 0; t < d; ++t) x += (double)q[i * l + t] * q[j * l + t]; if (!near(x, i == j, tol * d)) return fail("%s of a %dx%d matrix is not orthogonal", nm, m, n); } };
        if (w == 1 || w == 3) { ortho(u, lu, m, "U"); for (int c = 0; c < m; ++c) for (int r = m; r < lu; ++r) if (u[c * lu + r] != G) fail("padding of U is written"); } else for (int i = 0; i < lu * m; ++i) if (u[i] != G) { fail("U is written"); break; }
        if (w == 2 || w == 3) { ortho(v, lv, n, "Vt"); for (int c = 0; c < n; ++c) for (int r = n; r < lv; ++r) if (v[c * lv + r] != G) fail("padding of Vt is written"); }
        if (w == 3) for (int r = 0; r < m; ++r) for (int c = 0; c < n; ++c) { double x = 0; for (int i = 0; i < k; ++i) x += (double)u[i * lu + r] * s[i] * v[c * lv + i]; if (!near(x, A[c * m + r], at * 4)) { fail("U S Vt differs from the matrix at %d,%d: %g, expected %g [%s]", r, c, x, A[c * m + r], show(m, n, A.data(), m).c_str()); break; } }
        if (w == 1) for (int i = 0; i < k; ++i) { double x = 0; for (int c = 0; c < n; ++c) { double d = 0; for (int r = 0; r < m; ++r) d += (double)u[i * lu + r] * A[c * m + r]; x += d * d; } if (!near(sqrt(x), s[i], at * 4)) { fail("left singular vector %d", i); break; } }
        if (w == 2) for (int i = 0; i < k; ++i) { double x = 0; for (int r = 0; r < m; ++r) { double d = 0; for (int c = 0; c < n; ++c) d += (double)v[c * lv + i] * A[c * m + r]; x += d * d; } if (!near(sqrt(x), s[i], at * 4)) { fail("right singular vector %d", i); break; } }
        free(a); free(s); free(u); free(v);
    }
    uint64_t h = m * 8 + n; for (int i = 0; i < k; ++i) h = mix(h, (uint64_t)(Sv[3][i] * 1000 + 0.5)); state(h);
}
static void check_sym(int n, int nr, const V &A0, int pad, int rhs, double sc = 1) { // A symmetric n x n
    int la = n + pad, lb = n + pad; // solve with each triangle
    // nonsingular? elimination in long double
    V A = A0; std::vector<long double> L(A.begin(), A.end()); for (double &x : A) x *= sc; long double mind = 1e30; { for (int k = 0; k < n; ++k) { int p = k; for (int i = k; i < n; ++i) if (fabsl(L[k * n + i]) > fabsl(L[k * n + p])) p = i; mind = std::min(mind, fabsl(L[k * n + p])); if (L[k * n + p] == 0) { mind = 0; break; } for (int c = 0; c < n; ++c) std::swap(L[c * n + k], L[c * n + p]); for (int i = k + 1; i < n; ++i) { long double f = L[k * n + i] / L[k * n + k]; for (int c = 0; c < n; ++c) L[c * n + i] -= f * L[c * n + k]; } } }
    bool zero = true; for (double x : A) zero &= x == 0;
    if (mind < 1e-9 && !zero) return; // near singular: nothing is promised
    for (int ul = 0; ul < 2; ++ul) {
        double *a = xbuf<double>((size_t)la * n, 777), *b = xbuf<double>((size_t)lb * nr, 777); int *ip = xbuf<int>(n, 0); V B(n * nr);
        for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) if (ul == 0 ? r <= c : r >= c) a[c * la + r] = A[c * n + r]; // the other triangle holds garbage
        for (int c = 0; c < nr; ++c) for (int r = 0; r < n; ++r) b[c * lb + r] = B[c * n + r] = ((r + c + rhs) % 3 == 0) + 2 * ((r + rhs) % 2) - (c == r);
        NXBool ok = nx_dsym_solver(ul ? NX_SYMMETRIC_LOWER : NX_SYMMETRIC_UPPER, n, nr, a, la, b, lb, ip); step();
        if ((bool)ok == zero) fail("solver returns %d for [%s]", (int)ok, show(n, n, A.data(), n).c_str());
        if (ok) {
            for (int c = 0; c < nr; ++c) for (int r = 0; r < n; ++r) { double x = 0; for (int k = 0; k < n; ++k) x += A[k * n + r] * b[c * lb + k]; if (!near(x, B[c * n + r], 1e-8)) { fail("solution of [%s] (triangle %d) has residual %g", show(n, n, A.data(), n).c_str(), ul, x - B[c * n + r]); r = n; c = nr; } }
            for (int c = 0; c < nr; ++c) for (int r = n; r < lb; ++r) if (b[c * lb + r] != 777) fail("padding is written");
            state(hash_bytes(b, 8));
        }
        free(a); free(b); free(ip);
    }
    if (nr == 1 && pad == 0 && (n == 2 || n == 3)) {
        V a = A; if (n == 2) a[2] = 99; else a[3] = a[6] = a[7] = 99; // only the lower triangle counts
        V b(n), B(n); for (int r = 0; r < n; ++r) b[r] = B[r] = r + 1 + rhs; V a0 = a;
        NXBool ok = n == 2 ? nx_dmat2_sym_solve_single(a.data(), b.data()) : nx_dmat3_sym_solve_single(a.data(), b.data()); step();
        if ((bool)ok == zero) fail("small solver returns %d", (int)ok);
        if (a != a0) fail("the small solver changes its matrix");
        if (ok) for (int r = 0; r < n; ++r) { double x = 0; for (int k = 0; k < n; ++k) x += A[k * n + r] * b[k]; if (!near(x, B[r], 1e-8)) fail("small solver residual %g", x - B[r]); }
    }
}
static void inv3(const V &A, const char *w) {
    double det = A[0] * (A[4] * A[8] - A[5] * A[7]) - A[3] * (A[1] * A[8] - A[2] * A[7]) + A[6] * (A[1] * A[5] - A[2] * A[4]);
    double I[9], D = nx_dmat3_inv(I, A.data()), d2 = nx_dmat3_det(A.data()); float Af[9], If[9], Jf[9]; for (int i = 0; i < 9; ++i) Af[i] = A[i]; float Df = nx_smat3_inv(If, Af); double Dj = nx_sdmat3_inv(Jf, Af); step(4);
    if (D != det || d2 != det || Df != det || Dj != det) fail("%s: determinant of [%s] is %g %g %g %g, expected %g", w, show(3, 3, A.data(), 3).c_str(), D, d2, Df, Dj, det);
    for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) {
        double x = 0, y = 0, z = 0; for (int k = 0; k < 3; ++k) { x += A[k * 3 + r] * I[c * 3 + k]; y += A[k * 3 + r] * If[c * 3 + k]; z += A[k * 3 + r] * Jf[c * 3 + k]; }
        double e = det != 0 && r == c;
        if (!near(x, e, 1e-10) || !near(y, e, 1e-3) || !near(z, e, 1e-3)) { fail("%s: inverse of [%s] is wrong at %d,%d: %g %g %g", w, show(3, 3, A.data(), 3).c_str(), r, c, x, y, z); return; }
        if (det == 0 && (I[c * 3 + r] != 0 || If[c * 3 + r] != 0 || Jf[c * 3 + r] != 0)) fail("%s: singular inverse is not zero", w);
    }
    state(hash_bytes(I, sizeof I));
}
static void p16() {
    // general matrices with leading dimensions
    for (int m = 1; m <= 5; ++m) for (int n = 1; n <= 5; ++n) for (int k = 1; k <= 4; ++k) for (int pad = 0; pad < 8; ++pad) if (begin("mul-ld")) {
        describe([&] { return fmt("%dx%d by %dx%d padding %d", m, k, k, n, pad); });
        int la = m + (pad & 1) * 2, lb = k + (pad >> 1 & 1), lc = m + (pad >> 2 & 1) * 3; V A = mat(m, k, m * 100 + n), B = mat(k, n, k * 31 + pad);
        double *a = xbuf<double>(la * k, NAN), *b = xbuf<double>(lb * n, NAN), *c = xbuf<double>(lc * n, 555);
        for (int j = 0; j < k; ++j) for (int i = 0; i < m; ++i) a[j * la + i] = A[j * m + i];
        for (int j = 0; j < n; ++j) for (int i = 0; i < k; ++i) b[j * lb + i] = B[j * k + i];
        nx_dmat_mul(m, n, k, a, la, b, lb, c, lc); step();
        for (int j = 0; j < n; ++j) for (int i = 0; i < lc; ++i) { double e = 555; if (i < m) { e = 0; for (int t = 0; t < k; ++t) e += A[t * m + i] * B[j * k + t]; } if (c[j * lc + i] != e) fail("product element %d,%d is %g, expected %g", i, j, c[j * lc + i], e); }
        state(hash_bytes(c, lc * n * 8));
        nx_dmat_set(m, n, c, lc, 7.5); for (int j = 0; j < n; ++j) for (int i = 0; i < lc; ++i) if (c[j * lc + i] != (i < m ? 7.5 : 555)) fail("set writes element %d,%d", i, j);
        nx_dmat_set_zero(m, n, c, lc); for (int j = 0; j < n; ++j) for (int i = 0; i < lc; ++i) if (c[j * lc + i] != (i < m ? 0 : 555)) fail("set_zero writes element %d,%d", i, j);
        free(a); free(b); free(c);
    }
    for (int m = 1; m <= pick(24, 60); ++m) for (int n = 1; n <= pick(24, 60); ++n) if (begin("transpose")) {
        describe([&] { return fmt("%dx%d", m, n); });
        double *a = xbuf<double>(m * n, 0); for (int i = 0; i < m * n; ++i) a[i] = i + 1; size_t h0 = heap();
        nx_dmat_transpose(m, n, a); step(); if (heap() != h0) fail("transposing leaks");
        for (int r = 0; r < m; ++r) for (int c = 0; c < n; ++c) if (a[r * n + c] != c * m + r + 1) { fail("transposed element %d,%d of %dx%d", r, c, m, n); r = m; c = n; }
        state(hash_bytes(a, m * n * 8)); free(a);
    }
    V iv = {0, -0.0, 1, -1, 0.1, 1.0 / 3, DBL_MAX, -DBL_MAX, DBL_MIN, 4.9e-324, 1e-300, 123456789012345678.0, M_PI, -1e22, 9007199254740993.0};
    for (int m = 1; m <= 7; ++m) for (int n = 1; n <= 7; ++n) for (int s = 0; s < pick(15, 120); ++s) if (begin("text")) {
        describe([&] { return fmt("%dx%d values from %d", m, n, s); });
        V A(m * n); for (int i = 0; i < m * n; ++i) A[i] = iv[(i * (1 + s / 15) + s) % iv.size()];
        char *b = nullptr; size_t l = 0; FILE *f = open_memstream(&b, &l); nx_dmat_xwrite(f, m, n, A.data()); fclose(f); step(2);
        S t(b, l); free(b);
        auto rd = [&](const S &txt, int &mm, int &nn, V &o) -> int { bool ok; double *r = nullptr; mm = nn = -1; FILE *g = fmemopen((void *)txt.data(), txt.size(), "r"); if (!g) return -2; ok = guarded([&] { r = nx_dmat_xread(g, &mm, &nn); }); fclose(g); if (!ok) return -1; if (!r) { return 0; } o.assign(r, r + mm * nn); nx_free(r); return 1; };
        int mm, nn; V o; int rc = rd(t, mm, nn, o);
        if (rc != 1 || mm != m || nn != n || memcmp(o.data(), A.data(), m * n * 8)) fail("reading back a %dx%d matrix gives %d: %dx%d", m, n, rc, mm, nn);
        rc = rd(t.substr(0, t.size() - 1), mm, nn, o); if (rc != 1 || mm != m || nn != n || memcmp(o.data(), A.data(), m * n * 8)) fail("a missing final newline loses data (%d: %dx%d)", rc, mm, nn);
        // every ragged variant: one more or one less number on one row
        if (s == 0 && m > 1) for (int r = 0; r < m; ++r) for (int d = 0; d < 2; ++d) { S q; int row = 0; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); S line = t.substr(p, e - p); if (row == r) { if (d) line += " 5"; else { size_t sp = line.rfind(' '); line = sp == S::npos ? "" : line.substr(0, sp); } } q += line + "\n"; p = e + 1; ++row; } rc = rd(q, mm, nn, o); step(); if (rc != -1) fail("ragged rows are accepted (%d)", rc); }
        state(t);
    }
    for (int k = 0; k < 3; ++k) if (begin("text-empty")) { S t = k == 0 ? S("") : k == 1 ? S("\n") : S("  \n"); char z = 0; FILE *g = t.empty() ? fopen("/dev/null", "r") : fmemopen((void *)t.data(), t.size(), "r"); (void)z; int mm = 9, nn = 9; double *r = (double *)1; bool ok = guarded([&] { r = nx_dmat_xread(g, &mm, &nn); }); fclose(g); step(); if (!ok || r || mm || nn) fail("an empty matrix text gives %dx%d", mm, nn); state(k); }
    for (int m : {1, 2, 7, 16, 17, 33}) for (int n : {1, 3, 8, 16, 31, 40}) for (int k : {1, 2, 15, 16, 17, 33, 65}) for (int pad = 0; pad < 3; ++pad) if (begin("mul-large")) {
        describe([&] { return fmt("%dx%d by %dx%d padding %d", m, k, k, n, pad); });
        int la = m + pad, lb = k + 2 * pad, lc = m + 3 * pad; V A = mat(m, k, m * 100 + n), B = mat(k, n, k * 31 + pad); double *a = xbuf<double>(la * k, NAN), *b = xbuf<double>(lb * n, NAN), *c = xbuf<double>(lc * n, 555);
        for (int j = 0; j < k; ++j) for (int i = 0; i < m; ++i) a[j * la + i] = A[j * m + i]; for (int j = 0; j < n; ++j) for (int i = 0; i < k; ++i) b[j * lb + i] = B[j * k + i]; nx_dmat_mul(m, n, k, a, la, b, lb, c, lc); step();
        for (int j = 0; j < n; ++j) for (int i = 0; i < lc; ++i) { double e = 555; if (i < m) { e = 0; for (int t = 0; t < k; ++t) e += A[t * m + i] * B[j * k + t]; } if (c[j * lc + i] != e) { fail("product element %d,%d of %dx%dx%d is %g, expected %g", i, j, m, k, n, c[j * lc + i], e); j = n; break; } } state(hash_bytes(c, lc * n * 8));
        nx_dmat_set(m, n, c, lc, 7.5); for (int j = 0; j < n; ++j) for (int i = 0; i < lc; ++i) if (c[j * lc + i] != (i < m ? 7.5 : 555)) { fail("set writes element %d,%d", i, j); j = n; break; } nx_dmat_set_zero(m, n, c, lc); for (int j = 0; j < n; ++j) for (int i = 0; i < lc; ++i) if (c[j * lc + i] != (i < m ? 0 : 555)) { fail("set_zero writes element %d,%d", i, j); j = n; break; } free(a); free(b); free(c); }
    for (int m : sizes(pick(300, 1100), 32)) for (int n : {1, 2, 3, 17, 64, 100, 257}) for (int sw = 0; sw < 2; ++sw) if (begin("transpose-large")) {
        int M = sw ? n : m, Nn = sw ? m : n; describe([&] { return fmt("%dx%d", M, Nn); }); double *a = xbuf<double>((size_t)M * Nn, 0); for (int i = 0; i < M * Nn; ++i) a[i] = i + 1; size_t h0 = heap(); nx_dmat_transpose(M, Nn, a); step(); if (heap() != h0) fail("transposing leaks"); for (int r = 0; r < M; ++r) for (int c = 0; c < Nn; ++c) if (a[(size_t)r * Nn + c] != (double)c * M + r + 1) { fail("transposed element %d,%d of %dx%d", r, c, M, Nn); r = M; c = Nn; } state(mix(M, Nn)); free(a); }
    for (int m : {1, 2, 9, 33, 127, 128, 129, 300}) for (int n : {1, 2, 9, 31, 64, 127, 128, 129, 300}) if (begin("text-large")) {
        describe([&] { return fmt("%dx%d", m, n); }); V A(m * n); for (int i = 0; i < m * n; ++i) A[i] = i % 5 == 0 ? -1e-300 / (i + 3) : i % 3 ? 1.0 / (i + 1) : i * 1e20; char *b = nullptr; size_t l = 0; FILE *f = open_memstream(&b, &l); nx_dmat_xwrite(f, m, n, A.data()); fclose(f); step(2);
        size_t h0 = heap(); int mm = -1, nn = -1; double *r = nullptr; FILE *g = fmemopen(b, l, "r"); if (!guarded([&] { r = nx_dmat_xread(g, &mm, &nn); }) || !r || mm != m || nn != n || memcmp(r, A.data(), m * n * 8)) fail("reading back a %dx%d matrix gives %dx%d", m, n, mm, nn); nx_free(r); fclose(g); if (heap() != h0) fail("reading a %dx%d matrix leaks", m, n);
        if (m > 1 && n > 1) for (int k = 0; k < 3; ++k) { S t(b, l); if (k == 0) t += "1 2"; if (k == 1) { size_t sp = t.rfind(' ', t.size() - 2); t = t.substr(0, sp) + "\n"; } if (k == 2) { size_t e = t.find('\n'); t.insert(e, " 3"); } if (k == 0 && n == 2) t += " 3"; bool ok; g = fmemopen((void *)t.data(), t.size(), "r"); r = nullptr; ok = guarded([&] { r = nx_dmat_xread(g, &mm, &nn); }); fclose(g); step(); if (ok) { fail("ragged %dx%d matrix is accepted (%d)", m, n, k); nx_free(r); } } state(S(b, l)); free(b); }
    // 3x3
    uint64_t N = 19683;
    for (int set = 0; set < pick(2, 4); ++set) for (uint64_t k = 0; k < N; ++k) if (begin("inverse3")) {
        static const double VS[4][3] = {{-1, 0, 2}, {0, 1, 3}, {1, 2, 5}, {-4, 0, 1}}; V A(9); uint64_t r = k; for (int i = 0; i < 9; ++i) { A[i] = VS[set][r % 3]; r /= 3; }
        describe([&] { return "matrix " + show(3, 3, A.data(), 3); });
        inv3(A, "3x3");
        if (set == 0) for (double sc : {0x1p-20, 0x1p-38, 0x1p25}) { V B = A; for (double &x : B) x *= sc; inv3(B, "scaled 3x3"); } // exact powers of two: the same digits
        double fn = 0; for (double x : A) fn += x * x; if (!near(nx_dmat3_frob_norm(A.data()), sqrt(fn), 1e-12)) fail("Frobenius norm");
        double v[3] = {2, -3, 5}, e[3]; for (int i = 0; i < 3; ++i) e[i] = A[i] * 2 - A[3 + i] * 3 + A[6 + i] * 5; nx_dmat3_transform(A.data(), v); if (memcmp(v, e, sizeof v) && (v[0] != e[0] || v[1] != e[1] || v[2] != e[2])) fail("transform");
        double x[2] = {3, -2}, xp[2] = {7, 4}, q = 0, X[3] = {3, -2, 1}, XP[3] = {7, 4, 1}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q += XP[i] * A[j * 3 + i] * X[j]; if (nx_dmat3_xptFx(A.data(), x, xp) != q) fail("x'tFx is %g, expected %g", nx_dmat3_xptFx(A.data(), x, xp), q);
        V B = mat(3, 3, k), C(9), D(9); nx_dmat3_mul(C.data(), A.data(), B.data()); float fa[9], fb[9], fc[9]; for (int i = 0; i < 9; ++i) fa[i] = A[i], fb[i] = B[i]; nx_smat3_mul(fc, fa, fb);
        V U = A; U[1] = U[2] = U[5] = 0; V UU = U; UU[1] = UU[2] = UU[5] = 1e9; nx_dmat3_mul_ua(D.data(), UU.data(), B.data());
        for (int r2 = 0; r2 < 3; ++r2) for (int c = 0; c < 3; ++c) { double g = 0, u = 0; for (int t = 0; t < 3; ++t) { g += A[t * 3 + r2] * B[c * 3 + t]; u += U[t * 3 + r2] * B[c * 3 + t]; } if (C[c * 3 + r2] != g || fc[c * 3 + r2] != g) fail("3x3 product"); if (D[c * 3 + r2] != u) fail("upper triangular product"); }
        V Z = A; nx_dmat3_sub(Z.data(), B.data()); for (int i = 0; i < 9; ++i) if (Z[i] != A[i] - B[i]) fail("difference"); step(7);
        if (k == 0) { nx_dmat3_eye(Z.data()); for (int i = 0; i < 9; ++i) if (Z[i] != (i % 4 == 0)) fail("eye"); nx_dmat3_copy(Z.data(), B.data()); if (Z != B) fail("copy"); nx_dmat3_set_zero(Z.data()); for (double zz : Z) if (zz != 0) fail("set_zero"); }
    }
    for (int i = 0; i < 16; ++i) for (int j = 0; j < 16; ++j) for (int s = 0; s < 4; ++s) if (begin("mul4")) { // bilinear: all pairs of basis matrices plus an offset
        V A = mat(4, 4, s), B = mat(4, 4, s + 50); if (s == 0) { A.assign(16, 0); B.assign(16, 0); } A[i] += 3; B[j] += 5; V C(16, NAN); float fa[16], fb[16], fc[16], fs[16]; for (int t = 0; t < 16; ++t) fa[t] = A[t], fb[t] = B[t];
        describe([&] { return fmt("basis %d x %d, offset %d", i, j, s); });
        nx_dmat4_mul(C.data(), A.data(), B.data()); nx_smat4_mul(fc, fa, fb); step(2);
        for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) { double g = 0; for (int t = 0; t < 4; ++t) g += A[t * 4 + r] * B[c * 4 + t]; if (C[c * 4 + r] != g || fc[c * 4 + r] != g) { fail("4x4 product element %d,%d", r, c); r = c = 4; } }
        nx_dmat4_to_s(fs, A.data()); for (int t = 0; t < 16; ++t) if (fs[t] != (float)A[t]) fail("to_s");
        V M = A; double R[9]; for (int t = 0; t < 9; ++t) R[t] = t + 100; double tr[3] = {7, 8, 9}; nx_dmat4_set_rotation(M.data(), R); nx_dmat4_set_translation(M.data(), tr);
        for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) { double e = r == 3 ? A[c * 4 + 3] : c == 3 ? tr[r] : R[c * 3 + r]; if (M[c * 4 + r] != e) fail("rotation/translation block"); }
        nx_dmat4_eye(M.data()); for (int t = 0; t < 16; ++t) if (M[t] != (t % 5 == 0)) fail("eye 4");
        state(hash_bytes(C.data(), 128));
    }
    // symmetric systems
    auto sym = [](int n, uint64_t k, const V &vals) { V A(n * n); for (int c = 0; c < n; ++c) for (int r = c; r < n; ++r) { A[c * n + r] = A[r * n + c] = vals[k % vals.size()]; k /= vals.size(); } return A; };
    for (int k = 0; k < 343; ++k) for (int pad = 0; pad < 2; ++pad) for (int rhs = 0; rhs < 3; ++rhs) if (begin("solve2")) { V A = sym(2, k, {-7, -2, -1, 0, 1, 2, 5}); describe([&] { return show(2, 2, A.data(), 2); }); check_sym(2, 1 + pad, A, pad, rhs); for (double sc : {0x1p-40, 0x1p-20, 0x1p40}) check_sym(2, 1 + pad, A, pad, rhs, sc); }
    for (int k = 0; k < 15625; ++k) if (begin("solve3")) { V A = sym(3, k, {-3, -1, 0, 1, 2}); describe([&] { return show(3, 3, A.data(), 3); }); check_sym(3, 1, A, 0, k % 3); check_sym(3, 2, A, 2, k % 2); check_sym(3, 1, A, 0, k % 3, k % 2 ? 0x1p-40 : 0x1p40); check_sym(3, 1, A, 0, k % 3, 0x1p-20); }
    for (int n = 1; n <= pick(8, 16); ++n) for (int nr = 1; nr <= 3; ++nr) for (int s = 0; s < 40; ++s) if (begin("solve-n")) { V R = mat(n, n, n * 77 + s), A(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i * n + j] = R[i * n + j] + R[j * n + i] + (i == j ? s % 5 * 10 : 0); describe([&] { return show(n, n, A.data(), n); }); check_sym(n, nr, A, s % 3, s); }
    // SVD
    for (int m = 1; m <= 3; ++m) for (int n = 1; n <= 3; ++n) { uint64_t K = 1; for (int i = 0; i < m * n; ++i) K *= 3; for (uint64_t k = 0; k < K; ++k) if (begin("svd-small")) { V A(m * n); uint64_t r = k; for (auto &x : A) { x = (double)(r % 3) - 1 + (r % 3 == 2); r /= 3; } describe([&] { return show(m, n, A.data(), m); }); check_svd<double>(m, n, A, k % 3); check_svd<float>(m, n, A, k % 2);
        if (m == 3 && n == 3) { double U[9], Sg[3], Vt[9]; V A0 = A; nx_dmat3_svd(A.data(), U, Sg, Vt); if (A != A0) fail("3x3 SVD changes its input"); for (int r2 = 0; r2 < 3; ++r2) for (int c = 0; c < 3; ++c) { double x = 0; for (int i = 0; i < 3; ++i) x += U[i * 3 + r2] * Sg[i] * Vt[c * 3 + i]; if (!near(x, A[c * 3 + r2], 1e-10)) { fail("3x3 SVD"); r2 = c = 3; } } } } }
    for (int m = 1; m <= pick(9, 20); ++m) for (int n = 1; n <= pick(9, 20); ++n) for (int s = 0; s < 6; ++s) if (begin("svd-shapes")) { V A = mat(m, n, m * 1000 + n * 10 + s); describe([&] { return fmt("%dx%d pattern %d", m, n, s); }); check_svd<double>(m, n, A, s % 3); check_svd<float>(m, n, A, s % 3); for (double sc : {0x1p-30, 0x1p20}) { V B = A; for (double &x : B) x *= sc; check_svd<double>(m, n, B, s % 3); check_svd<float>(m, n, B, s % 3); } }
    for (int m : {1, 2, 3, 8, 17, 33}) for (int n : {1, 2, 3, 9, 16, 40}) for (int w = 0; w < 10; ++w) if (begin("leaks")) { // what a call allocates is returned
        describe([&] { return fmt("routine %d, %d x %d", w, m, n); }); V A = mat(m, n, m * 100 + n), R = mat(n, n, n); size_t h[4]; int mn = std::max(m, n);
        for (int k = 0; k < 4; ++k) {
            { V a = A, u(mn * mn), v(mn * mn), sd(mn); std::vector<float> af(A.begin(), A.end()), uf(mn * mn), vf(mn * mn), sf(mn); V q(n * n), b(n * 2, 1.0); std::vector<int> ip(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q[i * n + j] = R[i * n + j] + R[j * n + i] + (i == j) * 10 * n;
              switch (w) { case 0: nx_dsvd_only_s(sd.data(), m, n, a.data(), m); break; case 1: nx_dsvd_us(u.data(), m, sd.data(), m, n, a.data(), m); break; case 2: nx_dsvd_svt(sd.data(), v.data(), n, m, n, a.data(), m); break; case 3: nx_dsvd_usvt(u.data(), m, sd.data(), v.data(), n, m, n, a.data(), m); break;
                case 4: nx_ssvd_only_s(sf.data(), m, n, af.data(), m); break; case 5: nx_ssvd_us(uf.data(), m, sf.data(), m, n, af.data(), m); break; case 6: nx_ssvd_svt(sf.data(), vf.data(), n, m, n, af.data(), m); break; case 7: nx_ssvd_usvt(uf.data(), m, sf.data(), vf.data(), n, m, n, af.data(), m); break;
                case 8: nx_dsym_solver(NX_SYMMETRIC_UPPER, n, 2, q.data(), n, b.data(), n, ip.data()); break; case 9: nx_dsym_solver(NX_SYMMETRIC_LOWER, n, 1, q.data(), n, b.data(), n, ip.data()); nx_dmat_transpose(m, n, a.data()); break; } }
            step(); h[k] = heap(); }
        if (h[3] > h[2] && h[2] > h[1]) fail("every call leaves %ld bytes allocated", (long)(h[3] - h[2])); state(mix(m * 64 + n, w)); }
    for (int n : {1, 3, 12, 20, 31, 32, 33, 50, 64}) for (int nr : {1, 5, 9, 16, 17, 40}) for (int q = 0; q < 3; ++q) if (begin("solve-large")) { V R = mat(n, n, n * 77 + q), A(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i * n + j] = R[i * n + j] + R[j * n + i] + (i == j ? (q + 1) * 20 * n : 0); describe([&] { return fmt("%d equations, %d right sides", n, nr); }); check_sym(n, nr, A, q, q); }
    for (int m : {1, 3, 12, 16, 33, 64}) for (int n : {1, 4, 9, 16, 32, 50}) for (int q = 0; q < 2; ++q) if (begin("svd-large")) { V A = mat(m, n, m * 1000 + n * 10 + q); describe([&] { return fmt("%dx%d pattern %d", m, n, q); }); check_svd<double>(m, n, A, q); check_svd<float>(m, n, A, q); }
    for (int n : sizes(pick(5000, 70000), 8)) for (int k = 0; k < 4; ++k) if (begin("vector-large")) {
        describe([&] { return fmt("vectors of %d, pattern %d", n, k); }); double *a = xbuf<double>(n, 0); float *f = xbuf<float>(n, 0); int *iv2 = xbuf<int>(n, 0); uchar *u = xbuf<uchar>(n, 0), *w = xbuf<uchar>(n, 0); double sq = 0; int mi = -1; long ds = 0; uint32_t x = n + k;
        for (int i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; a[i] = k == 0 ? (i == n - 1) : k == 1 ? -(double)(i % 7) - 1 : k == 2 ? (int)(x >> 28) - 8 : (int)(x >> 24) % 5; f[i] = a[i]; iv2[i] = (int)a[i]; u[i] = k == 0 ? 255 : x >> 20; w[i] = k == 0 ? 0 : x >> 9; ds += ((int)u[i] - w[i]) * ((int)u[i] - w[i]); sq += a[i] * a[i]; if (mi < 0 || a[i] > a[mi]) mi = i; } step(9); state(mix(n, k));
        if (nx_dvec_norm_sq(n, a) != sq || !near(nx_dvec_norm(n, a), sqrt(sq), 1e-12 * sqrt(sq)) || nx_svec_norm_sq(n, f) != sq || !near(nx_svec_norm(n, f), sqrt(sq), 1e-6 * sqrt(sq))) fail("norm of %d", n);
        if (nx_svec_max_idx(n, f) != mi || nx_ivec_max_idx(n, iv2) != mi || nx_svec_max_val(n, f) != a[mi]) fail("maximum of %d", n); if (ds < INT_MAX && nx_ucvec_dist_sq(n, u, w) != ds) fail("byte distance of %d is %ld, expected %ld", n, (long)nx_ucvec_dist_sq(n, u, w), ds);
        float nr = nx_svec_to_unit(n, f); if (!near(nr, sqrt(sq), 1e-6 * sqrt(sq))) fail("to_unit of %d returns %g", n, nr); for (int i = 0; i < n; ++i) if (!near(f[i], sq ? a[i] / sqrt(sq) : 0, 1e-6)) { fail("unit vector of %d at %d", n, i); break; }
        double *b = xbuf<double>(n, 0); nx_dvec_copy(n, b, a); nx_dvec_axpy(n, b, -2.5, a); for (int i = 0; i < n; ++i) if (b[i] != a[i] - 2.5 * a[i]) { fail("axpy of %d at %d", n, i); break; } nx_dvec_set(n, b, 4); for (int i = 0; i < n; ++i) if (b[i] != 4) { fail("set of %d at %d", n, i); break; } nx_dvec_set_zero(n, b); nx_svec_set_zero(n, f); nx_ivec_set_zero(n, iv2); for (int i = 0; i < n; ++i) if (b[i] != 0 || f[i] != 0 || iv2[i] != 0) { fail("set_zero of %d at %d", n, i); break; }
        free(a); free(b); free(f); free(iv2); free(u); free(w); }
    // vectors
    V pv = {-2, -1, 0, 3};
    for (int n = 0; n <= 6; ++n) { uint64_t K = 1; for (int i = 0; i < n; ++i) K *= 4; for (uint64_t k = 0; k < K; ++k) if (begin("vector")) {
        double *a = xbuf<double>(n, 0); float *f = xbuf<float>(n, 0); int *iv2 = xbuf<int>(n, 0); uchar *u = xbuf<uchar>(n, 0), *w = xbuf<uchar>(n, 0); uint64_t r = k; double sq = 0; int mi = -1; long ds = 0;
        for (int i = 0; i < n; ++i) { a[i] = pv[r % 4]; f[i] = a[i]; iv2[i] = (int)a[i]; u[i] = r % 4 == 0 ? 0 : r % 4 == 1 ? 255 : r % 4 == 2 ? 128 : 7; w[i] = (i * 50 + 3) % 256; ds += ((int)u[i] - w[i]) * ((int)u[i] - w[i]); sq += a[i] * a[i]; if (mi < 0 || a[i] > a[mi]) mi = i; r /= 4; }
        describe([&] { S t; for (int i = 0; i < n; ++i) t += fmt(" %g", a[i]); return t; }); step(12); state(mix(k, n));
        if (nx_dvec_norm_sq(n, a) != sq || !near(nx_dvec_norm(n, a), sqrt(sq), 1e-12) || nx_svec_norm_sq(n, f) != sq || !near(nx_svec_norm(n, f), sqrt(sq), 1e-5)) fail("norm");
        if (nx_svec_max_idx(n, f) != mi || nx_ivec_max_idx(n, iv2) != mi) fail("index of maximum is %d %d, expected %d", nx_svec_max_idx(n, f), nx_ivec_max_idx(n, iv2), mi);
        if (n && nx_svec_max_val(n, f) != a[mi]) fail("maximum"); if (nx_ucvec_dist_sq(n, u, w) != ds) fail("byte distance");
        float nr = nx_svec_to_unit(n, f); if (!near(nr, sqrt(sq), 1e-5)) fail("to_unit returns %g", nr); for (int i = 0; i < n; ++i) if (!near(f[i], sq ? a[i] / sqrt(sq) : 0, 1e-6)) fail("unit vector");
        for (double sc : {0x1p-40, 0x1p-20, 0x1p40}) { for (int i = 0; i < n; ++i) f[i] = a[i] * sc; float ns = nx_svec_to_unit(n, f); if (!near(ns, sqrt(sq) * sc, 1e-5 * sc)) fail("to_unit of a scaled vector returns %g", ns); for (int i = 0; i < n; ++i) if (!near(f[i], sq ? a[i] / sqrt(sq) : 0, 1e-6)) fail("unit vector of a vector scaled by %g", sc); }
        double *b = xbuf<double>(n, 0); nx_dvec_copy(n, b, a); nx_dvec_axpy(n, b, -2.5, a); for (int i = 0; i < n; ++i) if (b[i] != a[i] - 2.5 * a[i]) fail("axpy"); nx_dvec_set(n, b, 4); for (int i = 0; i < n; ++i) if (b[i] != 4) fail("set"); nx_dvec_set_zero(n, b); nx_svec_set_zero(n, f); nx_ivec_set_zero(n, iv2); for (int i = 0; i < n; ++i) if (b[i] != 0 || f[i] != 0 || iv2[i] != 0) fail("set_zero");
        free(a); free(b); free(f); free(iv2); free(u); free(w);
    } }
    for (int k = 0; k < 15625; ++k) if (begin("vector3")) {
        V q = {-2, -1, 0, 1, 3}; double a[3], b[3], c[3]; float fa[4], fb[3]; int r = k; for (int i = 0; i < 3; ++i) { a[i] = fa[i] = q[r % 5]; r /= 5; } for (int i = 0; i < 3; ++i) { b[i] = fb[i] = q[r % 5]; r /= 5; }
        describe([&] { return fmt("(%g %g %g) (%g %g %g)", a[0], a[1], a[2], b[0], b[1], b[2]); }); step(9); state(k);
        double dot = 0, sq = 0, ds = 0; for (int i = 0; i < 3; ++i) { dot += a[i] * b[i]; sq += a[i] * a[i]; ds += (a[i] - b[i]) * (a[i] - b[i]); }
        nx_dvec3_cross(c, a, b); if (c[0] != a[1] * b[2] - a[2] * b[1] || c[1] != a[2] * b[0] - a[0] * b[2] || c[2] != a[0] * b[1] - a[1] * b[0]) fail("cross product");
        if (nx_dvec3_dot(a, b) != dot || nx_svec3_dot(fa, fb) != dot || nx_dvec3_norm_sq(a) != sq || nx_svec3_norm_sq(fa) != sq || nx_svec3_dist_sq(fa, fb) != ds || !near(nx_dvec3_norm(a), sqrt(sq), 1e-12)) fail("dot, norm or distance");
        double u[3]; nx_dvec3_copy(u, a); double nn = nx_dvec3_to_unit(u); if (!near(nn, sqrt(sq), 1e-12)) fail("norm returned by to_unit"); for (int i = 0; i < 3; ++i) if (!near(u[i], sq ? a[i] / sqrt(sq) : 0, 1e-12)) fail("unit vector 3");
        for (double sc : {0x1p-200, 0x1p-40, 0x1p100}) { for (int i = 0; i < 3; ++i) u[i] = a[i] * sc; nn = nx_dvec3_to_unit(u); if (!near(nn, sqrt(sq) * sc, 1e-12 * sc)) fail("norm returned by to_unit of a vector scaled by %g", sc); for (int i = 0; i < 3; ++i) if (!near(u[i], sq ? a[i] / sqrt(sq) : 0, 1e-12)) fail("unit vector of a vector scaled by %g", sc); }
        for (float hw : {-0.5f, 0x1p-30f, 1.0f, 1e6f}) { float q4[4] = {(float)a[0], (float)a[1], (float)a[2], hw}; float gw = nx_svec4h_to_euclidean(q4); if (gw != hw || q4[3] != 1) fail("homogeneous coordinate %g", hw); for (int i = 0; i < 3; ++i) if (!(fabs(q4[i] - a[i] / hw) <= 1e-6 * fabs(a[i] / hw))) fail("euclidean point of coordinate %g", hw); }
        fa[3] = 4; float w = nx_svec4h_to_euclidean(fa); if (w != 4 || fa[3] != 1) fail("homogeneous coordinate"); for (int i = 0; i < 3; ++i) if (fa[i] != (float)(a[i] / 4)) fail("euclidean point");
    }
}
void mc_run() { S p = PROP; if (p == "P14") p14(); else if (p == "P15") p15(); else p16(); }
