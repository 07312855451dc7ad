// P28: homography and epipolar estimation; P30: rotations, quaternions, cameras, plane transforms.
#include "mc.hh"
#include <algorithm>
#include <array>
#include <cfloat>
#include <cmath>
#include <functional>
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_pinhole.h"
#include "virg/nexus/nx_point_match_2d.h"
#include "virg/nexus/nx_point_match_2d_stats.h"
#include "virg/nexus/nx_quaternion.h"
#include "virg/nexus/nx_rotation_3d.h"
#include "virg/nexus/nx_transform_2d.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_usac_homography.h"
#include "virg/nexus/vg_homography.hpp"
#include "virg/nexus/vg_fundamental_matrix.hpp"
#include "virg/nexus/vg_point_correspondence_2d.hpp"
using namespace mc; using namespace virg::nexus;
typedef std::string S; typedef long double LD; typedef NXPointMatch2D PM; typedef std::vector<PM> PV; typedef std::array<double, 9> M3;

static std::vector<int> script; static size_t script_at; static int script_n; static bool script_on; static size_t script_cycles;
extern "C" float __real_nx_uniform_sampler_sample_s(NXUniformSampler *s);
extern "C" float __wrap_nx_uniform_sampler_sample_s(NXUniformSampler *s) {
    if (!script_on) return __real_nx_uniform_sampler_sample_s(s);
    size_t i = script_at++; int v = i < script.size() ? script[i] : (int)((i - script.size()) % script_n); return (v + 0.5f) / script_n;
}

static bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
static PM pm(double x, double y, double xp, double yp, int id, double cost = 0, bool in = false) { PM p; memset(&p, 0, sizeof p); p.x[0] = x; p.x[1] = y; p.xp[0] = xp; p.xp[1] = yp; p.id = 100 + id; p.idp = 500 + id; p.match_cost = cost; p.sigma_x = 1 + id % 3; p.sigma_xp = 2 + id % 2; p.is_inlier = in ? NX_TRUE : NX_FALSE; return p; }
static void mapd(const double *h, double x, double y, LD &u, LD &v, LD &s) { s = (LD)h[2] * x + (LD)h[5] * y + h[8]; u = ((LD)h[0] * x + (LD)h[3] * y + h[6]) / s; v = ((LD)h[1] * x + (LD)h[4] * y + h[7]) / s; }
static LD det3(const double *m) { return (LD)m[0] * ((LD)m[4] * m[8] - (LD)m[7] * m[5]) - (LD)m[3] * ((LD)m[1] * m[8] - (LD)m[7] * m[2]) + (LD)m[6] * ((LD)m[1] * m[5] - (LD)m[4] * m[2]); }
static M3 mul3(const double *a, const double *b) { M3 c; for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) { LD s = 0; for (int k = 0; k < 3; ++k) s += (LD)a[i + 3 * k] * b[k + 3 * j]; c[i + 3 * j] = s; } return c; }
static M3 tr3(const double *a) { M3 c; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c[i + 3 * j] = a[j + 3 * i]; return c; }
static bool eqm(const double *a, const double *b, double tol, int n = 9) { for (int i = 0; i < n; ++i) if (!(std::fabs(a[i] - b[i]) <= tol)) return false; return true; }
static bool eq_scale(const double *a, const double *b, double tol) { LD na = 0, nb = 0, d = 0; for (int i = 0; i < 9; ++i) { na += (LD)a[i] * a[i]; nb += (LD)b[i] * b[i]; d += (LD)a[i] * b[i]; } return std::fabs(std::fabs((double)(d / sqrtl(na * nb))) - 1) <= tol; }
static S show3(const double *m) { S s; for (int i = 0; i < 9; ++i) s += fmt(" %.4g", m[i]); return s; }
static bool finite_pv(const PV &v) { for (auto &p : v) for (float f : {p.x[0], p.x[1], p.xp[0], p.xp[1], p.sigma_x, p.sigma_xp}) if (!std::isfinite(f)) return false; return true; }

// column-major homographies, none of which sends the square [-20,20]^2 through infinity
static const std::vector<M3> HS = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {1, 0, 0, 0, 1, 0, 5, -3, 1}, {2, 0, 0, 0, 2, 0, 1, 1, 1}, {0, 1, 0, -1, 0, 0, 2, 0, 1}, {1.5, 0.5, 0, -0.25, 1, 0, 0, 4, 1},
    {1, 0.125, 0.015625, 0, 1, 0.0078125, 3, 2, 1}, {0.75, -0.5, -0.01, 0.5, 1.25, 0.02, -7, 8, 1}, {0.5, 0, 0, 0.125, 0.5, 0.01, 100, 20, 1}, {-1, 0, 0, 0, -1, 0, 10, 10, 1}, {4, 2, 0.0625, -3, 5, 0.03125, 20, -10, 4}};

// ---------------------------------------------------------------- inlier marking
static double hdist(const double *h, const float *a, const float *b) { LD u, v, s; mapd(h, a[0], a[1], u, v, s); double mu = (float)u, mv = (float)v; return hypot(mu - b[0], mv - b[1]); }
static double fdist(const double *F, const PM &p) { LD l[3]; for (int i = 0; i < 3; ++i) l[i] = (LD)F[i] * p.x[0] + (LD)F[3 + i] * p.x[1] + F[6 + i]; return fabsl(l[0] * p.xp[0] + l[1] * p.xp[1] + l[2]) / sqrtl(l[0] * l[0] + l[1] * l[1]); }
enum { FWD, INV, EPI };
static double dist_of(int kind, const double *m, const PM &p) { return kind == FWD ? hdist(m, p.x, p.xp) : kind == INV ? hdist(m, p.xp, p.x) : fdist(m, p); }
static int mark(int kind, const double *m, PV &v, double tol) { return kind == FWD ? nx_homography_mark_inliers(m, v.size(), v.data(), tol) : kind == INV ? nx_homography_mark_inliers_inv(m, v.size(), v.data(), tol) : nx_fundamental_mark_inliers(m, v.size(), v.data(), tol); }
static bool same_but_flag(const PM &a, const PM &b) { return a.x[0] == b.x[0] && a.x[1] == b.x[1] && a.xp[0] == b.xp[0] && a.xp[1] == b.xp[1] && a.match_cost == b.match_cost && a.sigma_x == b.sigma_x && a.sigma_xp == b.sigma_xp && a.id == b.id && a.idp == b.idp; }
static void check_marks(int kind, const double *m, const PV &before, const PV &v, int n, double tol) {
    int cnt = 0; for (size_t i = 0; i < v.size(); ++i) { double d = dist_of(kind, m, v[i]); bool in = v[i].is_inlier == NX_TRUE; cnt += in; if (v[i].is_inlier != NX_TRUE && v[i].is_inlier != NX_FALSE) fail("flag %d is %d", (int)i, v[i].is_inlier);
        if (!same_but_flag(before[i], v[i])) fail("correspondence %d is modified", (int)i);
        if (std::isnan(d) ? in : (d < tol * (1 - 1e-6) - 1e-9 && !in) || (d > tol * (1 + 1e-6) + 1e-9 && in) || (d == tol && tol > 0 && d == std::floor(d * 2) / 2 && in && kind != EPI)) fail("correspondence %d at distance %.9g (tolerance %g) is marked %s", (int)i, d, tol, in ? "inlier" : "outlier"); }
    if (cnt != n) fail("%d inliers are reported, %d are marked", n, cnt);
}
static std::vector<M3> fundamentals();
static void g_marks() {
    static const double OFFS[] = {0, 0.5, 1, 1.5, 2, 3};
    std::vector<M3> FS = fundamentals();
    for (int kind = 0; kind < 3; ++kind) { const std::vector<M3> &MS = kind == EPI ? FS : HS;
        for (size_t hi = 0; hi < MS.size(); ++hi) for (double tol : {0.25, 0.5, 1.0, 2.0}) for (int n = 0; n <= pick(6, 8); ++n) for (int bits = 0; bits < (1 << n); ++bits) if (begin("inlier-marks")) {
            describe([&] { return fmt("matrix %d kind %d tolerance %g pattern %x of %d", (int)hi, kind, tol, bits, n); });
            const double *h = MS[hi].data(); PV v; for (int i = 0; i < n; ++i) { double x = (i * 7) % 11 - 5, y = (i * 5) % 13 - 6, off = bits >> i & 1 ? OFFS[1 + (i + bits) % 5] : 0; LD u, w, s;
                if (kind == EPI) { LD l[3]; for (int k = 0; k < 3; ++k) l[k] = h[k] * x + h[3 + k] * y + h[6 + k]; LD q = l[0] * l[0] + l[1] * l[1], px = -l[0] * l[2] / q + l[1] * i / sqrtl(q), py = -l[1] * l[2] / q - l[0] * i / sqrtl(q); u = px + off * l[0] / sqrtl(q); w = py + off * l[1] / sqrtl(q); v.push_back(pm(x, y, u, w, i, 0, i & 1)); }
                else { mapd(h, x, y, u, w, s); bool d = i & 1; u += d ? off : 0; w += d ? 0 : off; v.push_back(kind == FWD ? pm(x, y, u, w, i, 0, i & 1) : pm(u, w, x, y, i, 0, i & 1)); } }
            PV before = v; int r = mark(kind, h, v, tol); step(n); check_marks(kind, h, before, v, r, tol); uint64_t fl = 0; for (auto &p : v) fl = fl * 2 + p.is_inlier; state(mix(mix(hi, fl), mix(n, kind * 8 + tol * 4)));
            if (n <= 4) for (double sc : {-3.0, 1e-9, 1e7}) { M3 k; for (int i = 0; i < 9; ++i) k[i] = h[i] * sc; PV w = before; int r3 = mark(kind, k.data(), w, tol); step(n); check_marks(kind, k.data(), before, w, r3, tol); } // a matrix is meant up to scale
            // transfer errors of the marked ones
            if (kind == FWD && r > 0) { LD ef = 0, eb = 0; double hinv[9]; LD D = det3(h); { const double *a = h; LD c[9] = {(LD)a[4] * a[8] - (LD)a[7] * a[5], (LD)a[7] * a[2] - (LD)a[1] * a[8], (LD)a[1] * a[5] - (LD)a[4] * a[2], (LD)a[6] * a[5] - (LD)a[3] * a[8], (LD)a[0] * a[8] - (LD)a[6] * a[2], (LD)a[3] * a[2] - (LD)a[0] * a[5], (LD)a[3] * a[7] - (LD)a[6] * a[4], (LD)a[6] * a[1] - (LD)a[0] * a[7], (LD)a[0] * a[4] - (LD)a[3] * a[1]}; for (int i = 0; i < 9; ++i) hinv[i] = c[i] / D; }
                for (auto &p : v) if (p.is_inlier) { ef += hdist(h, p.x, p.xp); eb += hdist(hinv, p.xp, p.x); } ef /= r; eb /= r;
                double a = nx_homography_transfer_error_fwd(h, n, v.data()), b = nx_homography_transfer_error_bwd(h, n, v.data()), c = nx_homography_transfer_error_sym(h, n, v.data());
                if (!close(a, ef, 1e-4) || !close(b, eb, 1e-4) || !close(c, (ef + eb) / 2, 1e-4)) fail("transfer errors are %g %g %g instead of %g %g %g", a, b, c, (double)ef, (double)eb, (double)(ef + eb) / 2); }
        } }
}
static void g_check() {
    static const double A[] = {-2, -1, -0.25, 0, 0.5, 1, 3}, P[] = {0, 0.2, -0.3, 0.6}, SC[] = {1, 0.01, 300};
    for (double a : A) for (double b : A) for (double c : A) for (double d : A) if (begin("homography-checks")) {
        describe([&] { return fmt("linear part %g %g %g %g", a, b, c, d); });
        for (double p : P) for (double q : P) for (double k : SC) for (double t : {0.0, 7.0}) for (double deg : {5.0, 15.0, 60.0}) {
            double h[9] = {a * k, b * k, p, c * k, d * k, q, t, -t / 2, 1}; double mc = std::cos(deg * M_PI / 180); LD X[4], Y[4], s; bool skip = false; static const int CX[] = {-1, 1, 1, -1}, CY[] = {-1, -1, 1, 1};
            for (int i = 0; i < 4; ++i) { mapd(h, CX[i], CY[i], X[i], Y[i], s); if (fabsl(s) < 1e-6) skip = true; } if (skip) continue;
            LD ax = X[2] - X[0], ay = Y[2] - Y[0], bx = X[1] - X[3], by = Y[1] - Y[3], na = sqrtl(ax * ax + ay * ay), nb = sqrtl(bx * bx + by * by); if (na < 1e-7 || nb < 1e-7) continue;
            LD vb = (ay * (X[1] - X[0]) - ax * (Y[1] - Y[0])) / na, vd = (ay * (X[3] - X[0]) - ax * (Y[3] - Y[0])) / na, cs = fabsl(ax * bx + ay * by) / (na * nb);
            if (fabsl(vb) < 1e-7 * k || fabsl(vd) < 1e-7 * k || fabsl(cs - mc) < 1e-7) continue;
            bool e = vb > 0 && vd < 0 && cs <= mc; bool g = nx_homography_check(h, mc); step(); state(mix(e, hash_bytes(h, sizeof h)));
            if (g != e) fail("h=%s: %s at %g degrees, the angle of the diagonals has cosine %Lg, sides %Lg %Lg", show3(h).c_str(), g ? "accepted" : "refused", deg, cs, vb, vd);
        }
    }
}
// all 4-subsets of a 3x3 grid without collinear triples, in all orders
typedef std::array<double, 8> Quad;
static std::vector<Quad> quads(bool all_orders) {
    std::vector<Quad> out; int id[4];
    for (id[0] = 0; id[0] < 9; ++id[0]) for (id[1] = id[0] + 1; id[1] < 9; ++id[1]) for (id[2] = id[1] + 1; id[2] < 9; ++id[2]) for (id[3] = id[2] + 1; id[3] < 9; ++id[3]) {
        bool ok = true; for (int s = 0; s < 4; ++s) { int q[3], n = 0; for (int i = 0; i < 4; ++i) if (i != s) q[n++] = id[i]; double ar = (q[1] % 3 - q[0] % 3) * (q[2] / 3 - q[0] / 3) - (q[2] % 3 - q[0] % 3) * (q[1] / 3 - q[0] / 3); if (ar == 0) ok = false; }
        if (!ok) continue; int p[4] = {0, 1, 2, 3}; do { Quad q; for (int i = 0; i < 4; ++i) { q[2 * i] = id[p[i]] % 3 + 0.125 * (id[p[i]] == 4); q[2 * i + 1] = id[p[i]] / 3; } out.push_back(q); } while (all_orders && std::next_permutation(p, p + 4));
    }
    return out;
}
static bool conditioned(const double *h, const double *x, int n) { LD mn = 1e30, mx = 0; for (int i = 0; i < n; ++i) { LD u, v, s; mapd(h, x[2 * i], x[2 * i + 1], u, v, s); mn = std::min(mn, fabsl(s)); mx = std::max(mx, fabsl(s)); } return mn > 1e-3 * mx; }
// the estimators scale the map onto the unit square so that its last entry is one, which the origin must allow
static bool origin_ok(const double *x) {
    LD dx1 = (LD)x[2] - x[4], dx2 = (LD)x[6] - x[4], sx = (LD)x[0] - x[2] + x[4] - x[6], dy1 = (LD)x[3] - x[5], dy2 = (LD)x[7] - x[5], sy = (LD)x[1] - x[3] + x[5] - x[7], den = dx1 * dy2 - dx2 * dy1, g = (sx * dy2 - dx2 * sy) / den, h = (dx1 * sy - sx * dy1) / den;
    LD a = x[2] - x[0] + g * x[2], b = x[6] - x[0] + h * x[6], d = x[3] - x[1] + g * x[3], e = x[7] - x[1] + h * x[7]; return fabsl(a * e - b * d) > 1e-6;
}
static void g_minimal() {
    std::vector<Quad> X = quads(true), Y = quads(false);
    static const double SQ[8] = {0, 0, 1, 0, 1, 1, 0, 1};
    for (size_t i = 0; i < X.size(); ++i) if (begin("unit-square")) {
        describe([&] { return fmt("quad %d", (int)i); });
        for (double k : {1.0, 10.0, 0.5, 250.0, 0.01}) for (double t : {0.0, 5.0}) { if (k == 0.01 && t) continue; double x[8], h[9], hd[9]; float xf[8], hf[9]; for (int j = 0; j < 8; ++j) { x[j] = X[i][j] * k + t; xf[j] = x[j]; } double det = nx_homography_estimate_unit(h, x), d2 = nx_transform_2d_fill_perspective_d(hd, x); float d3 = nx_transform_2d_fill_perspective_s(hf, xf); step(); (void)d3;
            if (!origin_ok(x)) continue; if (det == 0 || d2 == 0) { fail("a quadrilateral without collinear corners has determinant 0"); continue; }
            if (!conditioned(h, x, 4)) continue; double hfd[9]; for (int j = 0; j < 9; ++j) hfd[j] = hf[j];
            for (int w = 0; w < 3; ++w) for (int c = 0; c < 4; ++c) { if (w == 2 && (t != 0 || k != 1)) continue; LD u, v, s; mapd(w == 0 ? h : w == 1 ? hd : hfd, x[2 * c], x[2 * c + 1], u, v, s); if (!(fabsl(u - SQ[2 * c]) < (w == 2 ? 1e-2 : 1e-6) && fabsl(v - SQ[2 * c + 1]) < (w == 2 ? 1e-2 : 1e-6))) { fail("variant %d maps corner %d (%g,%g) to (%Lg,%Lg)", w, c, x[2 * c], x[2 * c + 1], u, v); break; } }
            state(hash_bytes(h, sizeof h)); }
    }
    for (size_t i = 0; i < X.size(); ++i) for (size_t j = 0; j < Y.size(); ++j) if (begin("four-points")) {
        describe([&] { return fmt("quads %d -> %d", (int)i, (int)j); });
        // the four correspondences lie anywhere in a longer list
        static const int IDS[][4] = {{0, 1, 2, 3}, {6, 2, 4, 0}, {3, 5, 1, 6}};
        for (double ks : {1.0, 300.0, 0.01}) for (double kd : {1.0, 300.0, 0.01}) for (auto &ids : IDS) { if ((ks != 1 || kd != 1) && &ids != &IDS[(i + j) % 3]) continue; PV v; for (int k = 0; k < 7; ++k) v.push_back(pm(40 + k * k, 3 * k, -k, 50 - k, k)); for (int k = 0; k < 4; ++k) v[ids[k]] = pm(X[i][2 * k] * ks, X[i][2 * k + 1] * ks, (Y[j][2 * k] * 2 + 3) * kd, (Y[j][2 * k + 1] * 2 - 1) * kd, ids[k]);
            double h[9] = {9, 9, 9, 9, 9, 9, 9, 9, 9}; double det = nx_homography_estimate_4pt(h, ids, v.data()); step(); double xq[8], yq[8]; for (int k = 0; k < 4; ++k) for (int c = 0; c < 2; ++c) { xq[2 * k + c] = v[ids[k]].x[c] / ks; yq[2 * k + c] = v[ids[k]].xp[c] / kd; } if (!origin_ok(xq) || !origin_ok(yq)) continue; if (det == 0) { fail("four points in general position are refused"); continue; }
            double x[8]; for (int k = 0; k < 8; ++k) x[k] = X[i][k] * ks; if (!conditioned(h, x, 4)) continue; state(hash_bytes(h, sizeof h));
            for (int k = 0; k < 4; ++k) { LD u, w, s; mapd(h, v[ids[k]].x[0], v[ids[k]].x[1], u, w, s); if (!(fabsl(u - v[ids[k]].xp[0]) < 1e-5 * kd && fabsl(w - v[ids[k]].xp[1]) < 1e-5 * kd)) { fail("point %d goes to (%Lg,%Lg) instead of (%g,%g)", k, u, w, v[ids[k]].xp[0], v[ids[k]].xp[1]); break; } } }
    }
    // linear estimation from all or from the marked correspondences
    for (size_t hi = 0; hi < HS.size(); ++hi) for (int n = 0; n <= pick(9, 12); ++n) for (int bits = 0; bits < (1 << n); ++bits) if (begin("linear-homography")) {
        describe([&] { return fmt("homography %d, %d points, inlier pattern %x", (int)hi, n, bits); });
        static const double GT[] = {0, 4, -3, 2, -5, 6, 1, -1, 5, -4, 3, -2}; // on a parabola: no three collinear
        PV v; int cnt = __builtin_popcount(bits); for (int i = 0; i < n; ++i) { double gx = GT[i] * 1.25, gy = GT[i] * GT[i] / 4; LD u, w, s; mapd(HS[hi].data(), gx, gy, u, w, s); if (bits >> i & 1) v.push_back(pm(gx, gy, u, w, i, 0, true)); else v.push_back(pm(gx, gy, 30 - u, w * 2 + i, i, 0, false)); }
        double h[9] = {7, 7, 7, 7, 7, 7, 7, 7, 7}, h7[9]; memcpy(h7, h, sizeof h); PV b = v; double sv = nx_homography_estimate_dlt_inliers(h, n, v.data()); step(n);
        if (cnt < 4) { if (sv != DBL_MAX || memcmp(h, h7, sizeof h)) fail("%d inliers give a homography", cnt); }
        else if (!eq_scale(h, HS[hi].data(), 1e-6)) fail("the homography of the inliers is%s instead of%s", show3(h).c_str(), show3(HS[hi].data()).c_str());
        else if (!(sv >= 0 && sv < 1e-2)) fail("exact data leave the residual %g", sv);
        if (bits == (1 << n) - 1) { for (auto &p : v) p.is_inlier = NX_FALSE; double g[9] = {7, 7, 7, 7, 7, 7, 7, 7, 7}; double s2 = nx_homography_estimate_dlt(g, n, v.data()); if (n < 4 ? s2 != DBL_MAX || memcmp(g, h7, sizeof g) : !eq_scale(g, HS[hi].data(), 1e-6)) fail("the homography of all points is%s instead of%s", show3(g).c_str(), show3(HS[hi].data()).c_str()); }
        state(mix(hi, mix(n, bits)));
    }
}
// ---------------------------------------------------------------- epipolar data
static M3 rot(double a, double b, double c) { M3 x = {1, 0, 0, 0, std::cos(a), std::sin(a), 0, -std::sin(a), std::cos(a)}, y = {std::cos(b), 0, -std::sin(b), 0, 1, 0, std::sin(b), 0, std::cos(b)}, z = {std::cos(c), std::sin(c), 0, -std::sin(c), std::cos(c), 0, 0, 0, 1}; M3 zy = mul3(z.data(), y.data()); return mul3(zy.data(), x.data()); }
struct Pose { M3 R; double t[3]; };
static std::vector<Pose> poses(bool many) {
    std::vector<Pose> v; static const double T[][3] = {{1, 0, 0}, {0, 1, 0}, {0.3, -0.2, 1}, {-1, 1, 0.5}, {0, 0, -1.5}, {-0.7, 0, 0.1}};
    static const double A[][3] = {{0, 0, 0}, {0.1, 0.2, 0.3}, {-0.3, 0.1, 0}, {0, 0, 1.5}, {0.2, -0.4, -0.1}, {0, 0.5, 3}}; 
    for (auto &a : A) for (auto &t : T) { if (!many && (v.size() % 5)) { v.push_back({rot(a[0], a[1], a[2]), {t[0], t[1], t[2]}}); v.back().t[0] += 0; } else v.push_back({rot(a[0], a[1], a[2]), {t[0], t[1], t[2]}}); }
    return v;
}
static M3 skewmul(const double *t, const double *R) { M3 k = {0, t[2], -t[1], -t[2], 0, t[0], t[1], -t[0], 0}; return mul3(k.data(), R); }
static std::vector<M3> fundamentals() { std::vector<M3> f; auto P = poses(false); for (size_t i = 0; i < P.size(); i += 4) { M3 e = skewmul(P[i].t, P[i].R.data()); f.push_back(e); } return f; }
static const double PX[][3] = {{0, 0, 6}, {1, 0, 5}, {-1, 1, 7}, {2, -1, 8}, {0.5, 1.5, 4.5}, {-2, -1, 6.5}, {1.5, 2, 9}, {-0.5, -1.5, 5.5}, {2.5, 1, 7.5}, {-1.5, 2.5, 8.5}, {0.25, -2, 10}, {-2.5, 0.5, 5}, {1, -2.5, 6.2}, {-0.75, 0.6, 4.2}, {3, 0.2, 9.5}, {-3, -2, 10.5}, {0.9, 0.8, 5.7}, {-1.1, -0.3, 7.9}, {2.2, 2.3, 6.8}, {-2.3, 1.7, 9.2}};
static PM see(const Pose &p, const double *X, int id, double cost = 0) { double x = X[0] / X[2], y = X[1] / X[2], Y[3]; for (int i = 0; i < 3; ++i) Y[i] = p.R[i] * X[0] + p.R[3 + i] * X[1] + p.R[6 + i] * X[2] + p.t[i]; return pm(x, y, Y[0] / Y[2], Y[1] / Y[2], id, cost, true); }
static void g_epipolar() {
    std::vector<Pose> P = poses(true);
    for (size_t pi = 0; pi < P.size(); ++pi) for (int n = 8; n <= 20; ++n) for (int rotn = 0; rotn < n; ++rotn) if (begin("linear-fundamental")) {
        describe([&] { return fmt("pose %d, %d points from %d", (int)pi, n, rotn); });
        M3 E = skewmul(P[pi].t, P[pi].R.data()); PV v; for (int i = 0; i < n; ++i) v.push_back(see(P[pi], PX[(i * 3 + rotn) % 20], i));
        double F[9]; int ids[8]; for (int k = 0; k < 8; ++k) ids[k] = (rotn + k * (n % 3 == 0 || n % 2 == 0 ? 1 : 2)) % n; { std::vector<int> q(ids, ids + 8); std::sort(q.begin(), q.end()); if (std::unique(q.begin(), q.end()) != q.end()) for (int k = 0; k < 8; ++k) ids[k] = (rotn + k) % n; }
        auto chk = [&](const char *what, const PV &w, bool exact) { step(); double nf = 0; for (double f : F) nf += f * f; nf = std::sqrt(nf); if (!(nf > 0.1)) { fail("%s gives a matrix of norm %g", what, nf); return; } if (!(fabsl(det3(F)) < 1e-9)) fail("%s gives a matrix of determinant %Lg", what, det3(F)); if (exact) for (auto &p : w) if (p.is_inlier && !(fdist(F, p) < 2e-3)) { fail("%s leaves a point at distance %g", what, fdist(F, p)); break; } };
        nx_fundamental_estimate_8pt(F, ids, v.data()); { PV sub; for (int k = 0; k < 8; ++k) sub.push_back(v[ids[k]]); chk("8 points", sub, true); }
        double sv = nx_fundamental_estimate(F, n, v.data()); chk("all points", v, true); if (!(sv >= 0 && sv < 1e-2)) fail("exact data leave the residual %g", sv); if (n >= 12 && !eq_scale(F, E.data(), 1e-3)) fail("the matrix is%s instead of%s", show3(F).c_str(), show3(E.data()).c_str());
        // marked ones only
        PV w = v; for (int k = 0; k < 4; ++k) { PM o = see(P[pi], PX[k], 60 + k); o.xp[0] += 1 + k; o.xp[1] -= 2 - k * 0.7; o.is_inlier = NX_FALSE; w.insert(w.begin() + (k * 5 + rotn) % (w.size() + 1), o); }
        nx_fundamental_estimate_inliers(F, w.size(), w.data()); chk("the inliers", w, true); if (n >= 12 && !eq_scale(F, E.data(), 1e-3)) fail("the matrix of the inliers is%s instead of%s", show3(F).c_str(), show3(E.data()).c_str());
        double G[9] = {3, 3, 3, 3, 3, 3, 3, 3, 3}; for (int k = 0; k < 8; ++k) { PV few(v.begin(), v.begin() + k); if (nx_fundamental_estimate(G, k, few.data()) != DBL_MAX || G[0] != 3) fail("%d points give a fundamental matrix", k); PV fl = v; for (int q = k; q < n; ++q) fl[q].is_inlier = NX_FALSE; if (nx_fundamental_estimate_inliers(G, n, fl.data()) != DBL_MAX || G[0] != 3) fail("%d inliers give a fundamental matrix", k); }
        state(mix(pi, n * 32 + rotn));
    }
}
// ---------------------------------------------------------------- normalization
static bool pv_close(const PM &a, const PM &b, double tol) { for (int k = 0; k < 2; ++k) if (!close(a.x[k], b.x[k], tol) || !close(a.xp[k], b.xp[k], tol)) return false; return close(a.sigma_x, b.sigma_x, tol) && close(a.sigma_xp, b.sigma_xp, tol) && a.id == b.id && a.idp == b.idp && a.match_cost == b.match_cost && a.is_inlier == b.is_inlier; }
static void norm_model(PV &v, double st[6]) {
    LD m[4] = {0, 0, 0, 0}, d[2] = {0, 0}; int n = v.size(); if (!n) { st[0] = st[1] = st[2] = st[3] = 0; st[4] = st[5] = 1; return; } for (auto &p : v) { m[0] += p.x[0]; m[1] += p.x[1]; m[2] += p.xp[0]; m[3] += p.xp[1]; } for (auto &q : m) q /= n;
    for (auto &p : v) { d[0] += hypotl(p.x[0] - m[0], p.x[1] - m[1]); d[1] += hypotl(p.xp[0] - m[2], p.xp[1] - m[3]); } for (auto &q : d) { q /= n; if (q == 0) q = 1; }
    for (auto &p : v) { for (int k = 0; k < 2; ++k) { p.x[k] = (p.x[k] - m[k]) / d[0]; p.xp[k] = (p.xp[k] - m[2 + k]) / d[1]; } p.sigma_x /= d[0]; p.sigma_xp /= d[1]; }
    for (int k = 0; k < 4; ++k) st[k] = m[k]; st[4] = d[0]; st[5] = d[1];
}
static void g_norm() {
    static const double C[] = {-4, 0, 0.5, 3};
    for (int n = 0; n <= pick(4, 5); ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= 16; for (int c = 0; c < tot; ++c) for (int var = 0; var < 4; ++var) if (begin("normalization")) { double off = var == 1 ? 200 : 0, sc = var == 2 ? 0x1p-14 : var == 3 ? 0x1p16 : 1;
        PV v; int q = c; for (int i = 0; i < n; ++i) { int a = q & 3, b = q >> 2 & 3; q >>= 4; v.push_back(pm((C[a] + off) * sc, C[b] * sc, (C[b] * 2 - off) * sc, C[(a + i) & 3] * 3 * sc, i, n - i, i & 1)); }
        describe([&] { return fmt("%d points code %d offset %g scale %g", n, c, off, sc); });
        NXPointMatch2DStats *st = nx_point_match_2d_stats_new(); PV w = v, e = v; double es[6]; norm_model(e, es); nx_point_match_2d_stats_normalize_matches(st, n, w.data()); step(n);
        double gs[6] = {st->m[0], st->m[1], st->mp[0], st->mp[1], st->d, st->dp}; bool ok = true; for (int k = 0; k < 6; ++k) if (!(std::fabs(gs[k] - es[k]) <= 1e-5 * (std::min(1.0, sc) + std::fabs(es[k])))) ok = false; if (!ok) fail("normalization statistics are %g %g %g %g %g %g instead of %g %g %g %g %g %g", gs[0], gs[1], gs[2], gs[3], gs[4], gs[5], es[0], es[1], es[2], es[3], es[4], es[5]);
        for (int i = 0; i < n; ++i) if (!pv_close(w[i], e[i], 2e-4)) { fail("normalized point %d is (%g,%g)-(%g,%g) instead of (%g,%g)-(%g,%g)", i, w[i].x[0], w[i].x[1], w[i].xp[0], w[i].xp[1], e[i].x[0], e[i].x[1], e[i].xp[0], e[i].xp[1]); break; }
        // matrices of normalized points become matrices of the points
        for (size_t hi = 0; hi < HS.size(); hi += 3) { double h[9], f[9]; memcpy(h, HS[hi].data(), sizeof h); memcpy(f, h, sizeof f); nx_point_match_2d_stats_denormalize_homography(st, h); nx_point_match_2d_stats_denormalize_fundamental(st, f);
            double T[9] = {1 / gs[4], 0, 0, 0, 1 / gs[4], 0, -gs[0] / gs[4], -gs[1] / gs[4], 1}, Tp[9] = {1 / gs[5], 0, 0, 0, 1 / gs[5], 0, -gs[2] / gs[5], -gs[3] / gs[5], 1}, Tpi[9] = {gs[5], 0, 0, 0, gs[5], 0, gs[2], gs[3], 1};
            M3 a = mul3(HS[hi].data(), T), b = mul3(Tpi, a.data()), t = tr3(Tp), d = mul3(t.data(), a.data()); if (!eq_scale(h, b.data(), 1e-9) || !eq_scale(f, d.data(), 1e-9)) fail("denormalized matrices are wrong"); }
        nx_point_match_2d_stats_denormalize_matches(st, n, w.data()); for (int i = 0; i < n; ++i) { PM x = v[i], y = w[i], xs = x; for (int k = 0; k < 2; ++k) { y.x[k] /= sc; y.xp[k] /= sc; xs.x[k] /= sc; xs.xp[k] /= sc; } if (!pv_close(y, xs, 1e-4)) { fail("point %d comes back as (%g,%g)-(%g,%g) instead of (%g,%g)-(%g,%g)", i, w[i].x[0], w[i].x[1], w[i].xp[0], w[i].xp[1], x.x[0], x.x[1], x.xp[0], x.xp[1]); break; } }
        nx_point_match_2d_stats_free(st); state(mix(n, mix(c, var)));
    } }
    // histories of the correspondence class
    const int NOP = 8, L = pick(6, 7); int tot = 1; for (int i = 0; i < L; ++i) tot *= NOP;
    for (int c0 = 0; c0 < tot; c0 += NOP * NOP * NOP) if (begin("correspondence-histories")) {
        describe([&] { return fmt("sequences %d+", c0); });
        for (int c = c0; c < c0 + NOP * NOP * NOP; ++c) {
            VGPointCorrespondence2D A, B; PV m, mb; double st[6] = {0, 0, 0, 0, 1, 1}; S tr; int q = c, k = 0; bool bad = false, normd = false;
            for (int i = 0; i < L && !bad; ++i, q /= NOP) { step(); switch (q % NOP) {
                case 0: { double x = 3 * k, y = (k * k) % 5; PM p = pm(x, y, y + 1, x - 2, k, 5 - (k * 3) % 7); int r = A.add_match(p.id, x, y, p.sigma_x, p.idp, y + 1, x - 2, p.sigma_xp, p.match_cost); m.push_back(p); ++k; tr += " add"; if (r != (int)m.size()) { fail("%s: add_match returns %d", tr.c_str(), r); bad = true; } break; }
                case 1: { NXKeypoint a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); a.xs = 7 + k; a.ys = 2; a.x = 3; a.y = 4; a.level = 0; a.scale = 2; a.id = 900 + k; a.sigma = 1; b = a; b.xs = 1; b.ys = 9 - k; b.scale = 3; b.id = 950 + k; A.add_keypoint_match(&a, &b, 1.5f, 2.25f, true); PM p = pm(a.xs * a.scale, a.ys * a.scale, b.xs * b.scale, b.ys * b.scale, 0, 2.25, true); p.id = a.id; p.idp = b.id; p.sigma_x = 3; p.sigma_xp = 4.5; m.push_back(p); ++k; tr += " keypoints"; break; }
                case 2: if (normd) { tr += " -"; break; } A.normalize(); norm_model(m, st); normd = true; tr += " normalize"; break;
                case 3: if (!normd) { tr += " -"; break; } A.denormalize(); for (auto &p : m) { for (int z = 0; z < 2; ++z) { p.x[z] = p.x[z] * st[4] + st[z]; p.xp[z] = p.xp[z] * st[5] + st[2 + z]; } p.sigma_x *= st[4]; p.sigma_xp *= st[5]; } st[0] = st[1] = st[2] = st[3] = 0; st[4] = st[5] = 1; normd = false; tr += " denormalize"; break;
                case 4: A.clear(); m.clear(); st[0] = st[1] = st[2] = st[3] = 0; st[4] = st[5] = 1; normd = false; tr += " clear"; break;
                case 5: B = A.clone(); mb = m; A.add_match(1, 50, 60, 1, 2, 70, 80, 1, 9); { PM p = pm(50, 60, 70, 80, 0, 9); p.id = 1; p.idp = 2; p.sigma_x = p.sigma_xp = 1; m.push_back(p); } tr += " clone"; break;
                case 6: A.sort_by_match_cost(); std::stable_sort(m.begin(), m.end(), [](const PM &a, const PM &b) { return a.match_cost < b.match_cost; }); tr += " sort"; break;
                case 7: if (!m.empty()) { A.set_inlier(m.size() / 2); m[m.size() / 2].is_inlier = NX_TRUE; A.set_inlier(0, false); m[0].is_inlier = NX_FALSE; } tr += " mark"; break; }
                auto cmp = [&](VGPointCorrespondence2D &o, PV w, const char *who) { if (o.size() != (int)w.size()) { fail("%s: %s has %d instead of %d matches", tr.c_str(), who, o.size(), (int)w.size()); bad = true; return; } PV g(o.matches(), o.matches() + o.size()); for (size_t z = 0; z + 1 < g.size(); ++z) if (q % NOP == 6 && who[0] == 't' && g[z].match_cost > g[z + 1].match_cost) { fail("%s: not sorted", tr.c_str()); bad = true; }
                    auto key = [](const PM &a, const PM &b) { return std::make_tuple(a.id, a.idp, a.match_cost, a.x[0]) < std::make_tuple(b.id, b.idp, b.match_cost, b.x[0]); }; bool sorted = tr.find("sort") != S::npos; if (sorted) { std::sort(g.begin(), g.end(), key); std::sort(w.begin(), w.end(), key); }
                    for (size_t z = 0; z < w.size(); ++z) { if (sorted) { g[z].is_inlier = w[z].is_inlier; } if (!pv_close(g[z], w[z], 1e-3)) { fail("%s: match %d of %s is wrong", tr.c_str(), (int)z, who); bad = true; return; } } };
                cmp(A, m, "the object"); if (!bad && !mb.empty()) cmp(B, mb, "its clone");
                const NXPointMatch2DStats *s = A.stats(); double gs[6] = {s->m[0], s->m[1], s->mp[0], s->mp[1], s->d, s->dp}; for (int z = 0; z < 6 && !bad; ++z) if (!close(gs[z], st[z], 1e-4)) { fail("%s: statistic %d is %g instead of %g", tr.c_str(), z, gs[z], st[z]); bad = true; }
            }
            state(hash(tr));
        }
    }
}
// ---------------------------------------------------------------- robust estimation
enum { RANSAC, NORM, USAC_H, FRANSAC, FNORM, N_ROB };
static int robust(int kind, double *m, PV &v, double tol, int it) {
    switch (kind) { case RANSAC: return nx_homography_estimate_ransac(m, v.size(), v.data(), tol, it); case NORM: return nx_homography_estimate_norm_ransac(m, v.size(), v.data(), tol, it); case USAC_H: return nx_usac_estimate_homography(m, v.size(), v.data(), tol, it); case FRANSAC: return nx_fundamental_estimate_ransac(m, v.size(), v.data(), tol, it); default: return nx_fundamental_estimate_norm_ransac(m, v.size(), v.data(), tol, it); }
}
static bool is_norm(int k) { return k == NORM || k == FNORM; }
static void check_robust(int kind, const PV &in, const PV &out, int r, const double *m, double tol, const char *what) {
    // the same correspondences, possibly in another order
    auto key = [](const PM &a, const PM &b) { return std::make_tuple(a.id, a.idp) < std::make_tuple(b.id, b.idp); }; PV a = in, b = out; std::sort(a.begin(), a.end(), key); std::sort(b.begin(), b.end(), key);
    for (size_t i = 0; i < a.size(); ++i) { PM x = a[i], y = b[i]; x.is_inlier = y.is_inlier; if (is_norm(kind) ? !pv_close(x, y, 1e-4) : !same_but_flag(x, y)) { fail("%s: correspondence %d comes back as (%g,%g)-(%g,%g) instead of (%g,%g)-(%g,%g)", what, (int)x.id, y.x[0], y.x[1], y.xp[0], y.xp[1], x.x[0], x.x[1], x.xp[0], x.xp[1]); return; } }
    if (r < 0 || r > (int)in.size()) { fail("%s: %d of %d inliers", what, r, (int)in.size()); return; }
    if (r == 0) return;
    int cnt = 0; for (auto &p : out) { bool f = p.is_inlier == NX_TRUE; cnt += f; double d = dist_of(kind >= FRANSAC ? EPI : FWD, m, p); double mg = is_norm(kind) ? 1e-3 * (1 + tol) : 1e-6; if (is_norm(kind)) for (int z = 0; z < 4; ++z) { PM q = p; q.x[z / 2] += (z % 2 ? 1 : -1) * 1e-5f * (1 + std::fabs(q.x[z / 2])); double d2 = dist_of(kind >= FRANSAC ? EPI : FWD, m, q); mg += 2 * std::fabs(d2 - d); } // rounding of normalized coordinates, amplified near the horizon
        if (std::isnan(d) ? f : (d < tol - mg && !f) || (d > tol + mg && f)) fail("%s: correspondence %d at distance %g (tolerance %g) is marked %s", what, (int)p.id, d, tol, f ? "inlier" : "outlier"); }
    if (cnt != r) fail("%s: %d inliers are reported, %d are marked", what, r, cnt);
}
static const char *RN[] = {"homography RANSAC", "normalized homography RANSAC", "USAC homography", "fundamental RANSAC", "normalized fundamental RANSAC"};
static PV data_of(int kind, int model, int nin, int nout, int order, double tol) {
    PV v; int n = nin + nout; auto cost = [&](int i) { return order == 0 ? i : order == 1 ? n - i : order == 2 ? (i * 7) % n : 1.0; };
    if (kind < FRANSAC) { const double *h = HS[model % HS.size()].data(); for (int i = 0; i < nin; ++i) { double x = (i * 37) % 41 - 20 + (i % 7) * 0.25, y = (i * 23) % 39 - 19 + (i % 5) * 0.5; LD u, w, s; mapd(h, x, y, u, w, s); v.push_back(pm(x, y, u, w, i, cost(i))); }
        for (int i = 0; i < nout; ++i) { double x = (i * 29) % 37 - 18, y = (i * 31) % 33 - 16; LD u, w, s; mapd(h, x, y, u, w, s); double a = i * 2.39996; v.push_back(pm(x, y, u + (15 + i % 9) * std::cos(a), w + (15 + i % 11) * std::sin(a), nin + i, cost(nin + i))); } }
    else { static const std::vector<Pose> P = poses(true); const Pose &p = P[(model * 7 + 1) % P.size()]; M3 E = skewmul(p.t, p.R.data());
        for (int i = 0; i < nin; ++i) { double X[3] = {PX[i % 20][0] + 0.13 * (i / 20), PX[i % 20][1] - 0.21 * (i / 20), PX[i % 20][2] + 0.7 * (i / 20)}; v.push_back(see(p, X, i, cost(i))); }
        for (int i = 0, k = 0; i < nout; ++k) { PM o = see(p, PX[(i * 3 + k) % 20], nin + i, cost(nin + i)); o.xp[0] += 0.5 * std::cos(k * 1.7) ; o.xp[1] += 0.5 * std::sin(k * 2.3); if (fdist(E.data(), o) < 20 * tol) continue; v.push_back(o); ++i; } 
        for (auto &q : v) q.is_inlier = NX_FALSE; }
    return v;
}
static void g_robust() {
    for (int kind = 0; kind < N_ROB; ++kind) { bool F = kind >= FRANSAC; double tol = F ? 0.002 : 0.5;
        for (int model = 0; model < pick(10, 20); ++model) for (int nin : {F ? 12 : 8, 20, 60, 230}) for (int pct : {0, 20, 40}) for (int order = 0; order < 4; ++order) for (int sd = 0; sd < pick(2, 6); ++sd) if (begin("robust-recovery")) {
            if (F && pct == 40) pct = 30; int nout = nin * pct / 100;
            describe([&] { return fmt("%s, model %d, %d inliers, %d outliers, cost order %d, seed %d", RN[kind], model, nin, nout, order, sd); });
            PV in = data_of(kind, model, nin, nout, order, tol), v = in, w = in; double m[9], m2[9]; for (int i = 0; i < 9; ++i) { m[i] = 0; m2[i] = i == 0 || i == 4 || i == 8 ? 1 : 0; }
            nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), sd * 17 + model); int r = robust(kind, m, v, tol, F ? 1500 : 600); step(); check_robust(kind, in, v, r, m, tol, RN[kind]);
            bool big = nin >= (F ? 100 : 200); // the search may stop early once this many inliers are found
            if (r < (big ? (F ? 1 : 100) : nin)) fail("%s finds %d of %d inliers", RN[kind], r, nin);
            if (!big && !F) for (auto &p : v) if ((int)p.id - 100 >= nin && p.is_inlier) fail("%s marks outlier %d", RN[kind], (int)p.id);
            nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), sd * 17 + model); int r2 = robust(kind, m2, w, tol, F ? 1500 : 600); if (r2 != r || memcmp(m, m2, sizeof m)) fail("%s depends on what the matrix held before", RN[kind]);
            state(mix(mix(kind, model), mix(r, nin * 8 + order)));
        }
        // few iterations, few or degenerate points: results stay consistent and independent of old contents
        for (int n = 0; n <= pick(14, 24); ++n) for (int shape = 0; shape < 6; ++shape) for (int it = 0; it <= 4; ++it) for (int sd = 0; sd < 3; ++sd) if (begin("robust-consistency")) {
            describe([&] { return fmt("%s, %d points of shape %d, %d iterations, seed %d", RN[kind], n, shape, it, sd); });
            PV in; for (int i = 0; i < n; ++i) { double x = i, y = (i * i) % 7, u, w; switch (shape) { case 0: u = x + 2; w = y - 1; break; case 1: x = 3; y = 4; u = 5; w = 6; break; case 2: y = 2 * x; u = x; w = y; break; case 3: u = 7; w = 7; break; case 4: u = -x; w = y; break; default: u = (i * 5) % 11; w = (i * 3) % 8; } in.push_back(pm(x, y, u, w, i, (i * 3) % 5)); }
            double tol2 = 0.75; PV a = in, b = in; double m[9], m2[9]; for (int i = 0; i < 9; ++i) { m[i] = 0; m2[i] = i % 4 == 0; }
            nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), sd); int r = robust(kind, m, a, tol2, it); nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), sd); int r2 = robust(kind, m2, b, tol2, it); step(2);
            if (!finite_pv(a)) fail("%s destroys the correspondences", RN[kind]); else { check_robust(kind, in, a, r, m, tol2, RN[kind]); if (r != r2 || (r && memcmp(m, m2, sizeof m))) fail("%s finds %d or %d inliers depending on what the matrix held before", RN[kind], r, r2); }
            if (n < (F ? 8 : 4) && r != 0) fail("%d points give %d inliers", n, r); if (shape == 4 && !F && r) { double mc = std::cos(5 * M_PI / 180); if (!nx_homography_check(m, mc)) fail("a mirrored homography is returned"); }
            state(mix(mix(kind, n), mix(shape * 8 + it, r)));
        } }
    // the minimal sample is drawn until it is distinct, whatever the generator delivers
    for (int kind = 0; kind < N_ROB; ++kind) { bool F = kind >= FRANSAC; int k = F ? 8 : 4; std::vector<std::vector<int>> pre;
        if (!F) for (int c = 0; c < 256; ++c) pre.push_back({c & 3, c >> 2 & 3, c >> 4 & 3, c >> 6 & 3});
        else { for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) { std::vector<int> p = {0, 1, 2, 3, 4, 5, 6, 7}; p[i] = j; pre.push_back(p); } for (int i = 0; i < 8; ++i) { std::vector<int> p(8, i); pre.push_back(p); } }
        for (size_t c = 0; c < pre.size(); ++c) for (int model = 0; model < pick(4, 10); ++model) for (int reps : {1, 13}) if (begin("sample-scripts")) {
            script.clear(); for (int q = 0; q < reps; ++q) script.insert(script.end(), pre[c].begin(), pre[c].end());
            describe([&] { S s; for (int x : pre[c]) s += fmt(" %d", x); return fmt("%s, model %d, draws%s x%d then cyclic", RN[kind], model, s.c_str(), reps); });
            double tol = F ? 0.002 : 0.01; PV in = data_of(kind, model, k, 0, 0, tol); if (!F) { static const double QX[] = {0, 10, 11, -1}, QY[] = {0, 1, 9, 12}; for (int i = 0; i < 4; ++i) { LD u, w, s; mapd(HS[model % HS.size()].data(), QX[i], QY[i], u, w, s); in[i] = pm(QX[i], QY[i], u, w, i, i); } } PV v = in; double m[9] = {0};
            script_n = k; script_at = 0; script_on = true; int r = robust(kind, m, v, tol, kind == USAC_H ? 2 : 1); script_on = false; step();
            if (script_at) { if (r != k) fail("%s finds %d of %d exact correspondences in one iteration", RN[kind], r, k); else check_robust(kind, in, v, r, m, tol, RN[kind]); }
            state(mix(mix(kind, c), mix(model * 2 + (reps > 1), script_at)));
        } }
    nx_uniform_sampler_instance_free();
}
// many correspondences: marking, linear estimation and normalization reach the last one
static void g_many() {
    static const int NS[] = {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1023, 1024, 1025, 2049, 5000, 70000};
    std::vector<M3> FS = fundamentals();
    for (int n : NS) for (int kind = 0; kind < 3; ++kind) for (size_t mi = 0; mi < 4; ++mi) for (int pt = 0; pt < 4; ++pt) if (begin("many-correspondences")) {
        const double *h = (kind == EPI ? FS : HS)[mi * 2 + 1].data(); describe([&] { return fmt("%d correspondences, kind %d, matrix %d, outlier pattern %d", n, kind, (int)mi, pt); });
        auto bad = [&](int i) { return pt == 0 ? i % 3 == 1 : pt == 1 ? i == n - 1 : pt == 2 ? i != n - 1 : i >= 32 && i % 64 == 63; };
        PV v; for (int i = 0; i < n; ++i) { double x = (i * 7) % 19 - 9 + (i / 19 % 8) / 8.0, y = (i * 5) % 17 - 8 + (i / 323 % 8) / 8.0, off = bad(i) ? 3 + i % 2 : 0; LD u, w, s;
            if (kind == EPI) { LD l[3]; for (int k = 0; k < 3; ++k) l[k] = h[k] * x + h[3 + k] * y + h[6 + k]; LD q = l[0] * l[0] + l[1] * l[1]; u = -l[0] * l[2] / q + (l[1] * (i % 9) + off * l[0]) / sqrtl(q); w = -l[1] * l[2] / q + (off * l[1] - l[0] * (i % 9)) / sqrtl(q); v.push_back(pm(x, y, u, w, i, 0, i & 1)); }
            else { mapd(h, x, y, u, w, s); u += i & 1 ? off : 0; w += i & 1 ? 0 : off; v.push_back(kind == FWD ? pm(x, y, u, w, i, 0, i & 1) : pm(u, w, x, y, i, 0, i & 1)); } }
        PV before = v; int r = mark(kind, h, v, 0.5); step(); check_marks(kind, h, before, v, r, 0.5);
        if (kind == FWD && pt != 2) { // the marked ones determine the homography, the others do not matter
            double g[9]; PV w = v; nx_homography_estimate_dlt_inliers(g, n, w.data()); for (int i = 0; i < n; ++i) if (!same_but_flag(w[i], v[i]) || w[i].is_inlier != v[i].is_inlier) { fail("linear estimation changes correspondence %d", i); break; }
            for (int i = 0; i < n; i += n > 3000 ? 53 : 1) if (v[i].is_inlier && !(hdist(g, v[i].x, v[i].xp) < 1e-2)) { fail("the homography estimated from %d inliers of %d maps point %d %g away", r, n, i, hdist(g, v[i].x, v[i].xp)); break; }
        }
        PV nm = before, e = before; double es[6]; norm_model(e, es); NXPointMatch2DStats *st = nx_point_match_2d_stats_new(); nx_point_match_2d_stats_normalize_matches(st, n, nm.data());
        double gs[6] = {st->m[0], st->m[1], st->mp[0], st->mp[1], st->d, st->dp}; for (int k = 0; k < 6; ++k) if (!close(gs[k], es[k], 1e-4)) { fail("statistic %d of %d points is %g instead of %g", k, n, gs[k], es[k]); break; }
        for (int i = 0; i < n; ++i) if (!pv_close(nm[i], e[i], 2e-3)) { fail("normalized point %d of %d is wrong", i, n); break; }
        nx_point_match_2d_stats_denormalize_matches(st, n, nm.data()); for (int i = 0; i < n; ++i) if (!pv_close(nm[i], before[i], 1e-3)) { fail("point %d of %d does not come back", i, n); break; }
        nx_point_match_2d_stats_free(st); state(mix(mix(n, kind), mix(mi, r)));
    }
    // the C++ classes are these functions
    for (int n = 0; n <= pick(40, 90); ++n) for (int mi = 0; mi < 10; ++mi) for (int bits = 0; bits < 8; ++bits) if (begin("vg-classes")) {
        describe([&] { return fmt("%d correspondences, matrix %d, pattern %d", n, mi, bits); });
        { VGHomography H; static const double I[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; if (memcmp(H.data(), I, sizeof I)) fail("a new homography is not the identity"); const double *h = HS[mi].data(); VGPointCorrespondence2D c; PV v; c.reserve(n); step(3);
          for (int i = 0; i < n; ++i) { double x = (i * 7) % 19 - 9, y = (i * 5) % 17 - 8 + i % 3 * 0.25; LD u, w, s; mapd(h, x, y, u, w, s); bool out = (i * 3 + bits) % 8 < bits % 4; PM p = pm(x, y, u + (out ? 5 : 0), w, i, (i * 3) % 7, !out); v.push_back(p); c.add_match(p.id, p.x[0], p.x[1], p.sigma_x, p.idp, p.xp[0], p.xp[1], p.sigma_xp, p.match_cost, !out); }
          for (int i = 0; i < n; ++i) { const VGPointCorrespondence2D &cc = c; if (!same_but_flag(c[i], v[i]) || cc.is_inlier(i) != (v[i].is_inlier == NX_TRUE) || &cc[i] != cc.matches() + i) { fail("match %d is stored wrongly", i); break; } }
          H.set(h); const VGHomography &CH = H; if (memcmp(CH.data(), h, 9 * sizeof *h)) fail("set() does not store the matrix");
          int in = 0; for (auto &p : v) in += p.is_inlier == NX_TRUE;
          if (in) { if (H.transfer_error_fwd(c) != nx_homography_transfer_error_fwd(h, n, v.data()) || H.transfer_error_bwd(c) != nx_homography_transfer_error_bwd(h, n, v.data()) || H.transfer_error_sym(c) != nx_homography_transfer_error_sym(h, n, v.data())) fail("the transfer errors differ from those of the C functions"); }
          if (in >= 4) { double g[9]; int r = H.estimate_from_inliers(c, 0.5); nx_homography_estimate_dlt_inliers(g, n, v.data()); int r2 = nx_homography_mark_inliers(g, n, v.data(), 0.5); if (r != r2 || memcmp(g, H.data(), sizeof g)) fail("estimate_from_inliers gives %d instead of %d inliers or another matrix", r, r2); for (int i = 0; i < n; ++i) if (c.is_inlier(i) != (v[i].is_inlier == NX_TRUE)) { fail("match %d is marked differently", i); break; } 
            if (in == n || in >= 8) if (r < in) fail("exact inliers are lost: %d of %d", r, in); }
          if (n >= 4) { nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), n); double g[9] = {0}; int r2 = nx_homography_estimate_ransac(g, n, v.data(), 0.5, 50); nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), n); int r = H.estimate_ransac(c, 0.5, 50); if (r != r2 || (r && memcmp(g, H.data(), sizeof g))) fail("estimate_ransac finds %d inliers, the C function %d", r, r2); } }
        { VGFundamentalMatrix F; static const double D[9] = {0, 0, 0, 0, 0, 1, 0, -1, 0}; if (memcmp(F.data(), D, sizeof D)) fail("a new fundamental matrix is not the rectified one"); const double *f = FS[mi % FS.size()].data(); F.set(f); const VGFundamentalMatrix &CF = F; if (memcmp(CF.data(), f, 9 * sizeof *f)) fail("set() does not store the matrix"); step(3);
          for (int i = 0; i < n && i < 9; ++i) { double x[2] = {i * 1.5 - 4, i * i * 0.5 - 3}, l[3]; F.epipolar_line_fwd(l, x); for (int k = 0; k < 3; ++k) if (!close(l[k], f[k] * x[0] + f[3 + k] * x[1] + f[6 + k], 1e-12)) fail("the epipolar line of (%g,%g) is wrong", x[0], x[1]);
            PM p = pm(x[0], x[1], i - 3, 2 * i - 5, i); double e = fdist(f, p), g = F.epipolar_distance_fwd(&p); if (!close(std::fabs(g), e, 1e-5)) fail("the epipolar distance is %g instead of %g", g, e); }
          if (n >= 8) { PV v = data_of(FRANSAC, mi, n, bits % 4, bits, 0.002), v0 = v; VGPointCorrespondence2D c; for (auto &p : v) { p.is_inlier = (int)p.id - 100 < n ? NX_TRUE : NX_FALSE; c.add_match(p.id, p.x[0], p.x[1], p.sigma_x, p.idp, p.xp[0], p.xp[1], p.sigma_xp, p.match_cost, p.is_inlier == NX_TRUE); }
            double g[9]; int r = F.estimate_from_inliers(c, 0.002); nx_fundamental_estimate_inliers(g, v.size(), v.data()); int r2 = nx_fundamental_mark_inliers(g, v.size(), v.data(), 0.002); if (r != r2 || memcmp(g, F.data(), sizeof g)) fail("estimate_from_inliers gives %d instead of %d inliers or another matrix", r, r2);
            nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), n); double g2[9] = {0}; r2 = nx_fundamental_estimate_ransac(g2, v.size(), v.data(), 0.002, 30); nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), n); r = F.estimate_ransac(c, 0.002, 30); if (r != r2 || (r && memcmp(g2, F.data(), sizeof g2))) fail("estimate_ransac finds %d inliers, the C function %d", r, r2); } }
        state(mix(n, mi * 8 + bits));
    }
    nx_uniform_sampler_instance_free();
}
static void p28() { g_marks(); g_check(); g_minimal(); g_epipolar(); g_norm(); g_robust(); g_many(); }
#include "geom_p30.hh"
void mc_run() { if (S(PROP) == "P28") p28(); else p30(); }
