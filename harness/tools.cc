// P42 the panorama builder against every outcome of the pairwise matching, P43 the command line programs against the library.
#include "mc.hh"
#include <algorithm>
#include <cmath>
#include <set>
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/nx_options.h"
#include "virg/nexus/nx_point_match_2d.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
extern "C" {
void nx_panorama_builder_add_options(struct NXOptions *opt);
struct NXPanoramaBuilder;
struct NXPanoramaBuilder *nx_panorama_builder_new_from_options(struct NXOptions *opt);
void nx_panorama_builder_free(struct NXPanoramaBuilder *builder);
void nx_panorama_builder_run(struct NXPanoramaBuilder *builder);
struct NXImage *nx_panorama_builder_get_panorama(struct NXPanoramaBuilder *builder);
}
using namespace mc;
typedef std::string S;
typedef std::vector<double> V;

// ------------------------------------------------------------- environment: what detection, matching and fitting answer
struct Hom { double m[9]; }; // column-major
static Hom tr(double x, double y) { return {{1, 0, 0, 0, 1, 0, x, y, 1}}; }
static Hom mul(const Hom &a, const Hom &b) { Hom r; for (int c = 0; c < 3; ++c) for (int q = 0; q < 3; ++q) { double x = 0; for (int k = 0; k < 3; ++k) x += a.m[k * 3 + q] * b.m[c * 3 + k]; r.m[c * 3 + q] = x; } return r; }
static void app(const Hom &h, double x, double y, double &u, double &v) { double w = h.m[2] * x + h.m[5] * y + h.m[8]; u = (h.m[0] * x + h.m[3] * y + h.m[6]) / w; v = (h.m[1] * x + h.m[4] * y + h.m[7]) / w; }
static Hom inv(const Hom &h) { const double *a = h.m; Hom r; double d = a[0] * (a[4] * a[8] - a[7] * a[5]) - a[3] * (a[1] * a[8] - a[7] * a[2]) + a[6] * (a[1] * a[5] - a[4] * a[2]);
    r.m[0] = (a[4] * a[8] - a[5] * a[7]) / d; r.m[3] = (a[5] * a[6] - a[3] * a[8]) / d; r.m[6] = (a[3] * a[7] - a[4] * a[6]) / d; r.m[1] = (a[2] * a[7] - a[1] * a[8]) / d; r.m[4] = (a[0] * a[8] - a[2] * a[6]) / d; r.m[7] = (a[1] * a[6] - a[0] * a[7]) / d; r.m[2] = (a[1] * a[5] - a[2] * a[4]) / d; r.m[5] = (a[2] * a[3] - a[0] * a[5]) / d; r.m[8] = (a[0] * a[4] - a[1] * a[3]) / d; return r; }
struct Pair { int corr = 0, inl = 0; Hom h; };
struct World { int n = 0; std::vector<int> keys; std::vector<Pair> p; Pair &at(int i, int j) { return p[i * n + j]; } S bad; };
static World *W;
extern "C" {
int __real_nx_sift_detector_compute_with_cache(struct NXSIFTDetector *, struct NXImage *, int *, struct NXKeypoint **, uchar **, const char *);
int __wrap_nx_sift_detector_compute_with_cache(struct NXSIFTDetector *d, struct NXImage *im, int *cap, struct NXKeypoint **k, uchar **de, const char *c) {
    if (!W) return __real_nx_sift_detector_compute_with_cache(d, im, cap, k, de, c);
    int i = im->data.uc[0] / 50; int n = W->keys[i];
    if (n > *cap) { *cap = n; *k = (struct NXKeypoint *)nx_xrealloc(*k, sizeof(**k) * (size_t)n); *de = (uchar *)nx_xrealloc(*de, (size_t)n * NX_SIFT_DESC_DIM); }
    memset(*k, 0, sizeof(**k) * (size_t)n); memset(*de, i, (size_t)n * NX_SIFT_DESC_DIM); (*k)[0].x = i; (*k)[0].xs = i; return n;
}
int __real_nx_sift_match_brute_force_with_cache(int, const struct NXKeypoint *, const uchar *, int, const struct NXKeypoint *, const uchar *, struct NXPointMatch2D *, float, const char *);
int __wrap_nx_sift_match_brute_force_with_cache(int n, const struct NXKeypoint *k, const uchar *d, int np, const struct NXKeypoint *kp, const uchar *dp, struct NXPointMatch2D *pm, float t, const char *c) {
    if (!W) return __real_nx_sift_match_brute_force_with_cache(n, k, d, np, kp, dp, pm, t, c);
    int i = k[0].x, j = kp[0].x; if (n != W->keys[i] || np != W->keys[j]) W->bad = "matching is asked with the wrong number of keypoints";
    int m = std::min(W->at(i, j).corr, n); for (int q = 0; q < n; ++q) { memset(pm + q, 0, sizeof *pm); if (q < m) { pm[q].x[0] = i; pm[q].xp[0] = j; } } return m;
}
int __real_nx_homography_estimate_norm_ransac(double *, int, struct NXPointMatch2D *, double, int);
int __wrap_nx_homography_estimate_norm_ransac(double *h, int n, struct NXPointMatch2D *pm, double tol, int it) {
    if (!W) return __real_nx_homography_estimate_norm_ransac(h, n, pm, tol, it);
    int i = pm[0].x[0], j = pm[0].xp[0]; if (n != std::min(W->at(i, j).corr, W->keys[i])) W->bad = "fitting is asked with the wrong number of matches";
    for (int q = 0; q < n; ++q) { if (pm[q].x[0] != i || pm[q].xp[0] != j) W->bad = "fitting is asked with matches of another pair"; pm[q].is_inlier = q < W->at(i, j).inl; }
    memcpy(h, W->at(i, j).h.m, sizeof W->at(i, j).h.m); return std::min(n, W->at(i, j).inl);
}
// where the programs would write to fixed places
void __real_nx_image_xsave(const struct NXImage *, const char *); static S saved_at; static bool divert; static std::vector<uchar> saved_px; static int saved_w, saved_h;
void __wrap_nx_image_xsave(const struct NXImage *im, const char *f) { if (!divert) { __real_nx_image_xsave(im, f); return; } saved_at = f; saved_w = im->width; saved_h = im->height; saved_px.clear(); for (int y = 0; y < im->height; ++y) saved_px.insert(saved_px.end(), im->data.uc + y * im->row_stride, im->data.uc + y * im->row_stride + im->width); }
int nx_stitch_main(int, char **); int harris_main(int, char **); int sift_main(int, char **); int fit_main(int, char **); int bench_main(int, char **);
}
static S pgm(int w, int h, const std::function<int(int, int)> &f) { S t = fmt("P5\n%d %d\n255\n", w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) t += (char)f(x, y); return t; }
struct Args { std::vector<S> s; std::vector<char *> p; Args(std::vector<S> a) : s(std::move(a)) { for (auto &x : s) p.push_back(&x[0]); p.push_back(nullptr); } int n() { return (int)s.size(); } char **v() { return p.data(); } };
static S files[8];
static int PW[8], PH[8];
static int pixel(int i, int x, int y) { return i * 50 + (x == 0 && y == 0 ? 0 : 1 + (x * 7 + y * 11 + x * y) % 48); }
static void make(int n, int kind) { // input images; every pixel of image i lies in [50 i, 50 i + 48]
    for (int i = 0; i < n; ++i) { static const int ws[3][5] = {{6, 6, 6, 6, 6}, {8, 4, 6, 10, 2}, {16, 14, 12, 10, 8}}, hs[3][5] = {{4, 4, 4, 4, 4}, {6, 10, 2, 4, 8}, {12, 12, 8, 10, 14}}; PW[i] = ws[kind][i]; PH[i] = hs[kind][i]; if (files[i].empty()) files[i] = tmpfile(fmt("in%d.pgm", i).c_str()); write_file(files[i], pgm(PW[i], PH[i], [&](int x, int y) { return pixel(i, x, y); })); }
}
struct Want { bool fatal = false; int w = 0, h = 0; std::vector<Hom> to; };
static std::vector<Want> expect(World &w) { // one entry for each choice the specification leaves open (equal totals, equal costs)
    int n = w.n; std::vector<std::vector<double>> c(n, std::vector<double>(n, -1)); std::vector<long> tot(n, 0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { int m = std::min(w.at(i, j).corr, w.keys[i]), in = std::min(m, w.at(i, j).inl); if (m >= 20 && in >= 20) { c[i][j] = exp(-in / 1000.0); tot[i] += in; tot[j] += in; } }
    long best = *std::max_element(tot.begin(), tot.end()); std::vector<Want> out;
    for (int r = 0; r < n; ++r) if (tot[r] == best) {
        // all simple paths i -> r, the cheapest ones
        std::vector<std::vector<Hom>> opt(n); bool dead = false;
        for (int i = 0; i < n; ++i) { double bc = 1e300; std::vector<std::pair<double, Hom>> all; std::vector<bool> on(n, false);
            std::function<void(int, double, Hom)> go = [&](int a, double cost, Hom h) { if (a == r) { all.push_back({cost, h}); bc = std::min(bc, cost); return; } on[a] = true; for (int b = 0; b < n; ++b) if (!on[b] && c[a][b] >= 0) go(b, cost + c[a][b], mul(w.at(a, b).h, h)); on[a] = false; };
            go(i, 0, tr(0, 0)); for (auto &x : all) if (x.first <= bc + 1e-9) opt[i].push_back(x.second); if (all.empty()) dead = true; }
        if (dead) { Want x; x.fatal = true; out.push_back(x); continue; }
        std::vector<size_t> ch(n, 0);
        for (int guard = 0; guard < 4096; ++guard) { Want x; for (int i = 0; i < n; ++i) x.to.push_back(opt[i][ch[i]]);
            double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (int i = 0; i < n; ++i) for (int q = 0; q < 4; ++q) { double u, v; app(x.to[i], q % 2 ? PW[i] : 0, q / 2 ? PH[i] : 0, u, v); x0 = std::min(x0, u); x1 = std::max(x1, u); y0 = std::min(y0, v); y1 = std::max(y1, v); }
            for (auto &h : x.to) h = mul(tr(-x0, -y0), h); x.w = (int)lround(x1 - x0); x.h = (int)lround(y1 - y0); out.push_back(x);
            int k = 0; while (k < n && ++ch[k] == opt[k].size()) ch[k++] = 0; if (k == n) break; }
    }
    return out;
}
static S diff(const Want &x, int w, int h, const std::function<int(int, int)> &px) {
    if (w != x.w || h != x.h) return fmt("size %dx%d, expected %dx%d", w, h, x.w, x.h);
    std::vector<Hom> from; std::vector<bool> exact; for (auto &m : x.to) { from.push_back(inv(m)); bool ex = true; for (double d : m.m) ex &= d * 256 == floor(d * 256); for (double d : from.back().m) ex &= d * 256 == floor(d * 256); exact.push_back(ex); } // coordinates that rounding may move across a pixel are left open
    for (int y = 0; y < h; ++y) for (int q = 0; q < w; ++q) { int e = 0; bool open = false; for (size_t i = 0; i < from.size(); ++i) { double u, v; app(from[i], q, y, u, v); bool near_u = fabs(u - round(u)) < 1e-3, near_v = fabs(v - round(v)) < 1e-3; if (!exact[i] && (near_u || near_v)) { if (u > -1 && v > -1 && u < PW[i] + 1 && v < PH[i] + 1) open = true; continue; } int a = (int)floor(u), b = (int)floor(v); if (a >= 0 && b >= 0 && a < PW[i] && b < PH[i]) { e = pixel((int)i, a, b); open = false; } }
        if (!open && px(q, y) != e) return fmt("pixel %d,%d is %d, expected %d", q, y, px(q, y), e); }
    return "";
}
static S show(World &w) { S s = fmt("%d images", w.n); for (int i = 0; i < w.n; ++i) for (int j = 0; j < w.n; ++j) if (i != j) { Pair &p = w.at(i, j); s += fmt("; %d->%d %d matches %d inliers shift %g,%g", i, j, std::min(p.corr, w.keys[i]), p.inl, p.h.m[6], p.h.m[7]); } return s; }
static void stitch(World &w, bool through_main = false) {
    describe([&] { return show(w); });
    std::vector<S> a{"stitch"}; for (int i = 0; i < w.n; ++i) a.push_back(files[i]); Args ar(a); std::vector<Want> ws = expect(w); bool may_die = false, may_live = false; for (auto &x : ws) (x.fatal ? may_die : may_live) = true;
    int pw = 0, ph = 0; std::vector<uchar> px; px.reserve(40000); size_t h0 = heap() - px.capacity(); W = &w; bool ok;
    if (through_main) { divert = true; saved_at.clear(); ok = guarded([&] { nx_stitch_main(ar.n(), ar.v()); }); divert = false; pw = saved_w; ph = saved_h; px = saved_px; saved_px = std::vector<uchar>(); if (ok && saved_at.empty()) fail("no panorama is saved"); }
    else { struct NXOptions *opt = nullptr; struct NXPanoramaBuilder *b = nullptr;
        ok = guarded([&] { opt = nx_options_alloc(); nx_panorama_builder_add_options(opt); nx_options_set_from_args(opt, ar.n(), ar.v()); b = nx_panorama_builder_new_from_options(opt); nx_panorama_builder_run(b); });
        if (ok) { struct NXImage *p = nx_panorama_builder_get_panorama(b); pw = p->width; ph = p->height; if (p->type != NX_IMAGE_GRAYSCALE || p->dtype != NX_IMAGE_UCHAR) fail("not an 8 bit gray image"); else for (int y = 0; y < ph; ++y) px.insert(px.end(), p->data.uc + y * p->row_stride, p->data.uc + y * p->row_stride + pw); } if (b) nx_panorama_builder_free(b); nx_options_free(opt); } size_t h1 = heap() - px.capacity();
    W = nullptr; step(); 
    if (!w.bad.empty()) fail("%s", w.bad.c_str());
    if (!ok) { if (!may_die) fail("fatal error for images that are all connected"); }
    else if (!may_live) fail("a panorama of images that nothing connects");
    else { S e; bool hit = false; for (auto &x : ws) if (!x.fatal) { S d = diff(x, pw, ph, [&](int q, int y) { return px[(size_t)y * pw + q]; }); if (d.empty()) hit = true; else e = d; } if (!hit) fail("%s", e.c_str()); if (!through_main && h1 > h0) fail("%ld bytes are not returned", (long)(h1 - h0)); }
    state(mix(hash_bytes(px.data(), px.size()), pw * 2 + ok));
}
static World world(int n) { World w; w.n = n; w.keys.assign(n, 4000); w.p.resize(n * n); return w; }
static void p42() {
    nx_log_verbosity(NX_LOG_SILENT);
    static const int POS[6][5][2] = {{{0, 0}, {3, 1}, {-2, 2}, {5, -3}, {1, 4}}, {{0, 0}, {6, 0}, {12, 0}, {18, 0}, {24, 0}}, {{4, 4}, {0, 0}, {-9, 3}, {2, -8}, {-3, -3}}, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}}, {{40, 0}, {0, 30}, {-20, 5}, {7, -11}, {0, 0}}, {{0, -5}, {-5, 0}, {5, 0}, {0, 5}, {-1, -1}}};
    auto shifts = [&](World &w, int pos, int eps) { for (int i = 0; i < w.n; ++i) for (int j = 0; j < w.n; ++j) w.at(i, j).h = tr(POS[pos][i][0] - POS[pos][j][0] + (eps ? (i * 5 + j * 3) % 7 - 3 : 0), POS[pos][i][1] - POS[pos][j][1] + (eps ? (i * 3 + j * 5 + eps) % 5 - 2 : 0)); };
    // two images: every count of matches and inliers around the limits
    for (int kind = 0; kind < 3; ++kind) for (int pos = 0; pos < 6; ++pos) for (int a : {0, 1, 19, 20, 21, 500, 4000}) for (int ai : {0, 4, 19, 20, 21, 3999}) for (int b : {0, 19, 20, 300}) for (int bi : {0, 19, 20, 250}) if (begin("two-images")) { make(2, kind); World w = world(2); shifts(w, pos, 1); w.at(0, 1).corr = a; w.at(0, 1).inl = std::min(a, ai); w.at(1, 0).corr = b; w.at(1, 0).inl = std::min(b, bi); stitch(w); }
    // three images: every directed match graph with three strengths
    static const int ST[4] = {0, 40, 300, 1500};
    for (int pos = 0; pos < 6; ++pos) for (int k = 0; k < 4096; ++k) if (begin("three-images")) { if (!thorough() && pos % 3 && k % 5) continue; make(3, pos % 3); World w = world(3); shifts(w, pos, 1 + pos); int v = k; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) { w.at(i, j).corr = w.at(i, j).inl = ST[v % 4] ? ST[v % 4] + i * 3 + j : 0; v /= 4; } stitch(w); }
    // four images: every directed graph; strengths by position, in several orders
    for (int s = 0; s < pick(3, 8); ++s) for (int k = 0; k < 4096; ++k) if (begin("four-images")) { make(4, s % 3); World w = world(4); shifts(w, (s + k) % 6, 1 + s); int v = k; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j) { int in = 20 + (i * 37 + j * 101 + s * 53 + i * j * s * 11) % 900 * (s % 2 + 1); w.at(i, j).corr = v % 2 ? in + 5 : 12; w.at(i, j).inl = v % 2 ? in : 12; v /= 2; } stitch(w); }
    // five images: every undirected graph
    for (int s = 0; s < pick(2, 6); ++s) for (int k = 0; k < 1024; ++k) if (begin("five-images")) { make(5, s % 3); World w = world(5); shifts(w, (s + k) % 6, s); int v = k; for (int i = 0; i < 5; ++i) for (int j = i + 1; j < 5; ++j) { int in = v % 2 ? 25 + (i * 37 + j * 101 + s * 53) % 700 : 0; w.at(i, j).corr = w.at(i, j).inl = in; w.at(j, i).corr = w.at(j, i).inl = in ? in + s : 0; v /= 2; } stitch(w); }
    // numbers of keypoints, below and above what is set aside for them
    for (int a : {0, 1, 19, 20, 999, 1000, 1001, 3000}) for (int b : {0, 20, 1000, 2500}) for (int c : {0, 30, 1001}) if (begin("keypoints")) { make(3, 1); World w = world(3); w.keys = {a, b, c}; shifts(w, 0, 0); for (auto &p : w.p) p.corr = p.inl = 5000; stitch(w); }
    // scaled, mirrored and perspective views inside the reference image
    for (int t = 0; t < 12; ++t) for (int dx = 0; dx < 4; ++dx) for (int dy = 0; dy < 3; ++dy) for (int dir = 0; dir < 3; ++dir) if (begin("views")) {
        make(3, 2); World w = world(3); Hom m = tr(dx + 1, dy + 1); double q = t % 4; Hom s = t < 4 ? Hom{{0.5 + 0.25 * (t % 2), 0, 0, 0, 0.25 + 0.25 * q / 2, 0, 0, 0, 1}} : t < 6 ? Hom{{0.5, 0, 0, 0, -0.5, 0, 1, PH[1] * 0.5, 1}} : t < 8 ? Hom{{0, 0.5, 0, 0.5, 0, 0, 0, 0, 1}} : Hom{{0.6, 0.05 * q, 0.01 * (q + 1), 0.04, 0.5, 0.012 * (q - 1), 0, 0, 1}};
        Hom a = mul(m, s); w.at(1, 0).h = a; w.at(2, 0).h = tr(1, 2); w.at(2, 0).h.m[0] = w.at(2, 0).h.m[4] = 0.5; w.at(1, 2).h = mul(inv(w.at(2, 0).h), a); // 1 -> 0 directly or through 2
        w.at(0, 1).corr = w.at(0, 1).inl = 900; w.at(0, 1).h = inv(a); w.at(0, 2).h = inv(w.at(2, 0).h); w.at(0, 2).corr = w.at(0, 2).inl = 900; w.at(2, 0).corr = w.at(2, 0).inl = 600; if (dir != 1) w.at(1, 0).corr = w.at(1, 0).inl = 500; if (dir != 0) w.at(1, 2).corr = w.at(1, 2).inl = 100; stitch(w); }
    // turned and sheared views that reach beyond the reference image, every whole matrix with entries in -1..2
    for (int a = -1; a < 3; ++a) for (int b = -1; b < 3; ++b) for (int c = -1; c < 3; ++c) for (int d = -1; d < 3; ++d) for (int t = 0; t < 2; ++t) if (abs(a * d - b * c) == 1 || abs(a * d - b * c) == 2 || abs(a * d - b * c) == 4) if (begin("turned")) {
        make(2, 1 + t); World w = world(2); Hom m{{(double)a, (double)b, 0, (double)c, (double)d, 0, t ? -3.0 : 2.0, t ? 5.0 : -7.0, 1}}; w.at(1, 0).h = m; w.at(0, 1).h = inv(m); w.at(1, 0).corr = w.at(1, 0).inl = 40; w.at(0, 1).corr = w.at(0, 1).inl = 40; stitch(w); }
    // perspective views in panoramas whose origin is moved by another image
    for (int t = 0; t < 9; ++t) for (int ox = -9; ox <= 6; ox += 5) for (int oy = -8; oy <= 6; oy += 7) for (int s = 1; s < 3; ++s) if (begin("moved")) {
        make(3, 2); World w = world(3); Hom a = mul(tr(3, 3), Hom{{0.6, 0.05 * (t % 3), 0.01 * (t / 3 - 1), 0.04, 0.5, 0.012 * (t % 3 - 1), 0, 0, s == 2 ? 1.25 : 1}}); Hom sc = a; for (double &v : sc.m) v *= s; w.at(1, 0).h = sc; w.at(2, 0).h = tr(ox, oy); for (int i = 1; i < 3; ++i) { w.at(i, 0).corr = w.at(i, 0).inl = 300; w.at(0, i).corr = w.at(0, i).inl = 300; w.at(0, i).h = inv(w.at(i, 0).h); } stitch(w); }
    for (int n = 2; n <= 5; ++n) for (int pos = 0; pos < 6; ++pos) for (int k = 0; k < 8; ++k) if (begin("program")) { make(n, pos % 3); World w = world(n); shifts(w, pos, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && (abs(i - j) == 1 || (i * 3 + j + k) % 3) && !(k == 7 && i == 0)) w.at(i, j).corr = w.at(i, j).inl = 50 + (i * 7 + j * 3 + k) * 10; stitch(w, true); }
    // fewer than two images, images that cannot be read
    for (int n = 0; n < 2; ++n) for (int k = 0; k < 2; ++k) if (begin("too-few")) { make(2, 0); std::vector<S> a{"stitch"}; if (n) a.push_back(files[0]); if (k) a.push_back(tmpfile("no-such.pgm")); if (n + k < 1 || n + k > 2) {} World w = world(2); W = &w; Args ar(a); divert = true; bool ok = guarded([&] { nx_stitch_main(ar.n(), ar.v()); }); divert = false; W = nullptr; step(); if (ok) fail("accepted"); state(n * 2 + k); }
}

#include "tools_p43.hh"
void mc_run() { if (S(PROP) == "P42") p42(); else p43(); }
