// P33: SIFT keypoints, descriptors, matching and their caches
#include "image_model.hh"
#include <cmath>
#include <climits>
#include <memory>
#include <algorithm>
#include <dirent.h>
extern "C" {
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_options.h"
}
using namespace mc; typedef std::string S;
typedef std::function<double(int, int)> Pic;
static std::vector<Pic> pics;
static double gz(double x, double y, double cx, double cy, double s) { return std::exp(-((x - cx) * (x - cx) + (y - cy) * (y - cy)) / (2 * s * s)); }
static void make_pics() {
    for (int k = 0; k < 4; ++k) pics.push_back([k](int x, int y) { // blobs of several sizes at irregular places over a faint ramp
        double v = 0.3 + 0.0013 * x - 0.0007 * y; uint64_t r = 77 + k * 1009;
        for (int i = 0; i < 14; ++i) { r = mix(r, i + 1); double cx = (r >> 8) % 6200 / 100.0 + 1, cy = (r >> 24) % 6200 / 100.0 + 1, s = 1.0 + (r >> 40) % 350 / 100.0, a = ((r >> 52) % 2 ? 0.35 : -0.25); v += a * gz(x, y, cx, cy, s); }
        return std::min(1.0, std::max(0.0, v)); });
    pics.push_back([](int x, int y) { return (mix(x * 131 + 7, y) >> 20) % 1000 / 1000.0; });                           // noise
    pics.push_back([](int x, int y) { return 0.5 + 0.3 * std::sin(x * 0.7 + 0.13 * y) * std::cos(y * 0.53 - 0.2 * x); }); // waves
    pics.push_back([](int x, int y) { return (x / 5 + y / 7) % 2 ? 0.9 : 0.15 + 0.01 * ((x * 3 + y) % 7); });              // checkers
    pics.push_back([](int x, int) { return x % 9 < 4 ? 0.2 : 0.8; });                                                     // stripes
    pics.push_back([](int, int) { return 0.5; });
    pics.push_back([](int x, int y) { return x == 14 && y == 13 ? 1.0 : x == 8 && y == 20 ? 0.0 : 0.4; });                 // impulses
    pics.push_back([](int x, int y) { return 0.1 + 0.8 * gz(x, y, 15.3, 15.8, 2.2) + 0.3 * gz(x, y, 19.0, 13.0, 1.3); });
}
struct Keys { // the buffers a caller hands over
    int cap, n = 0; NXKeypoint *k = nullptr; uchar *d = nullptr;
    Keys(int cap = 0) : cap(cap) { if (cap) { k = (NXKeypoint *)malloc(cap * sizeof *k); d = (uchar *)malloc(cap * 128); memset(k, 0x77, cap * sizeof *k); memset(d, 0x77, cap * 128); } }
    Keys(const Keys &) = delete; ~Keys() { free(k); free(d); }
};
static S ks(const NXKeypoint &k) { return fmt("(%d,%d | %.4f,%.4f level %d scale %g sigma %.4f score %.5f ori %.4f id %llu)", k.x, k.y, k.xs, k.ys, k.level, k.scale, k.sigma, k.score, k.ori, (unsigned long long)k.id); }
static bool keq(const NXKeypoint &a, const NXKeypoint &b) { return a.x == b.x && a.y == b.y && a.xs == b.xs && a.ys == b.ys && a.level == b.level && a.scale == b.scale && a.sigma == b.sigma && a.score == b.score && a.ori == b.ori && a.id == b.id; }
static bool same(const Keys &a, const Keys &b, const char *what) {
    if (a.n != b.n) { fail("%s: %d instead of %d keypoints", what, a.n, b.n); return false; }
    for (int i = 0; i < a.n; ++i) if (!keq(a.k[i], b.k[i]) || memcmp(a.d + 128 * i, b.d + 128 * i, 128)) { fail("%s: keypoint %d is %s instead of %s%s", what, i, ks(a.k[i]).c_str(), ks(b.k[i]).c_str(), keq(a.k[i], b.k[i]) ? " (descriptor)" : ""); return false; }
    return true;
}
static NXSIFTDetectorParams par(int dbl, int ns, int B, float peak, float edge = 10, float s0 = 1.6f, int mag = 3) { NXSIFTDetectorParams p = nx_sift_default_parameters(); p.double_image = dbl; p.n_scales_per_octave = ns; p.border_distance = B; p.peak_threshold = peak; p.edge_threshold = edge; p.sigma0 = s0; p.magnification_factor = mag; return p; }
static void compute(NXSIFTDetector *d, NXImage *im, Keys &k) { k.n = nx_sift_detector_compute(d, im, &k.cap, &k.k, &k.d); step(); if (k.n > k.cap) fail("%d keypoints in buffers for %d", k.n, k.cap); }
static void fresh(NXSIFTDetectorParams p, NXImage *im, Keys &k) { NXSIFTDetector *d = nx_sift_detector_new(p); compute(d, im, k); nx_sift_detector_free(d); }
static uint64_t khash(const Keys &k) { uint64_t h = k.n; for (int i = 0; i < k.n; ++i) h = mix(mix(h, k.k[i].x * 4096 + k.k[i].y), hash_bytes(k.d + 128 * i, 128)); return h; }
static bool invariants(const NXSIFTDetectorParams &p, int w, int h, const Keys &k) {
    for (int i = 0; i < k.n; ++i) {
        const NXKeypoint &e = k.k[i]; S bad; double sc = std::pow(2.0, e.level);
        if ((int)e.id != i) bad = "id"; else if (e.level < (p.double_image ? -1 : 0)) bad = "level"; else if (e.scale != (float)sc) bad = "scale";
        else if (e.x != (int)(e.xs + 0.5f) || e.y != (int)(e.ys + 0.5f)) bad = "rounding";
        else if (!(std::fabs(e.score) >= p.peak_threshold / p.n_scales_per_octave * 0.9999)) bad = "score";
        else if (!(e.ori >= -3.2f && e.ori <= 3.2f)) bad = "orientation";
        else if (!(e.sigma > 0 && e.sigma < 4 * p.sigma0 * 2)) bad = "sigma";
        else if (!(e.xs >= 0 && e.ys >= 0 && e.xs * sc <= w && e.ys * sc <= h)) bad = "position";
        double n2 = 0; for (int j = 0; j < 128; ++j) n2 += k.d[128 * i + j] * k.d[128 * i + j];
        if (bad.empty() && !(n2 <= 512 * 512 + 2000 && n2 >= 380 * 380)) bad = fmt("descriptor length %.1f", std::sqrt(n2));
        if (!bad.empty()) { fail("keypoint %d of a %dx%d image has a bad %s: %s", i, w, h, bad.c_str(), ks(e).c_str()); return false; }
    }
    return true;
}

// ---------------------------------------------------------------- reference detector on the library's scale space
struct Ref {
    NXSIFTDetectorParams p; const Keys &k; std::vector<char> used; int n_sure = 0, n_cand = 0, n_wild = 0, n_ori = 0; bool bad = false;
    struct Wild { int oct; double x, y; }; std::vector<Wild> wild;
    std::vector<NXImage *> L; double range = 1;
    Ref(NXSIFTDetectorParams p, const Keys &k) : p(p), k(k), used(k.n, 0) {}
    double dog(int i, int x, int y) const { return (double)(float)(px(L[i], x, y) - px(L[i + 1], x, y)); }
    double gx(int l, int x, int y) const { int w = L[l]->width; return x == 0 ? px(L[l], 1, y) - px(L[l], 0, y) : x == w - 1 ? px(L[l], x, y) - px(L[l], x - 1, y) : (px(L[l], x + 1, y) - px(L[l], x - 1, y)) / 2; }
    double gy(int l, int x, int y) const { int h = L[l]->height; return y == 0 ? px(L[l], x, 1) - px(L[l], x, 0) : y == h - 1 ? px(L[l], x, y) - px(L[l], x, y - 1) : (px(L[l], x, y + 1) - px(L[l], x, y - 1)) / 2; }
    void err(const S &m) { if (!bad) fail("%s", m.c_str()); bad = true; }
    void descriptor(int l, const NXKeypoint &e, const uchar *got) {
        S m = descriptor_at(l, e, got); if (!m.empty()) err(m);
    }
    // of several extrema that end at the same place, the one with the gradients of its own layer
    bool of_other_layer(int l, const NXKeypoint &e, const uchar *got) { if (p.n_scales_per_octave < 4 || descriptor_at(l, e, got).empty()) return false; for (int j : {l - 1, l + 1}) if (j >= 0 && j < (int)L.size() && descriptor_at(j, e, got).empty()) return true; return false; }
    S descriptor_at(int l, const NXKeypoint &e, const uchar *got) {
        double d[128] = {0}, ps = e.sigma * p.magnification_factor; int r = (int)(ps * 2.5 * std::sqrt(2.0) + 0.5), w = L[0]->width, h = L[0]->height; double c = std::cos(e.ori), s = std::sin(e.ori), ox = e.xs - e.x, oy = e.ys - e.y;
        for (int y = e.y - r; y <= e.y + r; ++y) for (int x = e.x - r; x <= e.x + r; ++x) if (x >= 0 && y >= 0 && x < w && y < h) {
            int dx = x - e.x, dy = y - e.y; double u = (c * dx - s * dy - ox) / ps, v = (s * dx + c * dy - oy) / ps; if (std::fabs(u) >= 2.5 || std::fabs(v) >= 2.5) continue;
            double a = gx(l, x, y), b = -gy(l, x, y), wgt = std::exp(-(u * u + v * v) / 8) * std::hypot(a, b), o = std::atan2(b, a) - e.ori; while (o < 0) o += 2 * M_PI; while (o >= 2 * M_PI) o -= 2 * M_PI;
            double X = u + 1.5, Y = v + 1.5, H = o * 8 / (2 * M_PI);
            for (int yi = 0; yi < 4; ++yi) for (int xi = 0; xi < 4; ++xi) { double wy = 1 - std::fabs(Y - yi), wx = 1 - std::fabs(X - xi); if (wy <= 0 || wx <= 0) continue; for (int hi = 0; hi < 8; ++hi) { double dh = std::fabs(H - hi); dh = std::min(dh, 8 - dh); if (dh < 1) d[(yi * 4 + xi) * 8 + hi] += wgt * wx * wy * (1 - dh); } }
        }
        auto unit = [&] { double n = 0; for (double q : d) n += q * q; n = std::sqrt(n); if (n > 0) for (double &q : d) q /= n; };
        unit(); for (double &q : d) q = std::min(q, 0.2); unit();
        for (int i = 0; i < 128; ++i) { double e2 = std::min(255.0, 512 * d[i]); if (std::fabs(got[i] + 0.5 - e2) > 2.0 && !(e2 < 1 && got[i] <= 1)) return fmt("descriptor element %d of keypoint %s is %d, expected %.2f", i, ks(e).c_str(), got[i], e2); }
        return "";
    }
    void orientations(int oct, int i, double sx, double sy, double sigma, double val, bool sure) {
        std::vector<int> mine; for (int j = 0; j < k.n; ++j) { const NXKeypoint &e = k.k[j]; if (!used[j] && e.level == oct && std::fabs(e.xs - sx) < 0.02 && std::fabs(e.ys - sy) < 0.02 && std::fabs(e.sigma - sigma) < 0.02 * sigma && !of_other_layer(i - 1, e, k.d + 128 * j)) mine.push_back(j); }
        if (mine.empty() && !sure) return;
        double x = mine.empty() ? sx : k.k[mine[0]].xs, y = mine.empty() ? sy : k.k[mine[0]].ys, sg = 1.5 * (mine.empty() ? sigma : k.k[mine[0]].sigma);
        double hist[36] = {0}, amb = 0; int r = (int)(float)(sg * 3), w = L[0]->width, h = L[0]->height, xi = (int)(float)(x + 0.5), yi = (int)(float)(y + 0.5);
        if (std::fabs(sg * 3 - std::round(sg * 3)) < 1e-3 || std::fabs(x + 0.5 - std::round(x + 0.5)) < 1e-3 || std::fabs(y + 0.5 - std::round(y + 0.5)) < 1e-3) amb = 1e30;
        for (int v = yi - r; v <= yi + r; ++v) for (int u = xi - r; u <= xi + r; ++u) if (v > 0 && u > 0 && v < h - 2 && u < w - 2) {
            double dr = (u - x) * (u - x) + (v - y) * (v - y); double a = gx(i - 1, u, v), b = -gy(i - 1, u, v), wg = std::exp(-0.5 * dr / (sg * sg)) * std::hypot(a, b);
            if (std::fabs(dr - (r * r + 0.5)) < 1e-3) amb += wg; if (dr > r * r + 0.5) continue;
            double f = 36 * (std::atan2(b, a) + M_PI + 1e-5) / (2 * M_PI); int bin = std::min(35, (int)f); if (std::fabs(f - std::round(f)) < 2e-4) amb += wg; hist[bin] += wg;
        }
        for (int t = 0; t < 6; ++t) { double o[36]; for (int q = 0; q < 36; ++q) o[q] = (hist[(q + 35) % 36] + hist[q] + hist[(q + 1) % 36]) / 3; memcpy(hist, o, sizeof o); }
        double peak = *std::max_element(hist, hist + 36), e = 1e-4 * peak; ++n_ori;
        if (amb > e) { for (int j : mine) { used[j] = 1; check_fields(k.k[j], val, sure, j); descriptor(i - 1, k.k[j], k.d + 128 * j); } ++n_wild; return; }
        std::vector<char> got(mine.size(), 0);
        for (int q = 0; q < 36; ++q) {
            double m = hist[(q + 35) % 36], c = hist[q], n = hist[(q + 1) % 36]; if (c <= m - e || c <= n - e || c <= 0.8 * peak - e) continue;
            bool s = sure && c > m + e && c > n + e && c > 0.8 * peak + e; double off = -0.5 * (n - m) / (m + n - 2 * c), ori = M_PI * (2 * (q + 0.5 + off) / 36 - 1); bool hit = false;
            for (size_t j = 0; j < mine.size(); ++j) { double df = std::fabs(k.k[mine[j]].ori - ori); df = std::min(df, 2 * M_PI - df); if (!got[j] && df < (s ? 0.01 : 0.2)) { got[j] = 1; used[mine[j]] = 1; hit = true; check_fields(k.k[mine[j]], val, sure, mine[j]); descriptor(i - 1, k.k[mine[j]], k.d + 128 * mine[j]); break; } }
            if (s && !hit) err(fmt("no keypoint of orientation %.4f at (%.3f,%.3f) of octave %d, sigma %.3f, score %.5f", ori, sx, sy, oct, sigma, val));
        }
// what is left over must belong to another extremum that ends at the same place
    }
    void check_fields(const NXKeypoint &e, double val, bool, int) { if (std::fabs(e.score - val) > 1e-3 * range) err(fmt("keypoint %s should have score %.5f", ks(e).c_str(), val)); }
    void candidate(int oct, double sig0, int i, int x, int y, bool sure) {
        const int w = L[0]->width, h = L[0]->height, ns = p.n_scales_per_octave; const double thr = p.peak_threshold / ns; double b[3], val = 0; int t = 0, x0 = x, y0 = y;
        for (;; ++t) {
            if (t == 5) { wild.push_back({oct, (double)x0, (double)y0}); return; }
            auto D = [&](int a, int dx, int dy) { return dog(i + a, x + dx, y + dy); };
            double g[3] = {(D(0, 1, 0) - D(0, -1, 0)) / 2, (D(0, 0, 1) - D(0, 0, -1)) / 2, (D(1, 0, 0) - D(-1, 0, 0)) / 2}, c = D(0, 0, 0);
            double A = D(0, -1, 0) - 2 * c + D(0, 1, 0), Bm = (D(0, 1, 1) - D(0, -1, 1) - D(0, 1, -1) + D(0, -1, -1)) / 4, C = (D(1, 1, 0) - D(1, -1, 0) - D(-1, 1, 0) + D(-1, -1, 0)) / 4, E = D(0, 0, -1) - 2 * c + D(0, 0, 1), F = (D(1, 0, 1) - D(1, 0, -1) - D(-1, 0, 1) + D(-1, 0, -1)) / 4, H = D(-1, 0, 0) - 2 * c + D(1, 0, 0);
            double det = A * (E * H - F * F) - Bm * (Bm * H - F * C) + C * (Bm * F - E * C), m = std::max({std::fabs(A), std::fabs(Bm), std::fabs(C), std::fabs(E), std::fabs(F), std::fabs(H)});
            if (!(std::fabs(det) > 1e-4 * m * m * m) || m < 1e-4 * range) { wild.push_back({oct, (double)x0, (double)y0}); return; }
            double r[3] = {-g[0], -g[1], -g[2]};
            b[0] = (r[0] * (E * H - F * F) - Bm * (r[1] * H - F * r[2]) + C * (r[1] * F - E * r[2])) / det;
            b[1] = (A * (r[1] * H - F * r[2]) - r[0] * (Bm * H - F * C) + C * (Bm * r[2] - r[1] * C)) / det;
            b[2] = (A * (E * r[2] - r[1] * F) - Bm * (Bm * r[2] - r[1] * C) + r[0] * (Bm * F - E * C)) / det;
            val = c + 0.5 * (g[0] * b[0] + g[1] * b[1] + g[2] * b[2]);
            for (int q = 0; q < 2; ++q) if (std::fabs(std::fabs(b[q]) - 0.6) < 0.01) { wild.push_back({oct, (double)x0, (double)y0}); return; }
            int dx = b[0] > 0.6 && x < w - 3 ? 1 : b[0] < -0.6 && x > 3 ? -1 : 0, dy = b[1] > 0.6 && y < h - 3 ? 1 : b[1] < -0.6 && y > 3 ? -1 : 0;
            if (!dx && !dy) break;
            x += dx; y += dy;
        }
        double m = std::max({std::fabs(b[0]), std::fabs(b[1]), std::fabs(b[2])});
        if (std::fabs(m - 1.5) < 0.02 || std::fabs(std::fabs(val) - thr) < 1e-4 * range) { wild.push_back({oct, (double)x0, (double)y0}); return; }
        if (m > 1.5 || std::fabs(val) < thr) return;
        orientations(oct, i, x + b[0], y + b[1], sig0 * std::pow(2.0, (i + b[2]) / ns), val, sure); n_sure += sure;
    }
    void octave(int oct, double sig0) {
        const int w = L[0]->width, h = L[0]->height, B = p.border_distance, ns = p.n_scales_per_octave; const double thr = p.peak_threshold / ns, e = 2e-6 * range, q = p.edge_threshold;
        for (int i = 1; i <= ns && !bad; ++i) for (int y = B; y < h - B; ++y) for (int x = B; x < w - B; ++x) {
            double v = dog(i, x, y); if (std::fabs(v) <= 0.8 * thr - e) continue; double s = v > 0 ? 1 : -1, near = 1e30;
            for (int a = -1; a <= 1; ++a) for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) if (a || dx || dy) near = std::min(near, s * (v - dog(i + a, x + dx, y + dy)));
            if (near <= -e) continue;
            double HA = dog(i, x, y - 1) - 2 * v + dog(i, x, y + 1), HB = dog(i, x - 1, y) - 2 * v + dog(i, x + 1, y), HC = (dog(i, x + 1, y + 1) - dog(i, x - 1, y + 1) - dog(i, x + 1, y - 1) + dog(i, x - 1, y - 1)) / 4, l = (HA * HB - HC * HC) * (q + 1) * (q + 1), rr = q * (HA + HB) * (HA + HB), tol = 1e-3 * (std::fabs(l) + std::fabs(rr)) + e * e;
            if (l < rr - tol) continue; ++n_cand;
            candidate(oct, sig0, i, x, y, near > e && l > rr + tol && std::fabs(v) > 0.8 * thr + e);
        }
    }
    void run(const NXImage *image) {
        const int ns = p.n_scales_per_octave, MIN = 2 * p.border_distance + 2; float sc = 0.5f; int oct = 0; NXImage *t = nx_image_alloc(), *f = nx_image_alloc(), *u = nx_image_alloc();
        if (p.double_image) { nx_image_upsample(u, image); image = u; sc *= 2; --oct; }
        nx_image_resize(f, image->width, image->height, NX_IMAGE_STRIDE_DEFAULT, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32); nx_image_convert_dtype(f, image);
        range = 0; for (int y = 0; y < f->height; ++y) for (int x = 0; x < f->width; ++x) range = std::max(range, std::fabs(px(f, x, y)));
        if (p.sigma0 > sc) { float g = std::sqrt(p.sigma0 * p.sigma0 - sc * sc); nx_image_smooth(f, f, g, g, p.kernel_truncation_factor, NULL); sc = p.sigma0; }
        for (int i = 0; i < ns + 3; ++i) L.push_back(nx_image_alloc());
        nx_image_copy(L[0], f);
        while (L[0]->width > MIN && L[0]->height > MIN && !bad) {
            float m = std::pow(2.0, 1.0 / ns), c = sc; for (int i = 1; i < ns + 3; ++i) { float d = m * c, g = std::sqrt(d * d - c * c); nx_image_smooth(L[i], L[i - 1], g, g, p.kernel_truncation_factor, NULL); c *= m; }
            octave(oct, sc); nx_image_downsample(t, L[ns]); nx_image_copy(L[0], t); ++oct;
        }
        for (int j = 0; j < k.n && !bad; ++j) if (!used[j]) { bool ok = false; for (auto &q : wild) ok |= q.oct == k.k[j].level && std::fabs(q.x - k.k[j].xs) < 7 && std::fabs(q.y - k.k[j].ys) < 7; if (!ok) err("keypoint " + ks(k.k[j]) + " is no extremum of the difference of Gaussians"); }
        for (auto *i : L) nx_image_free(i); nx_image_free(t); nx_image_free(f); nx_image_free(u);
    }
};

static S scratch_dir(const char *n) { S d = tmpfile(n); mkdir(d.c_str(), 0700); return d; }
static std::vector<S> ls(const S &d) { std::vector<S> o; if (DIR *D = opendir(d.c_str())) { while (dirent *e = readdir(D)) if (e->d_name[0] != '.') o.push_back(d + "/" + e->d_name); closedir(D); } std::sort(o.begin(), o.end()); return o; }
static void clear_dir(const S &d) { for (auto &f : ls(d)) unlink(f.c_str()); }
struct NXParams { int dbl, ns, B; float peak, edge, s0; int mag; };
static const NXParams PS[] = {{0, 3, 5, 0.04f, 10, 1.6f, 3}, {1, 3, 5, 0.04f, 10, 1.6f, 3}, {0, 2, 4, 0.02f, 6, 1.2f, 2}, {1, 1, 3, 0.01f, 20, 2.f, 3}, {0, 4, 7, 0.005f, 10, 1.6f, 4}, {0, 3, 3, 0.1f, 4, 0.4f, 3}, {0, 5, 5, 0.03f, 10, 1.6f, 3}, {0, 7, 4, 0.06f, 12, 1.3f, 2}};
static NXSIFTDetectorParams pp(int i) { const NXParams &p = PS[i]; return par(p.dbl, p.ns, p.B, p.peak, p.edge, p.s0, p.mag); }
const int N_PS = sizeof PS / sizeof *PS;

static void detection() {
    // small images of all shapes
    const int M = pick(22, 36);
    for (int w = 1; w <= M; ++w) for (int h = 1; h <= M; ++h) for (int pic : {0, 4, 6, 9}) for (int ps = 0; ps < N_PS; ++ps) if ((w + h + ps) % 3 == 0 || thorough()) if (begin("small-images")) {
        describe([&] { return fmt("%dx%d picture %d parameters %d: field invariants, same result for all buffers", w, h, pic, ps); });
        Src s(w, h, (w + h) % 3 * 2, (w + pic) % 2, false, [&](int x, int y, int) { double v = pics[pic](x, y); return (w + pic) % 2 ? v : std::floor(255 * v); });
        NXSIFTDetectorParams p = pp(ps); size_t h0 = heap();
        { Keys a; fresh(p, s.im, a); invariants(p, w, h, a);
          for (int cap : {1, 2, 3, 200}) { Keys b(cap); fresh(p, s.im, b); if (!same(b, a, fmt("with room for %d keypoints", cap).c_str())) break; }
          state(khash(a)); }
        if (heap() != h0) fail("%zd bytes are leaked", heap() - h0);
        if (!s.untouched()) fail("the image is changed");
    }
    // pictures against the reference
    for (int pic = 0; pic < (int)pics.size(); ++pic) for (int ps = 0; ps < N_PS; ++ps) for (int sz = 0; sz < pick(4, 12); ++sz) for (int dt = 0; dt < 2; ++dt) if (begin("pictures")) {
        static const int SZ[][2] = {{33, 33}, {64, 48}, {47, 61}, {24, 90}, {40, 40}, {65, 65}, {31, 64}, {90, 33}, {57, 36}, {28, 28}, {100, 80}, {50, 70}}; int w = SZ[sz][0], h = SZ[sz][1]; if (pic == 4 && ps == 4 && !thorough()) w = h = 33;
        describe([&] { return fmt("%dx%d picture %d parameters %d %s against the reference", w, h, pic, ps, dt ? "float" : "bytes"); });
        Src s(w, h, (w % 2) * 3, dt, false, [&](int x, int y, int) { double v = pics[pic](x, y); return dt ? v : std::floor(255 * v); });
        NXSIFTDetectorParams p = pp(ps); Keys a; fresh(p, s.im, a); invariants(p, w, h, a);
        Ref r(p, a); r.run(s.im); step(r.n_cand); state(mix(khash(a), r.n_cand));
        if (G.replay) printf("%d keypoints, %d candidates, %d certain, %d orientations of which %d ambiguous, %zu uncertain locations\n", a.n, r.n_cand, r.n_sure, r.n_ori, r.n_wild, r.wild.size());
        // the data type only changes the unit of the pixels
        if (!s.untouched()) fail("the image is changed");
    }
    // large pictures with structures up to the highest octaves
    for (int sz = 0; sz < pick(3, 6); ++sz) for (int ps : {0, 1, 6}) for (int pic : {0, 5}) if ((ps != 1 || sz == 0 || thorough()) && begin("octaves")) {
        static const int SZ[][2] = {{230, 216}, {300, 420}, {201, 500}, {410, 405}, {800, 210}, {640, 480}}; int w = SZ[sz][0], h = SZ[sz][1]; describe([&] { return fmt("%dx%d picture %d parameters %d against the reference", w, h, pic, ps); });
        auto g = [&](double x, double y) { double v = 0.4; for (int k = 0; k < 9; ++k) { double q = 9 << (k % 3); v += (k & 1 ? -0.25 : 0.4) * gz(x, y, w * (0.17 + 0.31 * (k / 3)), h * (0.2 + 0.29 * (k % 3)), (k + pic) % 3 == 0 ? q : q * 1.3); } return v + 0.0007 * x; };
        Src s(w, h, 4, sz % 2, false, [&](int x, int y, int) { double v = std::min(1.0, std::max(0.0, g(x, y))); return sz % 2 ? v : std::floor(255 * v); });
        NXSIFTDetectorParams p = pp(ps); Keys a; fresh(p, s.im, a); invariants(p, w, h, a); Ref r(p, a); r.run(s.im); step(r.n_cand); state(mix(khash(a), r.n_cand)); if (G.replay) { int m = -9; for (int i = 0; i < a.n; ++i) m = std::max(m, a.k[i].level); printf("%d keypoints, up to octave %d\n", a.n, m); }
        beat();
    }
    // a single blob is found where it is, at its size, with the orientation of a superposed ramp
    for (int sg = 0; sg < 5; ++sg) for (int ox = 0; ox < 5; ++ox) for (int oy = 0; oy < 5; ++oy) for (int th = -1; th < 12; ++th) for (int sign = 0; sign < 2; ++sign) for (int dbl = 0; dbl < 2; ++dbl) if (((sg + ox + oy + th + sign + dbl) % 4 == 0) || thorough()) if (begin("single-blob")) {
        static const double SG[] = {2.2, 2.8, 3.5, 4.3, 5.2}; double s0 = SG[sg], cx = 30.07 + ox * 0.2, cy = 30.87 - oy * 0.2, ang = th * M_PI / 6, ramp = th < 0 ? 0 : 0.12 / s0;
        describe([&] { return fmt("%s blob of sigma %.1f at (%.2f,%.2f), ramp %s%.2f rad, doubled %d", sign ? "dark" : "bright", s0, cx, cy, th < 0 ? "none " : "", ang, dbl); });
        Src s(61, 63, 0, true, false, [&](int x, int y, int) { return 0.5 + (sign ? -0.3 : 0.3) * gz(x, y, cx, cy, s0) + ramp * ((x - cx) * std::cos(ang) - (y - cy) * std::sin(ang)); });
        Keys a; fresh(par(dbl, 3, 5, 0.04f), s.im, a); invariants(par(dbl, 3, 5, 0.04f), 61, 63, a);
        bool found = false; double bestd = 1e9; S l;
        for (int i = 0; i < a.n; ++i) {
            const NXKeypoint &e = a.k[i]; double d = std::hypot(nx_keypoint_xs0(&e) - cx, nx_keypoint_ys0(&e) - cy), ss = e.sigma * e.scale; l += ks(e) + " ";
            if (d < 0.6 + 0.1 * s0 && ss > 0.6 * s0 && ss < 1.7 * s0 && (e.score < 0) == (sign == 1)) { double od = th < 0 ? 0 : std::fabs(std::remainder(e.ori - ang, 2 * M_PI)); bestd = std::min(bestd, od); if (od < 0.3) found = true; }
        }
        if (!found) fail("%s blob of sigma %.1f at (%.2f,%.2f) is not found (%d keypoints: %s; orientation off by %.3f)", sign ? "dark" : "bright", s0, cx, cy, a.n, l.c_str(), bestd);
        state(khash(a));
    }
    // turned pictures give the turned keypoints: sizes 2^k+1 are subsampled symmetrically
    for (int pic : {0, 1, 2, 3, 5, 10}) for (int ps : {0, 2, 4, 5}) for (int rot = 0; rot < 8; ++rot) if (begin("symmetries")) {
        describe([&] { return fmt("picture %d parameters %d symmetry %d", pic, ps, rot); }); const int N = 65; NXSIFTDetectorParams p = pp(ps); p.edge_threshold = 1e6f;
        auto map = [&](double x, double y, double &u, double &v) { u = x; v = y; if (rot & 4) u = N - 1 - u; for (int q = 0; q < (rot & 3); ++q) { double t = u; u = v; v = N - 1 - t; } };
        Src A(N, N, 0, true, false, [&](int x, int y, int) { return pics[pic](x, y); });
        std::vector<double> turned(N * N); for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) { double u, v; map(x, y, u, v); turned[(int)v * N + (int)u] = A.at(x, y); }
        Src B(N, N, 1, true, false, [&](int x, int y, int) { return turned[y * N + x]; });
        Keys a, b; fresh(p, A.im, a); fresh(p, B.im, b);
        // what is stable under small changes of the threshold must be there
        NXSIFTDetectorParams hi = p; hi.peak_threshold *= 1.05f; hi.border_distance += 1; Keys c; fresh(hi, A.im, c); int miss = 0, tot = 0; S first;
        for (int i = 0; i < c.n; ++i) {
            const NXKeypoint &e = c.k[i]; double sc = e.scale, u, v, nl = (N - 1) / sc, lim = 4.5 * e.sigma + 3; if (std::min({(double)e.xs, (double)e.ys, nl - e.xs, nl - e.ys}) < lim) continue; map(nx_keypoint_xs0(&e), nx_keypoint_ys0(&e), u, v); double o = e.ori; if (rot & 4) o = M_PI - o; o += (rot & 3) * M_PI / 2; bool ok = false; ++tot;
            for (int j = 0; j < b.n; ++j) ok |= b.k[j].level == e.level && std::hypot(nx_keypoint_xs0(&b.k[j]) - u, nx_keypoint_ys0(&b.k[j]) - v) < 0.05 * sc && std::fabs(b.k[j].score - e.score) < 1e-3 && std::fabs(std::remainder(b.k[j].ori - o, 2 * M_PI)) < 0.02;
            if (!ok) { ++miss; if (first.empty()) first = ks(e) + fmt(" expected at (%.3f,%.3f) ori %.3f", u, v, std::remainder(o, 2 * M_PI)); }
        }
        if (G.replay) printf("%d keypoints compared\n", tot);
        if (miss) fail("%d of %d keypoints are not found in the turned picture, first %s", miss, tot, first.c_str());
        state(mix(khash(b), rot));
    }
    // intensity scaled by powers of two, thresholds with it; padding; detector histories
    for (int pic = 0; pic < (int)pics.size(); ++pic) for (int ps = 0; ps < N_PS; ++ps) if (begin("intensity-units")) {
        describe([&] { return fmt("picture %d parameters %d in other units", pic, ps); }); const int w = 45, h = 38; NXSIFTDetectorParams p = pp(ps); Keys a; { Src s(w, h, 0, true, false, [&](int x, int y, int) { return pics[pic](x, y); }); fresh(p, s.im, a); }
        for (int e : {-4, 1, 8}) { Src s(w, h, 5, true, false, [&](int x, int y, int) { return std::ldexp((float)pics[pic](x, y), e); }); NXSIFTDetectorParams q = p; q.peak_threshold = std::ldexp(p.peak_threshold, e); Keys b; fresh(q, s.im, b); for (int i = 0; i < b.n; ++i) b.k[i].score = std::ldexp(b.k[i].score, -e); if (!same(b, a, fmt("intensities times 2^%d", e).c_str())) break; }
        state(khash(a));
    }
    const int L = pick(3, 4);
    for (int ps = 0; ps < N_PS; ++ps) { int total = 1; for (int i = 0; i < L; ++i) total *= 6; for (int seq = 0; seq < total; ++seq) if (begin("detector-histories")) {
        static const int W[] = {33, 20, 9, 40, 24, 33}, H[] = {33, 30, 9, 26, 24, 33}; describe([&] { return fmt("parameters %d, history %d: each result is that of a fresh detector", ps, seq); });
        NXSIFTDetectorParams p = pp(ps); NXSIFTDetector *d = nx_sift_detector_new(p); Keys run(2); int c = seq; uint64_t hs = ps;
        for (int i = 0; i < L; ++i, c /= 6) { int o = c % 6; Src s(W[o], H[o], o % 2, o != 4, false, [&](int x, int y, int) { double v = pics[o == 5 ? 5 : o](x, y); return o != 4 ? v : std::floor(255 * v); }); Keys a; fresh(p, s.im, a); compute(d, s.im, run); if (!same(run, a, fmt("after %d images", i).c_str())) break; hs = mix(hs, khash(run)); state(hs); }
        nx_sift_detector_free(d);
    } }
    // options
    for (int m = 0; m < 256; ++m) if (begin("options")) {
        describe([&] { return fmt("options given: mask %d", m); }); NXOptions *o = nx_options_alloc(); nx_sift_parameters_add_to_options(o);
        static const char *N[] = {"--sift-double-image", "--sift-n-scales-per-octave", "--sift-sigma0", "--sift-kernel-truncation-factor", "--sift-border-distance", "--sift-peak-threshold", "--sift-edge-threshold", "--sift-magnification-factor"}; static const char *V[] = {"", "7", "2.25", "3.5", "9", "0.125", "12.5", "6"};
        std::vector<S> a = {"prog"}; for (int i = 0; i < 8; ++i) if (m >> i & 1) { a.push_back(N[i]); if (*V[i]) a.push_back(V[i]); } std::vector<char *> v; for (auto &e : a) v.push_back(&e[0]); v.push_back(nullptr);
        nx_options_set_from_args(o, (int)a.size(), v.data()); NXSIFTDetectorParams p = nx_sift_parameters_from_options(o), d = nx_sift_default_parameters(); step();
        bool ok = (m & 1 ? p.double_image != 0 : true) && p.n_scales_per_octave == (m & 2 ? 7 : d.n_scales_per_octave) && p.sigma0 == (m & 4 ? 2.25f : d.sigma0) && p.kernel_truncation_factor == (m & 8 ? 3.5f : d.kernel_truncation_factor) && p.border_distance == (m & 16 ? 9 : d.border_distance) && p.peak_threshold == (m & 32 ? 0.125f : d.peak_threshold) && p.edge_threshold == (m & 64 ? 12.5f : d.edge_threshold) && p.magnification_factor == (m & 128 ? 6 : d.magnification_factor);
        if (!ok) fail("option mask %d gives double %d scales %d sigma0 %g truncation %g border %d peak %g edge %g magnification %d", m, p.double_image, p.n_scales_per_octave, p.sigma0, p.kernel_truncation_factor, p.border_distance, p.peak_threshold, p.edge_threshold, p.magnification_factor);
        nx_options_free(o); state(m);
    }
}

static void caches() {
    S dir = scratch_dir("siftcache");
    // every history of cached computations over variants of image, shape, type, parameters and buffers
    struct V { int w, h, pic, ps; bool f32; int pad; int tweak; };
    static const V VS[] = {{24, 30, 4, 0, true, 0, 0}, {30, 24, 4, 0, true, 0, 0}, {24, 30, 4, 0, false, 0, 0}, {24, 30, 4, 2, true, 0, 0}, {24, 30, 4, 0, true, 3, 0}, {24, 30, 4, 0, true, 0, 1}, {24, 30, 8, 0, true, 0, 0}, {24, 30, 4, 0, true, 0, 2}, {30, 24, 4, 0, false, 0, 3}, {24, 30, 4, 0, false, 0, 3}};
    const int NV = sizeof VS / sizeof *VS;
    auto mk = [&](const V &v) { return new Src(v.w, v.h, v.pad, v.f32, false, [&](int x, int y, int) {
        double g = pics[v.pic](x, y); if (v.tweak == 1 && x == 23 && y == 29) g += 0.25; if (v.tweak == 2 && x == 12 && y == 14) g += 1e-6; if (v.tweak == 3) { int i = y * v.w + x; g = pics[4](i % 37, i / 37); } return v.f32 ? g : std::floor(255 * g); }); };
    std::vector<std::unique_ptr<Keys>> ex; for (auto &v : VS) { ex.emplace_back(new Keys); Src *s = mk(v); fresh(pp(v.ps), s->im, *ex.back()); delete s; }
    const int L = pick(3, 4); int total = 1; for (int i = 0; i < L; ++i) total *= NV;
    for (int seq = 0; seq < total; ++seq) if (begin("cache-histories")) {
        describe([&] { int c = seq; S s; for (int i = 0; i < L; ++i, c /= NV) s += fmt(" %d", c % NV); return "cached computations of variants" + s; });
        clear_dir(dir); int c = seq; Keys run(1); uint64_t hs = 1; std::vector<char> seen(NV, 0); size_t files = 0;
        for (int i = 0; i < L; ++i, c /= NV) {
            int v = c % NV; Src *s = mk(VS[v]); NXSIFTDetector *d = nx_sift_detector_new(pp(VS[v].ps)); Keys other; Keys &b = i % 2 ? other : run;
            if (!guarded([&] { b.n = nx_sift_detector_compute_with_cache(d, s->im, &b.cap, &b.k, &b.d, dir.c_str()); })) fail("cached computation fails"); step();
            if (b.cap < b.n) fail("%d keypoints are delivered with room for %d", b.n, b.cap); same(b, *ex[v], fmt("variant %d, call %d with a cache", v, i).c_str());
            size_t n = ls(dir).size(); if (seen[v] && n != files) fail("a repeated computation is not taken from the cache"); files = n; seen[v] = 1;
            if (!s->untouched()) fail("the image is changed");
            hs = mix(hs, v); state(hs); nx_sift_detector_free(d); delete s;
        }
    }
    for (int v = 0; v < NV; ++v) for (int hit = 0; hit < 2; ++hit) if (begin("cache-leaks")) {
        describe([&] { return fmt("variant %d %s", v, hit ? "from the cache" : "into the cache"); });
        Src *s = mk(VS[v]); NXSIFTDetector *d = nx_sift_detector_new(pp(VS[v].ps)); Keys b(4000); for (int i = 0; i < 2; ++i) { clear_dir(dir); for (int j = 0; j <= hit; ++j) { size_t h0 = heap(); b.n = nx_sift_detector_compute_with_cache(d, s->im, &b.cap, &b.k, &b.d, dir.c_str()); step(); if (i && heap() != h0) fail("%zd bytes are leaked", heap() - h0); } }
        NXPointMatch2D m[8]; int q = std::min(b.n, 8); for (int i = 0; i < 2; ++i) { clear_dir(dir); for (int j = 0; j <= hit; ++j) { size_t h0 = heap(); nx_sift_match_brute_force_with_cache(q, b.k, b.d, q, b.k, b.d, m, 0, dir.c_str()); step(); if (i && heap() != h0) fail("%zd bytes are leaked by cached matching", heap() - h0); } }
        nx_sift_detector_free(d); delete s; state(v * 2 + hit);
    }
    // two computations that differ in one respect share a cache
    auto pair = [&](const char *what, NXSIFTDetectorParams p, Src &s, NXSIFTDetectorParams q, Src &t) {
        clear_dir(dir); for (int i = 0; i < 3; ++i) { NXSIFTDetectorParams &x = i == 1 ? q : p; Src &y = i == 1 ? t : s; Keys a, b(i); fresh(x, y.im, a); NXSIFTDetector *d = nx_sift_detector_new(x); if (!guarded([&] { b.n = nx_sift_detector_compute_with_cache(d, y.im, &b.cap, &b.k, &b.d, dir.c_str()); })) fail("cached computation fails"); step(); nx_sift_detector_free(d); if (b.cap < b.n) fail("%d keypoints are delivered with room for %d", b.n, b.cap); if (!same(b, a, what)) break; state(khash(a)); } clear_dir(dir); };
    for (int ps = 0; ps < N_PS; ++ps) for (int w = 0; w < 8; ++w) for (int up = 0; up < 2; ++up) if (begin("cache-parameters")) {
        describe([&] { return fmt("parameters %d, then number %d changed (%d), then again", ps, w, up); }); NXSIFTDetectorParams p = pp(ps), q = p; float f = up ? 1.25f : 0.8f;
        switch (w) { case 0: q.double_image = !q.double_image; break; case 1: q.n_scales_per_octave += up ? 1 : p.n_scales_per_octave > 1 ? -1 : 2; break; case 2: q.sigma0 *= f; break; case 3: q.kernel_truncation_factor *= up ? 0.7f : 0.5f; break; case 4: q.border_distance += up ? 2 : 1; break; case 5: q.peak_threshold *= up ? 2 : 0.5f; break; case 6: q.edge_threshold *= up ? 2 : 0.5f; break; case 7: q.magnification_factor += up ? 1 : 2; break; }
        Src s(36, 33, 0, true, false, [&](int x, int y, int) { return pics[ps % 2 ? 4 : 0](x, y); }); pair("a changed parameter", p, s, q, s); }
    for (int f32 = 0; f32 < 2; ++f32) for (int pad : {0, 5}) for (int y0 = 0; y0 < 28; y0 += y0 == 26 ? 1 : pick(3, 1)) for (int x0 = 0; x0 < 30; x0 += x0 == 28 ? 1 : pick(4, 1)) if (begin("cache-pixels")) {
        describe([&] { return fmt("%s image padded by %d, pixel %d %d changed", f32 ? "float" : "byte", pad, x0, y0); });
        auto mk2 = [&](bool ch) { return new Src(30, 28, pad, f32, false, [&](int x, int y, int) { double v = 0.5 * pics[4](x, y) + (ch && x == x0 && y == y0 ? 0.45 : 0); return f32 ? v : std::floor(255 * v); }); }; std::unique_ptr<Src> s(mk2(false)), t(mk2(true)); NXSIFTDetectorParams p = par(0, 3, 2, 0.01f, 20, 0.6f, 3); pair("a changed pixel", p, *s, p, *t); }
    { static const int SH[][2] = {{36, 30}, {30, 36}, {27, 40}, {40, 27}, {24, 45}, {45, 24}, {20, 54}, {54, 20}}; for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) for (int f32 = 0; f32 < 2; ++f32) for (int pad : {0, 3}) if (a != b && begin("cache-shapes")) {
        describe([&] { return fmt("the same pixels as %dx%d and %dx%d", SH[a][0], SH[a][1], SH[b][0], SH[b][1]); }); auto mk2 = [&](int k) { int w = SH[k][0]; return new Src(w, SH[k][1], pad, f32, false, [&](int x, int y, int) { int i = y * w + x; double v = pics[4](i % 37, i / 37); return f32 ? v : std::floor(255 * v); }); }; std::unique_ptr<Src> s(mk2(a)), t(mk2(b)); NXSIFTDetectorParams p = par(0, 3, 2, 0.01f, 20, 0.6f, 3); pair("another shape", p, *s, p, *t); } }
    // what a crash while writing leaves behind: every prefix of the cache file
    for (int v : {0, 2, 6}) {
        Src *s = mk(VS[v]); clear_dir(dir); NXSIFTDetector *d = nx_sift_detector_new(pp(VS[v].ps)); Keys a; a.n = nx_sift_detector_compute_with_cache(d, s->im, &a.cap, &a.k, &a.d, dir.c_str()); auto f = ls(dir); S data = f.size() == 1 ? read_file(f[0]) : "";
        if (f.size() != 1) { if (begin("cache-crashes")) fail("%zu cache files", f.size()); }
        else for (size_t n = 0; n <= data.size(); n += (n > 3000 && n + 300 < data.size() && !thorough() ? 17 : 1)) if (begin("cache-crashes")) {
            describe([&] { return fmt("variant %d, cache file cut to %zu of %zu bytes", v, n, data.size()); });
            write_file(f[0], data.substr(0, n)); Keys b(3); bool ok = guarded([&] { b.n = nx_sift_detector_compute_with_cache(d, s->im, &b.cap, &b.k, &b.d, dir.c_str()); }); step();
            if (ok) same(b, *ex[v], fmt("cache file cut to %zu of %zu bytes", n, data.size()).c_str());
            else if (n == data.size()) fail("a complete cache file is not read");
            state(mix(v, n));
        }
        nx_sift_detector_free(d); delete s; clear_dir(dir);
    }
    // matches
    auto mkkeys = [](int n, int kind, std::vector<NXKeypoint> &k, std::vector<uchar> &d) {
        k.assign(n, NXKeypoint()); memset((void *)k.data(), 0, n * sizeof(NXKeypoint)); d.assign(n * 128 + 1, 0); d.resize(n * 128);
        if (kind) for (int i = 0; i < n; ++i) { k[i].xs = i * 3.25f + kind; k[i].ys = 7 - i; k[i].scale = i % 2 ? 2 : 0.5f; k[i].id = 100 * kind + i; k[i].level = i; for (int j = 0; j < 128; ++j) d[i * 128 + j] = (uchar)(mix(kind * 7 + i % 3, j) % 256); } };
    auto eqm = [](const NXPointMatch2D &a, const NXPointMatch2D &b) { return a.x[0] == b.x[0] && a.x[1] == b.x[1] && a.xp[0] == b.xp[0] && a.xp[1] == b.xp[1] && a.match_cost == b.match_cost && a.sigma_x == b.sigma_x && a.sigma_xp == b.sigma_xp && a.id == b.id && a.idp == b.idp && a.is_inlier == b.is_inlier; };
    struct M { int n, np, kind, kindp; float thr; }; std::vector<M> ms; for (int n : {0, 1, 2, 3}) for (int np : {0, 1, 2}) for (int kind : {0, 1}) ms.push_back({n, np, kind, kind * 2, 0.f}); ms.push_back({2, 2, 1, 2, 0.9f}); ms.push_back({2, 2, 2, 1, 0.9f}); ms.push_back({2, 2, 1, 2, 0.5f}); ms.push_back({3, 2, 1, 1, 0.9f}); ms.push_back({3, 3, 1, 3, 0.99f});
    int NM = ms.size();
    for (int seq = 0; seq < NM * NM; ++seq) if (begin("match-caches")) {
        describe([&] { return fmt("cached matchings %d, %d, %d", seq % NM, seq / NM, seq % NM); }); clear_dir(dir); int o[3] = {seq % NM, seq / NM, seq % NM};
        for (int i = 0; i < 3; ++i) {
            const M &m = ms[o[i]]; std::vector<NXKeypoint> k, q; std::vector<uchar> d, e; mkkeys(m.n, m.kind, k, d); mkkeys(m.np, m.kindp, q, e); size_t room = std::max(1, m.n) * sizeof(NXPointMatch2D); NXPointMatch2D *a = (NXPointMatch2D *)malloc(room), *b = (NXPointMatch2D *)malloc(room); memset(a, 0x33, room); memset(b, 0x55, room);
            int x = nx_sift_match_brute_force(m.n, k.data(), d.data(), m.np, q.data(), e.data(), a, m.thr), y = -1; if (!guarded([&] { y = nx_sift_match_brute_force_with_cache(m.n, k.data(), d.data(), m.np, q.data(), e.data(), b, m.thr, dir.c_str()); })) fail("cached matching fails"); step(2);
            if (x != y) fail("cached matching %d of %d to %d keypoints gives %d instead of %d matches", i, m.n, m.np, y, x); else for (int j = 0; j < x; ++j) if (!eqm(a[j], b[j])) { fail("cached match %d differs", j); break; }
            free(a); free(b);
        }
        state(seq);
    }
    // every byte of the descriptors and every field of the keypoints counts
    for (int side = 0; side < 2; ++side) for (int n = 1; n <= 3; ++n) for (int at = 0; at < n * 128 + n * 10; ++at) for (float thr : {0.f, 0.95f}) if (begin("match-cache-changes")) {
        describe([&] { return fmt("%d to %d keypoints, ratio %g, %s %d of the %s changed", n, 4 - n, thr, at < n * 128 ? "descriptor byte" : "field", at < n * 128 ? at : at - n * 128, side ? "second" : "first"); }); clear_dir(dir);
        std::vector<NXKeypoint> k, q; std::vector<uchar> d, e; mkkeys(side ? 4 - n : n, 1, k, d); mkkeys(side ? n : 4 - n, 2, q, e);
        for (int i = 0; i < 3; ++i) { auto K = k, Q = q; auto D = d, E = e; if (i == 1) { if (at < n * 128) { uchar &c = (side ? E : D)[at]; c = c < 128 ? c + 100 : c - 100; } else { NXKeypoint &c = (side ? Q : K)[(at - n * 128) / 10]; switch ((at - n * 128) % 10) { case 0: c.xs += 1; break; case 1: c.ys -= 2; break; case 2: c.scale *= 2; break; case 3: c.id += 1; break; case 4: c.id ^= 1ull << 50; break; case 5: c.level += 1; break; case 6: c.x += 1; break; case 7: c.y += 3; break; case 8: c.sigma += 0.5f; break; default: c.ori += 1; } } }
            NXPointMatch2D a[4], b[4]; memset((void *)a, 1, sizeof a); memset((void *)b, 2, sizeof b); int x = nx_sift_match_brute_force(K.size(), K.data(), D.data(), Q.size(), Q.data(), E.data(), a, thr), y = -1; if (!guarded([&] { y = nx_sift_match_brute_force_with_cache(K.size(), K.data(), D.data(), Q.size(), Q.data(), E.data(), b, thr, dir.c_str()); })) fail("cached matching fails"); step(2);
            if (x != y) { fail("call %d gives %d instead of %d matches", i, y, x); break; } for (int j = 0; j < x; ++j) if (!eqm(a[j], b[j])) { fail("call %d: match %d differs", i, j); break; } }
        state(mix(mix(side, n), at * 2 + (thr > 0))); }
    for (int n = 1; n <= 3; ++n) { std::vector<NXKeypoint> k, q; std::vector<uchar> d, e; mkkeys(n, 1, k, d); mkkeys(4, 2, q, e); clear_dir(dir); NXPointMatch2D a[3], b[3]; int x = nx_sift_match_brute_force_with_cache(n, k.data(), d.data(), 4, q.data(), e.data(), a, 0, dir.c_str()); auto f = ls(dir); S data = f.empty() ? "" : read_file(f[0]);
        for (size_t c = 0; c <= data.size(); ++c) if (begin("match-cache-crashes")) { describe([&] { return fmt("%d matches, cache cut to %zu of %zu bytes", n, c, data.size()); }); write_file(f[0], data.substr(0, c)); int y = -1; bool ok = guarded([&] { y = nx_sift_match_brute_force_with_cache(n, k.data(), d.data(), 4, q.data(), e.data(), b, 0, dir.c_str()); }); step(); if (ok && y != x) fail("a cache cut to %zu bytes gives %d instead of %d matches", c, y, x); else if (ok) for (int j = 0; j < x; ++j) if (!eqm(a[j], b[j])) { fail("a cache cut to %zu of %zu bytes gives wrong matches", c, data.size()); break; } if (!ok && c == data.size()) fail("a complete cache file is not read"); state(mix(n, c)); } }
    clear_dir(dir); rmdir(dir.c_str());
}

static void matching() {
    // descriptors in a plane: distances are chosen by small integers
    const int V = pick(4, 5); auto put = [](uchar *d, int v) { memset(d, 0, 128); d[0] = (uchar)(v * 40); d[127] = v % 2 ? 255 : 0; d[64] = (uchar)(v == 3 ? 255 : 3 * v); };
    const int NP = pick(4, 5);
    for (int n = 0; n <= 2; ++n) for (int np = 0; np <= NP; ++np) { int tot = 1; for (int i = 0; i < n + np; ++i) tot *= V; for (int code = 0; code < tot; ++code) for (float thr : {0.f, -1.f, 1.f, 1.5f, 0.5f, 0.8f, 0.95f, 0.9999f}) if (begin("matching")) {
        describe([&] { return fmt("%d to %d descriptors, code %d base %d, ratio %g", n, np, code, V, thr); });
        std::vector<NXKeypoint> k(n), q(np); std::vector<uchar> d(n * 128), e(np * 128); int c = code;
        for (int i = 0; i < n; ++i, c /= V) { put(&d[i * 128], c % V); k[i] = NXKeypoint(); k[i].xs = 1.5f + i; k[i].ys = 20.25f - i; k[i].x = 99; k[i].y = 98; k[i].scale = i ? 4 : 0.5f; k[i].id = 1ull << (40 + i); }
        for (int i = 0; i < np; ++i, c /= V) { put(&e[i * 128], c % V); q[i] = NXKeypoint(); q[i].xs = 3.5f * i; q[i].ys = 2.25f + i; q[i].scale = 1 << i; q[i].id = (5ull << 33) + i; }
        NXPointMatch2D *r = (NXPointMatch2D *)malloc(std::max(1, n) * sizeof *r); int m = nx_sift_match_brute_force(n, k.data(), d.data(), np, q.data(), e.data(), r, thr), at = 0; step(); bool ratio = thr > 0 && thr < 1; S bad;
        for (int i = 0; i < n && np && bad.empty(); ++i) {
            std::vector<long> ds; for (int j = 0; j < np; ++j) { long s = 0; for (int b = 0; b < 128; ++b) { long t = (long)d[i * 128 + b] - e[j * 128 + b]; s += t * t; } ds.push_back(s); }
            auto so = ds; std::sort(so.begin(), so.end()); bool keep = !ratio || np == 1 || (double)so[0] < (double)thr * thr * so[1]; if (ratio && np > 1 && std::fabs(so[0] - (double)thr * thr * so[1]) < 1e-5 * so[1] && so[1]) { keep = at < m && r[at].id == k[i].id; }
            if (!keep) continue;
            if (at >= m) { bad = fmt("descriptor %d is not matched", i); break; }
            int j = -1; for (int t = 0; t < np; ++t) if (q[t].id == r[at].idp) j = t; const NXPointMatch2D &x = r[at++];
            if (x.id != k[i].id || j < 0) bad = fmt("match %d is not of keypoint %d", at - 1, i); else if (ds[j] != so[0] || x.match_cost != (float)so[0]) bad = fmt("descriptor %d is matched to one at squared distance %ld (cost %g), nearest %ld", i, ds[j], x.match_cost, so[0]);
            else if (x.x[0] != k[i].xs * k[i].scale || x.x[1] != k[i].ys * k[i].scale || x.xp[0] != q[j].xs * q[j].scale || x.xp[1] != q[j].ys * q[j].scale || std::fabs(x.sigma_x - 0.3f * k[i].scale) > 1e-6 * k[i].scale || std::fabs(x.sigma_xp - 0.3f * q[j].scale) > 1e-6 * q[j].scale || x.is_inlier) bad = fmt("match %d has wrong coordinates", at - 1);
        }
        if (bad.empty() && m != at) bad = fmt("%d instead of %d matches", m, at);
        if (!bad.empty()) fail("%s (%d to %d descriptors, ratio %g)", bad.c_str(), n, np, thr);
        free(r); state(mix(code, n * 100 + np * 10 + (int)(thr * 4)));
    } }
}

static void files() {
    S f = tmpfile("keys.sift");
    for (int n = 0; n <= pick(5, 9); ++n) for (int sd = 0; sd < 6; ++sd) if (begin("files")) {
        describe([&] { return fmt("%d keypoints, values %d: round trip into all buffers, every truncation", n, sd); });
        std::vector<NXKeypoint> k(n); std::vector<uchar> d(n * 128); memset((void *)k.data(), 0, n * sizeof(NXKeypoint)); static const float FV[] = {0, 1.5f, -2.25f, 1e-40f, 3e38f, 0.1f};
        for (int i = 0; i < n; ++i) { k[i].x = i * 7 - sd; k[i].y = sd * 1000 + i; k[i].xs = FV[(i + sd) % 6]; k[i].ys = FV[(i * 5 + sd + 1) % 6]; k[i].level = i - 1; k[i].scale = FV[(i + 2) % 6]; k[i].sigma = FV[(sd + 3) % 6]; k[i].score = FV[(i + sd + 4) % 6]; k[i].ori = FV[(i + 5) % 6]; k[i].id = (uint64_t)i << (sd * 10); for (int j = 0; j < 128; ++j) d[i * 128 + j] = mix(i * 6 + sd, j); }
        size_t h0 = heap(); nx_sift_xsave(f.c_str(), n, k.data(), d.data()); step(); if (heap() != h0) fail("saving leaks"); S data = read_file(f);
        for (int cap : {0, 1, n, n + 3}) { Keys b(cap); int c0 = b.cap; b.n = nx_sift_xload(f.c_str(), &b.cap, &b.k, &b.d); step(); bool ok = b.n == n && b.cap == std::max(c0, n); for (int i = 0; ok && i < n; ++i) ok = keq(b.k[i], k[i]) && !memcmp(b.d + 128 * i, &d[128 * i], 128); if (!ok) { fail("%d keypoints are read back differently into buffers for %d (%d read, room for %d)", n, c0, b.n, b.cap); break; } }
        for (size_t c = 0; c < data.size(); c += (sd && c > 200 && c + 200 < data.size() ? 13 : 1)) { write_file(f, data.substr(0, c)); Keys b(2); if (guarded([&] { b.n = nx_sift_xload(f.c_str(), &b.cap, &b.k, &b.d); })) { fail("a file cut to %zu of %zu bytes is read without an error", c, data.size()); break; } step(); }
        for (int bad : {-1, INT_MIN}) { S t = data; memcpy(&t[0], &bad, 4); write_file(f, t); Keys b(2); if (guarded([&] { nx_sift_xload(f.c_str(), &b.cap, &b.k, &b.d); })) fail("a file of %d keypoints is accepted", bad); }
        for (int bad : {0, 127, 129, -128, 64}) { S t = data; memcpy(&t[4], &bad, 4); write_file(f, t); Keys b(2); if (guarded([&] { nx_sift_xload(f.c_str(), &b.cap, &b.k, &b.d); })) fail("descriptors of dimension %d are accepted", bad); step(); }
        state(hash(data)); unlink(f.c_str());
    }
}
void mc_run() { make_pics(); if (!strcmp(PROP, "P33")) detection(); else { caches(); matching(); files(); } }
