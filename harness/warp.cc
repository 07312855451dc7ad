// P36: affine view synthesis and checkerboard scores
#include "image_model.hh"
#include <algorithm>
#include <climits>
#include <memory>
extern "C" {
#include "virg/nexus/nx_affine_warp_processor.h"
#include "virg/nexus/nx_checkerboard_detector.h"
#include "virg/nexus/nx_uniform_sampler.h"
}
using namespace mc; typedef std::string S; typedef std::vector<double> D;

static D gk(double sigma, int half) { D k(half + 1); double s = 0; for (int i = 0; i <= half; ++i) { k[i] = std::exp(-0.5 * i * i / (sigma * sigma)); s += i ? 2 * k[i] : k[i]; } for (double &x : k) x /= s; return k; }
static int gsize(double sigma, double tr) { int n = (int)(2 * tr * sigma + 1); if (n % 2 == 0) ++n; return std::max(n, 3); }
struct Iv { int w, h; D lo, hi; Iv(int w, int h) : w(w), h(h), lo((size_t)w * h), hi((size_t)w * h) {} double &l(int x, int y) { return lo[(size_t)y * w + x]; } double &u(int x, int y) { return hi[(size_t)y * w + x]; } };
static void tr(Iv &v, double tol) { for (double &x : v.lo) x = std::min(255.0, std::max(0.0, std::floor(x - tol))); for (double &x : v.hi) x = std::min(255.0, std::max(0.0, std::floor(x + tol))); }
struct Aff { double a, b, c, d, e, f; // x' = a x + b y + e, y' = c x + d y + f
    void at(double x, double y, double &X, double &Y) const { X = a * x + b * y + e; Y = c * x + d * y + f; }
    Aff inv() const { double D = a * d - b * c; Aff r{d / D, -b / D, -c / D, a / D, 0, 0}; r.e = -(r.a * e + r.b * f); r.f = -(r.c * e + r.d * f); return r; } };
static Aff mul(const Aff &p, const Aff &q) { return Aff{p.a * q.a + p.b * q.c, p.a * q.b + p.b * q.d, p.c * q.a + p.d * q.c, p.c * q.b + p.d * q.d, p.a * q.e + p.b * q.f + p.e, p.c * q.e + p.d * q.f + p.f}; }
static double EPS = 5e-4; // error of positions, larger in large results
static Iv sample(Iv &in, int ow, int oh, const Aff &inv, double slack = 0.15) {
    Iv o(ow, oh); double LX = in.w - 1, LY = in.h - 1;
    for (int y = 0; y < oh; ++y) for (int x = 0; x < ow; ++x) {
        double X, Y; inv.at(x, y, X, Y);
        if (X < -1 - EPS || Y < -1 - EPS || X > LX + EPS || Y > LY + EPS || LX < 1 || LY < 1) { o.l(x, y) = o.u(x, y) = 0; continue; }
        if (X < -EPS || Y < -EPS || X > LX - EPS || Y > LY - EPS) { o.l(x, y) = 0; o.u(x, y) = 255; continue; } // next to the border: any
        X = std::max(0.0, X); Y = std::max(0.0, Y); int i = (int)X, j = (int)Y; double u = X - i, v = Y - j;
        o.l(x, y) = (1 - v) * ((1 - u) * in.l(i, j) + u * in.l(i + 1, j)) + v * ((1 - u) * in.l(i, j + 1) + u * in.l(i + 1, j + 1)) - slack;
        o.u(x, y) = (1 - v) * ((1 - u) * in.u(i, j) + u * in.u(i + 1, j)) + v * ((1 - u) * in.u(i, j + 1) + u * in.u(i + 1, j + 1)) + slack;
    }
    tr(o, 0); return o;
}
static int mir(int j, int n) { while (j < 0 || j >= n) j = n == 1 ? 0 : j < 0 ? -j : 2 * n - 2 - j; return j; }
static void blur1(Iv &v, double s, bool ydir) {
    if (!(s > 0)) return;
    int r = gsize(s, 3) / 2; D k = gk(s, r); Iv o = v;
    for (int y = 0; y < v.h; ++y) for (int x = 0; x < v.w; ++x) { double a = 0, b = 0; for (int i = -r; i <= r; ++i) { int X = ydir ? x : mir(x + i, v.w), Y = ydir ? mir(y + i, v.h) : y; a += k[std::abs(i)] * v.l(X, Y); b += k[std::abs(i)] * v.u(X, Y); } o.l(x, y) = a; o.u(x, y) = b; }
    tr(o, 0.01); v = o;
}
struct Model { Aff fwd, bwd; int W, H; double bw, bh; bool exact; };
static bool is_exact(double v) { return v == 0.5 || v == 1 || v == 2 || v == 4; }
static void size_of(const Aff &lin, int w, int h, double &bw, double &bh) { double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (int k = 0; k < 4; ++k) { double X, Y; lin.at(k & 1 ? w : 0, k & 2 ? h : 0, X, Y); x0 = std::min(x0, X); x1 = std::max(x1, X); y0 = std::min(y0, Y); y1 = std::max(y1, Y); } bw = x1 - x0; bh = y1 - y0; }
static Aff stage(double sx, double sy, double ang) { return Aff{sx * std::cos(ang), -sx * std::sin(ang), sy * std::sin(ang), sy * std::cos(ang), 0, 0}; }
static Aff centred(Aff a, double ci, double di, double co, double dd) { a.e = co - a.a * ci - a.b * di; a.f = dd - a.c * ci - a.d * di; return a; }
struct Par { NXAffineWarpParam p; float post; int bg; int color; };
static S ps(const Par &q) { return fmt("scale %g, planar %g, tilt %g, tilt angle %g, post blur %g, background %s", q.p.scale, q.p.planar_angle, q.p.tilt, q.p.tilt_angle, q.post, q.bg == 0 ? "fixed" : q.bg == 1 ? "repeat" : "noise"); }
static Par mk(double s, double pa, double t, double ta, double post = 0, int bg = 0, int color = 77) { Par q; q.p.scale = s; q.p.planar_angle = pa; q.p.tilt = t; q.p.tilt_angle = ta; q.post = (float)post; q.bg = bg; q.color = color; return q; }
static void setup(NXAffineWarpProcessor *wp, const Par &q) { if (q.bg == 0) nx_affine_warp_processor_set_bg_fixed(wp, q.color); else if (q.bg == 1) nx_affine_warp_processor_set_bg_repeat(wp); else nx_affine_warp_processor_set_bg_noise(wp); nx_affine_warp_processor_set_post_blur_sigma(wp, q.post); }
// geometry of the result: transforms and size
static bool geometry(NXAffineWarpProcessor *wp, int w, int h, const Par &q, Model &m) {
    const NXImage *r = nx_affine_warp_processor_warp_result(wp); const double *f = nx_affine_warp_processor_forward_transform(wp), *b = nx_affine_warp_processor_inverse_transform(wp);
    Aff L = mul(stage(q.p.scale, q.p.scale, q.p.planar_angle), mul(stage(1 / q.p.tilt, 1, 0), stage(1, 1, q.p.tilt_angle)));
    size_of(L, w, h, m.bw, m.bh); m.W = r->width; m.H = r->height;
    if (!shape_is(r, r->width, r->height, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, "the warp")) return false;
    if (r->width < m.bw - 1e-6 || r->height < m.bh - 1e-6 || r->width > m.bw + 2 + 1e-6 || r->height > m.bh + 2 + 1e-6) { fail("a warped picture of %.3fx%.3f is put into %dx%d", m.bw, m.bh, r->width, r->height); return false; }
    m.fwd = centred(L, w / 2.0, h / 2.0, r->width / 2.0, r->height / 2.0); m.bwd = m.fwd.inv();
    const double ef[6] = {m.fwd.a, m.fwd.c, m.fwd.b, m.fwd.d, m.fwd.e, m.fwd.f}, eb[6] = {m.bwd.a, m.bwd.c, m.bwd.b, m.bwd.d, m.bwd.e, m.bwd.f};
    for (int i = 0; i < 6; ++i) { if (std::fabs(f[i] - ef[i]) > 1e-9 * (1 + std::fabs(ef[i]))) { fail("element %d of the forward transform is %.12g instead of %.12g", i, f[i], ef[i]); return false; } if (std::fabs(b[i] - eb[i]) > 1e-9 * (1 + std::fabs(eb[i]))) { fail("element %d of the inverse transform is %.12g instead of %.12g", i, b[i], eb[i]); return false; } }
    return true;
}
static bool near_int(double v) { return std::fabs(v - std::round(v)) < 1e-6; }
// pixel by pixel through the three stages
static void pixels(const Src &s, NXAffineWarpProcessor *wp, const Par &q, const Model &m) {
    const NXImage *r = nx_affine_warp_processor_warp_result(wp); int w = s.w, h = s.h; bool known = true;
    Aff a1 = stage(1, 1, q.p.tilt_angle), a2 = mul(stage(1 / q.p.tilt, 1, 0), a1), a3 = mul(stage(q.p.scale, q.p.scale, q.p.planar_angle), a2); double b[3][2]; size_of(a1, w, h, b[0][0], b[0][1]); size_of(a2, w, h, b[1][0], b[1][1]); size_of(a3, w, h, b[2][0], b[2][1]);
    bool ex = q.p.tilt_angle == 0 && q.p.planar_angle == 0 && is_exact(q.p.tilt) && is_exact(q.p.scale);
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) if (near_int(b[i][k]) && !(ex || (q.p.tilt_angle == 0 && (i == 0 || is_exact(q.p.tilt))))) known = false;
    Iv v(w, h); if (known) {
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) v.l(x, y) = v.u(x, y) = s.at(x, y);
        int w1 = (int)(b[0][0] + 2), h1 = (int)(b[0][1] + 2), w2 = (int)(b[1][0] + 2), h2 = (int)(b[1][1] + 2);
        v = sample(v, w1, h1, centred(stage(1, 1, q.p.tilt_angle), w / 2.0, h / 2.0, w1 / 2.0, h1 / 2.0).inv());
        float t = (float)q.p.tilt, sc = (float)q.p.scale; if (t > 1) blur1(v, (float)(0.8 * std::sqrt(t * t - 1)), false);
        v = sample(v, w2, h2, centred(stage(1 / q.p.tilt, 1, 0), w1 / 2.0, h1 / 2.0, w2 / 2.0, h2 / 2.0).inv());
        if (sc > 1) { float g = (float)(0.8 * std::sqrt(sc * sc - 1)); blur1(v, g, false); blur1(v, g, true); }
        v = sample(v, m.W, m.H, centred(stage(q.p.scale, q.p.scale, q.p.planar_angle), w2 / 2.0, h2 / 2.0, m.W / 2.0, m.H / 2.0).inv());
        blur1(v, q.post, false); blur1(v, q.post, true);
    }
    double LX = w - 1, LY = h - 1; int nb = 0; bool varied = false; int first = -1;
    for (int y = 0; y < m.H; ++y) for (int x = 0; x < m.W; ++x) {
        double X, Y, g = px(r, x, y); m.bwd.at(x, y, X, Y);
        bool ox = X < -EPS || X > LX + EPS, oy = Y < -EPS || Y > LY + EPS, ix = X > 1 + EPS && X < LX - 1 - EPS, iy = Y > 1 + EPS && Y < LY - 1 - EPS;
        if (ox || oy) {
            ++nb; if (first < 0) first = (int)g; else if ((int)g != first) varied = true;
            if (q.bg == 0) { if (g != q.color) { fail("background pixel (%d,%d) is %g instead of %d", x, y, g, q.color); return; } }
            else if (q.bg == 1 && (ox || ix) && (oy || iy)) {
                double cx = std::min(LX, std::max(0.0, X)), cy = std::min(LY, std::max(0.0, Y)); int i = (int)cx, j = (int)cy, i1 = std::min(i + 1, w - 1), j1 = std::min(j + 1, h - 1); double u = cx - i, vv = cy - j;
                double e = (1 - vv) * ((1 - u) * s.at(i, j) + u * s.at(i1, j)) + vv * ((1 - u) * s.at(i, j1) + u * s.at(i1, j1));
                if (!trunc_ok(g, e - 0.15, e + 0.15)) { fail("pixel (%d,%d) outside of the picture is %g instead of the nearest border value %g", x, y, g, e); return; }
            }
        } else if (ix && iy && known) {
            if (g < v.l(x, y) || g > v.u(x, y)) { fail("pixel (%d,%d), from (%.3f,%.3f), is %g instead of %g..%g", x, y, X, Y, g, v.l(x, y), v.u(x, y)); return; }
        }
    }
    if (q.bg == 2 && nb > 20 && !varied) fail("%d noise pixels are all %d", nb, first);
}
static void ramp_ok(const Src &s, NXAffineWarpProcessor *wp, const Par &q, const Model &m, double a, double b, double c) {
    const NXImage *r = nx_affine_warp_processor_warp_result(wp); double t = q.p.tilt, sc = q.p.scale; int n = 3 + (t > 1) + 2 * (sc > 1) + 2 * (q.post > 0);
    double M = 3 + (t > 1 ? gsize(0.8 * std::sqrt(t * t - 1), 3) / 2 + 1 : 0) + (sc > 1 ? t * (gsize(0.8 * std::sqrt(sc * sc - 1), 3) / 2 + 1) : 0) + (q.post > 0 ? t / sc * (gsize(q.post, 3) / 2 + 1) : 0) + t + t / sc;
    int cnt = 0;
    for (int y = 0; y < m.H; ++y) for (int x = 0; x < m.W; ++x) {
        double X, Y; m.bwd.at(x, y, X, Y); if (X < M || Y < M || X > s.w - 1 - M || Y > s.h - 1 - M) continue; ++cnt;
        double e = a * X + b * Y + c, g = px(r, x, y); if (g > e + 1 || g < e - n - 1) { fail("pixel (%d,%d) of a warped ramp is %g, the picture has %.2f at (%.2f,%.2f)", x, y, g, e, X, Y); return; }
    }
    mc::step(cnt > 0);
}
static void warp_all(const Src &s, const Par &q, double a = 0, double b = 0, double c = -1) {
    NXAffineWarpProcessor *wp = nx_affine_warp_processor_new(); setup(wp, q); nx_affine_warp_processor_warp(wp, s.im, q.p); step(); Model m;
    if (geometry(wp, s.w, s.h, q, m)) { pixels(s, wp, q, m); if (c >= 0) ramp_ok(s, wp, q, m, a, b, c); }
    if (!s.untouched()) fail("warping changes the picture");
    state(img_hash(nx_affine_warp_processor_warp_result(wp))); nx_affine_warp_processor_free(wp);
}
static void affine() {
    const double SC[] = {1, 0.5, 0.8, 1.3, 2}, PA[] = {0, 0.4, M_PI / 2, 2.5, -1.1}, TI[] = {1, 1.4, 2, 4}, TA[] = {0, 0.7, M_PI / 2, 2.1};
    // pictures: all views of ramps and textures
    for (int sz = 0; sz < pick(2, 4); ++sz) for (double sc : SC) for (double pa : PA) for (double ti : TI) for (double ta : TA) for (int post = 0; post < 2; ++post) for (int k = 0; k < 4; ++k) for (int bg = 0; bg < 2; ++bg) if (begin("views")) {
        const int WS[] = {37, 24, 30, 51}, HS[] = {30, 41, 30, 22}; int w = WS[sz], h = HS[sz]; Par q = mk(sc, pa, ti, ta, post ? 0.9 : 0, bg, 40 + 50 * k);
        describe([&] { return fmt("%dx%d pattern %d, ", w, h, k) + ps(q); });
        if (k < 2) { double a = k ? -2 : 3, b = k ? 2.5 : 1.75, c = k ? 120 : 20; Src s(w, h, k * 3, false, false, [&](int x, int y, int) { return std::min(255.0, std::max(0.0, a * x + b * y + c)); }); warp_all(s, q, a, b, k ? 120 : 20); }
        else { Src s(w, h, 0, false, false, [&](int x, int y, int) { return k == 2 ? (x / 4 + y / 5) % 2 ? 220 : 30 : 128 + 100 * std::sin(x * 0.9) * std::cos(y * 0.6); }); warp_all(s, q); }
    }
    // strong tilts and magnifications, large results
    EPS = 4e-3;
    for (int sz = 0; sz < 3; ++sz) for (double sc : {0.2, 1.0, 3.3, 7.5, 9.5}) for (double pa : {0.0, 0.4, 2.5}) for (double ti : {1.0, 3.0, 7.0, 11.0}) for (double ta : {0.0, 0.7}) for (int post = 0; post < 3; ++post) for (int bg = 0; bg < 2; ++bg) if ((sz < 2 || sc < 2) && begin("strong-views")) {
        const int WS[] = {61, 44, 430}, HS[] = {50, 72, 290}; int w = WS[sz], h = HS[sz]; Par q = mk(sc, pa, ti, ta, post * 1.7, bg, 200);
        describe([&] { return fmt("%dx%d, ", w, h) + ps(q); }); Src s(w, h, sz, false, false, [&](int x, int y, int) { return 128 + 90 * std::sin(x * 0.23) * std::cos(y * 0.19); }); warp_all(s, q);
    }
    EPS = 5e-4;
    // settings stay until they are changed: all sequences of setters and warps
    for (int code = 0; code < 7 * 7 * 7 * 7 * 7; ++code) if (begin("settings")) {
        describe([&] { S d; for (int i = 0, v = code; i < 5; ++i, v /= 7) d += fmt("%d ", v % 7); return "fixed 30, fixed 220, repeat, blur 0, blur 0.9, blur 2, warp: " + d; });
        Src s(7, 6, 1, false, false, [&](int x, int y, int) { return (37 * x + 53 * y) % 256; }); NXAffineWarpParam p = mk(1.2, 0.4, 1.5, 0.3).p; Par q = mk(1.2, 0.4, 1.5, 0.3, 0, 0, 11); NXAffineWarpProcessor *wp = nx_affine_warp_processor_new(), *fr = nx_affine_warp_processor_new(); nx_affine_warp_processor_set_bg_fixed(wp, 11);
        for (int i = 0, v = code; i < 6; ++i, v /= 7) { int o = i == 5 ? 6 : v % 7; step();
            switch (o) { case 0: nx_affine_warp_processor_set_bg_fixed(wp, 30); q.bg = 0; q.color = 30; break; case 1: nx_affine_warp_processor_set_bg_fixed(wp, 220); q.bg = 0; q.color = 220; break; case 2: nx_affine_warp_processor_set_bg_repeat(wp); q.bg = 1; break;
            case 3: case 4: case 5: q.post = o == 3 ? 0 : o == 4 ? 0.9f : 2; nx_affine_warp_processor_set_post_blur_sigma(wp, q.post); break;
            default: nx_affine_warp_processor_warp(wp, s.im, p); setup(fr, q); nx_affine_warp_processor_warp(fr, s.im, p); if (img_hash(nx_affine_warp_processor_warp_result(wp)) != img_hash(nx_affine_warp_processor_warp_result(fr))) { fail("operation %d does not use the settings made before", i); i = 9; } } }
        state(img_hash(nx_affine_warp_processor_warp_result(wp))); nx_affine_warp_processor_free(wp); nx_affine_warp_processor_free(fr);
    }
    // all small sizes with an impulse anywhere
    const int MX = pick(5, 7);
    for (int w = 1; w <= MX; ++w) for (int h = 1; h <= MX; ++h) for (int i = 0; i < w * h; ++i) for (double sc : {1.0, 0.5, 2.0}) for (double pa : {0.0, 0.9}) for (double ti : {1.0, 1.4, 6.0}) for (double ta : {0.0, 0.6}) for (int bg = 0; bg < 3; ++bg) if (begin("small")) {
        Par q = mk(sc, pa, ti, ta, i % 3 == 0 ? 1.1 : 0, bg, 9); describe([&] { return fmt("%dx%d impulse %d, ", w, h, i) + ps(q); });
        Src s(w, h, i % 2 * 3, false, false, [&](int x, int y, int) { return y * w + x == i ? 250 : 20; }); warp_all(s, q);
    }
    // the result does not depend on what the processor did before
    std::vector<Par> ops; for (double sc : {1.0, 0.6, 1.8}) for (double ti : {1.0, 2.5}) for (int bg = 0; bg < 2; ++bg) ops.push_back(mk(sc, sc - 0.3, ti, ti * 0.3, ti > 1 ? 0.8 : 0, bg, 60 + 70 * bg));
    std::vector<Par> ops2; for (double sc : {0.7, 1.5}) for (int bg = 0; bg < 3; ++bg) ops2.push_back(mk(sc, sc - 0.9, sc + 0.6, 0.4, sc > 1 ? 0.8 : 0, bg == 2 ? 1 : 0, bg ? 190 : 0));
    auto histories = [&](const char *group, std::vector<Par> &ops, std::vector<std::pair<int, int>> sizes, int DEP) {
        const int NS = (int)sizes.size(), N = (int)ops.size() * NS;
        std::vector<std::vector<unsigned char>> ref(N); std::vector<std::pair<int, int>> dim(N); std::vector<std::vector<double>> tfm(N);
        auto one = [&](NXAffineWarpProcessor *wp, int o, bool check) {
            auto d = sizes[o % NS]; Src s(d.first, d.second, o % 3, false, false, [&](int x, int y, int) { return (37 * x + 53 * y + 29 * o) % 256; }); Par &q = ops[o / NS]; setup(wp, q); nx_affine_warp_processor_warp(wp, s.im, q.p); step();
            const NXImage *r = nx_affine_warp_processor_warp_result(wp); std::vector<unsigned char> v; for (int y = 0; y < r->height; ++y) v.insert(v.end(), r->data.uc + (size_t)y * r->row_stride, r->data.uc + (size_t)y * r->row_stride + r->width);
            std::vector<double> t(nx_affine_warp_processor_forward_transform(wp), nx_affine_warp_processor_forward_transform(wp) + 6); t.insert(t.end(), nx_affine_warp_processor_inverse_transform(wp), nx_affine_warp_processor_inverse_transform(wp) + 6);
            if (!check) { ref[o] = v; dim[o] = {r->width, r->height}; tfm[o] = t; } else if (v != ref[o] || dim[o] != std::make_pair(r->width, r->height)) fail("warp %d differs after other warps", o);
            else if (t != tfm[o]) fail("the transforms of warp %d differ after other warps", o);
            state(mix(hash_bytes(v.data(), v.size()), o));
        };
        for (int o = 0; o < N; ++o) { NXAffineWarpProcessor *wp = nx_affine_warp_processor_new(); one(wp, o, false); nx_affine_warp_processor_free(wp); }
        uint64_t total = 1; for (int i = 0; i < DEP; ++i) total *= N;
        for (uint64_t k = 0; k < total; ++k) if (begin(group)) {
            describe([&] { S d; uint64_t v = k; for (int i = 0; i < DEP; ++i, v /= N) d += fmt("%d ", (int)(v % N)); return d; });
            NXAffineWarpProcessor *wp = nx_affine_warp_processor_new(); uint64_t v = k; for (int i = 0; i < DEP; ++i, v /= N) one(wp, (int)(v % N), true); nx_affine_warp_processor_free(wp);
        }
    };
    histories("histories", ops, {{17, 8}, {11, 19}}, pick(3, 4));
    histories("tiny-histories", ops2, {{1, 1}, {2, 3}, {3, 2}, {12, 9}}, pick(3, 3));
    const int N = (int)ops.size() * 2;
    for (int o = 0; o < N; ++o) if (begin("warp-leaks")) {
        Par &q = ops[o / 2]; Src s(12, 9, 0, false, false, [&](int x, int y, int) { return x * y; }); size_t h0 = heap(); { NXAffineWarpProcessor *wp = nx_affine_warp_processor_new(); setup(wp, q); for (int i = 0; i < 3; ++i) nx_affine_warp_processor_warp(wp, s.im, q.p); nx_affine_warp_processor_free(wp); } step(3); nx_affine_warp_processor_free(nullptr);
        if (heap() != h0) fail("%zd bytes leak", (ssize_t)(heap() - h0));
    }
}
// ---- checkerboards
static void box(Iv &v, int r, bool ydir) {
    Iv o = v; for (int y = 0; y < v.h; ++y) for (int x = 0; x < v.w; ++x) { double a = 0, b = 0; for (int i = -r; i <= r; ++i) { int X = ydir ? x : std::min(v.w - 1, std::max(0, x + i)), Y = ydir ? std::min(v.h - 1, std::max(0, y + i)) : y; a += v.l(X, Y); b += v.u(X, Y); } o.l(x, y) = a / (2 * r + 1); o.u(x, y) = b / (2 * r + 1); }
    tr(o, 2e-3); v = o;
}
static Iv rot(Iv &in, int w, int h, bool cw) { // bilinear around the centres, black outside
    double s = std::sqrt(0.5), C = cw ? 1 : -1; Iv o(w, h);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        double dx = x - w / 2.0, dy = y - h / 2.0, X = s * (dx + C * dy) + in.w / 2.0, Y = s * (dy - C * dx) + in.h / 2.0, LX = in.w - 1, LY = in.h - 1; const double E = 1e-3;
        if (X < -E || Y < -E || X > LX + E || Y > LY + E || LX < 1 || LY < 1) { o.l(x, y) = o.u(x, y) = 0; continue; }
        bool maybe = X < E || Y < E || X > LX - E || Y > LY - E; X = std::min(LX - 1e-9, std::max(0.0, X)); Y = std::min(LY - 1e-9, std::max(0.0, Y)); int i = (int)X, j = (int)Y; double u = X - i, v = Y - j;
        double a = (1 - v) * ((1 - u) * in.l(i, j) + u * in.l(i + 1, j)) + v * ((1 - u) * in.l(i, j + 1) + u * in.l(i + 1, j + 1)), b = (1 - v) * ((1 - u) * in.u(i, j) + u * in.u(i + 1, j)) + v * ((1 - u) * in.u(i, j + 1) + u * in.u(i + 1, j + 1));
        o.l(x, y) = maybe ? 0 : a - 0.02; o.u(x, y) = b + (maybe ? 0.3 : 0.02);
    }
    tr(o, 0); return o;
}
static bool inside(const NXImage *r, Iv &e, const char *what) {
    if (!shape_is(r, e.w, e.h, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, what)) return false;
    for (int y = 0; y < e.h; ++y) for (int x = 0; x < e.w; ++x) { double g = px(r, x, y); if (g < e.l(x, y) || g > e.u(x, y)) { fail("%s: pixel (%d,%d) is %g instead of %g..%g", what, x, y, g, e.l(x, y), e.u(x, y)); return false; } }
    return true;
}
static bool radon(const Src &s, NXImage **lr, int rad) {
    nx_checkers_local_radon_images(lr, s.im, rad); step(); if (!s.untouched()) { fail("the picture changes"); return false; }
    Iv v(s.w, s.h); for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) v.l(x, y) = v.u(x, y) = s.at(x, y);
    Iv a = v, b = v; box(a, rad, false); box(b, rad, true); int td = (int)((s.w + s.h + 2) / std::sqrt(2.0));
    Iv c = rot(v, td, td, true); box(c, rad, false); c = rot(c, s.w, s.h, false); Iv d = rot(v, td, td, false); box(d, rad, false); d = rot(d, s.w, s.h, true);
    return inside(lr[0], a, "means along x") && inside(lr[1], b, "means along y") && inside(lr[2], c, "means along the first diagonal") && inside(lr[3], d, "means along the second diagonal");
}
static void score(NXImage *sc, NXImage **lr, const char *what) {
    nx_checkers_score_image(sc, lr); step(); int w = lr[0]->width, h = lr[0]->height; if (!shape_is(sc, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32, what)) return;
    int r = gsize(1.3, 3) / 2; D k = gk(1.3, r), t((size_t)w * h), o; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double lo = 1e9, hi = -1; for (int i = 0; i < 4; ++i) { double g = px(lr[i], x, y); lo = std::min(lo, g); hi = std::max(hi, g); } t[(size_t)y * w + x] = (hi - lo) / 255 * ((hi - lo) / 255); }
    o = t; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = 0; for (int i = -r; i <= r; ++i) a += k[std::abs(i)] * t[(size_t)y * w + std::min(w - 1, std::max(0, x + i))]; o[(size_t)y * w + x] = a; }
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = 0; for (int i = -r; i <= r; ++i) a += k[std::abs(i)] * o[(size_t)std::min(h - 1, std::max(0, y + i)) * w + x]; if (!near_ok(px(sc, x, y), a, 1e-5)) { fail("%s: the score of (%d,%d) is %g instead of %g", what, x, y, px(sc, x, y), a); return; } }
}
static void checkers() {
    const int MX = pick(7, 10);
    for (int w = 2; w <= MX; ++w) for (int h = 2; h <= MX; ++h) for (int i = 0; i < w * h + 3; ++i) for (int rad = 1; rad <= 4; ++rad) if (begin("radon")) {
        describe([&] { return fmt("%dx%d content %d radius %d", w, h, i, rad); });
        Src s(w, h, i % 3, false, false, [&](int x, int y, int) { return i < w * h ? (y * w + x == i ? 255 : 0) : pattern(i - w * h, x, y, 0, w, h); });
        NXImage *lr[4] = {nullptr, nullptr, nullptr, nullptr}; if (i % 2) for (int k = 0; k < 4; ++k) lr[k] = dest_kind((i + k) % N_DEST, w, h);
        NXImage *sc = dest_kind(i % N_DEST, w, h); if (radon(s, lr, rad)) { score(sc, lr, "score"); state(img_hash(sc)); }
        for (int k = 0; k < 4; ++k) nx_image_free(lr[k]); nx_image_free(sc);
    }
    static const int LS[][2] = {{2, 40}, {3, 61}, {40, 2}, {61, 3}, {5, 131}, {131, 5}, {90, 70}, {33, 34}, {257, 12}, {12, 257}};
    for (auto &z : LS) for (int k = 0; k < 4; ++k) for (int rad : {1, 2, 4, 7, 12}) if (begin("large-radon")) {
        int w = z[0], h = z[1]; describe([&] { return fmt("%dx%d pattern %d radius %d", w, h, k, rad); });
        Src s(w, h, k, false, false, [&](int x, int y, int) { return k == 0 ? (x / 5 + y / 4) % 2 * 200 + 20 : k == 1 ? (x * 3 + y * 2) % 251 : k == 2 ? 128 + 100 * std::sin(x * 0.3) * std::cos(y * 0.2) : 255; });
        NXImage *lr[4] = {nullptr, nullptr, nullptr, nullptr}, *sc = nx_image_alloc(); if (radon(s, lr, rad)) { score(sc, lr, "score"); state(img_hash(sc)); } for (int i = 0; i < 4; ++i) nx_image_free(lr[i]); nx_image_free(sc);
    }
    // arbitrary images as input of the score
    for (int k0 = 0; k0 < 4; ++k0) for (int k1 = 0; k1 < 4; ++k1) for (int k2 = 0; k2 < 4; ++k2) for (int k3 = 0; k3 < 4; ++k3) for (int sz = 0; sz < 4; ++sz) if (begin("scores")) {
        int w = 3 + 2 * sz, h = 9 - 2 * sz, kk[4] = {k0, k1, k2, k3}; static const int V[] = {0, 90, 200, 255}; std::vector<std::unique_ptr<Src>> s; NXImage *lr[4]; for (int i = 0; i < 4; ++i) { s.emplace_back(new Src(w, h, i, false, false, [&](int x, int y, int) { return V[(kk[i] + (x * y + i) % 3 * (x == y)) % 4]; })); lr[i] = s[i]->im; }
        describe([&] { return fmt("%dx%d values %d %d %d %d", w, h, k0, k1, k2, k3); }); NXImage *sc = dest_kind(k0 + (k3 == 3), w, h); score(sc, lr, "score of given images"); for (auto &p : s) if (!p->untouched()) fail("the score changes its input"); nx_image_free(sc);
    }
    // corners stand out: the score of a checkerboard is largest at its corners
    for (int cx = 14; cx <= 26; ++cx) for (int cy = 14; cy <= 22; ++cy) for (int inv = 0; inv < 2; ++inv) for (int rad = 3; rad <= 6; ++rad) for (int ang = 0; ang < 4; ++ang) if (begin("corners")) {
        double t = ang * M_PI / 8; int w = 41, h = 37; Src s(w, h, 0, false, false, [&](int x, int y, int) { double dx = (x - cx + 0.001) * std::cos(t) + (y - cy + 0.002) * std::sin(t), dy = -(x - cx + 0.001) * std::sin(t) + (y - cy + 0.002) * std::cos(t); return ((dx > 0) == (dy > 0)) ^ inv ? 230 : 20; });
        describe([&] { return fmt("corner at %d,%d angle %g radius %d", cx, cy, t, rad); });
        NXImage *lr[4] = {0, 0, 0, 0}; NXImage *sc = nx_image_alloc(); nx_checkers_local_radon_images(lr, s.im, rad); nx_checkers_score_image(sc, lr); step(2); int bx = 0, by = 0; double bv = -1;
        for (int y = 10; y < h - 10; ++y) for (int x = 10; x < w - 10; ++x) if (px(sc, x, y) > bv) bv = px(sc, x, y), bx = x, by = y;
        if (std::abs(bx - cx) > 2 || std::abs(by - cy) > 2) fail("the corner at (%d,%d) (angle %g, radius %d) has its score maximum at (%d,%d)", cx, cy, t, rad, bx, by);
        for (int k = 0; k < 4; ++k) nx_image_free(lr[k]); nx_image_free(sc);
    }
    for (int rad = 1; rad <= 4; ++rad) if (begin("checker-leaks")) { Src s(9, 7, 0, false, false, [](int x, int y, int) { return x * y; }); NXImage *lr[4] = {0, 0, 0, 0}; NXImage *sc = nx_image_alloc(); size_t h[3]; for (int i = 0; i < 3; ++i) { nx_checkers_local_radon_images(lr, s.im, rad); nx_checkers_score_image(sc, lr); h[i] = heap(); } step(3); if (h[2] != h[1] || h[1] != h[0]) fail("repeated scores leak"); for (int k = 0; k < 4; ++k) nx_image_free(lr[k]); nx_image_free(sc); }
}
void mc_run() { affine(); checkers(); }
