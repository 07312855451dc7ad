// P21 resampling and warping, P22 filters and derivatives, P23 image pyramids.
#include "image_model.hh"
extern "C" {
#include "virg/nexus/nx_filter.h"
#include "virg/nexus/nx_image_warp.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include "virg/nexus/nx_affine_warp_processor.h"
}
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/vg_image_pyr.hpp"
using namespace mc;
using virg::nexus::VGImage; using virg::nexus::VGImagePyr;
static void same_img(const VGImage &v, const NXImage *e, const char *what) { if (img_hash(v.nx_img()) != img_hash(e)) fail("%s of the C++ class and of the C library differ", what); }
static const int BIG[] = {127, 128, 129, 255, 256, 257, 511, 513, 640, 1000, 1023, 1025, 2047, 2049, 4097, 33001, 66003};
typedef std::string S;

// source contents: an impulse at every pixel (which determines a linear operator completely), then patterns
static int n_content(int w, int h) { return w * h + 5; }
static double content(int k, int x, int y, int w, int h, bool f32) {
    double v = k < w * h ? (y * w + x == k ? 255 : 0) : pattern(k - w * h, x, y, 0, w, h);
    return f32 ? v / 4 - 10 : v;
}
typedef std::vector<double> D;
static bool cmp(const NXImage *d, int w, int h, bool f, const std::function<double(int, int)> &e, const char *what, const Src &s, double tol = 2e-3) {
    if (!shape_is(d, w, h, NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR, what)) return false;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        double g = px(d, x, y), v = e(x, y);
        if (f ? !near_ok(g, v, tol) : !trunc_ok(g, v, v, 1e-3)) { fail("%s of a %dx%d %s image (stride %d): pixel (%d,%d) is %.9g instead of %.9g", what, s.w, s.h, f ? "float" : "byte", s.stride, x, y, g, v); return false; }
    }
    return true;
}
static double bil(const Src &s, double x, double y) { // bilinear with repeated borders
    int xi = (int)std::floor(x), yi = (int)std::floor(y); double u = x - xi, v = y - yi;
    return (1 - v) * ((1 - u) * s.cl(xi, yi) + u * s.cl(xi + 1, yi)) + v * ((1 - u) * s.cl(xi, yi + 1) + u * s.cl(xi + 1, yi + 1));
}
// one axis of the anti-aliasing reduction
static double aa(const std::function<double(int)> &p, int i, int n) {
    int dn = n / 2;
    if (i == 0) return (2 * p(n > 2 ? 2 : 0) + 12 * p(1) + 11 * p(0)) / 25;
    double l = p(2 * i - 2) + 6 * (p(2 * i - 1) + p(2 * i + 1));
    if (i == dn - 1 && 2 * dn == n) return (l + 12 * p(2 * i)) / 25;
    return (l + 11 * p(2 * i) + p(2 * i + 2)) / 25;
}

static void p21() {
    const int W = pick(9, 14);
    static const char *OP[] = {"downsample", "upsample", "aa x", "aa y"};
    for (int w = 1; w <= W; ++w) for (int h = 1; h <= W; ++h) for (int f = 0; f < 2; ++f) for (int pad = 0; pad < 3; pad += 2) for (int k = 0; k < n_content(w, h); ++k) for (int op = 0; op < 4; ++op) if (begin("resampling")) {
        describe([&] { return fmt("%s of %dx%d %s pad %d content %d", OP[op], w, h, f ? "float" : "byte", pad, k); });
        Src s(w, h, pad, f, false, [&](int x, int y, int) { return content(k, x, y, w, h, f); });
        NXImage *d = dest_kind((k + op) % N_DEST, op == 1 ? 2 * w : w / 2, op == 1 ? 2 * h : h / 2); step();
        switch (op) {
        case 0: nx_image_downsample(d, s.im); cmp(d, w / 2, h / 2, f, [&](int x, int y) { return s.at(2 * x, 2 * y); }, OP[op], s); break;
        case 1: nx_image_upsample(d, s.im); cmp(d, 2 * w, 2 * h, f, [&](int x, int y) { return bil(s, x / 2.0, y / 2.0); }, OP[op], s); break;
        case 2: nx_image_downsample_aa_x(d, s.im); cmp(d, w / 2, h, f, [&](int x, int y) { return aa([&](int i) { return s.at(i, y); }, x, w); }, OP[op], s); break;
        case 3: nx_image_downsample_aa_y(d, s.im); cmp(d, w, h / 2, f, [&](int x, int y) { return aa([&](int i) { return s.at(x, i); }, y, h); }, OP[op], s); break;
        }
        if (!s.untouched()) fail("%s changes its input", OP[op]);
        state(img_hash(d)); nx_image_free(d);
    }
    static const float SC[] = {0.1f, 0.25f, 0.3f, 0.5f, 0.6f, 0.75f, 0.9f, 1, 1.1f, 1.25f, 1.5f, 1.7f, 2, 2.5f, 3, 4};
    const int WS = pick(8, 12);
    for (int w = 1; w <= WS; ++w) for (int h = 1; h <= WS; ++h) for (int f = 0; f < 2; ++f) for (int k = 0; k < n_content(w, h); ++k) for (float sc : SC) if (begin("scaling")) {
        describe([&] { return fmt("scale %dx%d %s by %g content %d", w, h, f ? "float" : "byte", sc, k); });
        Src s(w, h, k % 3, f, false, [&](int x, int y, int) { return content(k, x, y, w, h, f); });
        NXImage *d = dest_kind(k % N_DEST, (int)(w * sc), (int)(h * sc)); nx_image_scale(d, s.im, sc); step();
        int dw = d->width, dh = d->height; double ew = (double)w * sc, eh = (double)h * sc;
        if (dw < (int)std::floor(ew - 1e-4) || dw > (int)std::floor(ew + 1e-4) || dh < (int)std::floor(eh - 1e-4) || dh > (int)std::floor(eh + 1e-4)) fail("scaling %dx%d by %g gives %dx%d", w, h, sc, dw, dh);
        else cmp(d, dw, dh, f, [&](int x, int y) { return bil(s, x / (double)sc, y / (double)sc); }, "scaling", s);
        if (!s.untouched()) fail("scaling changes its input");
        state(img_hash(d)); nx_image_free(d);
    }
    // affine warps with exactly representable coefficients
    static const float T0[] = {1, 0.5f, 2, -1, 0}, T1[] = {0, 0.5f, -1}, T3[] = {0, 0.5f, 1}, T4[] = {1, 0.5f, -1, 0}, T6[] = {-5, -1.5f, -1, -0.25f, 0, 0.5f, 2, 7.75f}, T7[] = {-6.5f, -1, -0.5f, 0, 0.25f, 3};
    const int SW = pick(5, 7);
    for (int w = 1; w <= SW; ++w) for (int h = 1; h <= SW; ++h) for (float t0 : T0) for (float t1 : T1) for (float t3 : T3) for (float t4 : T4) for (float t6 : T6) for (float t7 : T7) if (begin("affine-warp")) {
        float t[9] = {t0, t1, 0, t3, t4, 0, t6, t7, 1};
        describe([&] { return fmt("%dx%d x'=%gx%+gy%+g y'=%gx%+gy%+g", w, h, t0, t3, t6, t1, t4, t7); });
        Src s(w, h, (w + h) % 3, false, false, [&](int x, int y, int) { return pattern(4, x, y, 0, w, h); });
        int dw = 1 + (w + h) % 4, dh = 1 + (w * 3 + h) % 3; if (w * h >= 6) dw = 4, dh = 3;
        for (int mode = 0; mode < 5; ++mode) {
            int st = dw + 2, n = (dh - 1) * st + dw; uchar *d = (uchar *)malloc(n); memset(d, 0x5C, n); step();
            nx_image_warp_affine_bilinear(dw, dh, d, st, w, h, (uchar *)s.buf, s.stride, t, (NXImageWarpBackgroundMode)mode);
            for (int y = 0; y < dh; ++y) for (int x = 0; x < st && y * st + x < n; ++x) {
                int g = d[y * st + x];
                if (x >= dw) { if (g != 0x5C) { fail("the warp writes outside of the destination rows"); y = 99; break; } continue; }
                double xp = (double)x * t0 + (double)y * t3 + t6, yp = (double)x * t1 + (double)y * t4 + t7, e;
                int xi = (int)std::floor(xp), yi = (int)std::floor(yp); bool in = xi >= 0 && xi + 1 < w && yi >= 0 && yi + 1 < h;
                auto mir = [](int i, int n) { if (n == 1) return 0; int p = 2 * n - 2; i = ((i % p) + p) % p; return i < n ? i : p - i; };
                if (mode <= NX_IMAGE_WARP_NOISE && !in) { if (mode == NX_IMAGE_WARP_NOISE) continue; e = mode == NX_IMAGE_WARP_WHITE ? 255 : 0; if (g != (int)e) { fail("mode %d: background pixel (%d,%d) is %d", mode, x, y, g); y = 99; break; } continue; }
                if (mode == NX_IMAGE_WARP_MIRROR) { double u = xp - xi, v = yp - yi; int x0 = mir(xi, w), x1 = mir(xi + 1, w), y0 = mir(yi, h), y1 = mir(yi + 1, h); e = (1 - v) * ((1 - u) * s.at(x0, y0) + u * s.at(x1, y0)) + v * ((1 - u) * s.at(x0, y1) + u * s.at(x1, y1)); }
                else e = bil(s, xp, yp);
                if (!trunc_ok(g, e, e)) { fail("mode %d: pixel (%d,%d) sampled at (%g,%g) is %d instead of %g", mode, x, y, xp, yp, g, e); y = 99; break; }
            }
            if (mode != NX_IMAGE_WARP_NOISE) state(hash_bytes(d, n)); free(d);
        }
        if (!s.untouched()) fail("the warp changes its input");
    }
    // large sources and destinations, and sampling positions far outside
    static const int LW[][4] = {{9, 300, 6, 310}, {300, 7, 320, 5}, {40, 40, 30, 280}, {4, 3, 270, 4}, {6, 5, 5, 600}, {70, 70, 64, 64}};
    static const float LC[][4] = {{1, 0, 0, 1}, {0.5f, 0.25f, 0.25f, 0.5f}, {1, 0.5f, -0.5f, 1}, {-1, 0, 0, -1}, {2, 0, 0, 2}, {0.25f, -1, 1, 0.25f}}, LT[] = {-700.5f, -300.25f, -65.5f, -0.5f, 0, 3.25f, 70.5f, 260, 511.75f, 1100.5f};
    for (auto &z : LW) for (auto &c : LC) for (float t6 : LT) for (float t7 : LT) if (begin("large-warps")) {
        int w = z[0], h = z[1], dw = z[2], dh = z[3]; float t[9] = {c[0], c[1], 0, c[2], c[3], 0, t6, t7, 1};
        describe([&] { return fmt("%dx%d -> %dx%d x'=%gx%+gy%+g y'=%gx%+gy%+g", w, h, dw, dh, c[0], c[2], t6, c[1], c[3], t7); });
        Src s(w, h, (w + dh) % 3, false, false, [&](int x, int y, int) { return (x * 7 + y * 13 + (x >> 8) * 3 + (y >> 8)) % 251; });
        auto mir = [](int i, int n) { if (n == 1) return 0; int p = 2 * n - 2; i = ((i % p) + p) % p; return i < n ? i : p - i; };
        uchar *d = (uchar *)malloc((size_t)dw * dh);
        for (int mode = 0; mode < 5; ++mode) { memset(d, 0x5C, (size_t)dw * dh); step();
            nx_image_warp_affine_bilinear(dw, dh, d, dw, w, h, (uchar *)s.buf, s.stride, t, (NXImageWarpBackgroundMode)mode);
            for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) {
                int g = d[y * dw + x]; double xp = (double)x * c[0] + (double)y * c[2] + t6, yp = (double)x * c[1] + (double)y * c[3] + t7, e; int xi = (int)std::floor(xp), yi = (int)std::floor(yp); bool in = xi >= 0 && xi + 1 < w && yi >= 0 && yi + 1 < h;
                if (mode <= NX_IMAGE_WARP_NOISE && !in) { if (mode == NX_IMAGE_WARP_NOISE) continue; e = mode == NX_IMAGE_WARP_WHITE ? 255 : 0; if (g != (int)e) { fail("mode %d: background pixel (%d,%d) is %d", mode, x, y, g); y = dh; break; } continue; }
                if (mode == NX_IMAGE_WARP_MIRROR) { double u = xp - xi, v = yp - yi; int x0 = mir(xi, w), x1 = mir(xi + 1, w), y0 = mir(yi, h), y1 = mir(yi + 1, h); e = (1 - v) * ((1 - u) * s.at(x0, y0) + u * s.at(x1, y0)) + v * ((1 - u) * s.at(x0, y1) + u * s.at(x1, y1)); }
                else e = bil(s, xp, yp);
                if (!trunc_ok(g, e, e)) { fail("mode %d: pixel (%d,%d) sampled at (%g,%g) is %d instead of %g", mode, x, y, xp, yp, g, e); y = dh; break; }
            }
            if (mode != NX_IMAGE_WARP_NOISE) state(hash_bytes(d, (size_t)dw * dh)); }
        free(d); if (!s.untouched()) fail("the warp changes its input");
    }
    static const int LR[][4] = {{41, 41, 50, 50}, {64, 48, 64, 48}, {48, 64, 90, 91}, {130, 20, 100, 100}, {20, 130, 110, 90}, {257, 259, 300, 310}, {300, 9, 220, 230}, {9, 300, 230, 220}, {65, 67, 12, 300}, {65, 67, 300, 11}};
    for (auto &z : LR) for (int f = 0; f < 2; ++f) for (int cw = 0; cw < 2; ++cw) for (int k = 0; k < 3; ++k) if (begin("large-rotations")) {
        int w = z[0], h = z[1], dw = z[2], dh = z[3]; describe([&] { return fmt("%dx%d -> %dx%d %s cw %d content %d", w, h, dw, dh, f ? "float" : "byte", cw, k); });
        Src s(w, h, (w + dh) % 3, f, false, [&](int x, int y, int) { return k == 2 ? 255 : k == 1 ? (x * 3 + y) % 200 * (f ? 0.5 : 1) : (x + 5 * y) % 250 * (f ? 0.25 : 1); });
        Src d(dw, dh, (h + dw) % 3, f, false, [&](int, int, int) { return 77; }); step();
        nx_image_rotate45(d.im, s.im, cw ? NX_TRUE : NX_FALSE); if (!d.padding_untouched() || !s.untouched()) fail("rotation writes outside of the destination");
        double C = cw ? 1 : -1, r = std::sqrt(0.5);
        for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) {
            double ox = x - dw * 0.5, oy = y - dh * 0.5, xp = r * (ox + C * oy) + w * 0.5, yp = r * (oy - C * ox) + h * 0.5, g = px(d.im, x, y), T = 1e-3;
            auto inside = [&](double m) { return xp >= -m && xp < w - 1 + m && yp >= -m && yp < h - 1 + m; };
            bool surely = inside(-T), maybe = inside(T), zero = g == 0; double e = bil(s, xp, yp), tol = 0.5; // float positions, at most 255 between neighbours
            bool val = maybe && (f ? std::fabs(g - e) <= tol : trunc_ok(g, e, e, tol));
            if (surely ? !val : maybe ? !val && !zero : !zero) { fail("rotated pixel (%d,%d) sampled at (%.4f,%.4f) is %g instead of %g", x, y, xp, yp, g, surely ? e : 0.0); y = dh; break; }
        }
        state(img_hash(d.im));
    }
    // rotation by 45 degrees about the centers
    for (int w = 1; w <= pick(6, 9); ++w) for (int h = 1; h <= pick(6, 9); ++h) for (int dw = 1; dw <= pick(7, 12); ++dw) for (int dh = 1; dh <= pick(7, 12); ++dh) for (int f = 0; f < 2; ++f) for (int cw = 0; cw < 2; ++cw) for (int k = 0; k < 3; ++k) if (begin("rotate45")) {
        describe([&] { return fmt("%dx%d -> %dx%d %s cw %d", w, h, dw, dh, f ? "float" : "byte", cw); });
        Src s(w, h, (w + dh) % 3, f, false, [&](int x, int y, int) { return k == 2 ? 255 : pattern(k ? 4 : 0, x, y, 0, w, h) * (f ? 0.01 : 1); });
        Src d(dw, dh, (h + dw) % 3, f, false, [&](int, int, int) { return 77; }); step();
        nx_image_rotate45(d.im, s.im, cw ? NX_TRUE : NX_FALSE);
        if (!d.padding_untouched() || !s.untouched()) fail("rotation writes outside of the destination");
        double C = cw ? 1 : -1, r = std::sqrt(0.5);
        for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) {
            double ox = x - dw * 0.5, oy = y - dh * 0.5, xp = r * (ox + C * oy) + w * 0.5, yp = r * (oy - C * ox) + h * 0.5, g = px(d.im, x, y), T = 1e-4;
            auto inside = [&](double m) { return xp >= -m && xp < w - 1 + m && yp >= -m && yp < h - 1 + m; };
            bool surely = inside(-T), maybe = inside(T);
            bool zero = g == 0, val = maybe && (f ? near_ok(g, bil(s, xp, yp), 1e-2 * 2.55) : trunc_ok(g, bil(s, xp, yp), bil(s, xp, yp), 0.05));
            if (surely ? !val : maybe ? !val && !zero : !zero) { fail("rotated pixel (%d,%d) sampled at (%.4f,%.4f) is %g instead of %g", x, y, xp, yp, g, surely ? bil(s, xp, yp) : 0.0); y = 99; break; }
        }
        state(img_hash(d.im));
    }
    // one size at each remainder class and beyond a typical vector width
    for (int w = 1; w <= pick(70, 200); ++w) for (int op = 0; op < 6; ++op) for (int f = 0; f < 2; ++f) if (begin("long-rows")) {
        int ww = op == 3 ? 3 : w, hh = op == 3 ? w : 3;
        Src s(ww, hh, w % 4, f, false, [&](int x, int y, int) { return pattern(0, x, y, 0, ww, hh) * (f ? 0.5 : 1); });
        NXImage *d = nx_image_alloc(); step();
        switch (op) {
        case 0: nx_image_downsample(d, s.im); cmp(d, w / 2, 1, f, [&](int x, int y) { return s.at(2 * x, 2 * y); }, "downsample", s); break;
        case 1: nx_image_upsample(d, s.im); cmp(d, 2 * w, 6, f, [&](int x, int y) { return bil(s, x / 2.0, y / 2.0); }, "upsample", s); break;
        case 2: nx_image_downsample_aa_x(d, s.im); cmp(d, w / 2, 3, f, [&](int x, int y) { return aa([&](int i) { return s.at(i, y); }, x, w); }, "aa x", s); break;
        case 3: nx_image_downsample_aa_y(d, s.im); cmp(d, 3, w / 2, f, [&](int x, int y) { return aa([&](int i) { return s.at(x, i); }, y, w); }, "aa y", s); break;
        default: { float sc = op == 4 ? 0.5f : 1.5f; nx_image_scale(d, s.im, sc); cmp(d, (int)(w * sc), (int)(3 * sc), f, [&](int x, int y) { return bil(s, x / (double)sc, y / (double)sc); }, "scaling", s, 5e-2); }
        }
        state(img_hash(d)); nx_image_free(d);
    }
    for (int n : BIG) for (int tall = 0; tall < 2; ++tall) for (int f = 0; f < 2; ++f) for (int op = 0; op < 7; ++op) if (begin("large-images")) {
        int w = tall ? 4 : n, h = tall ? n : 4; describe([&] { return fmt("operation %d on %dx%d %s", op, w, h, f ? "float" : "byte"); });
        Src s(w, h, n % 4, f, false, [&](int x, int y, int) { return (x * 7 + y * 13 + (x >> 8) * 3 + (y >> 8)) % 251 * (f ? 0.5 : 1); });
        NXImage *d = nx_image_alloc(); step(); double tol = 0.2;
        switch (op) {
        case 0: nx_image_downsample(d, s.im); cmp(d, w / 2, h / 2, f, [&](int x, int y) { return s.at(2 * x, 2 * y); }, "downsample", s); break;
        case 1: nx_image_upsample(d, s.im); cmp(d, 2 * w, 2 * h, f, [&](int x, int y) { return bil(s, x / 2.0, y / 2.0); }, "upsample", s, tol); break;
        case 2: nx_image_downsample_aa_x(d, s.im); cmp(d, w / 2, h, f, [&](int x, int y) { return aa([&](int i) { return s.at(i, y); }, x, w); }, "aa x", s); break;
        case 3: nx_image_downsample_aa_y(d, s.im); cmp(d, w, h / 2, f, [&](int x, int y) { return aa([&](int i) { return s.at(x, i); }, y, h); }, "aa y", s); break;
        case 4: case 5: { float sc = op == 4 ? 0.5f : 2; nx_image_scale(d, s.im, sc); cmp(d, (int)(w * sc), (int)(h * sc), f, [&](int x, int y) { return bil(s, x / (double)sc, y / (double)sc); }, "scaling", s, tol); break; }
        default: if (!f) { int dw = w, dh = h; uchar *o = (uchar *)malloc((size_t)dw * dh); float t[9] = {1, 0, 0, 0, 1, 0, 0.5f, 1, 1}; nx_image_warp_affine_bilinear(dw, dh, o, dw, w, h, (uchar *)s.buf, s.stride, t, NX_IMAGE_WARP_REPEAT);
            for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) { double e = bil(s, x + 0.5, y + 1.0); if (!trunc_ok(o[y * dw + x], e, e)) { fail("warped pixel (%d,%d) of %dx%d is %d instead of %g", x, y, w, h, o[y * dw + x], e); y = dh; break; } } free(o); }
        }
        if (!s.untouched()) fail("operation %d changes its input", op);
        state(img_hash(d)); nx_image_free(d);
    }
    for (int w = 1; w <= pick(8, 12); ++w) for (int h = 1; h <= pick(8, 12); ++h) for (int f = 0; f < 2; ++f) for (int op = 0; op < 5; ++op) for (int dk = 0; dk < N_DEST; ++dk) if (begin("vg-methods")) {
        static const float F[] = {0.5f, 0.75f, 1, 1.5f, 2}; Src s(w, h, dk % 3, f, false, [&](int x, int y, int) { return pattern(4, x, y, 0, w, h); });
        const VGImage v(s.im, false); VGImage d(dest_kind(dk, w, h), true), d2(dest_kind(dk, h, w), true); NXImage *e = nx_image_alloc(), *e2 = nx_image_alloc(); step(2);
        VGImage &r = d.scaled_of(v, F[op]); nx_image_scale(e, s.im, F[op]); same_img(d, e, "scaling"); if (&r != &d) fail("scaled_of does not return its image");
        d2.downsampled_from(v); nx_image_downsample(e2, s.im); same_img(d2, e2, "downsampling");
        if (!s.untouched()) fail("the methods change their input");
        state(img_hash(e)); nx_image_free(e); nx_image_free(e2);
    }
}

// ------------------------------------------------------------------ P22
static D gk(double sigma, int half) { D k(half + 1); double s = 0; for (int i = 0; i <= half; ++i) { k[i] = std::exp(-0.5 * i * i / (sigma * sigma)); s += i ? 2 * k[i] : k[i]; } for (double &x : k) x /= s; return k; }
static int gsize(double sigma, double tr) { int n = (int)(2 * tr * sigma + 1); if (n % 2 == 0) ++n; return std::max(n, 3); }
struct Iv { D lo, hi; int w, h; };
// both passes of the smoothing with byte truncation in between as an interval
static Iv smooth_ref(const Iv &s, bool f, double sx, double sy, double tr) {
    Iv t = s, o = s; D kx = gk(sx, gsize(sx, tr) / 2), ky = gk(sy, gsize(sy, tr) / 2);
    auto cl = [](int i, int n) { return i < 0 ? 0 : i >= n ? n - 1 : i; };
    auto fin = [&](double &lo, double &hi) { if (!f) { lo = std::floor(lo - 1e-3); hi = std::floor(hi + 1e-3); if (lo < 0) lo = 0; if (hi > 255) hi = 255; } };
    for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { double a = 0, b = 0; for (int i = -(int)kx.size() + 1; i < (int)kx.size(); ++i) { int q = y * s.w + cl(x + i, s.w); a += kx[std::abs(i)] * s.lo[q]; b += kx[std::abs(i)] * s.hi[q]; } fin(a, b); t.lo[y * s.w + x] = a; t.hi[y * s.w + x] = b; }
    for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { double a = 0, b = 0; for (int i = -(int)ky.size() + 1; i < (int)ky.size(); ++i) { int q = cl(y + i, s.h) * s.w + x; a += ky[std::abs(i)] * t.lo[q]; b += ky[std::abs(i)] * t.hi[q]; } fin(a, b); o.lo[y * s.w + x] = a; o.hi[y * s.w + x] = b; }
    return o;
}
static Iv iv(const Src &s) { Iv r; r.w = s.w; r.h = s.h; r.lo = r.hi = s.px; return r; }
static bool icmp(const NXImage *d, const Iv &e, bool f, const char *what, double tol = 2e-3) {
    if (!shape_is(d, e.w, e.h, NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR, what)) return false;
    for (int y = 0; y < e.h; ++y) for (int x = 0; x < e.w; ++x) { double g = px(d, x, y), lo = e.lo[y * e.w + x] - (f ? tol : 0), hi = e.hi[y * e.w + x] + (f ? tol : 0); if (!(g >= lo && g <= hi)) { fail("%s: pixel (%d,%d) of %dx%d is %.9g, not in [%.9g, %.9g]", what, x, y, e.w, e.h, g, lo, hi); return false; } }
    return true;
}
static void p22() {
    // kernels
    for (int si = 1; si <= pick(60, 400); si += 1) for (int big = 0; big < 2; ++big) for (int ti = 1; ti <= 10; ++ti) if (begin("kernels")) {
        double sigma = big ? 7.5 + si * 2.375 : si / 8.0, tr = ti / 2.0; int n = nx_kernel_size_gaussian(sigma, tr); step();
        if (n != gsize(sigma, tr)) fail("kernel size for sigma %g truncated at %g is %d instead of %d", sigma, tr, n, gsize(sigma, tr));
        if (n % 2 == 0 || n < 3) fail("kernel size %d", n);
        int nk = n / 2 + 1; float *k = (float *)malloc(nk * 4); nx_kernel_sym_gaussian(nk, k, sigma); D e = gk(sigma, nk - 1); double sum = 0;
        for (int i = 0; i < nk; ++i) { sum += i ? 2 * k[i] : k[i]; if (!near_ok(k[i], e[i], 1e-5)) { fail("kernel element %d for sigma %g is %g instead of %g", i, sigma, k[i], e[i]); break; } if (i && k[i] > k[i - 1]) fail("the kernel for sigma %g increases", sigma); }
        if (std::fabs(sum - 1) > 1e-4) fail("the kernel for sigma %g sums to %.9g", sigma, sum);
        state(hash_bytes(k, nk * 4)); free(k);
    }
    // buffers with borders and 1-D convolutions: every length, border, mode, impulse
    for (int n = 1; n <= pick(9, 14); ++n) for (int b = 0; b <= pick(8, 12); ++b) for (int mode = 0; mode < 3; ++mode) for (int kind = 0; kind < 4; ++kind) if (begin("borders")) {

        int st = kind % 2 ? 1 : 3; size_t cnt = (size_t)(n - 1) * st + 1; uchar *u = (uchar *)malloc(cnt); float *f = (float *)malloc(cnt * 4);
        for (size_t i = 0; i < cnt; ++i) u[i] = 211, f[i] = -99;
        for (int i = 0; i < n; ++i) u[i * st] = 10 + 17 * i, f[i * st] = 0.5 + 3 * i;
        float *buf = nx_filter_buffer_alloc(n, b); for (int i = 0; i < n + 2 * b; ++i) buf[i] = 1e9; step();
        switch (kind) { case 0: nx_filter_copy_to_buffer_uc(n, buf, u, st, b, (NXBorderMode)mode); break; case 1: nx_filter_copy_to_buffer1_uc(n, buf, u, b, (NXBorderMode)mode); break; case 2: nx_filter_copy_to_buffer(n, buf, f, st, b, (NXBorderMode)mode); break; default: nx_filter_copy_to_buffer1(n, buf, f, b, (NXBorderMode)mode); }
        for (int i = -b; i < n + b; ++i) {
            int j = i; bool z = false; if (i < 0 || i >= n) { if (mode == NX_BORDER_ZERO) z = true; else if (mode == NX_BORDER_REPEAT) j = i < 0 ? 0 : n - 1; else while (j < 0 || j >= n) j = n == 1 ? 0 : j < 0 ? -j : 2 * n - 2 - j; }
            double e = z ? 0 : kind < 2 ? 10 + 17 * j : 0.5 + 3 * j;
            if (buf[b + i] != (float)e) { fail("buffer of %d values, border %d, mode %d, kind %d: element %d is %g instead of %g", n, b, mode, kind, i, buf[b + i], e); break; }
        }
        state(hash_bytes(buf, (n + 2 * b) * 4)); nx_free(buf); free(u); free(f);
    }
    for (int n = 1; n <= pick(10, 16); ++n) for (int r = 1; r <= pick(6, 9); ++r) for (int k = 0; k < n + 2 * r + 3; ++k) for (int op = 0; op < 2; ++op) if (begin("convolution")) {
        int m = n + 2 * r; float *buf = (float *)malloc(m * 4); D in(m); step();
        for (int i = 0; i < m; ++i) in[i] = buf[i] = k < m ? (i == k ? 7 * (2 * r + 1) : 0) : k == m ? 3 : k == m + 1 ? (i * 37 % 19) - 4 : (i % 2 ? 50 : -50);
        D ker(r + 1); std::vector<float> fk(r + 1); for (int i = 0; i <= r; ++i) ker[i] = fk[i] = (op ? 1.0 / (2 * r + 1) : (i + 1) * 0.125);
        if (op) nx_convolve_box(n, buf, r); else nx_convolve_sym(n, buf, r + 1, fk.data());
        for (int i = 0; i < n; ++i) { double e = 0; for (int j = -r; j <= r; ++j) e += (op ? 1.0 / (2 * r + 1) : ker[std::abs(j)]) * in[i + r + j]; if (!near_ok(buf[i], e, 1e-3)) { fail("%s convolution of %d values, radius %d, input %d: value %d is %g instead of %g", op ? "box" : "symmetric", n, r, k, i, buf[i], e); break; } }
        state(hash_bytes(buf, n * 4)); free(buf);
    }
    const int W = pick(6, 9);
    static const double SG[] = {0.25, 0.5, 1, 1.75, 3}; static const double TR[] = {1, 3, 4};
    for (int w = 1; w <= W; ++w) for (int h = 1; h <= W; ++h) for (int f = 0; f < 2; ++f) for (int k = 0; k < n_content(w, h); ++k) for (int sx = 0; sx < 5; ++sx) for (int sy = 0; sy < 5; ++sy) for (double tr : TR) for (int md = 0; md < 3; ++md) if (begin("smoothing")) { // md 0: own buffer, 1: given buffer, 2: in place
        describe([&] { return fmt("%dx%d %s content %d sigma %g,%g cut %g mode %d", w, h, f ? "float" : "byte", k, SG[sx], SG[sy], tr, md); });
        Src s(w, h, k % 3, f, false, [&](int x, int y, int) { return content(k, x, y, w, h, f); });
        Iv e = smooth_ref(iv(s), f, SG[sx], SG[sy], tr); step();
        NXImage *d = md == 2 ? s.im : dest_kind((k + sy) % N_DEST, w, h); float *fb = nullptr; int nx, ny;
        if (md == 1) { fb = nx_image_filter_buffer_alloc(w, h, SG[sx], SG[sy], tr, &nx, &ny); if (nx != gsize(SG[sx], tr) || ny != gsize(SG[sy], tr)) fail("the filter buffer is for kernels of %d and %d", nx, ny); }
        nx_image_smooth(d, s.im, SG[sx], SG[sy], tr, fb); if (fb) nx_free(fb);
        icmp(d, e, f, "smoothing");
        if (md == 2 ? !s.padding_untouched() : !s.untouched()) fail("smoothing changes its input or writes outside of the pixels");
        state(img_hash(d)); if (md != 2) nx_image_free(d);
    }
    for (int w = 1; w <= W; ++w) for (int h = 1; h <= W; ++h) for (int f = 0; f < 2; ++f) for (int k = 0; k < n_content(w, h); ++k) for (int rx = 1; rx <= 4; ++rx) for (int op = 0; op < 3; ++op) for (int md = 0; md < 3; ++md) if (begin("box-filters")) {
        int ry = 1 + (rx + k) % 4; describe([&] { return fmt("box %d of %dx%d %s content %d radius %d,%d mode %d", op, w, h, f ? "float" : "byte", k, rx, ry, md); });
        Src s(w, h, k % 3, f, false, [&](int x, int y, int) { return content(k, x, y, w, h, f); }); Iv e = iv(s), t = e; step();
        auto fin = [&](double &lo, double &hi) { if (!f) { lo = std::floor(lo - 1e-3); hi = std::floor(hi + 1e-3); if (lo < 0) lo = 0; if (hi > 255) hi = 255; } };
        if (op != 1) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = 0, b = 0; for (int i = -rx; i <= rx; ++i) { int q = y * w + std::min(std::max(x + i, 0), w - 1); a += e.lo[q]; b += e.hi[q]; } a /= 2 * rx + 1; b /= 2 * rx + 1; fin(a, b); t.lo[y * w + x] = a; t.hi[y * w + x] = b; } e = t; }
        if (op != 0) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = 0, b = 0; for (int i = -ry; i <= ry; ++i) { int q = std::min(std::max(y + i, 0), h - 1) * w + x; a += e.lo[q]; b += e.hi[q]; } a /= 2 * ry + 1; b /= 2 * ry + 1; fin(a, b); t.lo[y * w + x] = a; t.hi[y * w + x] = b; } e = t; }
        NXImage *d = md == 2 ? s.im : dest_kind(k % N_DEST, w, h); float *fb = md == 1 ? nx_filter_buffer_alloc(std::max(w, h), std::max(rx, ry)) : nullptr;
        if (op == 0) nx_image_filter_box_x(d, s.im, rx, fb); else if (op == 1) nx_image_filter_box_y(d, s.im, ry, fb); else nx_image_filter_box(d, s.im, rx, ry, fb);
        if (fb) nx_free(fb);
        icmp(d, e, f, op == 0 ? "box filter in x" : op == 1 ? "box filter in y" : "box filter");
        if (md == 2 ? !s.padding_untouched() : !s.untouched()) fail("box filtering changes its input or writes outside of the pixels");
        state(img_hash(d)); if (md != 2) nx_image_free(d);
    }
    for (int w = 1; w <= pick(9, 14); ++w) for (int h = 1; h <= pick(9, 14); ++h) for (int f = 0; f < 2; ++f) for (int k = 0; k < n_content(w, h); ++k) for (int op = 0; op < 2; ++op) if (begin("derivatives")) {
        Src s(w, h, k % 3, f, false, [&](int x, int y, int) { return content(k, x, y, w, h, f); }); NXImage *d = dest_kind((k + op) % N_DEST, w, h); step();
        if (op) nx_image_deriv_y(d, s.im); else nx_image_deriv_x(d, s.im);
        if (shape_is(d, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32, "derivative")) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            int i = op ? y : x, n = op ? h : w; auto v = [&](int q) { return op ? s.at(x, q) : s.at(q, y); };
            double e = n == 1 ? 0 : (i == 0 ? 2 * (v(1) - v(0)) : i == n - 1 ? 2 * (v(n - 1) - v(n - 2)) : v(i + 1) - v(i - 1)) / (f ? 1 : 255);
            if (!near_ok(px(d, x, y), e, 1e-4)) { fail("derivative in %c of %dx%d at (%d,%d) is %g instead of %g", op ? 'y' : 'x', w, h, x, y, px(d, x, y), e); y = 99; break; }
        }
        if (!s.untouched()) fail("the derivative changes its input");
        state(img_hash(d)); nx_image_free(d);
    }
    for (int w = 2; w <= pick(70, 150); ++w) for (int f = 0; f < 2; ++f) for (int tall = 0; tall < 2; ++tall) if (begin("long-rows")) {
        int ww = tall ? 3 : w, hh = tall ? w : 3; Src s(ww, hh, w % 4, f, false, [&](int x, int y, int) { return pattern(4, x, y, 0, ww, hh); }); NXImage *d = nx_image_alloc(); step(3);
        nx_image_smooth(d, s.im, 1.5, 0.75, 3, nullptr); icmp(d, smooth_ref(iv(s), f, 1.5, 0.75, 3), f, "smoothing");
        state(img_hash(d)); nx_image_free(d);
    }
    auto box = [](const Iv &s, bool f, int rx, int ry) { // radius 0: no filtering along the axis
        Iv e = s, t = s; int w = s.w, h = s.h; auto fin = [&](double &lo, double &hi) { if (!f) { lo = std::floor(lo - 1e-3); hi = std::floor(hi + 1e-3); if (lo < 0) lo = 0; if (hi > 255) hi = 255; } };
        if (rx) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = 0, b = 0; for (int i = -rx; i <= rx; ++i) { int q = y * w + std::min(std::max(x + i, 0), w - 1); a += e.lo[q]; b += e.hi[q]; } a /= 2 * rx + 1; b /= 2 * rx + 1; fin(a, b); t.lo[y * w + x] = a; t.hi[y * w + x] = b; } e = t; }
        if (ry) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = 0, b = 0; for (int i = -ry; i <= ry; ++i) { int q = std::min(std::max(y + i, 0), h - 1) * w + x; a += e.lo[q]; b += e.hi[q]; } a /= 2 * ry + 1; b /= 2 * ry + 1; fin(a, b); t.lo[y * w + x] = a; t.hi[y * w + x] = b; } e = t; }
        return e;
    };
    for (int n : BIG) for (int tall = 0; tall < 2; ++tall) for (int f = 0; f < 2; ++f) for (int op = 0; op < 8; ++op) if (begin("large-images")) {
        int w = tall ? 4 : n, h = tall ? n : 4; describe([&] { return fmt("operation %d on %dx%d %s", op, w, h, f ? "float" : "byte"); });
        Src s(w, h, n % 4, f, false, [&](int x, int y, int) { return (x * 7 + y * 13 + (x >> 8) * 3 + (y >> 8)) % 251 * (f ? 0.5 : 1); });
        NXImage *d = op == 7 ? s.im : nx_image_alloc(); step();
        switch (op) {
        case 0: nx_image_smooth(d, s.im, 1.25, 2.5, 3, nullptr); icmp(d, smooth_ref(iv(s), f, 1.25, 2.5, 3), f, "smoothing", 0.01); break;
        case 1: nx_image_smooth(d, s.im, 9, 7, 4, nullptr); icmp(d, smooth_ref(iv(s), f, 9, 7, 4), f, "smoothing", 0.01); break;
        case 2: nx_image_filter_box_x(d, s.im, 12, nullptr); icmp(d, box(iv(s), f, 12, 0), f, "box filter in x", 0.05); break;
        case 3: nx_image_filter_box_y(d, s.im, 12, nullptr); icmp(d, box(iv(s), f, 0, 12), f, "box filter in y", 0.05); break;
        case 4: nx_image_filter_box(d, s.im, 7, 20, nullptr); icmp(d, box(iv(s), f, 7, 20), f, "box filter", 0.05); break;
        case 7: nx_image_smooth(d, s.im, 2, 2, 3, nullptr); icmp(d, smooth_ref(iv(s), f, 2, 2, 3), f, "smoothing in place", 0.01); break;
        default: { bool dy = op == 6; if (dy) nx_image_deriv_y(d, s.im); else nx_image_deriv_x(d, s.im);
            if (shape_is(d, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32, "derivative")) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int i = dy ? y : x, m = dy ? h : w; auto v = [&](int q) { return dy ? s.at(x, q) : s.at(q, y); };
                double e = (i == 0 ? 2 * (v(1) - v(0)) : i == m - 1 ? 2 * (v(m - 1) - v(m - 2)) : v(i + 1) - v(i - 1)) / (f ? 1 : 255); if (!near_ok(px(d, x, y), e, 1e-4)) { fail("derivative in %c of %dx%d at (%d,%d) is %g instead of %g", dy ? 'y' : 'x', w, h, x, y, px(d, x, y), e); y = h; break; } } }
        }
        if (op == 7 ? !s.padding_untouched() : !s.untouched()) fail("operation %d changes its input or the padding", op);
        state(img_hash(d)); if (op != 7) nx_image_free(d);
    }
    for (int w = 1; w <= pick(7, 10); ++w) for (int h = 1; h <= pick(7, 10); ++h) for (int f = 0; f < 2; ++f) for (int op = 0; op < 6; ++op) for (int dk = 0; dk < N_DEST; ++dk) if (begin("vg-methods")) {
        Src s(w, h, dk % 3, f, false, [&](int x, int y, int) { return pattern(4, x, y, 0, w, h); });
        const VGImage v(s.im, false); VGImage d(dest_kind(dk, w, h), true); NXImage *e = nx_image_alloc(); step(); VGImage *r = nullptr;
        switch (op) {
        case 0: r = &d.filter_box_x(v, 1 + dk); nx_image_filter_box_x(e, s.im, 1 + dk, nullptr); break;
        case 1: r = &d.filter_box_y(v, 1 + dk); nx_image_filter_box_y(e, s.im, 1 + dk, nullptr); break;
        case 2: r = &d.filter_box(v, 1 + dk % 3, 2 + dk % 2); nx_image_filter_box(e, s.im, 1 + dk % 3, 2 + dk % 2, nullptr); break;
        case 3: r = &d.smooth(v, 1.25f, 0.5f + dk, 3); nx_image_smooth(e, s.im, 1.25f, 0.5f + dk, 3, nullptr); break;
        case 4: r = &d.deriv_x_of(v); nx_image_deriv_x(e, s.im); break;
        default: r = &d.deriv_y_of(v); nx_image_deriv_y(e, s.im); break;
        }
        same_img(d, e, "filtering"); if (r != &d) fail("method %d does not return its image", op);
        if (!s.untouched()) fail("method %d changes its input", op);
        state(img_hash(e)); nx_image_free(e);
    }
}

// ------------------------------------------------------------------ P23
enum { FAST, FINE, SCALED };
struct Cfg { int kind, n, steps; double factor, sigma0; };
static NXImagePyrBuilder *mk(const Cfg &c) { return c.kind == FAST ? nx_image_pyr_builder_new_fast(c.n, c.sigma0) : c.kind == FINE ? nx_image_pyr_builder_new_fine(c.n, c.steps, c.sigma0) : nx_image_pyr_builder_new_scaled(c.n, c.factor, c.sigma0); }
static void setb(NXImagePyrBuilder *b, const Cfg &c) { if (c.kind == FAST) nx_image_pyr_builder_set_fast(b, c.n, c.sigma0); else if (c.kind == FINE) nx_image_pyr_builder_set_fine(b, c.n, c.steps, c.sigma0); else nx_image_pyr_builder_set_scaled(b, c.n, c.factor, c.sigma0); }
static int n_levels(const Cfg &c) { return c.kind == FINE ? c.n * c.steps : c.n; }
static std::vector<Cfg> configs() {
    std::vector<Cfg> r; 
    for (double s : {0.25, 0.5, 0.75, 1.0, 1.6}) {
        for (int n = 1; n <= pick(4, 5); ++n) r.push_back({FAST, n, 1, 2, s});
        for (int n = 1; n <= 3; ++n) for (int st = 1; st <= pick(3, 4); ++st) r.push_back({FINE, n, st, 2, s});
        for (int n = 1; n <= 4; ++n) for (double f : {1.25, 1.5, 2.0}) r.push_back({SCALED, n, 1, f, s});
    }
    return r;
}
static S cname(const Cfg &c) { return fmt("%s n=%d steps=%d factor=%g sigma0=%g", c.kind == FAST ? "fast" : c.kind == FINE ? "fine" : "scaled", c.n, c.steps, c.factor, c.sigma0); }
static void mul(Iv &v, bool f, double tol) { if (!f) for (size_t i = 0; i < v.lo.size(); ++i) { v.lo[i] = std::max(0.0, std::min(255.0, std::floor(v.lo[i] - tol))); v.hi[i] = std::max(0.0, std::min(255.0, std::floor(v.hi[i] + tol))); } }
static Iv resample(const Iv &s, int w, int h, const std::function<double(const D &, int, int)> &g, bool f, double tol = 1e-3) { Iv o; o.w = w; o.h = h; o.lo.resize(w * h); o.hi.resize(w * h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { o.lo[y * w + x] = g(s.lo, x, y); o.hi[y * w + x] = g(s.hi, x, y); } mul(o, f, tol); return o; }
static Iv smooth_to(const Iv &s, bool f, double from, double to) { double v = to * to - from * from; if (v <= 0) return s; double sg = (float)std::sqrt(v); return smooth_ref(s, f, sg, sg, 4); }
// expected levels; each a float-tolerant interval image
static std::vector<Iv> pyr_ref(const Src &s, const Cfg &c, bool f, const NXImagePyr *p) {
    std::vector<Iv> L; double s0 = std::max(c.sigma0, 0.5), cur = 0.5; Iv a = iv(s); int n = n_levels(c);
    a = smooth_to(a, f, 0.5, s0); cur = s0; L.push_back(a);
    auto aax = [&](const Iv &v) { return resample(v, v.w / 2, v.h, [&](const D &d, int x, int y) { return aa([&](int i) { return d[y * v.w + i]; }, x, v.w); }, f); };
    auto aay = [&](const Iv &v) { return resample(v, v.w, v.h / 2, [&](const D &d, int x, int y) { return aa([&](int i) { return d[i * v.w + x]; }, y, v.h); }, f); };
    if (c.kind == FAST) for (int i = 1; i < n; ++i) { a = aax(a); a = aay(a); L.push_back(a); }
    else if (c.kind == FINE) {
        for (int i = 1; i < n; ++i) { // blur relative to the sampling of the octave
            double want = s0 * std::pow(2.0, (i % c.steps) / (double)c.steps); bool next = i % c.steps == 0; if (next) want = 2 * s0;
            Iv prev = a; a = smooth_to(a, f, cur, want); cur = want;
            if (next) { Iv v = a; a = resample(v, v.w / 2, v.h / 2, [&](const D &d, int x, int y) { return d[2 * y * v.w + 2 * x]; }, f); cur = s0; }
            L.push_back(a);
        }
    } else {
        for (int i = 1; i < n; ++i) {
            double want = s0 * std::pow(2.0, i); a = smooth_to(a, f, cur, want); cur = want; Iv v = a; double sc = std::pow((double)(float)c.factor, i); int w = p->levels[i].img->width, h = p->levels[i].img->height;
            L.push_back(resample(v, w, h, [&](const D &d, int x, int y) { double X = x * sc, Y = y * sc; int xi = std::min((int)X, v.w - 1), yi = std::min((int)Y, v.h - 1), x1 = std::min(xi + 1, v.w - 1), y1 = std::min(yi + 1, v.h - 1); double u = X - (int)X, q = Y - (int)Y; return (1 - q) * ((1 - u) * d[yi * v.w + xi] + u * d[yi * v.w + x1]) + q * ((1 - u) * d[y1 * v.w + xi] + u * d[y1 * v.w + x1]); }, f, 1e-3 + 5e-5 * std::max(v.w, v.h))); // the sampling position is a single precision number
        }
    }
    return L;
}
static bool fits(const Cfg &c, int w, int h) { double s = c.kind == FAST ? std::pow(2.0, c.n - 1) : c.kind == FINE ? std::pow(2.0, c.n - 1) : std::pow(c.factor, c.n - 1); return std::min(w, h) / s >= 2; }
static uint64_t pyr_hash(const NXImagePyr *p) { uint64_t h = p->n_levels; for (int i = 0; i < p->n_levels; ++i) { h = mix(h, img_hash(p->levels[i].img)); h = mix(h, hash_bytes(&p->levels[i].scale, 4)); h = mix(h, hash_bytes(&p->levels[i].sigma, 4)); } return h; }
static bool pyr_check(const NXImagePyr *p, const Src &s, const Cfg &c, bool f) {
    int n = n_levels(c); double s0 = std::max(c.sigma0, 0.5);
    if (p->n_levels != n) { fail("%s: %d levels", cname(c).c_str(), p->n_levels); return false; }
    for (int i = 0; i < n; ++i) {
        double sc = c.kind == SCALED ? std::pow(c.factor, i) : std::pow(2.0, i / c.steps), sg = s0 * std::pow(2.0, i / (double)c.steps); const NXImagePyrLevel &l = p->levels[i];
        if (!near_ok(l.scale, sc, 1e-4 * sc) || !near_ok(l.sigma, sg, 1e-4 * sg)) { fail("%s: level %d has scale %g sigma %g instead of %g and %g", cname(c).c_str(), i, l.scale, l.sigma, sc, sg); return false; }
        int w = l.img->width, h = l.img->height;
        if (w < std::floor(s.w / sc - 1e-3) || w > std::floor(s.w / sc + 1e-3) || h < std::floor(s.h / sc - 1e-3) || h > std::floor(s.h / sc + 1e-3)) { fail("%s: level %d of a %dx%d image is %dx%d", cname(c).c_str(), i, s.w, s.h, w, h); return false; }
    }
    std::vector<Iv> L = pyr_ref(s, c, f, p);
    for (int i = 0; i < n; ++i) { S nm = cname(c) + fmt(" level %d", i); if (!icmp(p->levels[i].img, L[i], f, nm.c_str(), 0.05)) return false; }
    return true;
}
static void p23() {
    static const int SZ[][2] = {{16, 16}, {17, 13}, {8, 9}, {25, 12}, {33, 31}, {4, 5}, {64, 20}, {2, 2}};
    std::vector<Cfg> CF = configs();
    for (auto &z : SZ) for (auto &c : CF) for (int f = 0; f < 2; ++f) for (int pad = 0; pad < 2; ++pad) for (int k = 0; k < pick(3, 5); ++k) if (fits(c, z[0], z[1]) && begin("pyramids")) {
        int w = z[0], h = z[1]; describe([&] { return cname(c) + fmt(" of %dx%d %s pad %d pattern %d", w, h, f ? "float" : "byte", pad, k); });
        Src s(w, h, pad ? 5 : 0, f, false, [&](int x, int y, int) { double v = k < 4 ? pattern(k == 1 ? 4 : k, x, y, 0, w, h) : (x == w / 2 && y == h / 2) * 255; return f ? v / 255 * 3 - 1 : v; });
        size_t h0 = heap();
        { NXImagePyrBuilder *b = mk(c); NXImagePyr *p = nx_image_pyr_builder_build0(b, s.im); step(n_levels(c));
          pyr_check(p, s, c, f); if (!s.untouched()) fail("building a pyramid changes its input");
          state(pyr_hash(p)); nx_image_pyr_free(p); nx_image_pyr_builder_free(b); }
        if (heap() != h0) fail("%ld bytes are not released", (long)(heap() - h0));
    }
    // histories: a builder and a pyramid reused for other images and other settings give what fresh ones give
    static const int IM[][4] = {{16, 16, 0, 0}, {16, 16, 1, 3}, {17, 13, 0, 2}, {9, 20, 1, 0}, {16, 16, 0, 4}};
    std::vector<Cfg> SC = {{FAST, 2, 1, 2, 0.5}, {FAST, 3, 1, 2, 1}, {FINE, 2, 2, 2, 0.75}, {FINE, 1, 3, 2, 1.6}, {SCALED, 3, 1, 1.5, 0.6}, {SCALED, 2, 1, 2, 0.5}, {FAST, 3, 1, 2, 1.6}, {FINE, 2, 2, 2, 1.1}};
    int M = 5 * (int)SC.size(), L = pick(3, 4); uint64_t N = 1; for (int i = 0; i < L; ++i) N *= M;
    for (uint64_t id = 0; id < N; ++id) if (begin("reuse")) {
        uint64_t r = id; int st[4]; for (int i = 0; i < L; ++i) { st[i] = r % M; r /= M; }
        describe([&] { S d; for (int i = 0; i < L; ++i) d += cname(SC[st[i] / 5]) + fmt(" image %d; ", st[i] % 5); return d; });
        size_t h0 = heap();
        { NXImagePyrBuilder *b = nx_image_pyr_builder_alloc(); NXImagePyr *p = nx_image_pyr_alloc();
        for (int i = 0; i < L; ++i) {
            const int *q = IM[st[i] % 5]; const Cfg &c = SC[st[i] / 5]; int w = q[0], h = q[1];
            Src s(w, h, q[3], q[2], false, [&](int x, int y, int) { return pattern(st[i] % 5 == 4 ? 4 : 0, x, y, 0, w, h); });
            setb(b, c); nx_image_pyr_builder_build(b, p, s.im); step();
            NXImagePyrBuilder *b2 = mk(c); NXImagePyr *p2 = nx_image_pyr_builder_build0(b2, s.im);
            bool same = pyr_hash(p) == pyr_hash(p2); nx_image_pyr_free(p2); nx_image_pyr_builder_free(b2);
            if (!same) { fail("step %d (%s, image %d): a reused pyramid differs from a new one", i, cname(c).c_str(), st[i] % 5); break; }
            state(pyr_hash(p));
        }
        nx_image_pyr_free(p); nx_image_pyr_builder_free(b); }
        if (heap() != h0) fail("%ld bytes are not released", (long)(heap() - h0));
    }
    // in place: level 0 filled by the caller, then updated
    for (auto &c : CF) for (int f = 0; f < 2; ++f) if (fits(c, 17, 18) && begin("update")) {
        Src s(17, 18, 2, f, false, [&](int x, int y, int) { return pattern(4, x, y, 0, 17, 18); });
        NXImagePyrBuilder *b = mk(c); NXImagePyr *p = nx_image_pyr_alloc(); step();
        nx_image_pyr_builder_init_levels(b, p, 17, 18); 
        for (int i = 0; i < p->n_levels; ++i) if (p->levels[i].img->width < 1 || p->levels[i].img->height < 1) fail("%s: level %d is empty", cname(c).c_str(), i);
        if (p->levels[0].img->width != 17 || p->levels[0].img->height != 18) fail("level 0 is %dx%d", p->levels[0].img->width, p->levels[0].img->height);
        nx_image_pyr_copy_to_level0(p, s.im, 0.5f); nx_image_pyr_builder_update(b, p); pyr_check(p, s, c, f);
        state(pyr_hash(p)); nx_image_pyr_free(p); nx_image_pyr_builder_free(b);
    }
    // the C++ class builds the same pyramids and tells what they are
    for (auto &z : SZ) for (auto &c : CF) for (int f = 0; f < 2; ++f) if (fits(c, z[0], z[1]) && begin("vg-pyramids")) {
        int w = z[0], h = z[1]; describe([&] { return cname(c) + fmt(" of %dx%d %s", w, h, f ? "float" : "byte"); });
        Src s(w, h, 1, f, false, [&](int x, int y, int) { return pattern(4, x, y, 0, w, h); }), s2(h, w, 2, f, false, [&](int x, int y, int) { return pattern(0, x, y, 0, h, w); });
        size_t h0 = heap();
        {
            const VGImage v(s.im, false), v2(s2.im, false); VGImagePyr P = c.kind == FAST ? VGImagePyr::build_fast_from(v, c.n, c.sigma0) : c.kind == FINE ? VGImagePyr::build_fine_from(v, c.n, c.steps, c.sigma0) : VGImagePyr::build_scaled_from(v, c.n, c.factor, c.sigma0); step(3);
            NXImagePyrBuilder *b = mk(c); NXImagePyr *p = nx_image_pyr_builder_build0(b, s.im), *p2 = nx_image_pyr_builder_build0(b, s2.im);
            auto cmpp = [&](NXImagePyr *e, const char *what) {
                if (pyr_hash(P.nx_pyr()) != pyr_hash(e)) { fail("%s: %s gives another pyramid than the C functions", cname(c).c_str(), what); return; }
                const VGImagePyr &Q = P; 
                for (int i = 0; i < e->n_levels; ++i) { VGImage a = P[i]; const VGImage b2 = Q[i]; if (P.level_sigma(i) != e->levels[i].sigma || P.level_scale(i) != e->levels[i].scale) fail("level %d: sigma %g scale %g", i, P.level_sigma(i), P.level_scale(i)); same_img(a, e->levels[i].img, "a level"); same_img(b2, e->levels[i].img, "a level"); }
            };
            cmpp(p, "building");
            if (P.n_levels() != n_levels(c)) fail("%d levels", P.n_levels());
            if (P.type() != (c.kind == FAST ? VGImagePyr::FAST : c.kind == FINE ? VGImagePyr::FINE : VGImagePyr::SCALED)) fail("the pyramid is of type %d", P.type());
            if (P.n_octaves() != b->pyr_info.n_octaves || P.n_octave_steps() != b->pyr_info.n_octave_steps || P.scale_factor() != b->pyr_info.scale_factor || P.sigma0() != b->pyr_info.sigma0) fail("the accessors give other settings than the builder has");
            if ((c.kind == FINE && (P.n_octaves() != c.n || P.n_octave_steps() != c.steps)) || (c.kind == SCALED && P.scale_factor() != (float)c.factor) || !near_ok(P.sigma0(), std::max(c.sigma0, 0.5), 1e-6)) fail("%s: octaves %d steps %d factor %g sigma0 %g", cname(c).c_str(), P.n_octaves(), P.n_octave_steps(), P.scale_factor(), P.sigma0());
            P.rebuild_from(v2); cmpp(p2, "rebuilding from another image");
            P.rebuild_from(v); cmpp(p, "rebuilding from the first image");
            nx_image_pyr_copy_to_level0(P.nx_pyr(), s2.im, 0.5f); NXImagePyr *p3 = nx_image_pyr_alloc(); nx_image_pyr_builder_init_levels(b, p3, w, h); nx_image_pyr_copy_to_level0(p3, s2.im, 0.5f);
            nx_image_pyr_free(p3);
            if (w == h) { P.rebuild(); cmpp(p2, "updating after level 0 was filled"); }
            state(pyr_hash(p)); nx_image_pyr_free(p); nx_image_pyr_free(p2); nx_image_pyr_builder_free(b);
            if (!s.untouched() || !s2.untouched()) fail("building a pyramid changes its input");
        }
        if (heap() != h0) fail("%ld bytes are not released", (long)(heap() - h0));
    }
    // what the levels are, for every size of the input
    std::vector<Cfg> IC = {{FAST, 3, 1, 2, 0.5}, {FAST, 5, 1, 2, 1}, {FINE, 3, 2, 2, 0.8}, {FINE, 2, 5, 2, 1.6}, {FINE, 4, 3, 2, 0.5}}; for (double g : {1.1, 1.2, 1.25, 1.4142, 1.5, 1.75, 2.0, 2.5, 3.0}) IC.push_back({SCALED, 4, 1, g, 0.7}), IC.push_back({SCALED, 7, 1, g, 1.3});
    for (auto &c : IC) for (int w = 2; w <= pick(700, 3000); ++w) if (begin("level-sizes")) {
        int h = w * 3 % 701 + 2; describe([&] { return cname(c) + fmt(" for %dx%d", w, h); }); NXImagePyrBuilder *b = mk(c); NXImagePyr *p = nx_image_pyr_alloc(); step(n_levels(c));
        if (!fits(c, w, h)) { nx_image_pyr_free(p); nx_image_pyr_builder_free(b); continue; }
        for (int twice = 0; twice < 2; ++twice) {
            nx_image_pyr_builder_init_levels(b, p, twice ? h : w, twice ? w : h); double s0 = std::max(c.sigma0, 0.5); if (p->n_levels != n_levels(c)) { fail("%d levels", p->n_levels); break; }
            for (int i = 0; i < p->n_levels; ++i) {
                double sc = c.kind == SCALED ? std::pow((double)(float)c.factor, i) : std::pow(2.0, i / c.steps), sg = s0 * std::pow(2.0, i / (double)c.steps); const NXImagePyrLevel &l = p->levels[i]; int gw = twice ? l.img->height : l.img->width, gh = twice ? l.img->width : l.img->height;
                if (!near_ok(l.scale, sc, 1e-5 * sc) || !near_ok(l.sigma, sg, 1e-5 * sg)) { fail("level %d has scale %g sigma %g instead of %g and %g", i, l.scale, l.sigma, sc, sg); break; }
                if (gw < std::floor(w / sc - 1e-3) || gw > std::floor(w / sc + 1e-3) || gh < std::floor(h / sc - 1e-3) || gh > std::floor(h / sc + 1e-3)) { fail("level %d of a %dx%d image is %dx%d", i, w, h, gw, gh); break; }
                state(mix(gw, gh));
            }
        }
        nx_image_pyr_free(p); nx_image_pyr_builder_free(b);
    }
    // large images and deeper pyramids
    static const int LZ[][2] = {{127, 64}, {128, 128}, {129, 65}, {257, 33}, {40, 300}, {513, 20}, {21, 1030}};
    std::vector<Cfg> LC = {{FAST, 2, 1, 2, 0.5}, {FAST, 4, 1, 2, 1}, {FAST, 6, 1, 2, 0.75}, {FINE, 2, 5, 2, 0.8}, {FINE, 4, 2, 2, 1.6}, {FINE, 5, 1, 2, 0.5}, {SCALED, 6, 1, 1.5, 0.6}, {SCALED, 4, 1, 1.25, 1}, {SCALED, 3, 1, 2.5, 0.5}, {SCALED, 8, 1, 1.2, 0.7}};
    for (auto &z : LZ) for (auto &c : LC) for (int f = 0; f < 2; ++f) if (fits(c, z[0], z[1]) && begin("large-images")) {
        int w = z[0], h = z[1]; describe([&] { return cname(c) + fmt(" of %dx%d %s", w, h, f ? "float" : "byte"); });
        Src s(w, h, w % 3, f, false, [&](int x, int y, int) { double v = (x * 7 + y * 13 + (x >> 8) * 3 + (y >> 8) + x * y % 17) % 251; return f ? v / 255 * 3 - 1 : v; });
        NXImagePyrBuilder *b = mk(c); NXImagePyr *p = nx_image_pyr_builder_build0(b, s.im); step(n_levels(c));
        pyr_check(p, s, c, f); if (!s.untouched()) fail("building a pyramid changes its input");
        state(pyr_hash(p)); nx_image_pyr_free(p); nx_image_pyr_builder_free(b);
    }
}
void mc_run() {
    S p = PROP;
    if (p == "P21") p21();
    else if (p == "P22") p22();
    else if (p == "P23") p23();
}
