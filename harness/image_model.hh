// Images for the harnesses: sources with guarded padding, destinations in several prior conditions,
// and comparison of results with interval oracles.
#pragma once
#include "mc.hh"
#include <cmath>
extern "C" {
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_mem_block.h"
}

// a source image: exactly sized buffer, padding filled with a poison value, wrapped without ownership
struct Src {
    NXImage *im; void *buf; size_t bytes; int w, h, nc, stride; bool f32; std::vector<double> px; std::vector<unsigned char> before;
    Src(int w, int h, int pad, bool f32, bool rgba, const std::function<double(int, int, int)> &v) : w(w), h(h), f32(f32) {
        nc = rgba ? 4 : 1; stride = w * nc + pad; bytes = (size_t)stride * h * (f32 ? 4 : 1);
        buf = malloc(bytes ? bytes : 1);
        if (f32) for (size_t i = 0; i < bytes / 4; ++i) ((float *)buf)[i] = -7.75e6f; else memset(buf, 0xB7, bytes);
        px.resize((size_t)w * h * nc);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < nc; ++c) {
            double d = v(x, y, c); size_t o = (size_t)y * stride + x * nc + c;
            if (f32) { ((float *)buf)[o] = (float)d; d = (float)d; } else { ((unsigned char *)buf)[o] = (unsigned char)d; d = (unsigned char)d; }
            px[((size_t)y * w + x) * nc + c] = d;
        }
        im = nx_image_alloc();
        nx_image_wrap(im, buf, w, h, stride, rgba ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, f32 ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR, NX_FALSE);
        before.assign((unsigned char *)buf, (unsigned char *)buf + bytes);
    }
    Src(const Src &) = delete;
    ~Src() { nx_image_free(im); free(buf); }
    double at(int x, int y, int c = 0) const { return px[((size_t)y * w + x) * nc + c]; }
    double cl(int x, int y) const { return at(x < 0 ? 0 : x >= w ? w - 1 : x, y < 0 ? 0 : y >= h ? h - 1 : y); }
    bool untouched() const { return !memcmp(buf, before.data(), bytes) && im->data.v == buf && im->width == w && im->height == h && im->row_stride == stride; }
    bool padding_untouched() const { // everything outside the pixels
        int b = f32 ? 4 : 1;
        for (int y = 0; y < h; ++y) if (memcmp((char *)buf + ((size_t)y * stride + w * nc) * b, before.data() + ((size_t)y * stride + w * nc) * b, (size_t)(stride - w * nc) * b)) return false;
        return true;
    }
};
static inline double px(const NXImage *im, int x, int y, int c = 0) {
    size_t o = (size_t)y * im->row_stride + x * im->n_channels + c;
    return im->dtype == NX_IMAGE_UCHAR ? im->data.uc[o] : im->data.f32[o];
}
// a destination that has been used for something else before
const int N_DEST = 5;
static inline NXImage *dest_kind(int k, int w, int h) {
    NXImage *d = nx_image_alloc();
    if (k == 1) nx_image_resize(d, w + 3, h + 2, -1, NX_IMAGE_RGBA, NX_IMAGE_FLOAT32);
    if (k == 2) nx_image_resize(d, w, h, w + 3, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
    if (k == 3) nx_image_resize(d, w, h, w, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32);
    if (k == 4) nx_image_resize(d, 1, 1, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
    if (k && d->mem->size) memset(d->data.v, 0x5A, d->mem->size);
    return d;
}
static inline bool shape_is(const NXImage *d, int w, int h, NXImageType t, NXImageDataType dt, const char *what) {
    int nc = t == NX_IMAGE_RGBA ? 4 : 1;
    if (d->width != w || d->height != h || d->type != t || d->dtype != dt || d->n_channels != nc || (w && d->row_stride < w * nc)) {
        mc::fail("%s gives a %dx%d image of type %d/%d, %d channels, stride %d instead of %dx%d type %d/%d", what, d->width, d->height, d->type, d->dtype, d->n_channels, d->row_stride, w, h, t, dt);
        return false;
    }
    if ((size_t)d->row_stride * h * (dt == NX_IMAGE_FLOAT32 ? 4 : 1) > d->mem->size || (w * h && !d->data.v)) { mc::fail("%s leaves %zu bytes of storage for %dx%d stride %d", what, d->mem->size, w, h, d->row_stride); return false; }
    return true;
}
// truncated value of a real number known up to tol
static inline bool trunc_ok(double got, double lo, double hi, double tol = 1e-3) {
    lo = lo < 0 ? 0 : lo > 255 ? 255 : lo; hi = hi < 0 ? 0 : hi > 255 ? 255 : hi;
    double a = std::floor(lo - tol), b = std::floor(hi + tol); if (a < 0) a = 0; if (b > 255) b = 255;
    return got >= a && got <= b;
}
static inline bool near_ok(double got, double e, double tol) { return std::fabs(got - e) <= tol; }
static inline uint64_t img_hash(const NXImage *im) {
    uint64_t h = mc::mix(mc::mix(im->width, im->height), im->type * 2 + im->dtype);
    for (int y = 0; y < im->height; ++y) h = mc::hash_bytes((char *)im->data.v + (size_t)y * im->row_stride * (im->dtype ? 4 : 1), (size_t)im->width * im->n_channels * (im->dtype ? 4 : 1), h);
    return h;
}
// deterministic pixel patterns; 0..5
static inline double pattern(int k, int x, int y, int c, int w, int h) {
    switch (k) {
    case 0: return (37 * x + 101 * y + 59 * c + 11) % 256;
    case 1: return 255;
    case 2: return (x + y) % 2 ? 250 : 3;
    case 3: return std::min(255, 20 * x + 9 * y + c);
    case 4: return (x * x * 7 + y * 13 + x * y * 5 + c * 3) % 251;
    default: return 0;
    }
}
