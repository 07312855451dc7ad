// P19 image container, P20 image arithmetic and conversion, P32 colours.
#include "image_model.hh"
extern "C" {
#include "virg/nexus/nx_colorspace.h"
}
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/vg_color_map.hpp"
#include "colormap_ref.hh"
using namespace mc;
using namespace virg::nexus;
typedef std::string S;

// ------------------------------------------------------------------ P19
// model of one image: shape plus the value of every stored pixel (or unknown)
struct MI { int w = 0, h = 0, stride = 0; NXImageType t = NX_IMAGE_GRAYSCALE; NXImageDataType d = NX_IMAGE_UCHAR; std::vector<int> v; int ext = -1; };
static int nch(NXImageType t) { return t == NX_IMAGE_RGBA ? 4 : 1; }
struct World {
    NXImage *im[2]; MI m[2];
    std::vector<std::pair<unsigned char *, size_t>> ext; // caller memory, never handed over
    int fills = 0;
    World() { im[0] = nx_image_alloc(); im[1] = nx_image_alloc(); }
    void rd(int i, std::vector<int> &out) { // read every pixel as the small integer stored
        MI &m_ = m[i]; NXImage *a = im[i]; out.clear();
        for (int y = 0; y < m_.h; ++y) for (int x = 0; x < m_.w * nch(m_.t); ++x) out.push_back(m_.d == NX_IMAGE_UCHAR ? (int)a->data.uc[y * a->row_stride + x] : (int)a->data.f32[y * a->row_stride + x]);
    }
    void fill(int i) {
        MI &m_ = m[i]; NXImage *a = im[i]; m_.v.clear(); int base = 1 + 17 * fills++ % 90;
        // the whole declared storage must be writable
        size_t n = (size_t)a->row_stride * a->height;
        for (size_t k = 0; k < n; ++k) if (m_.d == NX_IMAGE_UCHAR) a->data.uc[k] = 200; else a->data.f32[k] = 200;
        for (int y = 0; y < m_.h; ++y) for (int x = 0; x < m_.w * nch(m_.t); ++x) {
            int val = (base + y * 29 + x * 3) % 199; m_.v.push_back(val);
            if (m_.d == NX_IMAGE_UCHAR) a->data.uc[y * a->row_stride + x] = val; else a->data.f32[y * a->row_stride + x] = val;
        }
    }
    bool check(const char *op) {
        for (int i = 0; i < 2; ++i) {
            MI &e = m[i]; NXImage *a = im[i];
            if (a->width != e.w || a->height != e.h || a->type != e.t || a->dtype != e.d || a->n_channels != nch(e.t) || (e.stride >= 0 && a->row_stride != e.stride)) {
                fail("after %s image %d is %dx%d type %d/%d channels %d stride %d; expected %dx%d %d/%d %d %d", op, i, a->width, a->height, a->type, a->dtype, a->n_channels, a->row_stride, e.w, e.h, e.t, e.d, nch(e.t), e.stride);
                return false;
            }
            if (a->row_stride < a->width * a->n_channels) { fail("after %s the stride %d is shorter than a row", op, a->row_stride); return false; }
            if (e.w * e.h && (!a->data.v || a->data.v != a->mem->ptr)) { fail("after %s the data pointer is %p, the memory %p", op, a->data.v, a->mem->ptr); return false; }
            if (!(e.w * e.h) && e.stride == 0 && a->data.v && a->mem->size == 0 && !a->mem->ptr) { fail("after %s an empty image has a stale data pointer", op); return false; }
            size_t need = (size_t)a->row_stride * a->height * nx_image_bytes_per_channel(a->dtype);
            if (a->mem->size < need) { fail("after %s the storage is %zu bytes, %zu are needed", op, a->mem->size, need); return false; }
            if (!e.v.empty()) {
                std::vector<int> g; rd(i, g);
                if (g != e.v) { size_t k = 0; while (g[k] == e.v[k]) ++k; fail("after %s image %d sample %zu is %d instead of %d", op, i, k, g[k], e.v[k]); return false; }
            }
        }
        return true;
    }
    void done() {
        nx_image_free(im[0]); nx_image_free(im[1]);
        for (auto &e : ext) { for (size_t k = 0; k < e.second; ++k) (void)*(volatile unsigned char *)(e.first + k); free(e.first); }
    }
};
struct Shape { int w, h, s; NXImageType t; NXImageDataType d; };
static const Shape SH[] = {{3, 2, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR}, {3, 2, 5, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR}, {2, 3, 0, NX_IMAGE_RGBA, NX_IMAGE_FLOAT32},
                           {6, 1, 2, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32}, {0, 0, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR}, {1, 4, 9, NX_IMAGE_RGBA, NX_IMAGE_UCHAR}};
const int N_SH = 6;
// operations on image i (other is 1-i)
enum { RS0, RS5 = RS0 + N_SH - 1, LIKE, COPY, COPY0, SWAP, REL, WRAP, WRAP_RGBA, WRAPOWN, ZERO, FILL, NEWLIKE, TYPE_RGBA, TYPE_GRAY, N_OP };
static const char *ON[] = {"resize 3x2 gray", "resize 3x2 stride 5", "resize 2x3 rgba float", "resize 6x1 float, stride too small", "resize 0x0", "resize 1x4 rgba stride 9", "resize_like", "copy", "copy0", "swap", "release", "wrap", "wrap rgba padded", "wrap owned float", "set_zero", "fill", "new_like", "convert to rgba", "convert to gray"};
static bool apply(World &W, int i, int op) {
    NXImage *&a = W.im[i]; MI &m = W.m[i], &o = W.m[1 - i]; NXImage *b = W.im[1 - i];
    if (op <= RS5) {
        const Shape &s = SH[op]; bool same = m.w == s.w && m.h == s.h && m.t == s.t && m.d == s.d; int st = std::max(s.s, s.w * nch(s.t));
        if (!(same && m.stride == st)) m.v.clear();
        nx_image_resize(a, s.w, s.h, s.s, s.t, s.d); m.w = s.w; m.h = s.h; m.t = s.t; m.d = s.d; m.stride = st;
    } else switch (op) {
    case LIKE: if (!(m.w == o.w && m.h == o.h && m.t == o.t && m.d == o.d && m.stride == o.w * nch(o.t))) m.v.clear(); nx_image_resize_like(a, b); m.w = o.w; m.h = o.h; m.t = o.t; m.d = o.d; m.stride = -1; break;
    case COPY: nx_image_copy(a, b); { int x = m.ext; m = o; m.ext = x; } break;
    case COPY0: { NXImage *c = nx_image_copy0(b); nx_image_free(a); a = c; m = o; m.ext = -1; break; }
    case SWAP: nx_image_swap(a, b); std::swap(m, o); break;
    case REL: nx_image_release(a); m = MI(); break;
    case WRAP: { unsigned char *p = (unsigned char *)malloc(4 * 3); for (int k = 0; k < 12; ++k) p[k] = 100 + k; W.ext.push_back({p, 12}); nx_image_wrap(a, p, 4, 3, 4, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, NX_FALSE);
        m.w = 4; m.h = 3; m.stride = 4; m.t = NX_IMAGE_GRAYSCALE; m.d = NX_IMAGE_UCHAR; m.v.clear(); for (int k = 0; k < 12; ++k) m.v.push_back(100 + k); break; }
    case WRAP_RGBA: { unsigned char *p = (unsigned char *)malloc(22); for (int k = 0; k < 22; ++k) p[k] = 50 + k; W.ext.push_back({p, 22}); nx_image_wrap(a, p, 2, 2, 11, NX_IMAGE_RGBA, NX_IMAGE_UCHAR, NX_FALSE);
        m.w = 2; m.h = 2; m.stride = 11; m.t = NX_IMAGE_RGBA; m.d = NX_IMAGE_UCHAR; m.v.clear(); for (int y = 0; y < 2; ++y) for (int k = 0; k < 8; ++k) m.v.push_back(50 + 11 * y + k); break; }
    case WRAPOWN: { float *p = (float *)nx_xmalloc(5 * 2 * 4); for (int k = 0; k < 10; ++k) p[k] = 30 + k; nx_image_wrap(a, p, 4, 2, 5, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32, NX_TRUE);
        m.w = 4; m.h = 2; m.stride = 5; m.t = NX_IMAGE_GRAYSCALE; m.d = NX_IMAGE_FLOAT32; m.v.clear(); for (int y = 0; y < 2; ++y) for (int k = 0; k < 4; ++k) m.v.push_back(30 + 5 * y + k); break; }
    case ZERO: nx_image_set_zero(a); m.v.assign((size_t)m.w * m.h * nch(m.t), 0); break;
    case FILL: W.fill(i); break;
    case NEWLIKE: { NXImage *c = nx_image_new_like(b); nx_image_free(a); a = c; m = o; m.v.clear(); m.stride = o.w * nch(o.t); break; }
    case TYPE_RGBA: case TYPE_GRAY: {
        NXImageType t = op == TYPE_RGBA ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE;
        bool null = !a->data.v; nx_image_convert_type(a, t);
        if (m.t != t && !null) {
            if (m.t == NX_IMAGE_GRAYSCALE) { std::vector<int> v; for (int x : m.v) { v.push_back(x); v.push_back(x); v.push_back(x); v.push_back(m.d == NX_IMAGE_UCHAR ? 255 : 1); } m.v = v; }
            else m.v.clear(); // values are the business of another property
            m.t = t; m.stride = -1;
        }
        break; }
    }
    if (m.stride < 0) m.stride = a->row_stride;
    return true;
}
static void p19() {
    const int L = pick(4, 5);
    uint64_t n = 1; for (int k = 0; k < L; ++k) n *= 2 * N_OP;
    for (uint64_t id = 0; id < n; ++id) if (begin("image-histories")) {
        int ops[5]; uint64_t r = id; for (int k = 0; k < L; ++k) { ops[k] = r % (2 * N_OP); r /= 2 * N_OP; }
        describe([&] { S d; for (int k = 0; k < L; ++k) d += fmt("%s(%c); ", ON[ops[k] / 2], 'A' + ops[k] % 2); return d; });
        size_t h0 = heap();
        { World W; bool ok = true;
        nx_image_resize(W.im[0], 2, 2, 3, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); W.m[0].w = W.m[0].h = 2; W.m[0].stride = 3; W.fill(0); // A starts with pixels, B empty
        for (int k = 0; k < L && ok; ++k) { apply(W, ops[k] % 2, ops[k] / 2); ok = W.check(ON[ops[k] / 2]); step(); if (W.m[0].w * W.m[0].h && ok) state(mix(img_hash(W.im[0]), ops[k])); }
        // every image stays fully usable, and writing one does not show in the other
        if (ok) { W.fill(0); ok = W.check("the final fill of A"); }
        if (ok) { W.fill(1); W.check("the final fill of B"); }
        W.done(); }
        if (heap() != h0) fail("%ld bytes are not released", (long)(heap() - h0));
    }
    // constructors: every size
    for (int w = 0; w <= pick(40, 120); ++w) for (int h = 0; h <= pick(12, 40); ++h) if (begin("constructors")) {
        for (int k = 0; k < 8; ++k) {
            NXImageType t = (k & 1) ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; NXImageDataType d = (k & 2) ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR;
            size_t h0 = heap();
            NXImage *a = k < 4 ? nx_image_new(w, h, t, d) : k == 4 ? nx_image_new_gray_uc(w, h) : k == 5 ? nx_image_new_rgba_uc(w, h) : k == 6 ? nx_image_new_gray_f32(w, h) : nx_image_new_rgba_f32(w, h);
            step(); char nm[64]; snprintf(nm, sizeof nm, "constructor %d", k);
            if (shape_is(a, w, h, t, d, nm)) {
                for (size_t q = 0; q < (size_t)a->row_stride * h; ++q) if (d == NX_IMAGE_FLOAT32) a->data.f32[q] = q; else a->data.uc[q] = q;
                NXImage *c = nx_image_copy0(a); if (img_hash(c) != img_hash(a) || (w * h && c->data.v == a->data.v)) fail("the copy of a %dx%d image differs or shares its pixels", w, h);
                NXImage *l = (t == NX_IMAGE_GRAYSCALE) ? nx_image_new_gray(w, h, d) : nx_image_new_rgba(w, h, d); shape_is(l, w, h, t, d, "nx_image_new_gray/rgba"); nx_image_free(l);
                nx_image_free(c); state(img_hash(a));
            }
            nx_image_free(a);
            if (heap() != h0) fail("constructor %d of a %dx%d image: %ld bytes are not released", k, w, h, (long)(heap() - h0));
        }
    }
    static const int BIG[] = {63, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4097, 32767, 32769, 65535, 65536, 65537, 70001};
    for (int n : BIG) for (int tall = 0; tall < 2; ++tall) for (int k = 0; k < 4; ++k) for (int pad = 0; pad < 3; ++pad) if (begin("large-images")) {
        NXImageType t = (k & 1) ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; NXImageDataType d = (k & 2) ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR; int w = tall ? 3 : n, h = tall ? n : 3, st = w * nch(t) + pad * 5;
        describe([&] { return fmt("%dx%d type %d/%d padding %d", w, h, t, d, pad * 5); }); size_t h0 = heap(); step(4);
        NXImage *a = nx_image_alloc(); nx_image_resize(a, w, h, pad ? st : -1, t, d);
        if (shape_is(a, w, h, t, d, "resize") && a->row_stride == st) {
            auto val = [](size_t q) { return (int)((q * 31 + (q >> 8) + (q >> 16)) % 251); };
            for (size_t q = 0; q < (size_t)st * h; ++q) if (d == NX_IMAGE_FLOAT32) a->data.f32[q] = val(q); else a->data.uc[q] = val(q);
            auto same = [&](NXImage *b, const char *what) { if (!shape_is(b, w, h, t, d, what)) return; for (int y = 0; y < h; ++y) for (int x = 0; x < w * nch(t); ++x) { double g = px(b, 0, y, x); if (g != val((size_t)y * st + x)) { fail("%s of a %dx%d image: sample %d of row %d is %g", what, w, h, x, y, g); return; } } };
            NXImage *c = nx_image_copy0(a); same(c, "copy0"); NXImage *e = nx_image_new_gray_uc(5, 4); nx_image_copy(e, a); same(e, "copy"); nx_image_swap(c, a); same(a, "swap"); same(c, "swap");
            VGImage v(c, false), v2 = v.clone(); same(v2.nx_img(), "clone"); v2.create_like(v); shape_is(v2.nx_img(), w, h, t, d, "create_like");
            nx_image_set_zero(e); for (int y = 0; y < h; ++y) for (int x = 0; x < w * nch(t); ++x) if (px(e, 0, y, x) != 0) { fail("sample %d of row %d is not zeroed", x, y); y = h; break; }
            nx_image_resize(e, w + 1, h + 1, -1, t, d); shape_is(e, w + 1, h + 1, t, d, "growing"); memset(e->data.v, 1, e->mem->size); same(a, "unrelated resize");
            state(img_hash(a)); nx_image_free(c); nx_image_free(e);
        } else fail("stride %d instead of %d", a->row_stride, st);
        nx_image_free(a); if (heap() != h0) fail("%ld bytes are not released", (long)(heap() - h0));
    }
    // typed wrapping by the C++ class: caller memory stays with the caller, owned memory is released
    for (int w = 1; w <= pick(6, 12); ++w) for (int h = 1; h <= 5; ++h) for (int pad = 0; pad < 3; ++pad) for (int f = 0; f < 2; ++f) for (int rgba = 0; rgba < 2; ++rgba) for (int own = 0; own < 2; ++own) for (int next = 0; next < 5; ++next) if (begin("vg-wrap")) {
        int nc = rgba ? 4 : 1, st = w * nc + pad; size_t cnt = (size_t)st * h, h0 = heap(); void *mem = nx_xmalloc(cnt * (f ? 4 : 1)); step(2);
        describe([&] { return fmt("%dx%d %s %s pad %d %s, then %d", w, h, f ? "float" : "byte", rgba ? "rgba" : "gray", pad, own ? "owned" : "lent", next); });
        for (size_t i = 0; i < cnt; ++i) if (f) ((float *)mem)[i] = i * 0.5f; else ((uchar *)mem)[i] = i % 251;
        {
            VGImage v; v.create_gray(2, 2, VGImage::UCHAR);
            if (f) v.wrap((float *)mem, w, h, st, rgba ? VGImage::RGBA : VGImage::GRAYSCALE, VGImage::FLOAT32, own); else v.wrap((uchar *)mem, w, h, st, rgba ? VGImage::RGBA : VGImage::GRAYSCALE, VGImage::UCHAR, own);
            if (v.width() != w || v.height() != h || v.row_stride() != st || v.n_channels() != nc || v.type() != (rgba ? VGImage::RGBA : VGImage::GRAYSCALE) || v.data_type() != (f ? VGImage::FLOAT32 : VGImage::UCHAR) || (f ? (void *)v.data<float>() : (void *)v.data<uchar>()) != mem) fail("the wrapping image does not describe the memory");
            for (int y = 0; y < h; ++y) if (f ? v.data<float>(y)[w * nc - 1] != (y * st + w * nc - 1) * 0.5f : v.data<uchar>(y)[w * nc - 1] != (y * st + w * nc - 1) % 251) { fail("row %d is not the row of the wrapped memory", y); break; }
            VGImage c; c.copy_of(v); const VGImage &cc = c;
            switch (next) { case 1: v.release(); break; case 2: v.create_rgba(w + 2, h + 2, VGImage::FLOAT32); v.set_zero(); break; case 3: { VGImage o; o.swap_with(v); break; } case 4: v.copy_of(v); break; }
            for (int y = 0; y < h; ++y) for (int x = 0; x < w * nc; ++x) if (f ? cc.data<float>(y)[x] != (y * st + x) * 0.5f : cc.data<uchar>(y)[x] != (y * st + x) % 251) { fail("the copy changes with its source"); y = h; break; }
            if (cc.data<uchar>() != (const uchar *)c.nx_img()->data.v || cc.data<float>() != c.nx_img()->data.f32) fail("data() is not the pixel memory");
        }
        if (!own) { for (size_t i = 0; i < cnt; ++i) if (f ? ((float *)mem)[i] != i * 0.5f : ((uchar *)mem)[i] != i % 251) { fail("lent memory is changed"); break; } nx_free(mem); }
        if (heap() != h0) fail("%ld bytes are not released", (long)(heap() - h0)); state(mix(w * 100 + h * 10 + pad, f * 4 + rgba * 2 + own));
    }
    // the C++ class: handles share, copies do not
    for (int ops = 0; ops < 9 * 9 * 9; ++ops) if (begin("vg-image")) {
        size_t h0 = heap();
        {
            VGImage a, b; a.create_gray(3, 2, VGImage::UCHAR); for (int i = 0; i < 6; ++i) a.data<uchar>()[i] = 10 + i;
            b.create(2, 2, 9, VGImage::RGBA, VGImage::FLOAT32); for (int i = 0; i < 18; ++i) b.data<float>()[i] = 40 + i;
            std::vector<double> va, vb; auto get = [](VGImage &v) { std::vector<double> o; for (int y = 0; y < v.height(); ++y) for (int x = 0; x < v.width() * v.n_channels(); ++x) o.push_back(v.data_type() == VGImage::UCHAR ? v.data<uchar>(y)[x] : v.data<float>(y)[x]); return o; };
            va = get(a); vb = get(b);
            int o = ops; S d;
            struct M { int w, h; VGImage::Type t; VGImage::DataType d; std::vector<double> v; } A{3, 2, VGImage::GRAYSCALE, VGImage::UCHAR, va}, B{2, 2, VGImage::RGBA, VGImage::FLOAT32, vb};
            float exts[3][6] = {{1, 2, 3, 4, 5, 6}, {11, 12, 13, 14, 15, 16}, {21, 22, 23, 24, 25, 26}};
            for (int k = 0; k < 3; ++k, o /= 9) {
                switch (o % 9) {
                case 0: a.copy_of(b); A = B; break;
                case 1: b.copy_of(a); B = A; break;
                case 2: a.swap_with(b); std::swap(A, B); break;
                case 3: a.release(); A = M{0, 0, VGImage::GRAYSCALE, VGImage::UCHAR, {}}; break;
                case 4: { VGImage c = b.clone(); a = c; A = B; break; }
                case 5: a.create_like(b); A = B; for (double &x : A.v) x = 0; a.set_zero(); break;
                case 6: { float *ext = exts[k]; a.wrap(ext, 3, 2, 3, VGImage::GRAYSCALE, VGImage::FLOAT32, false); A = M{3, 2, VGImage::GRAYSCALE, VGImage::FLOAT32, {ext[0], ext[1], ext[2], ext[3], ext[4], ext[5]}}; break; }
                case 7: if (a.width()) { if (A.d == VGImage::UCHAR) a.data<uchar>(1)[0] = 99; else a.data<float>(1)[0] = 99; A.v[A.w * a.n_channels()] = 99; } break;
                case 8: { NXImage *n = nx_image_new_gray_uc(2, 2); for (int q = 0; q < 4; ++q) n->data.uc[q] = 7 + q; a.wrap(n, true); A = M{2, 2, VGImage::GRAYSCALE, VGImage::UCHAR, {7, 8, 9, 10}}; break; }
                }
                step();
                VGImage *P[2] = {&a, &b}; M *Q[2] = {&A, &B};
                for (int i = 0; i < 2; ++i) if (P[i]->width() != Q[i]->w || P[i]->height() != Q[i]->h || P[i]->type() != Q[i]->t || P[i]->data_type() != Q[i]->d) { fail("VGImage %c has the wrong shape after operations %d (step %d)", 'a' + i, ops, k); k = 9; }
                    else if (get(*P[i]) != Q[i]->v) { fail("VGImage %c has the wrong pixels after operations %d (step %d)", 'a' + i, ops, k); k = 9; }
            }
        }
        if (heap() != h0) fail("VGImage operations %d: %ld bytes are not released", ops, (long)(heap() - h0));
    }
}

// ------------------------------------------------------------------ P20
static const float AS[] = {0, 1, -1, 0.5f, 2, 0.25f, -0.5f, 3.7f, 100, 1e6f, 1e12f, -1e12f, 255};
static const float YS[] = {0, 1, -1, 0.5f, 127, 255, -255, 1e5f, 3e9f, -3e9f, 1e20f};
static void p20() {
    // axpy: every pixel value with every coefficient pair
    for (float a : AS) for (float y : YS) for (int rgba = 0; rgba < 2; ++rgba) if (begin("axpy-uchar")) {
        describe([&] { return fmt("uchar a=%g y=%g", a, y); });
        Src s(16 / (rgba ? 4 : 1), 16, 3, false, rgba, [&](int x, int yy, int c) { return yy * 16 + x * (rgba ? 4 : 1) + c; });
        nx_image_axpy(s.im, a, y); step(256);
        if (!s.padding_untouched()) fail("axpy writes outside of the pixels");
        for (int yy = 0; yy < s.h; ++yy) for (int x = 0; x < s.w; ++x) for (int c = 0; c < s.nc; ++c) {
            double e = (double)a * s.at(x, yy, c) + (double)y, g = px(s.im, x, yy, c);
            if (!trunc_ok(g, e, e, 1e-3 + std::fabs(e) * 1e-6)) { fail("%g * %g + %g becomes %g", a, s.at(x, yy, c), y, g); yy = x = 99; break; }
        }
        state(img_hash(s.im));
    }
    for (float a : AS) for (float y : YS) for (int rgba = 0; rgba < 2; ++rgba) if (begin("axpy-float")) {
        Src s(5, 4, 3, true, rgba, [&](int x, int yy, int c) { return (yy * 20 + x * 4 + c - 40) * 0.37; });
        nx_image_axpy(s.im, a, y); step(20);
        if (!s.padding_untouched()) fail("axpy writes outside of the pixels");
        for (int yy = 0; yy < 4; ++yy) for (int x = 0; x < 5; ++x) for (int c = 0; c < s.nc; ++c) {
            double e = (double)a * s.at(x, yy, c) + (double)y, g = px(s.im, x, yy, c);
            if (!near_ok(g, e, 1e-6 * (std::fabs((double)a * s.at(x, yy, c)) + std::fabs((double)y)))) { fail("%g * %g + %g becomes %g", a, s.at(x, yy, c), y, g); yy = x = 99; break; }
        }
        state(img_hash(s.im));
    }
    // shapes: every op touches exactly the pixels
    for (int w = 1; w <= pick(6, 12); ++w) for (int h = 1; h <= pick(5, 9); ++h) for (int pad = 0; pad < 3; ++pad) for (int f = 0; f < 2; ++f) for (int rgba = 0; rgba < 2; ++rgba) if (begin("axpy-shapes")) {
        Src s(w, h, pad, f, rgba, [&](int x, int y, int c) { return pattern(0, x, y, c, w, h); });
        nx_image_axpy(s.im, 0.5f, 3); step(w * h);
        if (!s.padding_untouched()) fail("axpy writes outside of the pixels of a %dx%d image", w, h);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < s.nc; ++c) { double e = 0.5 * s.at(x, y, c) + 3; if (f ? !near_ok(px(s.im, x, y, c), e, 1e-3) : px(s.im, x, y, c) != std::floor(e)) { fail("axpy misses sample (%d,%d,%d) of a %dx%d image", x, y, c, w, h); y = x = 999; break; } }
        state(img_hash(s.im));
    }
    // subtract
    for (int w0 = 1; w0 <= 5; ++w0) for (int h0 = 1; h0 <= 4; ++h0) for (int w1 = 1; w1 <= 5; ++w1) for (int h1 = 1; h1 <= 4; ++h1) for (int f = 0; f < 2; ++f) for (int dk = 0; dk < N_DEST; ++dk) if (begin("subtract")) {
        Src a(w0, h0, dk % 3, f, false, [&](int x, int y, int) { return pattern(0, x, y, 0, w0, h0); }), b(w1, h1, (dk + 1) % 3, f, false, [&](int x, int y, int) { return pattern(4, x, y, 0, w1, h1); });
        NXImage *d = dest_kind(dk, w0, h0); nx_image_subtract(d, a.im, b.im); step();
        int w = std::min(w0, w1), h = std::min(h0, h1);
        if (shape_is(d, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32, "subtract")) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (!near_ok(px(d, x, y), a.at(x, y) - b.at(x, y), 1e-4)) { fail("difference at (%d,%d) of %dx%d and %dx%d is %g instead of %g", x, y, w0, h0, w1, h1, px(d, x, y), a.at(x, y) - b.at(x, y)); y = 99; break; }
        if (!a.untouched() || !b.untouched()) fail("subtract changes its inputs");
        state(img_hash(d)); nx_image_free(d);
    }
    for (int v0 = 0; v0 < 256; v0 += pick(5, 1)) if (begin("subtract-values")) {
        Src a(16, 16, 1, false, false, [&](int, int, int) { return v0; }), b(16, 16, 0, false, false, [&](int x, int y, int) { return y * 16 + x; });
        NXImage *d = nx_image_alloc(); nx_image_subtract(d, a.im, b.im); step(256);
        for (int k = 0; k < 256; ++k) if (px(d, k % 16, k / 16) != v0 - k) { fail("%d - %d becomes %g", v0, k, px(d, k % 16, k / 16)); break; }
        state(v0); nx_image_free(d);
    }
    // normalize: every image of up to n samples over a value set
    static const double NV[] = {-2, -0.5, 0, 0.25, 1, 3e5};
    for (int n = 1; n <= pick(5, 6); ++n) { uint64_t N = 1; for (int k = 0; k < n; ++k) N *= 6;
        for (double unit : {1.0, 1e-8, 1e-25, 1e25}) for (uint64_t id = 0; id < N; ++id) for (int sym = 0; sym < 2; ++sym) if ((unit == 1 || n <= pick(4, 5)) && begin("normalize")) {
            std::vector<double> v; uint64_t r = id; for (int k = 0; k < n; ++k) { v.push_back(NV[r % 6] * unit); r /= 6; }
            describe([&] { S d = sym ? "symmetric" : "plain"; for (double x : v) d += fmt(" %g", x); return d; });
            int w = n % 2 ? n : n / 2, h = n % 2 ? 1 : 2;
            Src s(w, h, 2, true, false, [&](int x, int y, int) { return v[y * w + x]; });
            nx_image_normalize_to_zero_one(s.im, sym ? NX_TRUE : NX_FALSE); step();
            double mn = *std::min_element(v.begin(), v.end()), mx = *std::max_element(v.begin(), v.end()), t = std::max(std::fabs(mn), std::fabs(mx));
            for (int k = 0; k < n; ++k) { double e = mn == mx ? 0 : sym ? v[k] / (2 * t) + 0.5 : (v[k] - mn) / (mx - mn), g = px(s.im, k % w, k / w); if (!near_ok(g, e, 1e-5) || g < 0 || g > 1) { fail("normalized sample %d is %.9g instead of %.9g", k, g, e); break; } }
            if (!s.padding_untouched()) fail("normalizing writes outside of the pixels");
            state(img_hash(s.im));
        } }
    for (int w = 1; w <= 4; ++w) for (int h = 1; h <= 4; ++h) for (int mxp = 0; mxp < w * h * 4; ++mxp) for (int sym = 0; sym < 2; ++sym) if (begin("normalize-rgba")) {
        int mnp = (mxp + 1 + mxp % 3) % (w * h * 4);
        Src s(w, h, 3, true, true, [&](int x, int y, int c) { int k = (y * w + x) * 4 + c; return k == mxp ? 9.0 : k == mnp ? -6.0 : 1.5; });
        nx_image_normalize_to_zero_one(s.im, sym ? NX_TRUE : NX_FALSE); step();
        for (int k = 0; k < w * h * 4; ++k) { double v = k == mxp ? 9 : k == mnp ? -6 : 1.5, e = sym ? v / 18 + 0.5 : (v + 6) / 15; if (!near_ok(px(s.im, k / 4 % w, k / 4 / w, k % 4), e, 1e-5)) { fail("rgba normalized sample %d is %g instead of %g", k, px(s.im, k / 4 % w, k / 4 / w, k % 4), e); break; } }
        if (!s.padding_untouched()) fail("normalizing writes outside of the pixels");
        state(img_hash(s.im));
    }
    // data type conversion: every value
    for (int dk = 0; dk < N_DEST; ++dk) for (int pad = 0; pad < 3; ++pad) if (begin("to-float")) {
        Src s(16, 16, pad, false, false, [&](int x, int y, int) { return y * 16 + x; });
        NXImage *d = dest_kind(dk, 16, 16); d->dtype = NX_IMAGE_FLOAT32; if (!d->mem->ptr) {} nx_image_free(d);
        d = nx_image_new_gray_f32(dk * 3, dk); nx_image_convert_dtype(d, s.im); step(256);
        if (shape_is(d, 16, 16, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32, "conversion to float")) for (int k = 0; k < 256; ++k) if (!near_ok(px(d, k % 16, k / 16), k / 255.0, 1e-6)) { fail("%d becomes %g", k, px(d, k % 16, k / 16)); break; }
        if (!s.untouched()) fail("conversion changes its input");
        // and back: the same values up to the truncation of the product
        NXImage *u = nx_image_new_gray_uc(1, 1); nx_image_convert_dtype(u, d);
        for (int k = 0; k < 256; ++k) if (!trunc_ok(px(u, k % 16, k / 16), k, k)) { fail("%d becomes %g after a round trip", k, px(u, k % 16, k / 16)); break; }
        // same data type: a copy
        NXImage *c = nx_image_new_gray_uc(0, 0); nx_image_convert_dtype(c, s.im); if (img_hash(c) != img_hash(s.im)) fail("conversion to the same data type does not copy");
        if (c->data.v == s.im->data.v) fail("conversion to the same data type shares the pixels");
        state(mix(dk, pad)); nx_image_free(c); nx_image_free(u); nx_image_free(d);
    }
    static const double FV[] = {-1e30, -3e9, -5, -1, -0.5, -1e-9, 0, 1e-9, 0.001, 0.00392, 0.003922, 0.25, 0.5, 0.75, 0.996, 0.9999, 1, 1.0001, 1.004, 1.5, 2, 255, 8421505, 1.7e7, 3e9, 1e30};
    for (int i = 0; i < (int)(sizeof FV / sizeof *FV); ++i) for (int w = 1; w <= pick(5, 9); ++w) for (int h = 1; h <= 3; ++h) if (begin("to-uchar")) {
        Src s(w, h, w % 3, true, false, [&](int x, int y, int) { return FV[(i + x * 7 + y * 11) % (sizeof FV / sizeof *FV)]; });
        NXImage *d = nx_image_new_gray_uc(h, w); nx_image_convert_dtype(d, s.im); step(w * h);
        if (shape_is(d, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, "conversion to uchar")) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double e = s.at(x, y) * 255; if (!trunc_ok(px(d, x, y), e, e, 1e-4 + std::fabs(e) * 1e-6)) { fail("%g becomes %g", s.at(x, y), px(d, x, y)); y = 99; break; } }
        if (!s.untouched()) fail("conversion changes its input");
        state(img_hash(d)); nx_image_free(d);
    }
    for (int k = 0; k < pick(20000, 300000); k += 100) if (begin("to-uchar-sweep")) {
        Src s(10, 10, 1, true, false, [&](int x, int y, int) { return (k + y * 10 + x) / (double)pick(18000, 280000); });
        NXImage *d = nx_image_new_gray_uc(1, 1); nx_image_convert_dtype(d, s.im); step(100);
        for (int y = 0; y < 10; ++y) for (int x = 0; x < 10; ++x) if (!trunc_ok(px(d, x, y), s.at(x, y) * 255, s.at(x, y) * 255)) { fail("%.9g becomes %g", s.at(x, y), px(d, x, y)); y = 99; break; }
        state(img_hash(d)); nx_image_free(d);
    }
    // image type conversion: shapes
    for (int w = 1; w <= pick(6, 12); ++w) for (int h = 1; h <= pick(5, 9); ++h) for (int pad = 0; pad < 3; ++pad) for (int f = 0; f < 2; ++f) for (int to = 0; to < 2; ++to) for (int from = 0; from < 2; ++from) for (int own = 0; own < 2; ++own) if (begin("type-conversion")) {
        Src s(w, h, pad, f, from, [&](int x, int y, int c) { return f ? pattern(0, x, y, c, w, h) / 255 : pattern(0, x, y, c, w, h); });
        NXImage *d = own ? nx_image_copy0(s.im) : s.im;
        nx_image_convert_type(d, to ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE); step();
        if (shape_is(d, w, h, to ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR, "type conversion")) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < (to ? 4 : 1); ++c) {
            double g = px(d, x, y, c), e; bool ok;
            if (from == to) ok = g == s.at(x, y, c), e = s.at(x, y, c);
            else if (to) { e = c == 3 ? (f ? 1 : 255) : s.at(x, y); ok = g == e; }
            else { e = 0.3 * s.at(x, y, 0) + 0.59 * s.at(x, y, 1) + 0.11 * s.at(x, y, 2); ok = f ? near_ok(g, e, 1e-5) : trunc_ok(g, e, e); }
            if (!ok) { fail("type conversion %d->%d: sample (%d,%d,%d) of %dx%d is %g instead of %g", from, to, x, y, c, w, h, g, e); y = x = 999; break; }
        }
        state(img_hash(d)); if (own) { nx_image_free(d); if (!s.untouched()) fail("conversion of a copy changes the original"); }
    }
    // the C++ methods are these operations
    for (int w = 1; w <= pick(5, 9); ++w) for (int h = 1; h <= 4; ++h) for (int pad = 0; pad < 3; ++pad) for (int f = 0; f < 2; ++f) for (int rgba = 0; rgba < 2; ++rgba) for (int op = 0; op < 6; ++op) if ((f || op < 2 || op > 3) && begin("vg-methods")) {
        describe([&] { return fmt("operation %d on %dx%d %s %s pad %d", op, w, h, f ? "float" : "byte", rgba ? "rgba" : "gray", pad); });
        Src s(w, h, pad, f, rgba, [&](int x, int y, int c) { return f ? pattern(0, x, y, c, w, h) / 64 - 1.5 : pattern(0, x, y, c, w, h); });
        VGImage v(s.im, false), c = v.clone(); NXImage *e = nx_image_copy0(s.im); step();
        VGImage &r = op == 0 ? c.convert_type_to(VGImage::GRAYSCALE) : op == 1 ? c.convert_type_to(VGImage::RGBA) : op == 2 ? c.normalize_to_zero_one(false) : op == 3 ? c.normalize_to_zero_one(true) : op == 4 ? c.axpy(0.75f, 20) : c.axpy(-2, 300);
        if (op < 2) nx_image_convert_type(e, op ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE); else if (op < 4) nx_image_normalize_to_zero_one(e, op == 3 ? NX_TRUE : NX_FALSE); else nx_image_axpy(e, op == 4 ? 0.75f : -2, op == 4 ? 20 : 300);
        if (&r != &c) fail("the method does not return its image");
        if (img_hash(c.nx_img()) != img_hash(e) || c.nx_img()->type != e->type) fail("the C++ method and the C function give different images");
        if (!s.untouched()) fail("the method changes the image the copy was taken from");
        state(img_hash(e)); nx_image_free(e);
    }
    // large images, one dimension at a time: every loop must reach the last pixel and stop there
    static const int BIG[] = {63, 64, 65, 127, 129, 255, 256, 257, 511, 513, 640, 1000, 1023, 1025, 2047, 2049, 4097, 8193, 70000};
    for (int n : BIG) for (int tall = 0; tall < 2; ++tall) for (int f = 0; f < 2; ++f) for (int rgba = 0; rgba < 2; ++rgba) for (int op = 0; op < 5; ++op) if (begin("large-images")) {
        int w = tall ? 2 : n, h = tall ? n : 2; describe([&] { return fmt("operation %d on %dx%d %s %s", op, w, h, f ? "float" : "byte", rgba ? "rgba" : "gray"); });
        if ((op == 2 || op == 3) && rgba) continue;
        auto fn = [&](int x, int y, int c) { double v = (x * 7 + y * 13 + c * 5 + (x >> 8) + (y >> 8)) % 251; return f ? v / 256 : v; };
        Src s(w, h, n % 3, f, rgba, fn); step();
        auto chk = [&](NXImage *d, int nc, const std::function<double(int, int, int)> &e, bool df, const char *what) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < nc; ++c) { double g = px(d, x, y, c), v = e(x, y, c); if (df ? !near_ok(g, v, 1e-4) : !trunc_ok(g, v, v, 1e-3)) { fail("%s of a %dx%d image: sample (%d,%d,%d) is %g instead of %g", what, w, h, x, y, c, g, v); return; } } };
        if (op == 0) { nx_image_axpy(s.im, 0.5f, f ? 0.25f : 3); chk(s.im, s.nc, [&](int x, int y, int c) { return 0.5 * s.at(x, y, c) + (f ? 0.25 : 3); }, f, "axpy"); if (!s.padding_untouched()) fail("axpy writes outside of the pixels"); }
        else if (op == 1) { NXImage *d = nx_image_copy0(s.im); nx_image_convert_type(d, rgba ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA);
            if (shape_is(d, w, h, rgba ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR, "type conversion")) chk(d, rgba ? 1 : 4, [&](int x, int y, int c) { return rgba ? 0.3 * s.at(x, y, 0) + 0.59 * s.at(x, y, 1) + 0.11 * s.at(x, y, 2) : c == 3 ? (f ? 1.0 : 255.0) : s.at(x, y); }, f, "type conversion"); nx_image_free(d); }
        else if (op == 2) { NXImage *d = nx_image_new(1, 1, NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_UCHAR : NX_IMAGE_FLOAT32); nx_image_convert_dtype(d, s.im);
            if (shape_is(d, w, h, NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_UCHAR : NX_IMAGE_FLOAT32, "data conversion")) chk(d, 1, [&](int x, int y, int) { return f ? s.at(x, y) * 255 : s.at(x, y) / 255; }, !f, "data conversion"); nx_image_free(d); }
        else if (op == 3) { Src b(w + 3, h + 1, 2, f, false, [&](int x, int y, int) { double v = (x * 3 + y * 29) % 241; return f ? v / 256 : v; }); NXImage *d = nx_image_alloc(); nx_image_subtract(d, s.im, b.im);
            if (shape_is(d, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32, "subtract")) chk(d, 1, [&](int x, int y, int) { return s.at(x, y) - b.at(x, y); }, true, "subtract"); nx_image_free(d); }
        else if (f) { // the extreme values in the last samples
            float *q = (float *)s.buf; size_t l = (size_t)(h - 1) * s.stride + w * s.nc - 1; q[l] = 9; q[l - 1] = -6; nx_image_normalize_to_zero_one(s.im, NX_FALSE);
            chk(s.im, s.nc, [&](int x, int y, int c) { int k = (y * w + x) * s.nc + c, N = w * h * s.nc; if (k == N - 1) return 1.0; if (k == N - 2) return 0.0; return (s.at(x, y, c) + 6) / 15; }, true, "normalize"); if (!s.padding_untouched()) fail("normalizing writes outside of the pixels"); }
        state(img_hash(s.im));
    }
}

// ------------------------------------------------------------------ P32
static void cm_ref(NXColorMap m, double v, double *lo, double *hi) {
    const float (*t)[3] = nullptr; int n = 0;
    switch (m) {
    case NX_COLOR_MAP_VIRIDIS: t = ref_cmap_viridis; n = ref_cmap_viridis_size; break;
    case NX_COLOR_MAP_PLASMA: t = ref_cmap_plasma; n = ref_cmap_plasma_size; break;
    case NX_COLOR_MAP_MAGMA: t = ref_cmap_magma; n = ref_cmap_magma_size; break;
    case NX_COLOR_MAP_CUBEHELIX: t = ref_cmap_cubehelix; n = ref_cmap_cubehelix_size; break;
    default: break;
    }
    for (int c = 0; c < 3; ++c) {
        double e;
        if (!t) e = v; else { double p = (n - 1) * v; int k = (int)p; if (k >= n - 1) e = t[n - 1][c]; else { double a = p - k; e = (1 - a) * t[k][c] + a * t[k + 1][c]; } }
        lo[c] = e * 255 - 4e-3; hi[c] = e * 255 + 4e-3;
    }
}
static void p32() {
    // grayscale of every colour
    for (int r = 0; r < 256; ++r) if (begin("gray-of-colour")) {
        describe([&] { return fmt("all colours with red %d", r); });
        int prev_row[256]; memset(prev_row, 0, sizeof prev_row);
        for (int g = 0; g < 256; ++g) for (int b = 0; b < 256; ++b) {
            int y = nx_rgb_to_gray_uc(r, g, b), n = 30 * r + 59 * g + 11 * b, e = n / 100;
            if (y != e && !(n % 100 == 0 && y == e - 1)) { fail("gray of (%d,%d,%d) is %d instead of %d", r, g, b, y, e); g = 999; break; }
            if (r == g && g == b && std::abs(y - r) > 1) fail("gray %d becomes %d", r, y);
        }
        step(65536); state(r);
    }
    static const double GV[] = {-1e6, -1, -0.01, 0, 0.004, 0.1, 0.25, 0.5, 0.75, 0.99, 1, 1.01, 1.5, 2, 1e6};
    for (double r : GV) for (double g : GV) for (double b : GV) if (begin("gray-of-float-colour")) {
        double e = 0.3 * (float)r + 0.59 * (float)g + 0.11 * (float)b, y = nx_rgb_to_gray_f32(r, g, b); e = e < 0 ? 0 : e > 1 ? 1 : e; step();
        double m = std::max({std::fabs(r), std::fabs(g), std::fabs(b), 1.0});
        if (!near_ok(y, e, 1e-5 * (m > 1e5 ? m : 1)) || y < 0 || y > 1) fail("gray of (%g,%g,%g) is %.9g instead of %.9g", r, g, b, y, e);
        state(hash_bytes(&y, 8));
    }
    // strided conversion routines, in exactly sized buffers
    for (int w = 1; w <= pick(5, 9); ++w) for (int h = 1; h <= pick(4, 7); ++h) for (int p0 = 0; p0 < 3; ++p0) for (int p1 = 0; p1 < 3; ++p1) for (int f = 0; f < 2; ++f) for (int dir = 0; dir < 2; ++dir) if (begin("strided-conversion")) {
        Src s(w, h, p0, f, dir == 0, [&](int x, int y, int c) { return f ? pattern(4, x, y, c, w, h) / 255 : pattern(4, x, y, c, w, h); });
        int nc = dir == 0 ? 1 : 4, st = w * nc + p1, last = (h - 1) * st + w * nc; // the last row needs no padding
        std::vector<float> df(last, -3); std::vector<uchar> du(last, 0xC3);
        float *fb = (float *)malloc(last * 4); uchar *ub = (uchar *)malloc(last); memcpy(fb, df.data(), last * 4); memcpy(ub, du.data(), last);
        if (f) { if (dir == 0) nx_convert_rgba_to_gray_f32(w, h, fb, st, (float *)s.buf, s.stride); else nx_convert_gray_to_rgba_f32(w, h, fb, st, (float *)s.buf, s.stride); }
        else { if (dir == 0) nx_convert_rgba_to_gray_uc(w, h, ub, st, (uchar *)s.buf, s.stride); else nx_convert_gray_to_rgba_uc(w, h, ub, st, (uchar *)s.buf, s.stride); }
        step();
        for (int k = 0; k < last; ++k) {
            int y = k / st, x = k % st; double g = f ? fb[k] : ub[k], e; bool ok;
            if (x >= w * nc) e = f ? -3 : 0xC3, ok = g == e;
            else if (dir == 1) { e = x % 4 == 3 ? (f ? 1 : 255) : s.at(x / 4, y); ok = g == e; }
            else { e = 0.3 * s.at(x, y, 0) + 0.59 * s.at(x, y, 1) + 0.11 * s.at(x, y, 2); ok = f ? near_ok(g, e, 1e-5) : trunc_ok(g, e, e); }
            if (!ok) { fail("conversion of a %dx%d image: element %d of row %d is %g instead of %g", w, h, x, y, g, e); break; }
        }
        if (!s.untouched()) fail("conversion changes its input");
        state(mix(hash_bytes(fb, last * 4), hash_bytes(ub, last))); free(fb); free(ub);
    }
    // colour maps
    static const NXColorMap M[] = {NX_COLOR_MAP_GRAY, NX_COLOR_MAP_VIRIDIS, NX_COLOR_MAP_PLASMA, NX_COLOR_MAP_MAGMA, NX_COLOR_MAP_CUBEHELIX};
    static const VGColorMap::Type VM[] = {VGColorMap::GRAY, VGColorMap::VIRIDIS, VGColorMap::PLASMA, VGColorMap::MAGMA, VGColorMap::CUBEHELIX};
    const int NS = pick(20000, 400000);
    for (int m = 0; m < 5; ++m) for (int k0 = 0; k0 <= NS; k0 += 500) if (begin("colour-maps")) {
        describe([&] { return fmt("map %d values from %d/%d", m, k0, NS); });
        for (int k = k0; k < k0 + 500 && k <= NS; ++k) {
            float v = k / (float)NS; double lo[3], hi[3]; uchar c[5] = {9, 9, 9, 9, 9}; cm_ref(M[m], v, lo, hi); step();
            nx_color_map_apply(c + 1, c + 2, c + 3, v, M[m]);
            for (int q = 0; q < 3; ++q) if (!trunc_ok(c[1 + q], lo[q], hi[q], 0)) { fail("map %d at %.9g: component %d is %d, not between %g and %g", m, v, q, c[1 + q], lo[q], hi[q]); k = NS + 1; break; }
            if (c[0] != 9 || c[4] != 9) fail("map %d writes elsewhere", m);
            VGColor vc = VGColorMap::apply(VM[m], v);
            if (k <= NS && (std::fabs(vc.r() * 255 - c[1]) > 1e-6 || std::fabs(vc.g() * 255 - c[2]) > 1e-6 || std::fabs(vc.b() * 255 - c[3]) > 1e-6 || vc.a() != 1)) { fail("VGColorMap gives (%g,%g,%g,%g) for (%d,%d,%d)", vc.r(), vc.g(), vc.b(), vc.a(), c[1], c[2], c[3]); break; }
        }
        state(mix(m, k0));
    }
    for (int m = 0; m < 5; ++m) for (int w = 1; w <= pick(5, 9); ++w) for (int h = 1; h <= 4; ++h) for (int f = 0; f < 2; ++f) for (int dk = 0; dk < N_DEST; ++dk) if (begin("colour-map-images")) {
        Src s(w, h, dk % 3, f, false, [&](int x, int y, int) { return f ? pattern(0, x, y, 0, w, h) / 255 : pattern(0, x, y, 0, w, h); });
        NXImage *d = dest_kind(dk, w, h); nx_image_apply_colormap(d, s.im, M[m]); step();
        if (shape_is(d, w, h, NX_IMAGE_RGBA, NX_IMAGE_UCHAR, "colour map")) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            double lo[3], hi[3]; cm_ref(M[m], f ? s.at(x, y) : s.at(x, y) / 255, lo, hi);
            for (int c = 0; c < 4; ++c) if (c == 3 ? px(d, x, y, 3) != 255 : !trunc_ok(px(d, x, y, c), lo[c], hi[c], 0)) { fail("map %d: pixel (%d,%d) component %d is %g", m, x, y, c, px(d, x, y, c)); y = x = 99; break; }
        }
        if (!s.untouched()) fail("applying a colour map changes its input");
        VGImage vd, vs(s.im, false); vd.apply_colormap(vd, vs, VM[m]); if (img_hash(vd.nx_img()) != img_hash(d)) fail("VGImage::apply_colormap gives a different image");
        VGImage other; vd.release(); other.apply_colormap(vd, vs, VM[m]); if (img_hash(vd.nx_img()) != img_hash(d) || other.width()) fail("VGImage::apply_colormap writes to the wrong image");
        state(img_hash(d)); nx_image_free(d);
    }
    static const int BIG[] = {31, 64, 127, 129, 255, 257, 513, 1025, 4097, 66000};
    for (int n : BIG) for (int tall = 0; tall < 2; ++tall) for (int f = 0; f < 2; ++f) for (int dir = 0; dir < 2; ++dir) for (int pad = 0; pad < 3; ++pad) if (begin("large-conversions")) {
        int w = tall ? 3 : n, h = tall ? n : 3; describe([&] { return fmt("%dx%d %s, %s, padding %d", w, h, f ? "float" : "byte", dir ? "gray to colour" : "colour to gray", pad); });
        Src s(w, h, pad, f, dir == 0, [&](int x, int y, int c) { int v = (x * 7 + y * 13 + c * 59 + (x >> 8) + (y >> 8)) % 256; return f ? v / 255.0 : v; });
        int nc = dir == 0 ? 1 : 4, st = w * nc + 2 * pad; size_t last = (size_t)(h - 1) * st + w * nc; float *fb = (float *)malloc(last * 4); uchar *ub = (uchar *)malloc(last); for (size_t i = 0; i < last; ++i) fb[i] = -3, ub[i] = 0xC3; step();
        if (f) { if (dir == 0) nx_convert_rgba_to_gray_f32(w, h, fb, st, (float *)s.buf, s.stride); else nx_convert_gray_to_rgba_f32(w, h, fb, st, (float *)s.buf, s.stride); }
        else { if (dir == 0) nx_convert_rgba_to_gray_uc(w, h, ub, st, (uchar *)s.buf, s.stride); else nx_convert_gray_to_rgba_uc(w, h, ub, st, (uchar *)s.buf, s.stride); }
        for (int y = 0; y < h; ++y) for (int x = 0; x < st && (size_t)y * st + x < last; ++x) { double g = f ? fb[(size_t)y * st + x] : ub[(size_t)y * st + x], e; bool ok;
            if (x >= w * nc) ok = g == (e = f ? -3 : 0xC3);
            else if (dir == 0) { double v = 0.3 * s.at(x, y, 0) + 0.59 * s.at(x, y, 1) + 0.11 * s.at(x, y, 2); e = v; ok = f ? near_ok(g, v, 1e-5) : trunc_ok(g, v, v, 1e-3); }
            else { e = x % 4 == 3 ? (f ? 1 : 255) : s.at(x / 4, y); ok = g == (f ? (float)e : e); }
            if (!ok) { fail("row %d element %d is %g instead of %g", y, x, g, e); y = h; break; } }
        if (!s.untouched()) fail("the conversion changes its input");
        state(hash_bytes(f ? (void *)fb : (void *)ub, f ? last * 4 : last)); free(fb); free(ub);
    }
    for (int n : BIG) for (int tall = 0; tall < 2; ++tall) for (int f = 0; f < 2; ++f) for (int m = 0; m < 5; ++m) if (begin("large-images")) {
        int w = tall ? 2 : n, h = tall ? n : 2; describe([&] { return fmt("map %d of a %dx%d %s image", m, w, h, f ? "float" : "byte"); });
        Src s(w, h, n % 3, f, false, [&](int x, int y, int) { int v = (x * 7 + y * 13 + (x >> 8) + (y >> 8)) % 256; return f ? v / 255.0 : v; });
        NXImage *d = nx_image_alloc(); nx_image_apply_colormap(d, s.im, M[m]); step();
        if (shape_is(d, w, h, NX_IMAGE_RGBA, NX_IMAGE_UCHAR, "colour map")) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            double lo[3], hi[3]; cm_ref(M[m], f ? s.at(x, y) : s.at(x, y) / 255, lo, hi);
            for (int c = 0; c < 4; ++c) if (c == 3 ? px(d, x, y, 3) != 255 : !trunc_ok(px(d, x, y, c), lo[c], hi[c], 0)) { fail("map %d: pixel (%d,%d) component %d is %g", m, x, y, c, px(d, x, y, c)); y = h; x = w; break; }
        }
        if (!s.untouched()) fail("applying a colour map changes its input");
        state(img_hash(d)); nx_image_free(d);
    }
}

void mc_run() {
    S p = PROP;
    if (p == "P19") p19();
    else if (p == "P20") p20();
    else if (p == "P32") p32();
}
