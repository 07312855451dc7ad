// P35: drawing on images, PDF and SVG files, and annotated images
#include "image_model.hh"
#include <cairo/cairo.h>
#include <cairo/cairo-pdf.h>
#include <cairo/cairo-svg.h>
#include <memory>
#include <regex>
extern "C" {
#include "virg/nexus/nx_gc.h"
#include "virg/nexus/nx_keypoint.h"
}
#include "virg/nexus/vg_graphics_context.hpp"
#include "virg/nexus/vg_image_annotator.hpp"
using namespace mc; typedef std::string S; using namespace virg::nexus;
// documents carry the time of their creation: it stands still (this definition replaces the C library's for cairo)
extern "C" struct tm *localtime_r(const time_t *, struct tm *r) { static const time_t t0 = 0; return gmtime_r(&t0, r); }

// ---- the reference: the documented operations on a cairo context; on pictures its blue is our red and the
// other way round, as the order of the bytes is (so that subpixel text agrees too)
struct Ref {
    int w = 0, h = 0; std::vector<unsigned char> buf; cairo_surface_t *s = nullptr; cairo_t *c = nullptr;
    void start() { c = cairo_create(s); cairo_select_font_face(c, "sans-serif", CAIRO_FONT_SLANT_NORMAL, CAIRO_FONT_WEIGHT_NORMAL); cairo_set_antialias(c, CAIRO_ANTIALIAS_BEST); cairo_set_source_rgba(c, 0, 0, 0, 1); }
    Ref(int w, int h, const std::function<int(int, int, int)> &rgba) : w(w), h(h), buf((size_t)w * h * 4) {
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int k = 0; k < 4; ++k) buf[((size_t)y * w + x) * 4 + k] = rgba(x, y, k);
        s = cairo_image_surface_create_for_data(buf.data(), CAIRO_FORMAT_ARGB32, w, h, w * 4); start();
    }
    Ref(const S &file, double w, double h, bool pdf) { s = pdf ? cairo_pdf_surface_create(file.c_str(), w, h) : cairo_svg_surface_create(file.c_str(), w, h); start(); }
    Ref(const Ref &) = delete;
    ~Ref() { cairo_destroy(c); cairo_surface_destroy(s); }
    int at(int x, int y, int k) { cairo_surface_flush(s); return buf[((size_t)y * w + x) * 4 + k]; }
    void col(double r, double g, double b, double a) { if (buf.empty()) cairo_set_source_rgba(c, r, g, b, a); else cairo_set_source_rgba(c, b, g, r, a); }
};
static const double DASH[] = {3, 1.5, 0.5};
// ---- the same operations through the three interfaces
struct Cn { NXGC *g; };
struct Vg { VGGraphicsContext *g; };
enum Op { COLOR_A, COLOR_B, COLOR_C, WIDTH_A, WIDTH_B, DASH_0, DASH_2, DASH_3, NEWPATH, STROKE, FILL, CLEAR, FLUSH, MOVE, LINETO, RMOVE, RLINE, LINE, RECT, ARC, CIRCLE, CURVETO, RCURVE, CURVE, TEXT, TEXTSIZE, N_OP };
static const char *NAME[] = {"color(.9,.3,.1,1)", "color(.1,.4,1,.5)", "color(0,1,0,1)", "width 1", "width 3.5", "no dash", "dash 3 1.5 @1", "dash of 3", "new_path", "stroke", "fill", "clear", "flush", "move_to", "line_to", "rel_move_to", "rel_line_to", "line", "rectangle", "arc", "circle", "curve_to", "rel_curve_to", "curve", "text", "text size"};
static double ext[2];
static void run(Cn r, int op) {
    NXGC *g = r.g; double d[3] = {DASH[0], DASH[1], DASH[2]};
    switch (op) {
    case COLOR_A: nx_gc_set_color(g, .9, .3, .1, 1); break; case COLOR_B: nx_gc_set_color(g, .1, .4, 1, .5); break; case COLOR_C: nx_gc_set_color(g, 0, 1, 0, 1); break;
    case WIDTH_A: nx_gc_set_line_width(g, 1); break; case WIDTH_B: nx_gc_set_line_width(g, 3.5); break;
    case DASH_0: nx_gc_set_line_dash(g, 0, d, 0); break; case DASH_2: nx_gc_set_line_dash(g, 2, d, 1); break; case DASH_3: nx_gc_set_line_dash(g, 3, d, 0.25); break;
    case NEWPATH: nx_gc_new_path(g); break; case STROKE: nx_gc_stroke(g); break; case FILL: nx_gc_fill(g); break; case CLEAR: nx_gc_clear(g); break; case FLUSH: nx_gc_flush(g); break;
    case MOVE: nx_gc_move_to(g, 3.25, 8); break; case LINETO: nx_gc_line_to(g, 10, 2.5); break; case RMOVE: nx_gc_rel_move_to(g, 2, -3); break; case RLINE: nx_gc_rel_line_to(g, -4, 3.5); break;
    case LINE: nx_gc_line(g, 1, 2, 11, 7.5); break; case RECT: nx_gc_rectangle(g, 2.5, 1, 6, 4.75); break; case ARC: nx_gc_arc(g, 6, 5, 3.5, 0.4, 2.9); break; case CIRCLE: nx_gc_circle(g, 7, 6, 2.75); break;
    case CURVETO: nx_gc_curve_to(g, 11, 8, 2, 1, 9, 0.5); break; case RCURVE: nx_gc_rel_curve_to(g, 4, -2, 1, 3.5, 3, 1); break; case CURVE: nx_gc_curve(g, 1, 9, 12, 3, 3, 0.5, 8, 9.5); break;
    case TEXT: nx_gc_draw_text(g, 2, 8, "Ag", 7); break; case TEXTSIZE: nx_gc_set_text_size(g, "xW", 9, &ext[0], &ext[1]); break;
    }
}
static void run(Vg r, int op) {
    VGGraphicsContext &g = *r.g; double d[3] = {DASH[0], DASH[1], DASH[2]};
    switch (op) {
    case COLOR_A: g.set_color(.9, .3, .1, 1); break; case COLOR_B: g.set_color(VGColor(.1, .4, 1, .5)); break; case COLOR_C: g.set_color(VGColor::green()); break;
    case WIDTH_A: g.set_line_width(1); break; case WIDTH_B: g.set_line_width(3.5); break;
    case DASH_0: g.set_line_dash(0, d, 0); break; case DASH_2: g.set_line_dash(2, d, 1); break; case DASH_3: g.set_line_dash(3, d, 0.25); break;
    case NEWPATH: g.new_path(); break; case STROKE: g.stroke(); break; case FILL: g.fill(); break; case CLEAR: g.clear(); break; case FLUSH: g.flush(); break;
    case MOVE: g.move_to(3.25, 8); break; case LINETO: g.line_to(10, 2.5); break; case RMOVE: g.rel_move_to(2, -3); break; case RLINE: g.rel_line_to(-4, 3.5); break;
    case LINE: g.line(1, 2, 11, 7.5); break; case RECT: g.rectangle(2.5, 1, 6, 4.75); break; case ARC: g.arc(6, 5, 3.5, 0.4, 2.9); break; case CIRCLE: g.circle(7, 6, 2.75); break;
    case CURVETO: g.curve_to(11, 8, 2, 1, 9, 0.5); break; case RCURVE: g.rel_curve_to(4, -2, 1, 3.5, 3, 1); break; case CURVE: g.curve(1, 9, 12, 3, 3, 0.5, 8, 9.5); break;
    case TEXT: g.draw_text(2, 8, "Ag", 7); break; case TEXTSIZE: g.set_text_size("xW", 9, &ext[0], &ext[1]); break;
    }
}
static void run(Ref &r, int op) {
    cairo_t *c = r.c; cairo_text_extents_t e;
    switch (op) {
    case COLOR_A: r.col(.9, .3, .1, 1); break; case COLOR_B: r.col(.1, .4, 1, .5); break; case COLOR_C: r.col(0, 1, 0, 1); break;
    case WIDTH_A: cairo_set_line_width(c, 1); break; case WIDTH_B: cairo_set_line_width(c, 3.5); break;
    case DASH_0: cairo_set_dash(c, DASH, 0, 0); break; case DASH_2: cairo_set_dash(c, DASH, 2, 1); break; case DASH_3: cairo_set_dash(c, DASH, 3, 0.25); break;
    case NEWPATH: cairo_new_path(c); break; case STROKE: cairo_stroke(c); break; case FILL: cairo_fill(c); break; case CLEAR: cairo_paint(c); break; case FLUSH: cairo_surface_flush(r.s); break;
    case MOVE: cairo_move_to(c, 3.25, 8); break; case LINETO: cairo_line_to(c, 10, 2.5); break; case RMOVE: cairo_rel_move_to(c, 2, -3); break; case RLINE: cairo_rel_line_to(c, -4, 3.5); break;
    case LINE: cairo_move_to(c, 1, 2); cairo_line_to(c, 11, 7.5); break; case RECT: cairo_rectangle(c, 2.5, 1, 6, 4.75); break; case ARC: cairo_arc(c, 6, 5, 3.5, 0.4, 2.9); break; case CIRCLE: cairo_arc(c, 7, 6, 2.75, 0, 2 * M_PI); break;
    case CURVETO: cairo_curve_to(c, 2, 1, 9, 0.5, 11, 8); break; case RCURVE: cairo_rel_curve_to(c, 1, 3.5, 3, 1, 4, -2); break; case CURVE: cairo_move_to(c, 1, 9); cairo_curve_to(c, 3, 0.5, 8, 9.5, 12, 3); break;
    case TEXT: cairo_set_font_size(c, 7); cairo_move_to(c, 2, 8); cairo_show_text(c, "Ag"); break;
    case TEXTSIZE: cairo_set_font_size(c, 9); cairo_text_extents(c, "xW", &e); if (cairo_status(c) == CAIRO_STATUS_SUCCESS && (ext[0] != e.width || ext[1] != e.height)) fail("text of %gx%g is said to be %gx%g", e.width, e.height, ext[0], ext[1]); break;
    }
}
static int bg(int x, int y, int k) { return k == 3 ? 255 : (37 * x + 61 * y + 90 * k + 5) % 256; }
static bool same(const NXImage *im, Ref &r, int tol, const S &what) {
    if (im->width != r.w || im->height != r.h || im->n_channels != 4) { fail("%s: the picture is %dx%d with %d channels instead of %dx%d", what.c_str(), im->width, im->height, im->n_channels, r.w, r.h); return false; }
    for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) for (int k = 0; k < 4; ++k) {
        int g = im->data.uc[y * im->row_stride + x * 4 + k], e = r.at(x, y, k);
        if (std::abs(g - e) > tol) { fail("%s: channel %d of pixel (%d,%d) is %d instead of %d", what.c_str(), k, x, y, g, e); return false; }
    }
    return true;
}
static S seq_s(const std::vector<int> &q) { S s; for (int o : q) s += S(s.empty() ? "" : ", ") + NAME[o]; return s; }
static void on_image(const std::vector<int> &q, int iface, int end, int W = 13, int H = 10, int pad = 0) {
    Src im(W, H, pad, false, true, bg); Ref ref(W, H, bg);
    if (iface == 0) { Cn c{nx_gc_new(im.im)}; for (int o : q) { run(c, o); run(ref, o); step(); } run(c, end); nx_gc_flush(c.g); run(ref, end); same(im.im, ref, 0, seq_s(q)); nx_gc_free(c.g); }
    else {
        VGImage v(im.im, false); VGGraphicsContext g = VGGraphicsContext::new_from_image(v); VGGraphicsContext g2 = g; // copies draw on the same picture
        for (size_t i = 0; i < q.size(); ++i) { run(Vg{i % 2 ? &g2 : &g}, q[i]); run(ref, q[i]); step(); }
        run(Vg{&g2}, end); g.flush(); run(ref, end); same(im.im, ref, 0, seq_s(q));
    }
    if (!im.padding_untouched()) fail("%s: bytes outside the pixels are written", seq_s(q).c_str());
    state(img_hash(im.im));
}
static void images() {
    // every sequence of operations, then stroking or filling the rest of the path
    int D = pick(3, 4); std::vector<int> q(D);
    std::function<void(int)> rec = [&](int d) {
        if (d == D) {
            if (!begin("sequences")) return;
            describe([&] { return seq_s(q); });
            on_image(q, 0, STROKE); on_image(q, 1, FILL);
            return;
        }
        for (int o = 0; o < N_OP; ++o) { q[d] = o; rec(d + 1); }
    };
    rec(0);
    // all sizes and strides of the picture
    for (int W = 1; W <= 14; ++W) for (int H = 1; H <= 11; ++H) for (int pad = 0; pad <= 8; pad += 4) for (int o = 0; o < N_OP; ++o) for (int e : {(int)STROKE, (int)FILL}) if (begin("sizes")) {
        describe([&] { return fmt("%dx%d pad %d %s", W, H, pad, NAME[o]); });
        for (int i = 0; i < 2; ++i) on_image({COLOR_A, MOVE, o, RLINE}, i, e, W, H, pad);
    }
    // every colour component arrives in its channel
    for (int r = 0; r < 4; ++r) for (int g = 0; g < 4; ++g) for (int b = 0; b < 4; ++b) for (int x = 0; x < 6; ++x) for (int y = 0; y < 5; ++y) if (begin("colours")) {
        describe([&] { return fmt("(%d,%d,%d)/3 rectangle at %d,%d", r, g, b, x, y); });
        Src im(6, 5, 4, false, true, bg); NXGC *c = nx_gc_new(im.im); nx_gc_set_color(c, r / 3.0, g / 3.0, b / 3.0, 1); nx_gc_rectangle(c, x, y, 2, 2); nx_gc_fill(c); nx_gc_flush(c); step();
        for (int v = 0; v < 5; ++v) for (int u = 0; u < 6; ++u) { bool in = u >= x && u < x + 2 && v >= y && v < y + 2; int e[4] = {r * 85, g * 85, b * 85, 255}; for (int k = 0; k < 4; ++k) { int got = (int)px(im.im, u, v, k), w = in ? e[k] : bg(u, v, k); if (std::abs(got - w) > (in ? 1 : 0)) fail("channel %d of pixel (%d,%d) is %d instead of %d", k, u, v, got, w); } }
        nx_gc_free(c);
    }
}
static S normal(S s, bool pdf) {
    if (pdf) { size_t p; for (const char *k : {"/CreationDate (", "/Producer ("}) while ((p = s.find(k)) != S::npos) { size_t e = s.find(')', p); s.erase(p, e - p); } return s; }
    return std::regex_replace(s, std::regex("([a-z]+-)[0-9]+"), "$1N");
}
static void documents() {
    const double W[] = {60, 40, 595.275912}, H[] = {50, 75, 841.8902184};
    for (int pdf = 0; pdf < 2; ++pdf) for (int sz = 0; sz < 3; ++sz) for (int a = 0; a < N_OP; ++a) for (int b = 0; b < N_OP; ++b) for (int iface = 0; iface < 2; ++iface) if (begin("documents")) {
        describe([&] { return fmt("%s %gx%g: %s, %s", pdf ? "PDF" : "SVG", W[sz], H[sz], NAME[a], NAME[b]); });
        S f = tmpfile("doc"), g = tmpfile("ref"); unlink(f.c_str()); unlink(g.c_str());
        std::vector<int> q = {COLOR_A, MOVE, a, RLINE, b, STROKE, COLOR_C, RECT, FILL};
        { Ref ref(g, W[sz], H[sz], pdf);
          if (iface == 0) { Cn c{pdf ? nx_gc_new_pdf(f.c_str(), W[sz], H[sz]) : nx_gc_new_svg(f.c_str(), W[sz], H[sz])}; for (int o : q) { run(c, o); run(ref, o); step(); } nx_gc_free(c.g); }
          else { VGGraphicsContext c = pdf ? VGGraphicsContext::new_pdf(f, W[sz], H[sz]) : VGGraphicsContext::new_svg(f, W[sz], H[sz]); for (int o : q) { run(Vg{&c}, o); run(ref, o); step(); } } }
        S x = normal(read_file(f), pdf), y = normal(read_file(g), pdf);
        if (x != y) { size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; fail("the %s file differs from the expected one at byte %zu: ...%s... instead of ...%s...", pdf ? "PDF" : "SVG", i, esc(x.substr(i > 20 ? i - 20 : 0, 60)).c_str(), esc(y.substr(i > 20 ? i - 20 : 0, 60)).c_str()); }
        if (x.empty()) fail("no file is written");
        state(hash(x)); unlink(f.c_str()); unlink(g.c_str());
    }
    for (int pdf = 0; pdf < 2; ++pdf) for (int k = 0; k < 3; ++k) for (int iface = 0; iface < 2; ++iface) if (begin("unwritable-documents")) {
        S f = k == 0 ? tmpfile("no/such/dir/x") : k == 1 ? G.tmp : tmpfile("file") + "/x"; if (k == 2) write_file(tmpfile("file"), "x");
        describe([&] { return fmt("%s kind %d", pdf ? "PDF" : "SVG", k); });
        bool ok = guarded([&] { if (iface == 0) { NXGC *c = pdf ? nx_gc_new_pdf(f.c_str(), 20, 20) : nx_gc_new_svg(f.c_str(), 20, 20); nx_gc_free(c); } else { VGGraphicsContext c = pdf ? VGGraphicsContext::new_pdf(f, 20, 20) : VGGraphicsContext::new_svg(f, 20, 20); } }); step();
        if (ok) fail("a %s document that cannot be written is not reported", pdf ? "PDF" : "SVG"); else if (fatal_kind != 1) fail("wrong kind of error");
    }
    if (begin("paper")) { step(); if (std::fabs(VGGraphicsContext::A4_WIDTH_IN_PTS / NX_GC_MM_TO_POINTS - NX_GC_A4_WIDTH) > 1e-9 || std::fabs(VGGraphicsContext::A4_HEIGHT_IN_PTS / NX_GC_MM_TO_POINTS - NX_GC_A4_HEIGHT) > 1e-9) fail("paper constants"); }
    // repeated use does not accumulate memory
    for (int kind = 0; kind < 3; ++kind) for (int o = 0; o < N_OP; ++o) if (o != TEXT && o != TEXTSIZE && begin("leaks")) {
        describe([&] { return fmt("kind %d %s", kind, NAME[o]); });
        size_t h[9]; S f = tmpfile("leak");
        for (int i = 0; i < 9; ++i) {
            { Src im(20, 20, 0, false, true, bg); Cn c{kind == 0 ? nx_gc_new(im.im) : kind == 1 ? nx_gc_new_pdf(f.c_str(), 20, 20) : nx_gc_new_svg(f.c_str(), 20, 20)}; for (int p : {(int)COLOR_B, (int)MOVE, o, (int)RLINE, (int)STROKE}) run(c, p); nx_gc_free(c.g); step(); }
            h[i] = heap();
        }
        if (h[8] > h[5] && h[7] > h[4] && h[6] > h[3] && h[5] > h[2]) fail("every use keeps %zu bytes more", h[8] - h[7]);
        unlink(f.c_str());
    }
}

// ---- operations with other values than the ones of the sequences
struct V { int op; std::vector<double> a; S text; };
static S v_s(const V &v) { S s = S("op ") + std::to_string(v.op) + "("; for (double x : v.a) s += fmt("%g ", x); return s + (v.text.empty() ? "" : "\"" + v.text.substr(0, 20) + "\"") + ")"; }
enum { VC, VW, VD, VM, VL, VRM, VRL, VLINE, VRECT, VARC, VCIRC, VCT, VRC, VCURVE, VT, VTS };
static void val(Cn r, const V &v) {
    NXGC *g = r.g; const double *a = v.a.data(); std::vector<double> d(v.a.begin() + (v.op == VD ? 1 : 0), v.a.end());
    switch (v.op) {
    case VC: nx_gc_set_color(g, a[0], a[1], a[2], a[3]); break; case VW: nx_gc_set_line_width(g, a[0]); break; case VD: nx_gc_set_line_dash(g, (int)d.size(), d.data(), a[0]); break;
    case VM: nx_gc_move_to(g, a[0], a[1]); break; case VL: nx_gc_line_to(g, a[0], a[1]); break; case VRM: nx_gc_rel_move_to(g, a[0], a[1]); break; case VRL: nx_gc_rel_line_to(g, a[0], a[1]); break;
    case VLINE: nx_gc_line(g, a[0], a[1], a[2], a[3]); break; case VRECT: nx_gc_rectangle(g, a[0], a[1], a[2], a[3]); break; case VARC: nx_gc_arc(g, a[0], a[1], a[2], a[3], a[4]); break; case VCIRC: nx_gc_circle(g, a[0], a[1], a[2]); break;
    case VCT: nx_gc_curve_to(g, a[4], a[5], a[0], a[1], a[2], a[3]); break; case VRC: nx_gc_rel_curve_to(g, a[4], a[5], a[0], a[1], a[2], a[3]); break; case VCURVE: nx_gc_curve(g, a[0], a[1], a[6], a[7], a[2], a[3], a[4], a[5]); break;
    case VT: nx_gc_draw_text(g, a[0], a[1], v.text.c_str(), a[2]); break; case VTS: nx_gc_set_text_size(g, v.text.c_str(), a[0], &ext[0], &ext[1]); break;
    }
}
static void val(Vg r, const V &v) {
    VGGraphicsContext &g = *r.g; const double *a = v.a.data(); std::vector<double> d(v.a.begin() + (v.op == VD ? 1 : 0), v.a.end());
    switch (v.op) {
    case VC: g.set_color(VGColor(a[0], a[1], a[2], a[3])); break; case VW: g.set_line_width(a[0]); break; case VD: g.set_line_dash((int)d.size(), d.data(), a[0]); break;
    case VM: g.move_to(a[0], a[1]); break; case VL: g.line_to(a[0], a[1]); break; case VRM: g.rel_move_to(a[0], a[1]); break; case VRL: g.rel_line_to(a[0], a[1]); break;
    case VLINE: g.line(a[0], a[1], a[2], a[3]); break; case VRECT: g.rectangle(a[0], a[1], a[2], a[3]); break; case VARC: g.arc(a[0], a[1], a[2], a[3], a[4]); break; case VCIRC: g.circle(a[0], a[1], a[2]); break;
    case VCT: g.curve_to(a[4], a[5], a[0], a[1], a[2], a[3]); break; case VRC: g.rel_curve_to(a[4], a[5], a[0], a[1], a[2], a[3]); break; case VCURVE: g.curve(a[0], a[1], a[6], a[7], a[2], a[3], a[4], a[5]); break;
    case VT: g.draw_text(a[0], a[1], v.text, a[2]); break; case VTS: g.set_text_size(v.text, a[0], &ext[0], &ext[1]); break;
    }
}
static void val(Ref &r, const V &v) {
    cairo_t *c = r.c; const double *a = v.a.data(); cairo_text_extents_t e;
    switch (v.op) {
    case VC: r.col(a[0], a[1], a[2], a[3]); break; case VW: cairo_set_line_width(c, a[0]); break; case VD: cairo_set_dash(c, a + 1, (int)v.a.size() - 1, a[0]); break;
    case VM: cairo_move_to(c, a[0], a[1]); break; case VL: cairo_line_to(c, a[0], a[1]); break; case VRM: cairo_rel_move_to(c, a[0], a[1]); break; case VRL: cairo_rel_line_to(c, a[0], a[1]); break;
    case VLINE: cairo_move_to(c, a[0], a[1]); cairo_line_to(c, a[2], a[3]); break; case VRECT: cairo_rectangle(c, a[0], a[1], a[2], a[3]); break; case VARC: cairo_arc(c, a[0], a[1], a[2], a[3], a[4]); break; case VCIRC: cairo_arc(c, a[0], a[1], a[2], 0, 2 * M_PI); break;
    case VCT: cairo_curve_to(c, a[0], a[1], a[2], a[3], a[4], a[5]); break; case VRC: cairo_rel_curve_to(c, a[0], a[1], a[2], a[3], a[4], a[5]); break; case VCURVE: cairo_move_to(c, a[0], a[1]); cairo_curve_to(c, a[2], a[3], a[4], a[5], a[6], a[7]); break;
    case VT: cairo_set_font_size(c, a[2]); cairo_move_to(c, a[0], a[1]); cairo_show_text(c, v.text.c_str()); break;
    case VTS: cairo_set_font_size(c, a[0]); cairo_text_extents(c, v.text.c_str(), &e); if (cairo_status(c) == CAIRO_STATUS_SUCCESS && (ext[0] != e.width || ext[1] != e.height)) fail("text of %gx%g is said to be %gx%g", e.width, e.height, ext[0], ext[1]); break;
    }
}
static std::vector<V> values() {
    std::vector<V> o; auto add = [&](int op, std::vector<double> a, const S &t = "") { o.push_back({op, a, t}); };
    for (double x : {0.0, 0.25, 0.5, 1.0, -0.5, 1.5}) for (int k = 0; k < 4; ++k) { std::vector<double> c = {0.2, 0.4, 0.6, 0.8}; c[k] = x; add(VC, c); }
    for (double w : {0.0, 0.1, 0.5, 1.0, 1.5, 2.0, 7.25, 40.0}) add(VW, {w});
    for (double off : {-2.5, -1.0, 0.0, 0.75, 30.0}) { add(VD, {off}); add(VD, {off, 2}); add(VD, {off, 1.25, 2.5}); add(VD, {off, 2, 0, 3}); add(VD, {off, 0.5, 1, 1.5, 2}); std::vector<double> m = {off}; for (int i = 0; i < 12; ++i) m.push_back(0.5 + i % 3); add(VD, m); }
    const double X[] = {-6.5, 0, 0.5, 4, 9.75, 25};
    for (double x : X) for (double y : X) { add(VM, {x, y}); add(VL, {x, y}); add(VRM, {x, y}); add(VRL, {x, y}); add(VLINE, {3, 4, x, y}); add(VLINE, {x, y, 3, 4}); add(VLINE, {x, y, x, y}); add(VLINE, {x, y, x, y + 5}); add(VLINE, {x, y, x + 5, y});
        for (double w : {-4.0, 0.0, 0.5, 3.25}) for (double h : {-3.5, 0.0, 1.0, 6.0}) add(VRECT, {x, y, w, h});
        for (double r : {0.0, 0.5, 2.25, 30.0}) add(VCIRC, {x, y, r});
        add(VCT, {x, y, 6, 1, 2, 8}); add(VCT, {6, 1, x, y, 2, 8}); add(VCT, {6, 1, 2, 8, x, y}); add(VRC, {x, y, 3, 1, -2, 4}); add(VRC, {3, 1, x, y, -2, 4}); add(VRC, {3, 1, -2, 4, x, y});
        add(VCURVE, {x, y, 6, 1, 2, 8, 9, 3}); add(VCURVE, {6, 1, x, y, 2, 8, 9, 3}); add(VCURVE, {6, 1, 2, 8, x, y, 9, 3}); add(VCURVE, {6, 1, 2, 8, 9, 3, x, y}); add(VCURVE, {x, y, x, y, x, y, x, y}); add(VCURVE, {x, y, 9, 9, 1, 9, x, y}); }
    for (double r : {0.0, 0.75, 3.5}) for (double a : {-7.0, -3.2, -0.5, 0.0, 1.0, 3.5, 6.3, 9.0}) for (double b : {-7.0, -3.2, -0.5, 0.0, 1.0, 3.5, 6.3, 9.0}) add(VARC, {6.25, 5, r, a, b});
    for (const char *t : {"", " ", "A", "gj", "Hello, World", "a b", "\xc3\xa9\xc3\xa7", "0.123456789 0.123456789 0.123456789 0.123456789 0.123456789 0.123456789 0.123456789 0.123456789 0.123456789 0.123456789 0.123456789 0.123456789 0.123456789 0.123456789", "100%s%d", "a\nb"})
        for (double f : {0.5, 5.0, 7.5, 9.25, 23.0}) { add(VTS, {f}, t); for (double x : {-3.0, 1.5}) for (double y : {0.0, 8.75}) add(VT, {x, y, f}, t); }
    return o;
}
static void value_cases() {
    auto O = values();
    // after a point or with no point, then joined to a relative line, stroked or filled; colours are seen in a shape, widths and dashes in lines
    for (size_t i = 0; i < O.size(); ++i) for (int first = 0; first < 2; ++first) for (int end : {(int)STROKE, (int)FILL}) if (begin("values")) {
        const V &v = O[i]; describe([&] { return S(first ? "(3,6), " : "") + v_s(v) + (end == STROKE ? ", stroke" : ", fill"); });
        for (int iface = 0; iface < 2; ++iface) {
            Src im(15, 11, 4, false, true, bg); Ref ref(15, 11, bg);
            auto all = [&](auto g, auto fl) {
                std::vector<V> q = {{VC, {.9, .3, .1, .75}, ""}}; if (first) q.push_back({VM, {3, 6}, ""}); q.push_back(v); if (v.op == VC || v.op == VW || v.op == VD) { q.push_back({VL, {11, 8.5}, ""}); q.push_back({VL, {12, 2}, ""}); } q.push_back({VRL, {-4, 3.5}, ""}); if (v.op == VTS) q.push_back({VT, {1, 9, 8.5}, "x"});
                for (auto &x : q) { val(g, x); val(ref, x); step(); }
                run(g, end); run(ref, end); fl();
                // and the state goes on
                V w{VLINE, {1, 1, 9, 4}, ""}; val(g, w); val(ref, w); run(g, STROKE); run(ref, STROKE); fl(); step();
                same(im.im, ref, 0, v_s(v));
            };
            if (iface == 0) { Cn c{nx_gc_new(im.im)}; all(c, [&] { nx_gc_flush(c.g); }); nx_gc_free(c.g); }
            else { VGImage vi(im.im, false); VGGraphicsContext g = VGGraphicsContext::new_from_image(vi); all(Vg{&g}, [&] { g.flush(); }); }
            if (!im.padding_untouched()) fail("%s: bytes outside the pixels are written", v_s(v).c_str());
            state(img_hash(im.im));
        }
    }
    // the same in documents, where nothing but the operation and the initial black is used
    for (size_t i = 0; i < O.size(); ++i) for (int pdf = 0; pdf < 2; ++pdf) for (int end : {(int)STROKE, (int)FILL}) if (begin("document-values")) {
        const V &v = O[i]; int iface = (int)((i + pdf + end) % 2); describe([&] { return S(pdf ? "PDF: " : "SVG: ") + v_s(v) + (end == STROKE ? ", stroke" : ", fill"); });
        S f = tmpfile("doc"), g = tmpfile("ref"); unlink(f.c_str()); unlink(g.c_str());
        const V w{VRL, {-4, 3.5}, ""}, m{VM, {3, 6}, ""}; double W = 41.5, H = 1000;
        {
          if (iface == 0) { Cn c{pdf ? nx_gc_new_pdf(f.c_str(), W, H) : nx_gc_new_svg(f.c_str(), W, H)}; for (const V *x : {&m, &v, &w}) { val(c, *x); step(); } run(c, end); nx_gc_free(c.g); }
          else { VGGraphicsContext c = pdf ? VGGraphicsContext::new_pdf(f, W, H) : VGGraphicsContext::new_svg(f, W, H); for (const V *x : {&m, &v, &w}) { val(Vg{&c}, *x); step(); } run(Vg{&c}, end); }
          Ref ref(g, W, H, pdf); for (const V *x : {&m, &v, &w}) val(ref, *x); run(ref, end); }
        S x = normal(read_file(f), pdf), y = normal(read_file(g), pdf);
        if (x != y) fail("the %s file of %s differs from the expected one", pdf ? "PDF" : "SVG", v_s(v).c_str());
        if (x.empty()) fail("no file is written");
        state(hash(x)); unlink(f.c_str()); unlink(g.c_str());
    }
}
// ---- annotations
struct Pen { Ref &r;
    void col(const double *c) { r.col(c[0], c[1], c[2], c[3]); }
    void mark(int t, double x, double y, double size, const double *c) {
        double q = size / 2; cairo_new_path(r.c); col(c); cairo_set_line_width(r.c, 1.5);
        if (t == VGImageAnnotator::MARK_POINT) cairo_arc(r.c, x, y, q, 0, 2 * M_PI);
        if (t == VGImageAnnotator::MARK_SQUARE) cairo_rectangle(r.c, x - q, y - q, size, size);
        if (t == VGImageAnnotator::MARK_DIAMOND) { cairo_move_to(r.c, x, y - q); cairo_line_to(r.c, x + q, y); cairo_line_to(r.c, x, y + q); cairo_line_to(r.c, x - q, y); cairo_line_to(r.c, x, y - q); }
        if (t == VGImageAnnotator::MARK_PLUS) { cairo_move_to(r.c, x, y - q); cairo_line_to(r.c, x, y + q); cairo_move_to(r.c, x - q, y); cairo_line_to(r.c, x + q, y); }
        if (t == VGImageAnnotator::MARK_CROSS) { cairo_move_to(r.c, x - q, y - q); cairo_line_to(r.c, x + q, y + q); cairo_move_to(r.c, x + q, y - q); cairo_line_to(r.c, x - q, y + q); }
        cairo_stroke(r.c);
    }
    void edge(double xs, double ys, double xe, double ye, double w, const double *c, int t = -1, double ms = 0) {
        col(c); cairo_set_line_width(r.c, w); cairo_new_path(r.c); cairo_move_to(r.c, xs, ys); cairo_line_to(r.c, xe, ye); cairo_stroke(r.c); mark(t, xs, ys, ms, c); mark(t, xe, ye, ms, c);
    }
    void roi(double x, double y, double w, double h, double lw, const double *c) { col(c); cairo_set_line_width(r.c, lw); cairo_new_path(r.c); cairo_rectangle(r.c, x, y, w, h); cairo_stroke(r.c); }
};
static VGImage picture(bool rgba, int w, int h, int salt) {
    VGImage v; if (rgba) v.create_rgba(w, h, VGImage::UCHAR); else v.create_gray(w, h, VGImage::UCHAR);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int k = 0; k < (rgba ? 4 : 1); ++k) v.data<uchar>(y)[x * (rgba ? 4 : 1) + k] = bg(x + salt, y + 3 * salt, k);
    return v;
}
static std::function<int(int, int, int)> look(bool rgba, int salt) { return [=](int x, int y, int k) { return bg(x + salt, y + 3 * salt, k == 3 ? 3 : rgba ? k : 0); }; }
const double COL[8][4] = {{1, 0, 0, 1}, {0, 0, 1, 1}, {0, 1, 0, 1}, {1, 1, 0, 1}, {1, 0, 1, 1}, {0, 1, 1, 1}, {1, 1, 1, 1}, {.2, .5, .8, .5}};
static VGColor vc(const double *c) { return VGColor(c[0], c[1], c[2], c[3]); }
static bool unchanged(const VGImage &v, bool rgba, int salt) { for (int y = 0; y < v.height(); ++y) for (int x = 0; x < v.width(); ++x) for (int k = 0; k < (rgba ? 4 : 1); ++k) if (v.data<uchar>(y)[x * (rgba ? 4 : 1) + k] != bg(x + salt, y + 3 * salt, k)) return false; return v.n_channels() == (rgba ? 4 : 1); }
// one annotation; returns its description
static const int N_ANN = 21;
static S annotate(int a, VGImageAnnotator *an, Pen *p) {
    NXKeypoint ks[4]; for (int i = 0; i < 4; ++i) { memset(&ks[i], 0, sizeof ks[i]); ks[i].level = (a * 3 + i * 2) % 7; ks[i].scale = 1 + i % 2; ks[i].xs = 4 + 2.5f * i; ks[i].ys = 3 + 1.25f * i; ks[i].x = 1; ks[i].y = 2; ks[i].sigma = 1.5f + i; ks[i].score = 9; ks[i].id = i; }
    VGImageAnnotator::MarkType T[] = {VGImageAnnotator::MARK_NONE, VGImageAnnotator::MARK_POINT, VGImageAnnotator::MARK_SQUARE, VGImageAnnotator::MARK_DIAMOND, VGImageAnnotator::MARK_PLUS, VGImageAnnotator::MARK_CROSS};
    if (a < 6) { if (an) an->draw_mark(T[a], 8.5 + a, 6.25, 7, vc(COL[a])); if (p) p->mark(T[a], 8.5 + a, 6.25, 7, COL[a]); return fmt("mark %d", a - 1); }
    if (a < 12) { int t = a - 6; if (an) an->draw_edge(2, 3.5, 15, 9, 2.5, vc(COL[7 - t]), T[t], 4); if (p) p->edge(2, 3.5, 15, 9, 2.5, COL[7 - t], T[t], 4); return fmt("edge with marks %d", t - 1); }
    if (a == 12) { if (an) an->draw_edge(12, 1, 3, 11, 1, vc(COL[2])); if (p) p->edge(12, 1, 3, 11, 1, COL[2]); return "edge"; }
    if (a == 13) { if (an) an->draw_roi(3, 2, 9, 6.5, 2, vc(COL[4])); if (p) p->roi(3, 2, 9, 6.5, 2, COL[4]); return "roi"; }
    if (a < 18) { int i = a - 14; if (an) an->draw_keypoint(&ks[i], vc(COL[i + 1])); if (p) p->mark(0, ks[i].xs * ks[i].scale, ks[i].ys * ks[i].scale, ks[i].sigma * ks[i].scale * 2, COL[i + 1]); return fmt("keypoint %d", i); }
    bool single = a == 19; int n = a == 20 ? 0 : 4; if (an) an->draw_keypoints(n, ks, single); if (p) for (int i = 0; i < n; ++i) p->mark(0, ks[i].xs * ks[i].scale, ks[i].ys * ks[i].scale, ks[i].sigma * ks[i].scale * 2, COL[single ? 6 : ks[i].level]);
    return fmt("%d keypoints%s", n, single ? " in white" : "");
}
static void annotations() {
    int D = 2, TOL = 4;
    for (int rgba = 0; rgba < 2; ++rgba) for (int w = 16; w <= 18; w += 2) for (int a = 0; a < N_ANN; ++a) for (int b = 0; b < N_ANN; ++b) for (int c = 0; c < (thorough() ? N_ANN : 4); ++c) if (begin("annotations")) {
        (void)D; int H = 13; S d; VGImage v = picture(rgba, w, H, 1); VGImageAnnotator an(v); Ref r(w, H, look(rgba, 1)); Pen p{r};
        for (int o : {a, b, c * (thorough() ? 1 : 5)}) { d += annotate(o, &an, &p) + "; "; step(); if (!same(an.get_canvas().nx_img(), r, TOL, d)) break; }
        describe([&] { return d; });
        if (an.width() != w || an.height() != H) fail("the annotator is %dx%d", an.width(), an.height());
        if (!unchanged(v, rgba, 1)) fail("%s: the annotated image changes", d.c_str());
        state(img_hash(an.get_canvas().nx_img()));
    }
    // keypoint colours, one level after the other
    for (int l = 0; l < 7; ++l) for (int sc = 1; sc < 4; ++sc) for (int single = 0; single < 2; ++single) if (begin("keypoint-levels")) {
        describe([&] { return fmt("level %d scale %d%s", l, sc, single ? " single colour" : ""); });
        VGImage v = picture(0, 30, 30, 2); VGImageAnnotator an(v); Ref r(30, 30, look(0, 2)); Pen p{r}; NXKeypoint k; memset(&k, 0, sizeof k); k.level = l; k.scale = sc; k.xs = 5.5; k.ys = 4; k.sigma = 2; an.draw_keypoints(1, &k, single); step();
        p.mark(0, 5.5 * sc, 4 * sc, 4 * sc, COL[single ? 6 : l]); same(an.get_canvas().nx_img(), r, TOL, "keypoint");
    }
    // another image replaces the canvas
    for (int a = 0; a < N_ANN; ++a) for (int b = 0; b < N_ANN; ++b) for (int rgba = 0; rgba < 2; ++rgba) if (begin("set-image")) {
        VGImage v = picture(!rgba, 20, 15, 1), u = picture(rgba, 17, 19, 4); VGImageAnnotator an(v); S d = annotate(a, &an, nullptr); an.set_image(u); d += "; other image; "; Ref r(17, 19, look(rgba, 4)); Pen p{r}; same(an.get_canvas().nx_img(), r, 0, d); d += annotate(b, &an, &p);
        describe([&] { return d; }); step(3); same(an.get_canvas().nx_img(), r, TOL, d); if (!unchanged(u, rgba, 4) || !unchanged(v, !rgba, 1)) fail("%s: the annotated image changes", d.c_str());
    }
    // match images
    for (int kinds = 0; kinds < 4; ++kinds) for (int lw = 9; lw <= 13; lw += 2) for (int lh = 8; lh <= 14; lh += 3) for (int rw = 7; rw <= 12; rw += 5) for (int rh = 8; rh <= 14; rh += 3) for (int inl = 0; inl < 8; ++inl) for (int n = 0; n <= 3; ++n) for (int only = 0; only < 2; ++only) {
        if (inl >> n) continue;
        if (!begin("match-images")) continue;
        describe([&] { return fmt("%dx%d and %dx%d, %d matches, inliers %d%s", lw, lh, rw, rh, n, inl, only ? " only" : ""); });
        bool lc = kinds & 1, rc = kinds & 2; VGImage L = picture(lc, lw, lh, 1), R = picture(rc, rw, rh, 5); VGPointCorrespondence2D cr; double P[3][4] = {{2, 3, 5.5, 6}, {7, 1.5, 1, 4.25}, {4, 7, 6, 7.5}};
        for (int i = 0; i < n; ++i) cr.add_match(i, P[i][0], P[i][1], 1, i, P[i][2], P[i][3], 1, 0.5f, inl >> i & 1);
        VGImageAnnotator an = VGImageAnnotator::create_match_image(L, R, cr, only); step();
        int H = std::max(lh, rh); auto ll = look(lc, 1), rl = look(rc, 5);
        Ref r(lw + rw, H, [&](int x, int y, int k) { return x < lw ? (y < lh ? ll(x, y, k) : 0) : y < rh ? rl(x - lw, y, k) : 0; }); Pen p{r};
        for (int i = 0; i < n; ++i) if (!only || (inl >> i & 1)) { double *m = P[i]; p.edge(m[0], m[1], m[2], m[3], 3, COL[0]); p.edge(m[0] + lw, m[1], m[2] + lw, m[3], 3, COL[2]); p.mark(VGImageAnnotator::MARK_DIAMOND, m[0], m[1], 10, COL[0]); p.mark(VGImageAnnotator::MARK_DIAMOND, m[2] + lw, m[3], 10, COL[2]); }
        same(an.get_canvas().nx_img(), r, TOL, fmt("match image of %dx%d and %dx%d", lw, lh, rw, rh)); if (!unchanged(L, lc, 1) || !unchanged(R, rc, 5)) fail("a matched image changes");
        state(img_hash(an.get_canvas().nx_img()));
    }
    // edges, marks and regions of other sizes and places
    {
        VGImageAnnotator::MarkType T[] = {VGImageAnnotator::MARK_NONE, VGImageAnnotator::MARK_POINT, VGImageAnnotator::MARK_SQUARE, VGImageAnnotator::MARK_DIAMOND, VGImageAnnotator::MARK_PLUS, VGImageAnnotator::MARK_CROSS};
        const double E[][4] = {{8, 3, 8, 10}, {3, 7, 14, 7}, {9, 6, 9, 6}, {14, 11, 2, 3}, {2, 11, 14, 2}, {-4, 6, 9, 6.5}, {8.5, -3, 8.5, 30}, {0, 0, 0, 0}, {17, 12, 30, 20}};
        for (int t = 0; t < 6; ++t) for (auto &e : E) for (double ms : {0.0, 0.75, 3.0, 7.5, 11.0}) for (double lw : {0.0, 0.5, 1.0, 2.25, 6.0}) for (int c = 0; c < 8; c += 7) if (begin("edges")) {
            describe([&] { return fmt("edge (%g,%g)-(%g,%g) of width %g with marks %d of size %g", e[0], e[1], e[2], e[3], lw, t, ms); });
            VGImage v = picture(c == 0, 18, 13, 1); VGImageAnnotator an(v); Ref r(18, 13, look(c == 0, 1)); Pen p{r};
            an.draw_edge(e[0], e[1], e[2], e[3], lw, vc(COL[c]), T[t], ms); p.edge(e[0], e[1], e[2], e[3], lw, COL[c], T[t], ms); step(); same(an.get_canvas().nx_img(), r, TOL, "edge");
            an.draw_mark(T[5 - t], e[2], e[1], ms, vc(COL[2])); p.mark(T[5 - t], e[2], e[1], ms, COL[2]); step(); same(an.get_canvas().nx_img(), r, TOL, "edge, mark");
            an.draw_roi(e[0], e[1], e[2] - e[0], e[3] - e[1], lw, vc(COL[1])); p.roi(e[0], e[1], e[2] - e[0], e[3] - e[1], lw, COL[1]); step(); same(an.get_canvas().nx_img(), r, TOL, "edge, mark, region");
            state(img_hash(an.get_canvas().nx_img()));
        }
        for (int l = -2; l < 9; ++l) for (double sc : {0.25, 0.5, 0.8, 1.0, 1.2, 2.0, 2.0736, 4.0, 8.0}) for (double sg : {0.0, 0.3, 0.5, 1.0, 1.6, 3.7}) for (int call = 0; call < 3; ++call) if (begin("keypoint-sizes")) {
            if (call == 1 && (l < 0 || l > 6)) continue; // other levels have a colour of their own making
            describe([&] { return fmt("level %d scale %g sigma %g, call %d", l, sc, sg, call); });
            VGImage v = picture(l & 1, 30, 25, 2); VGImageAnnotator an(v); Ref r(30, 25, look(l & 1, 2)); Pen p{r}; NXKeypoint k; memset(&k, 0, sizeof k); k.level = l; k.scale = (float)sc; k.xs = 7.5f / k.scale; k.ys = 6.25f / k.scale; k.sigma = (float)sg; k.x = 3; k.y = 9; k.ori = 1.f;
            if (call == 0) an.draw_keypoint(&k, vc(COL[7])); else an.draw_keypoints(1, &k, call == 2);
            p.mark(0, (double)k.xs * k.scale, (double)k.ys * k.scale, (double)k.sigma * k.scale * 2, COL[call == 0 ? 7 : call == 2 ? 6 : l]); step(); same(an.get_canvas().nx_img(), r, TOL, "keypoint"); state(img_hash(an.get_canvas().nx_img()));
        }
        // match images of all relations of sizes, matches outside the pictures, many matches
        const int SZ[] = {1, 2, 13, 22, 31, 64};
        for (int lw : SZ) for (int lh : SZ) for (int rw : SZ) for (int rh : SZ) for (int only = 0; only < 2; ++only) if (begin("match-sizes")) {
            describe([&] { return fmt("%dx%d and %dx%d%s", lw, lh, rw, rh, only ? " only inliers" : ""); });
            bool lc = (lw ^ rh) & 1, rc = (lh ^ rw) & 1; VGImage L = picture(lc, lw, lh, 1), R = picture(rc, rw, rh, 5); VGPointCorrespondence2D cr; int n = 3; double P[3][4] = {{2, 3, 5.5, 6}, {lw - 0.5, lh + 1.0, -2, rh / 2.0}, {lw / 2.0, lh / 2.0, lw / 2.0, lh / 2.0}};
            for (int i = 0; i < n; ++i) cr.add_match(7 - i, P[i][0], P[i][1], 1, 3 * i, P[i][2], P[i][3], 2.5, 0.5f, i != 1);
            VGImageAnnotator an = VGImageAnnotator::create_match_image(L, R, cr, only); step(); int H = std::max(lh, rh); auto ll = look(lc, 1), rl = look(rc, 5);
            Ref r(lw + rw, H, [&](int x, int y, int k) { return x < lw ? (y < lh ? ll(x, y, k) : 0) : y < rh ? rl(x - lw, y, k) : 0; }); Pen p{r};
            for (int i = 0; i < n; ++i) if (!only || i != 1) { double *m = P[i]; for (int k = 0; k < 4; ++k) m[k] = (float)m[k]; p.edge(m[0], m[1], m[2], m[3], 3, COL[0]); p.edge(m[0] + lw, m[1], m[2] + lw, m[3], 3, COL[2]); p.mark(VGImageAnnotator::MARK_DIAMOND, m[0], m[1], 10, COL[0]); p.mark(VGImageAnnotator::MARK_DIAMOND, m[2] + lw, m[3], 10, COL[2]); }
            same(an.get_canvas().nx_img(), r, TOL, fmt("match image of %dx%d and %dx%d", lw, lh, rw, rh)); if (!unchanged(L, lc, 1) || !unchanged(R, rc, 5)) fail("a matched image changes"); state(img_hash(an.get_canvas().nx_img()));
        }
    }
}
void mc_run() { images(); documents(); value_cases(); annotations(); }
