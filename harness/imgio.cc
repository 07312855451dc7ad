// P17 image files, P18 write failures.
#include "image_model.hh"
#include <csetjmp>
#include <png.h>
#include <jpeglib.h>
#include <sys/resource.h>
extern "C" {
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_image_io_png.h"
#include "virg/nexus/nx_image_io_pnm.h"
#include "virg/nexus/nx_image_io_jpeg.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_json_log.h"
#include "virg/nexus/nx_sift_detector.h"
}
#include "virg/nexus/vg_image.hpp"
using virg::nexus::VGImage;
using namespace mc;
typedef std::string S;
static int free_fd() { int d = dup(0); close(d); return d; }
// descriptors opened since fd was free; the sanitizer's memory watchdog opens one now and then, so look again
static bool fd_leak(int fd) { for (int i = 0; i < 200; ++i) { if (free_fd() <= fd) return false; usleep(1000); } return true; }

struct Pic { int w = 0, h = 0, nc = 0; std::vector<int> v; int at(int x, int y, int c) const { return v[((size_t)y * w + x) * nc + c]; } int &at(int x, int y, int c) { return v[((size_t)y * w + x) * nc + c]; } };
static Pic mk(int w, int h, int nc) { Pic p; p.w = w; p.h = h; p.nc = nc; p.v.resize((size_t)w * h * nc); return p; }

// ---------------------------------------------------------------- independent decoders
static bool dec_pnm(const S &d, Pic &o) { // strict binary PNM reader
    size_t i = 2; int n[3];
    if (d.size() < 2 || d[0] != 'P' || (d[1] != '5' && d[1] != '6')) return false;
    for (int k = 0; k < 3; ++k) {
        for (;;) { while (i < d.size() && strchr(" \t\n\r", d[i])) ++i; if (i < d.size() && d[i] == '#') { while (i < d.size() && d[i] != '\n') ++i; } else break; }
        if (i >= d.size() || !isdigit((unsigned char)d[i])) return false;
        n[k] = 0; while (i < d.size() && isdigit((unsigned char)d[i])) n[k] = n[k] * 10 + d[i++] - '0';
    }
    if (i >= d.size() || !strchr(" \t\n\r", d[i]) || n[2] != 255) return false;
    ++i; int nc = d[1] == '5' ? 1 : 3; o = mk(n[0], n[1], nc);
    if (d.size() != i + o.v.size()) return false;
    for (size_t k = 0; k < o.v.size(); ++k) o.v[k] = (unsigned char)d[i + k];
    return true;
}
static bool dec_png(const S &d, Pic &o) {
    png_image im; memset(&im, 0, sizeof im); im.version = PNG_IMAGE_VERSION;
    if (!png_image_begin_read_from_memory(&im, d.data(), d.size())) return false;
    int nc = im.format & PNG_FORMAT_FLAG_COLOR ? 4 : 1; im.format = nc == 4 ? PNG_FORMAT_RGBA : PNG_FORMAT_GRAY;
    std::vector<unsigned char> b(PNG_IMAGE_SIZE(im));
    if (!png_image_finish_read(&im, nullptr, b.data(), 0, nullptr)) { png_image_free(&im); return false; }
    o = mk(im.width, im.height, nc); for (size_t k = 0; k < o.v.size(); ++k) o.v[k] = b[k];
    return true;
}
struct jerr { jpeg_error_mgr pub; jmp_buf jb; };
static void jexit(j_common_ptr c) { longjmp(((jerr *)c->err)->jb, 1); }
static void jmsg(j_common_ptr) {}
static bool dec_jpeg(const S &d, Pic &o, int want = 0) { // want: 0 as is (1/3), 1 gray, 3 rgb
    jpeg_decompress_struct ci; jerr e; ci.err = jpeg_std_error(&e.pub); e.pub.error_exit = jexit; e.pub.output_message = jmsg;
    if (setjmp(e.jb)) { jpeg_destroy_decompress(&ci); return false; }
    jpeg_create_decompress(&ci); jpeg_mem_src(&ci, (const unsigned char *)d.data(), d.size()); jpeg_read_header(&ci, TRUE);
    int nc = want ? want : ci.num_components == 1 ? 1 : 3; ci.out_color_space = nc == 1 ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_start_decompress(&ci); o = mk(ci.output_width, ci.output_height, nc); std::vector<unsigned char> row(o.w * nc);
    while (ci.output_scanline < ci.output_height) { int y = ci.output_scanline; JSAMPROW r = row.data(); jpeg_read_scanlines(&ci, &r, 1); for (int i = 0; i < o.w * nc; ++i) o.v[(size_t)y * o.w * nc + i] = row[i]; }
    jpeg_finish_decompress(&ci); jpeg_destroy_decompress(&ci); return true;
}
// ---------------------------------------------------------------- independent encoders
// samples[y][x][c] of the given bit depth
static S enc_png(int w, int h, int ct, int depth, bool interlace, const std::vector<int> &v, const std::vector<png_color> &pal, const std::vector<png_byte> &trns, const png_color_16 *tc) {
    FILE *f = tmpfile();
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(p);
    if (setjmp(png_jmpbuf(p))) { printf("harness: cannot write png\n"); _exit(77); }
    png_init_io(p, f);
    png_set_IHDR(p, i, w, h, depth, ct, interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_BASE, PNG_FILTER_TYPE_BASE);
    if (ct == PNG_COLOR_TYPE_PALETTE) png_set_PLTE(p, i, pal.data(), pal.size());
    if (trns.size()) png_set_tRNS(p, i, trns.data(), trns.size(), nullptr);
    if (tc) png_set_tRNS(p, i, nullptr, 0, tc);
    png_write_info(p, i);
    if (depth < 8) png_set_packing(p);
    int nc = png_get_channels(p, i); std::vector<std::vector<unsigned char>> rows(h); std::vector<png_bytep> rp(h);
    for (int y = 0; y < h; ++y) { for (int k = 0; k < w * nc; ++k) { int s = v[(size_t)y * w * nc + k]; if (depth == 16) rows[y].push_back(s >> 8); rows[y].push_back(s & 255); } rp[y] = rows[y].data(); }
    png_write_image(p, rp.data()); png_write_end(p, i); png_destroy_write_struct(&p, &i);
    S o; rewind(f); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o;
}
static S enc_jpeg(const Pic &p, J_COLOR_SPACE in, J_COLOR_SPACE file, int quality, bool progressive, int sampling) {
    jpeg_compress_struct ci; jerr e; ci.err = jpeg_std_error(&e.pub); e.pub.error_exit = jexit;
    if (setjmp(e.jb)) { printf("harness: cannot write jpeg\n"); _exit(77); }
    unsigned char *mem = nullptr; unsigned long n = 0;
    jpeg_create_compress(&ci); jpeg_mem_dest(&ci, &mem, &n);
    ci.image_width = p.w; ci.image_height = p.h; ci.input_components = p.nc; ci.in_color_space = in;
    jpeg_set_defaults(&ci); jpeg_set_colorspace(&ci, file); jpeg_set_quality(&ci, quality, TRUE);
    if (p.nc == 3) ci.comp_info[0].h_samp_factor = ci.comp_info[0].v_samp_factor = sampling;
    if (progressive) jpeg_simple_progression(&ci);
    jpeg_start_compress(&ci, TRUE); std::vector<unsigned char> row(p.w * p.nc);
    while (ci.next_scanline < ci.image_height) { for (int i = 0; i < p.w * p.nc; ++i) row[i] = p.v[(size_t)ci.next_scanline * p.w * p.nc + i]; JSAMPROW r = row.data(); jpeg_write_scanlines(&ci, &r, 1); }
    jpeg_finish_compress(&ci); jpeg_destroy_compress(&ci); S o((char *)mem, n); free(mem); return o;
}
// ---------------------------------------------------------------- loading
static const char *MODE[] = {"as is", "as gray", "as RGBA"};
static NXImageLoadMode LM[] = {NX_IMAGE_LOAD_AS_IS, NX_IMAGE_LOAD_GRAYSCALE, NX_IMAGE_LOAD_RGBA};
const int N_UDEST = 10;
static NXImage *udest(int k, int w, int h) { // byte destinations with a past (other images may not be loaded into)
    NXImage *d = nx_image_alloc();
    if (k == 1) nx_image_resize(d, w, h, w + 3, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
    if (k == 2) nx_image_resize(d, w, h, 4 * w + 5, NX_IMAGE_RGBA, NX_IMAGE_UCHAR);
    if (k == 3) nx_image_resize(d, 1, 1, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
    if (k == 4) nx_image_resize(d, w + 4, h + 3, -1, NX_IMAGE_RGBA, NX_IMAGE_UCHAR);
    if (k == 5) nx_image_resize(d, w, h + 3, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); // larger or smaller in one dimension only
    if (k == 6) nx_image_resize(d, w, h + 3, -1, NX_IMAGE_RGBA, NX_IMAGE_UCHAR);
    if (k == 7) nx_image_resize(d, w + 2, h, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
    if (k == 8) nx_image_resize(d, w + 2, h, -1, NX_IMAGE_RGBA, NX_IMAGE_UCHAR);
    if (k == 9) nx_image_resize(d, w, h > 1 ? h - 1 : h, -1, NX_IMAGE_RGBA, NX_IMAGE_UCHAR);
    if (k && d->mem->size) memset(d->data.v, 0x5A, d->mem->size);
    return d;
}
enum Kind { PNM, PNG, JPG };
static const char *KN[] = {"PNM", "PNG", "JPEG"};
// api 0: generic, 1: generic x, 2: format specific, 3: format specific x, 4 and 5: the C++ class
static bool do_load(NXImage *d, const S &f, NXImageLoadMode m, Kind k, int api) {
    NXResult r = NX_OK; bool ok = true; VGImage::LoadMode vm = m == NX_IMAGE_LOAD_AS_IS ? VGImage::LOAD_AS_IS : m == NX_IMAGE_LOAD_GRAYSCALE ? VGImage::LOAD_GRAYSCALE : VGImage::LOAD_RGBA;
    if (api > 3) { VGImage v(d, false); return api == 4 ? v.load(f, vm) : guarded([&] { v.xload(f, vm); }); }
    switch (api) {
    case 0: r = nx_image_load(d, f.c_str(), m); break;
    case 2: r = k == PNM ? nx_image_load_pnm(d, f.c_str(), m) : k == PNG ? nx_image_load_png(d, f.c_str(), m) : nx_image_load_jpeg(d, f.c_str(), m); break;
    case 1: ok = guarded([&] { nx_image_xload(d, f.c_str(), m); }); break;
    case 3: ok = guarded([&] { k == PNM ? nx_image_xload_pnm(d, f.c_str(), m) : k == PNG ? nx_image_xload_png(d, f.c_str(), m) : nx_image_xload_jpeg(d, f.c_str(), m); }); break;
    }
    return ok && r == NX_OK;
}
static bool do_save(const NXImage *d, const S &f, Kind k, int api) {
    NXResult r = NX_OK; bool ok = true;
    if (api > 3) { const VGImage v((NXImage *)d, false); return api == 4 ? v.save(f) : guarded([&] { v.xsave(f); }); }
    switch (api) {
    case 0: r = nx_image_save(d, f.c_str()); break;
    case 2: r = k == PNM ? nx_image_save_pnm(d, f.c_str()) : k == PNG ? nx_image_save_png(d, f.c_str()) : nx_image_save_jpeg(d, f.c_str()); break;
    case 1: ok = guarded([&] { nx_image_xsave(d, f.c_str()); }); break;
    case 3: ok = guarded([&] { k == PNM ? nx_image_xsave_pnm(d, f.c_str()) : k == PNG ? nx_image_xsave_png(d, f.c_str()) : nx_image_xsave_jpeg(d, f.c_str()); }); break;
    }
    return ok && r == NX_OK;
}
// expected content of a load: src is 1 (gray) or 4 (RGBA) channels; tolerances per sample
static void check_load(const S &file, Kind k, const Pic &src, int mode, int api, int dk, const S &what, double tol, double gray_tol) {
    int nc = mode == 0 ? src.nc : mode == 1 ? 1 : 4;
    int fd = free_fd(); size_t hp = heap();
    NXImage *d = udest(dk, src.w, src.h);
    if (!do_load(d, file, LM[mode], k, api)) { fail("loading %s %s fails", what.c_str(), MODE[mode]); nx_image_free(d); return; }
    step();
    if (shape_is(d, src.w, src.h, nc == 4 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, what.c_str()))
        for (int y = 0; y < src.h; ++y) for (int x = 0; x < src.w; ++x) for (int c = 0; c < nc; ++c) {
            double e, t = tol; bool tr = false;
            if (nc == src.nc) e = src.at(x, y, c);
            else if (nc == 4) e = c == 3 ? 255 : src.at(x, y, 0);
            else { e = 0.3 * src.at(x, y, 0) + 0.59 * src.at(x, y, 1) + 0.11 * src.at(x, y, 2); if (gray_tol < 0) tr = true; else t = gray_tol; }
            double g = px(d, x, y, c);
            if (tr ? !trunc_ok(g, e, e) : !near_ok(g, e, c == 3 ? 0 : t)) { fail("%s loaded %s into destination kind %d: pixel (%d,%d,%d) is %g instead of %g", what.c_str(), MODE[mode], dk, x, y, c, g, e); goto out; }
        }
out:
    state(mix(img_hash(d), mode * 8 + k));
    nx_image_free(d);
    if (fd_leak(fd)) fail("loading %s leaves a file open", what.c_str());
    if (heap() != hp) fail("loading %s leaks %zd bytes", what.c_str(), (ssize_t)(heap() - hp));
}
static Pic pic_of(const Src &s, bool opaque) {
    Pic p = mk(s.w, s.h, s.nc);
    for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) for (int c = 0; c < s.nc; ++c) p.at(x, y, c) = c == 3 && opaque ? 255 : (int)s.at(x, y, c);
    return p;
}
static const char *EXT[3][6] = {{".pgm", ".PGM", ".ppm", ".PPM", ".pgm", ".ppm"}, {".png", ".PNG", ".png", ".png", ".PNG", ".png"}, {".jpg", ".JPG", ".jpeg", ".JPEG", ".jpg", ".jpeg"}};

static void roundtrip() {
    const int W = pick(9, 18), H = pick(7, 12);
    for (int k = 0; k < 2; ++k) for (int rgba = 0; rgba < 2; ++rgba) for (int w = 1; w <= W; ++w) for (int h = 1; h <= H; ++h) for (int pad = 0; pad < 6; pad += 3) for (int pt = 0; pt < 5; ++pt) if (begin("round-trip")) {
        int api = (w + h + pt) % 6;
        describe([&] { return fmt("%s %dx%d %s pad %d pattern %d api %d", KN[k], w, h, rgba ? "RGBA" : "gray", pad, pt, api); });
        Src s(w, h, pad, false, rgba, [&](int x, int y, int c) { return pattern(pt, x, y, c, w, h); });
        S f = tmpfile((S("im") + EXT[k][(w + 2 * h + pt) % 6]).c_str()); unlink(f.c_str());
        int fd = free_fd(); size_t hp = heap();
        if (!do_save(s.im, f, (Kind)k, api)) { fail("saving a %dx%d image as %s fails", w, h, KN[k]); continue; }
        if (fd_leak(fd) || heap() != hp) fail("saving %s leaks: %zd bytes, descriptor %d", KN[k], (ssize_t)(heap() - hp), fd);
        if (!s.untouched()) fail("saving changes the image");
        S data = read_file(f); Pic p, o = pic_of(s, k == PNM); step();
        if (k == PNM) { // alpha is not stored
            if (!dec_pnm(data, p) || p.w != w || p.h != h || p.nc != (rgba ? 3 : 1)) { fail("%dx%d %s image saved as PNM is not a valid PNM file of that shape", w, h, rgba ? "RGBA" : "gray"); continue; }
            for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < p.nc; ++c) if (p.at(x, y, c) != o.at(x, y, c)) fail("saved PNM has %d instead of %d at (%d,%d,%d)", p.at(x, y, c), o.at(x, y, c), x, y, c);
        } else {
            if (!dec_png(data, p) || p.w != w || p.h != h || p.nc != o.nc) { fail("%dx%d image saved as PNG is not a valid PNG file of that shape", w, h); continue; }
            if (p.v != o.v) fail("saved PNG has other pixels than the %dx%d image", w, h);
        }
        for (int m = 0; m < 3; ++m) for (int dk = 0; dk < N_UDEST; ++dk)
            check_load(f, (Kind)k, o, m, (api + m + dk) % 6, dk, fmt("a saved %dx%d %s %s", w, h, rgba ? "RGBA" : "gray", KN[k]), 0, k == PNM ? -1 : 1.6);
        // saving over an existing, longer file replaces it
        write_file(f, S(4000, 'x') + data); if (!do_save(s.im, f, (Kind)k, api) || read_file(f) != data) fail("saving over an existing file does not replace it");
    }
    // every colour survives; gray values of every colour
    for (int k = 0; k < 2; ++k) for (int b = 0; b < 256; b += pick(17, 3)) if (begin("colours")) {
        describe([&] { return fmt("%s, all red/green values with blue %d", KN[k], b); });
        Src s(256, 256, 0, false, true, [&](int x, int y, int c) { return c == 0 ? x : c == 1 ? y : c == 2 ? b : (x + y + b) % 256; });
        S f = tmpfile("im"); step();
        if (!do_save(s.im, f, (Kind)k, 2)) { fail("saving fails"); continue; }
        Pic o = pic_of(s, k == PNM);
        for (int m = 0; m < 3; ++m) check_load(f, (Kind)k, o, m, 0, m, fmt("256x256 colours as %s", KN[k]), 0, k == PNM ? -1 : 1.6);
    }
    // JPEG: lossy, so near the original for gray images of any content and for smooth colours
    const int JW = pick(20, 34);
    for (int w = 1; w <= JW; ++w) for (int h = 1; h <= JW; ++h) for (int pt = 0; pt < 5; ++pt) if (begin("jpeg-gray")) {
        int api = (w + h + pt) % 6, pad = (w + h) % 3;
        describe([&] { return fmt("JPEG %dx%d gray pad %d pattern %d", w, h, pad, pt); });
        Src s(w, h, pad, false, false, [&](int x, int y, int c) { return pattern(pt, x, y, c, w, h); });
        S f = tmpfile((S("im") + EXT[2][(w + h) % 6]).c_str()); int fd = free_fd(); size_t hp = heap(); step();
        if (!do_save(s.im, f, JPG, api)) { fail("saving a %dx%d image as JPEG fails", w, h); continue; }
        if (fd_leak(fd) || heap() != hp) fail("saving JPEG leaks");
        Pic p, o = pic_of(s, true);
        if (!dec_jpeg(read_file(f), p) || p.w != w || p.h != h || p.nc != 1) { fail("%dx%d gray image saved as JPEG is not a valid JPEG file of that shape", w, h); continue; }
        for (size_t i = 0; i < p.v.size(); ++i) if (abs(p.v[i] - o.v[i]) > 4) { fail("saved JPEG has %d instead of %d", p.v[i], o.v[i]); break; }
        for (int m = 0; m < 3; ++m) check_load(f, JPG, o, m, (api + m) % 6, (w + h + m) % N_UDEST, fmt("a saved %dx%d gray JPEG", w, h), 4, 4);
    }
    static const int CV[] = {0, 37, 128, 200, 255};
    for (int w = 1; w <= 17; w += 4) for (int h = 1; h <= 17; h += 4) for (int r : CV) for (int g : CV) for (int b : CV) if (begin("jpeg-colour")) {
        int api = (w + h + r + g) % 6;
        describe([&] { return fmt("JPEG %dx%d colour %d %d %d", w, h, r, g, b); });
        int q[3] = {r, g, b};
        Src s(w, h, w % 3, false, true, [&](int x, int y, int c) { return c == 3 ? (x * 31 + y) % 256 : q[c] < 100 ? q[c] + (x + y) / 2 : q[c] - (x + y) / 2; });
        S f = tmpfile((S("im") + EXT[2][(w + h) % 6]).c_str()); int fd = free_fd(); size_t hp = heap(); step();
        if (!do_save(s.im, f, JPG, api)) { fail("saving a %dx%d image as JPEG fails", w, h); continue; }
        if (fd_leak(fd) || heap() != hp) fail("saving JPEG leaks");
        Pic p, o = pic_of(s, true);
        if (!dec_jpeg(read_file(f), p) || p.w != w || p.h != h || p.nc != 3) { fail("%dx%d RGBA image saved as JPEG is not a valid JPEG file of that shape", w, h); continue; }
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < 3; ++c) if (abs(p.at(x, y, c) - o.at(x, y, c)) > 6) { fail("saved JPEG has %d instead of %d at (%d,%d,%d)", p.at(x, y, c), o.at(x, y, c), x, y, c); x = w; y = h; break; }
        for (int m = 0; m < 3; ++m) check_load(f, JPG, o, m, (api + m) % 6, (w + h + m) % N_UDEST, fmt("a saved %dx%d colour JPEG", w, h), 6, 6);
    }
}
// sizes beyond every internal buffer, one dimension at a time
static void large() {
    static const int BIG[] = {63, 65, 127, 129, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025, 2047, 2049, 4097, 9999, 10001, 40000};
    for (int n : BIG) for (int tall = 0; tall < 2; ++tall) for (int k = 0; k < 3; ++k) for (int rgba = 0; rgba < 2; ++rgba) for (int pad = 0; pad < 4; pad += 3) if (begin("large-images")) {
        int w = tall ? 3 : n, h = tall ? n : 3, api = (n + rgba + pad + k) % 6; describe([&] { return fmt("%s %dx%d %s pad %d", KN[k], w, h, rgba ? "RGBA" : "gray", pad); });
        Src s(w, h, pad, false, rgba, [&](int x, int y, int c) { return k == JPG ? (rgba ? 60 + (x + y + c * 9) / 3 % 50 : (x * 37 + y * 101 + x * y * 7 + (x >> 6) * 13) % 256) : c == 3 ? 255 - (x + 3 * y) % 250 : (x * 7 + y * 13 + c * 5 + (x >> 8) * 3 + (y >> 8)) % 251; });
        S f = tmpfile((S("big") + EXT[k][n % 6]).c_str()); int fd = free_fd(); size_t hp = heap(); step();
        if (!do_save(s.im, f, (Kind)k, api)) { fail("saving a %dx%d image as %s fails", w, h, KN[k]); continue; }
        if (fd_leak(fd) || heap() != hp) fail("saving %s leaks", KN[k]);
        if (!s.untouched()) fail("saving changes the image");
        S data = read_file(f); Pic p, o = pic_of(s, k != PNG); bool ok = k == PNM ? dec_pnm(data, p) : k == PNG ? dec_png(data, p) : dec_jpeg(data, p);
        if (!ok || p.w != w || p.h != h || p.nc != (!rgba ? 1 : k == PNG ? 4 : 3)) { fail("%dx%d image saved as %s is not a valid file of that shape", w, h, KN[k]); continue; }
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < p.nc; ++c) if (abs(p.at(x, y, c) - o.at(x, y, c)) > (k == JPG ? (rgba ? 40 : 4) : 0)) { fail("saved %s has %d instead of %d at (%d,%d,%d)", KN[k], p.at(x, y, c), o.at(x, y, c), x, y, c); y = h; x = w; break; }
        if (k == JPG && rgba) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { auto lum = [&](const Pic &q) { return 0.299 * q.at(x, y, 0) + 0.587 * q.at(x, y, 1) + 0.114 * q.at(x, y, 2); }; if (fabs(lum(p) - lum(o)) > 5) { fail("saved JPEG has brightness %g instead of %g at (%d,%d)", lum(p), lum(o), x, y); y = h; break; } }
        if (k == JPG) { o = p; if (p.nc == 3) { o = mk(w, h, 4); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < 4; ++c) o.at(x, y, c) = c == 3 ? 255 : p.at(x, y, c); } } // compared with another decoder
        for (int m = 0; m < 3; ++m) check_load(f, (Kind)k, o, m, (api + m + 1) % 6, (m + n) % N_UDEST, fmt("a saved %dx%d %s %s", w, h, rgba ? "RGBA" : "gray", KN[k]), k == JPG ? 2 : 0, k == PNM ? -1 : k == PNG ? 1.6 : 3);
    }
    // long and repeated comments in a PNM header
    for (int len : {0, 1, 2, 77, 78, 79, 80, 127, 128, 254, 255, 256, 257, 1022, 1023, 1024, 1025, 4095, 4096, 4097, 70000}) for (int reps : {1, 2, 5}) for (int c3 = 0; c3 < 2; ++c3) if (begin("long-comments")) {
        describe([&] { return fmt("%d comments of %d characters", reps, len); });
        S data = fmt("P%d\n", c3 ? 6 : 5); for (int i = 0; i < reps; ++i) { data += "#"; for (int k = 0; k < len; ++k) data += "12 7#x\r"[(k + i) % 7]; data += "\n"; } data += "3 2\n255\n"; Pic o = mk(3, 2, c3 ? 4 : 1); int n = 0;
        for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) { for (int c = 0; c < (c3 ? 3 : 1); ++c, ++n) { int v = (n * 29 + 10) % 256; data += (char)v; o.at(x, y, c) = v; } if (c3) o.at(x, y, 3) = 255; }
        S f = tmpfile("cmt.pnm"); write_file(f, data); for (int m = 0; m < 3; ++m) check_load(f, PNM, o, m, (m + len) % 6, m, fmt("a PNM with %d comments of %d characters", reps, len), 0, -1);
    }
}
// files written by others
static void foreign() {
    struct V { const char *n; int ct, depth; } VS[] = {{"gray", 0, 1}, {"gray", 0, 2}, {"gray", 0, 4}, {"gray", 0, 8}, {"gray", 0, 16}, {"gray+alpha", 4, 8}, {"gray+alpha", 4, 16}, {"RGB", 2, 8}, {"RGB", 2, 16}, {"RGBA", 6, 8}, {"RGBA", 6, 16}, {"palette", 3, 1}, {"palette", 3, 2}, {"palette", 3, 4}, {"palette", 3, 8}};
    const int W = pick(9, 17), H = pick(9, 12);
    for (auto &v : VS) for (int il = 0; il < 2; ++il) for (int tr = 0; tr < 2; ++tr) for (int w = 1; w <= W; ++w) for (int h = 1; h <= H; ++h) for (int pt = 0; pt < 2; ++pt) if (begin("foreign-png")) {
        if (tr && (v.ct == 4 || v.ct == 6)) continue; // no transparency chunk there
        S what = fmt("a %dx%d %s PNG of %d bits%s%s", w, h, v.n, v.depth, il ? ", interlaced" : "", tr ? ", with transparency chunk" : "");
        describe([&] { return what + fmt(", pattern %d", pt); });
        int fnc = v.ct == 0 || v.ct == 3 ? 1 : v.ct == 4 ? 2 : v.ct == 2 ? 3 : 4, mx = (1 << v.depth) - 1;
        std::vector<int> sm;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < fnc; ++c) sm.push_back(((x * 3 + y * 5 + c * 7 + pt * x * y) * (v.depth == 16 ? 3001 : v.depth == 8 ? 19 : 1)) & mx);
        std::vector<png_color> pal; if (v.ct == 3) for (int i = 0; i <= mx; ++i) pal.push_back(png_color{(png_byte)(i * 40 + 3), (png_byte)(255 - i * 17), (png_byte)(i * i + 9)});
        std::vector<png_byte> tb; png_color_16 tc; memset(&tc, 0, sizeof tc); bool have_tc = false;
        if (tr) { if (v.ct == 3) for (int i = 0; i <= mx && i < 5; ++i) tb.push_back(i * 60); else { have_tc = true; if (v.ct == 0) tc.gray = sm[0]; else tc.red = sm[0], tc.green = sm[1], tc.blue = sm[2]; } }
        S f = tmpfile("foreign.png"); write_file(f, enc_png(w, h, v.ct, v.depth, il, sm, pal, tb, have_tc ? &tc : nullptr)); step();
        // meaning of the samples; transparency of gray images is dropped as gray, kept in RGBA
        bool gray = v.ct == 0 || v.ct == 4; Pic o = mk(w, h, 4), g1 = mk(w, h, 1);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            const int *p = &sm[((size_t)y * w + x) * fnc]; auto c8 = [&](int q) { return v.depth == 16 ? q >> 8 : q * 255 / mx; };
            int rgb[4] = {0, 0, 0, 255};
            if (gray) { rgb[0] = rgb[1] = rgb[2] = c8(p[0]); g1.at(x, y, 0) = rgb[0]; if (v.ct == 0 && tr && p[0] == tc.gray) rgb[3] = 0; }
            else if (v.ct == 3) { rgb[0] = pal[p[0]].red; rgb[1] = pal[p[0]].green; rgb[2] = pal[p[0]].blue; if (p[0] < (int)tb.size()) rgb[3] = tb[p[0]]; }
            else { for (int c = 0; c < 3; ++c) rgb[c] = c8(p[c]); if (v.ct == 6) rgb[3] = c8(p[3]); else if (tr && p[0] == tc.red && p[1] == tc.green && p[2] == tc.blue) rgb[3] = 0; }
            for (int c = 0; c < 4; ++c) o.at(x, y, c) = rgb[c];
        }
        for (int m = 0; m < 3; ++m) for (int dk = 0; dk < N_UDEST; ++dk)
            check_load(f, PNG, gray && m < 2 ? g1 : o, m, (m + dk + w) % 6, dk, what, v.depth == 16 ? 1 : 0, 1.6);
    }
    const int JW = pick(18, 33);
    for (int kind = 0; kind < 5; ++kind) for (int w = 1; w <= JW; ++w) for (int h = 1; h <= JW; ++h) for (int pt = 0; pt < 3; ++pt) if (begin("foreign-jpeg")) {
        static const char *KD[] = {"gray", "gray progressive", "YCbCr 4:2:0", "YCbCr 4:4:4 progressive", "RGB"};
        S what = fmt("a %dx%d %s JPEG", w, h, KD[kind]); describe([&] { return what + fmt(" pattern %d", pt); });
        Pic p = mk(w, h, kind < 2 ? 1 : 3); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < p.nc; ++c) p.at(x, y, c) = (int)pattern(pt == 2 ? 4 : pt == 1 ? 3 : 0, x, y, c * (pt + 1), w, h);
        S data = enc_jpeg(p, kind < 2 ? JCS_GRAYSCALE : JCS_RGB, kind < 2 ? JCS_GRAYSCALE : kind == 4 ? JCS_RGB : JCS_YCbCr, 90, kind == 1 || kind == 3, kind == 2 ? 2 : 1);
        S f = tmpfile("foreign.jpg"); write_file(f, data); Pic ref, o, g; dec_jpeg(data, ref); dec_jpeg(data, g, 1); step();
        o = ref; if (ref.nc == 3) { o = mk(w, h, 4); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < 4; ++c) o.at(x, y, c) = c == 3 ? 255 : ref.at(x, y, c); }
        for (int m = 0; m < 3; ++m) check_load(f, JPG, m == 1 ? g : o, m, (m + w) % 6, (w + h + m) % N_UDEST, what, 2, 2);
    }
    // CMYK has no RGBA counterpart here: refused or converted, but never a crash or leak
    for (int w = 1; w <= 9; ++w) for (int h = 1; h <= 9; ++h) for (int file = 0; file < 2; ++file) for (int m = 0; m < 3; ++m) if (begin("cmyk-jpeg")) {
        describe([&] { return fmt("%dx%d %s JPEG loaded %s", w, h, file ? "YCCK" : "CMYK", MODE[m]); });
        Pic p = mk(w, h, 4); for (size_t i = 0; i < p.v.size(); ++i) p.v[i] = i * 7 % 256;
        S f = tmpfile("cmyk.jpg"); write_file(f, enc_jpeg(p, JCS_CMYK, file ? JCS_YCCK : JCS_CMYK, 90, false, 1)); step();
        int fd = free_fd(); size_t hp = heap(); NXImage *d = nx_image_alloc(); nx_image_load(d, f.c_str(), LM[m]); nx_image_free(d);
        if (fd_leak(fd) || heap() != hp) fail("loading a CMYK JPEG leaks");
    }
    // PNM headers: any white space between the fields, comments after the magic number, one white space before the data
    static const char *A[] = {"\n", " ", "\t", "\n\n", " \n", "\n# a comment\n", "\n#x\n#y 7 9\n", " #5 5 5\n", "\n#\n"}, *B[] = {" ", "\n", "\t", "  ", " \n "}, *E[] = {"\n", " ", "\t", "\r"};
    static const unsigned char FIRST[] = {' ', '\n', '#', '5', 0, 255, '\t', 13};
    for (int c3 = 0; c3 < 2; ++c3) for (const char *a : A) for (const char *b : B) for (const char *b2 : B) for (const char *e : E) for (unsigned char f0 : FIRST) for (int lev = 0; lev < 2; ++lev) if (begin("pnm-headers")) {
        int w = 3, h = 2, L = lev ? 100 : 255; S hd = fmt("P%d%s%d%s%d%s%d%s", c3 ? 6 : 5, a, w, b, h, b2, L, e);
        describe([&] { return "header " + esc(hd) + fmt(" first byte %d", f0); });
        S data = hd; Pic o = mk(w, h, c3 ? 4 : 1); int n = 0;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { for (int c = 0; c < (c3 ? 3 : 1); ++c, ++n) { int v = n ? (n * 29 + 10) % L : lev ? f0 % 100 : f0; data += (char)v; o.at(x, y, c) = v; } if (c3) o.at(x, y, 3) = 255; }
        data += "trailing"; // more images may follow
        S f = tmpfile("hdr.pnm"); write_file(f, data);
        if (lev) { // fewer levels are stored as they are
            for (int api = 0; api < 6; ++api) check_load(f, PNM, o, 0, api, 0, "a PNM with 100 levels", 255, -1);
            continue;
        }
        for (int m = 0; m < 3; ++m) for (int api = 0; api < 6; ++api) check_load(f, PNM, o, m, api, (m + api) % N_UDEST, "PNM with header " + esc(hd), 0, -1);
    }
}
// must be refused by all four loaders without leaving anything behind
static void refused(const S &f, Kind k, const S &what) {
    for (int m = 0; m < 3; ++m) for (int api = 0; api < 6; ++api) {
        int fd = free_fd(); size_t hp = heap(); NXImage *d = udest((m + api) % N_UDEST, 3, 2); step();
        bool ok = do_load(d, f, LM[m], k, api);
        if (ok) fail("%s is loaded without an error (%s, loader %d)", what.c_str(), MODE[m], api);
        if (!ok && !(api & 1)) { // the image is still a usable image
            nx_image_resize(d, 4, 3, -1, NX_IMAGE_RGBA, NX_IMAGE_UCHAR); memset(d->data.uc, 1, (size_t)d->row_stride * 3); nx_image_free(d);
            if (fd_leak(fd)) fail("refusing %s leaves a file open", what.c_str());
            if (heap() != hp) fail("refusing %s leaks %zd bytes (%s, loader %d)", what.c_str(), (ssize_t)(heap() - hp), MODE[m], api);
        } else { nx_image_free(d); for (int i = fd; i < fd + 4; ++i) close(i); }
    }
}
static S saved(Kind k, int w, int h, bool rgba, int pt) {
    Src s(w, h, 0, false, rgba, [&](int x, int y, int c) { return pattern(pt, x, y, c, w, h); });
    S f = tmpfile("seed.img"); do_save(s.im, f, k, 2); return read_file(f);
}
static void broken() {
    for (int k = 0; k < 2; ++k) for (int rgba = 0; rgba < 2; ++rgba) for (int sz = 0; sz < pick(4, 9); ++sz) {
        int w = 1 + sz * 2, h = 1 + sz; S d = saved((Kind)k, w, h, rgba, 0);
        for (size_t n = 0; n < d.size(); ++n) if (begin("truncated")) {
            describe([&] { return fmt("first %zu of %zu bytes of a %dx%d %s %s", n, d.size(), w, h, rgba ? "RGBA" : "gray", KN[k]); });
            S f = tmpfile("trunc.img"); write_file(f, d.substr(0, n));
            refused(f, (Kind)k, fmt("a %s truncated to %zu of %zu bytes", KN[k], n, d.size()));
            state(mix(hash(d.substr(0, n)), 5));
        }
    }
    // every byte changed to every of a set of values: no crash, no leak; damaged PNG data is noticed
    for (int k = 0; k < 2; ++k) for (int rgba = 0; rgba < 2; ++rgba) {
        S d = saved((Kind)k, 5, 3, rgba, 0); size_t hdr = k == PNM ? d.size() - 15 * (rgba ? 3 : 1) : d.size();
        for (size_t i = 0; i < hdr; ++i) for (int v = 0; v < 256; v += (thorough() || k == PNM ? 1 : 5)) if (begin("damaged")) {
            if ((unsigned char)d[i] == v) continue;
            S x = d; x[i] = (char)v; describe([&] { return fmt("%s byte %zu = %d", KN[k], i, v); });
            S f = tmpfile("dmg.img"); write_file(f, x);
            for (int m = 0; m < 3; ++m) for (int api = 0; api < 4; api += 2) {
                int fd = free_fd(); size_t hp = heap(); NXImage *im = udest(m, 5, 3); step(); NXResult r = NX_FAIL;
                // a size too large to allocate is a fatal error by design
                if (!guarded([&] { r = do_load(im, f, LM[m], (Kind)k, api) ? NX_OK : NX_FAIL; })) { for (int q = fd; q < fd + 4; ++q) close(q); nx_image_free(im); continue; }
                if (r == NX_OK && k == PNG) fail("a PNG with byte %zu changed to %d is loaded without an error", i, v); // its checksums cover every byte
                state(mix(img_hash(im), r)); nx_image_free(im);
                if (fd_leak(fd)) fail("loading a damaged %s leaves a file open", KN[k]);
                if (heap() != hp) fail("loading a damaged %s leaks %zd bytes", KN[k], (ssize_t)(heap() - hp));
            }
        }
    }
    for (int rgba = 0; rgba < 2; ++rgba) { // libjpeg completes truncated data, so only safety is claimed
        S d = saved(JPG, 9, 7, rgba, 3);
        for (size_t n = 0; n < d.size(); ++n) if (begin("truncated-jpeg")) {
            describe([&] { return fmt("first %zu of %zu bytes of a JPEG", n, d.size()); });
            S f = tmpfile("trunc.jpg"); write_file(f, d.substr(0, n));
            for (int m = 0; m < 3; ++m) for (int api = 0; api < 4; api += 2) {
                int fd = free_fd(); size_t hp = heap(); NXImage *im = udest(m, 9, 7); step();
                bool ok = do_load(im, f, LM[m], JPG, api);
                if (ok && (im->width != 9 || im->height != 7)) fail("a truncated JPEG loads with other dimensions");
                if (ok && n < 20) fail("%zu bytes of a JPEG are loaded without an error", n);
                nx_image_free(im);
                if (fd_leak(fd) || heap() != hp) fail("loading a truncated JPEG leaks");
            }
        }
        for (size_t i = 0; i < d.size(); ++i) for (int v = 0; v < 256; v += pick(51, 17)) if (begin("damaged-jpeg")) {
            S x = d; x[i] = (char)v; if (x == d) continue;
            for (size_t q = 2; q + 8 < d.size(); ++q) if ((unsigned char)d[q] == 0xFF && (unsigned char)d[q + 1] == 0xC0 && i >= q + 5 && i < q + 9) x[i] = v % 2; // keep the size small
            describe([&] { return fmt("JPEG byte %zu = %d", i, v); });
            S f = tmpfile("dmg.jpg"); write_file(f, x);
            for (int m = 0; m < 3; ++m) {
                int fd = free_fd(); size_t hp = heap(); NXImage *im = udest(m, 9, 7); step(); nx_image_load(im, f.c_str(), LM[m]); nx_image_free(im);
                if (fd_leak(fd) || heap() != hp) fail("loading a damaged JPEG leaks");
            }
        }
    }
    static const struct { const char *n; S d; } BAD[] = {{"an empty file", ""}, {"a 3 byte file", "P5\n"}, {"a text file", "hello world\n"}, {"a bitmap", S("P4\n2 2\n\0\0\0\0", 11)}, {"an ASCII PNM", "P2\n2 2 255\n1 2 3 4\n"}, {"an ASCII PNM", "P3\n1 1 255\n1 2 3\n"}, {"an ASCII PNM", "P1\n1 1\n1\n"},
        {"a PNM with no size", "P5\nabc"}, {"a PNM of negative width", "P5\n-2 2 255\nabcdefgh"}, {"a PNM of negative height", "P6\n2 -2 255\nabcdefghijkl"}, {"a 16 bit PNM", "P5\n2 2 65535\nabcdefgh"}, {"a 16 bit PNM", "P6\n1 1 256\nabcdefgh"}, {"a PNM with no levels", "P5\n2 2 0\nabcd"}, {"a PNM with negative levels", "P5\n2 2 -1\nabcd"},
        {"an unterminated comment", "P5\n# comment"}, {"a PNM of an unknown kind", "P7\n2 2 255\nabcd"}, {"P0", "P0\n2 2 255\nabcd"}, {"a JPEG marker alone", "\xff\xd8\xff\xe0"}, {"a PNG signature alone", "\x89PNG\r\n\x1a\n"}, {"a damaged PNG signature", "\x89PNG\r\n\x1a\r\0\0\0\rIHDR"}, {"a gif", "GIF89a......"}};
    for (auto &b : BAD) if (begin("not-images")) {
        describe([&] { return S(b.n); }); S f = tmpfile("bad.img"); write_file(f, b.d);
        for (int m = 0; m < 3; ++m) for (int api = 0; api < 2; ++api) { NXImage *d = nx_image_alloc(); int fd = free_fd(); if (do_load(d, f, LM[m], PNM, api)) fail("%s is loaded as an image", b.n); if (!api && fd_leak(fd)) fail("refusing %s leaves a file open", b.n); for (int i = fd; i < fd + 4; ++i) if (api) close(i); nx_image_free(d); step(); }
        if (b.d.size() && (unsigned char)b.d[0] == 0xff) refused(f, JPG, b.n); else if (b.d.size() && (unsigned char)b.d[0] == 0x89) refused(f, PNG, b.n); else refused(f, PNM, b.n);
    }
    for (int k = 0; k < 3; ++k) if (begin("missing-file")) {
        describe([&] { return S(KN[k]); }); refused(tmpfile("does-not-exist.png"), (Kind)k, "a missing file"); refused(tmpfile("no-dir/x.png"), (Kind)k, "a missing directory");
    }
    // each loader refuses the other formats
    for (int k = 0; k < 3; ++k) for (int k2 = 0; k2 < 3; ++k2) if (k != k2 && begin("wrong-loader")) {
        describe([&] { return fmt("%s loader on a %s file", KN[k2], KN[k]); });
        S f = tmpfile("wrong.img"); write_file(f, saved((Kind)k, 5, 4, false, 0));
        for (int m = 0; m < 3; ++m) for (int api = 2; api < 4; ++api) { NXImage *d = nx_image_alloc(); int fd = free_fd(); if (do_load(d, f, LM[m], (Kind)k2, api)) fail("the %s loader loads a %s file", KN[k2], KN[k]); for (int i = fd; i < fd + 4; ++i) if (api & 1) close(i); nx_image_free(d); step(); }
    }
}
static void detection() {
    // by name
    static const char *BASE[] = {"a", "", "dir.png/a", "a.b", "./x", "a.jpg"};
    static const struct { const char *e; int f; } X[] = {{".pgm", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".PGM", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".ppm", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".PPM", NX_IMAGE_FILE_FORMAT_PNM_BINARY}, {".jpg", NX_IMAGE_FILE_FORMAT_JPEG}, {".JPG", NX_IMAGE_FILE_FORMAT_JPEG}, {".jpeg", NX_IMAGE_FILE_FORMAT_JPEG}, {".JPEG", NX_IMAGE_FILE_FORMAT_JPEG}, {".png", NX_IMAGE_FILE_FORMAT_PNG}, {".PNG", NX_IMAGE_FILE_FORMAT_PNG},
        {".txt", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".pn", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".pngx", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {".jpe", NX_IMAGE_FILE_FORMAT_UNKNOWN}, {"png", -1}};
    for (const char *b : BASE) for (auto &x : X) if (begin("detect-by-name")) {
        S n = S(b) + x.e; describe([&] { return n; }); step(); int e = x.f;
        if (e == -1) { if (n.find('.') != S::npos) continue; e = NX_IMAGE_FILE_FORMAT_UNKNOWN; }
        int g = nx_image_file_format_from_filename(n.c_str()); if (g != e) fail("the format of %s is %d instead of %d", n.c_str(), g, e);
        state(hash(n) + g);
    }
    // by content: all first bytes and second bytes
    for (int a = 0; a < 256; ++a) if (begin("detect-by-content")) {
        describe([&] { return fmt("first byte %d", a); });
        S f = tmpfile("magic");
        for (int b = 0; b < 256; ++b) for (int cd = 0; cd < 4; ++cd) {
            if (cd && a != 0x89 && b != 0xD8 && a != 'P' && (a + b) % 16) continue;
            unsigned char m[6] = {(unsigned char)a, (unsigned char)b, (unsigned char)(cd & 1 ? 0x4E : 0x31), (unsigned char)(cd & 2 ? 0x47 : 0x32), 1, 2};
            write_file(f, S((char *)m, 6)); int fd = free_fd(); int g = nx_image_file_format_from_header(f.c_str()); step();
            int e = NX_IMAGE_FILE_FORMAT_UNKNOWN;
            if (a == 'P' && b >= '4' && b <= '6') e = NX_IMAGE_FILE_FORMAT_PNM_BINARY;
            if (a == 'P' && b >= '1' && b <= '3') e = NX_IMAGE_FILE_FORMAT_PNM_ASCII;
            if (a == 0xFF && b == 0xD8) e = NX_IMAGE_FILE_FORMAT_JPEG;
            if (a == 0x89 && b == 0x50 && cd == 3) e = NX_IMAGE_FILE_FORMAT_PNG;
            if (g != e) fail("a file starting with %02x%02x%02x%02x is detected as %d instead of %d", m[0], m[1], m[2], m[3], g, e);
            if (fd_leak(fd)) fail("detecting the format leaves a file open");
            for (int n = 0; n < 4; ++n) if (b == 0x50 || b == 0xD8 || b == '5') { write_file(f, S((char *)m, n)); if (nx_image_file_format_from_header(f.c_str()) != NX_IMAGE_FILE_FORMAT_UNKNOWN) fail("a %d byte file has a format", n); if (fd_leak(fd)) fail("detecting the format leaves a file open"); }
        }
        if (nx_image_file_format_from_header(tmpfile("none").c_str()) != NX_IMAGE_FILE_FORMAT_UNKNOWN) fail("a missing file has a format");
    }
    // files of unknown extension are saved as PNM; content decides when loading
    static const char *UX[] = {"x", "x.img", "x.bmp", "x.tif", ".x"};
    for (const char *u : UX) for (int rgba = 0; rgba < 2; ++rgba) if (begin("unknown-extension")) {
        describe([&] { return S(u); }); Src s(7, 4, 2, false, rgba, [&](int x, int y, int c) { return pattern(0, x, y, c, 7, 4); });
        S f = tmpfile(u); Pic p; step(); if (nx_image_save(s.im, f.c_str()) != NX_OK || !dec_pnm(read_file(f), p)) fail("an image with file name %s is not saved as PNM", u); else check_load(f, PNM, pic_of(s, true), 0, 0, 0, u, 0, -1);
    }
    for (int k = 0; k < 3; ++k) for (int e = 0; e < 3; ++e) for (int x = 0; x < 6; ++x) if (begin("content-decides")) {
        describe([&] { return fmt("%s content in a file named x%s", KN[k], EXT[e][x]); });
        S f = tmpfile((S("x") + EXT[e][x]).c_str()); write_file(f, saved((Kind)k, 6, 5, false, 3)); Pic o = mk(6, 5, 1); for (int y = 0; y < 5; ++y) for (int q = 0; q < 6; ++q) o.at(q, y, 0) = (int)pattern(3, q, y, 0, 6, 5);
        for (int m = 0; m < 3; ++m) check_load(f, (Kind)k, o, m, 0, m, "a file named after another format", k == JPG ? 4 : 0, 4);
    }
}
static void p17() { roundtrip(); large(); foreign(); broken(); detection(); }

#include "imgio_fail.hh"

void mc_run() {
    if (!strcmp(PROP, "P17")) p17();
    else p18();
}
