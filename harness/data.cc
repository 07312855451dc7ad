// P37: dataset readers; P38: gnuplot scripts
#include "image_model.hh"
#include <algorithm>
#include <memory>
#include <sys/stat.h>
extern "C" {
#include "virg/nexus/nx_kitti_slam.h"
#include "virg/nexus/nx_temple_color_128.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
#include "virg/nexus/nx_gnuplot.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_image_io.h"
}
using namespace mc; typedef std::string S; typedef std::vector<double> D;
static bool on(const char *p) { return !strcmp(PROP, p); }

// ---------------------------------------------------------------- files
static S base; // a scratch directory per case
static void wipe(const S &d) { if (d.compare(0, G.tmp.size(), G.tmp) || d.size() <= G.tmp.size() + 1) abort(); S c = "rm -rf '" + d + "'"; if (system(c.c_str())) {} }
static void mkd(const S &p) { for (size_t i = base.size(); i <= p.size(); ++i) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0700); }
static void put(const S &p, const S &text) { mkd(p.substr(0, p.rfind('/'))); write_file(p, text); }
static void fresh() { base = tmpfile("set"); static bool used = false; if (used) wipe(base); used = true; mkdir(base.c_str(), 0700); }
static double num(int i, int k) { return std::round((((i * 31 + k * 17) % 97 - 48) * 0.0312537 + (k == 3 ? i * 0.5 : 0)) * 1e6) / 1e6; } // not a single precision number
static S time_text(int i) { return fmt("%.6e", i * 0.103721); }
static S rows(int i, int form) { S s; for (int k = 0; k < 12; ++k) s += fmt(form == 0 ? "%s%.9e" : form == 1 ? "%s%.12g" : "%s %.6f", k ? " " : "", num(i, k)); return s; }
static bool is_col_major(const double *p, int i) { for (int r = 0; r < 3; ++r) for (int c = 0; c < 4; ++c) if (std::fabs(p[c * 3 + r] - num(i, r * 4 + c)) > 1e-9) return false; return true; }
static void save(const S &p, int w, int h, int salt, bool rgba) { mkd(p.substr(0, p.rfind('/'))); Src s(w, h, 0, false, rgba, [&](int x, int y, int c) { return c == 3 ? 255 : (x * 29 + y * 53 + c * 71 + salt * 13) % 256; }); nx_image_xsave(s.im, p.c_str()); }
// kind 0: everything right; otherwise what is wrong
struct Kitti { int id = 0; bool gt = true; int n = 3, times = 3; int form = 0; int calib_cut = -1; int cams = 15; bool lidar = true; bool no_times = false, no_calib = false; };
static S kdesc(const Kitti &k) { return fmt("sequence %d, %d poses%s, %d times%s, format %d, calibration %s, cameras %x%s", k.id, k.n, k.gt ? "" : " (no file)", k.times, k.no_times ? " (no file)" : "", k.form, k.no_calib ? "missing" : k.calib_cut < 0 ? "complete" : fmt("cut at %d", k.calib_cut).c_str(), k.cams, k.lidar ? ", lidar" : ""); }
static S calib_text(int form) { S c; for (int i = 0; i < 4; ++i) c += fmt("P%d: ", i) + rows(100 + i, form) + "\n"; return c + (form ? "" : "Tr: 1 0 0 0 0 1 0 0 0 0 1 0\n"); }
static void lay(const Kitti &k) {
    S sd = base + fmt("/sequences/%02d", k.id); mkd(sd); S p, t; for (int i = 0; i < k.n; ++i) p += rows(i, k.form) + "\n"; for (int i = 0; i < k.times; ++i) t += time_text(i) + "\n";
    if (k.gt) put(base + fmt("/poses/%02d.txt", k.id), p); if (!k.no_times) put(sd + "/times.txt", t);
    if (!k.no_calib) { S c = calib_text(k.form); put(sd + "/calib.txt", k.calib_cut < 0 ? c : c.substr(0, k.calib_cut)); }
    for (int i = 0; i < 4; ++i) if (k.cams >> i & 1) mkd(sd + fmt("/image_%d", i)); if (k.lidar) mkd(sd + "/velodyne");
}
static NXKittiSLAMSequence *kopen(const Kitti &k, NXKittiSLAM *&ds, bool expect_ok) {
    NXKittiSLAMSequence *volatile q = nullptr; ds = nx_kitti_slam_new(base.c_str()); step();
    for (int i = 0; i < NX_KITTI_SLAM_MAX_SEQ_ID; ++i) if (!!ds->is_seq_available[i] != (i == k.id)) { fail("sequence %d is %savailable", i, ds->is_seq_available[i] ? "" : "not "); break; }
    NXKittiSLAM *d = ds; bool ok = guarded([&] { q = nx_kitti_slam_sequence_new(d, k.id); }); step();
    if (ok != expect_ok) { fail(ok ? "a damaged sequence is accepted" : "a good sequence is refused"); return nullptr; } if (!ok && fatal_kind != 1) fail("wrong kind of error");
    return ok ? q : nullptr;
}
static void kcheck(const Kitti &k) {
    NXKittiSLAM *ds; NXKittiSLAMSequence *q = kopen(k, ds, true); if (!q) return;
    S bad; if (q->length != k.times) bad = fmt("length %d", q->length); else if (!!q->is_gt_available != k.gt) bad = "availability of poses"; else if (q->seq_id != k.id || q->dataset != ds) bad = "identity"; else if (!k.gt && q->poses) bad = "poses without a file"; else if (!!q->is_lidar_available != k.lidar) bad = "lidar";
    for (int i = 0; i < 4 && bad.empty(); ++i) { if (!!q->is_cam_available[i] != (k.cams >> i & 1)) bad = fmt("camera %d", i); if (!is_col_major(q->calib[i], 100 + i)) bad = fmt("calibration of camera %d", i); }
    for (int i = 0; i < k.times && bad.empty(); ++i) { if (std::fabs(q->times[i] - strtod(time_text(i).c_str(), nullptr)) > 1e-12 * (1 + i)) bad = fmt("time %d", i); if (k.gt && !is_col_major(q->poses[i], i)) bad = fmt("pose %d", i); }
    if (!bad.empty()) fail("the sequence has a wrong %s", bad.c_str());
    state(mix(k.id * 7 + k.n, k.cams)); nx_kitti_slam_sequence_free(q); nx_kitti_slam_free(ds);
}
static void kitti() {
    for (int id = 0; id < NX_KITTI_SLAM_MAX_SEQ_ID; ++id) for (int gt = 0; gt < 2; ++gt) for (int form = 0; form < 3; ++form) for (int n : {0, 1, 2, 7}) if (begin("kitti")) { fresh(); Kitti k; k.id = id; k.gt = gt; k.form = form; k.n = k.times = n; k.cams = (id * 5 + n) % 16; k.lidar = id % 2; describe([&] { return kdesc(k); }); lay(k); kcheck(k); }
    for (int n : {298, 299, 300, 301, 302, 1299, 1300, 1301, 2300, 2301}) for (int gt = 0; gt < 2; ++gt) if (begin("kitti-long")) { fresh(); Kitti k; k.gt = gt; k.id = n % 22; k.n = k.times = n; describe([&] { return kdesc(k); }); lay(k); kcheck(k); }
    for (int cams = 0; cams < 16; ++cams) for (int l = 0; l < 2; ++l) if (begin("kitti-sensors")) { fresh(); Kitti k; k.cams = cams; k.lidar = l; describe([&] { return kdesc(k); }); lay(k); kcheck(k); }
    for (int n = 0; n < 6; ++n) for (int t = 0; t < 6; ++t) for (int gt = 0; gt < 2; ++gt) if (begin("kitti-mismatch")) { fresh(); Kitti k; k.n = n; k.times = t; k.gt = gt; describe([&] { return kdesc(k); }); lay(k); if (gt && n != t) { NXKittiSLAM *ds; kopen(k, ds, false); } else kcheck(k); }
    // a calibration file may be cut anywhere: it is refused unless all 48 numbers are there
    for (int form = 0; form < 2; ++form) { S full = calib_text(form); size_t last = full.find("P3:"); last = full.find('\n', last); for (size_t c = 0; c < last; c += thorough() ? 1 : 7) { if (full[c] != ' ' && c > last - 20) continue; if (begin("kitti-calibration")) { fresh(); Kitti k; k.form = form; k.calib_cut = (int)c; describe([&] { return kdesc(k); }); lay(k); NXKittiSLAM *ds; kopen(k, ds, false); } } }
    for (int w = 0; w < 4; ++w) if (begin("kitti-missing")) {
        fresh(); Kitti k; if (w == 0) k.no_times = true; if (w == 1) k.no_calib = true; if (w < 2) { lay(k); NXKittiSLAM *ds; kopen(k, ds, false); }
        else if (w == 2) { lay(k); NXKittiSLAM *ds = nx_kitti_slam_new(base.c_str()); for (int i = 1; i < 22; ++i) { if (guarded([&] { nx_kitti_slam_sequence_new(ds, i); })) fail("missing sequence %d is accepted", i); step(); } }
        else { S none = base + "/none"; if (guarded([&] { nx_kitti_slam_new(none.c_str()); })) fail("a missing base directory is accepted"); step(); nx_kitti_slam_free(nullptr); nx_kitti_slam_sequence_free(nullptr); }
    }
    for (int cam = 0; cam < 4; ++cam) for (int f = 0; f < 3; ++f) for (int id : {0, 7, 21}) for (int cams : {15, 9, 6}) if (begin("kitti-frames")) {
        fresh(); Kitti k; k.id = id; k.cams = cams; lay(k); for (int c = 0; c < 4; ++c) if (cams >> c & 1) for (int i = 0; i < 3; ++i) if (!(c == 3 && i == 2)) save(base + fmt("/sequences/%02d/image_%d/%06d.png", id, c, i), 4 + c, 3 + i, c * 3 + i, c >= 2);
        describe([&] { return fmt("camera %d frame %d of sequence %d, cameras %x", cam, f, id, cams); });
        NXKittiSLAM *ds; NXKittiSLAMSequence *q = kopen(k, ds, true); if (!q) continue; NXImage *im = dest_kind((f + cam) % 3 * 2, 3, 3); bool there = (cams >> cam & 1) && !(cam == 3 && f == 2); bool ok = guarded([&] { nx_kitti_slam_sequence_xload_frame(q, cam, f, im); }); step();
        if (ok != there) fail(ok ? "a missing frame is loaded" : "a frame is not loaded");
        if (ok && there && shape_is(im, 4 + cam, 3 + f, cam >= 2 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, "the frame")) for (int y = 0; y < im->height; ++y) for (int x = 0; x < im->width; ++x) if (px(im, x, y) != (x * 29 + y * 53 + (cam * 3 + f) * 13) % 256) { fail("wrong picture at (%d,%d)", x, y); y = 99; break; }
        nx_image_free(im); nx_kitti_slam_sequence_free(q); nx_kitti_slam_free(ds);
    }
    for (int f : {9, 10, 99, 100, 255, 256, 299, 300, 301, 999, 1000, 1233, 9999, 10000, 65536, 100011}) if (begin("kitti-late-frames")) {
        fresh(); Kitti k; k.gt = f < 5000; k.n = k.times = f < 5000 ? 1234 : 100012; lay(k); for (int i : {f % 100 == f ? 1 : f % 100, f / 10, f % 10000 == f ? 2 : f % 10000, f % 65536 == f ? 3 : f % 65536, f % 100000 == f ? 4 : f % 100000, f}) save(base + fmt("/sequences/00/image_1/%06d.png", i), 5, 4, i, false); describe([&] { return fmt("frame %d of 1234", f); });
        NXKittiSLAM *ds; NXKittiSLAMSequence *q = kopen(k, ds, true); if (!q) continue; NXImage *im = nx_image_alloc(); step(); if (!guarded([&] { nx_kitti_slam_sequence_xload_frame(q, 1, f, im); })) fail("frame %d is not loaded", f); else if (shape_is(im, 5, 4, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, "the frame") && px(im, 2, 1) != (2 * 29 + 53 + f * 13) % 256) fail("frame %d is another picture", f);
        nx_image_free(im); nx_kitti_slam_sequence_free(q); nx_kitti_slam_free(ds);
    }
    for (int gt = 0; gt < 2; ++gt) for (int n : {0, 3, 305}) if (begin("kitti-leaks")) { fresh(); Kitti k; k.gt = gt; k.n = k.times = n; lay(k); size_t h[3]; for (size_t &x : h) { NXKittiSLAM *ds = nx_kitti_slam_new(base.c_str()); nx_kitti_slam_sequence_free(nx_kitti_slam_sequence_new(ds, 0)); nx_kitti_slam_free(ds); x = heap(); } step(3); if (h[2] != h[1]) fail("opening a sequence leaks"); }
}
static const char *ATT[] = {"VI", "SV", "OCC", "DEF", "MB", "FM", "IPR", "OPR", "OV", "BC", "LR"};
static float gtv(int i, int c) { return (i * 7 + c * 11) % 53 + 0.25f * c; }
static void tlay(const S &name, int s, int e, int mask, int rot, int lines, int form) {
    S d = base + "/" + name; mkd(d); put(d + "/" + name + "_frames.txt", fmt(form == 1 ? "%d,%d" : form ? "%d,%d\r\n" : "%d,%d\n", s, e)); const char *nl = form == 2 ? "\r\n" : "\n"; S a; for (int i = 0; i < 11; ++i) { int j = (i + rot) % 11; if (mask >> j & 1) a += S(a.empty() ? "" : nl) + ATT[j]; } if (form != 1 && !a.empty()) a += nl; put(d + "/" + name + "_att.txt", a);
    S g; for (int i = 0; i < lines; ++i) g += fmt(form == 2 ? "%g,%g,%g,%g\r\n" : "%g,%g,%g,%g\n", gtv(i, 0), gtv(i, 1), gtv(i, 2), gtv(i, 3)); put(d + "/" + name + "_gt.txt", g);
}
static void tcheck(const S &name, int s, int e, int mask) {
    NXTempleColor128Sequence *q = nx_temple_color_128_sequence_new(base.c_str(), name.c_str()); step(); S bad;
    if (name != q->name || base != q->base_dir) bad = "name"; else if (q->start_frame != s || q->end_frame != e || q->length != e - s + 1) bad = "frame range"; else if (q->attributes != mask) bad = fmt("attribute set %x instead of %x", q->attributes, mask);
    for (int i = 0; i <= e - s && bad.empty(); ++i) for (int c = 0; c < 4; ++c) if (q->ground_truth[i][c] != gtv(i, c)) bad = fmt("ground truth %d", i);
    if (!bad.empty()) fail("the sequence has a wrong %s", bad.c_str()); state(mix(hash(name), mask * 1000 + e)); nx_temple_color_128_sequence_free(q);
}
static void temple() {
    for (int i = 0; i < NX_TEMPLE_COLOR_128_N_SEQ; ++i) for (int f = 0; f < 3; ++f) if (begin("temple")) { fresh(); S n = NX_TEMPLE_COLOR_128_SEQ_NAMES[i]; int s = 1 + i % 5 * 37, e = s + i % 9; describe([&] { return n; }); tlay(n, s, e, (i * 37) % 2048, i % 11, e - s + 1 + i % 2, f); tcheck(n, s, e, (i * 37) % 2048); }
    for (int m = 0; m < 2048; ++m) if (begin("temple-attributes")) { fresh(); describe([&] { return fmt("attributes %x", m); }); tlay("Bolt", 3, 5, m, m % 11, 3, m % 3); tcheck("Bolt", 3, 5, m); }
    for (int s = 0; s < 4; ++s) for (int n = 1; n <= 5; ++n) for (int lines = 0; lines <= 6; ++lines) if (begin("temple-lines")) { fresh(); tlay("Bird", s, s + n - 1, 5, 0, lines, 0); describe([&] { return fmt("%d frames, %d lines", n, lines); }); if (lines >= n) tcheck("Bird", s, s + n - 1, 5); else { if (guarded([&] { nx_temple_color_128_sequence_new(base.c_str(), "Bird"); })) fail("%d lines for %d frames are accepted", lines, n); step(); } }
    for (int n : {99, 100, 255, 256, 257, 299, 301, 999, 1000, 1023, 1025, 3872}) for (int s : {1, 9, 10000}) if (begin("temple-long")) { fresh(); tlay("Bird", s, s + n - 1, 6, 2, n, n % 3); describe([&] { return fmt("%d frames from %d", n, s); }); tcheck("Bird", s, s + n - 1, 6); }
    for (int k = 0; k < 8; ++k) if (begin("temple-missing")) {
        fresh(); tlay("Cup", 1, 2, 3, 0, 2, 0); S d = base + "/Cup/Cup_", nm = "Cup", b = base; describe([&] { return fmt("kind %d", k); });
        if (k == 0) unlink((d + "frames.txt").c_str()); if (k == 1) unlink((d + "att.txt").c_str()); if (k == 2) unlink((d + "gt.txt").c_str()); if (k == 3) put(d + "frames.txt", "1"); if (k == 4) put(d + "frames.txt", "x,y"); if (k == 5) nm = "Zebra"; if (k == 6) b += "/none"; if (k == 7) nm = "Deer";
        if (guarded([&] { nx_temple_color_128_sequence_new(b.c_str(), nm.c_str()); })) fail("a damaged sequence is accepted"); else if (fatal_kind != 1) fail("wrong kind of error"); step();
    }
    for (int s : {1, 2, 8, 98, 997, 9998}) for (int f = 0; f < 4; ++f) for (int mode = -1; mode < 2; ++mode) for (int rgba = 0; rgba < 2; ++rgba) if (begin("temple-frames")) {
        fresh(); tlay("Girl", s, s + 3, 1, 0, 4, 0); for (int i = 0; i < 4; ++i) if (i != 3 || s != 2) save(base + fmt("/Girl/img/%04d.jpg", s + i), 9 + i, 8, i, rgba); describe([&] { return fmt("frame %d of %d.., mode %d", s + f, s, mode); });
        NXTempleColor128Sequence *q = nx_temple_color_128_sequence_new(base.c_str(), "Girl"); NXImage *im = dest_kind(f % 3 * 2, 5, 5); bool there = f != 3 || s != 2; bool ok = guarded([&] { nx_temple_color_128_sequence_xload_frame(q, s + f, im, (NXImageLoadMode)mode); }); step();
        if (ok != there) fail(ok ? "a missing frame is loaded" : "a frame is not loaded");
        if (ok && there) { NXImage *ref = nx_image_alloc(); nx_image_xload(ref, (base + fmt("/Girl/img/%04d.jpg", s + f)).c_str(), (NXImageLoadMode)mode); bool color = mode == 1 || (mode == -1 && rgba); if (shape_is(im, 9 + f, 8, color ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, "the frame") && img_hash(im) != img_hash(ref)) fail("frame %d is another picture", s + f); nx_image_free(ref); }
        nx_image_free(im); nx_temple_color_128_sequence_free(q);
    }
    if (begin("temple-leaks")) { fresh(); tlay("Girl", 1, 9, 77, 0, 9, 0); size_t h[3]; for (size_t &x : h) { nx_temple_color_128_sequence_free(nx_temple_color_128_sequence_new(base.c_str(), "Girl")); x = heap(); } step(3); nx_temple_color_128_sequence_free(nullptr); if (h[2] != h[1]) fail("opening a sequence leaks"); }
}
static S htext(int i, int form) { S s; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) s += fmt(form ? "   %.9e%s" : "%.12g%s", num(i, r * 3 + c), c == 2 ? "\n" : " "); return s; }
static void vgg() {
    for (int i = 0; i < NX_VGG_AFFINE_N_SEQ; ++i) for (int form = 0; form < 2; ++form) if (begin("vgg")) {
        fresh(); S n = NX_VGG_AFFINE_SEQ_NAMES[i]; for (int k = 2; k <= 6; ++k) put(base + "/" + n + fmt("/H1to%dp", k), htext(k + i, form)); describe([&] { return n; });
        NXVGGAffineSequence *q = nx_vgg_affine_sequence_new(base.c_str(), n.c_str()); step(); S bad; if (n != q->name || base != q->base_dir) bad = "name"; else if (q->length != 6) bad = "length";
        for (int k = 0; k < 6 && bad.empty(); ++k) for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) if (std::fabs(q->h[k][c * 3 + r] - (k ? num(k + 1 + i, r * 3 + c) : r == c)) > 1e-9) bad = fmt("homography %d", k);
        if (!bad.empty()) fail("the sequence has a wrong %s", bad.c_str()); state(hash(n)); nx_vgg_affine_sequence_free(q);
    }
    for (int k = 2; k <= 6; ++k) for (int cut = -1; cut < 9; ++cut) if (begin("vgg-damaged")) {
        fresh(); for (int j = 2; j <= 6; ++j) { S t = htext(j, 0); if (j == k) { if (cut < 0) continue; size_t p = 0; for (int c = 0; c < cut; ++c) { p = t.find_first_of(" \n", p); p = t.find_first_not_of(" \n", p); } t = t.substr(0, p); } put(base + fmt("/graf/H1to%dp", j), t); }
        describe([&] { return fmt("file %d has %d numbers", k, cut); }); if (guarded([&] { nx_vgg_affine_sequence_new(base.c_str(), "graf"); })) fail("a homography file with %d numbers is accepted", cut); else if (fatal_kind != 1) fail("wrong kind of error"); step();
    }
    for (int k = 0; k < 3; ++k) if (begin("vgg-missing")) { fresh(); for (int j = 2; j <= 6; ++j) put(base + fmt("/wall/H1to%dp", j), htext(j, 0)); S b = k == 0 ? base + "/none" : base, n = k == 1 ? "sofa" : k == 2 ? "bark" : "wall"; if (guarded([&] { nx_vgg_affine_sequence_new(b.c_str(), n.c_str()); })) fail("a missing sequence is accepted"); step(); }
    for (int f = 0; f < 6; ++f) for (int kind = 0; kind < 4; ++kind) for (int mode = -1; mode < 2; ++mode) if (begin("vgg-frames")) { // kind: 0 ppm, 1 pgm, 2 both, 3 none
        fresh(); for (int j = 2; j <= 6; ++j) put(base + fmt("/ubc/H1to%dp", j), htext(j, 0)); for (int j = 1; j <= 6; ++j) { if (kind == 0 || kind == 2) save(base + fmt("/ubc/img%d.ppm", j), 4 + j, 5, j, true); if (kind == 1 || kind == 2) save(base + fmt("/ubc/img%d.pgm", j), 3 + j, 6, j + 9, false); }
        describe([&] { return fmt("frame %d, files %d, mode %d", f, kind, mode); }); NXVGGAffineSequence *q = nx_vgg_affine_sequence_new(base.c_str(), "ubc"); NXImage *im = dest_kind(f % 3 * 2, 4, 4); bool ok = guarded([&] { nx_vgg_affine_sequence_xload_frame(q, f, im, (NXImageLoadMode)mode); }); step();
        if (ok != (kind != 3)) fail(ok ? "a missing frame is loaded" : "a frame is not loaded"); bool pgm = kind == 1, color = mode == 1 || (mode == -1 && !pgm);
        if (ok && kind != 3 && shape_is(im, (pgm ? 4 : 5) + f, pgm ? 6 : 5, color ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR, "the frame")) { NXImage *ref = nx_image_alloc(); nx_image_xload(ref, (base + fmt("/ubc/img%d.%s", f + 1, pgm ? "pgm" : "ppm")).c_str(), (NXImageLoadMode)mode); if (img_hash(im) != img_hash(ref)) fail("frame %d is another picture", f); if (mode != 0 && px(im, 1, 1) != (29 + 53 + (f + 1 + (pgm ? 9 : 0)) * 13) % 256) fail("frame %d has wrong pixels", f); nx_image_free(ref); }
        nx_image_free(im); nx_vgg_affine_sequence_free(q);
    }
    if (begin("vgg-leaks")) { fresh(); for (int j = 2; j <= 6; ++j) put(base + fmt("/wall/H1to%dp", j), htext(j, 0)); save(base + "/wall/img1.pgm", 4, 4, 1, false); size_t h[3]; NXImage *im = nx_image_alloc(); for (size_t &x : h) { NXVGGAffineSequence *q = nx_vgg_affine_sequence_new(base.c_str(), "wall"); nx_vgg_affine_sequence_xload_frame(q, 0, im, NX_IMAGE_LOAD_AS_IS); nx_vgg_affine_sequence_free(q); x = heap(); } step(3); nx_vgg_affine_sequence_free(nullptr); nx_image_free(im); if (h[2] != h[1]) fail("opening a sequence leaks"); }
}
// ---------------------------------------------------------------- gnuplot
static FILE *pipe_file; static S pipe_cmd, pipe_mode; static int n_popen, n_pclose; static bool pipe_fails; static char *mem; static size_t mem_n;
extern "C" FILE *__wrap_popen(const char *c, const char *m) { ++n_popen; pipe_cmd = c; pipe_mode = m; if (pipe_fails) return nullptr; pipe_file = open_memstream(&mem, &mem_n); return pipe_file; }
extern "C" int __wrap_pclose(FILE *f) { ++n_pclose; if (f != pipe_file) fail("another stream is closed"); fflush(f); return 0; }
const char *INIT = "set border 3 lw 3;\nset xtics out nomirror;\nset ytics out nomirror;\n";
static S rep(S s) { for (char &c : s) if (c == ',') c = ' '; return s; }
static NXDataFrame *frame(int k, S &text) {
    NXDataFrame *df = nx_data_frame_alloc(); if (k == 0) { NXDataColumnType t[] = {NX_DCT_DOUBLE, NX_DCT_DOUBLE}; const char *l[] = {"x", "y"}; nx_data_frame_add_columns(df, 2, t, l); for (int i = 0; i < 4; ++i) nx_data_frame_append_row(df, i - 1.5, i * 0.25); }
    if (k == 1) { NXDataColumnType t[] = {NX_DCT_INT, NX_DCT_STRING, NX_DCT_DOUBLE}; const char *l[] = {"n", "name", "value"}; nx_data_frame_add_columns(df, 3, t, l); nx_data_frame_append_row(df, 3, "a b", 1.5); nx_data_frame_append_row(df, -7, "q", -2e10); }
    if (k == 2) { NXDataColumnType t[] = {NX_DCT_DOUBLE}; const char *l[] = {"only"}; nx_data_frame_add_columns(df, 1, t, l); }
    char *p = nullptr; size_t n = 0; FILE *f = open_memstream(&p, &n); nx_data_frame_save_csv_stream(df, f); fclose(f); text = rep(S(p, n)); free(p); return df;
}
static const int N_GP = 26;
static S gp(NXGNUPlot *g, int o) { // performs the operation and returns the text it has to send
    S t; NXDataFrame *df;
    switch (o) {
    case 0: nx_gnuplot_send_command(g, "plot sin(x);"); return "plot sin(x);";
    case 1: nx_gnuplot_send_command(g, "plot '%s' using %d:%d with %c title \"%.2f\"\n", "a file", 1, 2, 'l', 0.5); return "plot 'a file' using 1:2 with l title \"0.50\"\n";
    case 2: nx_gnuplot_send_command(g, "# 100%%\n"); return "# 100%\n";
    case 3: case 4: case 5: df = frame(o - 3, t); nx_gnuplot_send_data_frame(g, df, nullptr); nx_data_frame_free(df); return t + "e\n";
    case 6: case 7: case 8: df = frame(o - 6, t); nx_gnuplot_send_data_frame(g, df, o == 7 ? "D2" : "Line"); nx_data_frame_free(df); return S("$") + (o == 7 ? "D2" : "Line") + " << EOD\n" + t + "EOD\n";
    case 9: nx_gnuplot_flush(g); return "";
    case 10: nx_gnuplot_set_terminal_window(g, 640, 480, "A %d title", 3); return "set terminal qt 3 size 640,480 enhanced title \"A %d title\";\nunset output;\n";
    case 11: nx_gnuplot_set_terminal_svg(g, 300, 200, "na%me", "out.svg"); return "set terminal svg size 300,200 enhanced name \"na%me\";\nset output \"out.svg\";\n";
    case 12: nx_gnuplot_set_terminal_pdf(g, 10.5, 7, "out%s.pdf"); return "set terminal pdfcairo enhanced color size 10.500000cm,7.000000cm\nset output \"out%s.pdf\"\n";
    case 13: nx_gnuplot_set_terminal_eps(g, 10.5, 7, "out.eps"); return "set terminal epscairo enhanced color size 10.500000cm,7.000000cm;\nset output \"out.eps\"\n";
    case 14: nx_gnuplot_set_terminal_ascii(g, 80, 25, NX_TRUE); return "set terminal dumb size 80,25 enhanced feed;\n";
    case 15: nx_gnuplot_set_terminal_ascii(g, 79, 24, NX_FALSE); return "set terminal dumb size 79,24 enhanced nofeed;\n";
    case 16: nx_gnuplot_set_terminal(g, NX_TERMINAL_WINDOW, 64, 48, "t", 2); return "set terminal qt 2 size 64,48 enhanced title \"t\";\nunset output;\n";
    case 17: nx_gnuplot_set_terminal(g, NX_TERMINAL_SVG, 64, 48, "f.svg", 2); return "set terminal svg size 64,48 enhanced name \"VIRG\";\nset output \"f.svg\";\n";
    case 18: nx_gnuplot_set_terminal(g, NX_TERMINAL_PDF, 6.25, 4.5, "f.pdf", 2); return "set terminal pdfcairo enhanced color size 6.250000cm,4.500000cm\nset output \"f.pdf\"\n";
    case 19: nx_gnuplot_set_terminal(g, NX_TERMINAL_EPS, 6.25, 4.5, "f.eps", 2); return "set terminal epscairo enhanced color size 6.250000cm,4.500000cm;\nset output \"f.eps\"\n";
    case 20: nx_gnuplot_set_terminal(g, NX_TERMINAL_ASCII, 60, 20, "x", 2); return "set terminal dumb size 60,20 enhanced feed;\n";
    case 21: nx_gnuplot_set_title(g, "T %s 'q'"); return "set title \"T %s 'q'\";\n";
    case 22: nx_gnuplot_set_xlabel(g, "X %d"); return "set xlabel \"X %d\";\n";
    case 23: nx_gnuplot_set_ylabel(g, "Y"); return "set ylabel \"Y\";\n";
    case 24: nx_gnuplot_set_title_and_labels(g, "a", "b", "c%"); return "set title \"a\";\nset xlabel \"b\";\nset ylabel \"c%\";\n";
    default: nx_gnuplot_set_title(g, ""); return "set title \"\";\n";
    }
}
// layout that gnuplot ignores: blanks, semicolons and line ends between commands
static S canon(const S &s) { S o; for (char c : s) { if (c == ';' || c == '\n') { while (!o.empty() && (o.back() == ' ')) o.pop_back(); if (!o.empty() && o.back() != '\n') o += '\n'; } else if (c == ' ' && (o.empty() || o.back() == ' ' || o.back() == '\n')) continue; else o += c; } return o; }
static void gnuplot() {
    int Dp = pick(3, 4); uint64_t total = 1; for (int i = 0; i < Dp; ++i) total *= N_GP;
    for (uint64_t k = 0; k < total; ++k) for (int via = 0; via < 2; ++via) if (begin("gnuplot")) {
        describe([&] { S d; uint64_t v = k; for (int i = 0; i < Dp; ++i, v /= N_GP) d += fmt("%d ", (int)(v % N_GP)); return d + (via ? "(pipe)" : "(stream)"); });
        size_t h0 = heap(); { char *p = nullptr; size_t n = 0; FILE *f = via ? nullptr : open_memstream(&p, &n); n_popen = n_pclose = 0; pipe_fails = false; NXGNUPlot *g = nx_gnuplot_new(f, k % 2); S want = INIT; uint64_t v = k;
        for (int i = 0; i < Dp; ++i, v /= N_GP) { want += gp(g, (int)(v % N_GP)); step(); }
        if (via) f = pipe_file; nx_gnuplot_free(g); if (n_popen != via || n_pclose != via) fail("%d pipes are opened and %d closed", n_popen, n_pclose); if (via && (pipe_cmd != (k % 2 ? "gnuplot -persist" : "gnuplot") || pipe_mode != "w")) fail("the pipe runs \"%s\" (%s)", pipe_cmd.c_str(), pipe_mode.c_str());
        if (!via && fputs("# more", f) == EOF) fail("the stream is closed"); fclose(f); S got = via ? S(mem, mem_n) : S(p, n); free(via ? mem : p); mem = nullptr;
        if (!via) { if (got.size() < 6 || got.compare(got.size() - 6, 6, "# more")) fail("the stream is unusable afterwards"); else got.resize(got.size() - 6); }
        if (canon(got) != canon(want)) { S a = canon(got), b = canon(want); size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; fail("the script differs at byte %zu: \"%s\" instead of \"%s\"", i, esc(a.substr(i > 15 ? i - 15 : 0, 60)).c_str(), esc(b.substr(i > 15 ? i - 15 : 0, 60)).c_str()); }
        state(hash(got)); }
        pipe_cmd.clear(); pipe_cmd.shrink_to_fit(); if (heap() != h0) fail("%zd bytes leak", (ssize_t)(heap() - h0));
    }
    for (int pers = 0; pers < 2; ++pers) if (begin("no-gnuplot")) { n_popen = n_pclose = 0; pipe_fails = true; if (guarded([&] { nx_gnuplot_new(nullptr, pers); })) fail("a pipe that cannot be opened is not reported"); pipe_fails = false; step(); nx_gnuplot_free(nullptr); }
    // texts and data of every length, sizes of every kind
    for (int len : {0, 1, 2, 30, 63, 64, 100, 127, 128, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8192, 10000, 70000}) for (int o = 0; o < 15; ++o) if (begin("texts")) {
        S t; for (int i = 0; i < len; ++i) t += "abcde fgh%s%d_:'/"[i % 17]; describe([&] { return fmt("command %d with a text of %d characters", o, len); }); const char *c = t.c_str(); step();
        size_t h0 = heap(); { char *p = nullptr; size_t n = 0; FILE *f = open_memstream(&p, &n); NXGNUPlot *g = nx_gnuplot_new(f, NX_FALSE); S w = INIT; double a = 0.004 + len * 0.37, b = 12345.6789 - len; NXDataFrame *df = nullptr;
        switch (o) {
        case 0: nx_gnuplot_send_command(g, "%s", c); w += t; break;
        case 1: nx_gnuplot_send_command(g, "plot '%s' title \"%s\"\n", c, c); w += "plot '" + t + "' title \"" + t + "\"\n"; break;
        case 2: nx_gnuplot_set_terminal_window(g, len, len + 7, c, -len); w += fmt("set terminal qt %d size %d,%d enhanced title \"", -len, len, len + 7) + t + "\";\nunset output;\n"; break;
        case 3: nx_gnuplot_set_terminal_svg(g, len, 2 * len, c, "o.svg"); w += fmt("set terminal svg size %d,%d enhanced name \"", len, 2 * len) + t + "\";\nset output \"o.svg\";\n"; break;
        case 4: nx_gnuplot_set_terminal_svg(g, 9, 8, "n", c); w += "set terminal svg size 9,8 enhanced name \"n\";\nset output \"" + t + "\";\n"; break;
        case 5: nx_gnuplot_set_terminal_pdf(g, a, b, c); w += fmt("set terminal pdfcairo enhanced color size %fcm,%fcm\n", a, b) + "set output \"" + t + "\"\n"; break;
        case 6: nx_gnuplot_set_terminal_eps(g, b, a, c); w += fmt("set terminal epscairo enhanced color size %fcm,%fcm;\n", b, a) + "set output \"" + t + "\"\n"; break;
        case 7: nx_gnuplot_set_terminal_ascii(g, len, 3 * len + 1, NX_FALSE); w += fmt("set terminal dumb size %d,%d enhanced nofeed;\n", len, 3 * len + 1); break;
        case 8: nx_gnuplot_set_title(g, c); w += "set title \"" + t + "\";\n"; break;
        case 9: nx_gnuplot_set_xlabel(g, c); w += "set xlabel \"" + t + "\";\n"; break;
        case 10: nx_gnuplot_set_ylabel(g, c); w += "set ylabel \"" + t + "\";\n"; break;
        case 11: nx_gnuplot_set_title_and_labels(g, c, "x", c); w += "set title \"" + t + "\";\nset xlabel \"x\";\nset ylabel \"" + t + "\";\n"; break;
        case 12: nx_gnuplot_set_terminal(g, NX_TERMINAL_PDF, a, b, c, 1); w += fmt("set terminal pdfcairo enhanced color size %fcm,%fcm\n", a, b) + "set output \"" + t + "\"\n"; break;
        default: { df = nx_data_frame_alloc(); NXDataColumnType ty[] = {NX_DCT_INT, NX_DCT_DOUBLE}; const char *l[] = {"i", "v"}; nx_data_frame_add_columns(df, 2, ty, l); int rows = std::min(len, 5000); for (int i = 0; i < rows; ++i) nx_data_frame_append_row(df, i * 3, i * 0.5);
            char *q = nullptr; size_t m = 0; FILE *ff = open_memstream(&q, &m); nx_data_frame_save_csv_stream(df, ff); fclose(ff); S text = rep(S(q, m)); free(q); S lab; for (int i = 0; i <= len % 300; ++i) lab += (char)('A' + i % 26); nx_gnuplot_send_data_frame(g, df, o == 13 ? nullptr : lab.c_str()); w += o == 13 ? text + "e\n" : "$" + lab + " << EOD\n" + text + "EOD\n"; nx_data_frame_free(df); } }
        nx_gnuplot_free(g); fclose(f); S got(p, n); free(p); if (canon(got) != canon(w)) { S x = canon(got), y = canon(w); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; fail("the script differs at byte %zu: \"%s\" instead of \"%s\"", i, esc(x.substr(i > 15 ? i - 15 : 0, 60)).c_str(), esc(y.substr(i > 15 ? i - 15 : 0, 60)).c_str()); } state(hash(got)); }
        if (heap() != h0) fail("%zd bytes leak", (ssize_t)(heap() - h0));
    }
    // what is flushed has arrived
    for (int o = 0; o < N_GP; ++o) if (begin("flush")) { S fn = tmpfile("script"); FILE *f = fopen(fn.c_str(), "w"); NXGNUPlot *g = nx_gnuplot_new(f, NX_FALSE); S want = S(INIT) + gp(g, o); nx_gnuplot_flush(g); step(); if (canon(read_file(fn)) != canon(want)) fail("flushed commands have not arrived"); nx_gnuplot_free(g); fclose(f); unlink(fn.c_str()); }
}
void mc_run() { if (on("P37")) { kitti(); temple(); vgg(); if (!base.empty()) wipe(base); } else gnuplot(); }
