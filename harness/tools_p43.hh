// P43: what the command line programs print and save, against the library and against reference computations.
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
typedef std::vector<S> L;
struct Key { float x, y, scale, sigma, score, ori; int c, v; };
struct Play { // what the detector finds in each image (by its first pixel), and what the estimator answers
    std::map<int, std::vector<Key>> keys; std::vector<NXSIFTDetectorParams> params; std::vector<int> calls;
    std::function<int(double *, int, NXPointMatch2D *, double, int)> fit;
};
static Play *T;
static void descriptor(const Key &k, uchar *d) { memset(d, 0, 128); d[k.c % 128] = 200; d[(k.c * 7 + k.c / 128 + 1) % 128] = 90 + k.c / 128; d[(k.c + 64) % 128] = (uchar)k.v; }
extern "C" {
struct NXSIFTDetector *__real_nx_sift_detector_new(struct NXSIFTDetectorParams p);
struct NXSIFTDetector *__wrap_nx_sift_detector_new(struct NXSIFTDetectorParams p) { if (T) T->params.push_back(p); return __real_nx_sift_detector_new(p); }
int __real_nx_sift_detector_compute(struct NXSIFTDetector *, struct NXImage *, int *, struct NXKeypoint **, uchar **);
int __wrap_nx_sift_detector_compute(struct NXSIFTDetector *d, struct NXImage *im, int *cap, struct NXKeypoint **k, uchar **de) {
    if (!T || T->keys.empty()) return __real_nx_sift_detector_compute(d, im, cap, k, de);
    int id = im->data.uc[0]; T->calls.push_back(id); auto &v = T->keys[id]; int n = (int)v.size();
    if (n > *cap) { *cap = n; *k = (struct NXKeypoint *)nx_xrealloc(*k, sizeof(**k) * (size_t)n); *de = (uchar *)nx_xrealloc(*de, (size_t)n * NX_SIFT_DESC_DIM); }
    for (int i = 0; i < n; ++i) { NXKeypoint &q = (*k)[i]; memset(&q, 0, sizeof q); q.xs = v[i].x; q.ys = v[i].y; q.x = (int)v[i].x; q.y = (int)v[i].y; q.scale = v[i].scale; q.sigma = v[i].sigma; q.score = v[i].score; q.ori = v[i].ori; q.id = (uint64_t)i; descriptor(v[i], *de + i * NX_SIFT_DESC_DIM); }
    return n;
}
int __real_nx_usac_estimate_homography(double *, int, struct NXPointMatch2D *, double, int);
int __wrap_nx_usac_estimate_homography(double *h, int n, struct NXPointMatch2D *m, double tol, int it) { if (!T || !T->fit) return __real_nx_usac_estimate_homography(h, n, m, tol, it); return T->fit(h, n, m, tol, it); }
}
struct Ran { bool ok; int rc; S out, err; };
static Ran program(int (*f)(int, char **), L a) {
    Ran r; r.rc = -1; S fo = tmpfile("stdout.txt"), fe = tmpfile("stderr.txt"); Args ar(a); nx_log_verbosity(NX_LOG_DEFAULT);
    fflush(stdout); int so = dup(1), o = open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); close(o); FILE *se = stderr; stderr = fopen(fe.c_str(), "w");
    r.ok = guarded([&] { r.rc = f(ar.n(), ar.v()); });
    fflush(stdout); dup2(so, 1); close(so); fclose(stderr); stderr = se; nx_log_verbosity(NX_LOG_SILENT); r.out = read_file(fo); r.err = read_file(fe); return r;
}
static L lines(const S &t) { L v; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == S::npos) j = t.size(); v.push_back(t.substr(i, j - i)); i = j + 1; } return v; }
static L cells(const S &t) { L v(1); for (char c : t) { if (c == ',') v.push_back(""); else if (c != ' ') v.back() += c; } return v; }
static bool num(const S &t, double &d) { char *e; d = strtod(t.c_str(), &e); return !t.empty() && !*e; }
static bool like(const S &t, double want, double tol) { double d; return num(t, d) && fabs(d - want) <= tol + 1e-6 * fabs(want); }
// ------------------------------------------------------------- a small JSON reader: path -> text of the leaf
struct Leaves { std::map<S, S> at; size_t i = 0; const S &t; bool bad = false; Leaves(const S &x) : t(x) { val("r"); ws(); if (i != t.size()) bad = true; }
    void ws() { while (i < t.size() && isspace((unsigned char)t[i])) ++i; } bool eat(char c) { ws(); if (i < t.size() && t[i] == c) { ++i; return true; } return false; }
    S str() { S r; ws(); if (!eat('"')) { bad = true; return r; } while (i < t.size() && t[i] != '"') { if (t[i] == '\\') ++i; if (i < t.size()) r += t[i++]; } if (i >= t.size()) bad = true; ++i; return r; }
    void val(const S &p) { ws(); if (bad || i >= t.size()) { bad = true; return; } if (eat('{')) { at[p] = "{"; if (eat('}')) return; do { S k = str(); if (!eat(':')) { bad = true; return; } val(p + "." + k); } while (!bad && eat(',')); if (!eat('}')) bad = true; }
        else if (eat('[')) { int n = 0; if (!eat(']')) { do val(p + fmt("[%d]", n++)); while (!bad && eat(',')); if (!eat(']')) bad = true; } at[p] = fmt("%d", n); }
        else if (t[i] == '"') at[p] = "\"" + str(); else { S r; while (i < t.size() && !strchr(",]} \n\t\r", t[i])) r += t[i++]; at[p] = r; if (r.empty()) bad = true; } }
    bool is(const S &p, double v) { auto k = at.find(p); double d; return k != at.end() && num(k->second, d) && fabs(d - v) <= 2e-6 + 2e-5 * fabs(v); }
};
static int scene(int kind, int x, int y) { switch (kind) { case 0: return ((x / 8 + y / 8) & 1) ? 220 : 30; case 1: return (x >= 12 && x < 36 && y >= 9 && y < 30) ? 200 : 20 + x; case 2: return 128; case 3: { int v = 40; for (int q = 0; q < 6; ++q) { int cx = 9 + q * 7, cy = 8 + (q * 13) % 31, d = (x - cx) * (x - cx) + (y - cy) * (y - cy); v += (int)(150 * exp(-d / (2.0 + q))); } return std::min(v, 255); } default: return (x * 37 + y * 91 + (x * y) % 17 * 11) % 256; } }
static void harris_case(int kind, int w, int h, const S &sig, const S &k, const S &N, const S &t, int draw, bool verbose) {
    S in = tmpfile("scene.pgm"), out = tmpfile("keys.png"); write_file(in, pgm(w, h, [&](int x, int y) { return scene(kind, x, y); })); unlink(out.c_str()); L a{"nx-harris-detector", "-i", in};
    if (!sig.empty()) a.insert(a.end(), {"--sigma-int", sig}); if (!k.empty()) a.insert(a.end(), {"-k", k}); if (!N.empty()) a.insert(a.end(), {"-N", N}); if (!t.empty()) a.insert(a.end(), {"-t", t}); if (draw) a.insert(a.end(), {"--key-image", out}); if (verbose) a.push_back("-v");
    describe([&] { S d; for (size_t i = 1; i < a.size(); ++i) d += " " + a[i]; return fmt("nx-harris-detector%s, scene %d of %dx%d", d.c_str(), kind, w, h); });
    float fs = sig.empty() ? 1.2 : atof(sig.c_str()), fk = k.empty() ? 0.06 : atof(k.c_str()); double ft = t.empty() ? 0.00005 : atof(t.c_str()); int n = N.empty() ? 2000 : atoi(N.c_str());
    NXImage *im = nx_image_alloc(), *sc = nx_image_alloc(), *d[3] = {nx_image_alloc(), nx_image_alloc(), nx_image_alloc()}; nx_image_xload(im, in.c_str(), NX_IMAGE_LOAD_GRAYSCALE); nx_harris_deriv_images(d, im, fs); nx_harris_score_image(sc, d, fk); std::vector<NXKeypoint> ks(n + 1); int nk = nx_harris_detect_keypoints(n, ks.data(), sc, ft); nx_image_free(sc); for (auto q : d) nx_image_free(q);
    Ran r = program(harris_main, a); step(); if (!r.ok || r.rc) { fail("the program fails"); nx_image_free(im); return; }
    { Leaves j(r.out); if (j.bad) fail("the output is not JSON"); else if (j.at["r.options.image"] != "\"" + in || !j.is("r.options.integration-scale", fs) || !j.is("r.options.k", fk) || !j.is("r.options.threshold", ft) || !j.is("r.options.max-n-keys", n)) fail("the options are not reported");
      else if (!j.is("r.keypoints", nk)) fail("%s keypoints instead of %d", j.at["r.keypoints"].c_str(), nk);
      else for (int i = 0; i < nk; ++i) { S p = fmt("r.keypoints[%d].", i); const NXKeypoint &q = ks[i]; if (!j.is(p + "x", q.x) || !j.is(p + "y", q.y) || !j.is(p + "xs", q.xs) || !j.is(p + "ys", q.ys) || !j.is(p + "level", 0) || !j.is(p + "scale", 1) || !j.is(p + "sigma", 1) || !j.is(p + "score", q.score) || !j.is(p + "ori", 0) || !j.is(p + "id", i)) { fail("keypoint %d is reported wrongly", i); break; } } }
    if (!draw) { if (!access(out.c_str(), F_OK)) fail("an image is saved that nobody asked for"); }
    else { NXImage *g = nx_image_alloc(); if (!guarded([&] { nx_image_xload(g, out.c_str(), NX_IMAGE_LOAD_AS_IS); })) fail("the image with the keypoints cannot be read"); else if (g->width != w || g->height != h || g->type == NX_IMAGE_GRAYSCALE) fail("the image with the keypoints has a wrong form");
        else { bool bad = false; int C = g->type == NX_IMAGE_RGBA ? 4 : 3; (void)C; for (int y = 0; y < h && !bad; ++y) for (int x = 0; x < w && !bad; ++x) { double dm = 1e9; bool ring = false; for (int i = 0; i < nk; ++i) { double r2 = hypot(x + 0.0 - ks[i].x, y + 0.0 - ks[i].y); dm = std::min(dm, r2); if (fabs(r2 - 3) < 0.3) ring = true; } const uchar *p = g->data.uc + (size_t)y * g->row_stride + 4 * x; int v = scene(kind, x, y); bool same = p[0] == v && p[1] == v && p[2] == v; if (dm > 7 && !same) bad = true; if (ring && nk < 12 && same && v < 250) bad = true; } if (bad) fail("the keypoints are not drawn where they are"); }
        nx_image_free(g); }
    state(mix(hash(r.out), draw)); nx_image_free(im);
}
static bool same_params(const NXSIFTDetectorParams &a, const NXSIFTDetectorParams &b) { return !a.double_image == !b.double_image && a.n_scales_per_octave == b.n_scales_per_octave && a.sigma0 == b.sigma0 && a.kernel_truncation_factor == b.kernel_truncation_factor && a.border_distance == b.border_distance && a.peak_threshold == b.peak_threshold && a.edge_threshold == b.edge_threshold && a.magnification_factor == b.magnification_factor; }
static const int NOPT = 9; // option sets for the SIFT detector: 0 none, 1..8 one of them
static NXSIFTDetectorParams sift_options(int k, L &a) { NXSIFTDetectorParams p = nx_sift_default_parameters(); p.double_image = NX_FALSE;
    switch (k) { case 1: a.push_back("--sift-double-image"); p.double_image = NX_TRUE; break; case 2: a.insert(a.end(), {"--sift-n-scales-per-octave", "4"}); p.n_scales_per_octave = 4; break; case 3: a.insert(a.end(), {"--sift-sigma0", "1.5"}); p.sigma0 = 1.5f; break; case 4: a.insert(a.end(), {"--sift-kernel-truncation-factor", "3.5"}); p.kernel_truncation_factor = 3.5f; break; case 5: a.insert(a.end(), {"--sift-border-distance", "7"}); p.border_distance = 7; break; case 6: a.insert(a.end(), {"--sift-peak-threshold", "0.25"}); p.peak_threshold = 0.25f; break; case 7: a.insert(a.end(), {"--sift-edge-threshold", "0.125"}); p.edge_threshold = 0.125f; break; case 8: a.insert(a.end(), {"--sift-magnification-factor", "2"}); p.magnification_factor = 2; break; }
    return p; }
static std::vector<Key> keyset(int n, int shift, int dx, int dy, int amb) { std::vector<Key> v; for (int i = 0; i < n; ++i) { Key k; float s = i % 3 == 2 ? 2 : 1; k.x = (10 + (i * 29) % 200 + dx) / s; k.y = (12 + (i * 53) % 150 + dy) / s; k.scale = s; k.sigma = 1.5f + i % 4; k.score = 0.03125f * (i % 9 + 1); k.ori = -3 + (i % 13) * 0.5f; k.c = i + shift; k.v = amb && i % amb == 0 ? 40 : 3; v.push_back(k); } return v; }
static void sift_case(int opt, int n, int kind, bool verbose) { // n < 0: real detection
    S in = tmpfile("scene.pgm"), out = tmpfile("found.bin"); unlink(out.c_str()); int id = 7; write_file(in, pgm(48, 40, [&](int x, int y) { return !x && !y && n >= 0 ? id : scene(kind, x, y); })); L a{"nx-sift-detector", "-i", in, "-o", out}; NXSIFTDetectorParams want = sift_options(opt, a); if (verbose) a.push_back("--verbose");
    Play t; std::vector<NXKeypoint> ks; std::vector<uchar> de; if (n >= 0) t.keys[id] = keyset(n, kind, 0, 0, 0);
    describe([&] { S d; for (size_t i = 1; i < a.size(); ++i) d += " " + a[i]; return fmt("nx-sift-detector%s, %d keypoints (-1: detected)", d.c_str(), n); });
    { T = n >= 0 ? &t : nullptr; NXImage *im = nx_image_alloc(); nx_image_xload(im, in.c_str(), NX_IMAGE_LOAD_GRAYSCALE); NXSIFTDetector *d = nx_sift_detector_new(want); int cap = 10; NXKeypoint *k = NX_NEW(cap, struct NXKeypoint); uchar *q = NX_NEW_UC(cap * NX_SIFT_DESC_DIM); int m = __wrap_nx_sift_detector_compute(d, im, &cap, &k, &q); ks.assign(k, k + m); de.assign(q, q + (size_t)m * NX_SIFT_DESC_DIM); nx_free(k); nx_free(q); nx_sift_detector_free(d); nx_image_free(im); t.params.clear(); }
    T = &t; Ran r = program(sift_main, a); T = nullptr; step(); if (!r.ok || r.rc) { fail("the program fails"); return; }
    if (t.params.size() != 1 || !same_params(t.params[0], want)) fail("the detector gets other parameters than the options say");
    L v = lines(r.out); if (v.size() != ks.size() + 1) fail("%zu lines for %zu keypoints", v.size(), ks.size()); else { if (cells(v[0]) != L{"score", "x", "y", "scale", "ori", "sigma"}) fail("the header names other columns"); for (size_t i = 0; i < ks.size(); ++i) { L c = cells(v[i + 1]); const NXKeypoint &k = ks[i]; if (c.size() != 6 || !like(c[0], k.score, 6e-7) || !like(c[1], k.xs, 0.0051) || !like(c[2], k.ys, 0.0051) || !like(c[3], k.scale, 0.0051) || !like(c[4], k.ori, 0.000051) || !like(c[5], k.sigma, 0.000051)) { fail("keypoint %zu is printed wrongly: %s", i, v[i + 1].c_str()); break; } } }
    int cap = 1; NXKeypoint *k = NX_NEW(cap, struct NXKeypoint); uchar *q = NX_NEW_UC(cap * NX_SIFT_DESC_DIM); int m = -1; if (!guarded([&] { m = nx_sift_xload(out.c_str(), &cap, &k, &q); })) fail("the saved keypoints cannot be loaded"); else if (m != (int)ks.size()) fail("%d keypoints are saved", m); else if (memcmp(q, de.data(), de.size())) fail("other descriptors are saved"); else for (int i = 0; i < m; ++i) if (k[i].xs != ks[i].xs || k[i].ys != ks[i].ys || k[i].x != ks[i].x || k[i].y != ks[i].y || k[i].scale != ks[i].scale || k[i].sigma != ks[i].sigma || k[i].score != ks[i].score || k[i].ori != ks[i].ori || k[i].level != ks[i].level || k[i].id != ks[i].id) { fail("another keypoint %d is saved", i); break; } nx_free(k); nx_free(q);
    state(hash(r.out));
}
// ------------------------------------------------------------- matching and fitting
struct Match { double x, y, u, v; };
static std::vector<Match> matches(const std::vector<Key> &a, const std::vector<Key> &b, double thr) { std::vector<Match> m; if (b.empty()) return m; std::vector<uchar> db(b.size() * 128); for (size_t j = 0; j < b.size(); ++j) descriptor(b[j], &db[j * 128]);
    for (auto &k : a) { uchar d[128]; descriptor(k, d); long b0 = 2147483647, b1 = b0; size_t at = 0; for (size_t j = 0; j < b.size(); ++j) { long s = 0; for (int q = 0; q < 128; ++q) { long e = (long)d[q] - db[j * 128 + q]; s += e * e; } if (s < b0) { b1 = b0; b0 = s; at = j; } else if (s < b1) b1 = s; }
        if (thr > 0 && thr < 1 && !(b0 < thr * thr * b1)) continue; m.push_back({k.x * k.scale, k.y * k.scale, b[at].x * b[at].scale, b[at].y * b[at].scale}); } return m; }
static int inliers(const std::vector<Match> &m, const Hom &h, double tol, bool bwd) { int n = 0; for (auto &p : m) { double u, v; if (bwd) { app(h, p.u, p.v, u, v); u -= p.x; v -= p.y; } else { app(h, p.x, p.y, u, v); u -= p.u; v -= p.v; } if (hypot(u, v) < tol) ++n; } return n; }
static S matrix(const Hom &h) { S t; for (int r = 0; r < 3; ++r) t += fmt("%.17g %.17g %.17g\n", h.m[r], h.m[3 + r], h.m[6 + r]); return t; }
struct Stat { double v[7]; }; // mean, stdev, min, lower, median, upper, max
static Stat stat(std::vector<double> x) { std::sort(x.begin(), x.end()); int n = (int)x.size(); Stat s; double m = 0, q = 0; for (double d : x) m += d; m /= n; for (double d : x) q += (d - m) * (d - m); auto med = [&](int a, int b) { int k = b - a; return k % 2 ? x[a + k / 2] : (x[a + k / 2 - 1] + x[a + k / 2]) / 2; };
    s.v[0] = m; s.v[1] = n > 1 ? sqrt(q / (n - 1)) : 0; s.v[2] = x[0]; s.v[6] = x[n - 1]; s.v[4] = med(0, n); s.v[3] = n > 1 ? med(0, n / 2) : x[0]; s.v[5] = n > 1 ? med(n - n / 2, n) : x[0]; return s; }
struct FitCase { int na = 8, nb = 8, shift = 0, amb = 0; S thr; int gt = 0, gh = 0, nv = 0, vw = 0, steps = 3, opt = 0, seed = 0; bool bench = true, verbose = false; S tol, iters; };
static Hom GH(int k) { return k == 0 ? tr(5, -3) : k == 1 ? Hom{{2, 0, 0, 0, 2, 0, -10, 4, 1}} : Hom{{1, 0.1, 0.0005, -0.1, 1, 0.00025, 3, 2, 1}}; }
static void fit_case(const FitCase &f) {
    S l = tmpfile("l.pgm"), r = tmpfile("r.pgm"), g1 = tmpfile("g1.txt"), g2 = tmpfile("g2.txt"), vf = tmpfile("v.txt"); write_file(l, pgm(8, 8, [&](int, int) { return 1; })); write_file(r, pgm(8, 8, [&](int, int) { return 2; })); L a{"nx-fit-homography", "-l", l, "-r", r};
    Play t; t.keys[1] = keyset(f.na, 0, 0, 0, f.amb); t.keys[2] = keyset(f.nb, f.shift, 0, 0, 0); Hom H = GH(f.gh); for (size_t i = 0; i < t.keys[2].size(); ++i) { Key &k = t.keys[2][i]; double u, v; int o = (int)i + f.shift; double x = 10 + (o * 29) % 200, y = 12 + (o * 53) % 150; app(H, x, y, u, v); static const double E[6] = {0.25, 1.5, 2.5, 12, 0.5, 5.5}; u += E[(o + f.seed) % 6]; k.x = u / k.scale; k.y = v / k.scale; }
    NXSIFTDetectorParams want = sift_options(f.opt, a); double thr = f.thr.empty() ? -1 : atof(f.thr.c_str()), tol = f.tol.empty() ? 3 : atof(f.tol.c_str()); int it = f.iters.empty() ? 10000 : atoi(f.iters.c_str());
    if (!f.thr.empty()) a.insert(a.end(), {"--snn-threshold", f.thr}); if (!f.tol.empty()) a.insert(a.end(), {"--ransac-inlier-threshold", f.tol}); if (!f.iters.empty()) a.insert(a.end(), {"--ransac-max-n-iterations", f.iters}); if (f.bench) a.push_back("--benchmark-ransac"); int steps = f.bench ? (f.steps ? f.steps : 100) : 1; if (f.bench && f.steps) a.insert(a.end(), {"--benchmark-steps", fmt("%d", f.steps)}); if (f.verbose) a.push_back("-v");
    if (f.gt & 1) { write_file(g1, matrix(H)); a.insert(a.end(), {"--ground-truth-l2r", g1}); } if (f.gt & 2) { write_file(g2, matrix(inv(f.gt == 3 ? tr(500, 500) : H))); a.insert(a.end(), {"--ground-truth-r2l", g2}); }
    std::vector<Match> vp; if (f.nv) { S tx; for (int q = 0; q < 6; ++q) { for (int i = 0; i < f.nv; ++i) { double x = 3 + i * 17 % 90, y = 5 + i * 31 % 70, u, v; app(H, x, y, u, v); if (q == 0) vp.push_back({x, y, u, v}); double w = f.vw ? 1 + i % 3 : 1, wp = f.vw ? 0.5 + i % 2 : 1; double val[6] = {x * w, y * w, w, u * wp, v * wp, wp}; tx += fmt("%s%.17g", i ? " " : "", val[q]); } tx += "\n"; } write_file(vf, tx); a.insert(a.end(), {"--validation-points", vf}); }
    std::vector<Match> m = matches(t.keys[1], t.keys[2], thr); int n = (int)m.size(); S bad; int call = 0; std::vector<double> E, NI; double mx = 0, my = 0, mu = 0, mv = 0, d = 0, dp = 0; for (auto &p : m) { mx += p.x / n; my += p.y / n; mu += p.u / n; mv += p.v / n; } for (auto &p : m) { d += hypot(p.x - mx, p.y - my) / n; dp += hypot(p.u - mu, p.v - mv) / n; } if (d < 1e-6) d = 1; if (dp < 1e-6) dp = 1;
    t.fit = [&](double *h, int nn, NXPointMatch2D *pm, double to, int iter) { int i = call++; if (nn != n) bad = "the estimator gets another number of matches"; else if (fabs(to - tol / dp) > 1e-4 * to) bad = "the estimator gets another tolerance"; else if (iter != it) bad = "the estimator gets another number of iterations";
        else for (int q = 0; q < n; ++q) if (fabs(pm[q].x[0] - (m[q].x - mx) / d) > 1e-3 || fabs(pm[q].x[1] - (m[q].y - my) / d) > 1e-3 || fabs(pm[q].xp[0] - (m[q].u - mu) / dp) > 1e-3 || fabs(pm[q].xp[1] - (m[q].v - mv) / dp) > 1e-3) { bad = fmt("the estimator gets another match %d", q); break; }
        double off = (i * 7 + f.seed) % 11 * 0.75; Hom D = mul(tr(off, 0), H), Ti{{d, 0, 0, 0, d, 0, mx, my, 1}}, Tp{{1 / dp, 0, 0, 0, 1 / dp, 0, -mu / dp, -mv / dp, 1}}; Hom x = mul(Tp, mul(D, Ti)); memcpy(h, x.m, sizeof x.m); double e = 0; for (auto &p : vp) { double u, v; app(D, p.x, p.y, u, v); e += hypot(u - p.u, v - p.v) / vp.size(); } E.push_back(e); int k = n ? (i * 5 + f.seed * 3) % (n + 1) : 0; NI.push_back(k); for (int q = 0; q < n; ++q) pm[q].is_inlier = q < k; return k; };
    describe([&] { S s; for (size_t i = 1; i < a.size(); ++i) s += " " + a[i]; return fmt("nx-fit-homography%s, %d and %d keypoints, shift %d, ground truth %d, seed %d", s.c_str(), f.na, f.nb, f.shift, f.gh, f.seed); });
    T = &t; Ran x = program(fit_main, a); T = nullptr; step(); if (!x.ok || x.rc) { fail("the program fails"); return; } if (!bad.empty()) { fail("%s", bad.c_str()); return; }
    if (t.params.size() != 1 || !same_params(t.params[0], want)) fail("the detector gets other parameters than the options say"); if (t.calls != std::vector<int>{1, 2}) fail("the images are not used as left and right"); if (call != steps) { fail("%d fits instead of %d", call, steps); return; }
    if (f.bench) { L v = lines(x.out); if (v.size() != 1) fail("%zu lines", v.size()); else { L c = cells(v[0]); size_t wc = 1 + (f.gt ? 2 : 0) + 8 + 7 + (f.nv ? 7 : 0); if (c.size() != wc) fail("%zu columns instead of %zu", c.size(), wc); else { size_t i = 0; S w; if (c[i++] != fmt("%d", n)) w = "number of matches";
            if (f.gt) { int ni = (f.gt & 1) ? inliers(m, H, tol, false) : inliers(m, inv(H), tol, true); if (c[i++] != fmt("%d", ni)) w = fmt("number of true inliers (%d)", ni); if (n && !like(c[i], ni * 100.0 / n, 0.051)) w = "ratio of true inliers"; ++i; }
            if (c[i++] != fmt("%d", steps)) w = "number of runs"; Stat s = stat(NI); for (int q = 0; q < 7; ++q) if (!like(c[i++], s.v[q], 0.051)) w = fmt("statistic %d of the inliers", q);
            double p[7]; bool ok = true; for (double &q : p) ok &= num(c[i++], q); if (!ok || p[2] < 0 || p[2] > p[3] || p[3] > p[4] || p[4] > p[5] || p[5] > p[6] || p[0] < p[2] || p[0] > p[6] || p[1] < 0) w = "statistics of the run time";
            if (f.nv) { Stat e = stat(E); for (int q = 0; q < 7; ++q) if (!like(c[i++], e.v[q], 0.0061 + 1e-4 * fabs(e.v[q]))) w = fmt("statistic %d of the transfer error (%g)", q, e.v[q]); }
            if (!w.empty()) fail("wrong %s in %s", w.c_str(), v[0].c_str()); } } }
    else { if (!x.out.empty()) fail("output without a benchmark"); if (f.verbose) { double ni = -1, nm = -1, e = -1; for (auto &q : lines(x.err)) { size_t p; if ((p = q.find("of inliers is ")) != S::npos) ni = atof(q.c_str() + p + 14); if ((p = q.find("putative matches is ")) != S::npos) nm = atof(q.c_str() + p + 20); if ((p = q.find("Transfer Error: ")) != S::npos) e = atof(q.c_str() + p + 16); } if (ni != NI[0]) fail("%g inliers are reported instead of %g", ni, NI[0]); if (nm != n) fail("%g matches are reported instead of %d", nm, n); if (f.nv && fabs(e - E[0]) > 1e-3 * (1 + E[0])) fail("a transfer error of %g is reported instead of %g", e, E[0]); } }
    state(mix(hash(x.err), n * 100 + steps));
}
static S vbase; static void vgg_data(const std::function<Hom(int, int)> &h) { if (vbase.empty()) { vbase = tmpfile("vgg"); mkdir(vbase.c_str(), 0700); for (int s = 0; s < NX_VGG_AFFINE_N_SEQ; ++s) { S d = vbase + "/" + NX_VGG_AFFINE_SEQ_NAMES[s]; mkdir(d.c_str(), 0700); for (int k = 1; k <= 6; ++k) write_file(d + fmt("/img%d.pgm", k), pgm(8, 8, [&](int, int) { return s * 6 + k; })); } } for (int s = 0; s < NX_VGG_AFFINE_N_SEQ; ++s) for (int k = 2; k <= 6; ++k) write_file(vbase + "/" + NX_VGG_AFFINE_SEQ_NAMES[s] + fmt("/H1to%dp", k), matrix(h(s, k))); }
static void bench_case(int seed, int opt, const S &thr, bool verbose) {
    auto hm = [&](int s, int k) { return mul(tr(k - 2, s), GH((s + k + seed) % 3)); }; vgg_data(hm); Play t; L a{"nx-sift-benchmark", "--vgg-base", vbase}; NXSIFTDetectorParams want = sift_options(opt, a); if (!thr.empty()) a.insert(a.end(), {"--dist-ratio-thr", thr}); if (verbose) a.push_back("-v"); double th = thr.empty() ? 0.6 : atof(thr.c_str());
    for (int s = 0; s < NX_VGG_AFFINE_N_SEQ; ++s) for (int k = 1; k <= 6; ++k) { int n = (s * 5 + k * 3 + seed * 7) % 14; if (seed == 3 && s == 2 && k == 1) n = 1100; if (seed == 3 && s == 4 && k == 3) n = 1030; if (seed == 1 && k == 1 && s == 3) n = 0; auto v = keyset(n, k == 1 ? 0 : (k + s + seed) % 3, 0, 0, k == 1 ? 3 + seed : 0); if (k > 1) for (size_t i = 0; i < v.size(); ++i) { int o = (int)i + (k + s + seed) % 3; double u, w, x = 10 + (o * 29) % 200, y = 12 + (o * 53) % 150; app(hm(s, k), x, y, u, w); static const double E[6] = {0.25, 1.5, 2.5, 12, 0.5, 5.5}; v[i].x = (u + E[(o + k) % 6]) / v[i].scale; v[i].y = w / v[i].scale; } t.keys[s * 6 + k] = v; }
    describe([&] { S d; for (size_t i = 3; i < a.size(); ++i) d += " " + a[i]; return fmt("nx-sift-benchmark%s, detections %d", d.c_str(), seed); });
    T = &t; Ran r = program(bench_main, a); T = nullptr; step(); if (!r.ok || r.rc) { fail("the program fails"); return; } if (t.params.size() != 1 || !same_params(t.params[0], want)) fail("the detector gets other parameters than the options say");
    L v = lines(r.out); if (v.size() != 1 + NX_VGG_AFFINE_N_SEQ * 5) { fail("%zu lines", v.size()); return; } if (cells(v[0]) != L{"seq_name", "pair_id", "n_keys0", "n_keysi", "t_compute", "t_match", "n_matches", "ni_tol3", "ni_tol2", "ni_tol1"}) fail("the header names other columns"); size_t i = 1;
    for (int s = 0; s < NX_VGG_AFFINE_N_SEQ; ++s) for (int k = 2; k <= 6; ++k, ++i) { auto &A = t.keys[s * 6 + 1], &B = t.keys[s * 6 + k]; auto m = matches(A, B, th); L c = cells(v[i]); double tc, tm; L w{NX_VGG_AFFINE_SEQ_NAMES[s], fmt("%d", k - 1), fmt("%zu", A.size()), fmt("%zu", B.size()), c.size() > 4 ? c[4] : "", c.size() > 5 ? c[5] : "", fmt("%zu", m.size()), fmt("%d", inliers(m, hm(s, k), 3, false)), fmt("%d", inliers(m, hm(s, k), 2, false)), fmt("%d", inliers(m, hm(s, k), 1, false))}; if (c != w || !num(c[4], tc) || !num(c[5], tm) || tc < 0 || tm < 0) { S e; for (auto &q : w) e += q + ","; fail("wrong row %s, expected %s", v[i].c_str(), e.c_str()); return; } }
    state(hash(r.out.substr(0, 10)) + seed * 10 + opt);
}
static void p43() {
    nx_log_verbosity(NX_LOG_SILENT); const std::vector<S> sg{"", "0.85", "2"}, ks{"", "0.045", "0.2"}, Ns{"", "1", "5", "0"}, ts{"", "0", "0.0013", "0.01"};
    for (int kind = 0; kind < 5; ++kind) for (auto &s : sg) for (auto &k : ks) for (auto &N : Ns) for (auto &t : ts) if (begin("harris")) { int z = (int)(s.size() + k.size() + N.size() + t.size()); harris_case(kind, 48, 40, s, k, N, t, z % 2, z % 3 == 0); }
    for (int w = 5; w < 20; w += 3) for (int h = 5; h < 20; h += 4) for (int d = 0; d < 2; ++d) if (begin("harris-sizes")) harris_case(d ? 4 : 3, w, h, "", "", "", "", d, false);
    for (int o = 0; o < NOPT; ++o) for (int n : {0, 1, 2, 99, 100, 101, 257}) for (int k = 0; k < 5; ++k) if (begin("sift")) sift_case(o, n, k, (n + k) % 2);
    for (int o = 0; o < NOPT; ++o) for (int k = 0; k < 5; ++k) if (begin("sift-detected")) sift_case(o, -1, k, k % 2);
    for (int na : {0, 1, 2, 8, 13}) for (int nb : {0, 1, 2, 8, 13}) for (int sh : {0, 1, 3}) for (int amb : {0, 2}) for (const char *th : {"", "0.6", "0.95"}) for (int gt = 0; gt < 4; ++gt) if (begin("fit-matches")) { FitCase f; f.na = na; f.nb = nb; f.shift = sh; f.amb = amb; f.thr = th; f.gt = gt; f.gh = (na + nb + sh) % 3; f.nv = (gt + sh) % 3; f.seed = na + gt; f.vw = sh % 2; fit_case(f); }
    for (int st = 0; st <= pick(9, 20); ++st) for (int nv : {0, 1, 2, 5, 12}) for (int vw = 0; vw < 2; ++vw) for (int sd = 0; sd < 6; ++sd) for (int gh = 0; gh < 3; ++gh) if (begin("fit-statistics")) { FitCase f; f.steps = st; f.nv = nv; f.vw = vw; f.seed = sd; f.gh = gh; f.gt = (st + nv) % 4; f.verbose = sd % 2; fit_case(f); }
    for (int o = 0; o < NOPT; ++o) for (const char *to : {"", "1", "2.25"}) for (const char *it : {"", "50"}) for (int b = 0; b < 2; ++b) for (int v = 0; v < 2; ++v) for (int nv : {0, 3}) for (int gt = 0; gt < 4; ++gt) if (begin("fit-options")) { FitCase f; f.opt = o; f.tol = to; f.iters = it; f.bench = b; f.verbose = v; f.nv = nv; f.gt = gt; f.seed = o + nv; f.vw = v; f.na = f.nb = 11; fit_case(f); }
    for (int n : {499, 500, 501, 700}) for (int b = 0; b < 2; ++b) if (begin("fit-many")) { FitCase f; f.na = b ? n : 20; f.nb = b ? 20 : n; f.gt = 1; f.thr = "0.6"; fit_case(f); }
    for (int k = 0; k < 14; ++k) if (begin("fit-damaged")) { S l = tmpfile("l.pgm"), g = tmpfile("g.txt"); write_file(l, pgm(8, 8, [&](int, int) { return 1; })); write_file(g, k == 0 ? "1 0\n0 1\n" : k == 1 ? "1 0 0\n0 1 0\n" : k == 2 ? "1 0 0 0\n0 1 0 0\n0 0 1 0\n" : k == 3 ? "1 0 0\n0 1\n0 0 1\n" : k == 4 ? "" : k == 5 ? "1 2\n3 4\n5 6\n7 8\n9 10\n" : k == 6 ? "1\n2\n3\n4\n5\n6\n7\n" : k == 7 ? "1 2 3\n4 5\n1 1\n1 1\n1 1\n1 1\n" : ""); L a{"nx-fit-homography"}; if (k != 9 && k != 12) { a.push_back("-l"); a.push_back(k == 10 ? tmpfile("none.pgm") : l); } if (k != 11 && k != 12) { a.push_back("-r"); a.push_back(l); } if (k < 9) { a.push_back(k < 5 ? "--ground-truth-l2r" : "--validation-points"); a.push_back(g); } if (k == 13) { a.push_back("--ground-truth-r2l"); a.push_back(tmpfile("none.txt")); }
        Play t; t.keys[1] = keyset(9, 0, 0, 0, 0); t.fit = [](double *h, int, NXPointMatch2D *, double, int) { for (int q = 0; q < 9; ++q) h[q] = q % 4 == 0; return 4; }; T = &t; describe([&] { S d; for (auto &q : a) d += " " + q; return fmt("damaged input %d:%s", k, d.c_str()); }); Ran r = program(fit_main, a); T = nullptr; step(); if (r.ok) fail("accepted"); else if (fatal_kind != 1) fail("wrong kind of error"); state(k); }
    for (int sd = 0; sd < pick(4, 8); ++sd) for (int o = 0; o < NOPT; ++o) for (const char *th : {"", "0.8", "-1"}) if (begin("benchmark")) { if (!thorough() && o && (sd + o) % 4) continue; bench_case(sd, o, th, (sd + o) % 2); }
    if (begin("benchmark-missing")) { L a{"nx-sift-benchmark", "--vgg-base", tmpfile("nowhere")}; Play t; T = &t; Ran r = program(bench_main, a); T = nullptr; step(); if (r.ok) fail("accepted"); state(1); }
    for (int k = 0; k < 4; ++k) if (begin("unreadable")) { L a{"p", "-i", tmpfile("nowhere.pgm")}; if (k >= 2) { write_file(tmpfile("broken.pgm"), "P5\n20 20\n255\nabc"); a[2] = tmpfile("broken.pgm"); } if (k % 2) { a.push_back("-o"); a.push_back(tmpfile("x.bin")); } Ran r = program(k % 2 ? sift_main : harris_main, a); step(); if (r.ok) fail("an unreadable image is accepted"); state(k); }
    for (int k = 0; k < 6; ++k) if (begin("leaks")) { describe([&] { return fmt("program %d", k); }); S in = tmpfile("scene.pgm"), g = tmpfile("g.txt"), v = tmpfile("v.txt"); write_file(in, pgm(48, 40, [&](int x, int y) { return !x && !y ? 1 : scene(1, x, y); })); write_file(g, "1 0 0\n0 1 0\n0 0 1\n"); write_file(v, "1 2\n1 3\n1 1\n1 2\n1 3\n1 1\n"); L a; int (*f)(int, char **) = k == 0 || k == 1 ? harris_main : k == 2 ? sift_main : k < 5 ? fit_main : bench_main; auto hm = [&](int, int) { return GH(0); }; if (k == 5) vgg_data(hm);
        a = k == 0 ? L{"p", "-i", in} : k == 1 ? L{"p", "-i", in, "--key-image", tmpfile("k.png"), "-v"} : k == 2 ? L{"p", "-i", in, "-o", tmpfile("o.bin")} : k == 3 ? L{"p", "-l", in, "-r", in, "--benchmark-ransac", "--benchmark-steps", "4", "--ground-truth-l2r", g, "--ground-truth-r2l", g, "--validation-points", v} : k == 4 ? L{"p", "-l", in, "-r", in, "--ground-truth-l2r", g} : L{"p", "--vgg-base", vbase};
        Play t; if (k == 5) for (int q = 1; q <= 48; ++q) t.keys[q] = keyset(6, 0, 0, 0, 0); else if (k > 2) t.keys[1] = keyset(9, 0, 0, 0, 0); if (k > 2) t.fit = [](double *h, int, NXPointMatch2D *, double, int) { for (int q = 0; q < 9; ++q) h[q] = q % 4 == 0; return 4; }; t.params.reserve(64); t.calls.reserve(4096); size_t h[4]; int fd[4]; bool ok = true; for (int q = 0; q < 4; ++q) { T = &t; { Ran r = program(f, a); ok &= r.ok; } T = nullptr; h[q] = heap(); fd[q] = dup(0); close(fd[q]); } step(4); if (!ok) fail("the program fails"); else if (h[3] > h[2] || h[2] > h[1]) fail("a run leaves %ld bytes behind", (long)(h[3] - h[2])); else if (fd[3] != fd[1]) fail("a run leaves a file open"); state(k); }
}
