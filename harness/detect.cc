// P24 FAST corners, P25 Harris corners, P26 BRIEF descriptors and keypoint files.
#include "image_model.hh"
#include "sfmt_ref.hh"
#include <memory>
extern "C" {
#include "virg/nexus/nx_fast_detector.h"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include "virg/nexus/nx_keypoint.h"
}
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/vg_image_pyr.hpp"
#include "virg/nexus/vg_harris_detector.hpp"
#include "virg/nexus/vg_brief_extractor.hpp"
using namespace mc;
using namespace virg::nexus;
typedef std::string S;
typedef std::vector<NXKeypoint> KV;

static NXKeypoint kp0(int x, int y) { NXKeypoint k; memset(&k, 0, sizeof k); k.x = x; k.y = y; k.xs = x; k.ys = y; k.scale = 1; return k; }
static S kstr(const NXKeypoint &k) { return fmt("(%d,%d %g,%g level %d scale %g sigma %g score %g ori %g id %llu)", k.x, k.y, k.xs, k.ys, k.level, k.scale, k.sigma, k.score, k.ori, (unsigned long long)k.id); }
static bool same_key(const NXKeypoint &a, const NXKeypoint &b, bool score = true) {
    double od = std::fabs(std::remainder(a.ori - b.ori, 2 * M_PI));
    return a.x == b.x && a.y == b.y && a.xs == b.xs && a.ys == b.ys && a.level == b.level && near_ok(a.scale, b.scale, 1e-5) && near_ok(a.sigma, b.sigma, 1e-5) && (!score || near_ok(a.score, b.score, 1e-4 + 1e-4 * std::fabs(b.score))) && od < 1e-5 && a.id == b.id;
}
static bool same_keys(const NXKeypoint *got, int n, const KV &e, const char *what, bool score = true) {
    if (n != (int)e.size()) { fail("%s finds %d keypoints instead of %zu", what, n, e.size()); return false; }
    for (int i = 0; i < n; ++i) if (!same_key(got[i], e[i], score)) { fail("%s: keypoint %d is %s instead of %s", what, i, kstr(got[i]).c_str(), kstr(e[i]).c_str()); return false; }
    return true;
}
// a key buffer of exactly n elements
struct KBuf { NXKeypoint *k; KBuf(int n) { k = (NXKeypoint *)malloc(n ? n * sizeof(NXKeypoint) : 1); memset(k, 0xC3, n * sizeof(NXKeypoint)); } ~KBuf() { free(k); } };

// ---------------------------------------------------------------- FAST model
static const int CX[16] = {0, 1, 2, 3, 3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1}, CY[16] = {3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1, 0, 1, 2, 3};
static unsigned char has9[65536];
static void init9() { for (int m = 0; m < 65536; ++m) { has9[m] = 0; for (int s = 0; s < 16; ++s) { int n = 0; while (n < 16 && (m >> ((s + n) % 16) & 1)) ++n; if (n >= 9) has9[m] = 1; } } }
static bool corner(const NXImage *im, int x, int y, int b) {
    int p = (int)px(im, x, y), B = 0, D = 0;
    for (int i = 0; i < 16; ++i) { int v = (int)px(im, x + CX[i], y + CY[i]); B |= (v > p + b) << i; D |= (v < p - b) << i; }
    return has9[B] || has9[D];
}
static KV m_detect(const NXImage *im, int thr, int mx) {
    KV o; if (mx <= 0) return o;
    for (int y = 3; y < im->height - 3; ++y) for (int x = 3; x < im->width - 3; ++x) if ((int)o.size() < mx && corner(im, x, y, thr)) { o.push_back(kp0(x, y)); o.back().id = o.size() - 1; }
    return o;
}
static void m_score(const NXImage *im, KV &k, int thr) { for (auto &q : k) { int b = thr; while (b < 254 && corner(im, q.x, q.y, b + 1)) ++b; q.score = b; } }
static KV m_suppress(const KV &k, int mx) {
    KV o; std::map<std::pair<int, int>, float> at; for (auto &q : k) at[{q.x, q.y}] = q.score;
    for (auto &q : k) { bool keep = true; for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) if (dx || dy) { auto it = at.find({q.x + dx, q.y + dy}); if (it != at.end() && it->second >= q.score) keep = false; } if (keep && (int)o.size() < mx) { o.push_back(q); o.back().id = o.size() - 1; } }
    return o;
}
static void m_ori(const NXImage *im, KV &k, int r) {
    for (auto &q : k) if (q.x >= r && q.x < im->width - r && q.y >= r && q.y < im->height - r) {
        double m10 = 0, m01 = 0; for (int y = -r; y < r; ++y) for (int x = -r; x < r; ++x) if (x * x + y * y < r * r) { m10 += x * px(im, q.x + x, q.y + y); m01 += y * px(im, q.x + x, q.y + y); }
        q.ori = (float)std::atan2(m01, m10);
    }
}
static KV m_full(const NXImage *im, int thr, int work, int mx, int r) { KV k = m_detect(im, thr, work); m_score(im, k, thr); k = m_suppress(k, mx); if (r) m_ori(im, k, r); return k; }
static KV m_pyr(const NXImagePyr *p, int thr, int work, int mx, int nl, int r) {
    KV o; if (nl <= 0 || nl > p->n_levels) nl = p->n_levels;
    for (int l = nl - 1; l >= 0 && (int)o.size() < mx; --l) { KV k = m_full(p->levels[l].img, thr, work, mx - (int)o.size(), r); for (auto &q : k) { q.level = l; q.sigma = p->levels[l].sigma; q.scale = p->levels[l].scale; q.id = o.size(); o.push_back(q); } }
    return o;
}
// pictures with corners: 0..N_PIC-1
const int N_PIC = 14;
static double picture(int k, int x, int y, int w, int h) {
    switch (k) {
    case 0: return x >= w / 3 && x < w - w / 3 && y >= h / 3 && y < h - h / 3 ? 220 : 30;
    case 1: return (x / 4 + y / 4) % 2 ? 200 : 60;
    case 2: return (x / 5 + y / 5) % 2 ? 40 : 90 + (x * 3 + y * 5) % 60;
    case 3: { uint32_t v = x * 2654435761u + y * 40503u * 65536u + 12345u; v ^= v >> 15; v *= 2246822519u; v ^= v >> 13; return v & 255; }
    case 4: { uint32_t v = (x / 2) * 2654435761u + (y / 2) * 2246822519u; v ^= v >> 15; v *= 3266489917u; v ^= v >> 16; return v % 5 ? 128 : (v >> 8) & 255; }
    case 5: return (x % 7 == 3 && y % 6 == 4) ? 255 : 0;
    case 6: return (x % 8 == 3 && y % 7 == 3) ? 0 : (x + y) % 3 ? 180 : 182;
    case 7: return x + y < (w + h) / 2 ? 10 : 240;
    case 8: return x < w / 2 && y < h / 2 ? 250 : x >= w / 2 && y >= h / 2 ? 128 : 5;
    case 9: return 128 + 100 * std::sin(x * 0.9) * std::cos(y * 0.7);
    case 10: return (x * y) % 97 * 2;
    case 11: return (x % 4 < 2 && y % 4 < 2) ? 255 : 0;
    case 12: return 100;
    default: { uint32_t v = (x + 1) * (y + 3) * 2654435761u; v ^= v >> 11; v *= 2246822519u; v ^= v >> 17; return v % 3 ? 100 + v % 40 : 255 * (v >> 5 & 1); }
    }
}

static void p24() {
    init9();
    // the decision for every classification of the 16 circle pixels as brighter, similar or darker; similar ones at the limits
    static int TR[6561][8]; for (int i = 0; i < 6561; ++i) for (int j = 0, v = i; j < 8; ++j, v /= 3) TR[i][j] = v % 3;
    for (int par = 0; par < 2; ++par) for (int hi = 0; hi < 6561; ++hi) if (begin("all-circles")) {
        const int p = 100, b = 10; describe([&] { return fmt("first 8 circle pixels classified %d, all others, similar pixels at the %s limit", hi, par ? "upper/lower" : "lower/upper"); });
        Src s(7, 7, par, false, false, [&](int, int, int) { return p; }); uchar *d = (uchar *)s.buf; int off[16]; for (int i = 0; i < 16; ++i) off[i] = (3 + CY[i]) * s.stride + 3 + CX[i];
        uchar val[16][3]; for (int i = 0; i < 16; ++i) { val[i][0] = (i + par) % 2 ? p + b : p - b; val[i][1] = p + b + 1; val[i][2] = p - b - 1; }
        int B0 = 0, D0 = 0; for (int i = 0; i < 8; ++i) { int t = TR[hi][i]; d[off[i]] = val[i][t]; B0 |= (t == 1) << i; D0 |= (t == 2) << i; }
        NXKeypoint k; int nf = 0;
        for (int lo = 0; lo < 6561; ++lo) {
            int B = B0, D = D0; for (int i = 0; i < 8; ++i) { int t = TR[lo][i]; d[off[8 + i]] = val[8 + i][t]; B |= (t == 1) << (8 + i); D |= (t == 2) << (8 + i); }
            int n = nx_fast_detect_keypoints(1, &k, s.im, b), e = has9[B] | has9[D]; nf += n;
            if (n != e) { fail("brighter %04x darker %04x: %s", B, D, n ? "reported as a corner" : "not reported as a corner"); break; }
        }
        step(6561); state(mix(hi * 2 + par, nf));
    }
    for (int par = 0; par < pick(1, 2); ++par) for (int hi = 0; hi < 6561; ++hi) if (begin("all-scores")) {
        const int p = 127, b0 = 5; describe([&] { return fmt("first 8 circle pixels classified %d, all others", hi); });
        Src s(7, 7, par, false, false, [&](int, int, int) { return p; }); uchar *d = (uchar *)s.buf; int off[16]; for (int i = 0; i < 16; ++i) off[i] = (3 + CY[i]) * s.stride + 3 + CX[i];
        uchar val[16][3]; for (int i = 0; i < 16; ++i) { val[i][0] = (i + par) % 2 ? p + 63 : p - 63; val[i][1] = p + 100; val[i][2] = p - 100; }
        int SB = 0; for (int i = 0; i < 16; ++i) SB |= ((i + par) % 2) << i;
        int B0 = 0, D0 = 0; for (int i = 0; i < 8; ++i) { int t = TR[hi][i]; d[off[i]] = val[i][t]; B0 |= (t == 1) << i; D0 |= (t == 2) << i; }
        uint64_t hs = 0; KBuf kb(1); *kb.k = kp0(3, 3);
        for (int lo = 0; lo < 6561; ++lo) {
            int B = B0, D = D0; for (int i = 0; i < 8; ++i) { int t = TR[lo][i]; d[off[8 + i]] = val[8 + i][t]; B |= (t == 1) << (8 + i); D |= (t == 2) << (8 + i); }
            int SIM = 0xffff & ~(B | D), e = has9[B] | has9[D] ? 99 : has9[B | (SIM & SB)] | has9[D | (SIM & ~SB)] ? 62 : b0;
            nx_fast_score_keypoints(1, kb.k, s.im, b0); hs += (uint64_t)kb.k->score;
            if (kb.k->score != e) { fail("brighter %04x darker %04x: score %g instead of %d", B, D, kb.k->score, e); break; }
        }
        step(6561); state(mix(hi, hs));
    }
    // every contrast: one corner, all centres and differences
    for (int p = 0; p < 256; ++p) if (begin("all-contrasts")) {
        describe([&] { return fmt("centre %d, all values of an arc of nine", p); }); uint64_t h = 0;
        for (int v = 0; v < 256; ++v) for (int rot = 0; rot < 16; rot += 5) {
            Src s(7, 7, 0, false, false, [&](int x, int y, int) { for (int i = 0; i < 9; ++i) if (x - 3 == CX[(rot + i) % 16] && y - 3 == CY[(rot + i) % 16]) return v; return p; });
            int df = abs(v - p); step();
            for (int thr : {0, 1, 5, df - 2, df - 1, df, df + 1, 250}) if (thr >= 0 && thr < 255) {
                KBuf kb(2); int n = nx_fast_detect_keypoints(2, kb.k, s.im, thr);
                if (n != (df > thr)) { fail("centre %d, arc %d, threshold %d: %d corners", p, v, thr, n); goto next; }
                if (n) { nx_fast_score_keypoints(n, kb.k, s.im, thr); if (kb.k->score != df - 1) { fail("centre %d, arc %d, threshold %d: score %g", p, v, thr, kb.k->score); goto next; } h += df; }
            }
        }
    next: state(mix(p, h));
    }
    // suppression: all score grids
    static const int GS[][2] = {{3, 4}, {4, 3}, {2, 6}, {6, 2}, {1, 10}, {10, 1}, {3, 5}, {5, 3}}; const int NG = pick(6, 8);
    for (int g = 0; g < NG; ++g) { int w = GS[g][0], h = GS[g][1], n = w * h, tot = 1; for (int i = 0; i < n; ++i) tot *= 3; int chunk = 729;
        for (int c = 0; c < tot; c += chunk) if (begin("suppression")) {
            describe([&] { return fmt("%dx%d grids of absent/1/2 from number %d", w, h, c); });
            for (int q = c; q < c + chunk; ++q) {
                KV k; int v = q; for (int i = 0; i < n; ++i, v /= 3) if (v % 3) { k.push_back(kp0(4 + i % w, 4 + i / w)); k.back().score = v % 3; k.back().id = 77 + i; }
                KV e = m_suppress(k, 1000); int mx = q % 5 == 4 ? (int)k.size() : q % 5; KBuf in(k.size()), out(mx); if (k.size()) memcpy(in.k, k.data(), k.size() * sizeof k[0]);
                if ((int)e.size() > mx) e.resize(mx);
                int m = nx_fast_suppress_keypoints(mx, out.k, k.size(), in.k); step();
                if (k.size() && memcmp(in.k, k.data(), k.size() * sizeof k[0])) { fail("suppression changes its input"); break; }
                if (!same_keys(out.k, m, e, "suppression")) break;
                state(mix(q, mix(m, g)));
            }
        }
    }
    // whole images
    const int W = pick(20, 34), H = pick(17, 28); static const int TH[] = {0, 5, 15, 40, 90, 250}, MX[] = {0, 1, 2, 7, 1000};
    for (int pic = 0; pic < N_PIC; ++pic) for (int w = 1; w <= W; w += 1) for (int h = 1; h <= H; h += pick(3, 1)) for (int thr : TH) if (begin("images")) {
        describe([&] { return fmt("picture %d of %dx%d threshold %d", pic, w, h, thr); });
        Src s(w, h, (w + h) % 3, false, false, [&](int x, int y, int) { return picture(pic, x, y, w, h); }); step();
        for (int mx : MX) {
            KV e = m_detect(s.im, thr, mx); KBuf kb(mx);
            int n = nx_fast_detect_keypoints(mx, kb.k, s.im, thr); if (!same_keys(kb.k, n, e, "detection")) break;
            m_score(s.im, e, thr); nx_fast_score_keypoints(n, kb.k, s.im, thr); if (!same_keys(kb.k, n, e, "scoring")) break;
            KV f = m_suppress(e, mx); KBuf ko(mx); int m = nx_fast_suppress_keypoints(mx, ko.k, n, kb.k); if (!same_keys(ko.k, m, f, "suppression")) break;
            for (int r = 0; r < 6; r += (mx == 7 ? 1 : 3)) {
                NXFastDetector *d = nx_fast_detector_alloc(); d->threshold = thr; if (r) nx_fast_detector_set_ori_param(d, NX_TRUE, r);
                KBuf kd(mx); int nd = nx_fast_detector_detect(d, mx, kd.k, s.im); KV ed = m_full(s.im, thr, mx * 10, mx, r); bool ok = same_keys(kd.k, nd, ed, "the detector");
                nx_fast_detector_free(d); if (!ok) break; state(mix(mix(n, m), mix(nd, r)));
            }
        }
        if (!s.untouched()) fail("detection changes the image");
    }
    // large images with many corners, as many as fit, one fewer, one more
    static const int BIG[] = {64, 127, 129, 200, 255, 256, 257, 300, 511, 513, 640, 1023, 1025, 1281, 2049, 3000};
    for (int n : BIG) for (int tall = 0; tall < 3; ++tall) for (int pic : {1, 3, 4, 5, 11, 13}) for (int thr : {5, 30}) if ((tall < 2 || n < 300) && begin("large-images")) {
        int w = tall == 1 ? 14 : n, h = tall == 0 ? 14 : tall == 1 ? n : n - 40; describe([&] { return fmt("picture %d of %dx%d threshold %d", pic, w, h, thr); });
        Src s(w, h, n % 3, false, false, [&](int x, int y, int) { return picture(pic, x, y, w, h); }); step();
        KV all = m_detect(s.im, thr, 1 << 28); int na = all.size(); KV sc = all; m_score(s.im, sc, thr); KV su = m_suppress(sc, 1 << 28);
        for (int mx : {na - 1, na, na + 1, 3 * na + 1000}) if (mx > 0) {
            KV e = sc; if ((int)e.size() > mx) e.resize(mx); KBuf kb(mx); int m = nx_fast_detect_keypoints(mx, kb.k, s.im, thr); nx_fast_score_keypoints(m, kb.k, s.im, thr); if (!same_keys(kb.k, m, e, "detection and scoring")) break;
            if (mx >= na) for (int ms : {(int)su.size() - 1, (int)su.size(), (int)su.size() + 1}) if (ms > 0) { KV f = su; if ((int)f.size() > ms) f.resize(ms); KBuf ko(ms); int q = nx_fast_suppress_keypoints(ms, ko.k, m, kb.k); if (!same_keys(ko.k, q, f, "suppression")) { mx = -1; break; } state(mix(q, n)); }
            if (mx < 0) break;
        }
        NXFastDetector *d = nx_fast_detector_alloc(); d->threshold = thr; nx_fast_detector_set_ori_param(d, NX_TRUE, 5);
        for (int mx : {40, na / 3 + 1, na + 1}) { KBuf kd(mx); int m = nx_fast_detector_detect(d, mx, kd.k, s.im); if (!same_keys(kd.k, m, m_full(s.im, thr, mx * 10, mx, 5), "the detector")) break; }
        nx_fast_detector_free(d); state(mix(na, su.size())); if (!s.untouched()) fail("detection changes the image");
    }
    // pyramids
    for (int pic = 0; pic < N_PIC; ++pic) for (int kind = 0; kind < 3; ++kind) for (int sz = 0; sz < 4; ++sz) for (int thr : {5, 20, 60}) for (int nl = -1; nl <= 4; ++nl) for (int mx : {0, 1, 3, 10, 400}) if (begin("pyramids")) {
        int w = sz == 0 ? 24 : sz == 1 ? 41 : sz == 2 ? 64 : 33, h = sz == 0 ? 30 : sz == 1 ? 24 : sz == 2 ? 48 : 33;
        describe([&] { return fmt("picture %d of %dx%d pyramid kind %d threshold %d, %d levels, at most %d keypoints", pic, w, h, kind, thr, nl, mx); });
        Src s(w, h, 0, false, false, [&](int x, int y, int) { return picture(pic, x, y, w, h); });
        NXImagePyrBuilder *b = kind == 0 ? nx_image_pyr_builder_new_fast(3, 1.f) : kind == 1 ? nx_image_pyr_builder_new_fine(2, 2, 1.2f) : nx_image_pyr_builder_new_scaled(3, 0.7f, 1.f);
        NXImagePyr *p = nx_image_pyr_builder_build0(b, s.im); step();
        for (int wk : {1, 8, 2000}) { KBuf ks(mx), kw(wk); int n = nx_fast_detect_keypoints_pyr(mx, ks.k, wk, kw.k, p, thr, nl); if (!same_keys(ks.k, n, m_pyr(p, thr, wk, mx, nl, 0), "pyramid detection")) break; state(mix(n, wk)); }
        NXFastDetector *d = nx_fast_detector_alloc(); d->threshold = thr;
        for (int r : {0, 3, 7}) { if (r) nx_fast_detector_set_ori_param(d, NX_TRUE, r); KBuf kd(mx); int n = nx_fast_detector_detect_pyr(d, mx, kd.k, p, nl); if (!same_keys(kd.k, n, m_pyr(p, thr, mx * 10, mx, nl, r), "the detector on a pyramid")) break; }
        nx_fast_detector_free(d); nx_image_pyr_free(p); nx_image_pyr_builder_free(b);
    }
    // histories of one detector
    // a picture whose first corner depends on how many candidates are looked at
    auto ridge = [](int k, int x, int y) { return (x * x * (3 + k % 7) + y * (11 + k) + x * y * (k % 5)) / (2 + k % 3) % 256; };
    int noise = 0; for (; noise < 5000; ++noise) { Src t(26, 22, 2, false, false, [&](int x, int y, int) { return ridge(noise, x, y); }); auto one = [&](int w) { KV k = m_full(t.im, 15, w, 1, 0); return k.empty() ? -1 : k[0].y * 100 + k[0].x; }; if (one(10) != one(30) && one(10) != one(200)) break; }
    if (noise == 5000) { fprintf(stderr, "no picture\n"); _exit(9); }
    const int L = pick(4, 5); int NOP = 12, tot = 1; for (int i = 0; i < L; ++i) tot *= NOP;
    for (int q = 0; q < tot; ++q) if (begin("detector-history")) {
        describe([&] { S o = "operations"; for (int i = 0, v = q; i < L; ++i, v /= NOP) o += fmt(" %d", v % NOP); return o; });
        size_t hp = heap(); { NXFastDetector *d = nx_fast_detector_alloc(); int thr = 15, r = 0; std::unique_ptr<Src> im[3];
        for (int i = 0; i < 3; ++i) im[i].reset(new Src(i ? 26 : 18, i == 1 ? 15 : 22, i, false, false, [&](int x, int y, int) { return i == 2 ? ridge(noise, x, y) : picture(i ? 3 : 1, x, y, 20, 20); }));
        for (int i = 0, v = q; i < L; ++i, v /= NOP) {
            int op = v % NOP, img = 0, mx = 0; step();
            switch (op) {
            case 0: img = 0; mx = 20; break;
            case 1: img = 1; mx = 3; break;
            case 2: img = 1; mx = 50; break;
            case 3: nx_fast_detector_set_ori_param(d, NX_TRUE, 4); r = 4; break;
            case 4: nx_fast_detector_set_ori_param(d, NX_TRUE, 2); r = 2; break;
            case 5: nx_fast_detector_set_ori_param(d, NX_FALSE, 3); r = 0; break;
            case 6: nx_fast_detector_adapt_threshold(d, 100, 100); thr = std::min(250, thr + 3); break;
            case 7: nx_fast_detector_adapt_threshold(d, 10, 100); thr = std::max(5, thr - 3); break;
            case 8: nx_fast_detector_adapt_threshold(d, 85, 100); thr = std::max(5, thr - 1); break;
            case 9: d->threshold = thr = 249; break;
            case 10: d->threshold = thr = 6; break;
            case 11: img = 2; mx = 1; break;
            }
            if (d->threshold != thr) { fail("the threshold is %d instead of %d", d->threshold, thr); break; }
            if (mx) { KBuf kb(mx); int n = nx_fast_detector_detect(d, mx, kb.k, im[img]->im); if (!same_keys(kb.k, n, m_full(im[img]->im, thr, mx * 10, mx, r), "the used detector")) break; state(mix(n, thr * 8 + r)); }
        }
        nx_fast_detector_free(d); }
        if (heap() != hp) fail("the detector leaks %zd bytes", (ssize_t)(heap() - hp));
    }
    for (int mx = 1; mx <= pick(300, 2000); ++mx) if (begin("threshold-adaptation")) {
        describe([&] { return fmt("at most %d keypoints", mx); });
        for (int n = 0; n <= mx + 5; ++n) for (int t : {5, 6, 7, 9, 100, 246, 248, 249, 250}) {
            NXFastDetector d; memset(&d, 0, sizeof d); d.threshold = t; nx_fast_detector_adapt_threshold(&d, n, mx); step();
            double f = n / (double)mx; int e = d.threshold; // near 99%, 90% and 70% either side of the limit is fine
            bool up = f >= 0.9903 && true, mid = f > 0.8995 + 1e-9 && n < (1014 * mx) / 1024;
            if (up && n >= 0.9903 * mx) { if (e != std::min(250, t + 3)) fail("%d of %d keypoints: threshold %d becomes %d", n, mx, t, e); }
            else if (n < 0.699 * mx - 1) { if (e != std::max(5, t - 3)) fail("%d of %d keypoints: threshold %d becomes %d", n, mx, t, e); }
            else if (n > 0.70 * mx + 1 && n < 0.899 * mx - 1) { if (e != std::max(5, t - 1)) fail("%d of %d keypoints: threshold %d becomes %d", n, mx, t, e); }
            else if (n > 0.90 * mx + 1 && n < 0.99 * mx - 1 && mid) { if (e != t) fail("%d of %d keypoints: threshold %d becomes %d", n, mx, t, e); }
            if (e < 5 || e > 250) fail("threshold %d is out of range", e);
        }
        state(mx);
    }
}

// ---------------------------------------------------------------- Harris
static NXImage *fimg(int w, int h) { NXImage *d = nx_image_alloc(); nx_image_resize(d, w, h, -1, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32); return d; }
static void m_harris(const NXImage *im, float sigma, float k, std::vector<double> &score, double *mag = nullptr) { // products of derivatives, smoothed, scored
    NXImage *dx = nx_image_alloc(), *dy = nx_image_alloc(); nx_image_deriv_x(dx, im); nx_image_deriv_y(dy, im);
    NXImage *p[3]; int w = im->width, h = im->height;
    for (int i = 0; i < 3; ++i) { p[i] = fimg(w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) p[i]->data.f32[y * p[i]->row_stride + x] = (float)(px(i == 1 ? dy : dx, x, y) * px(i == 0 ? dx : dy, x, y)); if (sigma > 0) { NXImage *t = nx_image_alloc(); nx_image_smooth(t, p[i], sigma, sigma, 3.f, nullptr); nx_image_free(p[i]); p[i] = t; } }
    score.resize(w * h); double mx = 0;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double a = px(p[0], x, y), b = px(p[1], x, y), c = px(p[2], x, y); score[y * w + x] = a * b - c * c - k * (a + b) * (a + b); mx = std::max(mx, (a + b) * (a + b)); }
    if (mag) *mag = mx;
    for (int i = 0; i < 3; ++i) nx_image_free(p[i]); nx_image_free(dx); nx_image_free(dy);
}
static KV m_harris_detect(const std::function<double(int, int)> &s, int w, int h, double thr, int mx) {
    KV o;
    for (int y = 2; y < h - 2; ++y) for (int x = 2; x < w - 2; ++x) { double v = s(x, y); bool is = v > thr; for (int dx = -1; dx <= 1 && is; ++dx) for (int dy = -1; dy <= 1; ++dy) if ((dx || dy) && s(x + dx, y + dy) >= v) is = false; if (is && (int)o.size() < mx) { NXKeypoint k = kp0(x, y); k.sigma = 1; k.score = (float)v; k.id = o.size(); o.push_back(k); } }
    return o;
}
static double m_adapt(double t, int n, int mx) {
    double f = (double)n; return f > 1.7 * mx ? t * 4 : f > 1.4 * mx ? t * 1.9 : f > 1.1 * mx ? t * 1.2 : n > mx ? t * 1.02 : f < 0.5 * mx ? t * 0.25 : f < 0.9 * mx ? t * 0.6 : f < 0.95 * mx ? t * 0.9 : f < 0.99 * mx ? t * 0.97 : t;
}
static void p25() {
    // score images
    const int W = pick(10, 16); static const float SG[] = {0, 0.5f, 1.2f, 2.f}, KK[] = {0, 0.04f, 0.06f, 0.2f};
    for (int w = 1; w <= W; ++w) for (int h = 1; h <= W; ++h) for (int pic = 0; pic < N_PIC; ++pic) for (float sg : SG) for (int dk = 0; dk < 2; ++dk) if (begin("score-images")) {
        describe([&] { return fmt("picture %d of %dx%d window %g, %s images", pic, w, h, sg, dk ? "used" : "new"); });
        Src s(w, h, (w + h) % 3, false, false, [&](int x, int y, int) { return picture(pic, x, y, w, h); });
        NXImage *d[3] = {nullptr, nullptr, nullptr}; if (dk) for (int i = 0; i < 3; ++i) d[i] = dest_kind(1 + (i + pic) % (N_DEST - 1), w, h);
        size_t hp = 0; nx_harris_deriv_images(d, s.im, sg); step();
        for (float k : KK) {
            std::vector<double> e; double mag; m_harris(s.im, sg, k, e, &mag); NXImage *o = dest_kind(dk ? 3 : 0, w, h); nx_harris_score_image(o, d, k);
            if (shape_is(o, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32, "the score image")) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (!near_ok(px(o, x, y), e[y * w + x], 1e-5 * mag + 1e-12)) { fail("picture %d of %dx%d window %g k %g: score at (%d,%d) is %g instead of %g", pic, w, h, sg, k, x, y, px(o, x, y), e[y * w + x]); x = w; y = h; }
            state(img_hash(o)); nx_image_free(o);
        }
        (void)hp; for (int i = 0; i < 3; ++i) nx_image_free(d[i]); if (!s.untouched()) fail("computing derivatives changes the image");
    }
    // scores of given products, also ones no image has
    static const double DV[] = {0, 1, -1, 0.25, 30, -7};
    for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) for (int c = 0; c < 6; ++c) for (float k : KK) for (int sz = 0; sz < 4; ++sz) if (begin("given-products")) {
        int w = sz % 2 ? 7 : 1, h = sz / 2 ? 6 : 1; auto pv = [&](int q, int x, int y) { return DV[(q + (x * 5 + y * 3) % 4) % 6]; }; describe([&] { return fmt("products %g %g %g, k %g, %dx%d", DV[a], DV[b], DV[c], k, w, h); });
        Src s0(w, h, 0, true, false, [&](int x, int y, int) { return pv(a, x, y); }), s1(w, h, 2, true, false, [&](int x, int y, int) { return pv(b, y, x); }), s2(w, h, 1, true, false, [&](int x, int y, int) { return pv(c, x, 2 * y); });
        NXImage *d[3] = {s0.im, s1.im, s2.im}, *o = dest_kind((a + b) % N_DEST, w, h); nx_harris_score_image(o, d, k); step();
        if (shape_is(o, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32, "the score image")) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double u = s0.at(x, y), v = s1.at(x, y), q = s2.at(x, y), e = u * v - q * q - (double)k * (u + v) * (u + v); if (!near_ok(px(o, x, y), e, 1e-3)) { fail("the score of the products %g %g %g is %g instead of %g", u, v, q, px(o, x, y), e); x = w; y = h; } }
        if (!s0.untouched() || !s1.untouched() || !s2.untouched()) fail("computing the score changes the products"); state(img_hash(o)); nx_image_free(o);
    }
    // local maxima: all score images over three values with one or two candidate pixels, all positions
    static const int GS[][2] = {{5, 5}, {6, 5}, {5, 6}}; 
    for (auto &g : GS) { int gw = g[0] - 2, gh = g[1] - 2, n = gw * gh, tot = 1; for (int i = 0; i < n; ++i) tot *= 3;
        for (int c = 0; c < tot; c += 243) if (begin("local-maxima")) {
            describe([&] { return fmt("%dx%d score images from number %d", g[0], g[1], c); });
            for (int q = c; q < c + 243; ++q) {
                int v = q; std::vector<int> sv(n); for (int i = 0; i < n; ++i, v /= 3) sv[i] = v % 3;
                Src s(g[0], g[1], q % 2, true, false, [&](int x, int y, int) { return x >= 1 && x < g[0] - 1 && y >= 1 && y < g[1] - 1 ? sv[(y - 1) * gw + x - 1] : 9.; });
                for (float thr : {-1.f, 0.f, 0.5f, 1.f, 1.5f, 2.f}) for (int mx : {1, 5}) { KV e = m_harris_detect([&](int x, int y) { return s.at(x, y); }, g[0], g[1], thr, mx); KBuf kb(mx); int m = nx_harris_detect_keypoints(mx, kb.k, s.im, thr); step(); if (!same_keys(kb.k, m, e, "Harris detection")) { q = tot; break; } state(mix(q, m)); }
                if (q < tot && !s.untouched()) fail("detection changes the score image");
            }
        }
    }
    for (int w = 1; w <= pick(14, 24); ++w) for (int h = 1; h <= pick(14, 24); ++h) for (int pic = 0; pic < N_PIC; ++pic) for (int pad = 0; pad < 2; ++pad) if (begin("score-maxima")) {
        describe([&] { return fmt("picture %d of %dx%d as scores", pic, w, h); });
        Src s(w, h, pad * 2, true, false, [&](int x, int y, int) { return picture(pic, x, y, w, h) - 50; });
        for (float thr : {-60.f, 0.f, 60.f, 150.f}) for (int mx : {0, 1, 2, 3, 300}) { KV e = m_harris_detect([&](int x, int y) { return s.at(x, y); }, w, h, thr, mx); KBuf kb(mx); int m = nx_harris_detect_keypoints(mx, kb.k, s.im, thr); step(); if (!same_keys(kb.k, m, e, "Harris detection")) return; state(mix(m, w * 64 + h)); }
    }
    static const int BIG[] = {63, 65, 127, 129, 255, 257, 300, 511, 513, 640, 1025, 1281, 2050};
    for (int n : BIG) for (int tall = 0; tall < 3; ++tall) for (int pic : {1, 3, 4, 9}) for (float sg : {0.f, 1.2f, 4.f}) if ((tall < 2 || n < 300) && begin("large-images")) {
        int w = tall == 1 ? 11 : n, h = tall == 0 ? 11 : tall == 1 ? n : n - 30; describe([&] { return fmt("picture %d of %dx%d window %g", pic, w, h, sg); });
        Src s(w, h, n % 3, false, false, [&](int x, int y, int) { return picture(pic, x, y, w, h); }); step();
        NXImage *d[3] = {nullptr, nullptr, nullptr}, *o = nx_image_alloc(); nx_harris_deriv_images(d, s.im, sg); nx_harris_score_image(o, d, 0.05f); std::vector<double> e; double mag; m_harris(s.im, sg, 0.05f, e, &mag);
        if (shape_is(o, w, h, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32, "the score image")) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (!near_ok(px(o, x, y), e[y * w + x], 1e-5 * mag + 1e-12)) { fail("score at (%d,%d) is %g instead of %g", x, y, px(o, x, y), e[y * w + x]); x = w; y = h; }
            KV all = m_harris_detect([&](int x, int y) { return px(o, x, y); }, w, h, 0, 1 << 28); int na = all.size();
            for (int mx : {na - 1, na, na + 1, na * 2 + 1000}) if (mx > 0) { KV f = all; if ((int)f.size() > mx) f.resize(mx); KBuf kb(mx); int m = nx_harris_detect_keypoints(mx, kb.k, o, 0); if (!same_keys(kb.k, m, f, "Harris detection")) break; state(mix(m, n)); } }
        for (int i = 0; i < 3; ++i) nx_image_free(d[i]); nx_image_free(o);
    }
    // adaptation: every number of keypoints asked for around the number found; the adapted threshold shows in the next detection
    { const int gw = 16, gh = 12, w = gw * 8 + 4, h = gh * 8 + 4; Src s(w, h, 0, false, false, [&](int x, int y, int) { int cx = (x - 2) / 8, cy = (y - 2) / 8, i = cy * gw + cx; if (x < 2 || y < 2 || cx >= gw || cy >= gh) return 0; int dx = (x - 2) % 8, dy = (y - 2) % 8; return dx >= 2 && dx < 5 && dy >= 2 && dy < 5 ? 64 + (i * 53) % 191 : 0; });
      VGImage img(s.im, false); VGImagePyr p = VGImagePyr::build_fast_from(img, 2, 1.f);
      for (int pyr = 0; pyr < 2; ++pyr) {
      NXImage *d[3] = {nullptr, nullptr, nullptr}, *o = nx_image_alloc(); nx_harris_deriv_images(d, pyr ? p.nx_pyr()->levels[0].img : s.im, 1.2f); nx_harris_score_image(o, d, 0.06f); KV top = m_harris_detect([&](int x, int y) { return px(o, x, y); }, w, h, 0, 100000);
      std::vector<float> sc; for (auto &k : top) sc.push_back(k.score); std::sort(sc.rbegin(), sc.rend());
      for (int rank : {20, 50, 70, 100}) for (int mx = 1; mx <= 230; ++mx) if (begin("adaptation")) {
        double thr = (float)((sc[rank - 1] + sc[rank]) / 2); int found = 0; for (float v : sc) found += v > thr;
        describe([&] { return fmt("%d keypoints above the threshold, %d asked for%s", found, mx, pyr ? ", pyramid" : ""); });
        VGHarrisDetector det; det.set_threshold((float)thr); KV got; int n;
        if (pyr) n = det.detect_pyr(p, got, 1, mx, true); else n = det.detect(img, got, mx, true); step();
        auto level = [&](double t, int room) { return m_harris_detect([&](int x, int y) { return px(o, x, y); }, w, h, t, room); };
        KV e = level(thr, 2 * mx); found = e.size(); if ((int)e.size() > mx) e.resize(mx); if (pyr) for (auto &k : e) { k.scale = p.level_scale(0); k.sigma = p.level_sigma(0); }
        if (!same_keys(got.data(), n, e, "the Harris detector")) continue;
        static const double RT[] = {1.7, 1.4, 1.1, 0.5, 0.9, 0.95, 0.99}; bool edge = false; for (double r : RT) if (std::fabs(found - r * mx) < 1e-4 * mx) edge = true;
        double t2 = (float)m_adapt(thr, found, mx); for (float v : sc) if (std::fabs(v - t2) < 1e-5 * t2) edge = true;
        if (edge) continue;
        if (pyr) { VGImage l0(p.nx_pyr()->levels[0].img, false); n = det.detect(l0, got, 5000, false); } else n = det.detect(img, got, 5000, false);
        if (!same_keys(got.data(), n, level(t2, 10000), "the detector with the adapted threshold")) continue;
        state(mix(found, mix(mx, n)));
      }
      for (int i = 0; i < 3; ++i) nx_image_free(d[i]); nx_image_free(o); } }
    // pyramids: every picture, number of levels and room, with few or no keypoints on a level
    for (int pic = 0; pic < N_PIC; ++pic) for (int sz = 0; sz < 3; ++sz) for (int nl = 1; nl <= 4; ++nl) for (int mx : {1, 2, 3, 5, 9, 40}) for (float thr : {-1.f, 1e-7f, 5e-6f, 5e-4f, 5e-3f}) for (int ad = 0; ad < 2; ++ad) if (begin("pyramid-detection")) {
        static const int ZS[][2] = {{24, 20}, {41, 33}, {60, 57}}; int w = ZS[sz][0], h = ZS[sz][1]; describe([&] { return fmt("picture %d of %dx%d, %d levels, %d keypoints, threshold %g%s", pic, w, h, nl, mx, thr, ad ? ", adapting" : ""); }); step();
        Src s(w, h, 0, false, false, [&](int x, int y, int) { return picture(pic, x, y, w, h); }); VGImage img(s.im, false); VGImagePyr pyr = sz ? VGImagePyr::build_scaled_from(img, 4, 1.5f, 0.7f) : VGImagePyr::build_fast_from(img, 4, 1.f); VGHarrisDetector det; det.set_threshold(thr); bool amb = false; KV e, got(sz * 20);
        for (int l = nl - 1; l >= 0 && (int)e.size() < 2 * mx; --l) {
            const NXImage *im = pyr.nx_pyr()->levels[l].img; NXImage *d[3] = {nullptr, nullptr, nullptr}, *o = nx_image_alloc(); nx_harris_deriv_images(d, im, 1.2f); nx_harris_score_image(o, d, 0.06f); for (int y = 0; y < im->height; ++y) for (int x = 0; x < im->width; ++x) if (std::fabs(px(o, x, y) - thr) < 1e-5 * std::fabs(thr)) amb = true;
            KV r = m_harris_detect([&](int x, int y) { return px(o, x, y); }, im->width, im->height, thr, 2 * mx - (int)e.size()); for (int j = 0; j < 3; ++j) nx_image_free(d[j]); nx_image_free(o);
            for (auto &k : r) { k.level = l; k.scale = pyr.level_scale(l); k.sigma = pyr.level_sigma(l); k.id = e.size(); e.push_back(k); }
        }
        if ((int)e.size() > mx) e.resize(mx);
        int n = det.detect_pyr(pyr, got, nl, mx, ad); if (n != (int)got.size()) { fail("the detector returns %d but stores %zu keypoints", n, got.size()); continue; }
        if (!amb) same_keys(got.data(), n, e, "the Harris detector on a pyramid"); if (!s.untouched()) fail("detection changes the image"); state(mix(n, hash(fmt("%d %d %d", pic, sz, nl))));
    }
    // the detector class: every history of detections with and without adaptation
    const int L = pick(4, 5), NOP = 9; int tot = 1; for (int i = 0; i < L; ++i) tot *= NOP;
    for (int q = 0; q < tot; ++q) if (begin("detector-history")) {
        describe([&] { S o = "operations"; for (int i = 0, v = q; i < L; ++i, v /= NOP) o += fmt(" %d", v % NOP); return o; });
        VGHarrisDetector det; double thr = 0.000005f; float sg = 1.2f, kk = 0.06f;
        for (int i = 0, v = q; i < L; ++i, v /= NOP) {
            int op = v % NOP; step();
            static const struct { int pic, w, h, mx; bool ad; int pyr; } C[6] = {{1, 24, 20, 4, true, 0}, {1, 24, 20, 4, false, 0}, {3, 17, 19, 30, true, 0}, {4, 32, 28, 3, true, 2}, {4, 32, 28, 12, false, 3}, {12, 12, 12, 5, true, 0}};
            if (op == 6) { det.set_threshold(0.0005f); thr = 0.0005f; continue; }
            if (op == 7) { det.set_sigma_win(0.8f); sg = 0.8f; continue; }
            if (op == 8) { det.set_k(0.1f); kk = 0.1f; continue; }
            auto &c = C[op]; Src s(c.w, c.h, 0, false, false, [&](int x, int y, int) { return picture(c.pic, x, y, c.w, c.h); }); VGImage img(s.im, false);
            KV got(3), e; int n; bool amb = false;
            auto level = [&](const NXImage *im, int room) { std::vector<double> sc; NXImage *d[3] = {nullptr, nullptr, nullptr}, *o = nx_image_alloc(); nx_harris_deriv_images(d, im, sg); nx_harris_score_image(o, d, kk); for (int y = 0; y < im->height; ++y) for (int x = 0; x < im->width; ++x) if (std::fabs(px(o, x, y) - thr) < 1e-5 * thr) amb = true; KV r = m_harris_detect([&](int x, int y) { return px(o, x, y); }, im->width, im->height, thr, room); for (int j = 0; j < 3; ++j) nx_image_free(d[j]); nx_image_free(o); return r; };
            if (!c.pyr) { n = det.detect(img, got, c.mx, c.ad); e = level(s.im, 2 * c.mx); }
            else {
                VGImagePyr pyr = VGImagePyr::build_fast_from(img, 3, 1.f); n = det.detect_pyr(pyr, got, c.pyr, c.mx, c.ad);
                for (int l = c.pyr - 1; l >= 0 && (int)e.size() < 2 * c.mx; --l) { KV r = level(pyr.nx_pyr()->levels[l].img, 2 * c.mx - (int)e.size()); for (auto &k : r) { k.level = l; k.scale = pyr.level_scale(l); k.sigma = pyr.level_sigma(l); k.id = e.size(); e.push_back(k); } }
            }
            int found = e.size(); if (c.ad) { thr = m_adapt(thr, found, c.mx); thr = (float)thr; }
            if ((int)e.size() > c.mx) e.resize(c.mx);
            if (amb) break;
            if (n != (int)got.size()) { fail("the detector returns %d but stores %zu keypoints", n, got.size()); break; }
            if (!same_keys(got.data(), n, e, "the Harris detector")) break;
            if (!s.untouched()) fail("detection changes the image");
            state(mix(n, hash(fmt("%g %g %g", thr, sg, kk))));
        }
    }
}

// ---------------------------------------------------------------- BRIEF
static NXBriefExtractor *with_offsets(int octets, const std::vector<int> &o, int lo) {
    NXBriefExtractor *be = nx_brief_extractor_new(octets, 8); for (int i = 0; i < octets * 32; ++i) be->offsets[i] = o[i % o.size()];
    be->pyr_level_offset = lo; nx_brief_extractor_update_limits(be); return be;
}
static S offs(const NXBriefExtractor *b) { return S((const char *)b->offsets, b->n_octets * 32 * sizeof(int)); }
// model of one sampled coordinate: float arithmetic may land on either side of an integer
struct Iv { int lo, hi; };
static Iv samp(double v) { double t = 1e-4; return {(int)std::trunc(v - t), (int)std::trunc(v + t)}; }
static void p26() {
    // pattern of a seed
    for (int oc = 1; oc <= pick(40, 70); ++oc) for (int r = 5; r <= pick(14, 32); ++r) if (begin("patterns")) {
        describe([&] { return fmt("%d octets radius %d", oc, r); });
        for (uint32_t seed : {0u, 1u, 1431142416u, 1431228807u, 0xffffffffu, (uint32_t)(oc * 1000 + r)}) {
            NXBriefExtractor *b = nx_brief_extractor_new_with_seed(oc, r, seed); SfmtRef g(seed); step(); int lim[4] = {1 << 20, -(1 << 20), 1 << 20, -(1 << 20)}; bool ok = b->n_octets == oc && b->radius == r && b->pyr_level_offset == 2;
            if (!ok) fail("an extractor of %d octets and radius %d has %d octets, radius %d, level offset %d", oc, r, b->n_octets, b->radius, b->pyr_level_offset);
            for (int i = 0; ok && i < oc * 8; ++i) {
                auto c = [&] { return (int)(2 * r * (g.s() - 0.5f)); }; int x0 = c(), y0 = c(), x1, y1; do { x1 = c(); y1 = c(); } while ((x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0) < 9);
                const int *o = b->offsets + 4 * i;
                if (o[0] != x0 || o[1] != y0 || o[2] != x1 || o[3] != y1) { fail("%d octets radius %d seed %u: test %d is (%d,%d)-(%d,%d) instead of (%d,%d)-(%d,%d)", oc, r, seed, i, o[0], o[1], o[2], o[3], x0, y0, x1, y1); ok = false; }
                for (int j = 0; j < 2; ++j) { lim[0] = std::min(lim[0], o[2 * j]); lim[1] = std::max(lim[1], o[2 * j]); lim[2] = std::min(lim[2], o[2 * j + 1]); lim[3] = std::max(lim[3], o[2 * j + 1]); if (abs(o[2 * j]) > r || abs(o[2 * j + 1]) > r) fail("test %d leaves the radius", i); }
            }
            if (ok && memcmp(lim, b->offset_limits, sizeof lim)) fail("offset limits are wrong");
            state(mix(hash(offs(b)), seed));
            // a resized, rerandomized extractor is like a new one
            NXBriefExtractor *c = nx_brief_extractor_new(1 + (oc * 7) % 40, 5 + (r * 3 + oc) % 14); nx_brief_extractor_resize(c, oc, r); nx_brief_extractor_randomize_with_seed(c, seed);
            if (c->n_octets != oc || c->radius != r || offs(c) != offs(b) || memcmp(c->offset_limits, b->offset_limits, 16)) fail("a resized extractor differs from a new one");
            nx_brief_extractor_free(b); nx_brief_extractor_free(c);
        }
    }
    // distance of descriptors: every length, every pair of octets at every place, all bits different
    for (int n = 0; n <= pick(72, 140); ++n) if (begin("distances")) {
        describe([&] { return fmt("descriptors of %d octets", n); }); uchar *a = (uchar *)malloc(n + 1), *b = (uchar *)malloc(n + 1); uchar *pa = a + 1, *pb = b + 1; // exactly to the end
        auto chk = [&](const char *what) { int e = 0; for (int i = 0; i < n; ++i) e += __builtin_popcount(pa[i] ^ pb[i]); int g = nx_brief_extractor_descriptor_distance(n, pa, pb), g2 = VGBriefExtractor::distance_of(n, pb, pa); step(); if (g != e || g2 != e) { fail("distance of descriptors of %d octets (%s) is %d/%d instead of %d", n, what, g, g2, e); return false; } return true; };
        bool ok = true; for (int i = 0; i < n; ++i) { pa[i] = i * 37 + 11; pb[i] = pa[i]; } ok = chk("equal");
        for (int i = 0; i < n && ok; ++i) { for (int v = 0; v < 256 && ok; ++v) { pb[i] = pa[i] ^ v; ok = chk("one octet different"); } pb[i] = pa[i]; }
        for (int v = 0; v < 256 && ok; ++v) { for (int i = 0; i < n; ++i) pb[i] = pa[i] ^ (uchar)(v + i * 29); ok = chk("all different"); }
        for (int i = 0; i < n && ok; ++i) pb[i] = ~pa[i]; if (ok) chk("complement"); state(n); free(a); free(b);
    }
    // descriptors at every position of every level
    static const std::vector<int> OFF[] = {{-1, 0, 2, 1, 0, 0, 3, 3, -2, 2, 1, -3, 4, -1, -4, 1, 0, 1, 0, -2, 5, 5, -5, -5, 2, 0, -2, 0, 1, 1, -1, -3},
        {0, 0, 1, 0}, {3, 2, -3, -2, 6, 0, 0, 6, -6, 1, 2, -6}, {1, 1, 4, 4, 2, 5, 5, 2}, {-1, -2, -4, -3, -6, -1, -1, -6}};
    for (int kind = 0; kind < 5; ++kind) for (int pic = 1; pic < 5; ++pic) for (int of = 0; of < 5; ++of) for (int lo = 0; lo < 4; ++lo) for (int oc = 1; oc <= 3; oc += 2) for (int lev = 0; lev < 4; ++lev) if (begin("descriptors")) {
        describe([&] { return fmt("pyramid kind %d picture %d offsets %d level %d sampled %d above, %d octets", kind, pic, of, lev, lo, oc); });
        const int w = 23, h = 17; Src s(w, h, 1, false, false, [&](int x, int y, int) { return picture(pic, x, y, w, h); });
        NXImagePyr *p; NXImagePyrBuilder *b = nullptr;
        if (kind < 3) { b = kind == 0 ? nx_image_pyr_builder_new_fast(4, 1.f) : kind == 1 ? nx_image_pyr_builder_new_fine(2, 2, 1.2f) : nx_image_pyr_builder_new_scaled(4, 0.8f, 1.f); p = nx_image_pyr_builder_build0(b, s.im); }
        else { p = nx_image_pyr_alloc(); nx_image_pyr_alloc_levels(p, 4); static const float SCL[2][4] = {{1, 1, 3, 2}, {1, 0.5f, 1.5f, 4}}; for (int l = 0; l < 4; ++l) { float sc = SCL[kind - 3][l]; int lw = w / sc, lh = h / sc; nx_image_pyr_create_level(p, l, lw, lh, sc, 1); for (int y = 0; y < lh; ++y) for (int x = 0; x < lw; ++x) p->levels[l].img->data.uc[y * p->levels[l].img->row_stride + x] = (uchar)picture(pic + l, x, y, lw, lh); } }
        if (lev < p->n_levels) {
            NXBriefExtractor *be = with_offsets(oc, OFF[of], lo); int sl = lev + lo; const NXImage *L = p->levels[lev].img, *SI = sl < p->n_levels ? p->levels[sl].img : nullptr;
            double f = SI ? (double)p->levels[lev].scale / p->levels[sl].scale : 0; bool stop = false;
            for (int y = -7; y < L->height + 7 && !stop; ++y) for (int x = -7; x < L->width + 7 && !stop; ++x) {
                bool chk = nx_brief_extractor_check_point_pyr(be, p, x, y, lev) == NX_TRUE; step(); int in = 1; // 1 inside, 0 outside, 2 at the edge
                if (!SI) in = 0; else for (int i = 0; i < oc * 8 && in; ++i) for (int j = 0; j < 2; ++j) { Iv a = samp((x + be->offsets[4 * i + 2 * j]) * f), c = samp((y + be->offsets[4 * i + 2 * j + 1]) * f); auto out = [](int v, int n) { return v < 0 || v >= n; }; bool oa = out(a.lo, SI->width) && out(a.hi, SI->width), ob = out(c.lo, SI->height) && out(c.hi, SI->height); if (oa || ob) { in = 0; break; } if (out(a.lo, SI->width) || out(a.hi, SI->width) || out(c.lo, SI->height) || out(c.hi, SI->height)) in = 2; }
                if (in != 2 && chk != (in == 1)) { fail("point (%d,%d) of level %d is %s although %s of its samples are inside", x, y, lev, chk ? "accepted" : "rejected", in ? "all" : "not all"); stop = true; break; }
                for (int th = -1; th < 9; ++th) { // -1: plain
                    uchar *desc = (uchar *)malloc(oc); memset(desc, 0xA5, oc); bool got; double t = th < 0 ? 0 : th * 0.7 - 1.4, ct = std::cos((float)t), st = std::sin((float)t);
                    if (th < 0) { if (!chk) { free(desc); continue; } nx_brief_extractor_compute_pyr(be, p, x, y, lev, desc); got = true; } else got = nx_brief_extractor_compute_pyr_at_theta(be, p, x, y, lev, (float)t, desc) == NX_TRUE;
                    int valid = SI ? 1 : 0; 
                    for (int i = 0; SI && i < oc * 8; ++i) {
                        int lo0 = 255, hi0 = 0, lo1 = 255, hi1 = 0; // range of the two intensities
                        for (int j = 0; j < 2; ++j) {
                            double ox = be->offsets[4 * i + 2 * j], oy = be->offsets[4 * i + 2 * j + 1]; if (th >= 0) { double rx = ct * ox + st * oy, ry = -st * ox + ct * oy; ox = rx; oy = ry; }
                            Iv a = samp((x + ox) * f), c = samp((y + oy) * f);
                            for (int xx : {a.lo, a.hi}) for (int yy : {c.lo, c.hi}) { if (xx < 0 || yy < 0 || xx >= SI->width || yy >= SI->height) { bool single = a.lo == a.hi && c.lo == c.hi; valid = single ? 0 : valid ? 2 : 0; continue; } int v = (int)px(SI, xx, yy); (j ? lo1 : lo0) = std::min(j ? lo1 : lo0, v); (j ? hi1 : hi0) = std::max(j ? hi1 : hi0, v); }
                        }
                        if (!valid) break;
                        int bit = desc[i / 8] >> (7 - i % 8) & 1;
                        if (got && valid == 1 && ((bit && hi0 <= lo1) || (!bit && lo0 > hi1))) { fail("descriptor of (%d,%d) level %d%s: bit %d is %d, the samples are %d and %d", x, y, lev, th < 0 ? "" : fmt(" at angle %g", t).c_str(), i, bit, lo0, lo1); stop = true; break; }
                    }
                    if (valid != 2 && got != (valid == 1)) { fail("descriptor of (%d,%d) level %d at angle %g is %s", x, y, lev, t, got ? "computed from outside of the image" : "refused"); stop = true; }
                    if (got) state(mix(hash_bytes(desc, oc), th)); free(desc); if (stop) break;
                }
            }
            nx_brief_extractor_free(be);
        }
        nx_image_pyr_free(p); if (b) nx_image_pyr_builder_free(b);
    }
    // the class: descriptors of keypoint lists
    for (int r : {5, 9, 16, 24}) for (int oc : {1, 4, 32, 65, 128}) for (int pic = 1; pic < 5; ++pic) if (begin("descriptor-maps")) {
        describe([&] { return fmt("radius %d octets %d picture %d", r, oc, pic); });
        const int w = 70, h = 60; Src s(w, h, 0, false, false, [&](int x, int y, int) { return picture(pic, x, y, w, h); }); VGImage im(s.im, false); VGImagePyr pyr = VGImagePyr::build_fast_from(im, 4, 1.f);
        VGBriefExtractor v(oc, r), v2(3, 7); v2.resize(oc, r); NXBriefExtractor *ref = nx_brief_extractor_new_with_seed(oc, r, r == 16 ? NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R16 : NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R24);
        KV k; for (int y = 0; y < h; y += 3) for (int x = 0; x < w; x += 3) { k.push_back(kp0(x >> (k.size() % 4), y >> (k.size() % 4))); k.back().level = (k.size() - 1) % 4; k.back().id = 1000 + k.size() * 3; }
        for (int q = 0; q < 2; ++q) {
            VGDescriptorMap m(oc); (q ? v2 : v).compute_pyr(pyr, k.size(), k.data(), m); int at = 0; step();
            for (auto &e : k) if (nx_brief_extractor_check_point_pyr(ref, pyr.nx_pyr(), e.x, e.y, e.level)) { std::vector<uchar> d(oc); nx_brief_extractor_compute_pyr(ref, pyr.nx_pyr(), e.x, e.y, e.level, d.data()); if (at >= m.size() || m.get_id(at) != e.id || memcmp(m.get_descriptor(at), d.data(), oc)) { fail("descriptor %d of the map is not that of keypoint %llu", at, (unsigned long long)e.id); break; } if (!v.check_keypoint_pyr(pyr, e)) fail("class and function disagree"); ++at; }
            if (at != m.size()) fail("the map has %d instead of %d descriptors", m.size(), at);
            state(mix(at, r * 64 + oc));
        }
        { uint32_t seed = pic * 77 + r; v.randomize_with_seed(seed); nx_brief_extractor_randomize_with_seed(ref, seed); std::vector<uchar> a(oc), b(oc), c(oc);
          for (int l = 0; l < 4; ++l) for (int y = -3; y < h >> l; y += 4) for (int x = -3; x < w >> l; x += 4) { bool ok = nx_brief_extractor_check_point_pyr(ref, pyr.nx_pyr(), x, y, l) == NX_TRUE; if (v.check_point_pyr(pyr, x, y, l) != ok) { fail("class and function disagree about (%d,%d)", x, y); l = 4; y = h; break; }
            if (ok) { NXKeypoint k1 = kp0(x, y); k1.level = l; k1.scale = 1 << l; nx_brief_extractor_compute_pyr(ref, pyr.nx_pyr(), x, y, l, a.data()); v.compute_pyr(pyr, x, y, l, b.data()); v.compute_pyr(pyr, k1, c.data()); if (a != b || a != c) { fail("class and function compute different descriptors of (%d,%d)", x, y); l = 4; y = h; break; } } } }
        nx_brief_extractor_free(ref);
    }
    // files
    S f = tmpfile("brief.bin");
    for (int oc = 1; oc <= pick(36, 60); ++oc) for (int lo = 0; lo < 4; ++lo) if (begin("extractor-files")) {
        describe([&] { return fmt("%d octets, level offset %d: round trip and every truncation", oc, lo); });
        NXBriefExtractor *b = nx_brief_extractor_new_with_seed(oc, 5 + oc % 20, oc * 31 + lo); b->pyr_level_offset = lo;
        FILE *o = fopen(f.c_str(), "wb"); if (oc % 2) { if (nx_brief_extractor_write(b, o) != NX_OK) fail("writing fails"); } else nx_brief_extractor_xwrite(b, o); fwrite("more", 1, 4, o); fclose(o); S data = read_file(f).substr(0, read_file(f).size() - 4);
        for (int x = 0; x < 2; ++x) for (int used = 0; used < 3; ++used) {
            NXBriefExtractor *c = used ? nx_brief_extractor_new(used == 1 ? 50 : 1, 5) : nx_brief_extractor_alloc(); FILE *i = fopen(f.c_str(), "rb"); bool ok = true; if (x) ok = guarded([&] { nx_brief_extractor_xread(c, i); }); else ok = nx_brief_extractor_read(c, i) == NX_OK; char m[5] = ""; step();
            if (!ok) fail("reading an extractor of %d octets fails", oc);
            else if (c->n_octets != oc || c->radius != b->radius || c->pyr_level_offset != lo || offs(c) != offs(b) || memcmp(c->offset_limits, b->offset_limits, 16)) fail("an extractor of %d octets is read back differently (radius %d/%d, octets %d, level offset %d)", oc, c->radius, b->radius, c->n_octets, c->pyr_level_offset);
            else if (fread(m, 1, 4, i) != 4 || strcmp(m, "more")) fail("reading an extractor does not stop at its end");
            fclose(i); nx_brief_extractor_free(c);
        }
        for (size_t n = 0; n < data.size(); n += (oc > 4 && n > 200 && n + 200 < data.size() ? 61 : 1)) for (int x = 0; x < 2; ++x) {
            write_file(f, data.substr(0, n)); NXBriefExtractor *c = nx_brief_extractor_alloc(); FILE *i = fopen(f.c_str(), "rb"); bool ok; if (x) ok = guarded([&] { nx_brief_extractor_xread(c, i); }); else ok = nx_brief_extractor_read(c, i) == NX_OK; step();
            if (ok) { fail("an extractor truncated to %zu of %zu bytes is read without an error", n, data.size()); n = data.size(); }
            fclose(i); nx_brief_extractor_free(c);
        }
        state(hash(data)); nx_brief_extractor_free(b);
    }
    static const int IV[] = {0, -1, INT32_MAX, INT32_MIN, 12345}; static const float FV[] = {0, -0.0f, 1e-40f, 3.4e38f, 0.1f, -2.5f}; static const uint64_t UV[] = {0, 1, ~0ull, 1ull << 63, 0x123456789abcdefull};
    static const int CNT[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 255, 257, 1000, 1025, 4097, 20000};
    for (int n : CNT) for (int sd = 0; sd < 40; ++sd) if ((n <= pick(6, 12) || (n > 12 && sd < 4)) && begin("keypoint-files")) {
        describe([&] { return fmt("%d keypoints, values %d: round trip and every truncation", n, sd); });
        KV k(n); memset(k.data(), 0, n * sizeof(NXKeypoint)); int c = sd; for (auto &e : k) { e.x = IV[c++ % 5]; e.y = IV[(c * 3) % 5]; e.xs = FV[c++ % 6]; e.ys = FV[(c + 2) % 6]; e.level = IV[(c + 1) % 5]; e.scale = FV[(c * 5) % 6]; e.sigma = FV[(c + 4) % 6]; e.score = FV[(c + 3) % 6]; e.ori = FV[(c * 7 + 1) % 6]; e.id = UV[c++ % 5]; }
        auto eq = [](const NXKeypoint &a, const NXKeypoint &b) { return a.x == b.x && a.y == b.y && !memcmp(&a.xs, &b.xs, 4) && !memcmp(&a.ys, &b.ys, 4) && a.level == b.level && !memcmp(&a.scale, &b.scale, 4) && !memcmp(&a.sigma, &b.sigma, 4) && !memcmp(&a.score, &b.score, 4) && !memcmp(&a.ori, &b.ori, 4) && a.id == b.id; };
        FILE *o = fopen(f.c_str(), "wb"); int wr = n; if (sd % 2) wr = nx_keypoint_write(k.data(), n, o); else nx_keypoint_xwrite(k.data(), n, o); if (wr != n) fail("writing %d keypoints returns %d", n, wr); fwrite("more", 1, 4, o); fclose(o); S data = read_file(f); data.resize(data.size() - 4); size_t one = n ? data.size() / n : 1;
        for (size_t cut = 0; cut <= data.size() + 4; cut += n <= 12 || cut + 60 > data.size() || cut < 100 ? 1 : data.size() / 7) {
            write_file(f, (data + "more").substr(0, cut)); int complete = n ? (int)std::min<size_t>(n, cut / one) : 0; KBuf kb(n); FILE *i = fopen(f.c_str(), "rb"); int rd = nx_keypoint_read(kb.k, n, i); step();
            if (rd != complete) { fail("%d keypoints truncated to %zu of %zu bytes: %d read", n, cut, data.size(), rd); cut = (size_t)1 << 40; }
            else for (int j = 0; j < rd; ++j) if (!eq(kb.k[j], k[j])) { fail("keypoint %d is read back as %s instead of %s", j, kstr(kb.k[j]).c_str(), kstr(k[j]).c_str()); cut = (size_t)1 << 40; break; }
            fclose(i);
            if (cut < (size_t)1 << 40) { KBuf kx(n); i = fopen(f.c_str(), "rb"); bool ok = guarded([&] { nx_keypoint_xread(kx.k, n, i); }); if (ok != (complete == n)) fail("reading %d keypoints from %zu of %zu bytes %s", n, cut, data.size(), ok ? "is no error" : "fails"); fclose(i); }
        }
        state(hash(data));
    }
}

void mc_run() {
    if (!strcmp(PROP, "P24")) p24();
    else if (!strcmp(PROP, "P25")) p25();
    else p26();
}
