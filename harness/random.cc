// P27: the USAC driver under every combination of callback answers.
// P29: random samplers against an independent SFMT-19937 and the polar method.
#include "mc.hh"
#include "sfmt_ref.hh"
#include <cmath>
#include <memory>
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_gaussian_sampler.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_usac.h"
using namespace mc;
typedef std::string S;

// ---------------------------------------------------------------- P27: USAC
// One hypothesis: does it pass the check, its score, is it non-degenerate, is it refined and to what score.
struct Hyp { bool ok; double score; bool sound; bool refines; double rscore; };
struct Iter { bool sample_ok; std::vector<Hyp> hyps; };
struct Usac {
    int m, ns; std::vector<Iter> its; double gscore; // plan
    int it = 0; bool fitted = false; std::vector<int> ids; S err; int fits = 0, scores = 0, globals = 0, terms = 0;
    double mbest; double mscore; // running oracle: entry value of the best model, its score
    // a hypothesis k of iteration i is the vector filled with id(i,k)+j/100
    double id(int i, int k, int kind) const { return 1000 * (i + 1) + 10 * k + kind; }
    bool is(const double *v, double base) const { for (int j = 0; j < m; ++j) if (v[j] != base + j / 128.0) return false; return true; }
    void put(double *v, double base) const { for (int j = 0; j < m; ++j) v[j] = base + j / 128.0; }
    void bad(const char *f, ...) { if (!err.empty()) return; char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); err = b; }
    bool find(const double *v, int &i, int &k, int &kind) const {
        double b = v[0]; if (!(b >= 1000) || b != std::floor(b)) return false; i = (int)b / 1000 - 1; kind = (int)b % 10; k = (int)b % 1000 / 10; return is(v, b);
    }
    void same_ids(const int *s, const char *who) { if (!s || memcmp(s, ids.data(), ids.size() * sizeof(int))) bad("%s sees other sample ids than those drawn", who); }
};
static Usac *U;
#define CB static
CB NXBool u_term(const double *best, double score, void *d) {
    Usac &u = *(Usac *)d; ++u.terms;
    if (&u != U) return NX_TRUE;
    if (u.mbest == 0) { for (int j = 0; j < u.m; ++j) if (best[j] != 0) { u.bad("termination sees a nonzero model before any was accepted"); break; } if (score > -1e300) u.bad("termination sees score %g before any model was accepted", score); }
    else { if (!u.is(best, u.mbest)) u.bad("termination sees model %g instead of the best one %g (iteration %d)", best[0], u.mbest, u.it); if (score != u.mscore) u.bad("termination sees score %g instead of %g", score, u.mscore); }
    if (u.terms > (int)u.its.size() + 50) return NX_TRUE;
    return u.it >= (int)u.its.size() ? NX_TRUE : NX_FALSE;
}
CB void u_sample(int *ids, void *d) {
    Usac &u = *(Usac *)d; if (u.it >= (int)u.its.size()) { u.bad("sampling after termination"); for (int i = 0; i < u.ns; ++i) ids[i] = 0; return; }
    for (int i = 0; i < u.ns; ++i) ids[i] = u.ids[i] = (u.it + 1) * 100 + i; ++u.it; u.fitted = false;
}
CB NXBool u_scheck(const int *ids, void *d) { Usac &u = *(Usac *)d; u.same_ids(ids, "the sample check"); return u.its[u.it - 1].sample_ok ? NX_TRUE : NX_FALSE; }
CB int u_fit(int *cap, double **models, const int *ids, void *d) {
    Usac &u = *(Usac *)d; u.same_ids(ids, "the fit"); ++u.fits; Iter &it = u.its[u.it - 1]; if (!it.sample_ok) u.bad("a model is fit to a rejected sample");
    int n = it.hyps.size(); if (n > *cap) { nx_free(*models); *models = NX_NEW_D(n * u.m); *cap = n; }
    for (int k = 0; k < n; ++k) u.put(*models + k * u.m, u.id(u.it - 1, k, 0));
    // the driver looks at the models of this iteration from now on: run the oracle over them
    for (int k = 0; k < n; ++k) { Hyp &h = it.hyps[k]; if (!h.ok || !(u.mbest == 0 || h.score > u.mscore) || !h.sound) continue;
        if (h.refines && h.rscore > h.score) { u.mbest = u.id(u.it - 1, k, 1); u.mscore = h.rscore; } else { u.mbest = u.id(u.it - 1, k, 0); u.mscore = h.score; } }
    return n;
}
static Hyp *hyp(Usac &u, const double *model, int *kind, const char *who) {
    int i, k; if (!u.find(model, i, k, *kind) || i < 0 || i >= (int)u.its.size() || k >= (int)u.its[i].hyps.size()) { u.bad("%s is given a model nobody estimated (%g)", who, model[0]); return nullptr; }
    if (i != u.it - 1) u.bad("%s is given a model of another iteration", who);
    return &u.its[i].hyps[k];
}
CB NXBool u_mcheck(double *model, const int *ids, void *d) { Usac &u = *(Usac *)d; int kind; u.same_ids(ids, "the model check"); Hyp *h = hyp(u, model, &kind, "the model check"); return h && h->ok ? NX_TRUE : NX_FALSE; }
CB double u_score(double *model, const int *ids, void *d) {
    Usac &u = *(Usac *)d; ++u.scores; (void)ids;
    if (u.is(model, 7)) return u.gscore; // globally refined
    if (u.globals) { return u.mbest == 0 ? -1 : u.mscore; }
    int kind; Hyp *h = hyp(u, model, &kind, "scoring"); if (!h) return -1e9; if (!h->ok) u.bad("a model that fails the check is scored");
    return kind == 1 ? h->rscore : h->score;
}
CB NXBool u_degen(double *model, const int *ids, void *d) { Usac &u = *(Usac *)d; int kind; u.same_ids(ids, "the degeneracy check"); Hyp *h = hyp(u, model, &kind, "the degeneracy check"); return h && h->sound ? NX_TRUE : NX_FALSE; }
CB NXBool u_local(double *nm, const double *model, const int *ids, void *d) {
    Usac &u = *(Usac *)d; int kind; u.same_ids(ids, "the local refinement"); Hyp *h = hyp(u, model, &kind, "the local refinement"); if (!h || !h->refines) return NX_FALSE;
    double b = model[0]; u.put(nm, b + 1); return NX_TRUE;
}
CB void u_global(double *nm, const double *model, void *d) { Usac &u = *(Usac *)d; ++u.globals; if (u.mbest == 0 ? model[0] != 0 : !u.is(model, u.mbest)) u.bad("global refinement starts from model %g instead of %g", model[0], u.mbest); u.put(nm, 7); }
static void usac_run(int m, int ns, const std::vector<Iter> &its, double g) {
    Usac u; u.m = m; u.ns = ns; u.its = its; u.gscore = g; u.ids.assign(ns, -1); u.mbest = 0; u.mscore = 0; U = &u;
    NXUSACConfig c = {u_sample, u_scheck, u_fit, u_mcheck, u_score, u_degen, u_local, u_global, u_term};
    std::vector<double> best(m, 555.0); size_t h0 = heap();
    double s = nx_usac(m, best.data(), ns, &c, &u); step(u.terms + u.fits + u.scores);
    if (u.err.empty() && heap() != h0) fail("the driver leaves %zd bytes allocated", (ssize_t)(heap() - h0));
    if (!u.err.empty()) fail("%s", u.err.c_str());
    else {
        if (u.it != (int)its.size()) fail("%d of %d iterations run", u.it, (int)its.size());
        double eb = u.mbest, es = u.mscore; if (u.mbest == 0 || g > u.mscore) { eb = 7; es = g; }
        if (s != es) fail("the returned score is %g instead of %g", s, es);
        if (!u.is(best.data(), eb)) fail("the returned model is %g... instead of %g (last entry %g)", best[0], eb, best[m - 1]);
    }
    state(mix(mix((uint64_t)(int64_t)(s * 8), (uint64_t)(int64_t)best[0]), m * 16 + ns));
    U = nullptr;
}
static std::vector<Hyp> hyps_all() {
    std::vector<Hyp> v; v.push_back({false, 5, true, false, 0});
    for (double s : {-1.0, 0.0, 1.0}) { v.push_back({true, s, false, true, s + 2}); v.push_back({true, s, true, false, 0}); for (double r : {-1.0, 0.0, 1.0}) v.push_back({true, s, true, true, s + r}); }
    return v;
}
static S show(const std::vector<Iter> &its) {
    S s; for (auto &i : its) { s += i.sample_ok ? "[" : "[rejected"; for (auto &h : i.hyps) s += fmt("(%s score %g %s%s)", h.ok ? "ok" : "bad", h.score, h.sound ? "sound" : "degenerate", h.refines ? fmt(" refined %g", h.rscore).c_str() : ""); s += "]"; } return s;
}
static void p27() {
    std::vector<Hyp> H = hyps_all(); int n = H.size();
    std::vector<Iter> one; one.push_back({false, {}}); one.push_back({true, {}}); for (auto &h : H) one.push_back({true, {h}});
    std::vector<Iter> two = one; for (auto &a : H) for (auto &b : H) two.push_back({true, {a, b}});
    const double GS[] = {-2, 0, 0.5, 1, 3};
    // 0..4 iterations of at most one model each
    for (int len = 0; len <= pick(3, 4); ++len) { uint64_t tot = 1; for (int i = 0; i < len; ++i) tot *= one.size();
        for (uint64_t c = 0; c < tot; ++c) if (begin("one-model")) {
            std::vector<Iter> its; uint64_t q = c; for (int i = 0; i < len; ++i) { its.push_back(one[q % one.size()]); q /= one.size(); }
            describe([&] { return show(its); });
            for (double g : GS) usac_run(1 + c % 4, 1 + c % 5, its, g); } }
    for (size_t a = 0; a < two.size(); ++a) for (size_t b = 0; b < two.size(); ++b) if (begin("two-models")) {
        std::vector<Iter> its = {two[a], two[b]}; describe([&] { return show(its); });
        for (double g : {-2.0, 0.5, 3.0}) usac_run(1 + (a + b) % 4, 1 + b % 5, its, g);
    }
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) if (begin("three-models")) {
        std::vector<Iter> its = {{true, {H[a], H[b], H[c]}}, one[(a + b + c) % one.size()]}; describe([&] { return show(its); });
        for (double g : {-2.0, 1.0}) usac_run(9, 4, its, g);
    }
    // fits with many models: the best at every place, alone, tied with the last, or refined, failing models around it
    for (int N : {4, 5, 7, 8, 9, 10, 16, 17, 32, 40, 65}) for (int at = 0; at < N; ++at) for (int k = 0; k < 6; ++k) if (begin("many-models")) {
        describe([&] { return fmt("%d models, the best at %d, variant %d", N, at, k); }); std::vector<Hyp> hs;
        for (int i = 0; i < N; ++i) { Hyp h = H[(size_t)(i * 5 + k) % H.size()]; if (k == 1) h.ok = i % 2; if (k == 2) h.sound = i % 3 > 0; if (k == 3) h = {true, i * 0.01, true, false, 0}; if (k == 4) h = {true, -i * 0.01, true, true, -i * 0.01 + (i % 3 - 1)}; hs.push_back(h); }
        hs[at] = {true, k == 5 ? 1.0 : 2.5, true, k % 2 == 0, k == 0 ? 2.0 : 2.75}; if (k == 5 || k == 1) hs[N - 1] = hs[at];
        std::vector<Iter> its = {one[(N + at) % one.size()], {true, hs}, one[(N * 3 + at + k) % one.size()]}; for (double g : {-2.0, 2.6, 3.0}) usac_run(1 + k, 1 + at % 5, its, g);
    }
    for (int N : {10, 40, 100, 300, 1000}) for (int at = 0; at < N; at += std::max(1, N / 50)) for (int k = 0; k < 3; ++k) if (begin("many-iterations")) {
        describe([&] { return fmt("%d iterations, the best at %d, variant %d", N, at, k); }); std::vector<Iter> its; for (int i = 0; i < N; ++i) its.push_back(i == at ? Iter{true, {{true, 2.5, true, k == 1, 2.75}}} : k == 2 ? Iter{true, {{true, i * 1e-3, true, false, 0}}} : one[(size_t)(i * 7 + k) % one.size()]);
        for (double g : {-2.0, 3.0}) usac_run(9, 4, its, g);
    }
    if (thorough()) for (size_t a = 0; a < two.size(); ++a) for (size_t b = 0; b < two.size(); ++b) for (size_t c = 0; c < two.size(); ++c) if (begin("two-models-deep")) {
        std::vector<Iter> its = {two[a], two[b], two[c]}; describe([&] { return show(its); }); usac_run(3, 2, its, (int)(a + b + c) % 5 - 2.5);
    }
}

// ---------------------------------------------------------------- P29: samplers
static std::vector<double> script; static size_t script_at; static bool script_on;
extern "C" float __real_nx_uniform_sampler_sample_s(NXUniformSampler *s);
extern "C" float __wrap_nx_uniform_sampler_sample_s(NXUniformSampler *s) {
    if (!script_on) return __real_nx_uniform_sampler_sample_s(s);
    size_t i = script_at++; return i < script.size() ? (float)script[i] : i % 2 ? 0.25f : 0.625f;
}
static void polar_pair(SfmtRef &g, bool dbl, double &x, double &y) {
    for (;;) { float u1 = g.s(), u2 = g.s();
        if (dbl) { double v1 = 2.0 * u1 - 1, v2 = 2.0 * u2 - 1, s = v1 * v1 + v2 * v2; if (s >= 1 || s == 0) continue; double f = std::sqrt(-2 * std::log(s) / s); x = f * v1; y = f * v2; return; }
        float v1 = 2 * u1 - 1, v2 = 2 * u2 - 1; volatile float a = v1 * v1, b = v2 * v2; float s = a + b; if (s >= 1 || s == 0) continue; double f = std::sqrt(-2 * std::log((double)s) / s); x = f * v1; y = f * v2; return; }
}
static void p29() {
    static const uint32_t SEEDS[] = {0, 1, 2, 1234, 4321, 0x7fffffff, 0x80000000u, 0xffffffffu, 1431142416u, 0x13c9e684u};
    // all short sequences of operations on two samplers, from all kinds of positions of the state block
    static const int SKIP[] = {0, 1, 2, 620, 621, 622, 623, 624, 1246, 1247, 1248, 3119};
    const int NOP = 7, L = pick(4, 5); uint64_t tot = 1; for (int i = 0; i < L; ++i) tot *= NOP;
    for (uint32_t seed : SEEDS) for (int skip : SKIP) for (uint64_t c0 = 0; c0 < tot; c0 += 343) if (begin("operation-sequences")) {
        describe([&] { return fmt("seed %u after %d draws, sequences %llu+", seed, skip, (unsigned long long)c0); });
        for (uint64_t c = c0; c < c0 + 343 && c < tot; ++c) {
            NXUniformSampler *s[2] = {nx_uniform_sampler_new_with_seed(seed), nx_uniform_sampler_new_with_seed(seed + 77)}; SfmtRef r[2] = {SfmtRef(seed), SfmtRef(seed + 77)};
            for (int i = 0; i < skip; ++i) { uint32_t a = nx_uniform_sampler_sample32(s[0]), b = r[0].u32(); if (a != b) { fail("draw %d of seed %u is %u instead of %u", i, seed, a, b); break; } }
            uint64_t q = c; uint64_t h = 0; S tr;
            for (int i = 0; i < L; ++i, q /= NOP) {
                int op = q % NOP, w = op == 5 ? 1 : 0; NXUniformSampler *u = s[w]; SfmtRef &g = r[w]; step(); bool ok = true;
                switch (op) {
                case 0: { uint32_t a = nx_uniform_sampler_sample32(u), b = g.u32(); ok = a == b; h = mix(h, a); tr += " u32"; break; }
                case 1: { if (g.idx % 2) { tr += " -"; break; } uint64_t a = nx_uniform_sampler_sample64(u), b = g.u64(); ok = a == b; h = mix(h, a); tr += " u64"; break; }
                case 2: { float a = nx_uniform_sampler_sample_s(u), b = g.s(); ok = a == b && a >= 0 && a < 1; h = mix(h, hash_bytes(&a, 4)); tr += " float"; break; }
                case 3: { double a = nx_uniform_sampler_sample_d(u), b = g.d(); ok = a == b && a >= 0 && a < 1; h = mix(h, hash_bytes(&a, 8)); tr += " double"; break; }
                case 4: nx_uniform_sampler_init_seed(u, seed ^ (0x9e3779b9u * (i + 1))); g.init(seed ^ (0x9e3779b9u * (i + 1))); tr += " reseed"; break;
                case 5: { uint32_t a = nx_uniform_sampler_sample32(u), b = g.u32(); ok = a == b; tr += " other"; break; }
                case 6: { NXUniformSampler *t = nx_uniform_sampler_instance(); nx_uniform_sampler_init_seed(t, seed + i); SfmtRef tg(seed + i); ok = nx_uniform_sampler_sample32(t) == tg.u32() && NX_UNIFORM_SAMPLE_S == tg.s(); tr += " shared"; break; }
                }
                if (!ok) { fail("seed %u after %d draws:%s: the last value is wrong", seed, skip, tr.c_str()); break; }
            }
            state(h); nx_uniform_sampler_free(s[0]); nx_uniform_sampler_free(s[1]);
        }
        nx_uniform_sampler_instance_free();
    }
    // long runs of every kind
    for (uint32_t seed : SEEDS) for (int kind = 0; kind < 4; ++kind) for (int skip = 0; skip < 4; ++skip) if (begin("long-runs")) {
        describe([&] { return fmt("seed %u kind %d skip %d", seed, kind, skip); });
        NXUniformSampler *u = nx_uniform_sampler_new_with_seed(seed); SfmtRef g(seed); if (kind == 1) skip &= ~1; for (int i = 0; i < skip; ++i) { nx_uniform_sampler_sample32(u); g.u32(); }
        int n = pick(20000, 200000); for (int i = 0; i < n; ++i) { step(); bool ok = kind == 0 ? nx_uniform_sampler_sample32(u) == g.u32() : kind == 1 ? nx_uniform_sampler_sample64(u) == g.u64() : kind == 2 ? nx_uniform_sampler_sample_s(u) == g.s() : nx_uniform_sampler_sample_d(u) == g.d(); if (!ok) { fail("seed %u: value %d of kind %d is wrong", seed, i, kind); break; } }
        state(mix(seed, kind * 4 + skip)); nx_uniform_sampler_free(u);
    }
    // every seed in a range: the first draws; draws that round to one in single precision stay below one
    for (uint32_t blk = 0; blk < (uint32_t)pick(160, 1600); ++blk) if (begin("seeds")) {
        describe([&] { return fmt("seeds %u..%u", blk * 1000, blk * 1000 + 999); }); NXUniformSampler *u = nx_uniform_sampler_alloc();
        for (uint32_t seed = blk * 1000; seed < blk * 1000 + 1000; ++seed) { uint32_t s2 = blk % 2 ? seed : ~seed * 2654435761u; nx_uniform_sampler_init_seed(u, s2); SfmtRef g(s2);
            bool edge = false; SfmtRef look = g; for (int i = 0; i < 624; ++i) if (look.u32() >= 0xffffff80u) edge = true;
            for (int i = 0; i < (edge ? 624 : 2); ++i) { step(); float a = nx_uniform_sampler_sample_s(u), b = g.s(); if (!(a >= 0 && a < 1)) { fail("seed %u: the single precision sample %d is %.9g", s2, i, a); break; } if (a != b) { fail("seed %u: sample %d is %.9g instead of %.9g", s2, i, a, b); break; } }
            if (edge) state(mix(s2, 99)); }
        state(blk); nx_uniform_sampler_free(u);
    }
    // whole arrays
    for (uint32_t seed : SEEDS) for (int wide = 0; wide < 2; ++wide) for (int before = 0; before < 3; ++before) for (int k = 0; k < pick(40, 160); ++k) if (begin("filled-arrays")) {
        describe([&] { return fmt("seed %u, %d bit, after %d blocks, size index %d", seed, wide ? 64 : 32, before, k); });
        NXUniformSampler *u = nx_uniform_sampler_new_with_seed(seed); SfmtRef g(seed); for (int i = 0; i < before * 624; ++i) { nx_uniform_sampler_sample32(u); g.u32(); }
        int n = wide ? 312 + 2 * k : 624 + 4 * k; step(n);
        void *mem = nullptr; if (posix_memalign(&mem, 16, (size_t)n * (wide ? 8 : 4))) abort();
        if (wide) { nx_uniform_sampler_fill64(u, n, (uint64_t *)mem); for (int i = 0; i < n; ++i) { uint64_t e = g.u64(); if (((uint64_t *)mem)[i] != e) { fail("seed %u: element %d of a filled array of %d is wrong", seed, i, n); break; } } }
        else { nx_uniform_sampler_fill32(u, n, (uint32_t *)mem); for (int i = 0; i < n; ++i) { uint32_t e = g.u32(); if (((uint32_t *)mem)[i] != e) { fail("seed %u: element %d of a filled array of %d is wrong", seed, i, n); break; } } }
        free(mem); state(mix(seed, mix(n, wide)));
        // what follows continues the stream
        for (int i = 0; i < 700; ++i) if (nx_uniform_sampler_sample32(u) != g.u32()) { fail("seed %u: value %d after an array of %d is wrong", seed, i, n); break; }
        nx_uniform_sampler_free(u);
    }
    // gaussian samplers
    static const double MS[][2] = {{0, 1}, {5, 2}, {-3, 0.25}, {100, 0}, {0, 1000}};
    for (uint32_t seed : SEEDS) for (int n = 0; n <= pick(40, 150); ++n) for (auto &ms : MS) for (int dbl = 0; dbl < 2; ++dbl) if (begin("gaussian")) {
        describe([&] { return fmt("seed %u, %d samples mean %g sigma %g %s", seed, n, ms[0], ms[1], dbl ? "double" : "float"); });
        for (int how = 0; how < 3; ++how) {
            NXGaussianSampler *gs; if (how == 0) gs = nx_gaussian_sampler_new_with_seed(seed); else if (how == 1) gs = nx_gaussian_sampler_new(nx_uniform_sampler_new_with_seed(seed)); else { gs = nx_gaussian_sampler_new(NULL); nx_gaussian_sampler_init_seed(gs, seed); }
            SfmtRef g(seed); bool bad = false; uint64_t hs = 0;
            for (int rep = 0; rep < 3 && !bad; ++rep) { // consecutive requests of different parity
                int m = n + rep; std::unique_ptr<double[]> d(new double[m]); std::unique_ptr<float[]> f(new float[m]); step(m);
                if (dbl) nx_gaussian_sampler_sample_d(gs, m, d.get(), ms[0], ms[1]); else nx_gaussian_sampler_sample_s(gs, m, f.get(), ms[0], ms[1]);
                for (int i = 0; i < m && !bad; i += 2) { double x, y; polar_pair(g, dbl, x, y); for (int k = 0; k < 2 && i + k < m; ++k) { double e = ms[0] + ms[1] * (k ? y : x), v = dbl ? d[i + k] : f[i + k]; double tol = (dbl ? 1e-11 : 2e-5) * (1 + std::fabs(ms[0]) + ms[1] * (1 + std::fabs(k ? y : x)));
                    hs = mix(hs, (uint64_t)(int64_t)(v * 1000)); if (!(std::fabs(v - e) <= tol)) { fail("seed %u request %d sample %d of %d is %.9g instead of %.9g", seed, rep, i + k, m, v, e); bad = true; break; } } } }
            state(hs); nx_gaussian_sampler_free(gs);
        }
    }
    // every short sequence of uniform values, including the centre and the rim of the disk
    static const double A[] = {0, 0.25, 0.5, 0.75, 0.99999994};
    for (int c = 0; c < 15625; ++c) for (int dbl = 0; dbl < 2; ++dbl) if (begin("scripted-uniforms")) {
        script.clear(); int q = c; for (int i = 0; i < 6; ++i) { script.push_back((float)A[q % 5]); q /= 5; }
        describe([&] { S s; for (double v : script) s += fmt(" %g", v); return "uniform values" + s; });
        for (int n = 1; n <= 3; ++n) {
            NXGaussianSampler *gs = nx_gaussian_sampler_new_with_seed(1); double d[3]; float f[3]; script_at = 0; script_on = true;
            if (dbl) nx_gaussian_sampler_sample_d(gs, n, d, 1, 2); else nx_gaussian_sampler_sample_s(gs, n, f, 1, 2); script_on = false; step(n);
            size_t used = script_at; if (used) for (int i = 0; i < n; ++i) { double v = dbl ? d[i] : f[i]; if (!std::isfinite(v)) fail("sample %d is %g", i, v); }
            if (used) { size_t at = 0; auto u = [&] { size_t i = at++; return i < script.size() ? (double)(float)script[i] : i % 2 ? 0.25 : 0.625; };
                for (int i = 0; i < n; i += 2) { double v1, v2, s; do { v1 = 2 * u() - 1; v2 = 2 * u() - 1; s = v1 * v1 + v2 * v2; } while (s >= 1 || s == 0); double k = std::sqrt(-2 * std::log(s) / s); for (int j = 0; j < 2 && i + j < n; ++j) { double e = 1 + 2 * k * (j ? v2 : v1), v = dbl ? d[i + j] : f[i + j]; if (!(std::fabs(v - e) <= 1e-4 * (1 + std::fabs(e)))) fail("sample %d is %.9g instead of %.9g", i + j, v, e); } } }
            nx_gaussian_sampler_free(gs); state(mix(c, n * 2 + dbl));
        }
    }
}
void mc_run() { if (S(PROP) == "P27") p27(); else p29(); }
