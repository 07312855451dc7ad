// Bounded exhaustive exploration runtime shared by all harnesses.
//
// A harness enumerates its cases in a fixed order.  Every case is introduced by
// `if (mc::begin("group")) { ... }`; the (group, index) pair identifies it, is
// published in a shared page before the body runs (so that a crash or a hang is
// attributable), and is what a replay re-executes alone.
#pragma once
#include <csetjmp>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

#include "virg/nexus/nx_config.h"
#include "virg/nexus/nx_types.h"
#include "virg/nexus/nx_log.h"

namespace mc {

struct Failure { std::string group; uint64_t idx; std::string key, msg; };

struct Global {
    bool thorough = false;
    int shard = 0, nshards = 1;
    bool replay = false;
    std::string rgroup; uint64_t ridx = 0;
    char *page = nullptr;
    std::string result, tmp;
    std::string cur; uint64_t cur_idx = 0, cur_hash = 0; uint64_t *cur_ctr = nullptr; const char *cur_ptr = nullptr;
    std::map<std::string, uint64_t> ctr, ran;
    uint64_t *cur_ran = nullptr;
    uint64_t cases = 0, transitions = 0, tick = 0, nsamples = 0;
    bool capped = false;
    std::unordered_set<uint64_t> states;
    std::vector<Failure> failures;
    std::vector<std::string> samples;
    uint64_t n_fail = 0;
};
inline Global G;
const size_t STATE_CAP = 3000000;

inline void finish();

// state hashes of the running case wait here, so that recording them does not disturb heap accounting
inline uint64_t pending[1 << 16];
inline size_t n_pending = 0;
inline void flush_states() {
    for (size_t i = 0; i < n_pending; ++i) {
        if (G.states.size() < STATE_CAP) G.states.insert(pending[i]);
        else G.capped = true;
    }
    n_pending = 0;
}

inline bool thorough() { return G.thorough; }
// picks the bound for the tier
template <class T> inline T pick(T q, T t) { return G.thorough ? t : q; }

inline bool begin(const char *group) {
    if (n_pending) flush_states();
    if (group != G.cur_ptr) { // groups are string literals
        G.cur = group; G.cur_ptr = group; G.cur_hash = 1469598103934665603ull; for (const char *c = group; *c; ++c) G.cur_hash = (G.cur_hash ^ (unsigned char)*c) * 1099511628211ull;
        G.cur_ctr = &G.ctr[G.cur]; G.cur_ran = &G.ran[G.cur];
        if (G.page) { memset(G.page + 16, 0, 200); strncpy(G.page + 16, group, 199); }
    }
    uint64_t idx = (*G.cur_ctr)++;
    bool run = G.replay ? (idx == G.ridx && G.cur == G.rgroup)
                        : (int)(idx % G.nshards) == G.shard;
    if (!run) return false;
    if (G.n_fail >= 20) return false; // enough counterexamples
    G.cur_idx = idx;
    ++G.cases; ++*G.cur_ran; ++G.tick;
    if (G.page) { memcpy(G.page + 8, &idx, 8); memcpy(G.page, &G.tick, 8); }
    return true;
}
inline void beat() { ++G.tick; if (G.page) memcpy(G.page, &G.tick, 8); }
inline void step(uint64_t n = 1) { G.transitions += n; }

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h ^ (h >> 29);
}
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }
inline void state(uint64_t h) {
    if (n_pending == sizeof pending / sizeof *pending) flush_states();
    pending[n_pending++] = mix(h, G.cur_hash);
}
inline void state(const std::string &s) { state(hash(s)); }

inline std::string vfmt(const char *f, va_list ap) {
    char buf[4096]; vsnprintf(buf, sizeof buf, f, ap); return buf;
}
inline std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s;
}
inline std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c >= 127) o += fmt("\\x%02x", c);
        else o += (char)c;
    }
    return o;
}
inline void vfail(const char *key, const std::string &msg) {
    if (strcmp(key, "-")) { // classified failures do not stop the exploration
        int n = 0;
        for (auto &f : G.failures) n += f.key == key;
        if (n >= 3 && !G.replay) return;
    } else ++G.n_fail;
    for (auto &f : G.failures) if (f.group == G.cur && f.idx == G.cur_idx && f.msg == msg) return;
    if (G.failures.size() < 40) {
        G.failures.push_back({G.cur, G.cur_idx, key, msg});
        fprintf(stdout, "FAIL %s #%llu: %s\n", G.cur.c_str(), (unsigned long long)G.cur_idx, msg.c_str());
        fflush(stdout);
    }
}
inline void fail(const char *f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); vfail("-", s);
}
inline void failk(const char *key, const char *f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); vfail(key, s);
}
// describe the case: shown on replay (before the body runs) and sampled into the evidence
inline void describe(const std::function<std::string()> &d) {
    if (G.replay) { printf("CASE %s #%llu: %s\n", G.cur.c_str(), (unsigned long long)G.cur_idx, d().c_str()); fflush(stdout); }
    else if (G.samples.size() < 4 && (*G.cur_ran == 1 || (*G.cur_ran & (*G.cur_ran - 1)) == 0) && G.nsamples++ % 3 == 0)
        G.samples.push_back(G.cur + ": " + d());
}

// ---------------------------------------------------------------- fatal errors
inline jmp_buf fatal_jmp;
inline volatile int fatal_armed = 0;
inline volatile int fatal_kind = 0; // 1 fatal, 2 exit()
inline volatile int exit_code = 0;   // of the last exit()
inline std::string fatal_msg;
extern "C" __attribute__((noreturn)) inline void mc_fatal_hook(const char *fn, int line, const char *, const char *msg, va_list ap) {
    if (fatal_armed) { fatal_kind = 1; fatal_armed = 0; longjmp(fatal_jmp, 1); }
    printf("unexpected fatal error reported by the library outside of a guarded call: %s:%d ", fn, line);
    vprintf(msg, ap);
    printf("\n");
    fflush(stdout);
    _exit(78);
}
// runs f; true: returned normally. false: the library reported a fatal error
// (fatal_kind==1) or called exit() (fatal_kind==2).
template <class F> __attribute__((noinline)) bool guarded(F &&f) {
    fatal_kind = 0;
    fatal_armed = 1;
    if (setjmp(fatal_jmp) == 0) { f(); fatal_armed = 0; return true; }
    fatal_armed = 0;
    return false;
}

// ---------------------------------------------------------------- leak accounting
inline size_t heap() { return __sanitizer_get_current_allocated_bytes(); }

inline std::string tmpfile(const char *name) { return G.tmp + "/" + name; }
inline void write_file(const std::string &p, const std::string &data) {
    FILE *f = fopen(p.c_str(), "wb"); fwrite(data.data(), 1, data.size(), f); fclose(f);
}
inline std::string read_file(const std::string &p) {
    std::string o; FILE *f = fopen(p.c_str(), "rb"); if (!f) return o;
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
    fclose(f); return o;
}

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o;
}
inline void finish() {
    flush_states();
    FILE *f = fopen(G.result.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"cases\":%llu,\"transitions\":%llu,\"capped\":%s,\"groups\":{", (unsigned long long)G.cases,
            (unsigned long long)G.transitions, G.capped ? "true" : "false");
    bool first = true;
    for (auto &g : G.ran) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", g.first.c_str(), (unsigned long long)g.second); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &s : G.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s.substr(0, 400)).c_str()); first = false; }
    fprintf(f, "],\"failures\":[");
    first = true;
    for (auto &x : G.failures) {
        fprintf(f, "%s{\"group\":\"%s\",\"index\":%llu,\"key\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",", x.group.c_str(),
                (unsigned long long)x.idx, jesc(x.key).c_str(), jesc(x.msg.substr(0, 1500)).c_str());
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
    FILE *s = fopen((G.result + ".states").c_str(), "wb");
    for (uint64_t h : G.states) fwrite(&h, 8, 1, s);
    fclose(s);
}
} // namespace mc

extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" __attribute__((noreturn)) inline void mc_exit_hook(int code) {
    if (mc::fatal_armed) { mc::exit_code = code; mc::fatal_kind = 2; mc::fatal_armed = 0; longjmp(mc::fatal_jmp, 1); }
    __real_exit(code);
}

void mc_run(); // provided by the harness

#ifndef MC_NO_MAIN
extern "C" void __wrap_exit(int code) { mc_exit_hook(code); }
int main(int argc, char **argv) {
    using namespace mc;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--tier") G.thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--shard") { G.shard = atoi(argv[++i]); G.nshards = atoi(argv[++i]); }
        else if (a == "--state") {
            int fd = open(argv[++i], O_RDWR);
            if (fd >= 0) { G.page = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
                           if (G.page == MAP_FAILED) G.page = nullptr; }
        }
        else if (a == "--result") G.result = argv[++i];
        else if (a == "--tmp") G.tmp = argv[++i];
        else if (a == "--replay") { G.replay = true; G.rgroup = argv[++i]; G.ridx = strtoull(argv[++i], nullptr, 10); }
    }
    nx_log_verbosity(NX_LOG_SILENT);
    stderr = fopen("/dev/null", "w"); setvbuf(stderr, nullptr, _IONBF, 0); // library messages; sanitizer reports use the descriptor
    nx_log_fatal_func(mc_fatal_hook);
    mc_run();
    finish();
    fflush(stdout);
    _exit(0);
}
#endif
