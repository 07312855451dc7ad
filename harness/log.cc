// P39 log lines and fatal errors.
#include "mc.hh"
#include <sys/wait.h>
#include <termios.h>
#include <climits>
using namespace mc;
typedef std::string S;

// everything written to standard error, by stream or descriptor, lands in cap_fd
static int cap_fd = -1, saved2 = -1; static FILE *saved_err;
static void cap_on(int fd) { fflush(stderr); saved_err = stderr; saved2 = dup(2); dup2(fd, 2); static FILE *two = nullptr; if (!two) { two = fdopen(2, "w"); setvbuf(two, nullptr, _IONBF, 0); } stderr = two; }
static void cap_off() { fflush(stderr); dup2(saved2, 2); close(saved2); stderr = saved_err; }
static S cap_read() { fflush(stderr); S o; char b[65536]; ssize_t n; off_t at = 0; while ((n = pread(cap_fd, b, sizeof b, at)) > 0) { o.append(b, n); at += n; } if (at && ftruncate(cap_fd, 0)) {} return o; }
static void cap_open(const S &path) { cap_fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); }

// a fresh process: observed before main touches the logging state
struct Fresh { S log[4], fatal; int status = -1; bool ok = false;
    Fresh() {
        char p[] = "/tmp/nxlogXXXXXX"; cap_fd = mkstemp(p); if (cap_fd < 0) return; unlink(p); int fl = fcntl(cap_fd, F_GETFL); fcntl(cap_fd, F_SETFL, fl | O_APPEND);
        cap_on(cap_fd); for (int l = 0; l < 4; ++l) { nx_log_formatted((NXLogLevel)l, "fn", 7 + l, "tag", "message %d", l); log[l] = cap_read(); }
        pid_t c = fork(); if (c == 0) { nx_log_fatal("fatal_fn", 12, "ftag", "bad %s", "thing"); _exit(1); }
        int st = 0; waitpid(c, &st, 0); status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); fatal = cap_read(); cap_off(); close(cap_fd); cap_fd = -1; ok = true;
    }
};
static Fresh fresh;
static bool no_memory; // what glibc does when it cannot allocate the texts
extern "C" char **__real_backtrace_symbols(void *const *b, int n); extern "C" char **__wrap_backtrace_symbols(void *const *b, int n) { return no_memory ? nullptr : __real_backtrace_symbols(b, n); }

struct Call { int who = 0; S fn, tag, msg; int line = 0; }; static Call got;
static void record(int who, const char *fn, int line, const char *tag, const char *msg, va_list ap) { got.who = who; got.fn = fn; got.tag = tag; got.line = line; char *b = nullptr; if (vasprintf(&b, msg, ap) < 0) abort(); got.msg = b; free(b); fatal_kind = 1; longjmp(fatal_jmp, 1); }
static void fatal_a(const char *fn, int line, const char *tag, const char *msg, va_list ap) { record(1, fn, line, tag, msg, ap); }
static void fatal_b(const char *fn, int line, const char *tag, const char *msg, va_list ap) { record(2, fn, line, tag, msg, ap); }
static const char *LT[] = {"I", "L", "W", "E"};
static S line_of(const char *t, const S &tag, const S &fn, int line, const S &msg) { return S("[") + t + "][" + tag + "][" + fn + ":" + std::to_string(line) + "] " + msg + "\n"; }
static bool default_report(const S &out, const S &first) { // the line, then the call stack
    if (out.compare(0, first.size(), first)) return false;
    S r = out.substr(first.size()); if (r.compare(0, 12, "Call stack:\n")) return false;
    r = r.substr(12); if (r.empty() || r.back() != '\n') return false; return true;
}
__attribute__((noinline)) static S macro_call(int lv, const char *tag, int v, int &line) {
    switch (lv) {
    case 0: NX_INFO(tag, "value %d of %s", v, "it"); line = __LINE__; break;
    case 1: NX_LOG(tag, "value %d of %s", v, "it"); line = __LINE__; break;
    case 2: NX_WARNING(tag, "value %d of %s", v, "it"); line = __LINE__; break;
    case 3: NX_ERROR(tag, "value %d of %s", v, "it"); line = __LINE__; break;
    }
    return __func__;
}
static S strip(const S &s, int &codes) { S o; codes = 0; for (size_t i = 0; i < s.size(); ++i) if (s[i] == 27 && s[i + 1] == '[') { while (i < s.size() && s[i] != 'm') ++i; ++codes; } else o += s[i]; return o; }

void mc_run() {
    cap_open(tmpfile("stderr.txt"));
    if (begin("fresh-process")) {
        describe([] { return S("a log call at every level and a fatal error before anything is set"); }); step(5);
        if (fresh.ok) {
            for (int l = 0; l < 4; ++l) { S e = l < 1 ? S() : line_of(LT[l], "tag", "fn", 7 + l, "message " + std::to_string(l)); if (fresh.log[l] != e) fail("level %d of a fresh process prints \"%s\" instead of \"%s\"", l, esc(fresh.log[l]).c_str(), esc(e).c_str()); }
            if (fresh.status != (NX_EXIT_FATAL & 255)) fail("a fatal error ends a fresh process with status %d", fresh.status);
            if (!default_report(fresh.fatal, line_of("F", "ftag", "fatal_fn", 12, "bad thing"))) fail("a fatal error of a fresh process prints \"%s\"", esc(fresh.fatal.substr(0, 300)).c_str());
        }
    }
    // histories
    enum { VERB = 0, LOGL = 4, FATAL = 8, FA, FB, FNULL, NOP }; const int L = pick(5, 6); long tot = 1; for (int i = 0; i < L; ++i) tot *= NOP;
    for (long q = 0; q < tot; ++q) if (begin("histories")) {
        describe([&] { S o; long v = q; static const char *N[] = {"verbosity informative", "verbosity default", "verbosity cautious", "verbosity silent", "info", "log", "warning", "error", "fatal", "install A", "install B", "install none"}; for (int i = 0; i < L; ++i, v /= NOP) o += (i ? ", " : "") + S(N[v % NOP]); return o; });
        nx_log_verbosity(NX_LOG_DEFAULT); nx_log_fatal_func(nullptr); int verb = 1, ff = 0; long v = q; bool ok = true; cap_on(cap_fd); S msg;
        for (int i = 0; i < L && ok; ++i, v /= NOP) {
            int op = v % NOP; S e; step();
            if (op < LOGL) { nx_log_verbosity((NXLogVerbosity)op); verb = op; }
            else if (op < FATAL) { int l = op - LOGL; nx_log_formatted((NXLogLevel)l, "some_function", 10 * i + l, "T", "%s %d%%", "text", i); if (l >= verb) e = line_of(LT[l], "T", "some_function", 10 * i + l, "text " + std::to_string(i) + "%"); }
            else if (op == FA) { nx_log_fatal_func(fatal_a); ff = 1; } else if (op == FB) { nx_log_fatal_func(fatal_b); ff = 2; } else if (op == FNULL) { nx_log_fatal_func(nullptr); ff = 0; }
            else {
                got = Call(); bool ret = guarded([&] { nx_log_fatal("failing", 100 + i, "TT", "%d of %s", i, "them"); }); S m = std::to_string(i) + " of them";
                if (ret) { msg = "a fatal error returns"; ok = false; }
                else if (ff) { if (got.who != ff || got.fn != "failing" || got.line != 100 + i || got.tag != "TT" || got.msg != m) { msg = fmt("the fatal error calls function %d instead of %d with %s:%d %s \"%s\"", got.who, ff, got.fn.c_str(), got.line, got.tag.c_str(), got.msg.c_str()); ok = false; } }
                else { S o = cap_read(); if (got.who || fatal_kind != 2 || exit_code != NX_EXIT_FATAL) { msg = fmt("the default fatal error exits with %d (function %d)", exit_code, got.who); ok = false; } else if (!default_report(o, line_of("F", "TT", "failing", 100 + i, m))) { msg = "the default fatal error prints \"" + esc(o.substr(0, 200)) + "\""; ok = false; } }
            }
            S o = cap_read(); if (ok && o != e) { msg = fmt("operation %d prints \"%s\" instead of \"%s\"", i, esc(o).c_str(), esc(e).c_str()); ok = false; }
        }
        cap_off(); nx_log_verbosity(NX_LOG_SILENT); nx_log_fatal_func(mc_fatal_hook); if (!ok) fail("%s", msg.c_str());
        state(mix(verb * 3 + ff, L));
    }
    // every verbosity and level by function and by macro, all kinds of messages
    const S LONG(20000, 'x'), TXT[] = {"", "a", "with\nline", "100%", S(1000, 'y'), S(4096, 'z'), LONG, "\xc3\xa9\x01 end ", "[E][x][y:1] "}; static const int LN[] = {0, 1, 99, 65536, INT_MAX};
    for (int verb = 0; verb < 4; ++verb) for (int l = 0; l < 4; ++l) for (auto &t : TXT) for (auto &tag : TXT) for (int ln : LN) if (begin("messages")) {
        describe([&] { return fmt("verbosity %d level %d message of %zu, tag of %zu bytes, line %d", verb, l, t.size(), tag.size(), ln); });
        nx_log_verbosity((NXLogVerbosity)verb); S fn = ln == 99 ? S(300, 'f') : "f_" + std::to_string(ln % 10), o[6], e[6]; cap_on(cap_fd); int line = 0; step(6);
        nx_log_formatted((NXLogLevel)l, fn.c_str(), ln, tag.c_str(), "%s", t.c_str()); o[0] = cap_read(); if (l >= verb) e[0] = line_of(LT[l], tag, fn, ln, t);
        nx_log_formatted((NXLogLevel)l, fn.c_str(), ln, tag.c_str(), "%d %5.2f %c|%-4s|%lld %s %x", -5, 2.345, 'q', "ab", 1ll << 40, t.c_str(), 255u); o[1] = cap_read(); if (l >= verb) e[1] = line_of(LT[l], tag, fn, ln, fmt("%d %5.2f %c|%-4s|%lld ", -5, 2.345, 'q', "ab", 1ll << 40) + t + " ff");
        S f = macro_call(l, tag.c_str(), ln, line); o[2] = cap_read(); if (l >= verb) e[2] = line_of(LT[l], tag, f, line, "value " + std::to_string(ln) + " of it");
        cap_off(); nx_log_verbosity(NX_LOG_SILENT);
        for (int i = 0; i < 3; ++i) if (o[i] != e[i]) { fail("verbosity %d level %d: %zu bytes \"%s\" instead of %zu bytes \"%s\"", verb, l, o[i].size(), esc(o[i]).substr(0, 300).c_str(), e[i].size(), esc(e[i]).substr(0, 300).c_str()); break; }
        state(mix(hash(o[0]), hash(o[1])));
    }
    for (int verb = 0; verb < 4; ++verb) for (int dflt = 0; dflt < 3; ++dflt) for (auto &t : TXT) for (auto &tag : TXT) for (int ln : LN) if (begin("fatal-messages")) { // dflt 2: default, out of memory
        describe([&] { return fmt("verbosity %d, %s fatal function, message of %zu, tag of %zu bytes, line %d", verb, dflt == 2 ? "default without memory, " : dflt ? "default" : "installed", t.size(), tag.size(), ln); });
        nx_log_verbosity((NXLogVerbosity)verb); nx_log_fatal_func(dflt ? nullptr : fatal_a); got = Call(); S fn = "f" + std::to_string(ln); cap_on(cap_fd); no_memory = dflt == 2;
        bool ret = guarded([&] { nx_log_fatal(fn.c_str(), ln, tag.c_str(), "%s %g %d", t.c_str(), 0.5, ln); }); no_memory = false; S o = cap_read(); cap_off(); nx_log_verbosity(NX_LOG_SILENT); nx_log_fatal_func(mc_fatal_hook); S m = t + " 0.5 " + std::to_string(ln); step();
        if (ret) fail("a fatal error returns");
        else if (dflt ? fatal_kind != 2 || exit_code != NX_EXIT_FATAL || !default_report(o, line_of("F", tag, fn, ln, m)) : got.who != 1 || !o.empty() || got.fn != fn || got.tag != tag || got.line != ln || got.msg != m) fail("a fatal error with a message of %zu bytes is reported as \"%s\"", t.size(), esc(dflt ? o : got.msg).substr(0, 300).c_str());
        state(mix(hash(m), hash(tag)));
    }
    // a terminal
    int m = posix_openpt(O_RDWR | O_NOCTTY); if (m >= 0 && (grantpt(m) || unlockpt(m))) { close(m); m = -1; }
    int sl = m >= 0 ? open(ptsname(m), O_RDWR | O_NOCTTY) : -1; if (sl >= 0) { termios t; tcgetattr(sl, &t); cfmakeraw(&t); tcsetattr(sl, TCSANOW, &t); }
    for (int verb = 0; verb < 4; ++verb) for (int l = 0; l < 5; ++l) for (int rep = 0; rep < 2; ++rep) if (begin("terminal")) {
        describe([&] { return fmt("verbosity %d level %d on a terminal", verb, l); });
        if (sl < 0) continue; // no terminals here
        nx_log_verbosity((NXLogVerbosity)verb); nx_log_fatal_func(nullptr); cap_on(sl); bool ret = guarded([&] { if (l == 4) nx_log_fatal("fn", 5, "tag", "message %d", 3); else nx_log_formatted((NXLogLevel)l, "fn", 5, "tag", "message %d", 3); }); (void)ret; cap_off(); nx_log_verbosity(NX_LOG_SILENT); nx_log_fatal_func(mc_fatal_hook); step();
        S o; fcntl(m, F_SETFL, O_NONBLOCK); char b[4096]; ssize_t n; while ((n = read(m, b, sizeof b)) > 0) o.append(b, n);
        int codes; S p = strip(o, codes), e = l == 4 || l >= verb ? line_of(l == 4 ? "F" : LT[l], "tag", "fn", 5, "message 3") : "";
        if (l == 4 ? !default_report(p, e) : p != e) fail("level %d prints \"%s\" on a terminal", l, esc(o).c_str());
        else if (e.size() && (codes != 2 || o[0] != 27 || o.substr(o.find("message 3") + 9, 4) != "\x1b[0m")) fail("level %d prints \"%s\" on a terminal: not coloured from start to end", l, esc(o).c_str());
        state(hash(o));
    }
}
