// P18: a file that cannot be written completely is never reported as written.
// Every writer runs with the file size limited to every number of bytes (as a full disk would), and
// against unwritable targets.  Included by imgio.cc.
#include <ftw.h>
#include <fcntl.h>
struct Writer { S name, file; bool x; std::function<bool(const S &)> w; }; // w: true = reported success

static bool stream_w(const S &p, bool x, const std::function<bool(FILE *)> &f) { // opens, writes, closes
    bool ok = true;
    if (x) return guarded([&] { FILE *o = nx_xfopen(p.c_str(), "wb"); ok = f(o); nx_xfclose(o, p.c_str()); }) && ok;
    FILE *o = nx_fopen(p.c_str(), "wb"); if (!o) return false;
    ok = f(o); if (nx_fclose(o, p.c_str()) != NX_OK) ok = false; return ok;
}
static int close_fails = 0, closes = 0;
extern "C" int __real_fclose(FILE *);
extern "C" int __wrap_fclose(FILE *f) { // a file opened for writing may be reported as failing when it is closed
    bool wr = close_fails && (fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY; int r = __real_fclose(f);
    if (wr && ++closes == close_fails) { errno = EIO; return EOF; }
    return r;
}
static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void rm_rf(const S &p) { if (p.compare(0, G.tmp.size(), G.tmp) == 0 && p.size() > G.tmp.size() + 1) nftw(p.c_str(), rm_cb, 8, FTW_DEPTH | FTW_PHYS); }

static void p18() {
    std::vector<Writer> ws;
    std::vector<Src *> keep;
    for (int k = 0; k < 3; ++k) for (int rgba = 0; rgba < 2; ++rgba) for (int sz = 0; sz < 3; ++sz) for (int api = 0; api < 4; ++api) {
        int w = sz == 0 ? 2 : sz == 1 ? 7 : 90, h = sz == 0 ? 1 : sz == 1 ? 5 : 60;
        Src *s = new Src(w, h, 1, false, rgba, [&](int x, int y, int c) { return (x * 7919 + y * 104729 + c * 31 + x * y * 17) % 256; });
        keep.push_back(s);
        ws.push_back({fmt("%s of a %dx%d %s image, interface %d", KN[k], w, h, rgba ? "RGBA" : "gray", api), S("out") + EXT[k][rgba * 2], (api & 1) != 0, [=](const S &p) { return do_save(s->im, p, (Kind)k, api); }});
    }
    for (int rgba = 0; rgba < 2; ++rgba) for (int api = 0; api < 2; ++api) for (const char *f : {"out", "out.img", "out.bmp"}) { // no known extension: PNM
        Src *s = new Src(7, 5, 1, false, rgba, [&](int x, int y, int c) { return (x * 7919 + y * 104729 + c * 31) % 256; }); keep.push_back(s);
        ws.push_back({fmt("a %s image as %s, interface %d", rgba ? "RGBA" : "gray", f, api), f, (api & 1) != 0, [=](const S &p) { return do_save(s->im, p, PNM, api); }});
    }
    for (int k = 0; k < 3; ++k) for (int api = 4; api < 6; ++api) { // C++
        Src *s = new Src(7, 5, 1, false, k == 1, [&](int x, int y, int c) { return (x * 7919 + y * 104729 + c * 31) % 256; }); keep.push_back(s);
        ws.push_back({fmt("%s of an image, C++ interface %d", KN[k], api), S("out") + EXT[k][0], (api & 1) != 0, [=](const S &p) { return do_save(s->im, p, (Kind)k, api); }});
    }
    // data frames
    for (int rows = 0; rows < 3; ++rows) {
        NXDataFrame *df = nx_data_frame_alloc();
        nx_data_frame_add_column(df, NX_DCT_INT, "i"); nx_data_frame_add_column(df, NX_DCT_DOUBLE, "d"); nx_data_frame_add_column(df, NX_DCT_STRING, "a \"label\""); nx_data_frame_add_column(df, NX_DCT_BOOL, "b");
        int n = rows == 0 ? 0 : rows == 1 ? 2 : 150;
        for (int r = 0; r < n; ++r) nx_data_frame_add_row(df);
        for (int r = 0; r < n; ++r) { nx_data_frame_set_int(df, r, 0, r * 7919); nx_data_frame_set_double(df, r, 1, r / 3.0); nx_data_frame_set_string(df, r, 2, "some, \"text\""); nx_data_frame_set_bool(df, r, 3, r % 2 ? NX_TRUE : NX_FALSE); }
        ws.push_back({fmt("data frame of %d rows", n), "out.csv", false, [=](const S &p) { return nx_data_frame_save_csv(df, p.c_str()) == NX_TRUE; }});
        ws.push_back({fmt("data frame of %d rows, fatal", n), "out.csv", true, [=](const S &p) { return guarded([&] { nx_data_frame_xsave_csv(df, p.c_str()); }); }});
        ws.push_back({fmt("data frame of %d rows on a stream", n), "out.csv", false, [=](const S &p) { return stream_w(p, false, [&](FILE *f) { return nx_data_frame_save_csv_stream(df, f) == NX_TRUE; }); }});
    }
    // JSON
    for (int n : {0, 3, 400}) {
        NXJSONNode *o = nx_json_node_new_object(), *a = nx_json_node_new_array();
        for (int i = 0; i < n; ++i) { nx_json_array_add(a, nx_json_node_new_integer(fmt("%d", i * 31).c_str())); nx_json_array_add(a, nx_json_node_new_string("te\"xt")); nx_json_array_add(a, nx_json_node_new_fpnumber(fmt("%.2f", i / 4.0).c_str())); }
        nx_json_object_add(o, "array", a);
        for (int pp = 0; pp < 2; ++pp) for (int x = 0; x < 2; ++x)
            ws.push_back({fmt("JSON of %d items, level %d, %s", n, pp, x ? "fatal" : "result"), "out.json", (bool)x, [=](const S &p) { return stream_w(p, x, [&](FILE *f) { nx_json_tree_fprint(f, o, pp); return true; }); }});
    }
    // string arrays, strings
    for (int n : {0, 2, 300}) {
        NXStringArray *sa = nx_string_array_alloc(); nx_string_array_resize(sa, n); for (int i = 0; i < n; ++i) nx_string_array_setf(sa, i, "string %d", i * i);
        ws.push_back({fmt("%d strings", n), "out.bin", false, [=](const S &p) { return stream_w(p, false, [&](FILE *f) { return nx_string_array_write(sa, f) == 0; }); }});
        ws.push_back({fmt("%d strings, fatal", n), "out.bin", true, [=](const S &p) { return stream_w(p, true, [&](FILE *f) { nx_string_array_xwrite(sa, f); return true; }); }});
        S t(n * 17, 'q');
        ws.push_back({fmt("string of %d", n * 17), "out.bin", false, [=](const S &p) { return stream_w(p, false, [&](FILE *f) { return nx_strwrite(t.c_str(), f) == 0; }); }});
        ws.push_back({fmt("readable string of %d", n * 17), "out.bin", false, [=](const S &p) { return stream_w(p, false, [&](FILE *f) { return nx_fputs_readable(t.c_str(), f) != EOF; }); }});
        ws.push_back({fmt("%d raw bytes", n * 17), "out.bin", true, [=](const S &p) { return stream_w(p, true, [&](FILE *f) { nx_xfwrite(t.data(), 1, t.size(), f); return true; }); }});
    }
    // keypoints, SIFT files
    static std::vector<NXKeypoint> kp(130); memset(kp.data(), 0, kp.size() * sizeof kp[0]);
    static std::vector<uchar> desc(130 * NX_SIFT_DESC_DIM);
    for (int i = 0; i < 130; ++i) { kp[i].x = i; kp[i].ys = i / 2.f; kp[i].id = i * 77ull << 32; kp[i].score = i; }
    for (size_t i = 0; i < desc.size(); ++i) desc[i] = i * 7;
    for (int n : {0, 1, 3, 130}) {
        ws.push_back({fmt("%d keypoints", n), "out.bin", false, [=](const S &p) { return stream_w(p, false, [&](FILE *f) { return nx_keypoint_write(kp.data(), n, f) == n; }); }});
        ws.push_back({fmt("%d keypoints, fatal", n), "out.bin", true, [=](const S &p) { return stream_w(p, true, [&](FILE *f) { nx_keypoint_xwrite(kp.data(), n, f); return true; }); }});
        ws.push_back({fmt("%d SIFT features", n), "out.bin", true, [=](const S &p) { return guarded([&] { nx_sift_xsave(p.c_str(), n, kp.data(), desc.data()); }); }});
    }
    for (int n : {1, 3, 40}) { // match cache: the only file of its directory
        ws.push_back({fmt("cache of %d SIFT matches", n), "*cache", true, [=](const S &p) { std::vector<NXPointMatch2D> pm(n); return guarded([&] { nx_sift_match_brute_force_with_cache(n, kp.data(), desc.data(), 7, kp.data() + 50, desc.data() + 50 * NX_SIFT_DESC_DIM, pm.data(), 0.f, p.c_str()); }); }});
    }
    for (int n : {2, 32}) {
        NXBriefExtractor *be = nx_brief_extractor_new_with_seed(n, 8, 12345u);
        ws.push_back({fmt("BRIEF extractor of %d octets", n), "out.bin", false, [=](const S &p) { return stream_w(p, false, [&](FILE *f) { return nx_brief_extractor_write(be, f) == NX_OK; }); }});
        ws.push_back({fmt("BRIEF extractor of %d octets, fatal", n), "out.bin", true, [=](const S &p) { return stream_w(p, true, [&](FILE *f) { nx_brief_extractor_xwrite(be, f); return true; }); }});
    }
    for (int n : {1, 2, 20}) {
        static double A[400]; for (int i = 0; i < 400; ++i) A[i] = i / 7.0;
        ws.push_back({fmt("%dx%d matrix", n, n), "out.txt", true, [=](const S &p) { return stream_w(p, true, [&](FILE *f) { nx_dmat_xwrite(f, n, n, A); return true; }); }});
    }
    for (auto &w : ws) {
        bool cache = w.file == "*cache"; S p = tmpfile(cache ? "cache" : w.file.c_str());
        auto clean = [&] { if (cache) rm_rf(p); else unlink(p.c_str()); };
        auto content = [&]() -> S { if (!cache) return read_file(p); S o; FILE *q = popen(("cat " + p + "/* 2>/dev/null").c_str(), "r"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, q)) > 0) o.append(b, n); pclose(q); return o; };
        clean(); if (!w.w(p)) { if (begin("complete")) fail("writing %s fails without a reason", w.name.c_str()); continue; }
        S good = content(); size_t N = good.size();
        for (size_t n = 0; n <= N + 1; ++n) {
            // large files: all limits near buffer boundaries and the ends, every 37th elsewhere in the quick tier
            if (!thorough() && N > 3000 && n > 300 && n + 300 < N && n % 37 && (n + 3) % 4096 > 6) continue;
            if (!begin("full-disk")) continue;
            describe([&] { return fmt("%s with room for %zu of %zu bytes", w.name.c_str(), n, N); });
            clean(); int fd = free_fd(); size_t hp = heap();
            struct rlimit old; getrlimit(RLIMIT_FSIZE, &old); struct rlimit lim = old; lim.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &lim);
            bool ok = w.w(p); setrlimit(RLIMIT_FSIZE, &old); step();
            if (n < N && ok) fail("writing %s with room for %zu of %zu bytes reports success", w.name.c_str(), n, N);
            if (n >= N && !ok) fail("writing %s with room for all %zu bytes fails", w.name.c_str(), N);
            if (ok && content() != good) fail("writing %s twice gives different files", w.name.c_str());
            if (!w.x || ok) { if (heap() != hp) fail("writing %s with room for %zu of %zu bytes leaks %zd bytes", w.name.c_str(), n, N, (ssize_t)(heap() - hp)); if (fd_leak(fd)) fail("writing %s with room for %zu bytes leaves a file open", w.name.c_str(), n); }
            else for (int i = fd; i < fd + 4; ++i) close(i);
            state(mix(hash(w.name), mix(n, ok)));
        }
        for (int nth = 1; nth < 3; ++nth) if (begin("close-fails")) { // as quotas and network file systems do
            describe([&] { return fmt("%s, closing file %d fails", w.name.c_str(), nth); });
            clean(); int fd = free_fd(); size_t hp = heap(); close_fails = nth; closes = 0; bool ok = w.w(p); close_fails = 0; step();
            if (closes >= nth && ok) fail("writing %s reports success although closing the file fails", w.name.c_str());
            if (closes < nth && !ok) fail("writing %s fails without a reason", w.name.c_str());
            if (!w.x || ok) { if (heap() != hp) fail("writing %s when closing fails leaks %zd bytes", w.name.c_str(), (ssize_t)(heap() - hp)); if (fd_leak(fd)) fail("writing %s when closing fails leaves a file open", w.name.c_str()); }
            else for (int i = fd; i < fd + 4; ++i) close(i);
            state(mix(hash(w.name), 2000000 + nth));
        }
        for (int t = 0; t < 4; ++t) if (begin("unwritable")) {
            static const char *T[] = {"a device without space", "a missing directory", "a directory", "an existing read-only target"};
            describe([&] { return w.name + " to " + T[t]; });
            S q = p; clean(); bool expect = false;
            if (t == 0) { if (cache) continue; if (symlink("/dev/full", p.c_str())) fail("harness"); expect = N == 0; }
            if (t == 1) { if (cache) q = tmpfile("missing/deeper/cache"); else q = tmpfile("missing/") + w.file; }
            if (t == 2) { if (cache) continue; mkdir(p.c_str(), 0700); }
            if (t == 3) { if (cache) write_file(p, "not a directory"); else continue; }
            int fd = free_fd(); size_t hp = heap(); bool ok = w.w(q); step();
            if (t == 1 && cache && ok) { rm_rf(tmpfile("missing")); continue; } // may create it
            if (ok != expect) fail("writing %s to %s reports %s", w.name.c_str(), T[t], ok ? "success" : "failure");
            if (!w.x || ok) { if (heap() != hp) fail("writing %s to %s leaks %zd bytes", w.name.c_str(), T[t], (ssize_t)(heap() - hp)); if (fd_leak(fd)) fail("writing %s to %s leaves a file open", w.name.c_str(), T[t]); }
            else for (int i = fd; i < fd + 4; ++i) close(i);
            if (t == 2) rmdir(p.c_str()); else if (t == 1) rm_rf(tmpfile("missing")); else unlink(p.c_str());
            state(mix(hash(w.name), 1000000 + t));
        }
        clean();
    }
}
