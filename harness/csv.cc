// P01: CSV text -> data frame, against a reference reader, for every text within the bounds.
#include "df_model.hh"
using namespace mc;

static void check_text(const std::string &t, bool via_stream, bool factors = false) {
    describe([&] { return "CSV text: " + esc(t.size() > 300 ? t.substr(0, 300) + "..." : t); });
    std::vector<std::vector<RField>> recs;
    bool ok = ref_csv(t, recs);
    NXDataFrame *df = nullptr;
    size_t h0 = heap();
    bool returned;
    if (via_stream) {
        FILE *f = fmemopen((void *)t.data(), t.size(), "r");
        if (!f) return;
        returned = guarded([&] { df = nx_data_frame_load_csv_stream(f, factors ? NX_TRUE : NX_FALSE); });
        fclose(f);
    } else {
        // the text lives in an exactly sized buffer: any read past it is reported
        char *buf = (char *)malloc(t.size() + 1);
        memcpy(buf, t.c_str(), t.size() + 1);
        NXCSVLexer *lx = nullptr; NXCSVParser *cp = nullptr;
        returned = guarded([&] {
            lx = nx_csv_lexer_new(buf); cp = nx_csv_parser_new(lx);
            df = nx_csv_parser_parse(cp);
            nx_csv_parser_free(cp); nx_csv_lexer_free(lx);
        });
        free(buf);
    }
    step();
    if (returned != ok) { fail("text '%s': %s, expected it to be %s", esc(t.substr(0, 300)).c_str(), returned ? "accepted" : "rejected", ok ? "accepted" : "rejected"); if (returned) nx_data_frame_free(df); return; }
    if (!ok) { state(1); return; }
    MFrame m = ref_frame(recs, factors);
    std::string d = diff_frame(m, df);
    if (!d.empty()) fail("text '%s': %s", esc(t.substr(0, 300)).c_str(), d.c_str());
    state(hash_frame(m));
    nx_data_frame_free(df);
    if (d.empty()) {
        m = MFrame(); recs.clear();
        (void)h0;
    }
}

static void leak_check(const std::string &t) {
    // repeated load+free must not grow the heap
    describe([&] { return "load and free: " + esc(t); });
    size_t h[3];
    for (int k = 0; k < 3; ++k) {
        FILE *f = fmemopen((void *)t.data(), t.size(), "r");
        NXDataFrame *df = nx_data_frame_load_csv_stream(f, NX_FALSE);
        fclose(f);
        nx_data_frame_free(df);
        step();
        h[k] = heap();
    }
    if (h[2] != h[1]) fail("loading and freeing '%s' leaks %ld bytes", esc(t).c_str(), (long)(h[2] - h[1]));
}

static const char *FIELDS[] = {
    "", "0", "1", "-1", "+1", "007", "-0", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296",
    "99999999999999999999", "1.5", "-.5", "5.", "1e5", "1E-3", "1e400", "1e-310", "nan", "inf", "true", "false", "True",
    "truex", "a", "1a", "1.5x", "--1", "-", ".", "1e", "\"1\"", "\"true\"", "\"\"", "\"a\"\"b\"", "\"a,b\"", "\"a\nb\"", "\"\"\"\"", "x\xff" "y", "0.1", "1.0", " ", "  ", "\t", " 5", "5 ", " 1.5", "1.5 ", " true", "true ", "0x10", "\r", "1\r", "1 2", "+", "1.", "e5", "infinity", "-inf", "FALSE", "\"1\r\""};

void mc_run() {
    { // every text over a small alphabet
        const char A[] = {'a', '1', '"', ',', '\n'};
        int L = pick(8, 10);
        std::string t;
        for (int len = 0; len <= L; ++len) {
            uint64_t n = 1; for (int i = 0; i < len; ++i) n *= 5;
            for (uint64_t k = 0; k < n; ++k)
                if (begin("all-texts")) {
                    t.resize(len); uint64_t v = k;
                    for (int i = 0; i < len; ++i) { t[i] = A[v % 5]; v /= 5; }
                    check_text(t, false);
                }
        }
    }
    for (int len = 1; len <= pick(6, 7); ++len) { // and over the characters of numbers and blanks
        uint64_t n = 1; for (int i = 0; i < len; ++i) n *= 8;
        for (uint64_t k = 0; k < n; ++k) if (begin("number-texts")) { std::string t = "v\n"; uint64_t v = k; for (int i = 0; i < len; ++i) { t += " \r1-.,\ne"[v % 8]; v /= 8; } check_text(t, false); }
    }
    int NF = sizeof FIELDS / sizeof *FIELDS;
    // type inference: all pairs (thorough: triples) of field texts in one column, next to a fixed column
    for (int a = 0; a < NF; ++a) for (int b = 0; b < NF; ++b)
        for (int nl = 0; nl < 2; ++nl) {
            if (begin("column-pairs"))
                check_text(std::string("k,v\n7,") + FIELDS[a] + "\n8," + FIELDS[b] + (nl ? "\n" : ""), true);
            if (begin("column-pairs-factors"))
                check_text(std::string("v,k\n") + FIELDS[a] + ",x\n" + FIELDS[b] + ",y" + (nl ? "\n" : ""), true, true);
        }
    for (int a = 0; a < NF; ++a) for (int b = 0; b < NF; ++b) for (int c = 0; c < NF; c += pick(5, 1))
        if (begin("column-triples"))
            check_text(std::string("v,w\n") + FIELDS[a] + "," + FIELDS[c] + "\n" + FIELDS[b] + "," + FIELDS[b] + "\n" + FIELDS[c] + "," + FIELDS[a] + "\n", false);
    // shapes around every growth threshold of the reader's tables
    for (int nc = 1; nc <= pick(40, 80); ++nc) for (int nr = 0; nr <= pick(40, 80); ++nr)
        if (begin("shapes")) {
            std::string t;
            for (int c = 0; c < nc; ++c) t += fmt("%sc%d", c ? "," : "", c);
            for (int r = 0; r < nr; ++r) { t += "\n"; for (int c = 0; c < nc; ++c) t += fmt("%s%d", c ? "," : "", r * 100 + c); }
            check_text(t, true);
        }
    // one record too short or too long at every place
    for (int nc = 1; nc <= 4; ++nc) for (int nr = 1; nr <= 4; ++nr) for (int bad = 0; bad <= nr; ++bad) for (int dlt = -1; dlt <= 1; ++dlt)
        if (begin("ragged")) {
            std::string t;
            for (int r = 0; r <= nr; ++r) {
                int k = nc + (r == bad ? dlt : 0);
                for (int c = 0; c < k; ++c) t += fmt("%s%d", c ? "," : "", r + c);
                t += "\n";
            }
            check_text(t, true);
        }
    // sizes around powers of two; the last record may change every type
    static const int SZ[] = {100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 33001, 66003};
    for (int n : SZ) for (int kind = 0; kind < 6; ++kind) for (int last = 0; last < 5; ++last) if (begin("large")) {
        static const char *LAST[] = {"7", "2.5", "true", "", "text"}; std::string t; int nc = kind == 1 ? n : 1 + kind, nr = kind == 1 ? 3 : n; if (kind == 2) nr = n / 4;
        for (int c = 0; c < nc; ++c) t += fmt("%sc%d", c ? "," : "", c);
        for (int r = 0; r < nr; ++r) { t += "\n"; for (int c = 0; c < nc; ++c) { if (c) t += ","; t += r == nr - 1 && c == nc - 1 && !(nc == 1 && last == 3) ? LAST[last] : kind == 3 && c == 1 ? fmt("\"q %d\"", r % 50) : kind == 4 && c == 2 && r % 3 == 1 ? std::string() : fmt("%d", r % 100 + c); } }
        check_text(t, kind == 3 || kind == 5, kind == 3 || kind == 5);
    }
    // one field of another spelling at every place of a long column
    static const int COL[] = {3, 8, 9, 17, 33, 65};
    for (int n : COL) for (int at = 0; at < n; ++at) for (int f = 0; f < NF; ++f) for (int base = 0; base < 3; ++base) if (begin("late-type")) {
        static const char *B[] = {"5", "0.5", "false"}; std::string t = "a,b\n"; for (int r = 0; r < n; ++r) t += fmt("%d,", r) + (r == at ? FIELDS[f] : B[base]) + "\n"; check_text(t, false);
    }
    // quoted fields of every length with a doubled quote, separator or line end at every place
    for (int len = 1; len <= pick(70, 300); ++len) for (int at = 0; at < len; ++at) for (int w = 0; w < 3; ++w) if (begin("quoted-places")) {
        std::string f(len, 'x'); f.replace(at, 1, w == 0 ? "\"\"" : w == 1 ? "," : "\n"); check_text("\"" + f + "\",b\n1,\"" + f + "\"\n", true);
    }
    // stream buffering: a single field of every length
    for (int len = 1; len <= pick(2200, 8400); ++len)
        if (begin("stream-length")) {
            std::string t(len, 'x'); for (int i = 0; i < len; ++i) t[i] = "abcdefghij"[i % 10];
            check_text(t, true);
        }
    for (int a = 0; a < NF; ++a)
        if (begin("leaks") && (a < 40)) leak_check(std::string("v,w\n") + FIELDS[a] + ",1\n" + FIELDS[a] + ",b\n");
}
