// C34: the library's file readers and writers, each driven by a seeded history of operations next to a byte-array model.
#include "h.hpp"
#include "io.hpp"
#include <exception>
namespace kbase = knor::base;
enum RK { R_BULK = 0, R_ROWS, R_LOOP, R_BINROWS, R_BINMIX, R_TEXTROWS, R_TEXTALL, R_WRITE, R_STORE, R_N };
static const char* const rname[R_N] = { "bin_io::read", "bin_io::readline", "bin_io loop", "bin_rm_reader::readline", "bin_rm_reader mixed", "text_reader::readline", "text_reader::read", "bin_io::write", "store_cluster" };
// what is wrong with the file (healthy disk)
enum RM { M_OK = 0, M_DISK, M_SHORT, M_MISSING, M_LONGLINE, M_WORD, M_LONGFILE };
void g_C34(Params& p, Cfg& c, Rng& r) {
    gen_sched(c, r); for (int i = 0; i < NP; i++) p[i] = pmin[i];
    p[SUB] = r.below(R_N); p[N] = r.chance(.2) ? r.range(200, 1500) : r.range(1, 60); p[D] = r.range(1, 8); p[K] = r.range(1, 6); p[DSEED] = r.below(1000000); p[HIST] = r.below(1000000);
    p[SRC] = r.below(2); p[MB] = r.range(1, (int)p[N]); p[T] = 1; p[FMODE] = M_OK;
    double u = r.real();
    if (u < .35) { p[T] = r.range(1, 4); if (c.gap > 60 && r.chance(.5)) c.gap = 10 + r.below(50); return; }
    if (u < .75) {
        p[FMODE] = M_DISK; c.fault_cap = r.chance(.8) ? 1 : 2; bool wr = p[SUB] == R_WRITE || p[SUB] == R_STORE;
        for (int i = 0; i < c.fault_cap; i++) { Kind k = wr ? (r.chance(.25) ? K_WOPEN : K_WRITE) : (r.chance(.2) ? K_OPEN : r.chance(.1) ? K_SEEK : K_READ); c.fault_at[k] = (int)r.below(k == K_READ || k == K_WRITE ? 1 + p[N] * p[D] * 8 / 4096 + 2 : 2); }
        return;
    }
    static const i64 rd[] = { R_BULK, R_ROWS, R_LOOP, R_BINROWS, R_BINMIX, R_TEXTROWS, R_TEXTALL };
    p[SUB] = rd[r.below(7)];
    bool text = p[SUB] == R_TEXTROWS || p[SUB] == R_TEXTALL;
    p[FMODE] = r.chance(.25) ? M_MISSING : text ? (r.chance(.5) ? M_LONGLINE : M_WORD) : M_SHORT;
}
struct RC { int id, kind; u64 seed; bool ints; char fn[32]; int loud; };
static bool c34_armed;
static bool c34_may_fail() { return faults_fired() || gp[FMODE] == M_MISSING || gp[FMODE] == M_SHORT || gp[FMODE] >= M_LONGLINE; }
static void c34_loud(int kind, const char*) { if (!c34_armed || !c34_may_fail() || kind == 2) return; nontrivial(); probe(5); verdict(V_OK, "loud", "failed loudly"); }
static double cell(u64 seed, size_t i, bool ints) { Rng q(seed * 1000003 + i); if (ints) return (double)q.below(100000); u64 u = q.next(); return (q.real() - .5) * (u % 7 == 0 ? 1e-12 : u % 7 == 1 ? 1e15 : 100); }
template <class T> static void put_file(const RC& c, size_t n, size_t d, Rng& q) {
    i64 m = gp[FMODE];
    if (m == M_MISSING) { fs_remove(c.fn); return; }
    if (c.kind == R_TEXTROWS || c.kind == R_TEXTALL) {
        rstr s; size_t broken = q.below(n);
        static const char* const sep[] = { " ", "\t", "  ", " \t" };
        for (size_t i = 0; i < n; i++) {
            if (q.chance(.1)) s += " ";
            for (size_t j = 0; j < d; j++) { char b[60]; double v = cell(c.seed, i * d + j, c.ints); snprintf(b, sizeof b, c.ints ? "%.0f" : "%.17g", v); if (j) s += sep[q.below(4)]; s += b; if (m == M_WORD && i == broken && j == d / 2) s += q.chance(.5) ? " x" : ",7"; }
            if (m == M_LONGLINE && (i == broken || i + 1 == n)) for (size_t j = 0, e = 1 + q.below(6); j < e; j++) s += " 4";
            if (q.chance(.1)) s += " ";
            if (i + 1 < n || q.chance(.7)) s += "\n";
        }
        fs_put(c.fn, s.data(), s.size());
    } else {
        rvec<T> v(n * d); for (size_t i = 0; i < n * d; i++) v[i] = (T)cell(c.seed, i, c.ints);
        size_t by = n * d * sizeof(T); if (m == M_SHORT) by = q.chance(.3) ? by - 1 - q.below(sizeof(T)) : q.below(by);
        fs_put(c.fn, v.data(), by);
    }
}
static size_t intact(const RC& c) { return fs_size(c.fn); }
template <class T> static void expect(const RC& c, const T* v, size_t from, size_t n, size_t d, const char* what) {
    (void)d; for (size_t i = 0; i < n; i++) { T e = (T)cell(c.seed, from + i, c.ints); if (memcmp(&v[i], &e, sizeof e)) { char sg[80]; snprintf(sg, sizeof sg, "%s wrong value", rname[c.kind]); bad(sg, "%s (%s): value %zu of the file is delivered as %.17g, the file holds %.17g", rname[c.kind], what, from + i, (double)v[i], (double)e); } }
}
static void ended(const RC& c, size_t got, size_t n, size_t bytes, size_t whole) { // row-by-row reading says there is no further row
    char sg[80]; snprintf(sg, sizeof sg, "%s lost rows", rname[c.kind]);
    if (got < n && bytes == whole) bad(sg, "%s: reading ends after %zu of %zu rows and no error is reported", rname[c.kind], got, n);
}
static void count_is(const RC& c, size_t got, size_t want) { char sg[80]; snprintf(sg, sizeof sg, "%s row count", rname[c.kind]); if (got != want) bad(sg, "%s: %zu rows are reported, %zu were read", rname[c.kind], got, want); }
static void took_bad(const RC& c, const char* what) { char sg[80]; snprintf(sg, sizeof sg, "%s accepts a bad file", rname[c.kind]); bad(sg, "%s: %s, yet the values were delivered as if the file were complete", rname[c.kind], what); }
static const char* const mwhat[] = { "", "a disk error occurred", "the file is shorter than asked for", "the file is missing", "a line or the file holds more numbers than there is room for", "a line holds something that is no number", "" };

template <class T> static void play(RC& c) {       // simulated
    size_t n = gp[N], d = gp[D]; Rng q(c.seed * 77 + gp[HIST]); i64 m = gp[FMODE];
    { Rt r; if (c.kind < R_WRITE) put_file<T>(c, n, d, q); }
    std::string fn(c.fn); size_t whole; { Rt r; whole = intact(c); }
    try {
        switch (c.kind) {
        case R_BULK: {
            std::vector<T> v(n * d); T* raw = new T[n * d]; int how; { Rt r; how = (int)q.below(3); }
            try { kbase::bin_io<T> f(fn, n, d); if (how == 0) f.read(&v); else if (how == 1) f.read(v.data()); else f.read(raw); } catch (...) { delete[] raw; throw; }
            { Rt r; if (m == M_SHORT) took_bad(c, mwhat[m]); if (intact(c) < whole && faults_fired()) { /* the file was cut while it was read: what was delivered must still be right */ } expect(c, how == 2 ? raw : v.data(), 0, n * d, d, "whole"); }
            delete[] raw; break; }
        case R_ROWS: {
            kbase::bin_io<T> f(fn, n, d); T* raw = new T[d];
            for (size_t i = 0; i < n; i++) { bool a; { Rt r; a = q.chance(.5); }
                if (a) { std::vector<T> v = f.readline(); Rt r; if (v.size() != d) bad("bin_io row width", "bin_io::readline: a row of %zu values for %zu columns", v.size(), d); expect(c, v.data(), i * d, d, d, "row"); }
                else { f.readline(raw); Rt r; expect(c, raw, i * d, d, d, "row"); } }
            delete[] raw; { Rt r; if (m == M_SHORT) took_bad(c, mwhat[m]); } break; }
        case R_LOOP: {
            kbase::bin_io<T> f(fn, n, d); size_t got = 0;
            while (f) { std::vector<T> v = f.readline(); Rt r; if (got == n) bad("bin_io loop", "bin_io: more rows than the file is declared to hold"); expect(c, v.data(), got * d, d, d, "row"); got++; }
            { Rt r; if (m == M_SHORT) took_bad(c, mwhat[m]); if (got != n) bad("bin_io loop", "bin_io: the loop over all rows ends after %zu of %zu rows", got, n); } break; }
        case R_BINROWS: {
            kbase::bin_rm_reader<T> f(fn); f.set_ncol(d); std::vector<T> v(d); size_t got = 0;
            while (f.readline(v)) { Rt r; if (got == n) bad("bin_rm_reader extra row", "bin_rm_reader: more rows than the file holds"); expect(c, v.data(), got * d, d, d, "row"); got++; }
            { size_t rep = f.get_nrow(); Rt r; count_is(c, rep, got); if (m == M_SHORT) { if (got != whole / (d * sizeof(T))) bad("bin_rm_reader rows", "bin_rm_reader: %zu rows from a file of %zu whole rows", got, whole / (d * sizeof(T))); } else ended(c, got, n, intact(c), whole); } break; }
        case R_BINMIX: {
            kbase::bin_rm_reader<T> f(fn); f.set_ncol(d); size_t rows = 0, at = 0;
            bool lost = false;       // behind the end: only a seek makes sense
            for (int o = 0; o < 14; o++) {
                int op; size_t len, to; { Rt r; op = lost ? 2 : (int)q.below(4); if (op == 3) op = 0; to = q.chance(.3) ? 0 : q.chance(.5) ? q.below(n) * d : q.below(n * d + 1); if (op == 1 && at >= n * d) op = 0; len = op == 1 ? 1 + q.below(n * d - at) : 0; }
                if (op == 2) { f.seek(to * sizeof(T)); at = to; lost = false; }
                else if (op == 1) { std::vector<T> v(len); f.read(v); { Rt r; if (m == M_SHORT && (at + len) * sizeof(T) > whole) took_bad(c, mwhat[m]); expect(c, v.data(), at, len, d, "block"); } at += len; }
                else { std::vector<T> v(d); bool ok = f.readline(v); Rt r; bool there = (at + d) * sizeof(T) <= whole;
                    if (ok && !there) bad("bin_rm_reader extra row", "bin_rm_reader: a row is delivered that the file does not hold (values %zu to %zu of %zu)", at, at + d, whole / sizeof(T));
                    if (!ok && there && intact(c) == whole) bad("bin_rm_reader lost rows", "bin_rm_reader: a row the file holds (from value %zu of %zu) is not delivered and no error is reported", at, n * d);
                    if (!ok) { lost = true; continue; }
                    expect(c, v.data(), at, d, d, "row"); at += d; rows++; }
            }
            { size_t rep = f.get_nrow(); Rt r; count_is(c, rep, rows); } break; }
        case R_TEXTROWS: {
            kbase::text_reader<T> f(fn); f.set_ncol(d); std::vector<T> v(d); size_t got = 0;
            while (f.readline(v)) { Rt r; if (got == n) bad("text_reader extra row", "text_reader: more rows than the file holds"); if (intact(c) == whole) expect(c, v.data(), got * d, d, d, "line"); got++; }
            { size_t rep = f.get_nrow(); Rt r; count_is(c, rep, got); if (m == M_LONGLINE || m == M_WORD) took_bad(c, mwhat[m]); ended(c, got, n, intact(c), whole); } break; }
        case R_TEXTALL: {
            kbase::text_reader<T> f(fn); f.set_ncol(d); std::vector<T> v(n * d); f.read(v);
            { size_t rep = f.get_nrow(); Rt r; if (m == M_LONGLINE || m == M_WORD) took_bad(c, mwhat[m]); if (intact(c) == whole) { count_is(c, rep, n); expect(c, v.data(), 0, n * d, d, "whole"); } } break; }
        case R_WRITE: {
            std::vector<T> v(n * d); { Rt r; for (size_t i = 0; i < n * d; i++) v[i] = (T)cell(c.seed, i, c.ints); }
            { kbase::bin_io<T> f(fn, n, d, "wb"); size_t at = 0;
              while (at < n * d) { size_t len; bool a; { Rt r; len = 1 + q.below((u64)gp[MB] * d); if (at + len > n * d) len = n * d - at; a = q.chance(.5); } if (a) f.write(&v[at], len); else { std::vector<T> w(v.begin() + at, v.begin() + at + len); f.write(w, len); } at += len; } }
            { Rt r; rvec<char> b; fs_get(c.fn, b); if (b.size() != n * d * sizeof(T) || memcmp(b.data(), v.data(), b.size())) bad("bin_io::write incomplete", "bin_io::write: %zu of %zu bytes are in the file (or differ) and no error is reported", b.size(), n * d * sizeof(T)); } break; }
        case R_STORE: {
            std::vector<double> v(n * d); std::vector<unsigned> lab(n); unsigned id; size_t cnt = 0;
            { Rt r; for (size_t i = 0; i < n * d; i++) v[i] = cell(c.seed, i, c.ints); for (size_t i = 0; i < n; i++) lab[i] = (unsigned)q.below(gp[K]); id = (unsigned)q.below(gp[K]); for (size_t i = 0; i < n; i++) cnt += lab[i] == id; }
            std::string dir = "d" + std::to_string(c.id) + "/"; { Rt r; char b[20]; snprintf(b, sizeof b, "d%d", c.id); fs_mkdir(b); }
            kbase::store_cluster(id, v.data(), (unsigned)cnt, lab.data(), n, d, dir);
            std::string out = dir + "cluster_" + std::to_string(id) + "_r" + std::to_string(cnt) + "_c" + std::to_string(d) + ".bin";
            { Rt r; rvec<char> b; if (!fs_get(out.c_str(), b)) bad("store_cluster no file", "store_cluster: no file %s", out.c_str());
              rvec<double> w; for (size_t i = 0; i < n; i++) if (lab[i] == id) for (size_t j = 0; j < d; j++) w.push_back(v[i * d + j]);
              if (b.size() != w.size() * 8 || memcmp(b.data(), w.data(), b.size())) bad("store_cluster incomplete", "store_cluster: %zu of %zu bytes are in the file (or differ) and no error is reported", b.size(), w.size() * 8); } break; }
        }
    } catch (std::exception&) { Rt r; c.loud = 1; if (!c34_may_fail()) { char sg[80]; snprintf(sg, sizeof sg, "%s failed", rname[c.kind]); bad(sg, "%s fails although the file and the disk are healthy", rname[c.kind]); } }
}
static void reader_client(void* a) { RC* c = (RC*)a; if (c->ints && c->kind != R_STORE) play<unsigned>(*c); else play<double>(*c); }
void b_C34(void*) {
    Rt r; int T_ = (int)gp[T]; if (T_ > 8) T_ = 8; if (gp[FMODE] && T_ > 1) T_ = 1; rvec<RC> c(T_); int f[8];
    on_loud = c34_loud; c34_armed = true;
    for (int i = 0; i < T_; i++) { c[i].id = i; c[i].kind = i && gp[HIST] % 2 ? (int)((gp[SUB] + i * (1 + gp[HIST] % 5)) % R_N) : (int)(gp[SUB] % R_N); c[i].seed = (u64)gp[DSEED] + 31 * i; c[i].ints = gp[HIST] % 3 ? gp[SRC] & 1 : (gp[SRC] + i) & 1; snprintf(c[i].fn, 32, "file%d", i); c[i].loud = 0; }
    if (T_ == 1) { Un u; reader_client(&c[0]); }
    else { for (int i = 0; i < T_; i++) f[i] = spawn(reader_client, &c[i]); for (int i = 0; i < T_; i++) join(f[i]); }
    Res s = resources(); if (s.open_files) verdict(V_RESOURCE, "open files", "%d files still open after their readers and writers are gone", s.open_files);
    nontrivial(); if (c[0].loud) probe(6);
}
