// One generator and one body per property.  A body drives the real code inside the simulator and judges what it did.
#include "h.hpp"
#include "engines.hpp"
#include "thd_safe_bool_vector.hpp"
#include "types.hpp"
#include <algorithm>
#include <exception>
#include <new>
#include <random>
namespace kbase = knor::base;
unsigned knor_sim_min_task_rows = 8192;

const char* const pname[NP] = { "engine", "rows", "dims", "k", "threads", "nodes", "iters", "init", "dist", "tol", "dataseed", "datakind", "source", "taskrows", "minibatch", "fuzz", "minsize", "strictness", "sample", "nstart", "ranks", "history", "jobs", "ompthreads", "sub", "faultmode", "body" };
const i64 pmin[NP] = { 0, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 1, 0, 1, 1, 1, 0, 1, 1, 0, 0, 0 };
Params gp; bool g_nontrivial;
void nontrivial() { g_nontrivial = true; probe(0); }
void bad(const char* sig, const char* fmt, ...) {
    char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    verdict(V_ORACLE, sig, "%s", b);
}
// ---------------------------------------------------------------- oracles
static double tolof(double scale) { return 1e-9 * scale; }
static bool near(double a, double b, double t) { return a == b || std::fabs(a - b) <= t || (a != a && b != b); }
bool same(const Out& a, const Out& b, char* why, size_t n) {
    if (a.k != b.k || a.nrow != b.nrow || a.ncol != b.ncol) { snprintf(why, n, "shape %llux%llu k=%llu versus %llux%llu k=%llu", (unsigned long long)a.nrow, (unsigned long long)a.ncol, (unsigned long long)a.k, (unsigned long long)b.nrow, (unsigned long long)b.ncol, (unsigned long long)b.k); return false; }
    for (size_t i = 0; i < a.lab.size() && i < b.lab.size(); i++) if (a.lab[i] != b.lab[i]) { snprintf(why, n, "label of row %zu is %u versus %u", i, a.lab[i], b.lab[i]); return false; }
    if (a.lab.size() != b.lab.size()) { snprintf(why, n, "%zu versus %zu labels", a.lab.size(), b.lab.size()); return false; }
    if (a.cnt != b.cnt) { snprintf(why, n, "cluster sizes differ"); return false; }
    if (a.cent.size() != b.cent.size()) { snprintf(why, n, "number of centroid values differs"); return false; }
    for (size_t i = 0; i < a.cent.size(); i++) if (memcmp(&a.cent[i], &b.cent[i], 8) && !(a.cent[i] == b.cent[i]) && !(a.cent[i] != a.cent[i] && b.cent[i] != b.cent[i])) { snprintf(why, n, "centroid value %zu is %.17g versus %.17g", i, a.cent[i], b.cent[i]); return false; }
    if (a.iters != b.iters) { snprintf(why, n, "%llu versus %llu passes", (unsigned long long)a.iters, (unsigned long long)b.iters); return false; }
    if (memcmp(&a.energy, &b.energy, 8) || a.best != b.best) { snprintf(why, n, "energy %.17g (start %llu) versus %.17g (start %llu)", a.energy, (unsigned long long)a.best, b.energy, (unsigned long long)b.best); return false; }
    return true;
}
void check_shape(const Out& o, const Params& p, const char* e, bool sizes, i64 kmax) {
    char s[100];
    snprintf(s, sizeof s, "%s shape", e);
    if (o.nrow != (u64)p[N] || o.ncol != (u64)p[D]) bad(s, "%s: result says %llu rows x %llu columns, data is %lld x %lld", e, (unsigned long long)o.nrow, (unsigned long long)o.ncol, p[N], p[D]);
    if (o.lab.size() != (size_t)p[N]) bad(s, "%s: %zu labels for %lld rows", e, o.lab.size(), p[N]);
    if (kmax >= 0 ? (i64)o.k > kmax : (i64)o.k != p[K]) bad(s, "%s: %llu clusters in the result, %lld requested", e, (unsigned long long)o.k, kmax >= 0 ? kmax : p[K]);
    if (o.cnt.size() != o.k || o.cent.size() != o.k * o.ncol) bad(s, "%s: k=%llu but %zu sizes and %zu centroid values", e, (unsigned long long)o.k, o.cnt.size(), o.cent.size());
    rvec<u64> c(o.k, 0);
    snprintf(s, sizeof s, "%s label range", e);
    for (size_t i = 0; i < o.lab.size(); i++) { if (o.lab[i] >= o.k) bad(s, "%s: row %zu has label %u of %llu clusters", e, i, o.lab[i], (unsigned long long)o.k); c[o.lab[i]]++; }
    if (sizes) { snprintf(s, sizeof s, "%s sizes", e); for (size_t j = 0; j < o.k; j++) if (c[j] != o.cnt[j]) bad(s, "%s: cluster %zu reports size %llu but %llu rows carry its label", e, j, (unsigned long long)o.cnt[j], (unsigned long long)c[j]); }
}
void check_means(const Out& o, const rvec<double>& x, const char* e, double scale) {
    size_t d = o.ncol; rvec<double> s(o.k * d, 0.0); rvec<u64> c(o.k, 0); char sg[100]; snprintf(sg, sizeof sg, "%s means", e);
    for (size_t i = 0; i < o.lab.size(); i++) { c[o.lab[i]]++; for (size_t j = 0; j < d; j++) s[o.lab[i] * d + j] += x[i * d + j]; }
    for (size_t k = 0; k < o.k; k++) if (c[k]) for (size_t j = 0; j < d; j++) { double m = s[k * d + j] / (double)c[k]; if (!near(m, o.cent[k * d + j], tolof(scale))) bad(sg, "%s: centroid %zu[%zu] is %.15g but the mean of its %llu rows is %.15g", e, k, j, o.cent[k * d + j], (unsigned long long)c[k], m); }
}
void cmp_ref(const Out& o, const Ref& r, const char* e, bool iters, bool empties) {
    if (r.amb) { probe(1); return; }
    nontrivial(); char sg[100];
    snprintf(sg, sizeof sg, "%s iterations", e);
    if (iters && o.iters != r.o.iters) bad(sg, "%s: reports %llu passes, the sequential algorithm makes %llu (limit %lld)", e, (unsigned long long)o.iters, (unsigned long long)r.o.iters, gp[ITERS]);
    snprintf(sg, sizeof sg, "%s labels", e);
    for (size_t i = 0; i < o.lab.size(); i++) if (o.lab[i] != r.o.lab[i]) { u64 nd = 0; for (size_t j = 0; j < o.lab.size(); j++) nd += o.lab[j] != r.o.lab[j]; bad(sg, "%s: row %zu is labelled %u, the sequential algorithm says %u (%llu rows differ, %llu passes)", e, i, o.lab[i], r.o.lab[i], (unsigned long long)nd, (unsigned long long)r.o.iters); }
    snprintf(sg, sizeof sg, "%s sizes", e);
    for (size_t i = 0; i < o.cnt.size(); i++) if (o.cnt[i] != r.o.cnt[i]) bad(sg, "%s: size of cluster %zu is %llu, expected %llu", e, i, (unsigned long long)o.cnt[i], (unsigned long long)r.o.cnt[i]);
    snprintf(sg, sizeof sg, "%s centroids", e);
    for (size_t i = 0; i < o.cent.size(); i++) { if (!empties && r.o.cnt[i / o.ncol] == 0) continue; if (!near(o.cent[i], r.o.cent[i], tolof(r.scale))) bad(sg, "%s: centroid %zu[%zu] is %.15g, expected %.15g", e, i / (size_t)o.ncol, i % (size_t)o.ncol, o.cent[i], r.o.cent[i]); }
}
void check_nearest(const Out& o, const rvec<double>& x, int dt, const char* e) {
    double sc = scale_of(x), thr = dt == D_COS ? 1e-8 : dt == D_SQ ? 1e-7 * sc * sc : 1e-7 * sc; size_t d = o.ncol; char sg[100]; snprintf(sg, sizeof sg, "%s nearest", e);
    for (size_t i = 0; i < o.lab.size(); i++) {
        double own = ref_dist(&x[i * d], &o.cent[o.lab[i] * d], d, dt);
        for (size_t c = 0; c < o.k; c++) { double v = ref_dist(&x[i * d], &o.cent[c * d], d, dt); if (v < own - thr) bad(sg, "%s: row %zu is labelled %u at distance %.12g but cluster %zu is at %.12g", e, i, o.lab[i], own, c, v); }
    }
}
static void is_rows(const rvec<double>& c, const rvec<double>& x, size_t d, const char* e) {
    char sg[100]; snprintf(sg, sizeof sg, "%s initial centroids", e);
    for (size_t k = 0; k < c.size() / d; k++) { bool f = false; for (size_t i = 0; i < x.size() / d && !f; i++) { f = true; for (size_t j = 0; j < d; j++) if (!near(c[k * d + j], x[i * d + j], 1e-12 * (1 + std::fabs(x[i * d + j])))) { f = false; break; } } if (!f) bad(sg, "%s: initial centroid %zu is not a row of the data", e, k); }
}
// ---------------------------------------------------------------- running jobs
static bool is_omp(i64 e) { return e == E_OMP || e == E_OMPMIN; }
static bool is_h(i64 e) { return e == E_HCLUST || e == E_XMEANS || e == E_GMEANS; }
static bool is_dist(i64 e) { return e == E_DFULL || e == E_DTASK; }
static Out job(const Params& p, const rvec<double>& x, const rvec<double>& given, i64 iters = -1, i64 init = -1, int src = -1, i64 eng = -1) {
    Params q; const char* file = nullptr;
    { Rt r; q = p; if (eng >= 0) q[ENG] = eng; if (src < 0) src = (int)q[SRC]; if (is_omp(q[ENG])) src = 0; q[SRC] = src; if (src == 1) { char b[40]; snprintf(b, sizeof b, "data%lld.bin", p[SUB]); fs_put(b, x.data(), x.size() * 8); file = (const char*)memcpy(rt_malloc(40), b, 40); } }
    Un u;
    double* xd = nullptr; if (!file) { xd = new double[x.size()]; Rt r; memcpy(xd, x.data(), x.size() * 8); }
    double* c = new double[q[K] * q[D] + 1]; { Rt r; for (i64 i = 0; i < q[K] * q[D]; i++) c[i] = given.empty() ? 0 : given[i]; }
    Out o = run_engine(q, xd, c, iters, init, file);
    if (xd && q[ENG] != E_SPH) { Rt r; if (memcmp(xd, x.data(), x.size() * 8)) bad("data modified", "%s: the caller's data was modified", ename[q[ENG]]); }
    delete[] xd; delete[] c;
    return o;
}
struct Init { rvec<double> cent; rvec<u32> lab; };
static Init init_of(const Params& p, const rvec<double>& x, const rvec<double>& given) {
    Init in; size_t n = p[N];
    if (p[INIT] == I_NONE) { in.cent = given; in.lab.assign(n, ~0u); return in; }
    Quiet q; Out o;
    if (is_dist(p[ENG])) { Un u; DistOut d = run_dist(p, x, given.data(), 0); Rt r; o = d.all[0]; }
    else o = job(p, x, given, 0, -1, 0, p[ENG] == E_MB ? E_PRUNE : -1);
    in.cent = o.cent; in.lab = o.lab; if (p[INIT] == I_FORGY) in.lab.assign(n, ~0u);
    if (in.cent.size() != (size_t)(p[K] * p[D])) verdict(V_ORACLE, "init shape", "%s: zero-pass run returns %zu centroid values for k=%lld d=%lld", ename[p[ENG]], in.cent.size(), p[K], p[D]);
    if (p[INIT] == I_FORGY || p[INIT] == I_KMPP) if (p[ENG] != E_SPH) is_rows(in.cent, x, p[D], ename[p[ENG]]);
    return in;
}
// ---------------------------------------------------------------- generation
static void g_sched(Cfg& c, Rng& r) {
    double u = r.real(); static const double sp[] = { .05, .2, .5, .9 };
    if (u < .30) { c.strategy = ST_SYNC; c.sync_p = sp[r.below(4)]; }
    else if (u < .55) { c.strategy = ST_GAP; static const u32 gp_[] = { 30, 100, 300, 1000, 5000 }; c.gap = gp_[r.below(5)]; }
    else if (u < .80) { c.strategy = ST_PCT; c.pct_depth = 1 + r.below(6); static const u64 l[] = { 3000, 10000, 40000, 150000 }; c.pct_len = l[r.below(4)]; }
    else if (u < .95) { c.strategy = ST_CONFLICT; static const double cp[] = { .01, .05, .2, .5 }; c.conflict_p = cp[r.below(4)]; c.sync_p = .1; }
    else c.strategy = ST_DEFAULT;
    if (r.chance(.4)) c.spurious_p = r.chance(.5) ? .05 : .3;
    if (r.chance(.3)) c.stall_p = r.chance(.5) ? .002 : .02;
    if (r.chance(.3)) c.clock_p = .05;
    static const double dl[] = { 0, .1, .5 }; c.delay_p = dl[r.below(3)];
    c.ncpus = 1 + (int)r.below(8);
}
static i64 pickn(Rng& r) { double u = r.real(); return u < .3 ? r.range(1, 12) : u < .75 ? r.range(10, 80) : r.range(80, 250); }
static void g_job(Params& p, Cfg& c, Rng& r, i64 eng) {
    for (int i = 0; i < NP; i++) p[i] = pmin[i];
    p[ENG] = eng; p[N] = pickn(r); p[D] = r.range(1, 6); p[K] = r.chance(.15) ? r.range(1, 30) : r.range(1, 8); p[T] = r.chance(.1) ? 12 : r.range(1, 6); p[NODES] = r.range(1, 4); p[ITERS] = r.range(1, 12);
    p[INIT] = r.below(I_N); p[DIST] = r.chance(.7) ? D_EUCL : (i64)r.below(D_N); p[TOL] = r.chance(.5) ? 0 : r.range(1, 6); p[DSEED] = r.below(1000000);
    static const int kinds[] = { 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 5, 6, 6, 7, 8, 8, 9 }; p[DKIND] = kinds[r.below(17)]; if (r.chance(.06)) p[DKIND] += 16 * r.range(1, 3); p[SRC] = r.below(2);
    p[TASKROWS] = r.chance(.4) ? r.range(1, 6) : r.chance(.5) ? r.range(4, 40) : 8192;
    p[MB] = r.range(1, (int)p[N]); p[FUZZ] = r.range(2, 4); p[MINSZ] = r.range(2, 6); p[STRICT] = r.range(0, 4); p[SAMPLE] = r.range(2, 10); p[NSTART] = r.range(1, 6);
    p[RANKS] = r.range(1, 5); p[JOBS] = r.range(2, 3); p[HIST] = r.below(8); p[SUB] = 0;
    c.nnodes = (int)p[NODES];
}
void gen_sched(Cfg& c, Rng& r) { g_sched(c, r); }
static bool can_redistribute(i64 e) { return e == E_FULL || e == E_PRUNE || e == E_SPH; }   // the engines whose workers exist before run()
static const i64 POOL[] = { E_FULL, E_FULL, E_PRUNE, E_PRUNE, E_MB, E_SPH, E_FCM, E_MEDOID, E_HCLUST, E_XMEANS, E_GMEANS };
static const i64 POOL_OMP[] = { E_FULL, E_FULL, E_PRUNE, E_PRUNE, E_MB, E_SPH, E_FCM, E_MEDOID, E_HCLUST, E_XMEANS, E_GMEANS, E_OMP, E_OMPMIN, E_KMPP };
template <size_t M> static i64 anyof(const i64 (&a)[M], Rng& r) { return a[r.below(M)]; }

// makes a parameter vector meaningful for the engine and property: used after generation and while minimising
void clamp(const char* id, Params& p, Cfg& c) {
    i64 e = p[ENG]; (void)id;
    for (int i = 0; i < NP; i++) if (p[i] < pmin[i]) p[i] = pmin[i];
    if (p[K] > p[N]) p[K] = p[N];
    if (e == E_PRUNE || e == E_MB || is_omp(e) || e == E_DTASK || e == E_KMPP || is_h(e)) { if (p[N] < 2) p[N] = 2; if (p[K] < 2) p[K] = 2; }
    if (is_dist(e)) { if (p[N] < p[RANKS]) p[N] = p[RANKS]; if (p[DIST] > D_COS && 0) p[DIST] = 0; }
    if (is_omp(e) && p[DIST] > D_COS) p[DIST] = D_EUCL;
    if (e == E_FCM || is_h(e)) if (p[INIT] != I_FORGY && p[INIT] != I_NONE) p[INIT] = I_FORGY;
    if (e == E_MEDOID) p[INIT] = I_FORGY;
    if (e == E_SPH) p[DIST] = D_COS;
    if (e == E_KMPP) p[INIT] = I_KMPP;
    if (p[DIST] == D_COS && e != E_SPH && p[INIT] == I_KMPP) { if (p[DKIND] % 16 != 2 && p[DKIND] % 16 != 8) p[DKIND] = p[DKIND] / 16 * 16 + 2; }   // no zero vectors: what such a row weighs as a centre of its own is a convention
    if (e == E_MB && p[MB] > p[N]) p[MB] = p[N];
    if (p[DIST] == D_SQ && e == E_MB) {}
    if (p[FUZZ] < 2) p[FUZZ] = 2;
    if (p[ITERS] < 1) p[ITERS] = 1;
    if (c.nnodes < 1) c.nnodes = 1;
    if (!strcmp(id, "C27")) { p[SRC] = 1; if (is_dist_eng(e) && p[RANKS] > 6) p[RANKS] = 6; }
    if (!strcmp(id, "C22") && p[NSTART] < 1) p[NSTART] = 1;
}
#define GEN(name, eng) static void name(Params& p, Cfg& c, Rng& r) { g_sched(c, r); g_job(p, c, r, eng); }
GEN(g_pool, anyof(POOL, r))
GEN(g_poolomp, anyof(POOL_OMP, r))

static rvec<double> X, GIV;
static void setup() { X = data_v(gp); GIV = centers_v(gp, X); }

// C01 ----------------------------------------------------------------
static void b_C01(void*) { Rt r; setup(); job(gp, X, GIV); if (gp[T] > 1) nontrivial(); }

// C02 ----------------------------------------------------------------
static void canon(Out& o) { // cluster ids renamed by first row: the partition itself
    rmap<u32, u32> m; rvec<u32> inv; for (u32& l : o.lab) { auto it = m.find(l); if (it == m.end()) { m[l] = (u32)inv.size(); inv.push_back(l); l = (u32)inv.size() - 1; } else l = it->second; }
    rvec<u64> c; rvec<double> z; for (u32 l : inv) { c.push_back(o.cnt[l]); z.insert(z.end(), o.cent.begin() + l * o.ncol, o.cent.begin() + (l + 1) * o.ncol); }
    o.cnt = c; o.cent = z; o.k = inv.size();
}
static void b_C02(void*) {
    Rt r; setup(); Out a, b; char why[300];
    { Quiet q; a = job(gp, X, GIV); }
    b = job(gp, X, GIV);
    if (gp[T] > 1) nontrivial();
    char sg[80]; snprintf(sg, sizeof sg, "%s schedule dependence", ename[gp[ENG]]);
    if (!same(b, a, why, sizeof why)) bad(sg, "%s: same job, other schedule, other result: %s", ename[gp[ENG]], why);
}
// C03/C04/C05/C21 ----------------------------------------------------
static void lloyd_check(bool means, bool ref) {
    const char* e = ename[gp[ENG]];
    Init in; if (ref) in = init_of(gp, X, GIV);
    Out o = job(gp, X, GIV);
    check_shape(o, gp, e);
    if (means) check_means(o, X, e, scale_of(X));
    if (!ref) nontrivial();
    if (ref) {
        Ref rf = ref_lloyd(X, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), (int)gp[DIST]);
        cmp_ref(o, rf, e, true);
        if (!rf.amb && rf.fix) check_nearest(o, X, (int)gp[DIST], e);
    }
}
GEN(g_full, E_FULL)
GEN(g_prune0, E_PRUNE)
static void g_prune(Params& p, Cfg& c, Rng& r) { g_prune0(p, c, r); if (r.chance(.6)) { p[N] = r.range(30, 250); p[ITERS] = r.range(3, 15); p[K] = r.range(3, 10); } }
static void b_C03(void*) { Rt r; setup(); lloyd_check(true, true); }
static void b_C04(void*) {
    Rt r; setup(); const char* e = ename[gp[ENG]];
    Out f; { Quiet q; f = job(gp, X, GIV, -1, -1, -1, E_FULL); }
    Init in = init_of(gp, X, GIV);
    Ref rf = ref_lloyd(X, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), (int)gp[DIST]);
    Out o = job(gp, X, GIV); check_shape(o, gp, e); check_means(o, X, e, scale_of(X));
    if (!rf.amb) {
        Ref ff = rf; ff.o = f; cmp_ref(o, ff, "pruned versus full", true);
        cmp_ref(o, rf, e, true); if (rf.fix) check_nearest(o, X, (int)gp[DIST], e);
    } else probe(1);
}
static const i64 C05E[] = { E_FULL, E_PRUNE, E_PRUNE, E_MB, E_OMP, E_OMPMIN };
static void g_C05(Params& p, Cfg& c, Rng& r) { g_sched(c, r); g_job(p, c, r, anyof(C05E, r)); if (r.chance(.7)) p[TASKROWS] = r.range(1, 12); if (r.chance(.5)) p[N] = r.range(40, 400); }
static void b_C05(void*) { Rt r; setup(); lloyd_check(gp[ENG] != E_MB, false); nontrivial(); }
// C06 ----------------------------------------------------------------
GEN(g_mb, E_MB)
static void b_C06(void*) {
    Rt r; setup(); Init in = init_of(gp, X, GIV); Out o = job(gp, X, GIV); check_shape(o, gp, "minibatch");
    check_nearest(o, X, (int)gp[DIST], "minibatch");
    Ref rf = ref_mb(X, gp[N], gp[D], gp[K], in.cent, in.lab, gp[ITERS], tol_of(gp), (int)gp[DIST], gp[MB], gp[T]);
    cmp_ref(o, rf, "minibatch", false);
}
// C07/C08/C09/C10 ----------------------------------------------------
static void g_dist(Params& p, Cfg& c, Rng& r, i64 e) {
    g_sched(c, r); g_job(p, c, r, e); p[N] = r.chance(.3) ? r.range(4, 20) : r.range(10, 120); p[T] = r.range(1, 4); p[DIST] = r.chance(.75) ? D_EUCL : (i64)r.below(D_N); p[RANKS] = r.range(1, 6); p[SRC] = 1; c.nranks = (int)p[RANKS];
}
static void g_C07(Params& p, Cfg& c, Rng& r) { g_dist(p, c, r, E_DFULL); }
static void g_C08(Params& p, Cfg& c, Rng& r) { g_dist(p, c, r, E_DTASK); if (r.chance(.5)) { p[K] = r.range(3, 8); p[ITERS] = r.range(3, 12); p[N] = r.range(30, 150); } }
static void g_C09(Params& p, Cfg& c, Rng& r) { g_dist(p, c, r, r.below(2) ? E_DFULL : E_DTASK); }
static DistOut dist_run() { Un u; return run_dist(gp, X, GIV.data()); }
static rvec<char> stale_yml;      // the output of an earlier job that was there already; as long as it is unchanged nothing has been saved
// the output directory and the way its name is written on the command line
static const char *od_name = "out", *od_file = "out/cluster_t.yml", *od_said = "out";
static void od_pick() { switch ((gp[DSEED] / 64) % 8) { case 4: od_said = "./out"; break; case 5: od_said = "out/"; break; case 6: od_name = od_said = "res/job-1.old/out"; od_file = "res/job-1.old/out/cluster_t.yml"; break; case 7: od_name = od_said = "o"; od_file = "o/cluster_t.yml"; break; } }
static const char* yml_of(rvec<char>& b) { return fs_get(od_file, b) && (stale_yml.empty() || b != stale_yml) ? od_file : fs_get("cluster_t.yml", b) ? "cluster_t.yml" : nullptr; }
static void put_stale(u64 n, u64 d, u64 k) {     // a complete result of another job, longer than the coming one
    rstr s("k: "); char t[40]; auto num = [&](const char* f, double v) { snprintf(t, sizeof t, f, v); s += t; };
    n = n + 40; num("%.0f\n", (double)k); num("niter: %.0f\n", 777.); num("nsamples: %.0f\n", (double)n); num("dim: %.0f\n", (double)d); s += "size: [";
    for (u64 i = 0; i < k; i++) num(i ? ", %.0f" : "%.0f", i ? 0. : (double)n); s += "]\ncluster: ["; for (u64 i = 0; i < n; i++) num(i ? ", %.0f" : "%.0f", 0.);
    s += "]\ncentroids: ["; for (u64 i = 0; i < k * d; i++) num(i ? ", %.6f" : "%.6f", 123.25 + (double)i); s += "]\n";
    for (int i = 0; i < 200; i++) s += "# end of an earlier result\n";
    stale_yml.assign(s.begin(), s.end()); fs_mkdir(od_name); fs_put(od_file, s.data(), s.size());
}
static void cmp_yml(const rvec<char>& b, const Out& a, const char* sig, const char* e);
static void dist_check() {
    setup(); const char* e = ename[gp[ENG]];
    Init in = init_of(gp, X, GIV);
    DistOut d = dist_run();
    for (int i = 0; i < gp[RANKS]; i++) if (!d.ok[i]) bad("rank lost", "%s: rank %d did not finish", e, i);
    if (d.ok[0] != 2) bad("no result", "%s: the root returned no result", e);
    const Out& o = d.all[0]; check_shape(o, gp, e); check_means(o, X, e, scale_of(X));
    Ref rf = ref_lloyd(X, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), (int)gp[DIST]);
    cmp_ref(o, rf, e, true);
}
static void b_C07(void*) { Rt r; dist_check(); }
static void b_C09(void*) {
    Rt r; setup(); const char* e = ename[gp[ENG]]; int R = (int)gp[RANKS];
    DistOut d = dist_run();
    const MpiHist& h0 = mpi_hist(0);
    for (int i = 0; i < R; i++) {
        const MpiHist& h = mpi_hist(i);
        if (!d.ok[i]) bad("rank lost", "%s: rank %d did not finish", e, i);
        if (h.inits != 1 || h.finals != 1) bad("init/finalize", "%s: rank %d called initialise %d and finalise %d times", e, i, h.inits, h.finals);
        if (h.coll_hash.size() != h0.coll_hash.size()) bad("collective sequence", "%s: rank %d took part in %zu collectives, rank 0 in %zu", e, i, h.coll_hash.size(), h0.coll_hash.size());
        for (size_t j = 0; j < h.coll_hash.size(); j++) if (h.coll_hash[j] != h0.coll_hash[j]) bad("collective mismatch", "%s: collective %zu of rank %d does not match rank 0's", e, j, i);
        for (size_t j = 0; j < h.res_hash.size() && j < h0.res_hash.size(); j++) if (h.res_hash[j] != h0.res_hash[j]) bad("collective result", "%s: rank %d and rank 0 hold different results of collective %zu", e, i, j);
    }
    if (mpi_unreceived()) bad("unreceived", "%s: %d messages were never received", e, mpi_unreceived());
    if (R > 1) nontrivial();
}
static void b_C10(void*) {
    Rt r; setup(); const char* e = ename[gp[ENG]]; Init in = init_of(gp, X, GIV);
    Out a; { Quiet q; Un u; Params p1 = gp; DistOut d = run_dist(p1, X, GIV.data()); Rt r2; a = d.all[0]; }
    DistOut d = dist_run(); if (d.ok[0] != 2) bad("no result", "%s: the root returned no result", e);
    const Out& o = d.all[0]; check_shape(o, gp, e);
    // rows in order: recompute each row's label from the previous pass's centroids through the sequential model
    Ref rf = ref_lloyd(X, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), (int)gp[DIST]);
    if (!rf.amb) { cmp_ref(o, rf, e, false); for (size_t i = 0; i < o.lab.size(); i++) if (a.lab[i] != o.lab[i]) bad("message order", "%s: label of row %zu depends on message arrival (%u versus %u)", e, i, o.lab[i], a.lab[i]); } else probe(1);
    rvec<char> b; if (!yml_of(b)) bad("no output", "%s: output directory requested but no output file was written", e);
    cmp_yml(b, o, "saved result", e);
}
// C11 ----------------------------------------------------------------
static void accept_loud(int, const char*) { if (faults_fired()) nontrivial(); probe(5); verdict(V_OK, "loud", "failed loudly"); }
static void g_C11(Params& p, Cfg& c, Rng& r) {
    if (r.chance(.2)) { g_dist(p, c, r, r.below(2) ? E_DFULL : E_DTASK); p[RANKS] = r.range(1, 3); p[N] = r.range(6, 60); }
    else { g_sched(c, r); g_job(p, c, r, anyof(POOL, r)); p[N] = r.chance(.5) ? r.range(4, 20) : r.range(10, 80); p[SRC] = r.chance(.95); p[ITERS] = r.range(1, 4); }
    c.fault_cap = r.chance(.7) ? 1 : 2; p[FMODE] = 1;
    static const Kind ks[] = { K_OPEN, K_SEEK, K_READ, K_READ, K_CLOSE, K_TCREATE, K_NUMA, K_NEW };
    for (int i = 0; i < c.fault_cap; i++) { Kind k = ks[r.below(8)]; int mx = k == K_NEW ? (int)(1 << r.range(2, 9)) : k == K_NUMA ? (int)p[T] : (int)p[T] + 2; if (is_dist(p[ENG])) mx *= (int)p[RANKS]; c.fault_at[k] = (int)r.below(mx); }
}
static void b_C11(void*) {
    Rt r; setup(); Out a, b; char why[300]; bool got = false; const char* e = ename[gp[ENG]];
    { Quiet q; if (is_dist(gp[ENG])) { Un u; DistOut d = run_dist(gp, X, GIV.data()); Rt r2; a = d.all[0]; } else a = job(gp, X, GIV, -1, -1, 0); }
    on_loud = accept_loud;
    try {
        if (is_dist(gp[ENG])) { DistOut d = dist_run(); if (d.ok[0] == 2) { b = d.all[0]; got = true; } }
        else { b = job(gp, X, GIV); got = true; }
    } catch (std::exception& x) { g_rt = 1; probe(6); }
    if (faults_fired()) nontrivial();
    if (got && is_dist(gp[ENG]) && !same(b, a, why, sizeof why)) { // sums arrive in any order: equal up to rounding unless the model meets a tie
        Init in = init_of(gp, X, GIV); Ref rf = ref_lloyd(X, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), (int)gp[DIST]);
        check_shape(b, gp, e); if (!rf.amb) cmp_ref(b, rf, "silent wrong result", false);
    } else if (got && !same(b, a, why, sizeof why)) bad("silent wrong result", "%s: a result was delivered after a fault and it is not the result for the data in the file: %s", e, why);
}
// C12 ----------------------------------------------------------------
struct Yml { bool ok; Out o; rstr why; };
static Yml parse_yml(const rvec<char>& b, u64 n, u64 k, u64 d) {
    // lenient reader: numbers following each key, in order of appearance
    Yml y; y.ok = false; rstr s(b.begin(), b.end());
    auto at = [&](const char* key) { rstr nk = "\n"; nk += key; if (s.compare(0, strlen(key), key) == 0) return strlen(key); size_t i = s.find(nk); return i == rstr::npos ? i : i + nk.size(); };     // keys stand at the start of a line
    auto num = [&](const char* key, double& v) { size_t i = at(key); if (i == rstr::npos) return false; char* z; v = strtod(s.c_str() + i, &z); return z != s.c_str() + i; };
    auto list = [&](const char* key, rvec<double>& v, size_t want, size_t row) {     // row: numbers per bracket
        size_t i = at(key); if (i == rstr::npos) return false; const char* q = s.c_str() + i; const char* end = s.c_str() + s.size(); int commas = 0, open = 0;
        while (q < end && v.size() < want) {
            if ((*q >= '0' && *q <= '9') || *q == '-' || *q == '+' || *q == '.' || !strncmp(q, "nan", 3) || !strncmp(q, "inf", 3)) {
                char* z; double t = strtod(q, &z); if (z == q) { q++; continue; }
                if (commas != (v.empty() ? 0 : 1) || (open > 0) != (v.size() % row == 0)) return false;      // not the list it claims to be for any YAML reader
                v.push_back(t); q = z; commas = open = 0; }
            else if (*q >= 'a' && *q <= 'z') break;
            else { if (*q == ',') commas++; else if (*q == '[') open++; q++; } }
        if (v.size() != want) return false;
        bool closed = want == 0; while (q < end && !(*q >= 'a' && *q <= 'z')) { if (*q == ']') closed = true; else if (*q >= '0' && *q <= '9') return false; q++; }   // a number may have been cut short; more numbers than there should be
        return closed; };
    double v; rvec<double> a, c, m;
    if (!num("k:", v)) { y.why = "no k"; return y; } y.o.k = (u64)v;
    if (!num("niter:", v)) { y.why = "no niter"; return y; } y.o.iters = (u64)v;
    if (!num("nsamples:", v)) { y.why = "no nsamples"; return y; } y.o.nrow = (u64)v;
    if (!num("dim:", v)) { y.why = "no dim"; return y; } y.o.ncol = (u64)v;
    if (!list("size:", c, k, k)) { y.why = "sizes incomplete"; return y; }
    if (!list("cluster:", a, n, n)) { y.why = "labels incomplete"; return y; }
    if (!list("centroids:", m, k * d, d)) { y.why = "centroids incomplete"; return y; }
    for (double t : c) y.o.cnt.push_back((u64)t); for (double t : a) y.o.lab.push_back((u32)t); y.o.cent = m;
    y.ok = true; return y;
}
static void cmp_yml(const rvec<char>& b, const Out& a, const char* sig, const char* e) {
    Yml y = parse_yml(b, a.nrow, a.k, a.ncol);
    if (!y.ok) bad(sig, "%s: output file is incomplete (%s)", e, y.why.c_str());
    if (y.o.k != a.k || y.o.nrow != a.nrow || y.o.ncol != a.ncol) bad(sig, "%s: output file says %llu rows x %llu, k=%llu", e, (unsigned long long)y.o.nrow, (unsigned long long)y.o.ncol, (unsigned long long)y.o.k);
    for (size_t i = 0; i < a.lab.size(); i++) if (y.o.lab[i] != a.lab[i]) bad(sig, "%s: output file labels row %zu with %u, the result is %u", e, i, y.o.lab[i], a.lab[i]);
    for (size_t i = 0; i < a.cnt.size(); i++) if (y.o.cnt[i] != a.cnt[i]) bad(sig, "%s: output file reports size %llu for cluster %zu, the result is %llu", e, (unsigned long long)y.o.cnt[i], i, (unsigned long long)a.cnt[i]);
    for (size_t i = 0; i < a.cent.size(); i++) if (!near(y.o.cent[i], a.cent[i], 6e-6 * std::fabs(a.cent[i]) + 1e-8 * scale_of(X))) bad(sig, "%s: output file has centroid value %.9g, the result is %.9g", e, y.o.cent[i], a.cent[i]);
}
static Out c12_ref; static bool c12_done, c12_amb;
static void c12_end() {      // judge what is visible outside the processes
    rvec<char> b; if (!yml_of(b)) { probe(8); return; }
    Yml y = parse_yml(b, c12_ref.nrow, c12_ref.k, c12_ref.ncol);
    if (!y.ok) { probe(9); return; }        // no complete output
    if (c12_amb) { probe(1); return; }      // sums arrive in any order and the model meets a tie
    probe(10);
    cmp_yml(b, c12_ref, "wrong output after lost process", ename[gp[ENG]]);
}
static void c12_loud(int, const char*) { if (c12_done) { if (faults_fired()) nontrivial(); c12_end(); probe(5); verdict(V_OK, "loud", "failed loudly"); } }
static void c12_dead(const char*) { if (c12_done && faults_fired()) { nontrivial(); c12_end(); probe(7); verdict(V_OK, "hung", "survivors wait for the lost process"); } }
static void g_C12(Params& p, Cfg& c, Rng& r) {
    g_dist(p, c, r, r.below(2) ? E_DFULL : E_DTASK); p[N] = r.range(6, 60); p[RANKS] = r.range(2, 5); p[ITERS] = r.range(1, 5); p[T] = r.range(1, 3); c.nranks = (int)p[RANKS];
    c.fault_cap = 1; p[FMODE] = r.below(2); int calls = (int)(p[RANKS] * (4 + 3 * p[ITERS] + (p[INIT] == I_KMPP ? 3 * p[K] : 0)));
    if (p[FMODE] == 0) { if (r.chance(.5)) c.fault_p[K_CRASH] = .002; else { c.fault_p[K_CRASH] = 1e-9; c.fault_at[K_CRASH] = (int)r.below(40 * calls); } }
    else c.fault_at[K_MPIERR] = (int)r.below(calls);
    c.ncpus = 2;
}
static void b_C12(void*) {
    Rt r; setup(); const char* e = ename[gp[ENG]]; c12_done = false;
    Init in = init_of(gp, X, GIV); Ref rf = ref_lloyd(X, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), (int)gp[DIST]); c12_amb = rf.amb;
    { Quiet q; Un u; DistOut d = run_dist(gp, X, GIV.data(), -1, -1, "ref"); Rt r2; c12_ref = d.all[0]; }
    fs_remove("out/cluster_t.yml");
    on_loud = c12_loud; on_deadlock = c12_dead; c12_done = true;
    DistOut d = dist_run();
    if (faults_fired()) nontrivial();
    if (d.ok[0] == 2 && !c12_amb) cmp_ref(d.all[0], rf, "wrong output after lost process", false);
    c12_end();
    if (faults_fired() && gp[FMODE] == 1) // an error was reported to one process and everything still ran to completion: the report was ignored
        bad("error ignored", "%s: a communication call reported an error and every process carried on to a normal end", e);
}
// C13 ----------------------------------------------------------------
static void g_C13(Params& p, Cfg& c, Rng& r) {
    g_sched(c, r); g_job(p, c, r, r.chance(.5) ? E_FULL : E_PRUNE); p[FMODE] = r.below(4); p[SUB] = 0; p[SRC] = 1; p[T] = r.range(1, 3); p[ITERS] = r.range(1, 4); p[N] = r.chance(.3) ? r.range(300, 1500) : r.range(2, 120); if (p[N] > 200) p[ITERS] = 1;
    p[TASKROWS] = 8192; p[DIST] = D_EUCL;
    c.strategy = ST_DEFAULT; c.stall_p = 0; c.fault_cap = p[FMODE] == 0 ? 0 : r.range(1, 2);
    static const Kind ks[] = { K_WOPEN, K_WRITE, K_WRITE, K_WRITE, K_CLOSE, K_SYSTEM };
    for (int i = 0; i < c.fault_cap; i++) { Kind k = ks[r.below(6)]; c.fault_at[k] = k == K_WRITE ? (int)r.below(1 + p[N] * (2 + 1) / 400 + 2) : k != K_SYSTEM && r.chance(.3); }
    p[HIST] = r.below(3);     // 0 through the library, 1 knori program, 2 library into the working directory
}
static bool c13_armed; static Out c13_ref;
static bool c13_complete(char* why, size_t n) { // is a complete output visible?
    rvec<char> b; const char* f = nullptr;
    f = yml_of(b);
    if (!f) { snprintf(why, n, "no output file"); return false; }
    Yml y = parse_yml(b, c13_ref.nrow, c13_ref.k, c13_ref.ncol); if (!y.ok) { snprintf(why, n, "%s", y.why.c_str()); return false; }
    cmp_yml(b, c13_ref, "saved output wrong", "writer"); return true;
}
static void c13_loud(int kind, const char* w) { if (c13_armed && faults_fired()) { if (kind == 2 && strstr(w, "exit(0)")) { char why[200]; if (!c13_complete(why, sizeof why)) bad("silent incomplete output", "the program exits with success but the output is incomplete: %s", why); } probe(5); verdict(V_OK, "loud", "failed loudly"); } }
static void b_C13(void*) {
    Rt r; setup(); od_pick(); char why[200]; c13_armed = false;
    { Quiet q; c13_ref = job(gp, X, GIV, -1, -1, 1); }
    if (gp[DSEED] & 16) put_stale((u64)gp[N], (u64)gp[D], (u64)gp[K]);     // the result of an earlier job is in the way
    on_loud = c13_loud; c13_armed = true; int rc = 0; bool threw = false;
    if (faults_fired()) verdict(V_INFRA, "early fault", "fault before the write");
    if (gp[HIST] == 1) {
        char n[8][32]; snprintf(n[0], 32, "%lld", gp[N]); snprintf(n[1], 32, "%lld", gp[D]); snprintf(n[2], 32, "%lld", gp[K]); snprintf(n[3], 32, "%lld", gp[T]); snprintf(n[4], 32, "%lld", gp[ITERS]); snprintf(n[5], 32, "%.17g", tol_of(gp));
        fs_put("cent.bin", GIV.data(), GIV.size() * 8);
        rvec<const char*> av = { "knori", "data0.bin", n[0], n[1], n[2], "-T", n[3], "-i", n[4], "-t", iname[gp[INIT]], "-o", od_said, "-l", n[5] };
        if (gp[INIT] == I_NONE) { av.push_back("-C"); av.push_back("cent.bin"); }
        if (gp[ENG] == E_FULL) av.push_back("-P");
        try { Un u; rc = run_main_prog((int)gp[ENG], (int)av.size(), av.data()); } catch (std::exception& x) { g_rt = 1; threw = true; }
    } else {
        Out& a = c13_ref;
        try { Un u; kbase::cluster_t c; c.nrow = a.nrow; c.ncol = a.ncol; c.iters = a.iters; c.k = a.k; c.assignments.assign(a.lab.begin(), a.lab.end()); c.assignment_count.assign(a.cnt.begin(), a.cnt.end()); c.centroids.assign(a.cent.begin(), a.cent.end()); c.write(od_said); }
        catch (std::exception& x) { g_rt = 1; threw = true; }
    }
    nontrivial();
    if (threw) { probe(6); if (!faults_fired()) bad("write failed", "writing to a healthy disk failed"); return; }
    if (rc != 0) { probe(6); if (!faults_fired()) bad("write failed", "the program failed on a healthy disk"); return; }
    if (!c13_complete(why, sizeof why)) bad("silent incomplete output", "success was reported but the saved output is incomplete: %s", why);
}
// C14/C23 --------------------------------------------------------------
static void lifecycle(const Params& p, const rvec<double>& x, const rvec<double>& giv, i64 hist) {
    // everything here happens in simulated code
    const char* file = nullptr; { Rt r; if (p[SRC] == 1) { fs_put("data0.bin", x.data(), x.size() * 8); file = "data0.bin"; } }
    double* xd = new double[x.size()]; double* c = new double[p[K] * p[D] + 1]; { Rt r; memcpy(xd, x.data(), x.size() * 8); for (i64 i = 0; i < p[K] * p[D]; i++) c[i] = giv[i]; }
    if (is_dist(p[ENG])) { run_dist(p, x, c); if (hist & 1) run_dist(p, x, c); }
    else if (is_omp(p[ENG]) || p[ENG] == E_KMPP) { run_engine(p, xd, c, -1, -1, p[ENG] == E_KMPP ? file : nullptr); if (hist & 1) run_engine(p, xd, c, -1, -1, nullptr); }
    else {
        bool rerun = p[ENG] == E_FULL && !file;      // run() twice on one object: only the unpruned engine starts over
        switch (hist) {
        case 0: { auto q = make_engine(p, c, -1, -1, file); break; }
        case 1: case 2: { auto q = make_engine(p, c, -1, -1, file); run_made(p, q, file ? nullptr : xd); break; }
        case 3: { auto q = make_engine(p, c, -1, -1, file); run_made(p, q, file ? nullptr : xd); if (rerun) run_made(p, q, xd); break; }
        case 4: { auto q = make_engine(p, c, -1, -1, file); auto s = make_engine(p, c, -1, -1, file); run_made(p, s, file ? nullptr : xd); q.reset(); s.reset(); break; }
        case 5: { auto q = make_engine(p, c, -1, -1, file); auto s = make_engine(p, c, -1, -1, file); run_made(p, q, file ? nullptr : xd); s.reset(); break; }
        case 6: { for (int i = 0; i < 3; i++) { auto q = make_engine(p, c, -1, -1, file); } break; }
        default: { for (int i = 0; i < 2; i++) { auto q = make_engine(p, c, -1, -1, file); run_made(p, q, file ? nullptr : xd); } break; }
        }
    }
    delete[] xd; delete[] c;
}
static void g_life(Params& p, Cfg& c, Rng& r) { if (r.chance(.15)) { g_dist(p, c, r, r.below(2) ? E_DFULL : E_DTASK); p[RANKS] = r.range(1, 4); p[N] = r.range(6, 60); } else { g_poolomp(p, c, r); if (can_redistribute(p[ENG]) && r.chance(.25)) p[SRC] = 2; } }
static void b_C14(void*) {
    Rt r; setup(); { Un u; lifecycle(gp, X, GIV, gp[HIST]); }
    Res s = resources();
    if (s.running) bad("threads left running", "%s: %d worker threads still run after the job was destroyed", ename[gp[ENG]], s.running);
    if (s.unjoined) bad("threads not joined", "%s: %d worker threads were never joined", ename[gp[ENG]], s.unjoined);
    nontrivial();
}
static void b_C23(void*) {
    Rt r; setup(); { Quiet q; Un u; lifecycle(gp, X, GIV, 1); }
    Res s0 = resources(); heap_mark();
    { Un u; lifecycle(gp, X, GIV, gp[HIST]); }
    Res s = resources(); char b[900]; const char* e = ename[gp[ENG]];
    if (s.open_files) verdict(V_RESOURCE, "open files", "%s: %d files still open after the job was destroyed", e, s.open_files);
    if (s.unjoined) verdict(V_RESOURCE, "threads not joined", "%s: %d threads never joined", e, s.unjoined);
    if (s.live_numa_blocks) verdict(V_RESOURCE, "node-local memory", "%s: %d node-local blocks (%llu bytes) never released", e, s.live_numa_blocks, (unsigned long long)s.live_numa_bytes);
    int n = heap_live_report(b, sizeof b);
    if (n) { char sg[200]; const char* f = strstr(b, "from "); snprintf(sg, sizeof sg, "leak %.150s", f ? f + 5 : ""); if (char* q = strchr(sg, ';')) *q = 0; verdict(V_RESOURCE, sg, "%s: %d heap blocks never released: %s", e, n, b); }
    (void)s0; nontrivial();
}
// C15-C17 --------------------------------------------------------------
static void g_h(Params& p, Cfg& c, Rng& r, i64 e) { g_sched(c, r); g_job(p, c, r, e); if (r.chance(.5)) { p[K] = r.range(2, 24); p[N] = r.range(20, 250); p[DKIND] = p[DKIND] / 16 * 16 + (r.chance(.5) ? 1 : 5); } if (p[N] > 150 && p[ITERS] > 5) p[ITERS] = 5; if (r.chance(.3)) p[MINSZ] = r.range(1, 12); }
static void g_hc(Params& p, Cfg& c, Rng& r) { g_h(p, c, r, E_HCLUST); }
static void g_xm(Params& p, Cfg& c, Rng& r) { g_h(p, c, r, E_XMEANS); }
static void g_gm(Params& p, Cfg& c, Rng& r) { g_h(p, c, r, E_GMEANS); }
static void b_hier(void*) {
    Rt r; setup(); const char* e = ename[gp[ENG]]; char why[300]; Out a, b;
    { Quiet q; a = job(gp, X, GIV); }
    b = job(gp, X, GIV);
    check_shape(a, gp, e, true, gp[K]); check_shape(b, gp, e, true, gp[K]);
    check_means(b, X, e, scale_of(X));
    canon(a); canon(b); if (b.k > 1) nontrivial();
    char sg[80]; snprintf(sg, sizeof sg, "%s schedule dependence", e);
    if (!same(b, a, why, sizeof why)) bad(sg, "%s: the partition depends on the schedule: %s", e, why);
    Ref f = ref_hier(X, gp[N], gp[D], gp[K], gp[ITERS], tol_of(gp), (int)gp[DIST], gp[MINSZ], gp[ENG] == E_HCLUST ? 0 : gp[ENG] == E_XMEANS ? 1 : 2, (int)gp[STRICT], gp[INIT] == I_NONE ? GIV.data() : nullptr);
    if (f.amb) { probe(1); return; }
    probe(2);
    size_t df = 0, first = 0; for (size_t i = 0; i < f.o.lab.size(); i++) if (b.lab[i] != f.o.lab[i]) { if (!df) first = i; df++; }
    snprintf(sg, sizeof sg, "%s partition", e);
    if (b.k != f.o.k) bad(sg, "%s: %llu clusters, the sequential definition gives %llu", e, (unsigned long long)b.k, (unsigned long long)f.o.k);
    if (df) bad(sg, "%s: the partition differs from the sequential definition: %zu of %zu rows are in another cluster, the first is row %zu", e, df, f.o.lab.size(), first);
    snprintf(sg, sizeof sg, "%s centroids", e);
    for (size_t i = 0; i < f.o.cent.size(); i++) if (!near(b.cent[i], f.o.cent[i], 1e-7 * f.scale)) bad(sg, "%s: centroid value %zu is %.15g, the sequential definition gives %.15g", e, i, b.cent[i], f.o.cent[i]);
}
// C18 ------------------------------------------------------------------
GEN(g_med, E_MEDOID)
static void b_C18(void*) {
    Rt r; setup(); Init in = init_of(gp, X, GIV); Out o = job(gp, X, GIV);
    check_shape(o, gp, "medoid"); is_rows(o.cent, X, gp[D], "medoid"); check_nearest(o, X, (int)gp[DIST], "medoid");
    Ref rf = ref_medoid(X, gp[N], gp[D], gp[K], gp[ITERS], tol_of(gp), (int)gp[DIST], (double)gp[SAMPLE] / 10, gp[T], in.cent);
    cmp_ref(o, rf, "medoid", true);
}
// C19 ------------------------------------------------------------------
GEN(g_sph, E_SPH)
static void b_C19(void*) {
    Rt r; setup(); Init in = init_of(gp, X, GIV);
    rvec<double> y = X; ref_normalise(y, gp[N], gp[D]);
    Out o = job(gp, X, GIV); check_shape(o, gp, "spherical");
    Ref rf = ref_lloyd(y, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), D_COS);
    check_means(o, y, "spherical", 1);
    rf.scale = 1; cmp_ref(o, rf, "spherical", true);
}
// C20 ------------------------------------------------------------------
GEN(g_fcm, E_FCM)
static void b_C20(void*) {
    Rt r; setup(); Init in = init_of(gp, X, GIV); Out o = job(gp, X, GIV); check_shape(o, gp, "fcm");
    RefFcm f = ref_fcm(X, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), (int)gp[DIST], gp[FUZZ]);
    if (f.amb) { probe(1); return; }
    nontrivial(); double sc = scale_of(X);
    if (o.iters != f.o.iters) bad("fcm iterations", "fcm: reports %llu passes, the sequential algorithm makes %llu", (unsigned long long)o.iters, (unsigned long long)f.o.iters);
    for (size_t i = 0; i < o.cent.size(); i++) if (!near(o.cent[i], f.o.cent[i], 1e-6 * sc)) bad("fcm centroids", "fcm: centre value %zu is %.15g, expected %.15g", i, o.cent[i], f.o.cent[i]);
    for (size_t i = 0; i < o.lab.size(); i++) { double best = 0; for (i64 c = 0; c < gp[K]; c++) best = std::max(best, f.um[i * gp[K] + c]); if (f.um[i * gp[K] + o.lab[i]] < best * (1 - 1e-6)) bad("fcm labels", "fcm: row %zu is labelled %u whose membership %.9g is below the greatest %.9g", i, o.lab[i], f.um[i * gp[K] + o.lab[i]], best); }
}
// C21 ------------------------------------------------------------------
static void g_C21(Params& p, Cfg& c, Rng& r) { g_sched(c, r); g_job(p, c, r, r.below(2) ? E_OMP : E_OMPMIN); p[SRC] = 0; if (r.chance(.5)) { p[K] = r.range(3, 8); p[ITERS] = r.range(3, 12); p[N] = r.range(20, 200); } }
static void b_C21(void*) { Rt r; setup(); lloyd_check(true, true); }
// C22 ------------------------------------------------------------------
GEN(g_kmpp, E_KMPP)
static void b_C22(void*) {
    Rt r; setup(); char why[300]; Out a, b, prev; const char* e = "multistart";
    Params p = gp; i64 ns = gp[NSTART];
    auto go = [&](i64 s) { Params q = p; q[NSTART] = s; gp = q; Out o = job(q, X, GIV); gp = p; return o; };
    { Quiet q; a = go(ns); if (ns > 1) prev = go(ns - 1); }
    b = go(ns);
    check_shape(b, p, e); is_rows(b.cent, X, p[D], e); check_nearest(b, X, (int)p[DIST], e);
    if (!same(b, a, why, sizeof why)) bad("multistart schedule dependence", "multistart: same job, other schedule, other result: %s", why);
    double en = 0; for (i64 i = 0; i < p[N]; i++) en += ref_dist(&X[i * p[D]], &b.cent[b.lab[i] * p[D]], p[D], (int)p[DIST]);
    double sc = scale_of(X), t = 1e-9 * (en + sc * (double)p[N]) * (p[DIST] == D_SQ ? sc : 1) + (p[DIST] == D_COS ? 1e-7 * (double)p[N] : 0);
    if (!near(en, b.energy, t)) bad("multistart energy", "multistart: reports energy %.15g but the returned centres and labels have %.15g", b.energy, en);
    if (b.best < 1 || b.best > (u64)ns) bad("multistart best start", "multistart: best start %llu of %lld", (unsigned long long)b.best, ns);
    if (ns > 1) {
        if (b.energy > prev.energy + t) bad("multistart worse", "multistart: %lld starts give energy %.15g, %lld starts give %.15g", ns, b.energy, ns - 1, prev.energy);
        if (b.best != (u64)ns) { Out x = b; if (!same(x, prev, why, sizeof why)) bad("multistart best start", "multistart: start %llu was best of %lld yet differs from the best of %lld: %s", (unsigned long long)b.best, ns, ns - 1, why); }
        else if (!(b.energy < prev.energy)) bad("multistart best start", "multistart: start %lld reported best without lower energy", ns);
    }
    nontrivial();
}
// C24 ------------------------------------------------------------------
static Params cj[4]; static rvec<double> cx[4], cg[4]; static Out co[4];
static void client(void* a) { int i = (int)(size_t)a; Rt r; co[i] = job(cj[i], cx[i], cg[i]); }
static void b_C24(void*) {
    Rt r; int J = (int)gp[JOBS]; Out solo[4]; char why[300];
    for (int i = 0; i < J; i++) {
        Rng q((u64)gp[DSEED] * 17 + i + (u64)gp[ENG] * 3); cj[i] = gp; Cfg c;
        if (i) { g_job(cj[i], c, q, gp[HIST] & 1 || q.chance(.7) ? anyof(POOL, q) : q.below(2) ? E_OMP : E_OMPMIN); cj[i][N] = q.range(2, 60); cj[i][T] = q.range(1, 4); cj[i][ITERS] = q.range(1, 5); cj[i][NODES] = gp[NODES]; if (q.chance(is_omp(gp[ENG]) ? .5 : .3)) { cj[i] = gp; cj[i][DSEED]++; if (is_omp(gp[ENG])) { if (q.chance(.3)) cj[i][ENG] = E_OMP + E_OMPMIN - gp[ENG]; cj[i][TOL] = q.below(7); cj[i][ITERS] = q.range(1, 8); } } }
        cj[i][TASKROWS] = gp[TASKROWS];    // one knob for the whole process
        clamp("C24", cj[i], c); cj[i][SUB] = i; cx[i] = data_v(cj[i]); cg[i] = centers_v(cj[i], cx[i]);
    }
    { Quiet q; for (int i = 0; i < J; i++) solo[i] = job(cj[i], cx[i], cg[i]); }
    if (gp[HIST] & 1) { int f[4]; { for (int i = 0; i < J; i++) f[i] = spawn(client, (void*)(size_t)i); } for (int i = 0; i < J; i++) { join(f[i]); } }
    else for (int i = 0; i < J; i++) co[i] = job(cj[i], cx[i], cg[i]);
    nontrivial();
    for (int i = 0; i < J; i++) if (is_omp(cj[i][ENG])) {       // the OpenMP engines add in the order of their schedule: equal up to rounding unless a tie decides
        Init in = init_of(cj[i], cx[i], cg[i]); Ref rf = ref_lloyd(cx[i], cj[i][N], cj[i][D], cj[i][K], in.cent, cj[i][ITERS], tol_of(cj[i]), (int)cj[i][DIST]); if (rf.amb) { probe(1); continue; }
        double sc = scale_of(cx[i]); bool ok = co[i].iters == solo[i].iters && co[i].lab == solo[i].lab && co[i].cnt == solo[i].cnt && co[i].cent.size() == solo[i].cent.size(); for (size_t z = 0; ok && z < co[i].cent.size(); z++) ok = near(co[i].cent[z], solo[i].cent[z], 1e-6 * sc);
        if (!ok) { char sg[100]; snprintf(sg, sizeof sg, "%s job interference", ename[cj[i][ENG]]); bad(sg, "%s job (after other jobs) differs from the same job alone: %llu passes instead of %llu", ename[cj[i][ENG]], (unsigned long long)co[i].iters, (unsigned long long)solo[i].iters); }
    } else if (!same(co[i], solo[i], why, sizeof why)) { char sg[100]; snprintf(sg, sizeof sg, "%s job interference", ename[cj[i][ENG]]); bad(sg, "%s job (%s other jobs) differs from the same job alone: %s", ename[cj[i][ENG]], gp[HIST] & 1 ? "concurrent with" : "after", why); }
}
static void g_C24(Params& p, Cfg& c, Rng& r) { g_sched(c, r); g_job(p, c, r, r.chance(.85) ? anyof(POOL, r) : r.below(2) ? E_OMP : E_OMPMIN); p[N] = r.range(2, 80); p[T] = r.range(1, 4); p[ITERS] = r.range(1, is_omp(p[ENG]) ? 12 : 6); if (is_omp(p[ENG])) { p[HIST] = 0; p[SRC] = 0; if (r.chance(.5)) p[TOL] = r.below(7); } }     // the OpenMP engines keep their state in globals: one job at a time
// C25 ------------------------------------------------------------------
static void g_C25(Params& p, Cfg& c, Rng& r) { if (r.chance(.15)) { g_dist(p, c, r, r.below(2) ? E_DFULL : E_DTASK); p[RANKS] = r.range(1, 2); p[T] = r.range(2, 4); } else { g_sched(c, r); g_job(p, c, r, anyof(POOL_OMP, r)); p[T] = r.range(2, 6); } p[N] = r.chance(.5) ? r.range(4, 30) : r.range(10, 120); p[ITERS] = r.range(1, 6); c.race = true; if (c.strategy == ST_PCT && r.chance(.5)) c.strategy = ST_DEFAULT; }
static void b_C25(void*) { Rt r; setup(); if (is_dist(gp[ENG])) dist_run(); else job(gp, X, GIV); if (gp[T] > 1) nontrivial(); }
// C26 ------------------------------------------------------------------
struct FA { kbase::thd_safe_bool_vector::ptr v; int id, n, T, ops; u64 seed; };
static void flag_worker(void* a) {
    FA* f = (FA*)a; rvec<int> mine; rvec<char> model; { Rt r; for (int i = f->id; i < f->n; i += f->T) { mine.push_back(i); model.push_back(0); } }
    Rng q(f->seed);
    for (int o = 0; o < f->ops; o++) {
        if (mine.empty()) break;
        size_t j; int op; { Rt r; j = q.below(mine.size()); op = (int)q.below(4); }
        bool val = o & 1;
        if (op == 0) { f->v->set(mine[j], val); Rt r; model[j] = val; }
        else if (op == 1) { f->v->check_set(mine[j], val); Rt r; model[j] = val; }
        else { bool g_ = f->v->get(mine[j]); Rt r; if (g_ != (bool)model[j]) bad("flag lost", "flag %d reads %d although its only writer stored %d", mine[j], (int)g_, (int)model[j]); }
    }
    Rt r; for (size_t j = 0; j < mine.size(); j++) { bool g_; { Un u; g_ = f->v->get(mine[j]); } if (g_ != (bool)model[j]) bad("flag lost", "flag %d ends as %d although its only writer stored %d", mine[j], (int)g_, (int)model[j]); }
}
static void g_C26(Params& p, Cfg& c, Rng& r) { g_sched(c, r); g_job(p, c, r, E_FULL); p[N] = r.chance(.5) ? r.range(1, 20) : r.range(10, 200); p[T] = r.range(1, 6); p[ITERS] = r.range(5, 80); p[HIST] = r.below(3); }
static void b_C26(void*) {
    Rt r; int n = (int)gp[N], T_ = (int)gp[T]; FA a[16]; int f[16]; if (T_ > 12) T_ = 12;
    kbase::thd_safe_bool_vector::ptr v; { Un u; v = kbase::thd_safe_bool_vector::create(n, false); }
    { size_t sz; { Un u; sz = v->size(); } if (sz != (size_t)n) bad("flag size", "created for %d flags, size() is %zu", n, sz); }
    for (int i = 0; i < T_; i++) { new (&a[i]) FA(); { Un u; a[i].v = v; } a[i].id = i; a[i].n = n; a[i].T = T_; a[i].ops = (int)gp[ITERS]; a[i].seed = (u64)gp[DSEED] + i; f[i] = spawn(flag_worker, &a[i]); }
    for (int i = 0; i < T_; i++) join(f[i]);
    // growth on demand, one thread: earlier flags stay, new ones read as stored
    if (gp[HIST]) {
        rvec<char> m(n); for (int i = 0; i < n; i++) { Un u; m[i] = v->get(i); }
        Rng q((u64)gp[DSEED] ^ 99);
        for (int s = 0; s < 12; s++) {
            size_t sz = m.size(), ix = gp[HIST] == 1 ? sz + q.below(3) : (q.chance(.5) ? sz : q.below(sz + 20)); bool val = q.chance(.7);
            { Un u; v->check_set((unsigned)ix, val); }
            if (ix >= m.size()) { size_t now; { Un u; now = v->size(); } if (now < ix + 1) bad("flag growth", "setting flag %zu left size at %zu", ix, now); m.resize(ix + 1, 0); }     // a flag nobody set is not set
            m[ix] = val;
            for (size_t i = 0; i < m.size(); i++) { bool g_; { Un u; g_ = v->get((unsigned)i); } if (g_ != (bool)m[i]) bad("flag growth", "after growing to hold flag %zu, flag %zu reads %d instead of %d", ix, i, (int)g_, (int)m[i]); }
        }
    }
    for (int i = 0; i < T_; i++) { Un u; a[i].v.reset(); }
    nontrivial();
    { Un u; v.reset(); }
}
// C27 ------------------------------------------------------------------
// Whole programs: command line, data files and output directory of each shipped program, judged against the library.
extern "C" int omp_get_max_threads(void);
static const i64 PROGS[] = { E_FULL, E_PRUNE, E_OMP, E_OMPMIN, E_MB, E_SPH, E_FCM, E_MEDOID, E_HCLUST, E_XMEANS, E_GMEANS, E_KMPP, E_DFULL, E_DTASK };
static const char* const prog_of[E_N] = { "knori -P", "knori", "mb_knori", "skmeans", "fcm", "medoids", "hmeans", "xmeans", "gmeans", "knori -O -P", "knori -O", "kmeanspp", "knord -P", "knord" };
enum { OM_L = 1, OM_D = 2, OM_T = 4, OM_THR = 8, OM_OUT = 16, OM_SHUF = 32, OM_NAMED = 64, OM_LONG = 128, OM_X = 256, OM_STALE = 512 };
static void g_C27(Params& p, Cfg& c, Rng& r) {
    i64 e = anyof(PROGS, r);
    if (is_dist_eng(e)) { g_dist(p, c, r, e); p[N] = r.range(6, 60); p[RANKS] = r.range(1, 4); } else { g_sched(c, r); g_job(p, c, r, e); if (p[N] > 100) p[N] = r.range(10, 100); p[RANKS] = 1; }
    p[SRC] = 1; p[T] = r.range(1, 4); p[ITERS] = r.range(1, 6); p[HIST] = 0; p[TASKROWS] = r.chance(.5) ? 8192 : r.range(1, 20);
    for (int b = 0; b < 10; b++) if (r.chance(b == 4 ? .05 : b < 4 || b >= 8 ? .2 : .4)) p[HIST] |= 1 << b;
    double u = r.real(); p[FMODE] = u < .4 ? 0 : u < .85 ? 1 : (i64)r.range(2, 4);
    if (p[FMODE] == 1) {
        c.fault_cap = r.chance(.75) ? 1 : 2;
        static const Kind ks[] = { K_OPEN, K_OPEN, K_SEEK, K_READ, K_READ, K_CLOSE, K_CLOSE, K_TCREATE, K_NUMA, K_WOPEN, K_WRITE, K_SYSTEM };
        for (int i = 0; i < c.fault_cap; i++) { Kind k = ks[r.below(12)]; int mx = k == K_WRITE || k == K_WOPEN || k == K_SYSTEM ? 2 : (int)p[T] + 6; if (is_dist_eng(e) && mx > 2) mx *= (int)p[RANKS]; c.fault_at[k] = (int)r.below(mx); }
    }
}
static Out c27_ref; static bool c27_armed, c27_amb; static Made c27_made; static Params c27_p;
// C36: what was there before the job is there after it
static bool c36; static rmap<rstr, rvec<char>> c36_before; static bool c36_out; static const char* c36_who; static const double* c36_x; static const double* c36_c; static bool c36_xchk, c36_cchk;
static void c36_snap(bool out) { rvec<rstr> l; fs_list(l); c36_before.clear(); for (auto& n : l) fs_get(n.c_str(), c36_before[n]); c36_out = out; }
static void c36_judge() {
    rvec<rstr> l; fs_list(l); bool flt = faults_fired() > 0; nontrivial();
    auto own = [&](const rstr& n) { return c36_out && (n == od_file || n == "cluster_t.yml"); };
    for (auto& b : c36_before) if (!own(b.first)) {
        rvec<char> now; if (!fs_get(b.first.c_str(), now)) bad("file removed", "%s: the file %s was there before the job and is gone", c36_who, b.first.c_str());
        if (flt && now.size() < b.second.size()) { if (!now.empty() && memcmp(now.data(), b.second.data(), now.size())) bad("file changed", "%s: the contents of %s changed", c36_who, b.first.c_str()); }   // a fault cuts files short
        else if (now != b.second) bad("file changed", "%s: the contents of %s changed (%zu bytes before, %zu after)", c36_who, b.first.c_str(), b.second.size(), now.size());
    }
    for (auto& n : l) if (!own(n) && !c36_before.count(n) && !(flt && c36_out)) bad("stray file", "%s: the job left a file named %s", c36_who, n.c_str());
    if (c36_xchk && memcmp(c36_x, X.data(), X.size() * 8)) bad("data changed", "%s: the caller's data was modified", c36_who);
    if (c36_cchk && memcmp(c36_c, GIV.data(), GIV.size() * 8)) bad("centres changed", "%s: the caller's initial centres were modified", c36_who);
}
static void c36_loud(int, const char*) { c36_judge(); probe(5); verdict(V_OK, "loud", "judged after a loud end"); }
static bool c27_may_fail() { return faults_fired() || gp[FMODE] >= 2; }
static const char* const fm_what[] = { "", "", "the data file is of the wrong size", "the data file is missing", "the centroid file is too short", "the distance metric is unknown", "the kind of initialisation is unknown", "an option is unknown", "an option lacks its value", "the centroid file is missing", "initial centres are announced but not given", "the number of rows does not match the data file", "arguments are missing", "an option's number is not a number", "one of the four required arguments is missing" };
static bool c27_output(char* why, size_t n) {        // is a complete output visible?  A complete one must be right
    rvec<char> b; const char* e = prog_of[gp[ENG]];
    if (!yml_of(b)) { snprintf(why, n, "no output file"); return false; }
    Yml y = parse_yml(b, c27_ref.nrow, c27_ref.k, c27_ref.ncol);
    if (!y.ok) { snprintf(why, n, "%s", y.why.c_str()); return false; }
    if (gp[FMODE] >= 2) bad("output from bad input", "%s: %s, yet a complete output was saved", e, fm_what[gp[FMODE]]);
    if (!c27_amb) { char sg[80]; snprintf(sg, sizeof sg, "%s wrong output", e); cmp_yml(b, c27_ref, sg, e); if (y.o.iters != c27_ref.iters && gp[ENG] != E_KMPP && gp[ENG] != E_MB) bad(sg, "%s: output file says %llu passes, the run makes %llu", e, (unsigned long long)y.o.iters, (unsigned long long)c27_ref.iters); }
    return true;
}
static void c27_success() {
    if (c36) { c36_judge(); return; }
    if (gp[FMODE] < 2 && !faults_fired()) { Made m = made(); const char* e = prog_of[gp[ENG]];
        if (m.threads != c27_made.threads) bad("number of threads", "%s: %d worker threads were started, the arguments ask for what makes the library start %d", e, m.threads, c27_made.threads);
        if (is_omp(gp[ENG]) && m.team != c27_made.team) bad("number of threads", "%s: the largest team has %d threads, the arguments ask for what makes the library use %d", e, m.team, c27_made.team); }
    if (gp[FMODE] == 12) { rvec<char> b; if (yml_of(b)) bad("output from bad input", "%s: %s, yet an output file was written", prog_of[gp[ENG]], fm_what[12]); return; }   // the programs print their help and report success
    char why[200]; rvec<char> b; const char* e = prog_of[gp[ENG]];
    if (gp[HIST] & OM_OUT) { if (yml_of(b)) bad("unasked output", "%s: no output directory was given, yet an output file was written", e); if (gp[FMODE] >= 2) bad("success on bad input", "%s: %s, yet the program reports success", e, fm_what[gp[FMODE]]); return; }
    if (!c27_output(why, sizeof why)) { if (gp[FMODE] >= 2) bad("success on bad input", "%s: %s, yet the program reports success", e, fm_what[gp[FMODE]]); bad("silent incomplete output", "%s: the program reports success but the saved output is incomplete: %s", e, why); }
}
static void c27_loud(int kind, const char* w) {
    if (!c27_armed) return; nontrivial(); if (c36) c36_loud(kind, w);
    if (kind == 2 && strstr(w, "exit(0)")) { c27_success(); probe(10); verdict(V_OK, "exit", "exit with success"); }
    if (!c27_may_fail()) return;          // a failure without a reason: the default verdict
    char why[200]; c27_output(why, sizeof why); probe(5); verdict(V_OK, "loud", "failed loudly");
}
static void c27_dead(const char*) { if (c27_armed && is_dist_eng(gp[ENG]) && mpi_crashed_count()) { if (c36) c36_loud(0, ""); char why[200]; c27_output(why, sizeof why); probe(7); verdict(V_OK, "hung", "survivors wait for the lost process"); } }
static void b_C27(void*) {
    Rt r; setup(); od_pick(); c27_armed = false; i64 e = gp[ENG], om = gp[HIST]; const char* en = prog_of[e]; bool dist = is_dist_eng(e), hier = is_h(e);
    bool has_t = e == E_FULL || e == E_PRUNE || e == E_MB || is_omp(e) || dist, has_c = e != E_MEDOID && e != E_KMPP, has_l = e != E_KMPP;
    if (!has_t && gp[INIT] != I_NONE && e != E_KMPP) gp[INIT] = I_FORGY;
    if (hier && (om & OM_X)) gp[MINSZ] = 2; if (e == E_GMEANS && (om & OM_X)) gp[STRICT] = 4; if (e == E_FCM && (om & OM_X)) gp[FUZZ] = 2; if (e == E_MEDOID && (om & OM_X)) gp[SAMPLE] = 2; if (e == E_KMPP && (om & OM_X)) gp[NSTART] = 10; if (e == E_MB && (om & OM_X)) gp[MB] = 100;
    if (om & OM_L) gp[TOL] = e == E_FCM || hier ? 6 : 0;
    if ((om & OM_D) && e != E_SPH) gp[DIST] = e == E_FCM ? D_SQ : e == E_MEDOID ? D_TAXI : D_EUCL;
    if ((om & OM_T) && has_t && gp[INIT] != I_NONE) gp[INIT] = I_KMPP;
    if (om & OM_THR) { Un u; int t = omp_get_max_threads(); Rt r2; gp[T] = t; }
    if (e == E_MB && gp[MB] > gp[N]) gp[MB] = gp[N] , om &= ~OM_X;
    // the reference: the library, fault-free, from memory
    c27_amb = false;
    if (dist || is_omp(e)) { Init in = init_of(gp, X, GIV); Ref rf = ref_lloyd(X, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), (int)gp[DIST]); c27_amb = rf.amb; }
    made_reset();
    { Quiet q; if (dist) { Un u; DistOut d = run_dist(gp, X, GIV.data(), -1, -1, "ref"); Rt r2; c27_ref = d.all[0]; } else c27_ref = job(gp, X, GIV, -1, -1, 0); }
    c27_made = made(); made_reset();
    fs_remove(od_file); fs_remove("cluster_t.yml");
    // the command line
    static char num[24][32]; int nn = 0; auto f = [&](const char* fmt, auto v) { char* b = num[nn++]; snprintf(b, 32, fmt, v); return (const char*)b; };
    rvec<const char*> av; rvec<rvec<const char*>> opts;
    auto opt = [&](const char* s, const char* l, const char* v) { rvec<const char*> o; bool lg = (om & OM_LONG) && !dist && l; o.push_back(lg ? l : s); if (v) o.push_back(v); opts.push_back(o); };
    rstr pname(en); pname = pname.substr(0, pname.find(' ')); av.push_back(pname.c_str());
    const char* pos[4] = { "prog.bin", f("%lld", gp[N]), f("%lld", gp[D]), f("%lld", gp[K]) };
    bool named = !dist && ((om & OM_NAMED) || e == E_MEDOID);
    if (named) { opt("-f", "--datafn", pos[0]); opt("-n", "--nsamples", pos[1]); opt("-m", "--dim", pos[2]); opt("-k", hier ? "--kmax" : "--nclust", pos[3]); }
    else for (int i = 0; i < 4; i++) av.push_back(pos[i]);
    if (!(om & OM_THR)) opt("-T", "--num_thread", f("%lld", gp[T]));
    if (e != E_KMPP) opt("-i", "--iters", f("%lld", gp[ITERS]));
    if (has_t && gp[INIT] != I_NONE && !(om & OM_T)) opt("-t", "--init", iname[gp[INIT]]);
    if (has_c && gp[INIT] == I_NONE) { opt("-C", "--centersfn", "cent.bin"); if (has_t && (gp[DSEED] & 1)) opt("-t", "--init", iname[(gp[DSEED] >> 1) % I_N]); }   // centroids given by name are the start whatever -t says
    if (has_l && !(om & OM_L)) opt("-l", "--tol", f("%.17g", tol_of(gp)));
    if (!(om & OM_D)) opt("-d", "--dist", dname[gp[DIST]]);
    if (gp[DSEED] & 2) opt("-N", "--nnodes", f("%lld", gp[NODES]));
    if (!(om & OM_OUT)) opt("-o", "--outdir", od_said);
    if (e == E_FULL || e == E_OMP || e == E_DFULL) opt("-P", "--prune", nullptr);
    if (is_omp(e)) opt("-O", "--omp", nullptr);
    if (!(om & OM_X)) {
        if (e == E_MB) opt("-M", "--mb_size", f("%lld", gp[MB])); if (e == E_FCM) opt("-z", "--fuzzindex", f("%lld", gp[FUZZ])); if (e == E_MEDOID) opt("-s", "--srate", f("%.17g", (double)gp[SAMPLE] / 10));
        if (hier) opt("-s", "--min_clust_size", f("%lld", gp[MINSZ])); if (e == E_GMEANS) opt("-S", "--strictness", f("%lld", gp[STRICT])); if (e == E_KMPP) opt("-s", "--num_starts", f("%lld", gp[NSTART]));
    } else if (e == E_MB && gp[MB] != 100) opt("-M", "--mb_size", f("%lld", gp[MB]));
    // malformed command lines (C31)
    i64 bm = gp[FMODE]; static char junk[24]; { Rng q((u64)gp[DSEED] + 3); int n = q.range(1, 10); for (int i = 0; i < n; i++) junk[i] = (char)('a' + q.below(26)); junk[n] = 0; static const char* const near_[] = { "euclid", "eucl ", "Eucl", "", "l2", "kmeans", "forg", "NONE", "randomly", "kmeanspp1", "cosine", "tax" }; if (q.chance(.6)) strcpy(junk, near_[q.below(12)]); }
    auto setopt = [&](const char* s, const char* l, const char* v) { for (auto& o : opts) if (!strcmp(o[0], s) || !strcmp(o[0], l)) { if (v) o[1] = v; else o.pop_back(); return true; } if (v) opt(s, l, v); return v != nullptr; };
    bool lastopt = false;
    if (bm == 6 && !has_t) gp[FMODE] = bm = 5;
    if ((bm == 9 || bm == 10) && (!has_c || (bm == 10 && !has_t))) gp[FMODE] = bm = 11;
    if (bm == 5) { if (e == E_SPH) gp[FMODE] = bm = 11; else setopt("-d", "--dist", junk); }
    if (bm == 6) { for (size_t i = 0; i < opts.size();) if (!strcmp(opts[i][0], "-C") || !strcmp(opts[i][0], "--centersfn")) opts.erase(opts.begin() + (long)i); else i++; setopt("-t", "--init", junk); }
    if (bm == 7) opt(dist ? "-Z" : (gp[DSEED] & 8) ? "-Z" : "--nonsense", nullptr, nullptr);
    if (bm == 8) { lastopt = true; if (dist && (om & OM_OUT)) gp[FMODE] = bm = 11; }
    if (bm == 9) setopt("-C", "--centersfn", "nowhere.bin");
    if (bm == 10) { for (size_t i = 0; i < opts.size();) if (!strcmp(opts[i][0], "-C") || !strcmp(opts[i][0], "--centersfn")) opts.erase(opts.begin() + (long)i); else i++; setopt("-t", "--init", "none"); }
    if (bm == 11) { const char* w = f("%lld", gp[N] + ((gp[DSEED] & 4) ? 1 : -1)); if (named) setopt("-n", "--nsamples", w); else av[2] = w; }
    if (bm == 12) { if (e == E_MEDOID || named) gp[FMODE] = bm = 7, opt(dist ? "-Z" : "--nonsense", nullptr, nullptr); else { opts.clear(); av.resize(1 + (size_t)gp[DSEED] % 4); } }
    if (bm == 13) { if (dist) gp[FMODE] = bm = 7, opt("-Z", nullptr, nullptr); else {
        Rng q((u64)gp[DSEED] + 4); static const char* const nn_[] = { "4294967299", "-2", "4.5", "1e1", "2 ", " 3", "3O", "0x", "0xg", "1f", "five", "", "00000000005000000000" }; if (q.chance(.7)) strcpy(junk, nn_[q.below(13)]);
        int w = (int)q.below(e == E_KMPP ? 2 : 3); if (w == 1) setopt("-T", "--num_thread", junk); else if (w == 2) setopt("-i", "--iters", junk); else if (named) setopt("-k", hier ? "--kmax" : "--nclust", junk); else av[4] = junk; } }
    if (bm == 14) { if (named) { static const char* const rq[] = { "-f", "--datafn", "-n", "--nsamples", "-m", "--dim", "-k", "--nclust", "-k", "--kmax" }; int d = (int)(gp[DSEED] >> 5) % 4; for (size_t i = 0; i < opts.size();) if (!strcmp(opts[i][0], rq[2 * d]) || !strcmp(opts[i][0], rq[2 * d + 1]) || (d == 3 && !strcmp(opts[i][0], "--kmax"))) opts.erase(opts.begin() + (long)i); else i++; } else av.resize(2 + (size_t)(gp[DSEED] >> 5) % 3); }
    if (om & OM_SHUF) { Rng q((u64)gp[DSEED]); for (size_t i = opts.size(); i > 1; i--) std::swap(opts[i - 1], opts[q.below(i)]); }
    if (lastopt) { size_t j = (size_t)gp[DSEED] % std::max<size_t>(1, opts.size()); for (size_t q = 0; q < opts.size() && opts[j].size() < 2; q++) j = (j + 1) % opts.size(); if (!opts.empty() && opts[j].size() == 2) { auto o = opts[j]; o.pop_back(); opts.erase(opts.begin() + (long)j); opts.push_back(o); } }
    for (auto& o : opts) for (const char* a : o) av.push_back(a);
    // the files
    size_t nb = X.size() * 8, cb = (hier ? 2 * (size_t)gp[D] : GIV.size()) * 8; bool uses_c = has_c && gp[INIT] == I_NONE; i64 fm = gp[FMODE]; if (fm == 4 && !uses_c) gp[FMODE] = fm = 0;
    if (fm == 2) { rvec<char> z((const char*)X.data(), (const char*)X.data() + nb); if (gp[DSEED] & 4) z.resize(nb - 1 - (size_t)gp[DSEED] % (nb - 1)); else z.resize(nb + 1 + (size_t)gp[DSEED] % 64); fs_put("prog.bin", z.data(), z.size()); }
    else if (fm != 3) fs_put("prog.bin", X.data(), nb);
    if (uses_c) { if (fm == 4) cb -= 1 + (size_t)gp[DSEED] % cb; fs_put("cent.bin", GIV.data(), cb); }
    if (om & OM_STALE) put_stale((u64)gp[N], (u64)gp[D], (u64)gp[K]);
    if (c36) { c36_who = en; c36_xchk = c36_cchk = false; if (om & 1024) { const char* t = "someone else's file"; fs_mkdir(od_name); char nm[80]; snprintf(nm, sizeof nm, "%s/notes.txt", od_name); fs_put(nm, t, strlen(t)); snprintf(nm, sizeof nm, "%s.bak", od_file); fs_put(nm, t, 7); fs_put("prog.bin.bak", t, 9); fs_put("data.bin", t, 11); } c36_snap(!(om & OM_OUT)); }
    on_loud = c27_loud; on_deadlock = c27_dead; c27_armed = true; int rc = 0; bool threw = false; char xw[200] = "";
    fault_off(K_NEW);
    try { Un u; rc = run_main_prog((int)e, (int)av.size(), av.data(), (int)gp[RANKS]); } catch (std::exception& x) { g_rt = 1; threw = true; snprintf(xw, sizeof xw, "%s", x.what()); }
    nontrivial();
    if (c36) { c36_judge(); return; }
    if (threw || rc) { if (!c27_may_fail()) bad("failed without a fault", "%s: the program failed (%s, status %d) although nothing went wrong", en, xw, rc); char why[200]; c27_output(why, sizeof why); probe(6); return; }
    c27_success(); probe(10);
}
// C36 ------------------------------------------------------------------
static void g_C36(Params& p, Cfg& c, Rng& r) {
    if (r.chance(.55)) { g_C27(p, c, r); p[BODY] = 1; if (r.chance(.5)) p[HIST] |= 1024; if (r.chance(.25)) { memset(c.fault_at, -1, sizeof c.fault_at); c.fault_cap = 0; p[FMODE] = r.range(5, 14); } return; }
    if (r.chance(.3)) g_dist(p, c, r, r.below(2) ? E_DFULL : E_DTASK); else { g_sched(c, r); g_job(p, c, r, anyof(POOL_OMP, r)); }
    if (p[N] > 100) p[N] = r.range(10, 100); p[BODY] = 0; if (r.chance(.6)) p[INIT] = I_NONE; p[FMODE] = 0; if (can_redistribute(p[ENG]) && r.chance(.3)) p[SRC] = 2;
    if (r.chance(.3)) { p[FMODE] = 1; c.fault_cap = 1; static const Kind ks[] = { K_OPEN, K_SEEK, K_READ, K_READ, K_CLOSE, K_TCREATE, K_NUMA, K_WOPEN, K_WRITE, K_SYSTEM }; Kind k = ks[r.below(10)]; c.fault_at[k] = (int)r.below((k == K_NUMA ? (int)p[T] : (int)p[T] + 2) * (is_dist(p[ENG]) ? (int)p[RANKS] : 1)); }
}
static void b_C36(void* a) {
    c36 = true; if (gp[BODY] == 1) { b_C27(a); return; }
    Rt r; setup(); i64 e = gp[ENG]; c36_who = ename[e]; double* xd = nullptr; double* cd = nullptr; const char* file = nullptr; bool dist = is_dist(e); Params q = gp; if (is_omp(e) && q[SRC] == 1) q[SRC] = 0;
    if (dist) fs_put("data.bin", X.data(), X.size() * 8);
    else if (q[SRC] == 1) { fs_put("data0.bin", X.data(), X.size() * 8); file = "data0.bin"; }
    { Un u; if (!file && !dist) xd = new double[X.size()]; cd = new double[std::max<size_t>(GIV.size(), 1)]; }
    if (xd) memcpy(xd, X.data(), X.size() * 8); memcpy(cd, GIV.data(), GIV.size() * 8);
    c36_x = xd; c36_xchk = xd && e != E_SPH; c36_c = cd; c36_cchk = !is_omp(e);      // spherical clustering normalises the caller's rows; the OpenMP engines return the centroids in the caller's array
    c36_snap(dist); on_loud = c36_loud;
    try { Un u; if (dist) run_dist(gp, X, cd); else run_engine(q, xd, cd, -1, -1, file); } catch (std::exception& x) { g_rt = 1; probe(6); }
    c36_judge();
    { Un u; delete[] xd; delete[] cd; }
}
// C31 ------------------------------------------------------------------
static void g_C31(Params& p, Cfg& c, Rng& r) { g_C27(p, c, r); memset(c.fault_at, -1, sizeof c.fault_at); c.fault_cap = 0; p[FMODE] = r.chance(.15) ? r.range(2, 4) : r.range(5, 14); }
// C33 ------------------------------------------------------------------
// What a run starts from: the outcome of a run of zero passes.
static const i64 C33E[] = { E_FULL, E_FULL, E_PRUNE, E_PRUNE, E_SPH, E_FCM, E_MEDOID, E_OMP, E_OMPMIN, E_DFULL, E_DFULL, E_DTASK, E_DTASK };
static void g_C33(Params& p, Cfg& c, Rng& r) {
    i64 e = anyof(C33E, r); if (is_dist_eng(e)) g_dist(p, c, r, e); else { g_sched(c, r); g_job(p, c, r, e); }
    if (p[N] > 120) p[N] = r.range(6, 120); if (r.chance(.4)) p[K] = r.range(2, 12); p[HIST] = r.below(1000000); p[SRC] = is_omp(e) ? 0 : r.below(2); if (r.chance(.5)) p[INIT] = r.chance(.5) ? I_RANDOM : I_KMPP;
}
// The rows a Forgy or k-means++ start takes, by the methods' definitions from a default-seeded generator of their own: Forgy takes
// rows uniformly; k-means++ takes the first uniformly and every further one with a probability proportional to its distance from
// the centres so far.  k2 is how many of them are certain: a draw that falls within rounding of the border of two rows ends the list.
static rvec<size_t> ref_start(const rvec<double>& x, size_t n, size_t d, size_t k, i64 init, int dt) {
    rvec<size_t> c; std::default_random_engine g; std::uniform_int_distribution<size_t> row(0, n - 1); std::uniform_real_distribution<double> u(0, 1);
    if (init == I_FORGY) { for (size_t i = 0; i < k; i++) c.push_back(row(g)); return c; }
    rvec<double> m(n, std::numeric_limits<double>::max()); c.push_back(row(g)); double sc = scale_of(x); if (dt == D_SQ) sc *= sc; if (dt == D_COS) sc = 1;
    if (dt == D_COS) for (size_t i = 0; i < n; i++) { bool z = true; for (size_t j = 0; j < d; j++) z &= x[i * d + j] == 0; if (z) return c; }   // a row without a direction: its distance to itself is a convention
    while (c.size() < k) {
        long double tot = 0; for (size_t i = 0; i < n; i++) { m[i] = std::min(m[i], ref_dist(&x[i * d], &x[c.back() * d], d, dt)); tot += m[i]; }
        long double t = tot * u(g), acc = 0; if (tot <= 1e-9 * sc) break;
        size_t i = 0; for (; i < n; i++) { acc += m[i]; if (acc >= t) break; }
        if (i == n || fabsl(acc - t) < 1e-9 * tot || fabsl(acc - m[i] - t) < 1e-9 * tot) break;
        c.push_back(i);
    }
    return c;
}
static void b_C33(void*) {
    Rt r; setup(); i64 e = gp[ENG]; const char* en = ename[e]; i64 in = gp[INIT]; size_t n = gp[N], d = gp[D], k = gp[K]; char sg[90];
    Params p2 = gp; Rng q((u64)gp[HIST] + 9); if (e != E_MEDOID) p2[T] = q.range(1, 6); p2[NODES] = q.range(1, (int)gp[NODES]); p2[TASKROWS] = q.range(1, 30); p2[SRC] = is_omp(e) ? 0 : q.below(2); if (is_dist_eng(e)) p2[RANKS] = q.range(1, (int)std::min<i64>(5, gp[N]));
    auto go = [&](const Params& p) -> Out { if (is_dist_eng(e)) { Un u; DistOut z = run_dist(p, X, GIV.data(), 0); Rt r2; if (z.ok[0] != 2) bad("no result", "%s: the root returned no result", en); return z.all[0]; } return job(p, X, GIV, 0, -1); };
    Out a; { Quiet z; a = go(p2); } Out o = go(gp);
    snprintf(sg, sizeof sg, "%s initial centres", en);
    if (o.cent.size() != k * d || o.k != k) bad(sg, "%s: %zu centre values for k=%zu, %zu columns", en, o.cent.size(), k, d);
    rvec<double> y = X; if (e == E_SPH) ref_normalise(y, n, d); double sc = scale_of(y);
    nontrivial();
    if (in == I_NONE) for (size_t i = 0; i < k * d; i++) if (o.cent[i] != GIV[i]) bad(sg, "%s: given centre value %zu is %.17g, the run starts from %.17g", en, i, GIV[i], o.cent[i]);
    if (in == I_FORGY || in == I_KMPP) is_rows(o.cent, y, d, en);
    if (in == I_FORGY || in == I_KMPP) {
        rvec<size_t> w = ref_start(y, n, d, k, in, e == E_SPH ? (int)D_COS : (int)gp[DIST]); if (w.size() < k) probe(1);
        for (size_t c = 0; c < w.size(); c++) for (size_t j = 0; j < d; j++) if (!near(o.cent[c * d + j], y[w[c] * d + j], 1e-12 * (1 + std::fabs(y[w[c] * d + j])))) bad(sg, "%s: centre %zu of a %s start should be row %zu: value %zu is %.17g, the row has %.17g", en, c, iname[in], w[c], j, o.cent[c * d + j], y[w[c] * d + j]);
    }
    if (in == I_RANDOM) {
        std::default_random_engine g; if (is_dist_eng(e)) g.seed(1234); std::uniform_int_distribution<unsigned> u(0, (unsigned)k - 1);
        for (size_t i = 0; i < n && i < o.lab.size(); i++) { unsigned w = u(g); if (o.lab[i] != w) bad(sg, "%s: row %zu should start in group %u, it starts in %u", en, i, w, o.lab[i]); }
    }
    if (in == I_KMPP && gp[DIST] != D_COS) for (size_t c = 1; c < k; c++) {      // a centre repeats an earlier one only when no row is left that lies elsewhere
        bool dup = false; for (size_t b = 0; b < c && !dup; b++) dup = !memcmp(&o.cent[b * d], &o.cent[c * d], d * 8); if (!dup) continue;
        for (size_t i = 0; i < n; i++) { bool at = false; for (size_t b = 0; b < c && !at; b++) { at = true; for (size_t j = 0; j < d; j++) at &= y[i * d + j] == o.cent[b * d + j]; } if (!at) bad(sg, "%s: centre %zu repeats an earlier one although row %zu is at none of them", en, c, i); }
    }
    snprintf(sg, sizeof sg, "%s initial labels", en);
    if (in == I_KMPP || in == I_RANDOM) for (size_t i = 0; i < n; i++) if (i >= o.lab.size() || o.lab[i] >= k) bad(sg, "%s: row %zu has no label after %s initialisation", en, i, iname[in]);
    if (in == I_KMPP) check_nearest(o, y, e == E_SPH ? (int)D_COS : (int)gp[DIST], en);
    if (in == I_RANDOM) { Out m = o; check_means(m, y, en, sc); rvec<u64> c(k, 0); for (u32 l : o.lab) c[l]++; for (size_t j = 0; j < k; j++) if (!c[j]) for (size_t t = 0; t < d; t++) if (o.cent[j * d + t] != 0) bad(sg, "%s: cluster %zu got no row yet has a centre", en, j); }
    // the same start wherever the rows are
    snprintf(sg, sizeof sg, "%s start depends on placement", en);
    for (size_t i = 0; i < k * d; i++) if (!near(a.cent[i], o.cent[i], in == I_RANDOM ? tolof(sc) : 0)) bad(sg, "%s: centre value %zu is %.17g with %lld workers, %lld ranks, source %lld and %.17g with %lld workers, %lld ranks, source %lld", en, i, o.cent[i], gp[T], gp[RANKS], gp[SRC], a.cent[i], p2[T], p2[RANKS], p2[SRC]);
    if (in == I_RANDOM) for (size_t i = 0; i < n; i++) if (a.lab[i] != o.lab[i]) bad(sg, "%s: row %zu starts in cluster %u with %lld workers, %lld ranks and in %u with %lld workers, %lld ranks", en, i, o.lab[i], gp[T], gp[RANKS], a.lab[i], p2[T], p2[RANKS]);
}
// C28 ------------------------------------------------------------------
// Where rows, tasks and workers are placed does not matter: threads, nodes, task size, ranks, where the data comes from.
static const i64 C28E[] = { E_FULL, E_PRUNE, E_PRUNE, E_SPH, E_FCM, E_HCLUST, E_XMEANS, E_GMEANS, E_OMP, E_OMPMIN, E_KMPP, E_MB, E_MEDOID, E_DFULL, E_DTASK };
static void g_C28(Params& p, Cfg& c, Rng& r) {
    i64 e = anyof(C28E, r); if (is_dist_eng(e)) g_dist(p, c, r, e); else { g_sched(c, r); g_job(p, c, r, e); }
    if (p[N] > 150) p[N] = r.range(10, 150); static const int kinds[] = { 0, 0, 1, 2, 5, 6 }; p[DKIND] = p[DKIND] / 16 * 16 + kinds[r.below(6)]; p[SRC] = r.below(3); p[HIST] = r.below(1000000); if (r.chance(.5)) p[T] = r.range(1, 8);
}
static void b_C28(void*) {
    Rt r; i64 e = gp[ENG]; const char* en = ename[e]; if (gp[SRC] == 2 && !can_redistribute(e)) gp[SRC] = (gp[HIST] / 7) % 2; setup();
    Params p2 = gp; Rng q((u64)gp[HIST] + 5); bool fixedT = e == E_MB || e == E_MEDOID;     // these sample per worker: the worker count is part of the definition
    if (!fixedT) p2[T] = q.range(1, 8); p2[NODES] = q.range(1, 4); p2[TASKROWS] = q.chance(.3) ? 8192 : q.range(1, 30); p2[SRC] = q.below(can_redistribute(e) ? 3 : 2);
    if (is_dist_eng(e)) p2[RANKS] = q.range(1, (int)std::min<i64>(5, gp[N])); 
    if (p2[NODES] > gp[NODES]) std::swap(p2[NODES], p2[NODES] = gp[NODES]);
    Out a, b; bool amb = false;
    if (!is_h(e) && !fixedT && e != E_FCM && e != E_KMPP) { Init in = init_of(gp, X, GIV); rvec<double> y = X; if (e == E_SPH) ref_normalise(y, gp[N], gp[D]); Ref rf = ref_lloyd(y, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), e == E_SPH ? (int)D_COS : (int)gp[DIST]); amb = rf.amb; }
    else if (e == E_FCM) { Init in = init_of(gp, X, GIV); RefFcm f = ref_fcm(X, gp[N], gp[D], gp[K], in.cent, gp[ITERS], tol_of(gp), (int)gp[DIST], gp[FUZZ]); amb = f.amb; for (i64 i = 0; i < gp[N] && !amb; i++) { double m1 = -1, m2 = -1; for (i64 c = 0; c < gp[K]; c++) { double v = f.um[i * gp[K] + c]; if (v > m1) { m2 = m1; m1 = v; } else if (v > m2) m2 = v; } if (m1 - m2 <= 1e-6 * m1) amb = true; } }
    { Quiet z; if (is_dist_eng(e)) { Un u; DistOut d = run_dist(p2, X, GIV.data()); Rt r2; a = d.all[0]; } else a = job(p2, X, GIV); }
    if (is_dist_eng(e)) { DistOut d = dist_run(); if (d.ok[0] != 2) bad("no result", "%s: the root returned no result", en); b = d.all[0]; } else b = job(gp, X, GIV);
    if (amb) { probe(1); return; }
    nontrivial(); if (is_h(e)) { canon(a); canon(b); }
    Ref ra; ra.o = a; ra.scale = e == E_SPH ? 1 : scale_of(X); char sg[90]; snprintf(sg, sizeof sg, "%s placement", en);
    if (a.k != b.k || a.lab.size() != b.lab.size()) bad(sg, "%s: %llu clusters with %lld workers, %lld nodes, source %lld; %llu with %lld workers, %lld nodes, source %lld", en, (unsigned long long)b.k, gp[T], gp[NODES], gp[SRC], (unsigned long long)a.k, p2[T], p2[NODES], p2[SRC]);
    for (size_t i = 0; i < a.lab.size(); i++) if (a.lab[i] != b.lab[i]) bad(sg, "%s: row %zu is labelled %u with %lld workers, %lld nodes, %lld rows per task, source %lld, %lld ranks; %u with %lld workers, %lld nodes, %lld rows per task, source %lld, %lld ranks", en, i, b.lab[i], gp[T], gp[NODES], gp[TASKROWS], gp[SRC], gp[RANKS], a.lab[i], p2[T], p2[NODES], p2[TASKROWS], p2[SRC], p2[RANKS]);
    if (a.cnt != b.cnt) bad(sg, "%s: cluster sizes depend on placement", en);
    double t = e == E_FCM ? 1e-6 * ra.scale : tolof(ra.scale);
    for (size_t i = 0; i < a.cent.size(); i++) if (!near(a.cent[i], b.cent[i], t)) bad(sg, "%s: centroid value %zu is %.15g under one placement and %.15g under another", en, i, b.cent[i], a.cent[i]);
    if (!is_h(e) && e != E_KMPP && e != E_MB && a.iters != b.iters) bad(sg, "%s: %llu passes under one placement, %llu under another", en, (unsigned long long)b.iters, (unsigned long long)a.iters);
}
// C29 ------------------------------------------------------------------
// Stop after some passes, start again from the returned centroids in a new process state: the same trajectory.
static const i64 C29E[] = { E_FULL, E_FULL, E_PRUNE, E_PRUNE, E_SPH, E_FCM, E_OMP, E_OMPMIN, E_DFULL, E_DTASK };
static void g_C29(Params& p, Cfg& c, Rng& r) {
    i64 e = anyof(C29E, r); if (is_dist_eng(e)) g_dist(p, c, r, e); else { g_sched(c, r); g_job(p, c, r, e); }
    p[TOL] = 0; p[ITERS] = r.range(2, 12); p[HIST] = r.range(1, 11); if (p[HIST] >= p[ITERS]) p[HIST] = p[ITERS] - 1; if (p[N] > 120) p[N] = r.range(10, 120);
}
static void b_C29(void*) {
    Rt r; setup(); i64 e = gp[ENG]; const char* en = ename[e]; i64 tot = gp[ITERS], first = std::max<i64>(1, std::min(gp[HIST], tot - 1)); bool amb = false, fix = false; i64 model_iters = 0;
    if (tot < 2) return;
    auto go = [&](const rvec<double>& giv, i64 it, i64 init) -> Out { if (is_dist_eng(e)) { Un u; DistOut d = run_dist(gp, X, giv.data(), it, init); Rt r2; return d.all[0]; } return job(gp, X, giv, it, init); };
    Init in = init_of(gp, X, GIV);
    if (e == E_FCM) { RefFcm f = ref_fcm(X, gp[N], gp[D], gp[K], in.cent, tot, tol_of(gp), (int)gp[DIST], gp[FUZZ]); amb = f.amb; for (i64 i = 0; i < gp[N] && !amb; i++) { double m1 = -1, m2 = -1; for (i64 c = 0; c < gp[K]; c++) { double v = f.um[i * gp[K] + c]; if (v > m1) { m2 = m1; m1 = v; } else if (v > m2) m2 = v; } if (m1 - m2 <= 1e-6 * m1) amb = true; } model_iters = (i64)f.o.iters; }
    else { rvec<double> y = X; if (e == E_SPH) ref_normalise(y, gp[N], gp[D]); Ref rf = ref_lloyd(y, gp[N], gp[D], gp[K], in.cent, tot, tol_of(gp), e == E_SPH ? (int)D_COS : (int)gp[DIST]); amb = rf.amb; fix = rf.fix; model_iters = (i64)rf.o.iters;
        for (i64 c = 0; c < gp[K]; c++) for (i64 c2 = 0; c2 < c; c2++) { bool eq = true; for (i64 j = 0; j < gp[D]; j++) eq &= rf.o.cent[c * gp[D] + j] == rf.o.cent[c2 * gp[D] + j]; if (eq) amb = true; } }   // identical centres: a row may sit at either
    Out whole; { Quiet q; whole = go(GIV, tot, gp[INIT]); }
    Out h = go(GIV, first, gp[INIT]); if (h.lab.empty()) bad("no result", "%s: no result", en);
    Out b = go(h.cent, tot - first, I_NONE); if (b.lab.empty()) bad("no result", "%s: no result", en);
    if (amb) { probe(1); return; }
    nontrivial(); (void)fix; char sg[90]; snprintf(sg, sizeof sg, "%s resume", en); double t = (e == E_FCM ? 1e-6 : 1e-9) * (e == E_SPH ? 1 : scale_of(X));
    if ((i64)h.iters > first) bad(sg, "%s: %llu passes reported, limit %lld", en, (unsigned long long)h.iters, first);
    for (size_t i = 0; i < whole.lab.size(); i++) if (whole.lab[i] != b.lab[i]) bad(sg, "%s: %lld passes resumed for %lld more label row %zu with %u, %lld passes at once with %u", en, first, tot - first, i, b.lab[i], tot, whole.lab[i]);
    if (whole.cnt != b.cnt) bad(sg, "%s: cluster sizes differ after resuming", en);
    for (size_t i = 0; i < whole.cent.size(); i++) if (!near(whole.cent[i], b.cent[i], t)) bad(sg, "%s: centroid value %zu is %.15g after resuming, %.15g in one go", en, i, b.cent[i], whole.cent[i]);
    if ((i64)whole.iters != model_iters) bad(sg, "%s: %llu passes in one go, the model makes %lld", en, (unsigned long long)whole.iters, model_iters);
}
// C35 ------------------------------------------------------------------
// The other build variants: jobs of the other properties, judged by their bodies, in an executable whose code under test
// was compiled with other switches.
#ifndef VARIANT
#define VARIANT "default"
#endif
const char* const variant_name = VARIANT;
struct Mix { const char* id; void (*gen)(Params&, Cfg&, Rng&); void (*body)(void*); int w; };
static const Mix mix[] = {
    { "C03", g_full, b_C03, 2 }, { "C04", g_prune, b_C04, 2 }, { "C06", g_mb, b_C06, 1 }, { "C07", g_C07, b_C07, 1 }, { "C08", g_C08, b_C07, 1 }, { "C15", g_hc, b_hier, 1 }, { "C16", g_xm, b_hier, 1 },
    { "C17", g_gm, b_hier, 1 }, { "C18", g_med, b_C18, 1 }, { "C19", g_sph, b_C19, 1 }, { "C20", g_fcm, b_C20, 1 }, { "C21", g_C21, b_C21, 2 }, { "C22", g_kmpp, b_C22, 1 }, { "C26", g_C26, b_C26, 1 }, { "C33", g_C33, b_C33, 2 },
    { "C11", g_C11, b_C11, 4 }, { "C12", g_C12, b_C12, 2 }, { "C13", g_C13, b_C13, 2 }, { "C14", g_life, b_C14, 1 }, { "C23", g_life, b_C23, 1 }, { "C27", g_C27, b_C27, 4 }, { "C31", g_C31, b_C27, 4 }, { "C34", g_C34, b_C34, 4 }, { "C37", g_C37, b_C37, 1 },
};
static void g_C35(Params& p, Cfg& c, Rng& r) {
    int sum = 0; for (auto& m : mix) sum += m.w; int u = (int)r.below(sum), i = 0; while (u >= mix[i].w) u -= mix[i++].w;
    mix[i].gen(p, c, r); p[BODY] = i; if (p[SRC] == 2 && !strcmp(variant_name, "nonuma")) p[SRC] = 0;      // redistribution over memory nodes needs them
}
// Wide tails: a few runs far outside the usual sizes (thousands of rows, whole tasks of the shipped size, many clusters,
// columns, threads, passes or processes), bounded by the work they make.
void widen(const char* id, Params& p, Cfg& c, Rng& r) {
    static const char* const nope[] = { "C12", "C13", "C26", "C34", "C37" };
    if (!strcmp(id, "C35")) id = mix[p[BODY]].id;
    for (auto n : nope) if (!strcmp(id, n)) return;
    i64 e = p[ENG]; bool dist = is_dist(e), h = is_h(e);
    switch (r.below(dist ? 7 : 6)) {
    case 0: p[N] = e == E_MEDOID ? r.range(300, 700) : r.range(300, 2500); p[TASKROWS] = r.chance(.5) ? r.range(50, 1500) : 8192; p[ITERS] = r.range(1, 4); break;
    case 1: p[K] = r.range(9, 70); p[N] = r.range((int)p[K], 300); p[D] = r.range(1, 3); p[ITERS] = r.range(1, 5); break;
    case 2: p[D] = r.chance(.9) ? r.range(7, 48) : r.range(64, 300); if (p[N] > 80) p[N] = r.range(8, 80); if (p[D] > 48 && p[N] > 30) p[N] = r.range(6, 30); break;
    case 3: p[T] = r.range(7, !strcmp(id, "C24") ? 12 : 28); if (r.chance(.5)) p[N] = r.range(2, 60); c.ncpus = r.range(1, 32); if (dist) { p[T] = r.range(5, 10); p[RANKS] = r.range(1, 4); c.nranks = (int)p[RANKS]; } break;
    case 4: p[ITERS] = r.range(13, 60); p[TOL] = 0; if (p[N] < 30) p[N] = r.range(30, 120); p[DKIND] = r.chance(.5) ? 1 : 0; break;
    case 5: if (h || e == E_FCM || e == E_MEDOID) { p[N] = r.range(300, e == E_MEDOID ? 700 : 900); p[ITERS] = 2; break; } p[TASKROWS] = 8192; p[N] = (r.chance(.5) ? 8192 : 16384) + r.range(-3, 400); p[T] = r.range(1, 3); if (dist) { p[RANKS] = r.range(1, 2); c.nranks = (int)p[RANKS]; } p[D] = r.range(1, 2); p[K] = r.range(2, 4); p[ITERS] = r.range(1, 2); p[NSTART] = 1; break;
    default: p[RANKS] = r.range(6, 9); p[T] = r.range(1, 2); c.nranks = (int)p[RANKS]; break;
    }
    while (p[N] * p[K] * p[D] * p[ITERS] * (e == E_KMPP ? p[NSTART] : 1) > 150000 && (p[ITERS] > 2 || p[NSTART] > 1)) { if (p[ITERS] > 2) p[ITERS]--; else p[NSTART]--; }
    if (e == E_MB && r.chance(.5)) p[MB] = r.range(1, (int)p[N]);
    if (p[MB] > p[N]) p[MB] = p[N];
    // beyond what fits in a byte (labels, ranks), a word of flags (threads) or sixteen bits (rows)
    if (r.chance(.08)) switch (r.below(4)) {
    case 0: if (h || e == E_FCM || e == E_MEDOID) break; p[K] = r.range(257, 300); p[N] = r.range(300, 420); p[D] = r.range(1, 2); p[ITERS] = r.range(1, 2); p[NSTART] = 1; break;
    case 1: if (!strcmp(id, "C24") || e == E_KMPP) break; p[T] = !strcmp(id, "C14") || !strcmp(id, "C23") ? r.range(18, 22) : h || e == E_FCM ? r.range(33, 40) : r.range(65, 72); p[N] = r.range(20, 200); p[ITERS] = r.range(1, 3); c.ncpus = r.range(1, 12); if (dist) { p[RANKS] = 1; c.nranks = 1; } break;
    case 2: if (h || e == E_FCM || e == E_MEDOID) break; p[N] = 65536 + r.range(1, r.chance(.5) ? 300 : 3000); p[K] = 2; p[D] = 1; p[ITERS] = r.range(1, 2); p[T] = r.chance(.5) ? 1 : r.range(1, 3); if (e == E_MB && r.chance(.7)) p[MB] = r.range(1, (int)p[N]); p[TASKROWS] = 8192; p[NSTART] = 1; if (dist) { p[RANKS] = r.range(1, 2); c.nranks = (int)p[RANKS]; } break;
    default: if (!dist) break; p[RANKS] = r.range(10, 18); p[T] = 1; p[N] = r.range((int)p[RANKS], 100); p[ITERS] = r.range(1, 4); c.nranks = (int)p[RANKS]; break;
    }
    c.max_events = 400000000ull;
}
static void b_C35(void* a) { i64 i = gp[BODY]; if (i >= (i64)(sizeof mix / sizeof mix[0])) i = 0; mix[i].body(a); }
const Prop props[] = {
    { "C01", g_poolomp, b_C01, 20000, 400000, "more than one worker thread was scheduled and the run reached its end" },
    { "C02", g_pool, b_C02, 15000, 300000, "two executions of the same job under different schedules were compared" },
    { "C03", g_full, b_C03, 20000, 400000, "the result was compared with sequential Lloyd (no numerical tie made the comparison ambiguous)" },
    { "C04", g_prune, b_C04, 16000, 320000, "the pruned result was compared with the unpruned one (no numerical tie)" },
    { "C05", g_C05, b_C05, 16000, 320000, "a returned result was recounted row by row" },
    { "C06", g_mb, b_C06, 16000, 320000, "the result was compared with the sequential definition (no numerical tie)" },
    { "C07", g_C07, b_C07, 12000, 240000, "the root's result was compared with sequential Lloyd (no numerical tie)" },
    { "C08", g_C08, b_C07, 12000, 240000, "the root's result was compared with sequential Lloyd (no numerical tie)" },
    { "C09", g_C09, b_C09, 12000, 240000, "at least two ranks ran and their collective histories were compared" },
    { "C10", g_C09, b_C10, 10000, 200000, "the assembled labels were compared row by row (no numerical tie)" },
    { "C11", g_C11, b_C11, 20000, 400000, "at least one fault fired" },
    { "C12", g_C12, b_C12, 15000, 300000, "a rank crashed or a communication error was delivered" },
    { "C13", g_C13, b_C13, 20000, 400000, "an output was written or its failure reported" },
    { "C14", g_life, b_C14, 20000, 400000, "a job's life was played to its destruction" },
    { "C15", g_hc, b_hier, 15000, 300000, "two executions giving more than one cluster were compared" },
    { "C16", g_xm, b_hier, 15000, 300000, "two executions giving more than one cluster were compared" },
    { "C17", g_gm, b_hier, 15000, 300000, "two executions giving more than one cluster were compared" },
    { "C18", g_med, b_C18, 16000, 320000, "the result was compared with the sequential definition (no numerical tie)" },
    { "C19", g_sph, b_C19, 20000, 400000, "the result was compared with the sequential definition (no numerical tie)" },
    { "C20", g_fcm, b_C20, 15000, 300000, "the result was compared with the sequential definition (no numerical tie)" },
    { "C21", g_C21, b_C21, 20000, 400000, "the result was compared with sequential Lloyd (no numerical tie)" },
    { "C22", g_kmpp, b_C22, 12000, 240000, "the returned start was re-evaluated and compared with one start fewer" },
    { "C23", g_life, b_C23, 15000, 300000, "resources were accounted over a job's whole life" },
    { "C24", g_C24, b_C24, 12000, 240000, "two or three jobs were compared with the same jobs run alone" },
    { "C25", g_C25, b_C25, 16000, 320000, "more than one thread ran under happens-before checking" },
    { "C26", g_C26, b_C26, 25000, 500000, "concurrent flag operations were compared with an array model" },
    { "C27", g_C27, b_C27, 16000, 320000, "a whole program ran to its end and its exit status and output were judged" },
    { "C28", g_C28, b_C28, 16000, 320000, "one job under two placements was compared (no numerical tie)" },
    { "C29", g_C29, b_C29, 16000, 320000, "a run was stopped, resumed from its centroids and compared with one uninterrupted run (no numerical tie)" },
    { "C33", g_C33, b_C33, 16000, 320000, "the start of a job was judged by its method's definition and compared under two placements" },
    { "C34", g_C34, b_C34, 25000, 500000, "a history of reads or writes was compared with the file's bytes" },
    { "C35", g_C35, b_C35, 9000, 180000, "a job was run in a build variant and judged as its own property demands" },
    { "C36", g_C36, b_C36, 16000, 320000, "a job came to an end and the files and arrays it was given were compared with their state before it" },
    { "C37", g_C37, b_C37, 25000, 500000, "histories of kernel calls were compared with a sequential evaluation" },
    { "C31", g_C31, b_C27, 16000, 320000, "a program met a malformed command line or input and its end was judged" },
};
const int nprops = sizeof props / sizeof props[0];
