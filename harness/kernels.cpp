// C37: the library's parallel matrix and distance kernels, each driven by seeded client histories under simulated thread
// teams next to a sequential evaluation of its definition.
#include "h.hpp"
#include "dense_matrix.hpp"
#include "dist_matrix.hpp"
#include "linalg.hpp"
#include "util.hpp"
#include "exception.hpp"
extern "C" void omp_set_num_threads(int);
namespace kbase = knor::base;
typedef kbase::dense_matrix<double> DM;
enum KK { K_MUL = 0, K_SUMS, K_DIV, K_DIVPOW, K_ELEM, K_ARGMAX, K_PAIRS, K_SPHERE, K_BIC, K_SCALE, K_N };
static const char* const kname[K_N] = { "matrix product", "sums", "division", "powered division", "element-wise operation", "argmax", "pairwise distances", "spherical projection", "BIC", "standardisation" };
void g_C37(Params& p, Cfg& c, Rng& r) {
    gen_sched(c, r); for (int i = 0; i < NP; i++) p[i] = pmin[i];
    p[N] = r.chance(.15) ? r.range(40, 160) : r.range(1, 24); p[D] = r.range(1, 9); p[K] = r.range(1, 9); p[DSEED] = r.below(1000000); p[DKIND] = r.below(5);
    p[SUB] = r.below(K_N + 3); if (p[SUB] >= K_N) p[SUB] = p[SUB] == K_N ? K_PAIRS : p[SUB] == K_N + 1 ? K_SPHERE : K_MUL;
    p[JOBS] = r.chance(.6) ? 1 : r.range(2, 4); p[ITERS] = r.range(1, 5); p[OMPT] = r.chance(.85) ? r.range(2, 8) : 1; p[HIST] = r.below(1000000); c.race = true;
    if (c.strategy == ST_PCT && r.chance(.5)) c.strategy = ST_DEFAULT;
}
struct KC { int id; u64 seed; };
static double kcell(u64 seed, size_t i) {
    Rng q(seed * 1000003 + i); double u = q.real();
    switch (gp[DKIND]) { case 0: return (u - .5) * 100; case 1: return -u * 30 - .25; case 2: return q.chance(.4) ? 0 : (u - .5) * 10; case 3: return 3e9 + u * 1e9 * (q.chance(.5) ? 1 : -1); default: return (double)q.below(13) - 6; }
}
static void kfill(rvec<double>& v, size_t n, u64 seed) { v.resize(n); for (size_t i = 0; i < n; i++) v[i] = kcell(seed, i); }
static void kbad(int k, const char* fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); char sg[80]; snprintf(sg, sizeof sg, "%s wrong", kname[k]); bad(sg, "%s: %s", kname[k], b); }
static void kcmp(int k, const char* what, size_t i, double got, long double want, long double mag) {
    if (std::isnan(got) || std::fabs((long double)got - want) > 1e-10L * mag + 1e-300L) kbad(k, "%s %zu is %.17g, a sequential evaluation gives %.17g (%lld x %lld, %lld threads)", what, i, got, (double)want, gp[N], gp[D], gp[OMPT]);
}
static DM* mk(const rvec<double>& v, size_t n, size_t d) { DM* m; { Un u; m = DM::create(n, d); m->set(v.data()); } return m; }     // runtime mode
static void shape(int k, DM* m, size_t n, size_t d) { size_t a, b; { Un u; a = m->get_nrow(); b = m->get_ncol(); } if (a != n || b != d) kbad(k, "the result is %zu x %zu instead of %zu x %zu", a, b, n, d); }
static double at(DM* m, size_t i, size_t j) { Un u; return m->get(i, j); }
static void one(int k, size_t n, size_t d, size_t p, u64 seed, Rng& q) {      // runtime mode
    rvec<double> a, b, v; kfill(a, n * d, seed);
    switch (k) {
    case K_MUL: {
        kfill(b, d * p, seed + 1); DM* A = mk(a, n, d); DM* B = mk(b, d, p); DM* C; { Un u; C = (*A) * (*B); } shape(k, C, n, p);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < p; j++) { long double s = 0, m = 0; for (size_t t = 0; t < d; t++) { long double z = (long double)a[i * d + t] * b[t * p + j]; s += z; m += fabsl(z); } kcmp(k, "entry", i * p + j, at(C, i, j), s, m); }
        Un u; delete A; delete B; delete C; break; }
    case K_SUMS: {
        DM* A = mk(a, n, d); std::vector<double>* s0; std::vector<double>* s1; std::vector<double>* m0; std::vector<double>* m1; double all, fro;
        { Un u; s0 = new std::vector<double>(); s1 = new std::vector<double>(); m0 = new std::vector<double>(); m1 = new std::vector<double>(); A->sum(0, *s0); A->sum(1, *s1); A->mean(*m0, 0); A->mean(*m1, 1); all = A->sum(); fro = A->frobenius_norm(); }
        if (s0->size() != d || s1->size() != n || m0->size() != n || m1->size() != d) kbad(k, "a sum or mean has the wrong length");
        long double tot = 0, tm = 0, sq = 0;
        for (size_t i = 0; i < n; i++) { long double s = 0, m = 0; for (size_t j = 0; j < d; j++) { long double z = a[i * d + j]; s += z; m += fabsl(z); sq += z * z; } kcmp(k, "row sum", i, (*s1)[i], s, m); kcmp(k, "row mean", i, (*m0)[i], s / d, m / d); tot += s; tm += m; }
        for (size_t j = 0; j < d; j++) { long double s = 0, m = 0; for (size_t i = 0; i < n; i++) { s += a[i * d + j]; m += fabsl(a[i * d + j]); } kcmp(k, "column sum", j, (*s0)[j], s, m); kcmp(k, "column mean", j, (*m1)[j], s / n, m / n); }
        kcmp(k, "total", 0, all, tot, tm); kcmp(k, "norm", 0, fro, sqrtl(sq), sqrtl(sq));
        Un u; delete A; delete s0; delete s1; delete m0; delete m1; break; }
    case K_DIV: case K_DIVPOW: {
        bool cols = q.chance(.5); size_t len = cols ? d : n; int how = k == K_DIVPOW ? 2 : (int)q.below(3); if (how == 1 && n == d) how = 0; unsigned ex = 1 + (unsigned)q.below(4);
        v.resize(len); for (auto& z : v) z = (q.chance(.5) ? 1 : -1) * (.5 + q.real() * 4); double sc = v[0];
        DM* A = mk(a, n, d); std::vector<double>* w; bool threw = false;
        { Un u; w = new std::vector<double>(v.begin(), v.end());
          if (how == 0) A->div_eq(*w, cols ? 0 : 1); else if (how == 1) { if (w->size() == n || w->size() == d) *A /= *w; } else if (k == K_DIVPOW) A->div_eq_pow(*w, cols ? 0 : 1, ex); else *A /= sc;
          w->push_back(1); try { if (w->size() != (cols ? d : n)) { if (k == K_DIVPOW) A->div_eq_pow(*w, cols ? 0 : 1, ex); else A->div_eq(*w, cols ? 0 : 1); } } catch (std::exception&) { threw = true; } }
        if (!threw) kbad(k, "a divisor of the wrong length was accepted");
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) { long double z = (long double)a[i * d + j] / (k == K_DIV && how == 2 ? sc : v[cols ? j : i]); if (k == K_DIVPOW) z = powl(z, ex); kcmp(k, "entry", i * d + j, at(A, i, j), z, fabsl(z)); }
        Un u; delete A; delete w; break; }
    case K_ELEM: {
        kfill(b, n * d, seed + 1); DM* A = mk(a, n, d); DM* B = mk(b, n, d); DM *S, *M, *P, *Q; bool eq, ne;
        { Un u; S = (*A) + (*B); M = (*A) - (*B); P = DM::create(A); (*P) += (*B); Q = DM::create(); Q->copy_from(A); eq = (*Q) == (*A); Q->pow_eq(2); P->peq(0, 0, 1); ne = (*S) == (*P); P->peq(0, 0, -1); }
        shape(k, S, n, d); shape(k, M, n, d); shape(k, P, n, d); shape(k, Q, n, d);
        if (!eq) kbad(k, "a copy does not equal its original"); if (ne && gp[DKIND] != 3) kbad(k, "matrices that differ compare equal");
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) { long double x = a[i * d + j], y = b[i * d + j], m = fabsl(x) + fabsl(y) + 1; kcmp(k, "sum", i * d + j, at(S, i, j), x + y, m); kcmp(k, "difference", i * d + j, at(M, i, j), x - y, m); kcmp(k, "in-place sum", i * d + j, at(P, i, j), x + y, m); kcmp(k, "square", i * d + j, at(Q, i, j), x * x, x * x); if (at(A, i, j) != a[i * d + j]) kbad(k, "an operand was changed"); }
        Un u; delete A; delete B; delete S; delete M; delete P; delete Q; break; }
    case K_ARGMAX: {
        DM* A = mk(a, n, d); std::vector<unsigned>* r0; std::vector<unsigned>* r1; { Un u; r0 = new std::vector<unsigned>(); r1 = new std::vector<unsigned>(); A->argmax(0, *r0); A->argmax(1, *r1); }
        if (r0->size() != n || r1->size() != d) kbad(k, "the result has the wrong length");
        for (size_t i = 0; i < n; i++) { double m = a[i * d]; for (size_t j = 0; j < d; j++) m = std::max(m, a[i * d + j]); if ((*r0)[i] >= d || a[i * d + (*r0)[i]] != m) kbad(k, "column %u is not the largest of row %zu", (*r0)[i], i); }
        for (size_t j = 0; j < d; j++) { double m = a[j]; for (size_t i = 0; i < n; i++) m = std::max(m, a[i * d + j]); if ((*r1)[j] >= n || a[(*r1)[j] * d + j] != m) kbad(k, "row %u is not the largest of column %zu", (*r1)[j], j); }
        Un u; delete A; delete r0; delete r1; break; }
    case K_PAIRS: {
        if (n < 2) n = 2; kfill(a, n * d, seed); int dt = (int)q.below(4); static const kbase::dist_t dts[] = { kbase::dist_t::EUCL, kbase::dist_t::COS, kbase::dist_t::TAXI, kbase::dist_t::SQEUCL };
        bool threw = false; std::shared_ptr<knor::prune::dist_matrix>* t; std::vector<double>* w;
        { Un u; w = new std::vector<double>(a.begin(), a.end()); t = new std::shared_ptr<knor::prune::dist_matrix>(knor::prune::dist_matrix::create((unsigned)n)); try { (*t)->compute_pairwise_dist(w->data(), d, dts[dt]); } catch (std::exception&) { threw = true; } }
        if (threw && dt != D_SQ) kbad(k, "computing the table fails for a supported metric");
        double ms = 1; for (double z : a) ms = std::max(ms, std::fabs(z));
        if (!threw) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
            double g_; { Un u; g_ = q.chance(.5) || i == j ? (*t)->pw_get((unsigned)i, (unsigned)j) : (*t)->get((unsigned)i, (unsigned)j); }
            double want = i == j ? 0 : ref_dist(&a[i * d], &a[j * d], d, dt); kcmp(k, "distance of pair", i * n + j, g_, want, dt == D_COS ? 1 : (long double)std::fabs(want) + ms * 1e-3);
            if ((*w)[i * d] != a[i * d]) kbad(k, "the rows were changed"); }
        Un u; delete t; delete w; break; }
    case K_SPHERE: {
        std::vector<double>* w; { Un u; w = new std::vector<double>(a.begin(), a.end()); kbase::spherical_projection(w->data(), n, d); }
        for (size_t i = 0; i < n; i++) { long double s = 0; for (size_t j = 0; j < d; j++) s += (long double)a[i * d + j] * a[i * d + j]; if (s == 0) continue; s = sqrtl(s); for (size_t j = 0; j < d; j++) kcmp(k, "entry", i * d + j, (*w)[i * d + j], a[i * d + j] / s, 1); }
        Un u; delete w; break; }
    case K_BIC: {
        std::vector<double>* w; double got; { Un u; w = new std::vector<double>(a.begin(), a.begin() + n); got = kbase::get_bic(*w, n, d, (unsigned)p); }
        long double s = 0, m = 1; for (size_t i = 0; i < n; i++) { s += a[i]; m += fabsl(a[i]); } long double z = logl((long double)n) * d * p; kcmp(k, "score", 0, got, 2 * s + z, 2 * m + z);
        Un u; delete w; break; }
    default: {
        std::vector<double>* w; double dot, fr; { Un u; w = new std::vector<double>(a.begin(), a.begin() + n); kbase::linalg::scale(w->data(), n); dot = kbase::linalg::dot(a.data(), a.data(), n); fr = kbase::linalg::frobenius_norm(a.data(), n); }
        long double s = 0, v2 = 0, big = 0, sq = 0; for (size_t i = 0; i < n; i++) { s += a[i]; big = std::max(big, fabsl(a[i])); sq += (long double)a[i] * a[i]; } s /= n; for (size_t i = 0; i < n; i++) v2 += (a[i] - s) * (a[i] - s); v2 = sqrtl(v2 / n);
        kcmp(k, "product", 0, dot, sq, sq); kcmp(k, "norm", 0, fr, sqrtl(sq), sqrtl(sq));
        if (v2 > 1e-6L * big) for (size_t i = 0; i < n; i++) kcmp(k, "value", i, (*w)[i], (a[i] - s) / v2, 1 + 1e6L * big / v2 * 1e-6L);
        Un u; delete w; break; }
    }
}
static void kernel_client(void* arg) {     // simulated
    KC* c = (KC*)arg; omp_set_num_threads((int)gp[OMPT]); Rt r; Rng q(c->seed * 77 + gp[HIST]);
    for (int i = 0; i < gp[ITERS]; i++) one(i == 0 && c->id == 0 ? (int)(gp[SUB] % K_N) : (int)q.below(K_N), i ? 1 + q.below((u64)gp[N]) : (size_t)gp[N], i ? 1 + q.below((u64)gp[D] + 2) : (size_t)gp[D], (size_t)gp[K], c->seed * 131 + i, q);
}
void b_C37(void*) {
    Rt r; int n = (int)gp[JOBS]; if (n > 6) n = 6; KC c[6]; int f[6];
    for (int i = 0; i < n; i++) { c[i].id = i; c[i].seed = (u64)gp[DSEED] + 31 * i; }
    if (n == 1) { Un u; kernel_client(&c[0]); } else { for (int i = 0; i < n; i++) f[i] = spawn(kernel_client, &c[i]); for (int i = 0; i < n; i++) join(f[i]); }
    nontrivial();
}
