// Shared declarations of the harness: job parameters, data, reference models, engine drivers.
#pragma once
#include "rt.hpp"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <cstdarg>
using namespace sim;
typedef long long i64;

enum P { ENG, N, D, K, T, NODES, ITERS, INIT, DIST, TOL, DSEED, DKIND, SRC, TASKROWS, MB, FUZZ, MINSZ, STRICT, SAMPLE, NSTART, RANKS, HIST, JOBS, OMPT, SUB, FMODE, BODY, NP };
extern const char* const pname[NP];
extern const i64 pmin[NP];
struct Params { i64 v[NP]; i64& operator[](int i) { return v[i]; } i64 operator[](int i) const { return v[i]; } };

enum Eng { E_FULL = 0, E_PRUNE, E_MB, E_SPH, E_FCM, E_MEDOID, E_HCLUST, E_XMEANS, E_GMEANS, E_OMP, E_OMPMIN, E_KMPP, E_DFULL, E_DTASK, E_N };
extern const char* const ename[E_N];
enum { I_RANDOM = 0, I_FORGY, I_KMPP, I_NONE, I_N };
extern const char* const iname[I_N];
enum { D_EUCL = 0, D_COS, D_TAXI, D_SQ, D_N };
extern const char* const dname[D_N];

// result of a job, in runtime memory
struct Out {
    u64 nrow = 0, ncol = 0, iters = 0, k = 0;
    rvec<u32> lab; rvec<u64> cnt; rvec<double> cent;
    double energy = 0; u64 best = 0;
};
bool same(const Out& a, const Out& b, char* why, size_t n);   // bit-identical?

// data
void fill_data(const Params& p, double* x, u64 salt = 0);      // n*d values
rvec<double> data_v(const Params& p, u64 salt = 0);
double tol_of(const Params& p);
rvec<double> centers_v(const Params& p, const rvec<double>& x);   // given centres when INIT is "none"

// reference models (sequential, independent of the code under test)
double ref_dist(const double* a, const double* b, size_t d, int dt);
struct Ref { Out o; bool amb = false; u64 changed = 0; double scale = 1; bool fix = false; };
double scale_of(const rvec<double>& x);
Ref ref_lloyd(const rvec<double>& x, size_t n, size_t d, size_t k, const rvec<double>& init, i64 iters, double tol, int dt);
Ref ref_mb(const rvec<double>& x, size_t n, size_t d, size_t k, const rvec<double>& init, const rvec<u32>& lab0, i64 iters, double tol, int dt, i64 mb, size_t T);
void ref_normalise(rvec<double>& x, size_t n, size_t d);
struct RefFcm { Out o; bool amb = false; rvec<double> um; double noise = 0; };
RefFcm ref_fcm(const rvec<double>& x, size_t n, size_t d, size_t k, const rvec<double>& init, i64 iters, double tol, int dt, i64 fuzz);
Ref ref_medoid(const rvec<double>& x, size_t n, size_t d, size_t k, i64 iters, double tol, int dt, double rate, size_t T, const rvec<double>& init);
Ref ref_hier(const rvec<double>& x, size_t n, size_t d, size_t k, i64 iters, double tol, int dt, i64 minsz, int kind, int strict, const double* given);

// engine drivers: real code
struct Env { const double* x = nullptr; };     // unused placeholder for future seams
Out run_engine(const Params& p, double* x, const double* centers, i64 iters = -1, i64 init = -1, const char* file = nullptr);
Out run_omp(const Params& p, double* x, double* centers, i64 iters = -1, i64 init = -1);
Out run_kmpp(const Params& p, double* x, const char* file, i64 nstart);
// distributed run; each rank's process is a group of fibers. all[r] = what rank r's caller received.
struct DistOut { rvec<Out> all; rvec<int> ok; };
DistOut run_dist(const Params& p, const rvec<double>& x, const double* centers, i64 iters = -1, i64 init = -1, const char* outdir = "out");
inline bool is_dist_eng(i64 e) { return e == E_DFULL || e == E_DTASK; }
int run_main_prog(int engine, int argc, const char* const* argv, int ranks = 1);   // the program that offers this engine; -1 = a rank did not return

// oracle helpers: end the run with a violation
[[noreturn]] void bad(const char* sig, const char* fmt, ...);
void check_shape(const Out& o, const Params& p, const char* e, bool sizes = true, i64 kmax = -1);
void check_means(const Out& o, const rvec<double>& x, const char* e, double scale);
void cmp_ref(const Out& o, const Ref& r, const char* e, bool iters, bool empties = true);
void check_nearest(const Out& o, const rvec<double>& x, int dt, const char* e);
extern Params gp;              // parameters of the run (for messages)
extern bool g_nontrivial;      // set by bodies: the oracle compared something
void nontrivial();

struct Prop {
    const char* id;
    void (*gen)(Params&, Cfg&, Rng&);
    void (*body)(void*);
    int quick, thorough;      // number of runs
    const char* rule;         // what makes a run non-trivial
};
extern const Prop props[]; extern const int nprops;
extern const char* const variant_name;
void gen_sched(Cfg& c, Rng& r); void g_C34(Params&, Cfg&, Rng&); void b_C34(void*); void g_C37(Params&, Cfg&, Rng&); void b_C37(void*);
void widen(const char* id, Params& p, Cfg& c, Rng& r);
void clamp(const char* id, Params& p, Cfg& c);
extern unsigned knor_sim_min_task_rows;
