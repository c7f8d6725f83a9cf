// Drivers of the real code: one function per family of engines.  Only public create()/run() interfaces are used.
#include "h.hpp"
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "skmeans_coordinator.hpp"
#include "fcm_coordinator.hpp"
#include "medoid_coordinator.hpp"
#include "hclust_coordinator.hpp"
#include "xmeans_coordinator.hpp"
#include "gmeans_coordinator.hpp"
#include "dist_coordinator.hpp"
#include "dist_task_coordinator.hpp"
#include "../binding/kmeanspp.hpp"
#include "../binding/numa_reorg.hpp"
#include "kmeans.hpp"
#include "engines.hpp"
namespace kbase = knor::base;

const char* const ename[E_N] = { "full", "pruned", "minibatch", "spherical", "fcm", "medoid", "hclust", "xmeans", "gmeans", "omp", "omp-pruned", "multistart", "dist-full", "dist-pruned" };
const char* const iname[I_N] = { "random", "forgy", "kmeanspp", "none" };
const char* const dname[D_N] = { "eucl", "cos", "taxi", "sqeucl" };

Out take(const kbase::cluster_t& c) {
    Rt r; Out o; o.nrow = c.nrow; o.ncol = c.ncol; o.iters = c.iters; o.k = c.k;
    o.lab.assign(c.assignments.begin(), c.assignments.end()); o.cnt.assign(c.assignment_count.begin(), c.assignment_count.end()); o.cent.assign(c.centroids.begin(), c.centroids.end());
    return o;
}
static const char* file_of(const char* f) { return f ? f : ""; }
knor::coordinator::ptr make_engine(const Params& p, const double* centers, i64 iters, i64 init, const char* file) {
    if (iters < 0) iters = p[ITERS]; if (init < 0) init = p[INIT];
    size_t n = p[N], d = p[D]; unsigned k = p[K], nn = p[NODES], T_ = p[T]; double tol = tol_of(p);
    const double* c = init == I_NONE ? centers : nullptr;
    { Rt r; knor_sim_min_task_rows = (unsigned)p[TASKROWS]; }
    switch (p[ENG]) {
    case E_FULL: return knor::kmeans_coordinator::create(file_of(file), n, d, k, iters, nn, T_, c, iname[init], tol, dname[p[DIST]]);
    case E_PRUNE: return knor::prune::kmeans_task_coordinator::create(file_of(file), n, d, k, iters, nn, T_, c, iname[init], tol, dname[p[DIST]]);
    case E_MB: { auto q = knor::prune::kmeans_task_coordinator::create(file_of(file), n, d, k, iters, nn, T_, c, iname[init], tol, dname[p[DIST]]);
        std::static_pointer_cast<knor::prune::kmeans_task_coordinator>(q)->set_mini_batch_size((unsigned)p[MB]); return q; }
    case E_SPH: return knor::skmeans_coordinator::create(file_of(file), n, d, k, iters, nn, T_, c, iname[init], tol, dname[p[DIST]]);
    case E_FCM: return knor::fcm_coordinator::create(file_of(file), n, d, k, iters, nn, T_, c, iname[init], tol, dname[p[DIST]], (unsigned)p[FUZZ]);
    case E_MEDOID: return knor::medoid_coordinator::create(file_of(file), n, d, k, iters, nn, T_, c, iname[init], tol, dname[p[DIST]], (double)p[SAMPLE] / 10);
    case E_HCLUST: return knor::hclust_coordinator::create(file_of(file), n, d, k, iters, nn, T_, c, iname[init], tol, dname[p[DIST]], (unsigned)p[MINSZ]);
    case E_XMEANS: return knor::xmeans_coordinator::create(file_of(file), n, d, k, iters, nn, T_, c, iname[init], tol, dname[p[DIST]], (unsigned)p[MINSZ]);
    case E_GMEANS: return knor::gmeans_coordinator::create(file_of(file), n, d, k, iters, nn, T_, c, iname[init], tol, dname[p[DIST]], (unsigned)p[MINSZ], (short)p[STRICT]);
    }
    Rt r; verdict(V_INFRA, "engine", "no such engine %lld", p[ENG]);
}
Out run_made(const Params& p, knor::coordinator::ptr& q, double* x) {
    if (p[ENG] == E_MB) return take(std::static_pointer_cast<knor::prune::kmeans_task_coordinator>(q)->mb_run(x));
    if (p[SRC] == 2 && x) {      // rows copied to the workers' nodes by the binding layer
        auto md = knor::binding::memory_distributor<double>::create(x, (unsigned)p[NODES], p[N], p[D]);
        md->numa_reorg(q->get_threads());
        return take(q->run(nullptr, true));
    }
    return take(q->run(x));
}
Out run_engine(const Params& p, double* x, const double* centers, i64 iters, i64 init, const char* file) {
    if (p[ENG] == E_OMP || p[ENG] == E_OMPMIN) return run_omp(p, x, (double*)centers, iters, init);
    if (p[ENG] == E_KMPP) return run_kmpp(p, x, file, p[NSTART]);
    auto q = make_engine(p, centers, iters, init, file);
    fault_off(K_NEW);          // allocation failures are injected while an engine is built, not in the middle of a pass
    return run_made(p, q, file ? nullptr : x);
}
Out run_omp(const Params& p, double* x, double* centers, i64 iters, i64 init) {
    if (iters < 0) iters = p[ITERS]; if (init < 0) init = p[INIT];
    size_t n = p[N], d = p[D]; unsigned k = p[K];
    unsigned* asg = new unsigned[n]; knor::llong_t* cnt = new knor::llong_t[k];
    Out o;
    {
        kbase::cluster_t c = p[ENG] == E_OMP ? knor::omp::compute_kmeans(x, centers, asg, cnt, n, d, k, iters, (int)p[T], iname[init], tol_of(p), dname[p[DIST]])
                                             : knor::omp::compute_min_kmeans(x, centers, asg, cnt, n, d, k, iters, (int)p[T], iname[init], tol_of(p), dname[p[DIST]]);
        o = take(c);
    }
    { Rt r; if (iters > 0) { for (size_t i = 0; i < n; i++) if (asg[i] != o.lab[i]) bad("omp out-array", "caller's label array disagrees with the returned result at row %zu", i); for (unsigned i = 0; i < k; i++) if ((u64)cnt[i] != o.cnt[i]) bad("omp out-array", "caller's size array disagrees with the returned result at cluster %u", i); } }
    delete[] asg; delete[] cnt; return o;
}
Out run_kmpp(const Params& p, double* x, const char* file, i64 nstart) {
    { Rt r; knor_sim_min_task_rows = (unsigned)p[TASKROWS]; }
    auto pr = file ? kbase::kmeansPP(std::string(file), p[N], p[D], (unsigned)p[K], (unsigned)nstart, (unsigned)p[T], std::string(dname[p[DIST]]))
                   : kbase::kmeansPP(x, p[N], p[D], (unsigned)p[K], (unsigned)nstart, (unsigned)p[T], std::string(dname[p[DIST]]));
    Out o = take(pr.second); o.best = pr.first.first; o.energy = pr.first.second; return o;
}

// ---- distributed ----
struct RankArg { const Params* p; const double* centers; i64 iters, init; const char* outdir; int rank; DistOut* res; };
static void rank_main(void* a) {
    RankArg& A = *(RankArg*)a; const Params& p = *A.p;
    char* av[] = { (char*)"knord", nullptr };
    kbase::cluster_t ret;
    const double* c = A.init == I_NONE ? A.centers : nullptr;
    if (p[ENG] == E_DFULL) {
        auto q = knor::dist::dist_coordinator::create(1, av, "data.bin", p[N], p[D], p[K], A.iters, p[NODES], p[T], c, iname[A.init], tol_of(p), dname[p[DIST]]);
        fault_off(K_NEW);
        std::static_pointer_cast<knor::dist::dist_coordinator>(q)->run(ret, A.outdir);
    } else {
        auto q = knor::prune::dist_task_coordinator::create(1, av, "data.bin", p[N], p[D], p[K], A.iters, p[NODES], p[T], c, iname[A.init], tol_of(p), dname[p[DIST]]);
        fault_off(K_NEW);
        std::static_pointer_cast<knor::prune::dist_task_coordinator>(q)->run(ret, A.outdir);
    }
    Rt r; bool filled = !ret.assignments.empty(); if (filled) A.res->all[A.rank] = take(ret);
    A.res->ok[A.rank] = filled ? 2 : 1;
}
DistOut run_dist(const Params& p, const rvec<double>& x, const double* centers, i64 iters, i64 init, const char* outdir) {
    DistOut* d; RankArg* a; int R = (int)p[RANKS]; rvec<int> f;
    {
        Rt r; d = new (rt_malloc(sizeof(DistOut))) DistOut(); d->all.resize(R); d->ok.assign(R, 0);
        fs_put("data.bin", x.data(), x.size() * 8); mpi_world(R); knor_sim_min_task_rows = (unsigned)p[TASKROWS];
        a = (RankArg*)rt_malloc(sizeof(RankArg) * R);
        for (int i = 0; i < R; i++) { RankArg t = { &p, centers, iters < 0 ? p[ITERS] : iters, init < 0 ? p[INIT] : init, outdir, i, d }; a[i] = t; }
        for (int i = 0; i < R; i++) f.push_back(spawn(rank_main, &a[i], i, "rank"));
    }
    for (int i = 0; i < R; i++) join(f[i]);
    Rt r; return *d;
}

// ---- whole programs ----
int knori_main(int, char**); int kmeanspp_main(int, char**); int mb_knori_main(int, char**); int skmeans_main(int, char**); int fcm_main(int, char**); int medoids_main(int, char**);
int hmeans_main(int, char**); int xmeans_main(int, char**); int gmeans_main(int, char**); int knord_main(int, char**);
static int call_prog(int e, int argc, char** av) {
    switch (e) {
    case E_MB: return mb_knori_main(argc, av); case E_SPH: return skmeans_main(argc, av); case E_FCM: return fcm_main(argc, av); case E_MEDOID: return medoids_main(argc, av);
    case E_HCLUST: return hmeans_main(argc, av); case E_XMEANS: return xmeans_main(argc, av); case E_GMEANS: return gmeans_main(argc, av); case E_KMPP: return kmeanspp_main(argc, av);
    case E_DFULL: case E_DTASK: return knord_main(argc, av);
    default: return knori_main(argc, av);
    }
}
static char** copy_args(int argc, const char* const* argv) { char** av = (char**)rt_malloc(sizeof(char*) * (argc + 1)); for (int i = 0; i < argc; i++) { av[i] = (char*)rt_malloc(strlen(argv[i]) + 1); strcpy(av[i], argv[i]); } av[argc] = nullptr; return av; }
struct ProgArg { int e, argc; char** av; int rc; };
static void prog_main(void* a) { ProgArg* p = (ProgArg*)a; int rc = call_prog(p->e, p->argc, p->av); Rt r; p->rc = rc; }
int run_main_prog(int e, int argc, const char* const* argv, int ranks) {
    { Rt r; getopt_reset(); }
    if (!is_dist_eng(e)) { char** av; { Rt r; av = copy_args(argc, argv); } return call_prog(e, argc, av); }
    ProgArg* a; rvec<int> f;
    { Rt r; mpi_world(ranks); a = (ProgArg*)rt_malloc(sizeof(ProgArg) * ranks); for (int i = 0; i < ranks; i++) { ProgArg t = { e, argc, copy_args(argc, argv), -1 }; a[i] = t; } for (int i = 0; i < ranks; i++) f.push_back(spawn(prog_main, &a[i], i, "rank")); }
    for (int i = 0; i < ranks; i++) join(f[i]);
    Rt r; int rc = 0; for (int i = 0; i < ranks; i++) if (a[i].rc) rc = a[i].rc; return rc;
}
