// Simulated threads, locks, condition variables, atomics and the OpenMP runtime.
#include "core.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>

namespace sim {
enum OKind { OK_MUTEX = 1, OK_COND, OK_RW, OK_SPIN, OK_BAR, OK_SEM };
struct Obj {
    int kind, type; bool destroyed; int owner; int count; int nwait; // owner: fiber id or -1
    int readers; VC vc; u64 total, gen; rvec<int>* waiters; int rank;
};
static rmap<uptr, Obj>* tab;
struct AVC { VC vc; };
static rmap<uptr, AVC>* atab;
static int unjoined_threads, running_threads;
struct Crit { int owner; VC vc; };
static rmap<std::pair<int, uptr>, Crit>* crits;
static rvec<u64>* keyvals[1024]; static int nkeys; static void (*keydtor[1024])(void*);

void sync_init() {
    tab = new (rt_malloc(sizeof *tab)) rmap<uptr, Obj>();
    atab = new (rt_malloc(sizeof *atab)) rmap<uptr, AVC>();
    crits = new (rt_malloc(sizeof *crits)) rmap<std::pair<int, uptr>, Crit>();
}
void sync_forget(uptr lo, uptr hi) {
    auto i = tab->lower_bound(lo);
    while (i != tab->end() && i->first < hi) i = tab->erase(i);
    auto j = atab->lower_bound(lo);
    while (j != atab->end() && j->first < hi) j = atab->erase(j);
}
static const char* kname(int k) { return k == OK_MUTEX ? "mutex" : k == OK_COND ? "condition variable" : k == OK_RW ? "rwlock" : k == OK_SPIN ? "spinlock" : k == OK_BAR ? "barrier" : "semaphore"; }
[[noreturn]] static void misuse(const char* what, int kind, uptr a, uptr pc) {
    char st[900], w[300]; stack_of(st, sizeof st, pc); where(pc, w, sizeof w);
    char sig[400]; snprintf(sig, sizeof sig, "%s %s %.200s", what, kname(kind), w);
    verdict(V_SYNC, sig, "%s %s at 0x%lx by f%d; stack: %s", what, kname(kind), (unsigned long)a, g.cur->id, st);
}
static void touch(uptr a, uptr pc) { int s = g_rt; g_rt = 0; check_range(a, 1, false, pc, false); g_rt = s; }
// Locks count as memory too: an operation on a lock that lives in freed memory is an error.
static void touch_addr(uptr a, uptr pc) { bool c = g.cells; g.cells = false; touch(a, pc); g.cells = c; }
static Obj& get(uptr a, int kind, size_t sz, uptr pc) {
    touch_addr(a, pc);
    auto it = tab->find(a);
    if (it != tab->end()) {
        if (it->second.destroyed) misuse("use of destroyed", kind, a, pc);
        if (it->second.kind == kind) return it->second;
    }
    const u8* p = (const u8*)a; bool zero = true; for (size_t i = 0; i < sz; i++) if (p[i]) { zero = false; break; }
    // static initialisers are all zero except for the type word of a recursive / error-checking mutex
    if (!zero && kind != OK_MUTEX) misuse("use of uninitialised", kind, a, pc);
    if (!zero) { for (size_t i = 0; i < sz; i++) if (p[i] && !(i >= 16 && i < 20)) misuse("use of uninitialised", kind, a, pc); }
    Obj o; memset((void*)&o, 0, sizeof o); o.kind = kind; o.owner = -1; o.type = kind == OK_MUTEX ? (((const int*)a)[4] & 3) : 0;
    return (*tab)[a] = o;
}
static Obj& init(uptr a, int kind, uptr pc) {
    touch_addr(a, pc);
    auto it = tab->find(a);
    if (it != tab->end() && !it->second.destroyed && (it->second.owner >= 0 || it->second.nwait)) misuse("re-initialisation of busy", kind, a, pc);
    Obj o; memset((void*)&o, 0, sizeof o); o.kind = kind; o.owner = -1; (*tab)[a] = o; return (*tab)[a];
}
static void wake_on(uptr a, const char* why) { for (int i = 0; i < g.nf; i++) if (g.f[i].st == F_BLOCK && g.f[i].why_obj == a && g.f[i].why == why) make_runnable(&g.f[i]); }
static const char W_MX[] = "waiting for mutex", W_CV[] = "waiting on condition variable", W_RW[] = "waiting for rwlock", W_BAR[] = "waiting at barrier", W_SEM[] = "waiting for semaphore",
    W_CRIT[] = "waiting for critical section", W_TEAM[] = "waiting at team barrier", W_ONCE[] = "waiting for one-time initialisation", W_GUARD[] = "waiting for static initialisation";

// ---- mutex ----
static int mx_lock(uptr a, uptr pc) {
    sync_point(O_LOCK, a);
    for (;;) {
        Obj& m = get(a, OK_MUTEX, sizeof(pthread_mutex_t), pc);
        if (m.owner < 0) { m.owner = g.cur->id; m.count = 1; hb_acquire(m.vc); return 0; }
        if (m.owner == g.cur->id) {
            if (m.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
            if (m.type == PTHREAD_MUTEX_RECURSIVE) { m.count++; return 0; }
        }
        m.nwait++;
        block(W_MX, a);
        auto it = tab->find(a); if (it != tab->end() && it->second.nwait) it->second.nwait--;
    }
}
static int mx_unlock(uptr a, uptr pc) {
    {
        Obj& m = get(a, OK_MUTEX, sizeof(pthread_mutex_t), pc);
        if (m.owner != g.cur->id) {
            if (m.type == PTHREAD_MUTEX_NORMAL) misuse("unlock by a thread that does not hold the", OK_MUTEX, a, pc);
            return EPERM;
        }
        if (--m.count > 0) return 0;
        m.owner = -1; hb_release(m.vc);
        wake_on(a, W_MX);
    }
    sync_point(O_UNLOCK, a);
    return 0;
}
static int mx_try(uptr a, uptr pc) {
    sync_point(O_TRY, a);
    Obj& m = get(a, OK_MUTEX, sizeof(pthread_mutex_t), pc);
    if (m.owner < 0) { m.owner = g.cur->id; m.count = 1; hb_acquire(m.vc); return 0; }
    if (m.owner == g.cur->id && m.type == PTHREAD_MUTEX_RECURSIVE) { m.count++; return 0; }
    return EBUSY;
}
// ---- condition variables ----
static int cv_wait(uptr c, uptr m, u64 deadline, uptr pc) {
    sync_point(O_CWAIT, c);
    { Obj& o = get(m, OK_MUTEX, sizeof(pthread_mutex_t), pc); if (o.owner != g.cur->id) { if (o.type == PTHREAD_MUTEX_NORMAL) misuse("condition wait without holding the", OK_MUTEX, m, pc); return EPERM; } }
    bool spurious = choose(K_SPURIOUS, 2, g.cfg.spurious_p) != 0;
    Fiber* f = g.cur; bool timed = false;
    {
        Obj& o = get(c, OK_COND, sizeof(pthread_cond_t), pc);
        if (!o.waiters) o.waiters = new (rt_malloc(sizeof *o.waiters)) rvec<int>();
        o.waiters->push_back(f->id); o.nwait++;
    }
    f->signalled = false;
    { // release the mutex without a scheduling point: wait-and-release is atomic
        Obj& o = get(m, OK_MUTEX, sizeof(pthread_mutex_t), pc); o.owner = -1; o.count = 0; hb_release(o.vc); wake_on(m, W_MX);
    }
    if (spurious) { u64 d = now_ns() + 100; if (deadline > d) { sleep_until(d, W_CV, c); } else timed = sleep_until(deadline, W_CV, c); }
    else if (deadline != NEVER) timed = sleep_until(deadline, W_CV, c);
    else while (!f->signalled) block(W_CV, c);
    if (f->signalled) timed = false;
    auto it = tab->find(c);
    if (it != tab->end() && it->second.waiters) { auto& v = *it->second.waiters; for (size_t i = 0; i < v.size(); i++) if (v[i] == f->id) { v.erase(v.begin() + i); it->second.nwait--; break; } }
    log_ev(O_CWAKE, obj_id(c), spurious);
    mx_lock(m, pc);
    return timed && !spurious ? ETIMEDOUT : 0;
}
static int cv_wake(uptr c, bool all, uptr pc) {
    sync_point(all ? O_BCAST : O_SIGNAL, c);
    {
        Obj& o = get(c, OK_COND, sizeof(pthread_cond_t), pc);
        rvec<int>* w = o.waiters;
        if (w && !w->empty()) {
            if (all) { for (int i : *w) { g.f[i].signalled = true; make_runnable(&g.f[i]); } o.nwait = 0; w->clear(); }
            else {
                u64 k = choose(K_SIGPICK, w->size(), g.replay ? 0 : 0.5);
                int i = (*w)[k]; w->erase(w->begin() + k); o.nwait--;
                g.f[i].signalled = true; make_runnable(&g.f[i]);
            }
        }
    }
    sync_point(O_YIELD, c);
    return 0;
}
// ---- threads ----
static u64 handle_of(Fiber* f) { return 0x5150000000ull | ((u64)(f->gen & 0xffff) << 8) | (u64)f->id; }
static Fiber* from_handle(u64 h) {
    if ((h & ~0xffffffull) != 0x5150000000ull) return nullptr;
    int id = h & 0xff; if (id >= MAXF) return nullptr;
    Fiber* f = &g.f[id]; if ((u64)(f->gen & 0xffff) != ((h >> 8) & 0xffff) || f->st == F_FREE || !f->is_pthread) return nullptr;
    return f;
}
static int th_join(u64 h, void** ret, uptr pc) {
    sync_point(O_JOIN, 0);
    Fiber* f = from_handle(h);
    if (!f || f->joined || f->detached) {
        char st[900]; stack_of(st, sizeof st, pc); char w[300]; where(pc, w, sizeof w); char sig[400]; snprintf(sig, sizeof sig, "bad join %.200s", w);
        verdict(V_SYNC, sig, "join of a thread that was never started or was already joined (handle 0x%llx); stack: %s", (unsigned long long)h, st);
    }
    if (f == g.cur) return EDEADLK;
    f->joined = true;
    while (!f->finished && f->st != F_DEAD) block("joining a thread", (uptr)f);
    hb_acquire(f->vc);
    if (ret) *ret = f->ret;
    if (f->st == F_DONE) { f->st = F_FREE; f->finished = false; }
    unjoined_threads--;
    return 0;
}
int threads_running() { int n = 0; for (int i = 0; i < g.nf; i++) if (g.f[i].is_pthread && (g.f[i].st == F_RUN || g.f[i].st == F_BLOCK || g.f[i].st == F_SLEEP)) n++; return n; }
int threads_unjoined() { int n = 0; for (int i = 0; i < g.nf; i++) if (g.f[i].is_pthread && !g.f[i].detached && g.f[i].st != F_FREE && g.f[i].st != F_DEAD) n++; return n; }

// ---- OpenMP ----
struct WS { bool init; int arrived; long next, end, incr, chunk; bool ull_, up; unsigned long unext, uend, uincr, uchunk; int kind; rmap<int, long>* stat; VC vc; int scount, stotal; };
struct Team { int n; int arrived; u64 gen; VC bvc; rmap<u32, WS>* ws; rmap<u32, int>* single; Team* parent; void* copy; rmap<int, VC>* dummy; };
static Team* new_team(int n) { Team* t = (Team*)rt_malloc(sizeof(Team)); memset((void*)t, 0, sizeof *t); t->n = n; t->ws = new (rt_malloc(sizeof *t->ws)) rmap<u32, WS>(); t->single = new (rt_malloc(sizeof *t->single)) rmap<u32, int>(); return t; }
struct Entry { void (*fn)(void*); void* data; };
static void team_barrier() {
    Team* t = g.cur->team; if (!t || t->n <= 1) return;
    sync_point(O_BARRIER, (uptr)t);
    hb_release_merge(t->bvc);
    u64 gen = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; wake_on((uptr)t, W_TEAM); }
    else while (t->gen == gen) block(W_TEAM, (uptr)t);
    hb_acquire(t->bvc);
}
static void omp_member(void* a) { Entry* e = (Entry*)a; e->fn(e->data); }
static int omp_default() { return g.cur->icv_nthreads > 0 ? g.cur->icv_nthreads : g.cfg.ncpus; }
static Made made_now;
void made_reset() { made_now.threads = made_now.team = 0; }
Made made() { return made_now; }
static void parallel(void (*fn)(void*), void* data, unsigned n, void (*pre)(Team*, void*), void* parg) {
    Fiber* me = g.cur; Team* old = me->team; int otn = me->tnum; u32 ows = me->wsidx, osi = me->singleidx;
    if (n == 0) n = omp_default();
    for (Team* t = old; t; t = t->parent) if (t->n > 1) n = 1;
    if (n > 40) n = 40;
    if ((int)n > made_now.team) made_now.team = (int)n;
    sync_point(O_OMP, 0);
    Team* t = new_team(n); t->parent = old;
    me->team = t; me->tnum = 0; me->wsidx = me->singleidx = 0;
    if (pre) pre(t, parg);
    Entry e{ fn, data }; Fiber* w[64];
    for (unsigned i = 1; i < n; i++) { Fiber* f = new_fiber("omp", me->rank); f->omp = true; f->vfn = omp_member; f->arg = &e; f->team = t; f->tnum = i; f->icv_nthreads = me->icv_nthreads; w[i] = f; }
    sync_point(O_OMP, 0);
    { Un u; fn(data); }
    for (unsigned i = 1; i < n; i++) { while (!w[i]->finished && w[i]->st != F_DEAD) block("end of parallel region", (uptr)w[i]); hb_acquire(w[i]->vc); }
    for (unsigned i = 1; i < n; i++) if (w[i]->st == F_DONE) { w[i]->st = F_FREE; w[i]->finished = false; }
    me->team = old; me->tnum = otn; me->wsidx = ows; me->singleidx = osi;
}
static WS& cur_ws() { static WS solo; Fiber* f = g.cur; if (!f->team) f->team = new_team(1); return (*f->team->ws)[f->wsidx]; }
static void ws_setup(WS& w, long s, long e, long inc, long chunk, int kind) {
    if (w.init) return; w.init = true; w.ull_ = false; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk < 1 ? 1 : chunk; w.kind = kind;
    if (kind == 0) w.chunk = chunk;
}
struct LS { long s, e, i, c; int k; };
static bool ws_next(long* is, long* ie) {
    sync_point(O_CHUNK, 0);
    Fiber* f = g.cur; WS& w = cur_ws(); int n = f->team->n;
    long total = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
    if (w.kind == 0) { // static: chunks dealt round-robin
        if (!w.stat) w.stat = new (rt_malloc(sizeof *w.stat)) rmap<int, long>();
        long pos = (*w.stat)[f->tnum]; if (total <= 0) return false;
        if (w.chunk <= 0) { if (pos) return false; (*w.stat)[f->tnum] = 1; long q = total / n, r = total % n; long b = f->tnum * q + (f->tnum < r ? f->tnum : r); long l = q + (f->tnum < r); if (l <= 0) return false; *is = w.next + b * w.incr; *ie = w.next + (b + l) * w.incr; return true; }
        long b = (pos * n + f->tnum) * w.chunk; if (b >= total) return false; (*w.stat)[f->tnum] = pos + 1; long l = w.chunk; if (b + l > total) l = total - b;
        *is = w.next + b * w.incr; *ie = w.next + (b + l) * w.incr; return true;
    }
    if (total <= 0) return false;
    long l = w.chunk; if (w.kind == 2) { long q = (total + n - 1) / n; if (q > l) l = q; }
    if (l > total) l = total;
    *is = w.next; *ie = w.next + l * w.incr; w.next = *ie; return true;
}
static void ull_setup(WS& w, bool up, u64 s, u64 e, u64 inc, u64 chunk, int kind) { if (w.init) return; w.init = true; w.ull_ = true; w.up = up; w.unext = s; w.uend = e; w.uincr = inc; w.uchunk = chunk < 1 ? 1 : chunk; w.kind = kind; if (!kind) w.uchunk = chunk; }
static bool ull_next(u64* is, u64* ie) {
    sync_point(O_CHUNK, 0);
    Fiber* f = g.cur; WS& w = cur_ws(); u64 n = f->team->n; u64 step = w.up ? w.uincr : 0 - w.uincr;
    u64 total = w.up ? (w.uend > w.unext ? (w.uend - w.unext + step - 1) / step : 0) : (w.unext > w.uend ? (w.unext - w.uend + step - 1) / step : 0);
    if (!total) return false;
    if (w.kind == 0) {
        if (!w.stat) w.stat = new (rt_malloc(sizeof *w.stat)) rmap<int, long>();
        u64 pos = (*w.stat)[f->tnum], b, l;
        if (!w.uchunk) { if (pos) return false; u64 q = total / n, r = total % n, t = f->tnum; b = t * q + (t < r ? t : r); l = q + (t < r); if (!l) return false; }
        else { b = (pos * n + f->tnum) * w.uchunk; if (b >= total) return false; l = w.uchunk; if (b + l > total) l = total - b; }
        (*w.stat)[f->tnum] = pos + 1; *is = w.unext + b * w.uincr; *ie = w.unext + (b + l) * w.uincr; return true;
    }
    u64 l = w.uchunk; if (w.kind == 2) { u64 q = (total + n - 1) / n; if (q > l) l = q; } if (l > total) l = total;
    *is = w.unext; *ie = w.unext + l * w.uincr; w.unext = *ie; return true;
}
static void crit_enter(uptr name) {
    auto key = std::make_pair(g.cur->rank, name);
    sync_point(O_CRIT, name);
    for (;;) {
        auto it = crits->find(key);
        if (it == crits->end()) { Crit c; memset((void*)&c, 0, sizeof c); c.owner = -1; it = crits->insert(std::make_pair(key, c)).first; }
        if (it->second.owner < 0) { it->second.owner = g.cur->id; hb_acquire(it->second.vc); return; }
        block(W_CRIT, name);
    }
}
static void crit_leave(uptr name) {
    Crit& c = (*crits)[std::make_pair(g.cur->rank, name)]; c.owner = -1; hb_release(c.vc); wake_on(name, W_CRIT);
    sync_point(O_UNLOCK, name);
}
struct PreLoop { long s, e, i, c; int k; };
static void pre_loop(Team* t, void* a) { PreLoop* p = (PreLoop*)a; ws_setup((*t->ws)[0], p->s, p->e, p->i, p->c, p->k); }
struct PreSec { unsigned n; };
static void pre_sec(Team* t, void* a) { WS& w = (*t->ws)[0]; w.init = true; w.scount = 0; w.stotal = ((PreSec*)a)->n; }

// ---- atomics ----
static const uptr FENCE = 1;
static void at_pre(uptr a, size_t n, bool w, uptr pc) { g.st.atomics++; sync_point(O_ATOMIC, 0); atomic_access(a, n, w, pc); }
static bool is_acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
static bool is_rel(int mo) { return mo >= 3; }
static void at_acq(uptr a, int mo) { if (!is_acq(mo)) return; auto it = atab->find(a); if (it != atab->end()) hb_acquire(it->second.vc); }
static void at_store(uptr a, int mo) { if (is_rel(mo)) { AVC& v = (*atab)[a]; hb_release(v.vc); } else { auto it = atab->find(a); if (it != atab->end()) atab->erase(it); } }
static AVC& avc(uptr a) { auto it = atab->find(a); if (it == atab->end()) { AVC z; memset((void*)&z, 0, sizeof z); it = atab->insert(std::make_pair(a, z)).first; } return it->second; }
static void at_rmw(uptr a, int mo) { if (is_acq(mo)) { auto it = atab->find(a); if (it != atab->end()) hb_acquire(it->second.vc); } if (is_rel(mo)) hb_release_merge(avc(a).vc); }
static void at_store2(uptr a, int mo) { if (is_rel(mo)) hb_release(avc(a).vc); else { auto it = atab->find(a); if (it != atab->end()) atab->erase(it); } }
}
using namespace sim;
#define PC ((uptr)__builtin_return_address(0))
#define OFF (g_rt || !g.active)
extern "C" {
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*); int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*); int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_pthread_cond_signal(pthread_cond_t*); int __real_pthread_cond_broadcast(pthread_cond_t*);
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (OFF) return __real_pthread_mutex_init(m, a); Rt r; uptr pc = PC;
    int type = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &type);
    Obj& o = init((uptr)m, OK_MUTEX, pc); o.type = type; log_ev(O_MINIT, obj_id((uptr)m), type); memset(m, 0, sizeof *m); return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (OFF) return __real_pthread_mutex_destroy(m); Rt r; uptr pc = PC; sync_point(O_MDEST, (uptr)m);
    Obj& o = get((uptr)m, OK_MUTEX, sizeof *m, pc);
    if (o.owner >= 0 || o.nwait) misuse("destruction of a busy", OK_MUTEX, (uptr)m, pc);
    o.destroyed = true; return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (OFF) return __real_pthread_mutex_lock(m); Rt r; return mx_lock((uptr)m, PC); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (OFF) return __real_pthread_mutex_trylock(m); Rt r; return mx_try((uptr)m, PC); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (OFF) return __real_pthread_mutex_unlock(m); Rt r; return mx_unlock((uptr)m, PC); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { Rt r; return mx_lock((uptr)m, PC); }
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    if (OFF) return __real_pthread_cond_init(c, a); Rt r; uptr pc = PC; init((uptr)c, OK_COND, pc); log_ev(O_CINIT, obj_id((uptr)c), 0); memset(c, 0, sizeof *c); return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
    if (OFF) return __real_pthread_cond_destroy(c); Rt r; uptr pc = PC; sync_point(O_CDEST, (uptr)c);
    Obj& o = get((uptr)c, OK_COND, sizeof *c, pc);
    if (o.nwait) misuse("destruction of a waited-on", OK_COND, (uptr)c, pc);
    o.destroyed = true; return 0;
}
static u64 abs_ns(const struct timespec* t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { Rt r; return cv_wait((uptr)c, (uptr)m, NEVER, PC); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { Rt r; return cv_wait((uptr)c, (uptr)m, abs_ns(t), PC); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { Rt r; return cv_wait((uptr)c, (uptr)m, abs_ns(t), PC); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (OFF) return __real_pthread_cond_signal(c); Rt r; return cv_wake((uptr)c, false, PC); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (OFF) return __real_pthread_cond_broadcast(c); Rt r; return cv_wake((uptr)c, true, PC); }

int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    Rt r; sync_point(O_CREATE, 0);
    if (fault_fires(K_TCREATE)) return EAGAIN;
    made_now.threads++;
    Fiber* f = new_fiber("worker", g.cur->rank); f->is_pthread = true; f->pfn = fn; f->arg = arg;
    if (at) { int ds = 0; pthread_attr_getdetachstate(at, &ds); f->detached = ds == PTHREAD_CREATE_DETACHED; }
    *t = handle_of(f); { int s = g_rt; g_rt = 0; check_range((uptr)t, 8, true, PC); g_rt = s; }
    sync_point(O_CREATE, 0);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void** ret) { Rt r; return th_join(t, ret, PC); }
int __wrap_pthread_detach(pthread_t t) { Rt r; Fiber* f = from_handle(t); if (!f) return ESRCH; f->detached = true; if (f->st == F_DONE) { f->st = F_FREE; f->finished = false; } return 0; }
void __wrap_pthread_exit(void* v) { g.cur->ret = v; throw FiberExit(); }
pthread_t __wrap_pthread_self() { return handle_of(g.cur ? g.cur : &g.f[0]); }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int __wrap_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
int __wrap_sched_setaffinity(pid_t, size_t, const cpu_set_t*) { return 0; }
int __wrap_pthread_cancel(pthread_t) { return ENOSYS; }

int __wrap_pthread_once(pthread_once_t* c, void (*fn)(void)) {
    int* v = (int*)c;
    if (OFF) { if (*v != 2) { *v = 2; fn(); } return 0; }
    { Rt r; sync_point(O_LOCK, (uptr)c); while (*v == 1) block(W_ONCE, (uptr)c); if (*v == 2) { auto it = atab->find((uptr)c); if (it != atab->end()) hb_acquire(it->second.vc); return 0; } *v = 1; }
    fn();
    { Rt r; *v = 2; hb_release(avc((uptr)c).vc); wake_on((uptr)c, W_ONCE); }
    return 0;
}
int __cxa_guard_acquire(u64* gd) {
    u8* b = (u8*)gd; if (b[0]) { if (!OFF) { Rt r; at_acq((uptr)gd, 2); } return 0; }
    if (OFF) { b[1] = 1; return 1; }
    Rt r; sync_point(O_LOCK, (uptr)gd); while (b[1] && !b[0]) block(W_GUARD, (uptr)gd);
    if (b[0]) { at_acq((uptr)gd, 2); return 0; } b[1] = 1; return 1;
}
void __cxa_guard_release(u64* gd) { u8* b = (u8*)gd; b[0] = 1; b[1] = 0; if (OFF) return; Rt r; hb_release(avc((uptr)gd).vc); wake_on((uptr)gd, W_GUARD); }
void __cxa_guard_abort(u64* gd) { ((u8*)gd)[1] = 0; if (OFF) return; Rt r; wake_on((uptr)gd, W_GUARD); }

// rwlock / spin / barrier / semaphore
int __wrap_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { Rt r; init((uptr)l, OK_RW, PC); memset(l, 0, sizeof *l); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t* l) { Rt r; Obj& o = get((uptr)l, OK_RW, sizeof *l, PC); if (o.owner >= 0 || o.readers) misuse("destruction of a busy", OK_RW, (uptr)l, PC); o.destroyed = true; return 0; }
static int rw_lock(uptr l, bool w, bool tr, uptr pc) {
    sync_point(O_LOCK, l);
    for (;;) { Obj& o = get(l, OK_RW, sizeof(pthread_rwlock_t), pc); if (o.owner < 0 && (!w || !o.readers)) { if (w) o.owner = g.cur->id; else o.readers++; hb_acquire(o.vc); return 0; } if (tr) return EBUSY; block(W_RW, l); }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { Rt r; return rw_lock((uptr)l, false, false, PC); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { Rt r; return rw_lock((uptr)l, true, false, PC); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { Rt r; return rw_lock((uptr)l, false, true, PC); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { Rt r; return rw_lock((uptr)l, true, true, PC); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
    Rt r; { Obj& o = get((uptr)l, OK_RW, sizeof *l, PC); if (o.owner == g.cur->id) { o.owner = -1; hb_release(o.vc); } else if (o.readers) { o.readers--; hb_release_merge(o.vc); } else misuse("unlock of free", OK_RW, (uptr)l, PC); wake_on((uptr)l, W_RW); }
    sync_point(O_UNLOCK, (uptr)l); return 0;
}
int __wrap_pthread_spin_init(pthread_spinlock_t* l, int) { Rt r; init((uptr)l, OK_SPIN, PC); *(int*)l = 0; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t* l) { Rt r; Obj& o = get((uptr)l, OK_SPIN, 4, PC); if (o.owner >= 0) misuse("destruction of a busy", OK_SPIN, (uptr)l, PC); o.destroyed = true; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* l) { Rt r; sync_point(O_LOCK, (uptr)l); for (;;) { Obj& o = get((uptr)l, OK_SPIN, 4, PC); if (o.owner < 0) { o.owner = g.cur->id; hb_acquire(o.vc); return 0; } block(W_MX, (uptr)l); } }
int __wrap_pthread_spin_trylock(pthread_spinlock_t* l) { Rt r; sync_point(O_TRY, (uptr)l); Obj& o = get((uptr)l, OK_SPIN, 4, PC); if (o.owner >= 0) return EBUSY; o.owner = g.cur->id; hb_acquire(o.vc); return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* l) { Rt r; { Obj& o = get((uptr)l, OK_SPIN, 4, PC); o.owner = -1; hb_release(o.vc); wake_on((uptr)l, W_MX); } sync_point(O_UNLOCK, (uptr)l); return 0; }
int __wrap_pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) { Rt r; Obj& o = init((uptr)b, OK_BAR, PC); o.total = n; memset(b, 0, sizeof *b); return 0; }
int __wrap_pthread_barrier_destroy(pthread_barrier_t* b) { Rt r; Obj& o = get((uptr)b, OK_BAR, sizeof *b, PC); if (o.count) misuse("destruction of a busy", OK_BAR, (uptr)b, PC); o.destroyed = true; return 0; }
int __wrap_pthread_barrier_wait(pthread_barrier_t* b) {
    Rt r; sync_point(O_BARRIER, (uptr)b); Obj* o = &get((uptr)b, OK_BAR, sizeof *b, PC); hb_release_merge(o->vc); u64 gen = o->gen;
    if ((u64)++o->count == o->total) { o->count = 0; o->gen++; hb_acquire(o->vc); wake_on((uptr)b, W_BAR); return PTHREAD_BARRIER_SERIAL_THREAD; }
    while (true) { block(W_BAR, (uptr)b); o = &get((uptr)b, OK_BAR, sizeof *b, PC); if (o->gen != gen) break; }
    hb_acquire(o->vc); return 0;
}
int __wrap_sem_init(sem_t* s, int, unsigned v) { Rt r; Obj& o = init((uptr)s, OK_SEM, PC); o.total = v; memset(s, 0, sizeof *s); return 0; }
int __wrap_sem_destroy(sem_t* s) { Rt r; get((uptr)s, OK_SEM, sizeof *s, PC).destroyed = true; return 0; }
int __wrap_sem_wait(sem_t* s) { Rt r; sync_point(O_LOCK, (uptr)s); for (;;) { Obj& o = get((uptr)s, OK_SEM, sizeof *s, PC); if (o.total) { o.total--; hb_acquire(o.vc); return 0; } block(W_SEM, (uptr)s); } }
int __wrap_sem_trywait(sem_t* s) { Rt r; sync_point(O_TRY, (uptr)s); Obj& o = get((uptr)s, OK_SEM, sizeof *s, PC); if (!o.total) { errno = EAGAIN; return -1; } o.total--; hb_acquire(o.vc); return 0; }
int __wrap_sem_post(sem_t* s) { Rt r; { Obj& o = get((uptr)s, OK_SEM, sizeof *s, PC); o.total++; hb_release_merge(o.vc); wake_on((uptr)s, W_SEM); } sync_point(O_UNLOCK, (uptr)s); return 0; }

int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*)) { if (nkeys >= 1000) return EAGAIN; keydtor[nkeys] = d; keyvals[nkeys] = new (rt_malloc(sizeof(rvec<u64>))) rvec<u64>(MAXF + 1, 0); *k = nkeys++; return 0; }
int __wrap_pthread_key_delete(pthread_key_t) { return 0; }
void* __wrap_pthread_getspecific(pthread_key_t k) { return k < (unsigned)nkeys ? (void*)(*keyvals[k])[g.cur ? g.cur->id : MAXF] : nullptr; }
int __wrap_pthread_setspecific(pthread_key_t k, const void* v) { if (k >= (unsigned)nkeys) return EINVAL; (*keyvals[k])[g.cur ? g.cur->id : MAXF] = (u64)v; return 0; }

// OpenMP
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { if (OFF) { fn(d); return; } Rt r; parallel(fn, d, n, nullptr, nullptr); }
#define PLOOP(name, kind) void name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { Rt r; PreLoop p{ s, e, i, c, kind }; parallel(fn, d, n, pre_loop, &p); }
PLOOP(GOMP_parallel_loop_static, 0) PLOOP(GOMP_parallel_loop_dynamic, 1) PLOOP(GOMP_parallel_loop_guided, 2) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic, 1) PLOOP(GOMP_parallel_loop_nonmonotonic_guided, 2)
#define PLOOPR(name) void name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { Rt r; PreLoop p{ s, e, i, 1, 1 }; parallel(fn, d, n, pre_loop, &p); }
PLOOPR(GOMP_parallel_loop_runtime) PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime) PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
#define LSTART(name, kind) bool name(long s, long e, long i, long c, long* is, long* ie) { Rt r; ws_setup(cur_ws(), s, e, i, c, kind); return ws_next(is, ie); }
LSTART(GOMP_loop_static_start, 0) LSTART(GOMP_loop_dynamic_start, 1) LSTART(GOMP_loop_guided_start, 2) LSTART(GOMP_loop_nonmonotonic_dynamic_start, 1) LSTART(GOMP_loop_nonmonotonic_guided_start, 2) LSTART(GOMP_loop_ordered_static_start, 0) LSTART(GOMP_loop_ordered_dynamic_start, 1)
#define LSTARTR(name) bool name(long s, long e, long i, long* is, long* ie) { Rt r; ws_setup(cur_ws(), s, e, i, 1, 1); return ws_next(is, ie); }
LSTARTR(GOMP_loop_runtime_start) LSTARTR(GOMP_loop_nonmonotonic_runtime_start) LSTARTR(GOMP_loop_maybe_nonmonotonic_runtime_start)
#define LNEXT(name) bool name(long* is, long* ie) { Rt r; return ws_next(is, ie); }
LNEXT(GOMP_loop_static_next) LNEXT(GOMP_loop_dynamic_next) LNEXT(GOMP_loop_guided_next) LNEXT(GOMP_loop_runtime_next) LNEXT(GOMP_loop_nonmonotonic_dynamic_next) LNEXT(GOMP_loop_nonmonotonic_guided_next) LNEXT(GOMP_loop_nonmonotonic_runtime_next) LNEXT(GOMP_loop_maybe_nonmonotonic_runtime_next)
#define USTART(name, kind) bool name(bool up, u64 s, u64 e, u64 i, u64 c, u64* is, u64* ie) { Rt r; ull_setup(cur_ws(), up, s, e, i, c, kind); return ull_next(is, ie); }
USTART(GOMP_loop_ull_static_start, 0) USTART(GOMP_loop_ull_dynamic_start, 1) USTART(GOMP_loop_ull_guided_start, 2) USTART(GOMP_loop_ull_nonmonotonic_dynamic_start, 1) USTART(GOMP_loop_ull_nonmonotonic_guided_start, 2)
#define USTARTR(name) bool name(bool up, u64 s, u64 e, u64 i, u64* is, u64* ie) { Rt r; ull_setup(cur_ws(), up, s, e, i, 1, 1); return ull_next(is, ie); }
USTARTR(GOMP_loop_ull_runtime_start) USTARTR(GOMP_loop_ull_nonmonotonic_runtime_start) USTARTR(GOMP_loop_ull_maybe_nonmonotonic_runtime_start)
#define UNEXT(name) bool name(u64* is, u64* ie) { Rt r; return ull_next(is, ie); }
UNEXT(GOMP_loop_ull_static_next) UNEXT(GOMP_loop_ull_dynamic_next) UNEXT(GOMP_loop_ull_guided_next) UNEXT(GOMP_loop_ull_runtime_next) UNEXT(GOMP_loop_ull_nonmonotonic_dynamic_next) UNEXT(GOMP_loop_ull_nonmonotonic_guided_next) UNEXT(GOMP_loop_ull_nonmonotonic_runtime_next) UNEXT(GOMP_loop_ull_maybe_nonmonotonic_runtime_next)
void GOMP_loop_end() { Rt r; g.cur->wsidx++; team_barrier(); }
void GOMP_loop_end_nowait() { Rt r; g.cur->wsidx++; sync_point(O_OMP, 0); }
bool GOMP_loop_end_cancel() { Rt r; g.cur->wsidx++; team_barrier(); return false; }
void GOMP_barrier() { if (OFF) return; Rt r; team_barrier(); }
bool GOMP_barrier_cancel() { Rt r; team_barrier(); return false; }
void GOMP_critical_start() { Rt r; crit_enter(2); }
void GOMP_critical_end() { Rt r; crit_leave(2); }
void GOMP_critical_name_start(void** p) { Rt r; crit_enter((uptr)p); }
void GOMP_critical_name_end(void** p) { Rt r; crit_leave((uptr)p); }
void GOMP_atomic_start() { Rt r; crit_enter(3); }
void GOMP_atomic_end() { Rt r; crit_leave(3); }
bool GOMP_single_start() { Rt r; Team* t = g.cur->team; if (!t) return true; sync_point(O_OMP, 0); return (*t->single)[g.cur->singleidx++]++ == 0; }
void* GOMP_single_copy_start() { Rt r; Team* t = g.cur->team; if (!t || t->n == 1) return nullptr; if ((*t->single)[g.cur->singleidx++]++ == 0) return nullptr; team_barrier(); return t->copy; }
void GOMP_single_copy_end(void* d) { Rt r; Team* t = g.cur->team; if (!t || t->n == 1) return; t->copy = d; team_barrier(); }
static unsigned sec_next() { sync_point(O_CHUNK, 0); WS& w = cur_ws(); return w.scount < w.stotal ? ++w.scount : 0; }
unsigned GOMP_sections_start(unsigned n) { Rt r; WS& w = cur_ws(); if (!w.init) { w.init = true; w.scount = 0; w.stotal = n; } return sec_next(); }
unsigned GOMP_sections_next() { Rt r; return sec_next(); }
void GOMP_sections_end() { Rt r; g.cur->wsidx++; team_barrier(); }
void GOMP_sections_end_nowait() { Rt r; g.cur->wsidx++; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { Rt r; PreSec p{ count }; parallel(fn, d, n, pre_sec, &p); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
    if (!cpy) { fn(data); return; }
    char* buf = (char*)alloca(sz + al); char* p = (char*)(((uptr)buf + al - 1) & ~(uptr)(al - 1)); cpy(p, data); fn(p);
}
void GOMP_taskwait() {} void GOMP_taskyield() { Rt r; sync_point(O_YIELD, 0); } void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
int omp_get_thread_num() { return g.cur ? g.cur->tnum : 0; }
int omp_get_num_threads() { return g.cur && g.cur->team ? g.cur->team->n : 1; }
int omp_get_max_threads() { return g.cur ? omp_default() : 1; }
void omp_set_num_threads(int n) { if (g.cur) g.cur->icv_nthreads = n > 0 ? n : 1; }
int omp_get_num_procs() { return g.cfg.ncpus; }
int omp_in_parallel() { for (Team* t = g.cur ? g.cur->team : nullptr; t; t = t->parent) if (t->n > 1) return 1; return 0; }
int omp_get_level() { int n = 0; for (Team* t = g.cur ? g.cur->team : nullptr; t; t = t->parent) n++; return n; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_thread_limit() { return 1 << 20; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_nested() { return 0; } void omp_set_max_active_levels(int) {} int omp_get_max_active_levels() { return 1; }
double omp_get_wtime() { return now_ns() * 1e-9; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void** l) { Rt r; *l = 0; } void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { Rt r; crit_enter((uptr)l); } void omp_unset_lock(void** l) { Rt r; crit_leave((uptr)l); }
int omp_test_lock(void** l) { Rt r; sync_point(O_TRY, (uptr)l); auto it = crits->find(std::make_pair(g.cur->rank, (uptr)l)); if (it != crits->end() && it->second.owner >= 0) return 0; crit_enter((uptr)l); return 1; }

// atomics
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* p, int mo) { if (OFF) return *p; Rt r; at_pre((uptr)p, sizeof(T), false, PC); at_acq((uptr)p, mo); return *p; } \
void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { if (OFF) { *p = v; return; } Rt r; at_pre((uptr)p, sizeof(T), true, PC); at_store2((uptr)p, mo); *p = v; } \
T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { if (OFF) { T o = *p; *p = v; return o; } Rt r; at_pre((uptr)p, sizeof(T), true, PC); at_rmw((uptr)p, mo); T o = *p; *p = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { if (OFF) { T o = *p; *p = o + v; return o; } Rt r; at_pre((uptr)p, sizeof(T), true, PC); at_rmw((uptr)p, mo); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { if (OFF) { T o = *p; *p = o - v; return o; } Rt r; at_pre((uptr)p, sizeof(T), true, PC); at_rmw((uptr)p, mo); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { if (OFF) { T o = *p; *p = o & v; return o; } Rt r; at_pre((uptr)p, sizeof(T), true, PC); at_rmw((uptr)p, mo); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { if (OFF) { T o = *p; *p = o | v; return o; } Rt r; at_pre((uptr)p, sizeof(T), true, PC); at_rmw((uptr)p, mo); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { if (OFF) { T o = *p; *p = o ^ v; return o; } Rt r; at_pre((uptr)p, sizeof(T), true, PC); at_rmw((uptr)p, mo); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { Rt r; if (g.active && g_rt == 1) { at_pre((uptr)p, sizeof(T), true, PC); at_rmw((uptr)p, mo); } T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
    if (OFF) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    Rt r; at_pre((uptr)p, sizeof(T), true, PC); if (*p == *e) { at_rmw((uptr)p, mo); *p = v; return 1; } at_acq((uptr)p, fmo); *e = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { if (OFF) return; Rt r; sync_point(O_ATOMIC, 0); AVC& a = avc(FENCE); hb_acquire(a.vc); hb_release_merge(a.vc); }
void __tsan_atomic_signal_fence(int) {}
}
