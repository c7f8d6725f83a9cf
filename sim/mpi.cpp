// Simulated message passing: every rank is a group of fibers; messages and collectives go through this table.
#include "core.hpp"
#include "mpi.h"
#include <algorithm>
#include <exception>
namespace sim {
enum COp { C_NONE = 0, C_BARRIER, C_BCAST, C_REDUCE, C_ALLREDUCE, C_GATHER, C_ALLGATHER, C_SCATTER, C_ALLTOALL, C_SCAN, C_EXSCAN, C_FINAL, C_RSB, C_INIT };
static const char* const cname[] = { "?", "barrier", "broadcast", "reduce", "all-reduce", "gather", "all-gather", "scatter", "all-to-all", "scan", "exclusive scan", "finalize", "reduce-scatter", "init" };
struct Coll { int op, root, dt, rop; long bytes; int arrived; rvec<rvec<char>>* in; rvec<char>* present; rvec<char>* result; bool done; VC vc; int order; long count; };
struct Msg { int src, tag, comm; rvec<char>* data; const void* lazy; u64 ready; u64 id; VC vc; }; // lazy: a send whose buffer has not been read yet
struct Rank { bool inited, finalized, crashed, dying; u64 nextc; MpiHist* hist; };
static int W; static rvec<Rank>* R; static rmap<u64, Coll*>* colls; static rvec<rvec<Msg*>>* q; static u64 msgid; static rmap<u64, int>* delivered;
struct Req { int kind; int rank; u64 id; void* buf; long cnt; int dt, src, tag, comm; Msg* got; Coll* coll; }; // kind 1 send 2 receive 3 synchronous send 4 collective
static rvec<Req>* reqs;
static const char W_COLL[] = "in a collective", W_RECV[] = "waiting for a message", W_SEND[] = "waiting for the receiver", W_ANY[] = "waiting for any request";

void mpi_init_rt() { if (!colls) { colls = new (rt_malloc(sizeof *colls)) rmap<u64, Coll*>(); R = new (rt_malloc(sizeof *R)) rvec<Rank>(); q = new (rt_malloc(sizeof *q)) rvec<rvec<Msg*>>(); reqs = new (rt_malloc(sizeof *reqs)) rvec<Req>(1); delivered = new (rt_malloc(sizeof *delivered)) rmap<u64, int>(); } }
// each world is an independent job (several may run one after another in a simulation)
void mpi_world(int n) {
    Rt r; mpi_init_rt(); W = n; R->clear(); q->clear(); colls->clear(); reqs->assign(1, Req()); delivered->clear();
    for (int i = 0; i < n; i++) { Rank k; memset((void*)&k, 0, sizeof k); k.hist = new (rt_malloc(sizeof(MpiHist))) MpiHist(); k.hist->inits = k.hist->finals = k.hist->ncoll = k.hist->sends = k.hist->recvs = 0; k.hist->crashed = false; R->push_back(k); q->push_back(rvec<Msg*>()); }
}
const MpiHist& mpi_hist(int r) { return *(*R)[r].hist; }
int mpi_unreceived() { int n = 0; for (auto& v : *q) n += (int)v.size(); return n; }
int mpi_crashed_count() { int n = 0; if (R) for (auto& k : *R) n += k.crashed; return n; }
void mpi_on_crash(int rank) { if (rank >= 0 && rank < W) { (*R)[rank].crashed = true; (*R)[rank].hist->crashed = true; for (auto& v : *q) for (auto* m : v) if (m->src == rank) m->lazy = nullptr; } }
[[noreturn]] static void bad(const char* sig, const char* fmt, ...) { char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); char st[600]; stack_of(st, sizeof st, 0); verdict(V_MPI, sig, "%s; stack: %s", b, st); }
static int tsize(int dt) { switch (dt) { case 1: case 2: case 3: case 4: case 16: case 17: case 22: case 23: return 1; case 5: case 6: return 2; case 7: case 8: case 13: case 18: case 19: return 4; case 9: case 10: case 11: case 12: case 14: case 20: case 21: case 25: return 8; case 15: case 24: return 16; } bad("datatype", "invalid datatype %d in a communication call", dt); }
static int me() { int r = g.cur->rank; if (r < 0 || r >= W) bad("no rank", "communication call outside a message-passing process"); return r; }
// entry of every communication call; returns an error code to report or 0
static int enter(const char* what, bool need_init = true) {
    int r = me(); g.st.mpi_calls++;
    if (need_init && (!(*R)[r].inited || (*R)[r].finalized)) bad("outside init/finalize", "rank %d calls %s %s", r, what, (*R)[r].finalized ? "after finalize" : "before init");
    sync_point(O_MPI, 0);
    if (g.cfg.fault_cap > 0) { if (fault_fires(K_CRASH)) kill_rank(r); if (fault_fires(K_MPIERR)) { note("rank %d: %s reports an error\n", r, what); return MPI_ERR_OTHER; } }
    u64 d = choose(K_MPIDELAY, 16, g.cfg.delay_p); if (d) sleep_until(now_ns() + (1000ull << d), "message in flight", 0);
    return 0;
}
static int leave() { if (g.cfg.fault_cap > 0 && fault_fires(K_CRASH)) kill_rank(me()); sync_point(O_MPI, 0); return 0; }
static u64 hmix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
static u64 hbytes(const char* p, size_t n) { u64 h = 77; for (size_t i = 0; i < n; i++) h = hmix(h, (u8)p[i]); return h; }
template <class T> static void redu(T* a, const T* b, long n, int op) {
    for (long i = 0; i < n; i++) switch (op) { case MPI_SUM: a[i] = a[i] + b[i]; break; case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break; case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break; case MPI_PROD: a[i] = a[i] * b[i]; break;
        case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LOR: a[i] = a[i] || b[i]; break; default: bad("reduce op", "unsupported reduction %d", op); }
}
static void reduce_bytes(char* a, const char* b, long bytes, int dt, int op) {
    long n = bytes / tsize(dt);
    if (op == MPI_BAND || op == MPI_BOR || op == MPI_BXOR) { for (long i = 0; i < bytes; i++) a[i] = op == MPI_BAND ? a[i] & b[i] : op == MPI_BOR ? a[i] | b[i] : a[i] ^ b[i]; return; }
    switch (dt) {
    case 14: redu((double*)a, (const double*)b, n, op); break; case 13: redu((float*)a, (const float*)b, n, op); break; case 15: redu((long double*)a, (const long double*)b, n, op); break;
    case 7: case 18: redu((int*)a, (const int*)b, n, op); break; case 8: case 19: redu((unsigned*)a, (const unsigned*)b, n, op); break;
    case 9: case 11: case 20: redu((long*)a, (const long*)b, n, op); break; case 10: case 12: case 21: redu((unsigned long*)a, (const unsigned long*)b, n, op); break;
    case 5: redu((short*)a, (const short*)b, n, op); break; case 6: redu((unsigned short*)a, (const unsigned short*)b, n, op); break; case 1: case 2: case 16: redu((signed char*)a, (const signed char*)b, n, op); break;
    default: redu((unsigned char*)a, (const unsigned char*)b, n, op); }
}
static void chk(const void* p, long n, bool w) { if (n <= 0) return; int s = g_rt; g_rt = 0; check_range((uptr)p, n, w, (uptr)__builtin_return_address(1)); g_rt = s; }
// take part in collective; in = this rank's contribution
static Coll* contribute(int op, const void* in, long inbytes, long bytes, int dt, int rop, int root) {
    int r = me(); Rank& k = (*R)[r]; u64 seq = k.nextc++; Coll*& c = (*colls)[seq];
    if (root < 0 || root >= W) bad("root", "rank %d: %s with invalid root %d", r, cname[op], root);
    if (!c) { c = (Coll*)rt_malloc(sizeof(Coll)); memset((void*)c, 0, sizeof *c); c->op = op; c->root = root; c->dt = dt; c->rop = rop; c->bytes = bytes; c->in = new (rt_malloc(sizeof *c->in)) rvec<rvec<char>>(W); c->present = new (rt_malloc(sizeof *c->present)) rvec<char>(W, 0); c->result = nullptr; c->order = (int)choose(K_MPIORDER, (u64)W * 2, 0.7); }
    if (c->op != op && (c->op == C_FINAL || op == C_FINAL) && on_loud) for (auto& x : *R) if (x.dying) on_loud(4, "a process failed with an exception and left the others");
    if (c->op != op || c->root != root || c->bytes != bytes || c->rop != rop || ((rop || op == C_BCAST) && tsize(c->dt ? c->dt : 1) != tsize(dt ? dt : 1)) || (rop && c->dt != dt))
        bad("collective mismatch", "collective call number %llu: rank %d calls %s (root %d, %ld bytes, type %d, op %d), another rank called %s (root %d, %ld bytes, type %d, op %d)", (unsigned long long)seq, r, cname[op], root, bytes, dt, rop, cname[c->op], c->root, c->bytes, c->dt, c->rop);
    k.hist->ncoll++; k.hist->coll_hash.push_back(hmix(hmix(op * 131 + root, bytes), dt * 31 + rop));
    if (in && inbytes > 0) { chk(in, inbytes, false); (*c->in)[r].assign((const char*)in, (const char*)in + inbytes); }
    (*c->present)[r] = 1; c->arrived++; hb_release_merge(c->vc); log_ev(O_MPI, op, seq);
    if (c->arrived == W || op == C_BCAST || op == C_SCATTER) for (int i = 0; i < g.nf; i++) if (g.f[i].st == F_BLOCK && (g.f[i].why_obj == (uptr)c || g.f[i].why == W_ANY)) make_runnable(&g.f[i]);
    return c;
}
static bool coll_ready(Coll* c, int r) {
    int op = c->op, root = c->root; bool all = op == C_BARRIER || op == C_ALLREDUCE || op == C_ALLGATHER || op == C_ALLTOALL || op == C_SCAN || op == C_EXSCAN || op == C_FINAL || op == C_INIT || op == C_RSB || ((op == C_REDUCE || op == C_GATHER) && r == root);
    return all ? c->arrived == W : op == C_BCAST || op == C_SCATTER ? (bool)(*c->present)[root] : true;
}
static void finish(Coll* c) { // once this rank may complete
    int rop = c->rop, dt = c->dt; while (!coll_ready(c, me())) block(W_COLL, (uptr)c);
    hb_acquire(c->vc);
    if (c->arrived == W && rop && !c->result) { // one result, the same for every rank
        c->result = new (rt_malloc(sizeof *c->result)) rvec<char>(); int st = c->order % W; bool rev = c->order >= W;
        for (int i = 0; i < W; i++) { int j = rev ? (st + W - i) % W : (st + i) % W; auto& b = (*c->in)[j]; if (!i) *c->result = b; else reduce_bytes(&(*c->result)[0], &b[0], (long)b.size(), dt, rop); }
    }
}
static Coll* collective(int op, const void* in, long inbytes, long bytes, int dt, int rop, int root) { Coll* c = contribute(op, in, inbytes, bytes, dt, rop, root); finish(c); return c; }
static void put(void* out, const void* src, long n) { if (n <= 0) return; chk(out, n, true); __real_memcpy(out, src, n); }
static void resh(int r, const void* p, long n) { (*R)[r].hist->res_hash.push_back(hbytes((const char*)p, n > 0 ? n : 0)); }
// point to point
static Msg* post(const void* b, long n, int dst, int tag, int comm, bool lazy = false) {
    int r = me(); if (dst < 0 || dst >= W) bad("dest", "rank %d sends to invalid rank %d", r, dst);
    chk(b, n, false); Msg* m = (Msg*)rt_malloc(sizeof(Msg)); memset((void*)m, 0, sizeof *m); m->src = r; m->tag = tag; m->comm = comm; m->data = new (rt_malloc(sizeof *m->data)) rvec<char>((const char*)b, (const char*)b + n); m->id = ++msgid; if (lazy && choose(K_MPIDELAY, 2, 0.5)) m->lazy = b;
    u64 d = choose(K_MPIDELAY, 16, g.cfg.delay_p); m->ready = now_ns() + (d ? (1000ull << d) : 0);
    hb_release(m->vc); (*q)[dst].push_back(m); (*R)[r].hist->sends++; log_ev(O_MPI, 100 + dst, m->id);
    for (int i = 0; i < g.nf; i++) if ((g.f[i].st == F_BLOCK || g.f[i].st == F_SLEEP) && (g.f[i].why == W_RECV || g.f[i].why == W_ANY) && g.f[i].rank == dst) make_runnable(&g.f[i]);
    return m;
}
static bool match(Msg* m, int src, int tag, int comm) { return (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag) && m->comm == comm; }
// find the message to receive now: for a given sender messages are matched in the order sent
static int find(int r, int src, int tag, int comm, u64* wait) {
    rvec<Msg*>& v = (*q)[r]; rvec<int> cand; bool seen[256] = { false }; *wait = NEVER;
    for (size_t i = 0; i < v.size(); i++) if (match(v[i], src, tag, comm) && !seen[v[i]->src]) { seen[v[i]->src] = true; if (v[i]->ready <= now_ns()) cand.push_back((int)i); else if (v[i]->ready < *wait) *wait = v[i]->ready; }
    if (cand.empty()) return -1; return cand[choose(K_MPIORDER, cand.size(), 0.5)];
}
static void read_now(Msg* m) { if (m->lazy) { check_alive((uptr)m->lazy, m->data->size(), false, (uptr)__builtin_return_address(0)); if (m->data->size()) __real_memcpy(m->data->data(), m->lazy, m->data->size()); m->lazy = nullptr; } }
static Msg* take(int r, int i) { Msg* m = (*q)[r][i]; read_now(m); (*q)[r].erase((*q)[r].begin() + i); hb_acquire(m->vc); (*delivered)[m->id] = 1; for (int j = 0; j < g.nf; j++) if (g.f[j].st == F_BLOCK && (g.f[j].why == W_SEND || g.f[j].why == W_ANY)) make_runnable(&g.f[j]); (*R)[r].hist->recvs++; log_ev(O_MPI, 200 + m->src, m->id); return m; }
// messages go to the receives of a rank in the order they were posted
static u64 progress(int r) { u64 next = NEVER; for (auto& x : *reqs) if (x.kind == 2 && x.rank == r && !x.got) { u64 w; int i = find(r, x.src, x.tag, x.comm, &w); if (i >= 0) x.got = take(r, i); else if (w < next) next = w; } return next; }
static Msg* get_msg(int src, int tag, int comm, bool remove) {
    int r = me();
    for (;;) {
        progress(r); u64 w; int i = find(r, src, tag, comm, &w);
        if (i >= 0) return remove ? take(r, i) : (*q)[r][i];
        if (w != NEVER) sleep_until(w, W_RECV, 0); else block(W_RECV, 0);
    }
}
static void fill_status(MPI_Status* s, Msg* m) { if (s) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->MPI_ERROR = 0; s->count_ = (long)m->data->size(); } }
static int deliver(Msg* m, void* b, long n, MPI_Status* s) {
    fill_status(s, m);
    if ((long)m->data->size() > n) bad("truncation", "rank %d receives %zu bytes from rank %d into a buffer for %ld", me(), m->data->size(), m->src, n);
    put(b, m->data->data(), (long)m->data->size()); return 0;
}
static int recv_into(void* b, long n, int src, int tag, int comm, MPI_Status* s) {
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= W)) bad("source", "rank %d receives from invalid rank %d", me(), src);
    return deliver(get_msg(src, tag, comm, true), b, n, s);
}
static void send_wait(u64 id) { while (!delivered->count(id)) block(W_SEND, 0); }
static int do_send(const void* b, int c, int dt, int dst, int tag, int comm, int mode) { // mode 0 standard, 1 synchronous, 2 buffered
    Rt r; int e = enter("send"); if (e) return e; if (dst == MPI_PROC_NULL) return 0; Msg* m = post(b, (long)c * tsize(dt), dst, tag, comm); u64 id = m->id;
    bool wait = mode == 1 || (mode == 0 && choose(K_MPIDELAY, 2, 0.5)); if (wait) send_wait(id); return leave();
}
}
using namespace sim;
extern "C" {
int MPI_Init(int*, char***) { Rt r; int k = me(); if ((*R)[k].inited) bad("double init", "rank %d initialises message passing twice", k); int e = enter("init", false); if (e) return e; (*R)[k].inited = true; (*R)[k].hist->inits++; sync_point(O_MPI, 0); return 0; }
int MPI_Init_thread(int* a, char*** b, int rq, int* pr) { if (pr) *pr = rq; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { Rt r; *f = (*R)[me()].inited; return 0; }
int MPI_Finalized(int* f) { Rt r; *f = (*R)[me()].finalized; return 0; }
int MPI_Finalize() { Rt r; int k = me(); int e = enter("finalize"); if (e) return e; if (std::current_exception()) (*R)[k].dying = true; collective(C_FINAL, nullptr, 0, 0, 0, 0, 0); (*R)[k].finalized = true; (*R)[k].hist->finals++; return leave(); }
int MPI_Abort(MPI_Comm, int c) { Rt r; char b[80]; snprintf(b, sizeof b, "MPI_Abort(%d)", c); sh->loud_kind = 2; if (on_loud) on_loud(2, b); verdict(V_LOUD, "MPI_Abort", "%s", b); }
int MPI_Comm_size(MPI_Comm c, int* n) { Rt r; if (int e = enter("comm_size")) return e; *n = c == MPI_COMM_SELF ? 1 : W; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* n) { Rt r; if (int e = enter("comm_rank")) return e; *n = c == MPI_COMM_SELF ? 0 : me(); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { *o = c; return 0; } int MPI_Comm_free(MPI_Comm* c) { *c = 0; return 0; }
int MPI_Get_processor_name(char* b, int* n) { strcpy(b, "sim"); *n = 3; return 0; }
int MPI_Error_string(int e, char* b, int* n) { *n = snprintf(b, 64, "error %d", e); return 0; }
int MPI_Type_size(MPI_Datatype d, int* n) { Rt r; *n = tsize(d); return 0; }
double MPI_Wtime() { return now_ns() * 1e-9; }
int MPI_Barrier(MPI_Comm) { Rt r; if (int e = enter("barrier")) return e; collective(C_BARRIER, 0, 0, 0, 0, 0, 0); return leave(); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) {
    Rt r; if (int e = enter("bcast")) return e; long z = (long)n * tsize(t); bool rt = me() == root; Coll* c = collective(C_BCAST, rt ? b : nullptr, rt ? z : 0, z, t, 0, root);
    if (!rt) put(b, (*c->in)[root].data(), z); resh(me(), b, z); return leave();
}
int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    Rt r; if (int e = enter("allreduce")) return e; long z = (long)n * tsize(t);
    if (s != MPI_IN_PLACE && z > 0 && (const char*)s < (const char*)d + z && (const char*)d < (const char*)s + z) bad("aliased buffers", "rank %d: all-reduce with overlapping send and receive buffers", me());
    Coll* c = collective(C_ALLREDUCE, s == MPI_IN_PLACE ? d : s, z, z, t, op, 0); put(d, c->result->data(), z); resh(me(), d, z); return leave();
}
int MPI_Reduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
    Rt r; if (int e = enter("reduce")) return e; long z = (long)n * tsize(t); Coll* c = collective(C_REDUCE, s == MPI_IN_PLACE ? d : s, z, z, t, op, root); if (me() == root) { put(d, c->result->data(), z); resh(me(), d, z); } return leave();
}
int MPI_Reduce_scatter_block(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { Rt r; if (int e = enter("reduce_scatter")) return e; long z = (long)n * tsize(t); Coll* c = collective(C_RSB, s == MPI_IN_PLACE ? d : s, z * W, z * W, t, op, 0); put(d, c->result->data() + z * me(), z); return leave(); }
static int scan(const void* s, void* d, int n, int t, int op, bool ex) {
    Rt r; if (int e = enter("scan")) return e; long z = (long)n * tsize(t); int k = me(); Coll* c = collective(ex ? C_EXSCAN : C_SCAN, s == MPI_IN_PLACE ? d : s, z, z, t, op, 0);
    int last = ex ? k - 1 : k; if (last >= 0) { rvec<char> a = (*c->in)[0]; for (int i = 1; i <= last; i++) reduce_bytes(a.data(), (*c->in)[i].data(), z, t, op); put(d, a.data(), z); } return leave();
}
int MPI_Scan(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { return scan(s, d, n, t, op, false); }
int MPI_Exscan(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { return scan(s, d, n, t, op, true); }
static int gather(int op, const void* s, long sz, void* d, long rz, const int* cn, const int* dp, long ts, int root) {
    int k = me(); const void* in = s; if (s == MPI_IN_PLACE) { sz = cn ? cn[k] * ts : rz; in = (char*)d + (dp ? dp[k] * ts : rz * k); }
    Coll* c = collective(op, in, sz, cn ? -1 : sz, 0, 0, root);
    if (op == C_ALLGATHER || k == root) for (int i = 0; i < W; i++) { auto& b = (*c->in)[i]; long lim = cn ? cn[i] * ts : rz; if ((long)b.size() > lim) bad("truncation", "%s: rank %d contributes %zu bytes, %ld expected", cname[op], i, b.size(), lim); put((char*)d + (dp ? dp[i] * ts : rz * i), b.data(), (long)b.size()); }
    return leave();
}
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* d, int rn, MPI_Datatype rt, int root, MPI_Comm) { Rt r; if (int e = enter("gather")) return e; return gather(C_GATHER, s, (long)n * tsize(t), d, (long)rn * tsize(rt), 0, 0, 0, root); }
int MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* d, const int* cn, const int* dp, MPI_Datatype rt, int root, MPI_Comm) { Rt r; if (int e = enter("gatherv")) return e; int k = me(); static const int z = 0; (void)z; return k == root ? gather(C_GATHER, s, (long)n * tsize(t), d, 0, cn, dp, tsize(rt), root) : (collective(C_GATHER, s, (long)n * tsize(t), -1, 0, 0, root), leave()); }
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* d, int rn, MPI_Datatype rt, MPI_Comm) { Rt r; if (int e = enter("allgather")) return e; return gather(C_ALLGATHER, s, (long)n * tsize(t), d, (long)rn * tsize(rt), 0, 0, 0, 0); }
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* d, const int* cn, const int* dp, MPI_Datatype rt, MPI_Comm) { Rt r; if (int e = enter("allgatherv")) return e; return gather(C_ALLGATHER, s, (long)n * tsize(t), d, 0, cn, dp, tsize(rt), 0); }
int MPI_Scatter(const void* s, int n, MPI_Datatype t, void* d, int rn, MPI_Datatype rt, int root, MPI_Comm) {
    Rt r; if (int e = enter("scatter")) return e; int k = me(); long z = (long)rn * tsize(rt); Coll* c = collective(C_SCATTER, k == root ? s : nullptr, k == root ? (long)n * tsize(t) * W : 0, z, 0, 0, root); if (d != MPI_IN_PLACE) put(d, (*c->in)[root].data() + z * k, z); return leave();
}
int MPI_Scatterv(const void* s, const int* cn, const int* dp, MPI_Datatype t, void* d, int rn, MPI_Datatype rt, int root, MPI_Comm) {
    Rt r; if (int e = enter("scatterv")) return e; int k = me(); long ts = tsize(t); rvec<char> flat; if (k == root) { u64 hdr[256]; long tot = 0; for (int i = 0; i < W; i++) { hdr[i] = tot; tot += cn[i] * ts; } flat.assign((char*)hdr, (char*)(hdr + W)); for (int i = 0; i < W; i++) flat.insert(flat.end(), (const char*)s + dp[i] * ts, (const char*)s + (dp[i] + cn[i]) * ts); }
    Coll* c = collective(C_SCATTER, flat.data(), (long)flat.size(), -1, 0, 0, root); auto& b = (*c->in)[root]; u64 off = ((u64*)b.data())[k]; put(d, b.data() + W * 8 + off, (long)rn * tsize(rt)); return leave();
}
int MPI_Alltoall(const void* s, int n, MPI_Datatype t, void* d, int rn, MPI_Datatype rt, MPI_Comm) { Rt r; if (int e = enter("alltoall")) return e; long z = (long)n * tsize(t); int k = me(); Coll* c = collective(C_ALLTOALL, s, z * W, z * W, 0, 0, 0); long rz = (long)rn * tsize(rt); for (int i = 0; i < W; i++) put((char*)d + rz * i, (*c->in)[i].data() + z * k, rz); return leave(); }

int MPI_Send(const void* b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m) { return do_send(b, c, t, d, tag, m, 0); }
int MPI_Rsend(const void* b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m) { return do_send(b, c, t, d, tag, m, 0); }
int MPI_Ssend(const void* b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m) { return do_send(b, c, t, d, tag, m, 1); }
int MPI_Bsend(const void* b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m) { return do_send(b, c, t, d, tag, m, 2); }
int MPI_Recv(void* b, int c, MPI_Datatype t, int s, int tag, MPI_Comm m, MPI_Status* st) { Rt r; if (int e = enter("recv")) return e; if (s == MPI_PROC_NULL) return 0; recv_into(b, (long)c * tsize(t), s, tag, m, st); return leave(); }
int MPI_Sendrecv(const void* b, int c, MPI_Datatype t, int d, int tag, void* rb, int rc, MPI_Datatype rt, int s, int rtag, MPI_Comm m, MPI_Status* st) { Rt r; if (int e = enter("sendrecv")) return e; Msg* x = d == MPI_PROC_NULL ? nullptr : post(b, (long)c * tsize(t), d, tag, m); u64 id = x ? x->id : 0; if (s != MPI_PROC_NULL) recv_into(rb, (long)rc * tsize(rt), s, rtag, m, st); if (x && choose(K_MPIDELAY, 2, 0.5)) send_wait(id); return leave(); }
static int isend(const void* b, int c, int t, int d, int tag, int m, MPI_Request* rq, bool sync) { Rt r; if (int e = enter("isend")) return e; if (d == MPI_PROC_NULL) { *rq = MPI_REQUEST_NULL; return leave(); } Msg* x = post(b, (long)c * tsize(t), d, tag, m, true); Req q0; memset(&q0, 0, sizeof q0); q0.kind = sync ? 3 : 1; q0.rank = me(); q0.id = x->id; q0.dt = d; reqs->push_back(q0); *rq = (int)reqs->size() - 1; return leave(); }
int MPI_Isend(const void* b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m, MPI_Request* rq) { return isend(b, c, t, d, tag, m, rq, false); }
int MPI_Issend(const void* b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m, MPI_Request* rq) { return isend(b, c, t, d, tag, m, rq, true); }
int MPI_Irecv(void* b, int c, MPI_Datatype t, int s, int tag, MPI_Comm m, MPI_Request* rq) { Rt r; if (int e = enter("irecv")) return e; Req q0; memset(&q0, 0, sizeof q0); q0.kind = 2; q0.rank = me(); q0.buf = b; q0.cnt = (long)c * tsize(t); q0.src = s; q0.tag = tag; q0.comm = m; reqs->push_back(q0); *rq = (int)reqs->size() - 1; return leave(); }
static Req* req_of(MPI_Request* rq) { if (*rq <= 0) return nullptr; if (*rq >= (int)reqs->size() || !(*reqs)[*rq].kind || (*reqs)[*rq].rank != me()) bad("request", "rank %d waits for request %d, which it did not start", me(), *rq); return &(*reqs)[*rq]; }
static bool req_ready(Req& x, u64* next) {
    if (x.kind == 2) { u64 w = progress(x.rank); if (w < *next) *next = w; return x.got; }
    return x.kind == 4 ? coll_ready(x.coll, x.rank) : x.kind == 3 ? delivered->count(x.id) > 0 : delivered->count(x.id) || choose(K_MPIDELAY, 2, 0.5) == 0;
}
// the request can be completed: do so
static void conclude(MPI_Request* rq, MPI_Status* st) {
    Req x = (*reqs)[*rq]; (*reqs)[*rq].kind = 0; *rq = MPI_REQUEST_NULL;
    if (x.kind == 2) deliver(x.got, x.buf, x.cnt, st);
    else if (x.kind == 4) { finish(x.coll); Coll* c = x.coll; switch (c->op) { case C_BCAST: if (x.rank != c->root) put(x.buf, (*c->in)[c->root].data(), x.cnt); break; case C_ALLREDUCE: put(x.buf, c->result->data(), x.cnt); break; case C_REDUCE: if (x.rank == c->root) put(x.buf, c->result->data(), x.cnt); break; case C_ALLGATHER: for (int i = 0; i < W; i++) put((char*)x.buf + x.cnt * i, (*c->in)[i].data(), (long)(*c->in)[i].size()); break; default: break; } if (c->op == C_BCAST || c->op == C_ALLREDUCE) resh(x.rank, x.buf, x.cnt); }
    else for (auto* m : (*q)[x.dt]) if (m->id == x.id) read_now(m); // sent out of a copy from now on
}
static void complete(MPI_Request* rq, MPI_Status* st) {
    if (!req_of(rq)) return;
    for (;;) { Req& x = *req_of(rq); u64 next = NEVER; if (req_ready(x, &next)) break; if (x.kind == 2) { if (next != NEVER) sleep_until(next, W_RECV, 0); else block(W_RECV, 0); } else if (x.kind == 4) block(W_COLL, (uptr)x.coll); else { send_wait(x.id); break; } }
    conclude(rq, st);
}
int MPI_Wait(MPI_Request* rq, MPI_Status* st) { Rt r; if (int e = enter("wait")) return e; complete(rq, st); return leave(); }
int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* st) { Rt r; if (int e = enter("waitall")) return e; for (int i = 0; i < n; i++) complete(&rq[i], st ? st + i : st); return leave(); }
// those of the requests that can be completed now; waits for one if asked to
static rvec<int> some(int n, MPI_Request* rq, bool wait, bool* active) {
    for (;;) {
        rvec<int> v; u64 next = NEVER; *active = false; for (int i = 0; i < n; i++) if (Req* x = req_of(&rq[i])) { *active = true; if (req_ready(*x, &next)) v.push_back(i); }
        if (!v.empty() || !*active || !wait) return v;
        if (next != NEVER) sleep_until(next, W_ANY, 0); else block(W_ANY, 0);
    }
}
int MPI_Waitany(int n, MPI_Request* rq, int* idx, MPI_Status* st) { Rt r; if (int e = enter("waitany")) return e; bool a; rvec<int> v = some(n, rq, true, &a); *idx = MPI_UNDEFINED; if (!v.empty()) { *idx = v[choose(K_MPIORDER, v.size(), 0.5)]; conclude(&rq[*idx], st); } return leave(); }
int MPI_Waitsome(int n, MPI_Request* rq, int* cnt, int* idx, MPI_Status* st) { Rt r; if (int e = enter("waitsome")) return e; bool a; rvec<int> v = some(n, rq, true, &a); *cnt = a ? 0 : MPI_UNDEFINED; u64 m = v.empty() ? 0 : 1 + choose(K_MPIORDER, v.size(), 0.5); for (u64 i = 0; i < m; i++) { conclude(&rq[v[i]], st ? st + i : st); idx[(*cnt)++] = v[i]; } return leave(); }
// a poll that finds nothing lets simulated time pass, so that a rank that polls cannot starve the others
static int polled(int f) { if (!f) { if (++mpi_polls > 100000 && on_deadlock && mpi_crashed_count()) on_deadlock("survivors poll for ever"); sleep_until(now_ns() + 20000, "polling", 0); } return leave(); }
int MPI_Test(MPI_Request* rq, int* f, MPI_Status* st) { Rt r; if (int e = enter("test")) return e; u64 w = NEVER; Req* x = req_of(rq); *f = !x || req_ready(*x, &w); if (x && *f) conclude(rq, st); return polled(*f); }
int MPI_Testall(int n, MPI_Request* rq, int* f, MPI_Status* st) { Rt r; if (int e = enter("testall")) return e; *f = 1; for (int i = 0; i < n; i++) { u64 w = NEVER; Req* x = req_of(&rq[i]); if (x && !req_ready(*x, &w)) *f = 0; } if (*f) for (int i = 0; i < n; i++) if (rq[i] > 0) conclude(&rq[i], st ? st + i : st); return polled(*f); }
int MPI_Testany(int n, MPI_Request* rq, int* idx, int* f, MPI_Status* st) { Rt r; if (int e = enter("testany")) return e; bool a; rvec<int> v = some(n, rq, false, &a); *idx = MPI_UNDEFINED; *f = !a || !v.empty(); if (!v.empty()) { *idx = v[choose(K_MPIORDER, v.size(), 0.5)]; conclude(&rq[*idx], st); } return polled(*f); }
static int icoll(Coll* c, void* out, long n, MPI_Request* rq) { Req q0; memset(&q0, 0, sizeof q0); q0.kind = 4; q0.rank = me(); q0.coll = c; q0.buf = out; q0.cnt = n; reqs->push_back(q0); *rq = (int)reqs->size() - 1; return leave(); }
int MPI_Ibarrier(MPI_Comm, MPI_Request* rq) { Rt r; if (int e = enter("ibarrier")) return e; return icoll(contribute(C_BARRIER, 0, 0, 0, 0, 0, 0), nullptr, 0, rq); }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm, MPI_Request* rq) { Rt r; if (int e = enter("ibcast")) return e; long z = (long)n * tsize(t); bool rt = me() == root; return icoll(contribute(C_BCAST, rt ? b : nullptr, rt ? z : 0, z, t, 0, root), b, z, rq); }
int MPI_Iallreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm, MPI_Request* rq) { Rt r; if (int e = enter("iallreduce")) return e; long z = (long)n * tsize(t); return icoll(contribute(C_ALLREDUCE, s == MPI_IN_PLACE ? d : s, z, z, t, op, 0), d, z, rq); }
int MPI_Ireduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm, MPI_Request* rq) { Rt r; if (int e = enter("ireduce")) return e; long z = (long)n * tsize(t); return icoll(contribute(C_REDUCE, s == MPI_IN_PLACE ? d : s, z, z, t, op, root), d, z, rq); }
int MPI_Iallgather(const void* s, int n, MPI_Datatype t, void* d, int rn, MPI_Datatype rt, MPI_Comm, MPI_Request* rq) { Rt r; if (int e = enter("iallgather")) return e; long z = (long)rn * tsize(rt); return icoll(contribute(C_ALLGATHER, s == MPI_IN_PLACE ? (const char*)d + z * me() : s, s == MPI_IN_PLACE ? z : (long)n * tsize(t), z, 0, 0, 0), d, z, rq); }
int MPI_Probe(int s, int tag, MPI_Comm m, MPI_Status* st) { Rt r; if (int e = enter("probe")) return e; fill_status(st, get_msg(s, tag, m, false)); return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm m, int* f, MPI_Status* st) { Rt r; if (int e = enter("iprobe")) return e; u64 w; int i = find(me(), s, tag, m, &w); *f = i >= 0; if (i >= 0) fill_status(st, (*q)[me()][i]); return polled(*f); }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { Rt r; *n = (int)(s->count_ / tsize(t)); return 0; }
}
