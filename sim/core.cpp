// Core of the simulator: fibers, scheduler, choice recording/replay, memory-access events, heap.
#include "core.hpp"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <link.h>
#include <elf.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <cxxabi.h>
#include <sys/single_threaded.h>
#include <exception>
#include <typeinfo>
#include <algorithm>

extern "C" { extern char __libc_single_threaded; char __libc_single_threaded = 0; extern char _end, __data_start; }

namespace sim {
const char* const kind_name[K_MAX] = { "none", "sched", "spurious_wakeup", "signal_pick", "stall", "clock_jump", "open_fail", "seek_fail",
    "read_fault", "close_fault", "write_fault", "open_for_write_fail", "mkdir_tool_fail", "thread_create_fail", "numa_alloc_fail", "alloc_fail",
    "mpi_error", "message_delay", "rank_crash", "reduction_order", "memory_fill" };
const char* const strategy_name[ST_N] = { "sync-random", "random-gap", "pct", "conflict-biased", "default" };
const char* const vclass_name[V_N] = { "ok", "deadlock", "step-budget", "loud-failure", "memory-error", "sync-misuse", "data-race", "wrong-result",
    "communication", "resource", "signal", "infrastructure" };
const char* const op_name[O_N] = { "", "lock", "unlock", "trylock", "cond_wait", "cond_woken", "signal", "broadcast", "create", "join", "exit", "atomic",
    "parallel", "chunk", "barrier", "critical", "mpi", "io", "yield", "switch", "fault", "mutex_init", "mutex_destroy", "cond_init", "cond_destroy", "sleep" };

Shared* sh; int g_rt = 1; G g;
uptr glob_lo, glob_hi; u64* grsh; u32* gpsh;
void (*on_loud)(int, const char*) = nullptr;
void (*on_deadlock)(const char*) = nullptr;
u64 mpi_polls = 0;

void* rt_malloc(size_t n) { void* p = __real_malloc(n); if (!p) _exit(99); return p; }
void rt_free(void* p) { __real_free(p); }

// ---------- history ring (for reports) ----------
struct HRec { u8 fiber; u8 op; u64 ev; u64 a, b; };
static HRec hring[256]; static u64 hn;
static u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
void log_ev(int op, u64 a, u64 b) {
    int fid = g.cur ? g.cur->id : 255;
    HRec& r = hring[hn++ & 255]; r.fiber = fid; r.op = op; r.ev = g.cur ? g.cur->ev : 0; r.a = a; r.b = b;
    g.st.log_hash = mix(g.st.log_hash, ((u64)fid << 56) ^ ((u64)op << 48) ^ (a << 20) ^ b ^ (r.ev << 8));
    if (op != O_SWITCH) { g.st.sync_hash = mix(g.st.sync_hash, ((u64)fid << 32) ^ (op << 24) ^ a); g.st.sync_ops++; }
}
void history(char* buf, size_t n) {
    size_t o = 0; u64 k = hn < 60 ? hn : 60;
    for (u64 i = hn - k; i < hn && o + 100 < n; i++) {
        HRec& r = hring[i & 255];
        o += snprintf(buf + o, n - o, "f%u@%llu %s #%llu %llu\n", r.fiber, (unsigned long long)r.ev, op_name[r.op], (unsigned long long)r.a, (unsigned long long)r.b);
    }
}
void note(const char* fmt, ...) {
    size_t o = strlen(sh->note); if (o + 200 > sizeof sh->note) return;
    va_list ap; va_start(ap, fmt); vsnprintf(sh->note + o, sizeof sh->note - o, fmt, ap); va_end(ap);
}
static rumap<uptr, u32>* objs;
u32 obj_id(uptr a) { auto it = objs->find(a); if (it != objs->end()) return it->second; u32 n = (u32)objs->size() + 1; (*objs)[a] = n; return n; }

// ---------- verdict ----------
static bool in_verdict; static u8 fillbyte;
static void set_stop(Fiber* f);
static Cfg quiet_saved;
void quiet(bool on) {
    Rt r;
    if (on) {
        if (g.quiet++) return;
        quiet_saved = g.cfg; Cfg c = g.cfg; c.strategy = ST_DEFAULT; c.sync_p = c.spurious_p = c.stall_p = c.clock_p = c.delay_p = 0; c.fault_cap = 0;
        for (int i = 0; i < K_MAX; i++) { c.fault_p[i] = 0; c.fault_at[i] = -1; }
        g.cfg = c; fillbyte ^= 0x5A;
    } else {
        if (--g.quiet) return;
        g.cfg = quiet_saved; fillbyte ^= 0x5A;
    }
    set_stop(g.cur);
}
void verdict(int cls, const char* sig, const char* fmt, ...) {
    g_rt++;
    if (in_verdict) _exit(98);
    in_verdict = true;
    sh->vclass = cls; snprintf(sh->sig, sizeof sh->sig, "%s", sig);
    va_list ap; va_start(ap, fmt); vsnprintf(sh->detail, sizeof sh->detail, fmt, ap); va_end(ap);
    for (char* q : { sh->sig, sh->detail }) for (; *q; q++) if ((u8)*q < 32) *q = ' ';
    if (cls != V_OK) history(sh->trace, sizeof sh->trace);
    if (g.cur) g.st.events = g.gev_base + (g.cur->ev);
    g.st.sim_ns = now_ns();
    g.st.run_hash = mix(mix(g.st.log_hash, g.st.events), mix(cls, g.st.sim_ns));
    for (const char* p = sh->detail; *p; p++) g.st.run_hash = mix(g.st.run_hash, *p);
    sh->st = g.st;
    __sync_synchronize();
    sh->done = 1;
    _exit(0);
}
void probe(int i) { g.st.probes[i]++; }
void fault_off(Kind k) { Rt r; g.cfg.fault_at[k] = -1; g.cfg.fault_p[k] = 0; }
bool faults_fired() { return g.nfaults > 0; }

// ---------- symbols ----------
struct Sym { uptr a; u32 sz; const char* n; };
static rvec<Sym>* syms;
static void load_syms() {
    if (syms) return; syms = new (rt_malloc(sizeof *syms)) rvec<Sym>();
    int fd = open("/proc/self/exe", O_RDONLY); if (fd < 0) return;
    struct stat sb; fstat(fd, &sb); char* b = (char*)mmap(0, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
    if (b == MAP_FAILED) return;
    Elf64_Ehdr* e = (Elf64_Ehdr*)b; Elf64_Shdr* s = (Elf64_Shdr*)(b + e->e_shoff);
    for (int i = 0; i < e->e_shnum; i++) if (s[i].sh_type == SHT_SYMTAB) {
        Elf64_Sym* t = (Elf64_Sym*)(b + s[i].sh_offset); size_t n = s[i].sh_size / sizeof *t; const char* str = b + s[s[i].sh_link].sh_offset;
        for (size_t j = 0; j < n; j++) if (ELF64_ST_TYPE(t[j].st_info) == STT_FUNC && t[j].st_value) syms->push_back(Sym{ t[j].st_value, (u32)t[j].st_size, str + t[j].st_name });
    }
    std::sort(syms->begin(), syms->end(), [](const Sym& x, const Sym& y) { return x.a < y.a; });
}
const char* where(uptr pc, char* buf, size_t n) {
    load_syms();
    auto it = std::upper_bound(syms->begin(), syms->end(), pc, [](uptr p, const Sym& s) { return p < s.a; });
    if (it == syms->begin()) { snprintf(buf, n, "0x%lx", pc); return buf; }
    --it;
    if (pc > it->a + it->sz + 16) { snprintf(buf, n, "0x%lx", pc); return buf; }
    int st; size_t len = 0; g_rt++; char* d = abi::__cxa_demangle(it->n, nullptr, &len, &st); g_rt--;
    snprintf(buf, n, "%s", d ? d : it->n); if (d) __real_free(d);
    // drop the parameter list, keep "operator()"
    int depth = 0; for (char* p = buf; *p; p++) { if (*p == '<') depth++; else if (*p == '>') depth--; else if (*p == '(' && depth == 0 && p != buf && strncmp(p, "(anonymous", 10) && !(p - buf >= 8 && !strncmp(p - 8, "operator", 8))) { *p = 0; break; } }
    return buf;
}
void stack_of(char* buf, size_t n, uptr pc0) {
    size_t o = 0; char w[300]; buf[0] = 0;
    if (pc0) o += snprintf(buf + o, n - o, "%s", where(pc0, w, sizeof w));
    if (!g.cur) return;
    uptr lo = STK_LO + (uptr)g.cur->id * STACK_SZ, hi = lo + STACK_SZ;
    uptr fp = (uptr)__builtin_frame_address(0);
    for (int i = 0; i < 40 && fp >= lo && fp + 16 <= hi && o + 120 < n; i++) {
        uptr ra = ((uptr*)fp)[1], nfp = ((uptr*)fp)[0];
        if (!ra) break;
        const char* s = where(ra, w, sizeof w);
        if (strncmp(s, "sim::", 5) && strncmp(s, "__wrap", 6) && strncmp(s, "__tsan", 6)) o += snprintf(buf + o, n - o, "%s%.110s", o ? " < " : "", s);
        if (nfp <= fp) break;
        fp = nfp;
    }
}

// ---------- TLS of the executable (exception globals, thread_local of the code) ----------
static char* tls_base; static size_t tls_sz, tls_fsz; static const char* tls_img;
static int tls_cb(struct dl_phdr_info* i, size_t, void*) {
    if (i->dlpi_name && i->dlpi_name[0]) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
        tls_base = (char*)i->dlpi_tls_data; tls_sz = i->dlpi_phdr[k].p_memsz; tls_fsz = i->dlpi_phdr[k].p_filesz; tls_img = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
    }
    return 1;
}

// ---------- fibers ----------
extern "C" void sim_switch(void** from, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void dispatch(Fiber* n) {
    Fiber* o = g.cur;
    if (n == o) return;
    g.st.switches++;
    log_ev(O_SWITCH, n->id, 0);
    o->rt = g_rt; o->err = errno;
    if (tls_sz) { __real_memcpy(o->tls, tls_base, tls_sz); __real_memcpy(tls_base, n->tls, tls_sz); }
    g.gev_base += o->ev; g.cur = n; g.gev_base -= n->ev;
    n->run_start = n->ev;
    g.stk_lo = STK_LO + (uptr)n->id * STACK_SZ;
    g_rt = n->rt; set_stop(n);
    sim_switch(&o->sp, n->sp);
    errno = g.cur->err;
}
[[noreturn]] static void fiber_entry() {
    Fiber* f = g.cur;
    g_rt = 0;
    try {
        if (f->pfn) f->ret = f->pfn(f->arg); else f->vfn(f->arg);
    } catch (FiberExit&) {
    }   // any other exception finds no handler: terminate, without unwinding, as in a real thread
    g_rt = 1;
    finish_fiber();
    abort();
}
Fiber* new_fiber(const char* name, int rank) {
    int i; for (i = 0; i < MAXF; i++) if (g.f[i].st == F_FREE) break;
    if (i == MAXF) verdict(V_INFRA, "fibers", "too many threads for the simulator");
    if (i >= g.nf) g.nf = i + 1;
    Fiber* f = &g.f[i];
    u64 ev = f->ev; VC vc = f->vc; int gen = f->gen; u8* tls = f->tls;
    memset(f, 0, sizeof *f);
    f->id = i; f->ev = ev; f->vc = vc; f->gen = gen + 1; f->tls = tls;
    if (!f->tls) f->tls = (u8*)rt_malloc(tls_sz + 16);
    memset(f->tls, 0, tls_sz); if (tls_fsz) __real_memcpy(f->tls, tls_img, tls_fsz);
    f->st = F_RUN; f->rank = rank; f->name = name; f->rt = 1; f->icv_nthreads = 0;
    f->prio = 1.0 + g.rng.real();
    if (g.cells) { madvise((void*)(RSH_LO + ((STK_LO + (uptr)i * STACK_SZ - HEAP_LO) >> 3) * 32), STACK_SZ * 4, MADV_DONTNEED); }
    uptr top = STK_LO + (uptr)i * STACK_SZ + STACK_SZ - 64;
    uptr* sp = (uptr*)(top & ~15ull);
    *--sp = 0; *--sp = (uptr)&fiber_entry;      // return address; stack misaligned by 8 at entry as after a call
    for (int k = 0; k < 6; k++) *--sp = 0;
    f->sp = sp;
    // happens-before: creation
    if (g.cur) { Clk own = f->vc.c[i]; f->vc.join(g.cur->vc, MAXF); if (f->vc.c[i] < own) f->vc.c[i] = own; }
    f->vc.c[i]++;
    if (g.cur) { tick(); }
    g.st.fibers++;
    return f;
}
void tick() { g.cur->vc.c[g.cur->id]++; }
void hb_release(VC& d) { d = g.cur->vc; tick(); }
void hb_release_merge(VC& d) { d.join(g.cur->vc, MAXF); tick(); }
void hb_acquire(const VC& s) { g.cur->vc.join(s, MAXF); }
void make_runnable(Fiber* f) { if (f->st == F_BLOCK || f->st == F_SLEEP) { f->st = F_RUN; } }

// ---------- choices ----------
struct Key { u32 f; u16 k; u64 ev; };
struct KeyH { size_t operator()(const Key& k) const { return mix(mix(k.f * 31 + k.k, k.ev), 7); } };
struct KeyE { bool operator()(const Key& a, const Key& b) const { return a.f == b.f && a.k == b.k && a.ev == b.ev; } };
static std::unordered_map<Key, u32, KeyH, KeyE, RtAlloc<std::pair<const Key, u32>>>* rep;
static rvec<u64>* rep_sched[MAXF]; static size_t rep_pos[MAXF];

static void record(u16 kind, u32 val) {
    if (sh->nchoices < (u32)MAXCH) { Choice& c = sh->choices[sh->nchoices++]; c.fiber = g.cur->id; c.kind = kind; c.val = val; c.ev = g.cur->ev; c.pad = 0; }
    else sh->choices_lost++;
}
static u32 rep_get(u16 kind) { auto it = rep->find(Key{ (u32)g.cur->id, kind, g.cur->ev }); return it == rep->end() ? 0 : it->second; }

u64 choose(Kind kind, u64 n, double p) {
    if (!g.active || n <= 1) return 0;
    g.cur->ev++;
    u64 v = 0;
    if (g.replay) v = rep_get(kind);
    else if (g.quiet) ;
    else if (p > 0 && g.rng.chance(p)) v = 1 + g.rng.below(n - 1);
    if (v >= n) v = n - 1;
    if (v) { if (!g.replay) record(kind, (u32)v); else record(kind, (u32)v); g.st.fired[kind]++; }
    return v;
}
bool fault_fires(Kind k) { return fault_mode(k, 1) != 0; }
u32 fault_mode(Kind k, u32 nm) {
    if (!g.active) return 0;
    g.cur->ev++;
    if (g.quiet) return 0;
    u64 idx = g.st.opportunities[k]++;
    u32 m = 0;
    if (g.replay) m = rep_get(k);
    else if ((int)g.nfaults < g.cfg.fault_cap) {
        if (g.cfg.fault_at[k] >= 0 && idx == (u64)g.cfg.fault_at[k]) m = 1 + (u32)g.rng.below(nm);
        else if (g.cfg.fault_p[k] > 0 && g.rng.chance(g.cfg.fault_p[k])) m = 1 + (u32)g.rng.below(nm);
    }
    if (m > nm) m = nm;
    if (m) { record(k, m); g.nfaults++; g.st.fired[k]++; log_ev(O_FAULT, k, idx); }
    return m;
}
bool fault(Kind k) { return fault_fires(k); }

// ---------- scheduler ----------
static u64 geometric(u64 mean) { double u = g.rng.real(); double x = -__builtin_log(1 - u) * (double)mean; return 1 + (u64)x; }
static void set_stop(Fiber* f) {
    u64 lim = f->ev + 1500000;             // starvation guard / budget check
    if (g.replay) {
        rvec<u64>* v = rep_sched[f->id];
        if (v) { size_t& p = rep_pos[f->id]; while (p < v->size() && (*v)[p] <= f->ev) p++; if (p < v->size() && (*v)[p] < lim) lim = (*v)[p]; }
    } else if (g.cfg.strategy == ST_GAP) { u64 s = f->ev + geometric(g.cfg.gap); if (s < lim) lim = s; }
    else if (g.cfg.strategy == ST_PCT && g.changes_left > 0) { u64 ge = g.gev_base + f->ev; u64 s = g.next_change > ge ? f->ev + (g.next_change - ge) : f->ev + 1; if (s < lim) lim = s; }
    f->stop = lim;
}
static int candidates(Fiber** out) {
    int n = 0;
    for (int i = 0; i < g.nf; i++) {
        if (g.f[i].st == F_SLEEP && g.f[i].wake <= now_ns()) { g.f[i].st = F_RUN; g.f[i].timed_out = true; }
        if (g.f[i].st == F_RUN) out[n++] = &g.f[i];
    }
    return n;
}
u64 now_ns() { return g.now + (g.cur ? (g.gev_base + g.cur->ev) * 5 : 0); }

static void describe_blocked(char* b, size_t n) {
    size_t o = 0; b[0] = 0;
    for (int i = 0; i < g.nf && o + 90 < n; i++) if (g.f[i].st == F_BLOCK || g.f[i].st == F_SLEEP || g.f[i].st == F_RUN)
        o += snprintf(b + o, n - o, "%sf%d(%s%s) %s #%u", o ? "; " : "", i, g.f[i].name ? g.f[i].name : "?", g.f[i].rank >= 0 ? "@rank" : "", g.f[i].st == F_RUN ? "runnable" : g.f[i].why ? g.f[i].why : "?", g.f[i].why_obj ? obj_id(g.f[i].why_obj) : 0);
}
static void check_budget() {
    u64 ge = g.gev_base + g.cur->ev;
    if (ge > g.cfg.max_events) {
        char b[1200]; describe_blocked(b, sizeof b); char s[600]; stack_of(s, sizeof s, 0);
        verdict(V_BUDGET, "no-progress", "run did not finish within %llu steps: %s; running: %s", (unsigned long long)g.cfg.max_events, b, s);
    }
}
// choose who runs next; cur_ok: the current fiber may continue
static Fiber* pick(bool cur_ok, bool wantswitch) {
    Fiber* c[MAXF]; int n = candidates(c);
    if (!n) {
        u64 best = NEVER; for (int i = 0; i < g.nf; i++) if (g.f[i].st == F_SLEEP && g.f[i].wake < best) best = g.f[i].wake;
        if (best == NEVER) {
            char b[1200]; describe_blocked(b, sizeof b);
            if (on_deadlock) on_deadlock(b);
            verdict(V_DEADLOCK, "deadlock", "no thread can ever run again: %s", b);
        }
        if (best > now_ns()) g.now += best - now_ns();
        n = candidates(c);
    }
    Fiber* def = nullptr;
    if (cur_ok) def = g.cur;
    else { // cyclic next
        for (int i = 0; i < n; i++) if (c[i]->id > g.cur->id) { def = c[i]; break; }
        if (!def) def = c[0];
    }
    bool starve = cur_ok && n > 1 && g.cur->ev - g.cur->run_start > 4000000; // fairness: nobody runs forever while others could
    if (starve) wantswitch = true;
    Fiber* r = def;
    if (g.replay) {
        u32 v = rep_get(K_SCHED);
        if (v) { for (int i = 0; i < n; i++) if (c[i]->id == (int)v - 1) r = c[i]; }
        else if (starve) { for (int i = 0; i < n; i++) if (c[i]->id > g.cur->id) { r = c[i]; break; } if (r == g.cur) r = c[0]; }
    } else switch (g.cfg.strategy) {
    case ST_DEFAULT: if (starve) { for (int i = 0; i < n; i++) if (c[i]->id > g.cur->id) { r = c[i]; break; } if (r == g.cur) r = c[0]; } break;
    case ST_PCT: {
        if (cur_ok && wantswitch) g.cur->prio = (g.low_prio -= 1e-3);
        r = c[0]; for (int i = 1; i < n; i++) if (c[i]->prio > r->prio) r = c[i];
        break; }
    default:
        if (cur_ok) { if (wantswitch && n > 1) { do r = c[g.rng.below(n)]; while (r == g.cur); } }
        else r = c[g.rng.below(n)];
    }
    if (r != def) record(K_SCHED, r->id + 1);
    return r;
}
bool sleep_until(u64 t, const char* why, uptr obj) {
    Fiber* f = g.cur; f->ev++; f->st = F_SLEEP; f->wake = t; f->timed_out = false; f->why = why; f->why_obj = obj;
    dispatch(pick(false, true));
    return f->timed_out;
}
void block(const char* why, uptr obj) {
    Fiber* f = g.cur; f->ev++; f->st = F_BLOCK; f->why = why; f->why_obj = obj; f->wake = NEVER;
    check_budget();
    Fiber* n = pick(false, true);
    if (n != f) dispatch(n);
    f->why = nullptr;
}
void sync_point(int op, uptr obj) {
    Fiber* f = g.cur; f->ev++;
    if (f->ev >= f->stop) { check_budget(); set_stop(f); }
    if (obj) log_ev(op, obj_id(obj), 0); else log_ev(op, 0, 0);
    bool want = false;
    if (f->rank >= 0 && op != O_MPI && g.cfg.fault_cap > 0 && g.cfg.fault_p[K_CRASH] > 0 && fault_fires(K_CRASH)) { kill_rank(f->rank); }
    if (!g.replay) {
        if (g.cfg.stall_p > 0 && op != O_ATOMIC && g.rng.chance(g.cfg.stall_p)) {
            u32 v = 1 + g.rng.below(20); record(K_STALL, v); g.st.fired[K_STALL]++;
            sleep_until(now_ns() + (1000ull << v), "stalled", 0); return;
        }
        if (g.cfg.strategy == ST_PCT) want = g.changes_left > 0 && (g.gev_base + f->ev) >= g.next_change;
        else if (g.cfg.strategy != ST_DEFAULT) want = g.rng.chance(op == O_ATOMIC ? g.cfg.sync_p * 0.3 : g.cfg.sync_p);
        if (g.cfg.strategy == ST_PCT && want) { g.changes_left--; g.next_change = (g.gev_base + f->ev) + 1 + g.rng.below(g.cfg.pct_len); }
    } else {
        u32 v = rep_get(K_STALL);
        if (v) { record(K_STALL, v); g.st.fired[K_STALL]++; sleep_until(now_ns() + (1000ull << v), "stalled", 0); return; }
    }
    if (g.cfg.strategy == ST_PCT || want || g.replay) {
        Fiber* n = pick(true, want);
        if (n != f) { g.st.preempts++; dispatch(n); }
        else if (want || g.replay) set_stop(f);
    }
}
__attribute__((noinline)) static void access_stop() {   // reached f->stop at a memory access
    Fiber* f = g.cur;
    check_budget();
    bool want = g.cfg.strategy == ST_GAP;
    if (!g.replay && g.cfg.strategy == ST_PCT && g.changes_left > 0 && g.gev_base + f->ev >= g.next_change) {
        want = true; g.changes_left--; g.next_change = (g.gev_base + f->ev) + 1 + g.rng.below(g.cfg.pct_len);
    }
    Fiber* n = pick(true, want);
    if (n != f) { g.st.preempts++; dispatch(n); } else set_stop(f);
}
__attribute__((noinline)) static void conflict_stop() {
    if (!g.rng.chance(g.cfg.conflict_p)) return;
    Fiber* n = pick(true, true);
    if (n != g.cur) { g.st.preempts++; dispatch(n); }
}
void finish_fiber() {
    Fiber* f = g.cur; f->finished = true; f->st = F_DONE;
    sync_forget(STK_LO + (uptr)f->id * STACK_SZ, STK_LO + (uptr)(f->id + 1) * STACK_SZ);
    tick();
    log_ev(O_EXIT, f->id, 0);
    for (int i = 0; i < g.nf; i++) if (g.f[i].st == F_BLOCK && g.f[i].why_obj == (uptr)f) make_runnable(&g.f[i]);
    if (f->detached) f->st = F_FREE;
    f->ev++;
    dispatch(pick(false, true));
}
int self() { return g.cur->id; }
int my_rank() { return g.cur->rank; }
int spawn(void (*fn)(void*), void* arg, int rank, const char* name) {
    Rt r; Fiber* f = new_fiber(name, rank); f->vfn = fn; f->arg = arg; g.cur->ev++; return f->id;
}
void join(int id) {
    Rt r; Fiber* f = &g.f[id];
    while (!f->finished && f->st != F_DEAD) block("join", (uptr)f);
    hb_acquire(f->vc);
    if (f->st == F_DONE) { f->st = F_FREE; f->finished = false; }
}
void yield_point() { Rt r; sync_point(O_YIELD, 0); }
int live_fibers() { int n = 0; for (int i = 0; i < g.nf; i++) if (&g.f[i] != g.cur && (g.f[i].st == F_RUN || g.f[i].st == F_BLOCK || g.f[i].st == F_SLEEP)) n++; return n; }
void mpi_on_crash(int rank);
void kill_rank(int rank) {
    mpi_on_crash(rank);
    for (int i = 0; i < g.nf; i++) if (g.f[i].rank == rank && g.f[i].st != F_FREE) {
        g.f[i].st = F_DEAD;
        for (int j = 0; j < g.nf; j++) if (g.f[j].st == F_BLOCK && g.f[j].why_obj == (uptr)&g.f[i]) make_runnable(&g.f[j]);
    }
    if (g.cur->rank == rank) { g.cur->ev++; dispatch(pick(false, true)); }
}

// ---------- memory-access events ----------
static inline u64* cellp(uptr a) {
    if (a >= HEAP_LO && a < REG_HI) return (u64*)(RSH_LO + ((a - HEAP_LO) >> 3) * 32);
    if (a >= glob_lo && a < glob_hi) return grsh + ((a - glob_lo) >> 3) * 4;
    return nullptr;
}
static inline u32* pcp(uptr a) {
    if (a >= HEAP_LO && a < REG_HI) return (u32*)(PSH_LO + ((a - HEAP_LO) >> 3) * 16);
    return gpsh + ((a - glob_lo) >> 3) * 4;
}
// cell: [63:56] fiber+1, [55:48] byte mask, [47] write, [46] atomic, [39:0] epoch
static inline u64 mkcell(int tid, u8 mask, bool w, bool at, u64 ep) { return ((u64)(tid + 1) << 56) | ((u64)mask << 48) | ((u64)w << 47) | ((u64)at << 46) | ep; }
static __attribute__((noinline)) void report_race(uptr a, u64 old, u32 oldpc, bool w, uptr pc) {
    char f1[300], f2[300], st[700]; where(pc, f1, sizeof f1); where(oldpc, f2, sizeof f2); stack_of(st, sizeof st, 0);
    bool ow = (old >> 47) & 1;
    char sig[400]; const char *x = f1, *y = f2; bool xw = w, yw = ow;
    if (strcmp(x, y) > 0) { std::swap(x, y); std::swap(xw, yw); }
    snprintf(sig, sizeof sig, "race %.150s(%c) %.150s(%c)", x, xw ? 'w' : 'r', y, yw ? 'w' : 'r');
    verdict(V_RACE, sig, "unordered accesses to the same memory (0x%lx): %s in f%d at %s; earlier %s in f%d at %s; stack: %s", (unsigned long)a, w ? "write" : "read", g.cur->id, f1, ow ? "write" : "read", (int)(old >> 56) - 1, f2, st);
}
static inline bool touch_cell(uptr a, u8 mask, bool w, bool at, uptr pc) {
    u64* c = cellp(a); if (!c || !((a ^ (uptr)&g_rt) >> 3)) return false;    // g_rt: the simulator's own switch, seen from harness code
    int me = g.cur->id; u64 mine = mkcell(me, mask, w, at, g.cur->vc.c[me]);
    u64 myid = (u64)(me + 1);
    if (c[0] == mine || c[1] == mine || c[2] == mine || c[3] == mine) return false;
    int slot = -1; bool conflict = false;
    for (int i = 0; i < 4; i++) {
        u64 o = c[i];
        if (!o) { if (slot < 0) slot = i; continue; }
        if ((o >> 56) == myid) { if (((o >> 48) & 0xff) == mask && (w || !((o >> 47) & 1)) && (!at || ((o >> 46) & 1))) slot = i; continue; }
        if (!(((o >> 48) & 0xff) & mask)) continue;
        if (!w && !((o >> 47) & 1)) continue;
        conflict = true;
        if (g.race && !(at && ((o >> 46) & 1)) && (o & 0xffffffffffull) > g.cur->vc.c[(o >> 56) - 1]) {
            u32 op = pcp(a)[i]; report_race(a, o, op, w, pc);
        }
    }
    if (slot < 0) { // evict: prefer an entry ordered before us
        slot = (int)((a >> 3) + g.cur->ev) & 3;
        for (int i = 0; i < 4; i++) { u64 o = c[i]; if ((o & 0xffffffffffull) <= g.cur->vc.c[(o >> 56) - 1]) { slot = i; break; } }
    }
    c[slot] = mine; pcp(a)[slot] = (u32)pc;
    return conflict;
}
static __attribute__((noinline)) void bad_access(uptr a, size_t n, bool w, uptr pc) {
    u8 s = *(u8*)(ASH_LO + ((a - HEAP_LO) >> 3)); char f[300], st[800]; where(pc, f, sizeof f); g_rt++; stack_of(st, sizeof st, pc);
    const char* what = s == 0xFD ? "use after free" : "heap buffer overflow";
    char sig[400]; snprintf(sig, sizeof sig, "%s %.200s", what, f);
    verdict(V_MEMORY, sig, "%s: %s of %zu bytes at 0x%lx in f%d; stack: %s", what, w ? "write" : "read", n, (unsigned long)a, g.cur->id, st);
}
static inline bool addr_ok(uptr a, size_t n) {
    const u8* s = (const u8*)(ASH_LO + ((a - HEAP_LO) >> 3));
    size_t off = a & 7;
    if (off + n <= 8) return *s == 8 || (*s < 8 && off + n <= *s);
    if (*s != 8) return false;
    size_t left = n - (8 - off); s++;
    while (left > 8) { if (*s != 8) return false; s++; left -= 8; }
    return *s == 8 || (*s < 8 && left <= *s);
}
static inline void acc(uptr a, size_t n, bool w, uptr pc) {
    if (__builtin_expect(g_rt | !g.active, 0)) return;
    if (a - g.stk_lo < STACK_SZ) {
        // own stack: only race bookkeeping for frames shared with other fibers
        if (!g.race) return;
        g_rt++; u8 mask = n >= 8 ? 0xff : (u8)(((1u << n) - 1) << (a & 7)); touch_cell(a, mask, w, false, pc); g_rt--; return;
    }
    Fiber* f = g.cur; f->ev++;
    if (a - HEAP_LO < HEAP_SZ) { if (__builtin_expect(!addr_ok(a, n), 0)) bad_access(a, n, w, pc); }
    if (g.cells) {
        g_rt++;
        u8 mask = n >= 8 ? 0xff : (u8)(((1u << n) - 1) << (a & 7));
        bool cf = touch_cell(a, mask, w, false, pc);
        if ((a & 7) + n > 8) cf |= touch_cell(a + 8, (u8)((1u << (((a & 7) + n) - 8)) - 1), w, false, pc);
        if (cf && !g.replay && g.cfg.strategy == ST_CONFLICT) conflict_stop();
        g_rt--;
    }
    if (__builtin_expect(f->ev >= f->stop, 0)) { g_rt++; access_stop(); g_rt--; }
}
void check_range(uptr a, size_t n, bool w, uptr pc, bool) {
    if (g_rt || !g.active || !n) return;
    Fiber* f = g.cur;
    if (a - g.stk_lo >= STACK_SZ) {
        f->ev++;
        if (a - HEAP_LO < HEAP_SZ && !addr_ok(a, n)) bad_access(a, n, w, pc);
    }
    bool cf = false;
    if (g.cells) { g_rt++; uptr e = a + n; for (uptr p = a & ~7ull; p < e; p += 8) { u8 m = 0xff; if (p < a) m &= 0xff << (a - p); if (p + 8 > e) m &= (1u << (e - p)) - 1; cf |= touch_cell(p, m, w, false, pc); } g_rt--; }
    if (cf && !g.replay && g.cfg.strategy == ST_CONFLICT) { g_rt++; conflict_stop(); g_rt--; }
    if (f->ev >= f->stop) { g_rt++; access_stop(); g_rt--; }
}

void check_alive(uptr a, size_t n, bool w, uptr pc) { if (n && a - HEAP_LO < HEAP_SZ && !addr_ok(a, n)) bad_access(a, n, w, pc); }
void atomic_access(uptr a, size_t n, bool w, uptr pc) {
    if (a - HEAP_LO < HEAP_SZ && !addr_ok(a, n)) bad_access(a, n, w, pc);
    if (g.cells) touch_cell(a, n >= 8 ? 0xff : (u8)(((1u << n) - 1) << (a & 7)), w, true, pc);
}
// ---------- heap ----------
struct Hdr { u64 size; u32 magic; u32 pc; };
const u32 LIVE = 0xA110C8EDu, FREED = 0xF4EEDu, NUMA = 0x40AA40AAu;
static void* arena_alloc(size_t n, size_t align, u32 magic, uptr pc) {
    uptr a = g.heap_top + sizeof(Hdr); a = (a + align - 1) & ~(uptr)(align - 1);
    size_t r = (n + 7) & ~7ull;
    if (a + r + 64 > HEAP_LO + HEAP_SZ) verdict(V_INFRA, "heap", "simulated heap exhausted");
    Hdr* h = (Hdr*)(a - sizeof(Hdr)); h->size = n; h->magic = magic; h->pc = (u32)pc;
    g.heap_top = ((a + r + 15) & ~15ull) + 16;
    u8* s = (u8*)(ASH_LO + ((a - HEAP_LO) >> 3));
    __real_memset(s, 8, n >> 3); if (n & 7) s[n >> 3] = n & 7;
    if (magic != NUMA && fillbyte) __real_memset((void*)a, fillbyte, n);
    g.live_blocks++; g.live_bytes += n; g.st.allocs++;
    return (void*)a;
}
static inline bool in_arena(const void* p) { return (uptr)p - HEAP_LO < HEAP_SZ; }
static void arena_free(void* p, uptr pc, bool numa, size_t nsz) {
    Hdr* h = (Hdr*)((uptr)p - sizeof(Hdr)); u32 want = numa ? NUMA : LIVE;
    char st[800];
    if (((uptr)p & 7) || h->magic != want) {
        g_rt++; stack_of(st, sizeof st, pc); char w[300]; where(pc, w, sizeof w); char sig[400];
        snprintf(sig, sizeof sig, "%s %.200s", h->magic == FREED ? "double free" : "bad free", w);
        verdict(V_MEMORY, sig, "%s of 0x%lx; stack: %s", h->magic == FREED ? "double free" : "invalid free", (unsigned long)(uptr)p, st);
    }
    if (numa && nsz != h->size) { g_rt++; stack_of(st, sizeof st, pc); verdict(V_RESOURCE, "numa_free size", "node-local block of %llu bytes released with size %zu; stack: %s", (unsigned long long)h->size, nsz, st); }
    h->magic = FREED; g.live_blocks--; g.live_bytes -= h->size;
    u8* s = (u8*)(ASH_LO + (((uptr)p - HEAP_LO) >> 3));
    if (h->size <= 4096) { // a free is a write to the block (races with other users)
        check_range((uptr)p, h->size, true, pc);
    }
    __real_memset(s, 0xFD, (h->size + 7) >> 3);
    sync_forget((uptr)p, (uptr)p + h->size);
}
void* numa_block(size_t n, uptr pc) { Rt r; return arena_alloc(n, 4096, NUMA, pc); }
void numa_release(void* p, size_t n, uptr pc) {
    if (!in_arena(p)) { Rt r; char st[800]; stack_of(st, sizeof st, pc); verdict(V_MEMORY, "numa_free of wild pointer", "numa_free(%p): not a node-local block; stack: %s", p, st); }
    arena_free(p, pc, true, n);
}
void heap_mark() { Rt r; g.heap_mark = g.heap_top; }
int heap_live_report(char* buf, size_t n) {
    Rt r; int cnt = 0; size_t o = 0; buf[0] = 0;
    // walk by scanning the address shadow for block starts is impossible (alignment gaps): scan for headers
    for (uptr a = g.heap_mark; a + sizeof(Hdr) <= g.heap_top; ) {
        Hdr* h = (Hdr*)a;
        if ((h->magic == LIVE || h->magic == NUMA) && *(u8*)(ASH_LO + ((a + sizeof(Hdr) - HEAP_LO) >> 3)) != 0) {
            cnt++; char w[300];
            if (o + 120 < n) o += snprintf(buf + o, n - o, "%s%llu bytes%s from %.80s", o ? "; " : "", (unsigned long long)h->size, h->magic == NUMA ? " (node-local)" : "", where(h->pc, w, sizeof w));
            a += sizeof(Hdr) + ((h->size + 7) & ~7ull); a = (a + 15) & ~15ull; // header alignment below
        } else if (h->magic == FREED) { a += sizeof(Hdr) + ((h->size + 7) & ~7ull); a = (a + 15) & ~15ull; }
        else a += 16;
    }
    return cnt;
}

// ---------- start-up ----------
static void* map_at(uptr a, size_t n) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(97); }
    return p;
}
static void on_signal(int s, siginfo_t* si, void*) {
    g_rt++;
    if (s == SIGALRM || s == SIGVTALRM || s == SIGPROF) {
        verdict(V_BUDGET, "no-progress-cpu", "run used up its processor-time limit (running thread f%d)", g.cur ? g.cur->id : -1);
    }
    char st[900]; stack_of(st, sizeof st, 0);
    char sig[100]; snprintf(sig, sizeof sig, "signal %d", s);
    verdict(V_SIGNAL, sig, "signal %d (address %p) in f%d; stack: %s", s, si->si_addr, g.cur ? g.cur->id : -1, st);
}
static void on_terminate() {
    g_rt++;
    char b[500] = "std::terminate";
    if (std::current_exception()) try { throw; } catch (std::exception& e) { snprintf(b, sizeof b, "uncaught exception: %.400s", e.what()); } catch (...) {}
    if (on_loud) on_loud(3, b);
    char sg[300]; snprintf(sg, sizeof sg, "terminate: %.200s", b);
    verdict(V_LOUD, sg, "%s", b);
}
static u8 altstack[65536];
static void (*main_fn)(void*); static void* main_arg;
static void main_fiber(void* a) { main_fn(a); Rt r; verdict(V_OK, "ok", "ok"); }
void env_init(); void sync_init(); void mpi_init_rt();
void run_main(const Cfg& cfg, const rvec<Choice>* replay, void (*fn)(void*), void* arg) {
    __libc_single_threaded = 0;    // fibers are threads to the code under test: libstdc++ must use atomic counts
    g_rt = 1;
    dl_iterate_phdr(tls_cb, nullptr);
    load_syms();
    objs = new (rt_malloc(sizeof *objs)) rumap<uptr, u32>();
    map_at(HEAP_LO, REG_HI - HEAP_LO);
    map_at(ASH_LO, HEAP_SZ / 8);
    g.cfg = cfg; g.rng = Rng(cfg.seed ^ 0x5eedull);
    g.replay = cfg.replay; g.race = cfg.race; g.cells = cfg.race || (cfg.strategy == ST_CONFLICT && !cfg.replay);
    if (g.cells) {
        map_at(RSH_LO, (REG_HI - HEAP_LO) * 4); map_at(PSH_LO, (REG_HI - HEAP_LO) * 2);
        glob_lo = (uptr)&__data_start & ~7ull; glob_hi = ((uptr)&_end + 7) & ~7ull;
        grsh = (u64*)mmap(0, (glob_hi - glob_lo) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        gpsh = (u32*)mmap(0, (glob_hi - glob_lo) * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    for (int i = 0; i < MAXF; i++) mprotect((void*)(STK_LO + (uptr)i * STACK_SZ), 4096, PROT_NONE);
    g.heap_top = HEAP_LO + 64; g.low_prio = 0.9; g.now = 1700000000ull * 1000000000ull;
    rep = new (rt_malloc(sizeof *rep)) std::unordered_map<Key, u32, KeyH, KeyE, RtAlloc<std::pair<const Key, u32>>>();
    if (replay) for (const Choice& c : *replay) {
        (*rep)[Key{ c.fiber, c.kind, c.ev }] = c.val;
        if (c.kind == K_SCHED && c.fiber < MAXF) { if (!rep_sched[c.fiber]) rep_sched[c.fiber] = new (rt_malloc(sizeof(rvec<u64>))) rvec<u64>(); rep_sched[c.fiber]->push_back(c.ev); }
    }
    for (int i = 0; i < MAXF; i++) if (rep_sched[i]) std::sort(rep_sched[i]->begin(), rep_sched[i]->end());
    u32 fills[] = { 0xCB, 0x00, 0xFF, 0x7F, 0x01 };
    fillbyte = cfg.fill == 1 ? 0 : cfg.fill == 2 ? 0xCB : fills[cfg.seed % 5];
    sync_init(); env_init(); mpi_init_rt();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF }; for (int s : sigs) sigaction(s, &sa, nullptr);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, nullptr);
    std::set_terminate(on_terminate);
    if (cfg.strategy == ST_PCT) { g.changes_left = cfg.pct_depth; g.next_change = g.rng.below(cfg.pct_len) + 1; }
    main_fn = fn; main_arg = arg;
    static Fiber boot; boot.tls = (u8*)rt_malloc(tls_sz + 16); boot.id = MAXF - 1;
    g.cur = nullptr;
    Fiber* m = new_fiber("main", -1); m->vfn = main_fiber; m->arg = arg;
    g.cur = &boot; g.active = true;
    dispatch(m);
    abort();
}
} // namespace sim

using namespace sim;
#define PC ((uptr)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { acc((uptr)p, n, false, PC); } void __tsan_write##n(void* p) { acc((uptr)p, n, true, PC); } \
 void __tsan_unaligned_read##n(void* p) { acc((uptr)p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { acc((uptr)p, n, true, PC); } \
 void __tsan_volatile_read##n(void* p) { acc((uptr)p, n, false, PC); } void __tsan_volatile_write##n(void* p) { acc((uptr)p, n, true, PC); } \
 void __tsan_read##n##_pc(void* p, void*) { acc((uptr)p, n, false, PC); } void __tsan_write##n##_pc(void* p, void*) { acc((uptr)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { acc((uptr)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { acc((uptr)p, 8, false, PC); }
void __tsan_read_range(void* p, long n) { check_range((uptr)p, n, false, PC); }
void __tsan_write_range(void* p, long n) { check_range((uptr)p, n, true, PC); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (!g_rt && g.active && n) { check_range((uptr)s, n, false, PC); check_range((uptr)d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (!g_rt && g.active && n) { check_range((uptr)s, n, false, PC); check_range((uptr)d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (!g_rt && g.active && n) check_range((uptr)d, n, true, PC); return __real_memset(d, c, n); }

// heap
void* __wrap_malloc(size_t n) { if (g_rt || !g.active) return __real_malloc(n); Rt r; return arena_alloc(n, 16, LIVE, PC); }
void __wrap_free(void* p) { if (!p) return; if (!in_arena(p)) { __real_free(p); return; } uptr pc = PC; arena_free(p, pc, false, 0); }
void* __wrap_calloc(size_t a, size_t b) { if (g_rt || !g.active) return __real_calloc(a, b); Rt r; void* p = arena_alloc(a * b, 16, LIVE, PC); __real_memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!in_arena(p)) return __real_realloc(p, n);
    uptr pc = PC; void* q; size_t old = ((Hdr*)((uptr)p - sizeof(Hdr)))->size;
    { Rt r; q = arena_alloc(n, 16, LIVE, pc); __real_memcpy(q, p, old < n ? old : n); }
    arena_free(p, pc, false, 0); return q;
}
void* __real_aligned_alloc(size_t, size_t); void* __real_memalign(size_t, size_t); char* __real_strdup(const char*);
void* __wrap_aligned_alloc(size_t al, size_t n) { if (g_rt || !g.active) return __real_aligned_alloc(al, n); Rt r; return arena_alloc(n, al < 16 ? 16 : al, LIVE, PC); }
void* __wrap_memalign(size_t al, size_t n) { if (g_rt || !g.active) return __real_memalign(al, n); Rt r; return arena_alloc(n, al < 16 ? 16 : al, LIVE, PC); }
char* __wrap_strdup(const char* s) { if (g_rt || !g.active) return __real_strdup(s); Rt r; size_t n = strlen(s) + 1; char* p = (char*)arena_alloc(n, 16, LIVE, PC); __real_memcpy(p, s, n); return p; }
int __wrap_posix_memalign(void** out, size_t al, size_t n) {
    if (g_rt || !g.active) { void* p = __real_aligned_alloc(al, (n + al - 1) / al * al); *out = p; return p ? 0 : ENOMEM; }
    Rt r; *out = arena_alloc(n, al < 16 ? 16 : al, LIVE, PC); return 0;
}
}
static void* op_new(size_t n, uptr pc, bool nothrow) {
    if (g_rt || !g.active) { void* p = __real_malloc(n ? n : 1); if (!p) _exit(96); return p; }
    bool fail; void* p = nullptr;
    { Rt r; fail = (g.cfg.fault_p[K_NEW] > 0 || g.cfg.fault_at[K_NEW] >= 0) && fault_fires(K_NEW); if (!fail) p = arena_alloc(n, 16, LIVE, pc); }
    if (fail) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
static void op_del(void* p, uptr pc) { if (!p) return; if (!in_arena(p)) { __real_free(p); return; } arena_free(p, pc, false, 0); }
void* operator new(size_t n) { return op_new(n, PC, false); }
void* operator new[](size_t n) { return op_new(n, PC, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, PC, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, PC, true); }
void operator delete(void* p) noexcept { op_del(p, PC); }
void operator delete[](void* p) noexcept { op_del(p, PC); }
void operator delete(void* p, size_t) noexcept { op_del(p, PC); }
void operator delete[](void* p, size_t) noexcept { op_del(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p, PC); }
