// Internal declarations shared by the runtime's translation units.
#pragma once
#include "rt.hpp"
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <cerrno>

namespace sim {
const int MAXF = 96;
const size_t STACK_SZ = 512 * 1024;
const uptr HEAP_LO = 0x100000000000ull;
const size_t HEAP_SZ = 1ull << 30;
const uptr STK_LO = HEAP_LO + HEAP_SZ;
const uptr REG_HI = STK_LO + (u64)MAXF * STACK_SZ;
const uptr ASH_LO = 0x110000000000ull;
const uptr RSH_LO = 0x120000000000ull;   // 32 bytes per 8
const uptr PSH_LO = 0x130000000000ull;   // 16 bytes per 8 (program counters)
const u64 NEVER = ~0ull;

typedef u32 Clk;
struct VC { Clk c[MAXF]; void join(const VC& o, int n) { for (int i = 0; i < n; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

enum FState { F_FREE = 0, F_RUN, F_BLOCK, F_SLEEP, F_DONE, F_DEAD };

struct Team;
struct Fiber {
    int id; FState st; void* sp; u64 ev, stop; u64 lsync;
    void* (*pfn)(void*); void (*vfn)(void*); void* arg; void* ret;
    bool is_pthread, detached, joined, finished, omp; int gen;
    int rank; Team* team; int tnum; u32 wsidx; u32 singleidx;
    u8* tls; int err; int rt;
    VC vc; double prio; u64 wake; bool timed_out; bool signalled;
    const char* why; uptr why_obj; const char* name; bool joiner_waiting;
    uptr pinned;
    u64 run_start; int icv_nthreads;
};

struct G {
    bool active, replay, race, cells, in_fault_ok; int quiet;
    Cfg cfg; Rng rng{1}; Fiber f[MAXF]; Fiber* cur; int nf; // nf: highest used slot + 1
    u64 gev, gev_base; u64 next_change; int changes_left; double low_prio;
    uptr stk_lo; u64 now;
    u64 nfaults; u32 objs;
    uptr heap_top, heap_mark; u64 live_blocks, live_bytes;
    Stats st;
};
extern G g;
extern uptr glob_lo, glob_hi; extern u64* grsh; extern u32* gpsh;

Fiber* new_fiber(const char* name, int rank);
void make_runnable(Fiber* f);
void sync_point(int op, uptr obj);        // a scheduling decision where the current fiber stays runnable
void block(const char* why, uptr obj);    // current fiber blocks until made runnable
bool sleep_until(u64 t, const char* why, uptr obj); // returns when woken or at time t
void finish_fiber();
void hb_release(VC& dst); void hb_acquire(const VC& src); void hb_release_merge(VC& dst);
void tick();                              // advance own epoch
u32 obj_id(uptr a);
void log_ev(int op, u64 a, u64 b);
void check_range(uptr a, size_t n, bool w, uptr pc, bool full = true);
bool fault_fires(Kind k); u32 fault_mode(Kind k, u32 nmodes); // 0 = no fault, else 1..nmodes
void check_alive(uptr a, size_t n, bool w, uptr pc);
void atomic_access(uptr a, size_t n, bool w, uptr pc);
void note(const char* fmt, ...);
void history(char* buf, size_t n);
void sync_forget(uptr lo, uptr hi);       // memory freed: drop synchronisation objects living there
void kill_rank(int rank);
void stack_of(char* buf, size_t n, uptr pc0);
bool fiber_exit_requested();
struct FiberExit {};
enum Op { O_LOCK = 1, O_UNLOCK, O_TRY, O_CWAIT, O_CWAKE, O_SIGNAL, O_BCAST, O_CREATE, O_JOIN, O_EXIT, O_ATOMIC, O_OMP, O_CHUNK,
          O_BARRIER, O_CRIT, O_MPI, O_IO, O_YIELD, O_SWITCH, O_FAULT, O_MINIT, O_MDEST, O_CINIT, O_CDEST, O_SLEEP, O_N };
extern const char* const op_name[O_N];
}
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
}

extern "C" { void* __wrap_malloc(size_t); void __wrap_free(void*); void* __wrap_calloc(size_t, size_t); }
