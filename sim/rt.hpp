// Deterministic simulation runtime: public interface used by the harness.
// One OS process, one OS thread; every thread/rank of the code under test is a fiber.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>

namespace sim {
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef uintptr_t uptr;

// Containers of the runtime use their own allocator type: distinct template instantiations, so that the
// linker can never merge runtime code with (instrumented) code under test.
void* rt_malloc(size_t n);
void rt_free(void* p);
template <class T> struct RtAlloc {
    typedef T value_type;
    RtAlloc() {}
    template <class U> RtAlloc(const RtAlloc<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(rt_malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { rt_free(p); }
    template <class U> bool operator==(const RtAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const RtAlloc<U>&) const { return false; }
};
template <class T> using rvec = std::vector<T, RtAlloc<T>>;
typedef std::basic_string<char, std::char_traits<char>, RtAlloc<char>> rstr;
template <class K, class V> using rmap = std::map<K, V, std::less<K>, RtAlloc<std::pair<const K, V>>>;
template <class K, class V> using rumap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, RtAlloc<std::pair<const K, V>>>;

// ---- random numbers ----
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }   // inclusive
    double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return real() < p; }
};

// ---- choices ----
enum Kind : u16 {
    K_SCHED = 1,      // val = fiber id + 1 to run
    K_SPURIOUS,       // condition wait returns spuriously
    K_SIGPICK,        // which waiter a signal wakes
    K_STALL,          // fiber stalls for 2^val simulated microseconds
    K_CLOCK,          // clock jump
    K_OPEN, K_SEEK, K_READ, K_CLOSE, K_WRITE, K_WOPEN, K_SYSTEM, // file faults
    K_TCREATE,        // thread creation fails
    K_NUMA,           // node-local allocation fails
    K_NEW,            // operator new fails
    K_MPIERR,         // communication call returns an error
    K_MPIDELAY,       // message / collective completion delayed by 2^val us
    K_CRASH,          // rank crashes here
    K_MPIORDER,       // reduction order
    K_FILL,           // garbage pattern of fresh memory
    K_MAX
};
extern const char* const kind_name[K_MAX];
struct Choice { u32 fiber; u16 kind; u16 pad; u32 val; u64 ev; };

enum Strategy { ST_SYNC = 0, ST_GAP, ST_PCT, ST_CONFLICT, ST_DEFAULT, ST_N };
extern const char* const strategy_name[ST_N];

struct Cfg {
    u64 seed = 1;
    int strategy = ST_DEFAULT;
    double sync_p = 0.3;      // switch probability at sync points
    u32 gap = 1000;           // mean events between preemptions (ST_GAP)
    u32 pct_depth = 3; u64 pct_len = 100000;
    double conflict_p = 0.05;
    double spurious_p = 0, stall_p = 0, clock_p = 0, delay_p = 0;
    // faults: per kind, probability per opportunity and/or exact opportunity index (-1 = none), plus a total cap
    double fault_p[K_MAX] = {0};
    int fault_at[K_MAX];
    int fault_cap = 0;        // maximum number of injected faults
    u32 fill = 0;             // 0 = fresh memory filled per seed; 1 zero; 2 0xCB
    bool race = false;        // happens-before race detection
    bool leakcheck = false;
    bool replay = false;
    bool weaken_barriers = false;
    u64 max_events = 80000000ull;
    int nnodes = 1;           // NUMA nodes
    int ncpus = 4;
    int nranks = 0;
    Cfg() { for (int i = 0; i < K_MAX; i++) fault_at[i] = -1; }
};

// ---- verdict ----
enum VClass : int {
    V_OK = 0,
    V_DEADLOCK, V_BUDGET, V_LOUD, V_MEMORY, V_SYNC, V_RACE, V_ORACLE, V_MPI, V_RESOURCE, V_SIGNAL, V_INFRA, V_N
};
extern const char* const vclass_name[V_N];

struct Stats {
    u64 events, switches, preempts, sync_ops, atomics, sim_ns, run_hash, sync_hash, log_hash;
    u64 fired[K_MAX]; u64 opportunities[K_MAX];
    u64 fibers, regions, allocs, mpi_calls, io_calls;
    u64 probes[32];
};

const int MAXCH = 200000;
struct Shared {               // in memory shared between the run's process and its parent
    int done; int vclass; int loud_kind; // loud_kind: 1 assert 2 exit 3 terminate 4 abort
    int exit_code;
    char detail[1600]; char sig[400]; // sig: stable signature of the violation
    char trace[6000];
    char note[2000];
    Stats st;
    u32 nchoices; u32 choices_lost;
    Choice choices[MAXCH];
};
extern Shared* sh;

[[noreturn]] void verdict(int cls, const char* sig, const char* fmt, ...);  // ends the run
void probe(int i);

// Run `fn(arg)` as the main fiber under configuration cfg; never returns (the process ends with a verdict in *sh).
[[noreturn]] void run_main(const Cfg& cfg, const rvec<Choice>* replay, void (*fn)(void*), void* arg);

// What a loud failure (assert, exit, terminate, abort) of the code under test means is decided by the harness:
// called just before the run ends with V_LOUD; may call verdict() itself.
extern void (*on_loud)(int loud_kind, const char* what);
// called when no fiber can ever run again; may call verdict(); default verdict is V_DEADLOCK
extern void (*on_deadlock)(const char* what);

// guard: code between construction and destruction is not simulated (oracles, bookkeeping)
extern int g_rt;
struct Rt { Rt() { g_rt++; } ~Rt() { g_rt--; } };
struct Un { int s; Un() { s = g_rt; g_rt = 0; } ~Un() { g_rt = s; } };   // simulate again (nested)

// While quiet, the default schedule is used and nothing is injected (reference runs of the real code).  Only to be
// switched while no other thread exists.
void quiet(bool on);
struct Quiet { Quiet() { quiet(true); } ~Quiet() { quiet(false); } };

// user-level helpers for the harness
int spawn(void (*fn)(void*), void* arg, int rank = -1, const char* name = "client"); // new fiber (harness thread)
void join(int fiber);
void yield_point();
int self();
int live_fibers();            // fibers not finished, excluding the caller and OpenMP pool
int live_threads_created();   // pthreads created and not yet terminated or not yet joined
u64 choose(Kind kind, u64 n, double p); // 0 with probability 1-p, else 1..n-1; recorded
bool fault(Kind kind);        // fault opportunity of this kind; returns true if it fires now
u64 now_ns();
bool faults_fired();
void fault_off(Kind kind);    // no further faults of this kind

// resources
struct Res { int open_files; u64 live_numa_bytes; int live_numa_blocks; int unjoined; int running; u64 live_heap_blocks; u64 live_heap_bytes; };
Res resources();
void heap_mark();                       // blocks allocated from now on are accounted
int heap_live_report(char* buf, size_t n);
struct Made { int threads, team; };      // threads started and largest OpenMP team since made_reset()
void made_reset();
Made made();
void reset_process_state();             // forget file table etc. (between configurations)

// simulated file system
struct FileFault { int mode; };
void fs_put(const char* path, const void* data, size_t n);
void fs_remove(const char* path);

void fs_mkdir(const char* path);
bool fs_get(const char* path, rvec<char>& out);      // current content
u64 fs_size(const char* path);
bool fs_exists(const char* path);
void fs_list(rvec<rstr>& out);
extern bool g_fs_mkdir_tool_ok;                       // does the external mkdir helper work?

void getopt_reset();           // forget the programs' command-line parser state
// MPI world
void mpi_world(int n);
struct MpiHist { rvec<u64> coll_hash; int inits, finals, ncoll; rvec<u64> res_hash; int sends, recvs; bool crashed; };
const MpiHist& mpi_hist(int rank);
int mpi_unreceived();
int mpi_crashed_count();
extern u64 mpi_polls; // polls that found nothing
int my_rank();

// code symbolisation info
const char* where(uptr pc, char* buf, size_t n);
}
