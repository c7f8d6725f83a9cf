// Campaign driver: forks one process per simulated run, gathers verdicts, gates, minimises, writes replay files and evidence.
#include "h.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
typedef std::string str;
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static FILE* out;          // the real stdout
static FILE* real_err;
struct Job { Params p; Cfg c; };
static u64 hstr(const char* s) { u64 h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (u8)*s) * 1099511628211ull; return h; }
static const Prop* find_prop(const char* id) { for (int i = 0; i < nprops; i++) if (!strcmp(props[i].id, id)) return &props[i]; return nullptr; }
static double wide_p = getenv("SIM_WIDE") ? atof(getenv("SIM_WIDE")) : .1;
static Job make_job(const Prop& pr, u64 seed, u64 idx) {
    Job j; Rng r(seed * 0x100000001B3ull ^ hstr(pr.id) ^ idx * 0x9E3779B97F4A7C15ull); r.next();
    pr.gen(j.p, j.c, r); { Rng w(r.s ^ 0x51DE5EEDull); if (w.chance(wide_p)) widen(pr.id, j.p, j.c, w); } clamp(pr.id, j.p, j.c); j.c.seed = r.next() | 1; return j;
}
static Shared* new_shared() { void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (Shared*)p; }
struct Res1 { int vclass; u64 hash, sync; };
static bool run_one(const Prop& pr, const Job& j, Shared* s, const rvec<Choice>* rep) {   // one simulated run in its own process
    memset(s, 0, offsetof(Shared, choices));
    pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(2); }
    if (!pid) {
        int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); if (!getenv("SIM_STDERR")) dup2(n, 2);
        sh = s; gp = j.p; Cfg c = j.c; c.replay = rep != nullptr; run_main(c, rep, pr.body, nullptr);
    }
    int st; while (waitpid(pid, &st, 0) < 0) {}
    if (!s->done) { s->vclass = WIFSIGNALED(st) ? V_SIGNAL : V_INFRA; snprintf(s->sig, sizeof s->sig, WIFSIGNALED(st) ? "process killed by signal %d" : "process exit %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); snprintf(s->detail, sizeof s->detail, "%s", s->sig); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) s->vclass = V_INFRA; return false; }
    return true;
}
struct Rec { int done, vclass; u64 hash, sync, events, sim_ns, switches, preempts; u32 fired[K_MAX]; u32 probes[16]; u32 mpi, io, fibers; char sig[200]; };
static void fill_rec(Rec& r, const Shared* s) {
    r.vclass = s->vclass; r.hash = s->st.run_hash; r.sync = s->st.sync_hash; r.events = s->st.events; r.sim_ns = s->st.sim_ns - 1700000000ull * 1000000000ull; r.switches = s->st.switches; r.preempts = s->st.preempts;
    for (int i = 0; i < K_MAX; i++) r.fired[i] = (u32)s->st.fired[i]; for (int i = 0; i < 16; i++) r.probes[i] = (u32)s->st.probes[i];
    r.mpi = (u32)s->st.mpi_calls; r.io = (u32)s->st.io_calls; r.fibers = (u32)s->st.fibers; snprintf(r.sig, sizeof r.sig, "%s", s->sig); __sync_synchronize(); r.done = 1;
}
static str job_text(const Params& p) { char b[700]; size_t o = 0; for (int i = 0; i < NP; i++) o += snprintf(b + o, sizeof b - o, "%s%s=%lld", i ? " " : "", pname[i], p[i]); return str(b) + " engine_name=" + (p[ENG] >= 0 && p[ENG] < E_N ? ename[p[ENG]] : "?"); }
static str jesc(const char* s) { str o; for (; *s; s++) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if (*s == '\n') o += "\\n"; else if ((u8)*s < 32 || (u8)*s > 126) o += '?'; else o += *s; } return o; }
// ---- known findings ----
struct Known { str prop, cls, sig, text; u64 hits = 0; };
static std::vector<Known> load_known(const char* f, const char* id) {
    std::vector<Known> v; FILE* k = f ? fopen(f, "r") : nullptr; char l[2000];
    if (k) { while (fgets(l, sizeof l, k)) { l[strcspn(l, "\n")] = 0; if (strncmp(l, "known: ", 7)) continue; auto get = [&](const char* key) { char* q = strstr(l, key); if (!q) return str(); q += strlen(key); if (*q == '"') { char* e = strchr(q + 1, '"'); return e ? str(q + 1, e) : str(); } char* e = strpbrk(q, " "); return e ? str(q, e) : str(q); };
        Known x; x.prop = get("property="); x.cls = get("class="); x.sig = get("sig="); char* t = strstr(l, " | "); x.text = t ? t + 3 : ""; if (x.prop == id && !x.sig.empty()) v.push_back(x); } fclose(k); }
    return v;
}
static Known* match(std::vector<Known>& v, int vclass, const char* sig) { for (auto& k : v) if (k.cls == vclass_name[vclass] && !strncmp(k.sig.c_str(), sig, k.sig.size())) return &k; return nullptr; }
// ---- replay files ----
static const char* cfgs[] = { "seed", "strategy", "sync_p", "gap", "pct_depth", "pct_len", "conflict_p", "spurious_p", "stall_p", "clock_p", "delay_p", "fault_cap", "fill", "race", "nnodes", "ncpus", "nranks", "max_events" };
static void cfg_io(Cfg& c, const char* n, str* o, const char* in) {
#define F(name, fmt, conv) if (!strcmp(n, #name)) { if (o) { char b[64]; snprintf(b, sizeof b, fmt, c.name); *o = b; } else c.name = conv; }
    F(seed, "%lu", strtoull(in, 0, 10)) F(strategy, "%d", atoi(in)) F(sync_p, "%.17g", atof(in)) F(gap, "%u", (u32)atoi(in)) F(pct_depth, "%u", (u32)atoi(in)) F(pct_len, "%lu", strtoull(in, 0, 10)) F(conflict_p, "%.17g", atof(in))
    F(spurious_p, "%.17g", atof(in)) F(stall_p, "%.17g", atof(in)) F(clock_p, "%.17g", atof(in)) F(delay_p, "%.17g", atof(in)) F(fault_cap, "%d", atoi(in)) F(fill, "%u", (u32)atoi(in)) F(nnodes, "%d", atoi(in)) F(ncpus, "%d", atoi(in)) F(nranks, "%d", atoi(in)) F(max_events, "%lu", strtoull(in, 0, 10))
    if (!strcmp(n, "race")) { if (o) *o = c.race ? "1" : "0"; else c.race = atoi(in); }
}
static bool write_replay(const char* path, const char* id, const Job& j, const Shared* s, const rvec<Choice>* ch, u64 seed, u64 idx) {
    FILE* f = fopen(path, "w"); if (!f) return false; Cfg c = j.c;
    fprintf(f, "# knor simulation replay; run: /verif/check %s --replay %s\nproperty %s\nvariant %s\norigin seed=%llu index=%llu\n", id, path, id, variant_name, (unsigned long long)seed, (unsigned long long)idx);
    for (int i = 0; i < NP; i++) fprintf(f, "param %s %lld\n", pname[i], j.p[i]);
    for (const char* n : cfgs) { str v; cfg_io(c, n, &v, nullptr); fprintf(f, "cfg %s %s\n", n, v.c_str()); }
    for (int i = 0; i < K_MAX; i++) if (c.fault_p[i] > 0 || c.fault_at[i] >= 0) fprintf(f, "faultcfg %s %.17g %d\n", kind_name[i], c.fault_p[i], c.fault_at[i]);
    fprintf(f, "mode %s\n", ch ? "choices" : "seed");
    if (ch) for (auto& x : *ch) fprintf(f, "choice %u %s %u %llu\n", x.fiber, kind_name[x.kind], x.val, (unsigned long long)x.ev);
    fprintf(f, "expect class %s\nexpect hash %016llx\nexpect sig %s\n", vclass_name[s->vclass], (unsigned long long)s->st.run_hash, s->sig);
    fprintf(f, "# %s\n", s->detail); for (const char* p = s->trace; *p;) { const char* e = strchr(p, '\n'); if (!e) break; fprintf(f, "# trace %.*s\n", (int)(e - p), p); p = e + 1; }
    fclose(f); return true;
}
static int do_replay(const char* path, const char* want, bool quiet_) {
    FILE* f = fopen(path, "r"); if (!f) { fprintf(out, "cannot open %s\n", path); return 2; }
    Job j; for (int i = 0; i < NP; i++) j.p[i] = pmin[i]; rvec<Choice> ch; bool bych = false; str id, cls, sig; u64 hash = 0; char l[3000];
    while (fgets(l, sizeof l, f)) {
        l[strcspn(l, "\n")] = 0; char a[64], b[64], c2[64]; u32 fi, va; unsigned long long ev; long long v;
        if (sscanf(l, "property %63s", a) == 1) id = a;
        else if (sscanf(l, "param %63s %lld", a, &v) == 2) { for (int i = 0; i < NP; i++) if (!strcmp(pname[i], a)) j.p[i] = v; }
        else if (sscanf(l, "cfg %63s %63s", a, b) == 2) cfg_io(j.c, a, nullptr, b);
        else if (sscanf(l, "faultcfg %63s %63s %63s", a, b, c2) == 3) { for (int i = 0; i < K_MAX; i++) if (!strcmp(kind_name[i], a)) { j.c.fault_p[i] = atof(b); j.c.fault_at[i] = atoi(c2); } }
        else if (sscanf(l, "mode %63s", a) == 1) bych = !strcmp(a, "choices");
        else if (sscanf(l, "choice %u %63s %u %llu", &fi, a, &va, &ev) == 4) { Choice c; memset(&c, 0, sizeof c); c.fiber = fi; c.val = va; c.ev = ev; for (int i = 0; i < K_MAX; i++) if (!strcmp(kind_name[i], a)) c.kind = i; ch.push_back(c); }
        else if (!strncmp(l, "expect class ", 13)) cls = l + 13; else if (!strncmp(l, "expect hash ", 12)) hash = strtoull(l + 12, 0, 16); else if (!strncmp(l, "expect sig ", 11)) sig = l + 11;
    }
    fclose(f); const Prop* pr = find_prop(id.c_str()); if (!pr || (want && id != want)) { fprintf(out, "replay file is for property %s\n", id.c_str()); return 2; }
    Shared* s = new_shared(); run_one(*pr, j, s, bych ? &ch : nullptr);
    bool same_ = cls == vclass_name[s->vclass] && sig == s->sig; bool exact = same_ && hash == s->st.run_hash;
    if (!quiet_) fprintf(out, "replay %s: %s [%s] %s\n%s\n%s%s", path, vclass_name[s->vclass], s->sig, s->detail, exact ? "reproduced exactly" : same_ ? "same violation, different trace (the code changed?)" : "the recorded violation did not occur", s->trace, s->trace[0] ? "" : "\n");
    if (s->vclass == V_OK) return 0;
    if (!quiet_) fprintf(out, "VIOLATION property=%s replay=%s\n", id.c_str(), path);
    return exact ? 1 : 3;
}
// ---- minimisation ----
static bool same_v(const Shared* s, int cls, const char* sig) { return s->vclass == cls && !strcmp(s->sig, sig); }
static void minimise(const Prop& pr, Job& j, Shared* s, Shared* t, int cls, const char* sig, double deadline) {
    // 1. smaller jobs (each candidate is tried under several seeds of the scheduler)
    bool progress = true;
    while (progress && wall() < deadline) {
        progress = false;
        static const int order[] = { N, ITERS, RANKS, T, K, D, JOBS, NSTART, NODES, TASKROWS, DKIND, TOL, INIT, SRC, MB, HIST, SUB };
        for (int q : order) {
            i64 cur = j.p[q]; if (cur <= pmin[q]) continue;
            i64 cand[] = { pmin[q], cur / 2, cur - 1 - cur / 8, cur - 1 };
            for (i64 v : cand) {
                if (v < pmin[q] || v >= j.p[q]) continue;
                bool hit = false;
                for (int k = 0; k < 12 && !hit && wall() < deadline; k++) {
                    Job c = j; c.p[q] = v; clamp(pr.id, c.p, c.c); if (k) c.c.seed = j.c.seed * 31 + k; if (c.p[q] != v) break;
                    if (q == NODES) c.c.nnodes = (int)v;
                    if (k > 0) for (int i = 0; i < K_MAX; i++) if (c.c.fault_at[i] > 0) c.c.fault_at[i] = (int)((u64)c.c.fault_at[i] * (k % 5) / 4);
                    run_one(pr, c, t, nullptr); if (same_v(t, cls, sig)) { j = c; hit = true; }
                }
                if (hit) { progress = true; break; }
            }
        }
    }
    run_one(pr, j, s, nullptr);
}
static void ddmin(const Prop& pr, const Job& j, rvec<Choice>& ch, Shared* t, int cls, const char* sig, double deadline) {
    size_t n = 2;
    { rvec<Choice> none; run_one(pr, j, t, &none); if (same_v(t, cls, sig)) { ch = none; return; } }
    while (ch.size() >= 2 && wall() < deadline) {
        size_t len = (ch.size() + n - 1) / n; bool red = false;
        for (size_t i = 0; i < ch.size() && wall() < deadline; i += len) {
            rvec<Choice> c(ch.begin(), ch.begin() + i); c.insert(c.end(), ch.begin() + std::min(ch.size(), i + len), ch.end());
            run_one(pr, j, t, &c);
            if (same_v(t, cls, sig)) { ch = c; n = std::max<size_t>(n - 1, 2); red = true; break; }
        }
        if (!red) { if (n >= ch.size()) break; n = std::min(ch.size(), n * 2); }
    }
}
// ---- campaign ----
static int campaign(const Prop& pr, u64 seed, bool thorough, const char* known, const char* evid, const char* repdir, int W, i64 nruns, double cap, const char* self_exe) {
    double t0 = wall(); u64 NR = nruns > 0 ? nruns : thorough ? pr.thorough : pr.quick;
    auto kn = load_known(known, pr.id);
    Rec* recs = (Rec*)mmap(0, sizeof(Rec) * NR, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    struct Ctl { u64 next, lowest; int stop; }; Ctl* ctl = (Ctl*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ctl->lowest = ~0ull;
    fflush(stdout); fflush(out);
    std::vector<pid_t> ws;
    for (int w = 0; w < W; w++) {
        pid_t p = fork(); if (p) { ws.push_back(p); continue; }
        Shared* s = new_shared();
        for (;;) {
            u64 i = __sync_fetch_and_add(&ctl->next, 1); if (i >= NR || i > ctl->lowest) break;
            if (wall() - t0 > cap) { ctl->stop = 1; break; }
            Job j = make_job(pr, seed, i); run_one(pr, j, s, nullptr);
            if (s->vclass == V_INFRA) run_one(pr, j, s, nullptr);
            fill_rec(recs[i], s);
            if (s->vclass != V_OK && s->vclass != V_INFRA && !match(kn, s->vclass, s->sig)) { u64 lo; while ((lo = ctl->lowest) > i && !__sync_bool_compare_and_swap(&ctl->lowest, lo, i)) {} }
        }
        _exit(0);
    }
    for (pid_t p : ws) { int st; waitpid(p, &st, 0); }
    // aggregate
    u64 runs = 0, nt = 0, infra = 0, amb = 0, viol = 0, ev = 0, sim = 0, sw = 0, pre = 0, mpi = 0, io = 0; u64 fired[K_MAX] = { 0 }, runs_with[K_MAX] = { 0 }; u64 probes[16] = { 0 }; std::set<u64> inter, hist; std::map<str, u64> strat, eng; std::vector<i64> bad; char infra_s[200] = "";
    for (u64 i = 0; i < NR; i++) if (recs[i].done) {
        Rec& r = recs[i]; runs++; nt += r.probes[0] > 0; amb += r.probes[1] > 0; ev += r.events; sim += r.sim_ns; sw += r.switches; pre += r.preempts; mpi += r.mpi; io += r.io; inter.insert(r.sync); if (r.probes[0]) hist.insert(r.hash);
        for (int k = 0; k < K_MAX; k++) { fired[k] += r.fired[k]; runs_with[k] += r.fired[k] > 0; } for (int k = 0; k < 16; k++) probes[k] += r.probes[k] > 0;
        Job j = make_job(pr, seed, i); strat[strategy_name[j.c.strategy]]++; if (strcmp(pr.id, "C26") && strcmp(pr.id, "C37")) eng[ename[j.p[ENG]]]++;
        if (r.vclass == V_INFRA) { infra++; snprintf(infra_s, sizeof infra_s, "%s", r.sig); }
        else if (r.vclass != V_OK) { if (Known* k = match(kn, r.vclass, r.sig)) k->hits++; else { viol++; bad.push_back((i64)i); } }
    }
    double wt = wall() - t0; int rc = 0; str rep;
    for (auto& k : kn) fprintf(out, "KNOWN-FINDING: property=%s %s (seen in %llu of %llu runs)\n", pr.id, k.text.c_str(), (unsigned long long)k.hits, (unsigned long long)runs);
    if (infra * 50 > runs || !runs) { fprintf(out, "ERROR: %llu of %llu runs could not be judged (%s)\n", (unsigned long long)infra, (unsigned long long)runs, infra_s); rc = 2; }
    // The first violating run that repeats exactly is minimised and reported. A change under test may read indeterminate memory,
    // so that no run repeats bit for bit: then the first one that is a violation again is reported, and said not to be exact.
    char msg[2000] = ""; i64 inexact = -1;
    for (size_t bi = 0; bi < bad.size() && bi < 12 && rep.empty(); bi++) {
        i64 first = bad[bi]; Job j = make_job(pr, seed, first); Shared* s = new_shared(); Shared* t = new_shared();
        run_one(pr, j, s, nullptr); run_one(pr, j, t, nullptr);
        if (s->vclass != recs[first].vclass || s->st.run_hash != recs[first].hash || t->st.run_hash != s->st.run_hash) { snprintf(msg, sizeof msg, "run %lld of property %s is not reproducible (%s [%s] %016llx; %s [%s] %016llx)", first, pr.id, vclass_name[recs[first].vclass], recs[first].sig, (unsigned long long)recs[first].hash, vclass_name[s->vclass], s->sig, (unsigned long long)s->st.run_hash); if (inexact < 0 && s->vclass != V_OK && s->vclass != V_INFRA) inexact = first; }
        else {
            int cls = s->vclass; char sig[400]; snprintf(sig, sizeof sig, "%s", s->sig); Job j0 = j; double mt = thorough ? 120 : 40;
            u64 sz0 = s->nchoices;
            minimise(pr, j, s, t, cls, sig, wall() + mt * .6);
            if (!same_v(s, cls, sig)) { j = j0; run_one(pr, j, s, nullptr); }
            mkdir(repdir, 0755); char path[500]; snprintf(path, sizeof path, "%s/%s-%llu-%lld.replay", repdir, pr.id, (unsigned long long)seed, first);
            bool by_choice = false; rvec<Choice> ch;
            if (!s->choices_lost) {
                ch.assign(s->choices, s->choices + s->nchoices); run_one(pr, j, t, &ch);
                if (same_v(t, cls, sig)) { ddmin(pr, j, ch, t, cls, sig, wall() + mt * .4); run_one(pr, j, t, &ch); if (same_v(t, cls, sig)) by_choice = true; }
            }
            if (!by_choice) run_one(pr, j, t, nullptr);
            write_replay(path, pr.id, j, t, by_choice ? &ch : nullptr, seed, first);
            // gate: a fresh process must reproduce the file exactly
            char cmd[1200]; snprintf(cmd, sizeof cmd, "'%s' replay '%s' --quiet", self_exe, path); fflush(out);
            int e = system(cmd); e = WIFEXITED(e) ? WEXITSTATUS(e) : -1;
            if (e != 1) { // fall back to the original, unminimised run
                run_one(pr, j0, t, nullptr); write_replay(path, pr.id, j0, t, nullptr, seed, first); e = system(cmd); e = WIFEXITED(e) ? WEXITSTATUS(e) : -1; by_choice = false; j = j0;
            }
            if (e != 1) { snprintf(msg, sizeof msg, "replay file %s does not reproduce in a fresh process (%d)", path, e); if (inexact < 0) inexact = first; }
            else {
                fprintf(out, "%s [%s] in run %lld of %llu (seed %llu): %s\n  job: %s\n  schedule: %s, %zu recorded choices (%llu before minimisation), %llu steps\n", vclass_name[t->vclass], t->sig, first, (unsigned long long)NR, (unsigned long long)seed, t->detail, job_text(j.p).c_str(), by_choice ? "explicit choices" : "by seed", ch.size(), (unsigned long long)sz0, (unsigned long long)t->st.events);
                fprintf(out, "VIOLATION property=%s replay=%s\n", pr.id, path); rc = 1; rep = path;
            }
        }
    }
    if (rep.empty() && !bad.empty()) {
        if (inexact >= 0) {
            Job j = make_job(pr, seed, inexact); Shared* s = new_shared(); run_one(pr, j, s, nullptr); char path[500]; mkdir(repdir, 0755); snprintf(path, sizeof path, "%s/%s-%llu-%lld.replay", repdir, pr.id, (unsigned long long)seed, inexact);
            write_replay(path, pr.id, j, s, nullptr, seed, inexact); rep = path;
            fprintf(out, "%s [%s] in run %lld (seed %llu): %s\n  job: %s\n  not exact: %s; the code under test depends on something outside the simulation, such as indeterminate memory\nVIOLATION property=%s replay=%s\n", vclass_name[recs[inexact].vclass], recs[inexact].sig, inexact, (unsigned long long)seed, s->detail, job_text(j.p).c_str(), msg, pr.id, path); rc = 1;
        } else { fprintf(out, "ERROR: %s\n", msg); rc = 2; }
    }
    if (evid) {
        FILE* f = fopen(evid, "w");
        if (f) {
            fprintf(f, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"%s\",\n \"coverage\": {\n  \"evaluations\": %llu, \"distinct_nontrivial\": %zu,\n  \"rule\": \"a run counts when %s; distinct by the hash of its whole event log\",\n  \"samples\": [", pr.id, thorough ? "thorough" : "quick", (unsigned long long)seed, "exploration", (unsigned long long)runs, hist.size(), jesc(pr.rule).c_str());
            int ns = 0; for (u64 i = 0; i < NR && ns < 4; i++) if (recs[i].done && recs[i].probes[0]) { Job j = make_job(pr, seed, i); fprintf(f, "%s\"run %llu: %s; schedule %s; %llu steps, %llu switches, verdict %s\"", ns++ ? ", " : "", (unsigned long long)i, jesc(job_text(j.p).c_str()).c_str(), strategy_name[j.c.strategy], (unsigned long long)recs[i].events, (unsigned long long)recs[i].switches, vclass_name[recs[i].vclass]); }
            if (!ns) fprintf(f, "\"none\"");
            fprintf(f, "],\n  \"runs_planned\": %llu, \"time_cap_hit\": %s, \"nontrivial_runs\": %llu, \"ambiguous_runs\": %llu, \"unjudged_runs\": %llu,\n  \"runs_per_hour\": %.0f, \"seeds_per_hour\": %.0f, \"simulated_seconds\": %.3f, \"simulated_steps\": %llu, \"thread_switches\": %llu, \"preemptions\": %llu, \"communication_calls\": %llu, \"io_calls\": %llu,\n  \"distinct_interleavings\": %zu, \"interleaving_measure\": \"hash of the sequence of (thread, synchronisation operation, object) of a run\",\n  \"faults_injected\": {", (unsigned long long)NR, ctl->stop ? "true" : "false", (unsigned long long)nt, (unsigned long long)amb, (unsigned long long)infra, runs / wt * 3600, runs / wt * 3600, sim * 1e-9, (unsigned long long)ev, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)mpi, (unsigned long long)io, inter.size());
            bool fst = true; for (int k = K_SPURIOUS; k < K_MAX; k++) if (fired[k]) { fprintf(f, "%s\"%s\": {\"times\": %llu, \"runs\": %llu}", fst ? "" : ", ", kind_name[k], (unsigned long long)fired[k], (unsigned long long)runs_with[k]); fst = false; }
            fprintf(f, "},\n  \"outcomes\": {\"failed_loudly\": %llu, \"threw\": %llu, \"hung_survivors\": %llu, \"no_output\": %llu, \"partial_output\": %llu, \"complete_output_checked\": %llu},\n  \"strategies\": {", (unsigned long long)probes[5], (unsigned long long)probes[6], (unsigned long long)probes[7], (unsigned long long)probes[8], (unsigned long long)probes[9], (unsigned long long)probes[10]);
            fst = true; for (auto& k : strat) { fprintf(f, "%s\"%s\": %llu", fst ? "" : ", ", k.first.c_str(), (unsigned long long)k.second); fst = false; }
            fprintf(f, "},\n  \"engines\": {"); fst = true; for (auto& k : eng) { fprintf(f, "%s\"%s\": %llu", fst ? "" : ", ", k.first.c_str(), (unsigned long long)k.second); fst = false; }
            fprintf(f, "},\n  \"real_code\": \"libkcommon, libman, libauto, libdist, binding/kmeanspp.hpp, binding/numa_reorg.hpp and every program of exec/ but gmm compiled from the working tree with memory-access instrumentation\",\n  \"stubs\": \"pthread and OpenMP runtimes, file and stdio layer, numa, MPI, clocks, process exit, allocator (all inside the simulator)\",\n  \"known_findings\": [");
            fst = true; for (auto& k : kn) { fprintf(f, "%s\"%s: %llu runs\"", fst ? "" : ", ", jesc(k.text.c_str()).c_str(), (unsigned long long)k.hits); fst = false; }
            fprintf(f, "]\n },\n \"assumptions\": [\"sequentially consistent memory at the granularity of instrumented accesses; weaker orderings are covered only through happens-before race detection\", \"schedules and faults are sampled, not enumerated\", \"simulated substitutes behave as their standards allow\"],\n \"wall_s\": %.2f, \"violations\": %llu\n}\n", wall() - t0, (unsigned long long)viol);
            fclose(f);
        }
    }
    fprintf(out, "%s: %llu runs (%llu non-trivial, %llu ambiguous, %llu unjudged), %zu distinct interleavings, %.1f s%s\n", pr.id, (unsigned long long)runs, (unsigned long long)nt, (unsigned long long)amb, (unsigned long long)infra, inter.size(), wall() - t0, viol ? "" : rc ? "" : ", no violation");
    return rc;
}
int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    // a fixed environment: its size shifts the initial stack
    int o = dup(1); out = fdopen(o, "w"); real_err = stderr; setvbuf(out, nullptr, _IOLBF, 0);
    char exe[500]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n > 0) exe[n] = 0;
    if (argc < 3) { fprintf(out, "usage: simknor run ID [options] | replay FILE | one ID INDEX | determinism ID N\n"); return 2; }
    u64 seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1; bool thorough = false; const char *known = nullptr, *evid = nullptr, *repdir = "/tmp", *want = nullptr; int W = (int)sysconf(_SC_NPROCESSORS_ONLN); i64 nruns = 0; double cap = 0; bool quiet_ = false;
    for (int i = 3; i < argc; i++) { str a = argv[i]; const char* v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--thorough") thorough = true; else if (a == "--quiet") quiet_ = true; else if (a == "--seed") { seed = strtoull(v, 0, 10); i++; } else if (a == "--known") { known = v; i++; } else if (a == "--evidence") { evid = v; i++; } else if (a == "--replays") { repdir = v; i++; } else if (a == "--workers") { W = atoi(v); i++; } else if (a == "--runs") { nruns = atoll(v); i++; } else if (a == "--cap") { cap = atof(v); i++; } else if (a == "--property") { want = v; i++; } }
    if (W < 1) W = 1; if (cap <= 0) cap = thorough ? 600 : 150;
    str cmd = argv[1];
    if (cmd == "replay") return do_replay(argv[2], want, quiet_);
    const Prop* pr = find_prop(argv[2]); if (!pr) { fprintf(out, "no check for property %s\n", argv[2]); return 2; }
    if (cmd == "run") return campaign(*pr, seed, thorough, known, evid, repdir, W, nruns, cap, exe);
    if (cmd == "one") { Shared* s = new_shared(); Job j = make_job(*pr, seed, atoll(argv[3])); run_one(*pr, j, s, nullptr); fprintf(out, "%s\n%s [%s] %s\nhash %016llx events %llu switches %llu choices %u\nnote %s\n%s", job_text(j.p).c_str(), vclass_name[s->vclass], s->sig, s->detail, (unsigned long long)s->st.run_hash, (unsigned long long)s->st.events, (unsigned long long)s->st.switches, s->nchoices, s->note, s->trace); return s->vclass != 0; }
    if (cmd == "hist") { // verdict histogram, for development
        struct E { str s; }; std::map<str, std::vector<u64>> m; Rec* recs = (Rec*)mmap(0, sizeof(Rec) * (nruns + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); u64* next = (u64*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); double t0 = wall();
        for (int w = 0; w < W; w++) if (!fork()) { Shared* s = new_shared(); for (;;) { u64 i = __sync_fetch_and_add(next, 1); if (i >= (u64)nruns) break; Job j = make_job(*pr, seed, i); run_one(*pr, j, s, nullptr); fill_rec(recs[i], s); } _exit(0); }
        while (wait(nullptr) > 0) {}
        u64 h = 0, nt = 0, am = 0; u64 pb[16] = { 0 }; for (i64 i = 0; i < nruns; i++) { h = h * 31 + recs[i].hash; nt += recs[i].probes[0] > 0; am += recs[i].probes[1] > 0; for (int k = 0; k < 16; k++) pb[k] += recs[i].probes[k] > 0; m[str(vclass_name[recs[i].vclass]) + " [" + recs[i].sig + "]"].push_back(i); }
        for (auto& e : m) { fprintf(out, "%6zu %s  e.g.", e.second.size(), e.first.c_str()); for (size_t i = 0; i < e.second.size() && i < 5; i++) fprintf(out, " %llu", (unsigned long long)e.second[i]); fprintf(out, "\n"); }
        fprintf(out, "nontrivial %llu ambiguous %llu hash %016llx %.1f s; probes", (unsigned long long)nt, (unsigned long long)am, (unsigned long long)h, wall() - t0); for (int k = 0; k < 16; k++) fprintf(out, " %llu", (unsigned long long)pb[k]); fprintf(out, "\n"); return 0;
    }
    return 2;
}
