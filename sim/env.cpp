// Simulated environment: file system, node-local memory, clocks, process exit, external helper commands.
#include "core.hpp"
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <random>
#include <algorithm>

namespace sim {
void* numa_block(size_t n, uptr pc); void numa_release(void* p, size_t n, uptr pc);
int threads_running(); int threads_unjoined();
struct Inode { rvec<char> data; int links; };
struct Open { Inode* ino; size_t pos; bool rd, wr, app; bool closed; FILE* f; rstr* path; };
static rmap<rstr, Inode*>* files; static rmap<rstr, int>* dirs; static rvec<Open*>* opens; static rmap<FILE*, int>* byfile;
static int nopen; static u64 numa_blocks, numa_bytes;
bool g_fs_mkdir_tool_ok = true;
const int FD0 = 1000000;
static long skew; static Rng env_rng(77);
static rmap<int, struct random_data*>* rands;

static rstr norm(const char* p) {
    rstr o; bool abs = p[0] == '/'; rvec<rstr> parts; rstr cur;
    for (const char* q = p;; q++) { if (*q == '/' || !*q) { if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (!cur.empty() && cur != ".") parts.push_back(cur); cur.clear(); if (!*q) break; } else cur += *q; }
    if (abs) o = "/"; for (size_t i = 0; i < parts.size(); i++) { if (i) o += "/"; o += parts[i]; } return o;
}
static rstr parent(const rstr& p) { size_t i = p.rfind('/'); if (i == rstr::npos) return ""; if (i == 0) return "/"; return p.substr(0, i); }
static bool dir_ok(const rstr& p) { return p.empty() || p == "/" || dirs->count(p); }
void env_init() {
    if (files) return;
    files = new (rt_malloc(sizeof *files)) rmap<rstr, Inode*>(); dirs = new (rt_malloc(sizeof *dirs)) rmap<rstr, int>();
    opens = new (rt_malloc(sizeof *opens)) rvec<Open*>(); byfile = new (rt_malloc(sizeof *byfile)) rmap<FILE*, int>();
    rands = new (rt_malloc(sizeof *rands)) rmap<int, struct random_data*>();
}
static Inode* mk() { Inode* n = new (rt_malloc(sizeof(Inode))) Inode(); n->links = 1; return n; }
void fs_put(const char* path, const void* d, size_t n) { Rt r; env_init(); Inode*& i = (*files)[norm(path)]; if (!i) i = mk(); i->data.assign((const char*)d, (const char*)d + n); }
void fs_mkdir(const char* path) { Rt r; env_init(); (*dirs)[norm(path)] = 1; }
bool fs_get(const char* path, rvec<char>& out) { Rt r; env_init(); auto i = files->find(norm(path)); if (i == files->end()) return false; out = i->second->data; return true; }
u64 fs_size(const char* path) { Rt r; env_init(); auto i = files->find(norm(path)); return i == files->end() ? 0 : i->second->data.size(); }
bool fs_exists(const char* path) { Rt r; env_init(); return files->count(norm(path)) > 0; }
void fs_remove(const char* path) { Rt r; env_init(); files->erase(norm(path)); }
void fs_list(rvec<rstr>& out) { Rt r; env_init(); for (auto& p : *files) out.push_back(p.first); }
u64 reads_on(const char*) { return 0; }
Res resources() { Rt r; Res x; memset(&x, 0, sizeof x); x.open_files = nopen; x.live_numa_blocks = (int)numa_blocks; x.live_numa_bytes = numa_bytes; x.running = threads_running(); x.unjoined = threads_unjoined(); x.live_heap_blocks = g.live_blocks; x.live_heap_bytes = g.live_bytes; return x; }

static void io_point(const char* what) { (void)what; g.st.io_calls++; sync_point(O_IO, 0); }
// returns index, or -1 with errno
static int do_open(const char* path, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl) {
    io_point("open");
    if (fault_fires(wr ? K_WOPEN : K_OPEN)) { int e[] = { EACCES, EMFILE, ENOENT, EIO }; errno = e[g.nfaults & 3]; return -1; }
    rstr p = norm(path);
    if (dirs->count(p)) { errno = EISDIR; if (wr) return -1; }
    auto it = files->find(p); Inode* n;
    if (it == files->end()) {
        if (!creat) { errno = ENOENT; return -1; }
        if (!dir_ok(parent(p))) { errno = ENOENT; return -1; }
        n = mk(); (*files)[p] = n;
    } else { if (excl) { errno = EEXIST; return -1; } n = it->second; if (trunc && wr) n->data.clear(); }
    Open* o = new (rt_malloc(sizeof(Open))) Open(); o->ino = n; o->pos = 0; o->rd = rd; o->wr = wr; o->app = app; o->closed = false; o->f = nullptr; o->path = new (rt_malloc(sizeof(rstr))) rstr(p);
    opens->push_back(o); nopen++;
    return (int)opens->size() - 1;
}
static long do_read(Open* o, void* b, size_t n) {
    if (!o->rd) { errno = EBADF; return -1; }
    if (o->closed) { errno = EBADF; return -1; }
    io_point("read");
    size_t av = o->pos < o->ino->data.size() ? o->ino->data.size() - o->pos : 0; if (n > av) n = av;
    u32 m = fault_mode(K_READ, 3);
    if (m == 1) { errno = EIO; return -1; }                      // disk error
    if (m == 2) { o->ino->data.resize(o->pos + n / 2 / 8 * 8); n = n / 2 / 8 * 8; }  // file truncated under us
    if (m == 3 && n > 1) { n = 1 + n / 3; g.nfaults--; }         // short read (legal, callers must continue)
    if (n) __real_memcpy(b, &o->ino->data[o->pos], n); o->pos += n; return (long)n;
}
static long do_write(Open* o, const void* b, size_t n) {
    if (!o->wr) { errno = EBADF; return -1; }
    if (o->closed) { errno = EBADF; return -1; }
    io_point("write");
    u32 m = fault_mode(K_WRITE, 4);
    size_t k = n; int err = 0;
    if (m == 1) { errno = EIO; return -1; }
    if (m == 2) { err = ENOSPC; k = n / 2; }                     // disk full: part of the data fits
    if (m == 3) { errno = EINTR; return -1; }
    if (m == 4) { k = n > 1 ? n / 2 : n; }                       // short write (legal)
    if (o->app) o->pos = o->ino->data.size();
    if (o->pos + k > o->ino->data.size()) o->ino->data.resize(o->pos + k);
    if (k) __real_memcpy(&o->ino->data[o->pos], b, k); o->pos += k;
    if (err && k == 0) { errno = err; return -1; }
    if (err) o->ino->links = -1;                                  // device stays full for this file
    if (!err && o->ino->links == -1) { o->ino->data.resize(o->pos -= k); errno = ENOSPC; return -1; }
    return (long)k;
}
static long do_seek(Open* o, long off, int wh) {
    if (fault_fires(K_SEEK)) { errno = EIO; return -1; }
    long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)o->pos : (long)o->ino->data.size();
    if (base + off < 0) { errno = EINVAL; return -1; }
    o->pos = base + off; return (long)o->pos;
}
static int do_close(Open* o) {
    if (o->closed) { errno = EBADF; return -1; }
    io_point("close"); o->closed = true; nopen--;
    if (fault_fires(K_CLOSE)) { errno = EIO; return -1; }
    return 0;
}
static ssize_t ck_read(void* c, char* b, size_t n) { Rt r; return do_read((Open*)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { Rt r; Open* o = (Open*)c; size_t done = 0; // stdio itself does not retry a cookie's short write
    while (done < n) { long k = do_write(o, b + done, n - done); if (k < 0) { if (errno == EINTR) continue; return 0; } if (k == 0) return done; done += k; } return done; }
static int ck_seek(void* c, off64_t* off, int wh) { Rt r; long p = do_seek((Open*)c, *off, wh); if (p < 0) return -1; *off = p; return 0; }
static int ck_close(void* c) { Rt r; return do_close((Open*)c); }
static Open* by_fd(int fd) { if (!opens || fd < FD0 || fd - FD0 >= (int)opens->size()) return nullptr; return (*opens)[fd - FD0]; }
static int sim_system(const char* cmd) {
    io_point("system");
    if (fault_fires(K_SYSTEM) || !g_fs_mkdir_tool_ok) return 256;
    rvec<rstr> w; rstr cur; for (const char* p = cmd;; p++) { if (*p == ' ' || !*p) { if (!cur.empty()) w.push_back(cur); cur.clear(); if (!*p) break; } else if (*p != '\'' && *p != '"') cur += *p; }
    bool mkd = false; for (auto& s : w) if (s.find("util.py") != rstr::npos || s == "mkdir") mkd = true;
    if (!mkd || w.size() < 2) return 127 << 8;
    rstr d = norm(w.back().c_str()); for (rstr p = d; !p.empty() && p != "/"; p = parent(p)) (*dirs)[p] = 1;
    return 0;
}
u64 wall_ns() {
    u64 j = choose(K_CLOCK, 5, g.cfg.clock_p);
    static const long jump[] = { 0, 3600, -3600, 1, -1 }; skew += jump[j];
    return now_ns() + (u64)(skew * 1000000000l);
}
static void loud(int kind, const char* fmt, ...) {
    g_rt++; char b[700]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    char st[500]; stack_of(st, sizeof st, 0); size_t l = strlen(b); snprintf(b + l, sizeof b - l, " [%s]", st);
    sh->loud_kind = kind; if (on_loud) on_loud(kind, b); char sg[200]; snprintf(sg, sizeof sg, "%.180s", b); for (char* q = sg; *q; q++) if (!strncmp(q, " failed at", 10) || !strncmp(q, " [", 2)) { *q = 0; break; } verdict(V_LOUD, sg, "%s", b);
}
static struct random_data* rnd() {
    int rk = g.cur ? g.cur->rank : -1; auto& r = (*rands)[rk];
    if (!r) { r = (struct random_data*)rt_malloc(sizeof *r); memset(r, 0, sizeof *r); char* b = (char*)rt_malloc(128); memset(b, 0, 128); initstate_r(1, b, 128, r); }
    return r;
}
}
using namespace sim;
#define PC ((uptr)__builtin_return_address(0))
#define OFF (g_rt || !g.active)
extern "C" {
FILE* __real_fopen(const char*, const char*); FILE* __real_fopen64(const char*, const char*); int __real_fclose(FILE*); size_t __real_fread(void*, size_t, size_t, FILE*); size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fileno(FILE*); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); ssize_t __real_writev(int, const struct iovec*, int);
int __real_close(int); off_t __real_lseek(int, off_t, int); off64_t __real_lseek64(int, off64_t, int); int __real_fstat(int, struct stat*); int __real_fstat64(int, struct stat64*); int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...);
int __real_stat(const char*, struct stat*); int __real_stat64(const char*, struct stat64*); int __real_ioctl(int, unsigned long, ...); int __real_poll(struct pollfd*, nfds_t, int);
int __real_clock_gettime(clockid_t, struct timespec*); int __real_gettimeofday(struct timeval*, void*); time_t __real_time(time_t*); void __real_exit(int) __attribute__((noreturn)); void __real__exit(int) __attribute__((noreturn)); void __real_abort() __attribute__((noreturn));
void __real___assert_fail(const char*, const char*, unsigned, const char*) __attribute__((noreturn)); int __real_system(const char*); int __real_access(const char*, int); int __real_mkdir(const char*, mode_t);

static FILE* sim_fopen(const char* p, const char* m) {
    Rt r; bool rd = m[0] == 'r' || strchr(m, '+'), wr = m[0] != 'r' || strchr(m, '+');
    int i = do_open(p, rd, wr, m[0] != 'r', m[0] == 'w', m[0] == 'a', strchr(m, 'x') != nullptr); if (i < 0) return nullptr;
    Open* o = (*opens)[i]; cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE* f = fopencookie(o, m, io); o->f = f; (*byfile)[f] = i; return f;
}
FILE* __wrap_fopen(const char* p, const char* m) { if (OFF) return __real_fopen(p, m); return sim_fopen(p, m); }
FILE* __wrap_fopen64(const char* p, const char* m) { if (OFF) return __real_fopen64(p, m); return sim_fopen(p, m); }
int __wrap_fclose(FILE* f) {
    if (OFF || !byfile) return __real_fclose(f);
    Rt r;
    if (!f) { char st[700]; stack_of(st, sizeof st, PC); verdict(V_RESOURCE, "fclose of NULL", "fclose(NULL); stack: %s", st); }
    auto it = byfile->find(f);
    if (it == byfile->end()) { if (f == stdout || f == stderr || f == stdin) return 0; char st[700]; stack_of(st, sizeof st, PC); verdict(V_RESOURCE, "fclose of closed file", "fclose of a file that is not open; stack: %s", st); }
    byfile->erase(it); return __real_fclose(f);
}
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) { if (OFF) return __real_fread(b, s, n, f); check_range((uptr)b, s * n, true, PC); Rt r; return __real_fread(b, s, n, f); }
size_t __wrap_fwrite(const void* b, size_t s, size_t n, FILE* f) { if (OFF) return __real_fwrite(b, s, n, f); check_range((uptr)b, s * n, false, PC); Rt r; return __real_fwrite(b, s, n, f); }
int __wrap_fileno(FILE* f) { if (byfile) { auto it = byfile->find(f); if (it != byfile->end()) return FD0 + it->second; } return __real_fileno(f); }
ssize_t __wrap_read(int fd, void* b, size_t n) { Open* o = by_fd(fd); if (!o) return __real_read(fd, b, n); if (!g_rt) check_range((uptr)b, n, true, PC); Rt r; return do_read(o, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { Open* o = by_fd(fd); if (!o) return __real_write(fd, b, n); Rt r; return do_write(o, b, n); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
    Open* o = by_fd(fd); if (!o) return __real_writev(fd, v, c); Rt r; ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; long k = do_write(o, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if ((size_t)k < v[i].iov_len) break; } return t;
}
int __wrap_close(int fd) { Open* o = by_fd(fd); if (!o) return __real_close(fd); Rt r; return do_close(o); }
off_t __wrap_lseek(int fd, off_t o, int w) { Open* p = by_fd(fd); if (!p) return __real_lseek(fd, o, w); Rt r; return do_seek(p, o, w); }
off64_t __wrap_lseek64(int fd, off64_t o, int w) { Open* p = by_fd(fd); if (!p) return __real_lseek64(fd, o, w); Rt r; return do_seek(p, o, w); }
static void fill_stat(Inode* n, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = n->data.size(); s->st_nlink = 1; s->st_blksize = 4096; }
int __wrap_fstat(int fd, struct stat* s) { Open* p = by_fd(fd); if (!p) return __real_fstat(fd, s); Rt r; fill_stat(p->ino, s); return 0; }
int __wrap_fstat64(int fd, struct stat64* s) { Open* p = by_fd(fd); if (!p) return __real_fstat64(fd, s); Rt r; fill_stat(p->ino, (struct stat*)s); return 0; }
static int sim_stat(const char* p, struct stat* s) {
    Rt r; io_point("stat"); rstr q = norm(p); if (dir_ok(q)) { memset(s, 0, sizeof *s); s->st_mode = S_IFDIR | 0755; return 0; }
    auto it = files->find(q); if (it == files->end()) { errno = ENOENT; return -1; } fill_stat(it->second, s); return 0;
}
int __wrap_stat(const char* p, struct stat* s) { if (OFF) return __real_stat(p, s); return sim_stat(p, s); }
int __wrap_lstat(const char* p, struct stat* s) { return sim_stat(p, s); }
int __wrap_stat64(const char* p, struct stat64* s) { if (OFF) return __real_stat64(p, s); return sim_stat(p, (struct stat*)s); }
int __wrap_access(const char* p, int m) { if (OFF) return __real_access(p, m); struct stat s; return sim_stat(p, &s); }
int __wrap_mkdir(const char* p, mode_t m) { if (OFF) return __real_mkdir(p, m); Rt r; io_point("mkdir"); if (fault_fires(K_SYSTEM)) { errno = EACCES; return -1; } rstr q = norm(p); if (dir_ok(q)) { errno = EEXIST; return -1; } if (!dir_ok(parent(q))) { errno = ENOENT; return -1; } (*dirs)[q] = 1; return 0; }
int __wrap_unlink(const char* p) { Rt r; rstr q = norm(p); if (!files->count(q)) { errno = ENOENT; return -1; } files->erase(q); return 0; }
int __wrap_remove(const char* p) { return __wrap_unlink(p); }
int __wrap_rename(const char* a, const char* b) { Rt r; io_point("rename"); auto it = files->find(norm(a)); if (it == files->end()) { errno = ENOENT; return -1; } if (dirs->count(norm(b))) { errno = EISDIR; return -1; } if (!dir_ok(parent(norm(b)))) { errno = ENOENT; return -1; } if (fault_fires(K_WOPEN)) { errno = EACCES; return -1; } Inode* n = it->second; files->erase(it); (*files)[norm(b)] = n; return 0; }
int __real_fsync(int); int __real_fdatasync(int); ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __real_pwrite(int, const void*, size_t, off_t); ssize_t __real_readv(int, const struct iovec*, int); int __real_ftruncate(int, off_t);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t off) { Open* o = by_fd(fd); if (!o) return __real_pread(fd, b, n, off); if (!g_rt) check_range((uptr)b, n, true, PC); Rt r; if (off < 0) { errno = EINVAL; return -1; } auto p = o->pos; o->pos = off; long k = do_read(o, b, n); o->pos = p; return k; }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off64_t off) { return __wrap_pread(fd, b, n, off); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t off) { Open* o = by_fd(fd); if (!o) return __real_pwrite(fd, b, n, off); Rt r; if (off < 0) { errno = EINVAL; return -1; } auto p = o->pos; o->pos = off; long k = do_write(o, b, n); o->pos = p; return k; }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off64_t off) { return __wrap_pwrite(fd, b, n, off); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) {
    Open* o = by_fd(fd); if (!o) return __real_readv(fd, v, c); Rt r; ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; long k = do_read(o, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if ((size_t)k < v[i].iov_len) break; } return t;
}
int __wrap_ftruncate(int fd, off_t n) { Open* o = by_fd(fd); if (!o) return __real_ftruncate(fd, n); Rt r; io_point("ftruncate"); if (!o->wr || n < 0) { errno = EINVAL; return -1; } o->ino->data.resize(n); return 0; }
int __wrap_ftruncate64(int fd, off64_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_truncate(const char* p, off_t n) { Rt r; io_point("truncate"); auto it = files->find(norm(p)); if (it == files->end() || n < 0) { errno = ENOENT; return -1; } it->second->data.resize(n); return 0; }
int __wrap_truncate64(const char* p, off64_t n) { return __wrap_truncate(p, n); }
int __wrap_rmdir(const char* p) { Rt r; rstr q = norm(p); if (!dirs->count(q)) { errno = ENOENT; return -1; } for (auto& f : *files) if (parent(f.first) == q) { errno = ENOTEMPTY; return -1; } dirs->erase(q); return 0; }
int __wrap_fdatasync(int fd) { if (OFF || !by_fd(fd)) return __real_fdatasync(fd); Rt r; io_point("fsync"); if (fault_fires(K_CLOSE)) { errno = EIO; return -1; } return 0; }
int __wrap_fsync(int) { Rt r; io_point("fsync"); if (fault_fires(K_CLOSE)) { errno = EIO; return -1; } return 0; }
static int sim_openfd(const char* p, int fl) { Rt r; int acc = fl & O_ACCMODE; int i = do_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL); return i < 0 ? -1 : FD0 + i; }
int __wrap_creat(const char* p, mode_t) { return sim_openfd(p, O_WRONLY | O_CREAT | O_TRUNC); }
int __wrap_creat64(const char* p, mode_t) { return sim_openfd(p, O_WRONLY | O_CREAT | O_TRUNC); }
int __wrap_open(const char* p, int fl, ...) { if (OFF) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open(p, fl, m); } return sim_openfd(p, fl); }
int __wrap_open64(const char* p, int fl, ...) { if (OFF) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open64(p, fl, m); } return sim_openfd(p, fl); }
int __wrap_ioctl(int fd, unsigned long rq, ...) { va_list a; va_start(a, rq); void* p = va_arg(a, void*); va_end(a); Open* o = by_fd(fd); if (!o) return __real_ioctl(fd, rq, p); if (rq == FIONREAD) { *(int*)p = o->pos < o->ino->data.size() ? (int)(o->ino->data.size() - o->pos) : 0; return 0; } errno = ENOTTY; return -1; }
int __wrap_poll(struct pollfd* f, nfds_t n, int t) { if (n == 1 && by_fd(f[0].fd)) { f[0].revents = POLLIN; return 1; } return __real_poll(f, n, t); }
int __wrap_system(const char* c) { if (OFF) return __real_system(c); Rt r; return sim_system(c); }

// clocks, sleeping
int __wrap_gettimeofday(struct timeval* t, void* z) { if (OFF) return __real_gettimeofday(t, z); Rt r; u64 n = wall_ns(); t->tv_sec = n / 1000000000ull; t->tv_usec = n % 1000000000ull / 1000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (OFF) return __real_clock_gettime(c, t); Rt r; u64 n = c == CLOCK_REALTIME ? wall_ns() : now_ns(); t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0; }
time_t __wrap_time(time_t* t) { if (OFF) return __real_time(t); Rt r; time_t v = wall_ns() / 1000000000ull; if (t) *t = v; return v; }
int __wrap_usleep(unsigned us) { Rt r; sync_point(O_SLEEP, 0); sleep_until(now_ns() + us * 1000ull, "sleeping", 0); return 0; }
unsigned __wrap_sleep(unsigned s) { Rt r; sync_point(O_SLEEP, 0); sleep_until(now_ns() + s * 1000000000ull, "sleeping", 0); return 0; }
int __wrap_nanosleep(const struct timespec* t, struct timespec*) { Rt r; sync_point(O_SLEEP, 0); sleep_until(now_ns() + t->tv_sec * 1000000000ull + t->tv_nsec, "sleeping", 0); return 0; }
int __wrap_clock_nanosleep(clockid_t, int fl, const struct timespec* t, struct timespec*) { Rt r; u64 v = t->tv_sec * 1000000000ull + t->tv_nsec; sync_point(O_SLEEP, 0); sleep_until(fl ? v : now_ns() + v, "sleeping", 0); return 0; }
int __wrap_sched_yield() { if (OFF) return 0; Rt r; sync_point(O_YIELD, 0); return 0; }
int __wrap_pthread_yield() { return __wrap_sched_yield(); }
int __wrap_get_nprocs() { return g.cfg.ncpus; }
int __wrap_get_nprocs_conf() { return g.cfg.ncpus; }
long __real_sysconf(int);
long __wrap_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return g.cfg.ncpus; return __real_sysconf(n); }
int __wrap_sched_getcpu() { return 0; }
int __wrap_rand() { Rt r; int32_t v; random_r(rnd(), &v); return v; }
void __wrap_srand(unsigned s) { Rt r; srandom_r(s, rnd()); }
long __wrap_random() { return __wrap_rand(); }
void __wrap_srandom(unsigned s) { __wrap_srand(s); }
int __wrap_getentropy(void* b, size_t n) { Rt r; for (size_t i = 0; i < n; i++) ((u8*)b)[i] = (u8)env_rng.next(); return 0; }
ssize_t __wrap_getrandom(void* b, size_t n, unsigned) { __wrap_getentropy(b, n); return n; }

// process end
void __wrap_exit(int c) { if (OFF) __real_exit(c); sh->exit_code = c; loud(2, "exit(%d)", c); __real__exit(1); }
void __wrap__exit(int c) { if (OFF) __real__exit(c); sh->exit_code = c; loud(2, "_exit(%d)", c); __real__exit(1); }
void __wrap_abort() { if (OFF && g_rt > 100) __real_abort(); loud(4, "abort()"); __real__exit(1); }
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) { if (!g.active) __real___assert_fail(e, f, l, fn); loud(1, "assertion `%s' failed at %s:%u %s", e, f, l, fn); __real__exit(1); }

// node-local memory (libnuma)
struct bitmask { unsigned long size; unsigned long* maskp; };
static void* numa_get(size_t n, uptr pc) { Rt r; sync_point(O_YIELD, 0); if (fault_fires(K_NUMA) || n == 0) return nullptr; numa_blocks++; numa_bytes += n; return numa_block(n, pc); }
void* numa_alloc_onnode(size_t n, int) { return numa_get(n, PC); }
void* numa_alloc_local(size_t n) { return numa_get(n, PC); }
void* numa_alloc(size_t n) { return numa_get(n, PC); }
void* numa_alloc_interleaved(size_t n) { return numa_get(n, PC); }
void numa_free(void* p, size_t n) { if (!p && !n) return; numa_release(p, n, PC); numa_blocks--; numa_bytes -= n; }
int numa_available() { return 0; }
int numa_max_node() { return g.cfg.nnodes - 1; } int numa_num_configured_nodes() { return g.cfg.nnodes; } int numa_num_task_nodes() { return g.cfg.nnodes; } int numa_num_possible_nodes() { return 64; } int numa_max_possible_node() { return 63; }
int numa_num_configured_cpus() { return g.cfg.ncpus; } int numa_num_task_cpus() { return g.cfg.ncpus; } int numa_node_of_cpu(int c) { return c % g.cfg.nnodes; } int numa_preferred() { return 0; }
struct bitmask* numa_bitmask_alloc(unsigned n) { struct bitmask* b = (struct bitmask*)__wrap_malloc(sizeof *b); b->size = n; b->maskp = (unsigned long*)__wrap_calloc((n + 63) / 64, 8); return b; }
struct bitmask* numa_allocate_nodemask() { return numa_bitmask_alloc(64); }
struct bitmask* numa_allocate_cpumask() { return numa_bitmask_alloc(64); }
void numa_bitmask_free(struct bitmask* b) { if (!b) return; __wrap_free(b->maskp); __wrap_free(b); }
struct bitmask* numa_bitmask_setbit(struct bitmask* b, unsigned i) { if (i < b->size) b->maskp[i / 64] |= 1ul << (i % 64); return b; }
struct bitmask* numa_bitmask_clearall(struct bitmask* b) { for (unsigned i = 0; i < b->size / 64; i++) b->maskp[i] = 0; return b; }
int numa_bitmask_isbitset(const struct bitmask* b, unsigned i) { return i < b->size && (b->maskp[i / 64] >> (i % 64) & 1); }
void numa_bind(struct bitmask*) {} int numa_run_on_node(int) { return 0; } void numa_set_preferred(int) {} void numa_set_localalloc() {} void numa_set_strict(int) {}
void numa_tonode_memory(void*, size_t, int) {} int numa_run_on_node_mask(struct bitmask*) { return 0; } void numa_set_membind(struct bitmask*) {} int numa_node_to_cpus(int, struct bitmask*) { return 0; }
}
// std::random_device must be repeatable: take its numbers from the run's generator.
extern "C" {
void __wrap__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
void __wrap__ZNSt13random_device14_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { Rt r; return (u32)env_rng.next(); }
unsigned __wrap__ZNSt13random_device16_M_getval_pretr1Ev(void*) { Rt r; return (u32)env_rng.next(); }
void __wrap__ZNSt13random_device7_M_finiEv(void*) {}
double __wrap__ZNKSt13random_device13_M_getentropyEv(const void*) { return 0; }
}

// ---- command-line options, one parser state per simulated process ----
#include "include/sim_getopt.h"
#undef optarg
#undef optind
#undef optopt
#undef opterr
#undef getopt
#undef getopt_long
static sim_getopt_state go_st[64];
void sim::getopt_reset() { memset(go_st, 0, sizeof go_st); for (auto& s : go_st) s.ind = 1; }
extern "C" {
sim_getopt_state* sim_getopt_st(void) { int r = g.cur ? g.cur->rank : -1; return &go_st[(r + 1) & 63]; }
int sim_getopt_long(int argc, char* const* argv, const char* opts, const struct option* lo, int* idx) {
    sim_getopt_state* s = sim_getopt_st();
    if (!s->pos) {
        if (opts[0] != '+') while (s->ind < argc && (argv[s->ind][0] != '-' || !argv[s->ind][1])) s->ind++;     // non-options may come anywhere
        if (s->ind >= argc || argv[s->ind][0] != '-' || !argv[s->ind][1]) return -1;
        if (!strcmp(argv[s->ind], "--")) { s->ind++; return -1; }
        if (lo && argv[s->ind][1] == '-') {
            const char* a = argv[s->ind++] + 2; size_t n = strcspn(a, "=");
            for (int i = 0; lo[i].name; i++) if (strlen(lo[i].name) == n && !strncmp(lo[i].name, a, n)) {
                if (idx) *idx = i; s->arg = a[n] == '=' ? (char*)a + n + 1 : nullptr;
                if (lo[i].has_arg == 1 && !s->arg) { if (s->ind >= argc) return '?'; s->arg = argv[s->ind++]; }
                if (lo[i].flag) { *lo[i].flag = lo[i].val; return 0; } return lo[i].val; }
            return '?';
        }
        s->pos = 1;
    }
    const char* w = argv[s->ind]; char c = w[s->pos++]; s->opt = c; const char* o = c == ':' ? nullptr : strchr(opts, c);
    bool last = !w[s->pos];
    if (!o) { if (last) { s->pos = 0; s->ind++; } return '?'; }
    if (o[1] != ':') { if (last) { s->pos = 0; s->ind++; } return c; }
    if (!last) s->arg = (char*)w + s->pos; else if (o[2] == ':') s->arg = nullptr; else { if (s->ind + 1 >= argc) { s->pos = 0; s->ind++; return '?'; } s->arg = argv[++s->ind]; }
    s->pos = 0; s->ind++; return c;
}
int sim_getopt(int argc, char* const* argv, const char* opts) { return sim_getopt_long(argc, argv, opts, nullptr, nullptr); }
}
