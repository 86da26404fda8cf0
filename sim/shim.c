/* LD_PRELOAD shim: the seam between a simulated process ("node") and the
 * operating system.  Disabled until shim_enable() is called in a forked node;
 * then every file-system operation below the scratch prefix, every sleep,
 * every clock read, every directory listing and every getrandom() is decided
 * by the simulator: an operation is announced on a request pipe and carried
 * out (or torn, failed, or answered by the death of the process) as the
 * simulator's reply says.  Nothing outside the prefix is touched. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_TRUNC, OP_CLOSE, OP_READ, OP_RENAME, OP_UNLINK,
       OP_MKDIR, OP_SLEEP, OP_FSYNC, OP_PY, OP_RMDIR };
enum { ACT_OK = 0, ACT_KILL, ACT_TORN, ACT_ERR, ACT_SHORT, ACT_KILL_AFTER, ACT_INT };

struct req { uint32_t op; uint32_t flags; int64_t a, b; uint32_t plen; uint32_t pad; char path[2024]; };
struct rep { int32_t act; int32_t pad; int64_t arg; };
struct clk { volatile int64_t real_ns, mono_ns, reads; };

static int enabled, req_fd = -1, rep_fd = -1, gate_reads;
static char prefix[512];
static size_t prefix_len;
static struct clk *clk;
static uint64_t rnd_state, dir_seed;
#define MAXFD 4096
static struct { char *path; int wr; } fdt[MAXFD];

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) syscall(SYS_pause); }

static void xwrite(int fd, const void *p, size_t n) {
  const char *c = p;
  while (n) { long r = syscall(SYS_write, fd, c, n); if (r < 0) { if (errno == EINTR) continue; die(); } c += r; n -= r; }
}
static void xread(int fd, void *p, size_t n) {
  char *c = p;
  while (n) { long r = syscall(SYS_read, fd, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) die(); c += r; n -= r; }
}

static struct rep gate(int op, int flags, int64_t a, int64_t b, const char *path) {
  struct req q; struct rep p; int e = errno;
  q.op = op; q.flags = flags; q.a = a; q.b = b; q.pad = 0;
  size_t l = path ? strlen(path) : 0; if (l > sizeof q.path - 1) l = sizeof q.path - 1;
  q.plen = l;
  char hdr[offsetof(struct req, path)]; memcpy(hdr, &q, sizeof hdr);
  xwrite(req_fd, hdr, sizeof hdr);
  if (l) xwrite(req_fd, path, l);
  xread(rep_fd, &p, sizeof p);
  if (p.act == ACT_KILL) die();
  /* Ctrl-C: the handler runs before kill() returns, the operation itself is carried out */
  if (p.act == ACT_INT) { syscall(SYS_kill, syscall(SYS_getpid), SIGINT); p.act = ACT_OK; }
  errno = e;
  return p;
}

/* path under the prefix -> pointer to its part below the prefix (static buffer), else NULL */
static const char *under(int dirfd, const char *path, char *buf) {
  if (!enabled || !path) return NULL;
  if (path[0] == '/') { snprintf(buf, PATH_MAX, "%s", path); }
  else {
    if (dirfd != AT_FDCWD) return NULL;
    char cwd[PATH_MAX];
    if (syscall(SYS_getcwd, cwd, sizeof cwd) <= 0) return NULL;
    snprintf(buf, PATH_MAX, "%.2000s/%.2000s", cwd, path);
  }
  if (strncmp(buf, prefix, prefix_len) || (buf[prefix_len] != '/' && buf[prefix_len])) return NULL;
  return buf + prefix_len + (buf[prefix_len] == '/');
}

void *shim_clock_page(void) {
  return mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
int shim_present(void) { return 1; }
void shim_enable(int rq, int rp, const char *pfx, void *clock, uint64_t rseed, uint64_t dseed, int reads) {
  req_fd = rq; rep_fd = rp; snprintf(prefix, sizeof prefix, "%s", pfx); prefix_len = strlen(prefix);
  clk = clock; rnd_state = rseed; dir_seed = dseed; gate_reads = reads; enabled = 1;
}
void shim_channel(int rq, int rp, uint64_t rseed) { req_fd = rq; rep_fd = rp; rnd_state = rseed; }
void shim_disable(void) { enabled = 0; }
/* ------------------------------------------------------------ memory
 * Allocations of array data (those that numpy's core requests, of at least al_min bytes) are counted; from the
 * at-th one on, `times` of them fail.  Only numpy's: what HDF5 does without memory is not this repository's. */
#include <link.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static int64_t al_count, al_at = -1, al_times, al_min = INT64_MAX, al_fired;
static uintptr_t al_lo, al_hi;
static int al_find(struct dl_phdr_info *i, size_t n, void *d) {
  if (!strstr(i->dlpi_name, "_multiarray_umath")) return 0;
  al_lo = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    uintptr_t e = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
    if (i->dlpi_phdr[k].p_type == PT_LOAD && e > al_hi) al_hi = e;
  }
  return 1;
}
void shim_alloc(int64_t min, int64_t at, int64_t times) {
  if (!al_hi) dl_iterate_phdr(al_find, NULL);
  al_count = al_fired = 0; al_min = min; al_at = at; al_times = times;
}
int64_t shim_alloc_count(int64_t *fired) { if (fired) *fired = al_fired; return al_count; }
static int no_memory(size_t n, void *from) {
  if (!enabled || (int64_t)n < al_min || (uintptr_t)from < al_lo || (uintptr_t)from >= al_hi) return 0;
  int64_t k = al_count++;
  if (al_at < 0 || k < al_at || k >= al_at + al_times) return 0;
  al_fired++; errno = ENOMEM; return 1;
}
#define FROM __builtin_return_address(0)
void *malloc(size_t n) { return no_memory(n, FROM) ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return no_memory(b && a > SIZE_MAX / 2 / b ? 0 : a * b, FROM) ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return no_memory(n, FROM) ? NULL : __libc_realloc(p, n); }
/* gate opened by Python-level seams (remote opens, HTTP, pool, ...) */
int64_t shim_py(const char *what, int64_t a, int64_t b, int64_t *arg) {
  if (!enabled) { if (arg) *arg = 0; return 0; }
  struct rep p = gate(OP_PY, 0, a, b, what);
  if (arg) *arg = p.arg;
  return p.act;
}

/* ------------------------------------------------------------------ files */
static int after_open(int fd, const char *rel, int flags) {
  if (fd >= 0 && fd < MAXFD) { free(fdt[fd].path); fdt[fd].path = strdup(rel); fdt[fd].wr = (flags & O_ACCMODE) != O_RDONLY; }
  return fd;
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char buf[PATH_MAX]; const char *rel = under(dirfd, path, buf);
  if (!rel || (flags & O_DIRECTORY)) {
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD && fdt[fd].path) { free(fdt[fd].path); fdt[fd].path = NULL; }
    return fd;
  }
  char relc[PATH_MAX]; snprintf(relc, sizeof relc, "%s", rel);
  struct rep p = gate(OP_OPEN, flags, 0, 0, relc);
  if (p.act == ACT_ERR) { errno = p.arg; return -1; }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (p.act == ACT_KILL_AFTER || p.act == ACT_TORN) die();
  return after_open(fd, relc, flags);
}
#define MODE(f) mode_t m = 0; if ((f) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int f, ...) { MODE(f) return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE(f) return do_open(AT_FDCWD, p, f | O_LARGEFILE, m); }
int openat(int d, const char *p, int f, ...) { MODE(f) return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE(f) return do_open(d, p, f | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int tracked(int fd) { return enabled && fd >= 0 && fd < MAXFD && fdt[fd].path; }

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int pos) {
  if (!tracked(fd) || n == 0) return pos ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
  if (!pos) off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
  struct rep p = gate(OP_WRITE, 0, off, n, fdt[fd].path);
  size_t k = n;
  if (p.act == ACT_ERR) { errno = p.arg; return -1; }
  if (p.act == ACT_TORN || p.act == ACT_SHORT) { k = (size_t)p.arg < n ? (size_t)p.arg : n; if (p.act == ACT_SHORT && k == 0) k = 1; }
  ssize_t r = 0;
  if (k) r = pos ? syscall(SYS_pwrite64, fd, b, k, off) : syscall(SYS_write, fd, b, k);
  if (p.act == ACT_TORN || p.act == ACT_KILL_AFTER) die();
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }

static ssize_t do_read(int fd, void *b, size_t n, off_t off, int pos) {
  size_t k = n;
  if (gate_reads && tracked(fd) && n) {
    struct rep p = gate(OP_READ, 0, pos ? off : -1, n, fdt[fd].path);
    if (p.act == ACT_ERR) { errno = p.arg; return -1; }
    if (p.act == ACT_SHORT) { k = (size_t)p.arg < n ? (size_t)p.arg : n; if (!k) k = 1; }
    if (p.act == ACT_TORN || p.act == ACT_KILL_AFTER) die();
  }
  return pos ? syscall(SYS_pread64, fd, b, k, off) : syscall(SYS_read, fd, b, k);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }

static ssize_t do_sendfile(int out, int in, off_t *o, size_t n) {
  if (!tracked(out)) return syscall(SYS_sendfile, out, in, o, n);
  struct stat st; off_t cur = o ? *o : syscall(SYS_lseek, in, 0, SEEK_CUR);
  if (syscall(SYS_fstat, in, &st) == 0 && st.st_size - cur < (off_t)n) n = st.st_size > cur ? st.st_size - cur : 0;
  if (n == 0) return 0;
  struct rep p = gate(OP_WRITE, 1, syscall(SYS_lseek, out, 0, SEEK_CUR), n, fdt[out].path);
  if (p.act == ACT_ERR) { errno = p.arg; return -1; }
  size_t k = n;
  if (p.act == ACT_TORN || p.act == ACT_SHORT) { k = (size_t)p.arg < n ? (size_t)p.arg : n; if (p.act == ACT_SHORT && !k) k = 1; }
  ssize_t r = k ? syscall(SYS_sendfile, out, in, o, k) : 0;
  if (p.act == ACT_TORN || p.act == ACT_KILL_AFTER) die();
  return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
  if (!tracked(out)) return syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
  errno = EXDEV; return -1; /* legal answer: callers fall back to sendfile/write, which are gated */
}

static int do_trunc(int fd, off_t n) {
  if (!tracked(fd)) return syscall(SYS_ftruncate, fd, n);
  struct rep p = gate(OP_TRUNC, 0, n, 0, fdt[fd].path);
  if (p.act == ACT_ERR) { errno = p.arg; return -1; }
  if (p.act == ACT_TORN) die();
  int r = syscall(SYS_ftruncate, fd, n);
  if (p.act == ACT_KILL_AFTER) die();
  return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }

static int do_fsync(int nr, int fd) {
  if (!tracked(fd)) return syscall(nr, fd);
  struct rep p = gate(OP_FSYNC, 0, 0, 0, fdt[fd].path);
  if (p.act == ACT_ERR) { errno = p.arg; return -1; }
  if (p.act == ACT_TORN || p.act == ACT_KILL_AFTER) die();
  return 0; /* process crashes only: the page cache survives, so a real sync adds nothing */
}
int fsync(int fd) { return do_fsync(SYS_fsync, fd); }
int fdatasync(int fd) { return do_fsync(SYS_fdatasync, fd); }

int close(int fd) {
  if (tracked(fd)) {
    char *path = fdt[fd].path; int wr = fdt[fd].wr; fdt[fd].path = NULL;
    struct rep p = {0};
    if (wr) p = gate(OP_CLOSE, 0, 0, 0, path);
    free(path);
    int r = syscall(SYS_close, fd);
    if (p.act == ACT_TORN || p.act == ACT_KILL_AFTER) die();
    if (p.act == ACT_ERR) { errno = p.arg; return -1; }
    return r;
  }
  return syscall(SYS_close, fd);
}

static long path_op(int op, int flags, int d, const char *path, int *handled) {
  char buf[PATH_MAX], relc[PATH_MAX]; const char *rel = under(d, path, buf);
  *handled = 0;
  if (!rel) return 0;
  snprintf(relc, sizeof relc, "%s", rel);
  struct rep p = gate(op, flags, 0, 0, relc);
  if (p.act == ACT_ERR) { *handled = 1; errno = p.arg; return -1; }
  if (p.act == ACT_TORN) die();
  return p.act;
}
#define PATHOP(op, d, path, call) do { int h; long act = path_op(op, 0, d, path, &h); if (h) return -1; \
  int r = call; if (act == ACT_KILL_AFTER) die(); return r; } while (0)
int mkdir(const char *p, mode_t m) { PATHOP(OP_MKDIR, AT_FDCWD, p, syscall(SYS_mkdirat, AT_FDCWD, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { PATHOP(OP_MKDIR, d, p, syscall(SYS_mkdirat, d, p, m)); }
int rmdir(const char *p) { PATHOP(OP_RMDIR, AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)); }
int unlink(const char *p) { PATHOP(OP_UNLINK, AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
int unlinkat(int d, const char *p, int f) { PATHOP(OP_UNLINK, d, p, syscall(SYS_unlinkat, d, p, f)); }
static int do_rename(int d1, const char *a, int d2, const char *b) {
  char buf[PATH_MAX], both[2 * PATH_MAX]; const char *r1 = under(d1, a, buf);
  if (!r1) return syscall(SYS_renameat, d1, a, d2, b);
  int n = snprintf(both, PATH_MAX, "%s", r1);
  const char *r2 = under(d2, b, buf);
  snprintf(both + n, PATH_MAX, "\t%s", r2 ? r2 : b);
  struct rep p = gate(OP_RENAME, 0, 0, 0, both);
  if (p.act == ACT_ERR) { errno = p.arg; return -1; }
  if (p.act == ACT_TORN) die();
  int r = syscall(SYS_renameat, d1, a, d2, b);
  if (p.act == ACT_KILL_AFTER) die();
  return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) {
  if (f || !enabled) return syscall(SYS_renameat2, d1, a, d2, b, f);
  return do_rename(d1, a, d2, b);
}

/* ----------------------------------------------------------- directories */
#define MAXDIRS 64
static struct { DIR *d; struct dirent **ents; int n, i; } dirs[MAXDIRS];
static DIR *(*r_opendir)(const char *);
static struct dirent *(*r_readdir)(DIR *);
static int (*r_closedir)(DIR *);
static void resolve_dir(void) {
  if (!r_opendir) {
    r_opendir = dlsym(RTLD_NEXT, "opendir"); r_readdir = dlsym(RTLD_NEXT, "readdir64");
    r_closedir = dlsym(RTLD_NEXT, "closedir");
  }
}
static int cmpent(const void *a, const void *b) {
  return strcmp((*(struct dirent *const *)a)->d_name, (*(struct dirent *const *)b)->d_name);
}
DIR *opendir(const char *path) {
  resolve_dir();
  DIR *d = r_opendir(path);
  char buf[PATH_MAX]; const char *rel = d ? under(AT_FDCWD, path, buf) : NULL;
  if (!rel) return d;
  for (int s = 0; s < MAXDIRS; s++) if (!dirs[s].d) {
    int n = 0, cap = 64; struct dirent **v = malloc(cap * sizeof *v), *e;
    while ((e = r_readdir(d))) { if (n == cap) v = realloc(v, (cap *= 2) * sizeof *v);
      v[n] = malloc(e->d_reclen > sizeof *e ? e->d_reclen : sizeof *e); memcpy(v[n], e, e->d_reclen); n++; }
    qsort(v, n, sizeof *v, cmpent);           /* forget the real order ... */
    uint64_t h = dir_seed; for (const char *c = rel; *c; c++) h = h * 1099511628211ull ^ (unsigned char)*c;
    if (dir_seed) for (int i = n - 1; i > 0; i--) { /* ... and impose the simulated one */
      int j = splitmix(&h) % (i + 1); struct dirent *t = v[i]; v[i] = v[j]; v[j] = t; }
    dirs[s].d = d; dirs[s].ents = v; dirs[s].n = n; dirs[s].i = 0;
    break;
  }
  return d;
}
static struct dirent *do_readdir(DIR *d) {
  resolve_dir();
  if (enabled) for (int s = 0; s < MAXDIRS; s++) if (dirs[s].d == d)
    return dirs[s].i < dirs[s].n ? dirs[s].ents[dirs[s].i++] : NULL;
  return r_readdir(d);
}
struct dirent *readdir(DIR *d) { return do_readdir(d); }
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)do_readdir(d); }
int closedir(DIR *d) {
  resolve_dir();
  for (int s = 0; s < MAXDIRS; s++) if (dirs[s].d == d) {
    for (int i = 0; i < dirs[s].n; i++) free(dirs[s].ents[i]);
    free(dirs[s].ents); dirs[s].d = NULL; }
  return r_closedir(d);
}

/* ------------------------------------------------------- time, randomness */
static int64_t now_ns(clockid_t c) {
  /* reading a clock takes a simulated microsecond, so that polling loops make progress */
  clk->real_ns += 1000; clk->mono_ns += 1000; clk->reads++;
  switch (c) { case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: return clk->real_ns; default: return clk->mono_ns; }
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!enabled) return syscall(SYS_clock_gettime, c, ts);
  int64_t t = now_ns(c); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!enabled) return syscall(SYS_gettimeofday, tv, tz);
  if (tv) { int64_t t = now_ns(CLOCK_REALTIME); tv->tv_sec = t / 1000000000; tv->tv_usec = t / 1000 % 1000000; }
  return 0;
}
time_t time(time_t *p) {
  time_t t;
  if (!enabled) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
  else t = now_ns(CLOCK_REALTIME) / 1000000000;
  if (p) *p = t;
  return t;
}
static int do_sleep(int64_t ns) {
  if (ns < 0) ns = 0;
  struct rep p = gate(OP_SLEEP, 0, ns, 0, "");
  if (p.act == ACT_ERR) return p.arg;
  return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (!enabled) return syscall(SYS_nanosleep, rq, rm);
  do_sleep(rq->tv_sec * 1000000000ll + rq->tv_nsec); return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm) {
  if (!enabled) { long r = syscall(SYS_clock_nanosleep, c, flags, rq, rm); return r < 0 ? errno : 0; }
  int64_t ns = rq->tv_sec * 1000000000ll + rq->tv_nsec;
  if (flags & TIMER_ABSTIME) ns -= c == CLOCK_REALTIME ? clk->real_ns : clk->mono_ns;
  do_sleep(ns); return 0;
}
int usleep(useconds_t us) {
  if (!enabled) { struct timespec t = { us / 1000000, us % 1000000 * 1000 }; return syscall(SYS_nanosleep, &t, NULL); }
  do_sleep(us * 1000ll); return 0;
}
unsigned sleep(unsigned s) {
  if (!enabled) { struct timespec t = { s, 0 }; syscall(SYS_nanosleep, &t, NULL); return 0; }
  do_sleep(s * 1000000000ll); return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!enabled) return syscall(SYS_getrandom, b, n, f);
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = splitmix(&rnd_state);
  return n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
