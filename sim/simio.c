/* Simulated disk for the deterministic simulator.
 *
 * LD_PRELOAD shim between the process (CPython and libhdf5 alike) and the kernel.
 * Only file descriptors that were opened below the simulated volume (sim_attach) are
 * touched; everything else goes straight through.  Every operation on the volume is
 * counted per class and logged; an armed plan decides which operation fails and how:
 *   ERR    - the n-th operation of the class fails with the given errno, once
 *   FULL   - from the n-th operation on, every operation of the class fails (disk full,
 *            device gone) until the plan is cleared
 *   SHORT  - the n-th write (read) transfers only a part of the buffer
 *   CRASH  - the process dies at the n-th operation; a write is torn: only a fraction
 *            of its buffer reaches the volume
 * The wall clock of the process is simulated as well once sim_clock was called: it starts
 * where the caller says, advances by a fixed amount per reading and jumps on request.
 * Nothing here draws random numbers or reads a real clock: the plan comes from the caller.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { C_OPEN, C_OPENW, C_READ, C_WRITE, C_CLOSE, C_TRUNC, C_SYNC, C_RENAME, C_UNLINK, C_MKDIR, C_LOCK, C_MUT, NCLS };
enum { A_NONE, A_ERR, A_FULL, A_SHORT, A_CRASH };
#define MAXFD 4096
#define MAXPLAN 32
#define LOGSZ (1 << 20)

struct plan { int cls; long nth; int action; int err; int ppm; long fired; };

static char root[PATH_MAX];
static size_t rootlen;
static int attached;
static char tracked[MAXFD];            /* 1 = on the volume, 2 = on the volume and writable */
static long count[NCLS];
static struct plan plans[MAXPLAN];
static int nplans;
static char logbuf[LOGSZ];
static size_t loglen;
static char escbuf[1 << 14];
static size_t esclen;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static void note(const char *fmt, ...) {
    if (loglen > LOGSZ - 512) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(logbuf + loglen, 512, fmt, ap);
    va_end(ap);
    if (n > 0) loglen += n < 511 ? n : 511;
}

/* lexical normalisation of an absolute path */
static void normalise(char *p) {
    char *in = p, *out = p;
    char tmp[PATH_MAX]; strncpy(tmp, p, PATH_MAX - 1); tmp[PATH_MAX - 1] = 0;
    in = tmp; *out = 0; size_t len = 0;
    char *save = NULL;
    for (char *tok = strtok_r(in, "/", &save); tok; tok = strtok_r(NULL, "/", &save)) {
        if (!strcmp(tok, ".")) continue;
        if (!strcmp(tok, "..")) { while (len && p[len - 1] != '/') len--; if (len) len--; p[len] = 0; continue; }
        p[len++] = '/'; size_t n = strlen(tok); memcpy(p + len, tok, n); len += n; p[len] = 0;
    }
    if (!len) { p[0] = '/'; p[1] = 0; }
}

static int resolve(int dirfd, const char *path, char *out) {
    if (!path) return 0;
    if (path[0] == '/') snprintf(out, PATH_MAX, "%s", path);
    else if (dirfd == AT_FDCWD) {
        char cwd[PATH_MAX / 2];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(out, PATH_MAX, "%s/%.2000s", cwd, path);
    } else {
        char ln[64], cwd[PATH_MAX / 2]; snprintf(ln, sizeof ln, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(ln, cwd, sizeof cwd - 1); if (n < 0) return 0; cwd[n] = 0;
        snprintf(out, PATH_MAX, "%s/%.2000s", cwd, path);
    }
    normalise(out);
    return 1;
}

static const char *inside(const char *abs) {
    if (!attached) return NULL;
    if (strncmp(abs, root, rootlen) == 0 && (abs[rootlen] == '/' || abs[rootlen] == 0))
        return abs[rootlen] ? abs + rootlen + 1 : ".";
    return NULL;
}

/* One operation of the class: returns the plan to apply or NULL */
static struct plan *tick1(int cls) {
    long n = ++count[cls];
    for (int i = 0; i < nplans; i++) {
        struct plan *p = &plans[i];
        if (p->cls != cls) continue;
        if (p->action == A_FULL ? n >= p->nth : n == p->nth) { p->fired++; return p; }
    }
    return NULL;
}
static struct plan *tick(int cls, int mut) {
    struct plan *a = tick1(cls), *b = mut ? tick1(C_MUT) : NULL;
    return a ? a : b;
}
static void die(void) { _exit(137); }

/* -------------------------------------------------------------- control ---- */
void sim_attach(const char *path) {
    snprintf(root, sizeof root, "%s", path); normalise(root); rootlen = strlen(root); attached = 1;
    memset(tracked, 0, sizeof tracked); memset(count, 0, sizeof count); nplans = 0; loglen = 0; esclen = 0; escbuf[0] = 0;
}
void sim_detach(void) { attached = 0; nplans = 0; }
void sim_reset_counts(void) { memset(count, 0, sizeof count); }
long sim_count(int cls) { return count[cls]; }
void sim_clear(void) { nplans = 0; }
int sim_plan(int cls, long nth, int action, int err, int ppm) {
    if (nplans >= MAXPLAN) return -1;
    plans[nplans] = (struct plan){cls, nth, action, err, ppm, 0};
    return nplans++;
}
long sim_fired(int i) { return i < nplans ? plans[i].fired : 0; }
size_t sim_log(char *out, size_t n) { if (n > loglen) n = loglen; memcpy(out, logbuf, n); return loglen; }
void sim_log_clear(void) { loglen = 0; }
size_t sim_escapes(char *out, size_t n) { if (n > esclen) n = esclen; memcpy(out, escbuf, n); return esclen; }
int sim_open_fds(void) { int c = 0; for (int i = 0; i < MAXFD; i++) c += tracked[i] != 0; return c; }

/* ----------------------------------------------------------------- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    REAL(int, openat64, int, const char *, int, ...);
    char abs[PATH_MAX]; const char *rel = NULL; abs[0] = 0;
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (attached && resolve(dirfd, path, abs)) rel = inside(abs);
    if (!rel) {
        int fd = real_openat64(dirfd, path, flags, mode);
        if (attached && w && fd >= 0 && strncmp(abs, "/dev/", 5) && strncmp(abs, "/proc/", 6) && esclen < sizeof escbuf - PATH_MAX)
            esclen += snprintf(escbuf + esclen, PATH_MAX, "%.2000s\n", abs);
        if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
        return fd;
    }
    if (flags & O_DIRECTORY) return real_openat64(dirfd, path, flags, mode);
    struct stat st; int exists = fstatat(dirfd, path, &st, 0) == 0;
    int mut = w && ((!exists && (flags & O_CREAT)) || (exists && (flags & O_TRUNC)));
    struct plan *p = tick(w ? C_OPENW : C_OPEN, mut);
    if (p) {
        if (p->action == A_CRASH) { note("crash open %s\n", rel); die(); }
        if (p->action == A_ERR || p->action == A_FULL) { note("open %s %s -> errno %d\n", rel, w ? "w" : "r", p->err); errno = p->err; return -1; }
    }
    int fd = real_openat64(dirfd, path, flags, mode);
    int e = errno;
    note("open %s %s%s -> %s\n", rel, w ? "w" : "r", mut ? "!" : "", fd >= 0 ? "ok" : "fail");
    if (fd >= 0 && fd < MAXFD) tracked[fd] = w ? 2 : 1;
    errno = e;
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static inline int on(int fd) { return attached && fd >= 0 && fd < MAXFD && tracked[fd]; }
static uint32_t crc(const char *b, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; i++) { h ^= (unsigned char)b[i]; h *= 16777619u; } return h; }
static size_t part(size_t n, int ppm) { size_t k = (size_t)((double)n * ppm / 1e6); return k > n ? n : k; }

/* ---------------------------------------------------------- write, read ---- */
static ssize_t raw_write(int fd, const void *b, size_t n, off64_t off, int at) {
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    return at ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
}
static ssize_t do_write(int fd, const void *b, size_t n, off64_t off, int at) {
    if (!on(fd)) return raw_write(fd, b, n, off, at);
    struct plan *p = tick(C_WRITE, 1);
    if (p) {
        size_t k = part(n, p->ppm);
        if (p->action == A_CRASH) { if (k) raw_write(fd, b, k, off, at); die(); }
        if (p->action == A_SHORT && n > 1) { if (k < 1) k = 1; if (k >= n) k = n - 1; n = k; }
        if (p->action == A_ERR || p->action == A_FULL) { note("write %zu -> errno %d\n", n, p->err); errno = p->err; return -1; }
    }
    ssize_t r = raw_write(fd, b, n, off, at);
    int e = errno;
    note("write %zu%s -> %zd\n", n, at ? "@" : "", r);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!on(fd)) return real_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
static ssize_t raw_read(int fd, void *b, size_t n, off64_t off, int at) {
    REAL(ssize_t, read, int, void *, size_t);
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    return at ? real_pread64(fd, b, n, off) : real_read(fd, b, n);
}
static ssize_t do_read(int fd, void *b, size_t n, off64_t off, int at) {
    if (!on(fd)) return raw_read(fd, b, n, off, at);
    struct plan *p = tick(C_READ, 0);
    if (p) {
        if (p->action == A_CRASH) die();
        if (p->action == A_SHORT && n > 1) { size_t k = part(n, p->ppm); if (k < 1) k = 1; if (k >= n) k = n - 1; n = k; }
        if (p->action == A_ERR || p->action == A_FULL) { note("read %zu -> errno %d\n", n, p->err); errno = p->err; return -1; }
    }
    ssize_t r = raw_read(fd, b, n, off, at);
    int e = errno;
    note("read -> %zd\n", r);
    errno = e;
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }

/* ----------------------------------------------- close, truncate, sync ---- */
int close(int fd) {
    REAL(int, close, int);
    if (!on(fd)) return real_close(fd);
    int w = tracked[fd] == 2;
    tracked[fd] = 0;
    struct plan *p = tick(C_CLOSE, 0);
    if (p && p->action == A_CRASH) die();
    int r = real_close(fd);
    /* the descriptor is released even if the delayed error is reported at close */
    if (p && w && (p->action == A_ERR || p->action == A_FULL)) { note("close -> errno %d\n", p->err); errno = p->err; return -1; }
    note("close\n");
    return r;
}
static int do_trunc(int fd, off64_t len) {
    REAL(int, ftruncate64, int, off64_t);
    if (!on(fd)) return real_ftruncate64(fd, len);
    struct plan *p = tick(C_TRUNC, 1);
    if (p) {
        if (p->action == A_CRASH) { if (p->ppm > 500000) real_ftruncate64(fd, len); die(); }
        if (p->action == A_ERR || p->action == A_FULL) { note("ftruncate -> errno %d\n", p->err); errno = p->err; return -1; }
    }
    note("ftruncate %ld\n", (long)len);
    return real_ftruncate64(fd, len);
}
int ftruncate(int fd, off_t len) { return do_trunc(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_trunc(fd, len); }
static int do_sync(int fd, int data) {
    REAL(int, fsync, int); REAL(int, fdatasync, int);
    if (!on(fd)) return data ? real_fdatasync(fd) : real_fsync(fd);
    struct plan *p = tick(C_SYNC, 0);
    if (p) {
        if (p->action == A_CRASH) die();
        if (p->action == A_ERR || p->action == A_FULL) { note("sync -> errno %d\n", p->err); errno = p->err; return -1; }
    }
    note("sync\n");
    return 0; /* the volume is read back through the same kernel */
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }
int flock(int fd, int op) {
    REAL(int, flock, int, int);
    if (!on(fd)) return real_flock(fd, op);
    struct plan *p = tick(C_LOCK, 0);
    if (p && (p->action == A_ERR || p->action == A_FULL)) { note("flock -> errno %d\n", p->err); errno = p->err; return -1; }
    return real_flock(fd, op);
}

/* -------------------------------------------------------------- names ---- */
static int name_op(int cls, const char *what, int dirfd, const char *path) {
    char abs[PATH_MAX]; const char *rel = NULL; abs[0] = 0;
    if (attached && resolve(dirfd, path, abs)) rel = inside(abs);
    if (!rel) return 0;
    struct plan *p = tick(cls, 1);
    if (p) {
        if (p->action == A_CRASH) die();
        if (p->action == A_ERR || p->action == A_FULL) { note("%s %s -> errno %d\n", what, rel, p->err); errno = p->err; return -1; }
    }
    note("%s %s\n", what, rel);
    return 0;
}
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if (name_op(C_RENAME, "rename", AT_FDCWD, b)) return -1; return real_rename(a, b); }
int renameat(int da, const char *a, int db, const char *b) { REAL(int, renameat, int, const char *, int, const char *); if (name_op(C_RENAME, "rename", db, b)) return -1; return real_renameat(da, a, db, b); }
int unlink(const char *a) { REAL(int, unlink, const char *); if (name_op(C_UNLINK, "unlink", AT_FDCWD, a)) return -1; return real_unlink(a); }
int unlinkat(int d, const char *a, int f) { REAL(int, unlinkat, int, const char *, int); if (name_op(C_UNLINK, "unlink", d, a)) return -1; return real_unlinkat(d, a, f); }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t); if (name_op(C_MKDIR, "mkdir", AT_FDCWD, a)) return -1; return real_mkdir(a, m); }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); if (name_op(C_MKDIR, "mkdir", d, a)) return -1; return real_mkdirat(d, a, m); }
int truncate64(const char *a, off64_t l) { REAL(int, truncate64, const char *, off64_t); if (name_op(C_TRUNC, "truncate", AT_FDCWD, a)) return -1; return real_truncate64(a, l); }
int truncate(const char *a, off_t l) { return truncate64(a, l); }
unsigned sim_crc(const char *b, size_t n) { return crc(b, n); }

/* ---------------------------------------------------------------- wall clock */
static int clock_on;
static long long clock_ns, clock_tick, clock_reads;

void sim_clock(long long ns, long long tick) { clock_on = 1; clock_ns = ns; clock_tick = tick; }
void sim_clock_off(void) { clock_on = 0; }
long sim_clock_reads(void) { return (long)clock_reads; }

static long long clock_now(void) { clock_reads++; clock_ns += clock_tick; return clock_ns; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        long long n = clock_now();
        ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL;
        return 0;
    }
    return real_clock_gettime(id, ts);
}

int gettimeofday(struct timeval *tv, void *tz) {
    REAL(int, gettimeofday, struct timeval *, void *);
    if (clock_on && tv) {
        long long n = clock_now();
        tv->tv_sec = n / 1000000000LL; tv->tv_usec = (n % 1000000000LL) / 1000;
        return 0;
    }
    return real_gettimeofday(tv, tz);
}

time_t time(time_t *t) {
    REAL(time_t, time, time_t *);
    if (clock_on) {
        time_t n = (time_t)(clock_now() / 1000000000LL);
        if (t) *t = n;
        return n;
    }
    return real_time(t);
}
