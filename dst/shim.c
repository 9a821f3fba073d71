/* LD_PRELOAD seam: file system calls below one directory prefix, clocks, and kernel randomness.
 *
 * With no control set (the default) every call goes straight to the C library.
 * The simulator sets, through ctypes:
 *   sim_prefix   only paths below it, and descriptors opened on them, are simulated
 *   sim_hook     long hook(int op, const char *path, long size): asked before each call
 *                returns 0: perform the call; -errno: fail with it; n>0 (write): perform only n bytes;
 *                SIM_SIGNAL: perform the call, then send SIGUSR2 to the calling thread;
 *                the hook may park the calling thread (it runs Python and owns the baton scheduler)
 *   sim_clock_base  non-zero: clocks are virtual and start there (nanoseconds since 1970)
 *   sim_clock_*  offset in nanoseconds added to every clock, and a step added on each read
 *   sim_rand     non-zero: getrandom is a seeded xorshift stream
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE = 2, OP_CLOSE = 3, OP_FSYNC = 4, OP_RENAME = 5, OP_UNLINK = 6, OP_TRUNC = 7, OP_MKDIR = 8, OP_LINK = 9, OP_READ = 10 };
#define SIM_SIGNAL 1000000007L

char sim_prefix[PATH_MAX];
long (*sim_hook)(int, const char *, long);
int64_t sim_clock_base, sim_clock_offset, sim_clock_step, sim_clock_reads;
uint64_t sim_rand;
int64_t sim_calls[16];
static unsigned char fdmark[65536];
static __thread int inhook;

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static int under(const char *p, char *buf) {
    if (!sim_prefix[0] || !sim_hook || inhook || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, PATH_MAX - 2)) return 0;
        size_t n = strlen(buf);
        snprintf(buf + n, PATH_MAX - n, "/%s", p);
    } else snprintf(buf, PATH_MAX, "%s", p);
    return strncmp(buf, sim_prefix, strlen(sim_prefix)) == 0;
}
static long ask(int op, const char *path, long size) {
    int e = errno;
    inhook = 1;
    sim_calls[op]++;
    long r = sim_hook(op, path, size);
    inhook = 0;
    errno = e;
    return r;
}
/* names created ('+') or removed ('-') outside the simulated directory, while sim_watch is set */
int sim_watch, sim_log_n;
char sim_log[65536];
static void note(char c, const char *p) {
    char b[PATH_MAX];
    if (!sim_watch || inhook || !p) return;
    if (p[0] != '/') {
        if (!getcwd(b, PATH_MAX - 2)) return;
        size_t n = strlen(b);
        snprintf(b + n, PATH_MAX - n, "/%s", p);
    } else snprintf(b, PATH_MAX, "%s", p);
    if (sim_prefix[0] && !strncmp(b, sim_prefix, strlen(sim_prefix))) return;
    if (!strncmp(b, "/dev/", 5) || !strncmp(b, "/proc/", 6) || strstr(b, "__pycache__")) return;
    int n = (int)strlen(b) + 2, at = __sync_fetch_and_add(&sim_log_n, n);
    if (at + n >= (int)sizeof sim_log) return;
    sim_log[at] = c; memcpy(sim_log + at + 1, b, n - 2); sim_log[at + n - 1] = '\n';
}
static int marked(int fd) { return fd >= 0 && fd < 65536 && fdmark[fd] && sim_hook && !inhook; }

static int do_open(int (*f)(int, const char *, int, ...), int dir, const char *p, int flags, mode_t m) {
    char b[PATH_MAX];
    int u = (dir == AT_FDCWD || (p && p[0] == '/')) && under(p, b);
    long r = 0;
    if (u) { r = ask(OP_OPEN, b, flags); if (r < 0) { errno = (int)-r; return -1; } }
    int fd = f(dir, p, flags, m);
    if (fd >= 0 && !u && (flags & (O_WRONLY | O_RDWR | O_CREAT)) && (flags & O_TMPFILE) != O_TMPFILE && (dir == AT_FDCWD || p[0] == '/')) note('+', p);
    if (r == SIM_SIGNAL) { int e = errno; raise(SIGUSR2); errno = e; }
    if (fd >= 0 && fd < 65536) fdmark[fd] = (unsigned char)u;
    return fd;
}
static int real_openat(int d, const char *p, int fl, ...) {
    va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
    REAL(int, "openat", int, const char *, int, ...);
    return real(d, p, fl, m);
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE return do_open(real_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(real_openat, AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(real_openat, d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(real_openat, d, p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(real_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (marked(fd)) {
        long r = ask(OP_WRITE, "", (long)n);
        if (r < 0) { errno = (int)-r; return -1; }
        if (r == SIM_SIGNAL) { ssize_t x = real(fd, buf, n); int e = errno; raise(SIGUSR2); errno = e; return x; }
        if (r > 0 && (size_t)r < n) n = (size_t)r;
    }
    return real(fd, buf, n);
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (marked(fd)) {
        long r = ask(OP_READ, "", (long)n);
        if (r < 0) { errno = (int)-r; return -1; }
        if (r > 0 && (size_t)r < n) n = (size_t)r;
    }
    return real(fd, buf, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (marked(fd)) {
        long r = ask(OP_WRITE, "", (long)n);
        if (r < 0) { errno = (int)-r; return -1; }
        if (r > 0 && (size_t)r < n) n = (size_t)r;
    }
    return real(fd, buf, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (marked(fd)) { long r = ask(OP_WRITE, "", 0); if (r < 0) { errno = (int)-r; return -1; } }
    return real(fd, v, c);
}
int close(int fd) {
    REAL(int, "close", int);
    if (marked(fd)) {
        long r = ask(OP_CLOSE, "", 0);
        fdmark[fd] = 0;
        int x = real(fd);
        if (r == SIM_SIGNAL) raise(SIGUSR2);
        if (r < 0) { errno = (int)-r; return -1; }
        return x;
    }
    if (fd >= 0 && fd < 65536) fdmark[fd] = 0;
    return real(fd);
}
#define FDCALL(name, op) int name(int fd) { REAL(int, #name, int); \
    if (marked(fd)) { long r = ask(op, "", 0); if (r < 0) { errno = (int)-r; return -1; } } return real(fd); }
FDCALL(fsync, OP_FSYNC)
FDCALL(fdatasync, OP_FSYNC)
int ftruncate64(int fd, off64_t l) { REAL(int, "ftruncate64", int, off64_t);
    if (marked(fd)) { long r = ask(OP_TRUNC, "", (long)l); if (r < 0) { errno = (int)-r; return -1; } } return real(fd, l); }
int rename(const char *a, const char *b) { char x[PATH_MAX]; REAL(int, "rename", const char *, const char *);
    if (under(b, x) || under(a, x)) { long r = ask(OP_RENAME, x, 0); if (r < 0) { errno = (int)-r; return -1; } } int q = real(a, b); if (!q) { note('-', a); note('+', b); } return q; }
int renameat(int da, const char *a, int db, const char *b) { char x[PATH_MAX]; REAL(int, "renameat", int, const char *, int, const char *);
    if (under(b, x) || under(a, x)) { long r = ask(OP_RENAME, x, 0); if (r < 0) { errno = (int)-r; return -1; } } int q = real(da, a, db, b); if (!q) { note('-', a); note('+', b); } return q; }
int unlink(const char *p) { char x[PATH_MAX]; REAL(int, "unlink", const char *);
    if (under(p, x)) { long r = ask(OP_UNLINK, x, 0); if (r < 0) { errno = (int)-r; return -1; } } int q = real(p); if (!q) note('-', p); return q; }
int unlinkat(int d, const char *p, int f) { char x[PATH_MAX]; REAL(int, "unlinkat", int, const char *, int);
    if (under(p, x)) { long r = ask(OP_UNLINK, x, 0); if (r < 0) { errno = (int)-r; return -1; } } int q = real(d, p, f); if (!q) note('-', p); return q; }
int mkdir(const char *p, mode_t m) { char x[PATH_MAX]; REAL(int, "mkdir", const char *, mode_t);
    if (under(p, x)) { long r = ask(OP_MKDIR, x, 0); if (r < 0) { errno = (int)-r; return -1; } } int q = real(p, m); if (!q) note('+', p); return q; }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); int q = real(p); if (!q) note('-', p); return q; }
int link(const char *a, const char *b) { char x[PATH_MAX]; REAL(int, "link", const char *, const char *);
    if (under(b, x)) { long r = ask(OP_LINK, x, 0); if (r < 0) { errno = (int)-r; return -1; } } int q = real(a, b); if (!q) note('+', b); return q; }
int symlink(const char *a, const char *b) { char x[PATH_MAX]; REAL(int, "symlink", const char *, const char *);
    if (under(b, x)) { long r = ask(OP_LINK, x, 0); if (r < 0) { errno = (int)-r; return -1; } } int q = real(a, b); if (!q) note('+', b); return q; }

/* clocks */
static int shift(clockid_t c, struct timespec *t) {
    if (!sim_clock_base && !sim_clock_offset && !sim_clock_step) return 0;
    int64_t d = sim_clock_offset + sim_clock_step * sim_clock_reads;
    sim_clock_reads++;
    __int128 n = (__int128)t->tv_sec * 1000000000 + t->tv_nsec;
    if (sim_clock_base) n = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? sim_clock_base : sim_clock_base - 1699990000LL * 1000000000LL;
    n += d;
    if (n < 0) n = 0;
    t->tv_sec = (time_t)(n / 1000000000);
    t->tv_nsec = (long)(n % 1000000000);
    return 1;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(int, "clock_gettime", clockid_t, struct timespec *);
    int r = real(c, t);
    if (!r) shift(c, t);
    return r;
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(int, "gettimeofday", struct timeval *, void *);
    int r = real(tv, tz);
    struct timespec t = { tv->tv_sec, tv->tv_usec * 1000 };
    if (!r && shift(CLOCK_REALTIME, &t)) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
    return r;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    REAL(ssize_t, "getrandom", void *, size_t, unsigned);
    if (!sim_rand) return real(buf, n, fl);
    unsigned char *b = buf;
    for (size_t i = 0; i < n; i++) {
        sim_rand ^= sim_rand << 13; sim_rand ^= sim_rand >> 7; sim_rand ^= sim_rand << 17;
        b[i] = (unsigned char)(sim_rand >> 24);
    }
    return (ssize_t)n;
}
