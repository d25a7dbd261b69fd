/* Fault-injecting file I/O, loaded with LD_PRELOAD.
 *
 * Calls on paths under a prefix (and on descriptors opened there) are counted
 * and may be failed, shortened, or turned into a process crash, following a
 * plan set from Python. Everything else passes through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

enum { OPEN = 1, READ, WRITE, CLOSE, RENAME, UNLINK, MKDIR, CHMOD };
enum { K_ERRNO = 1, K_SHORT, K_EOF, K_CRASH, K_CRASH_AFTER, K_SHORT_THEN_ERRNO, K_TORN_CRASH };
#define MAXPLAN 64
#define MAXFD 4096
#define MAXLOG 65536

static char prefix[1024];
static size_t nprefix;
static struct { long index; int kind; long arg; int err; } plan[MAXPLAN];
static int nplan;
static long counter, fired_n, chunk, delivered, mode_hits;
static int gate_r = -1, gate_w = -1, paused, readonly_, full;
static unsigned char mine[MAXFD], at_eof[MAXFD];
static long log_n;
static unsigned char log_op[MAXLOG];
static long fired_index[MAXPLAN * 4];
static unsigned long long rnd;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

void iofault_reset(const char *p) {
    strncpy(prefix, p, sizeof prefix - 1);
    nprefix = strlen(prefix);
    nplan = 0; counter = fired_n = log_n = 0; chunk = 0; rnd = 0; delivered = 0; mode_hits = 0; readonly_ = full = paused = 0;
    memset(at_eof, 0, sizeof at_eof);
}
void iofault_forget(void) { memset(mine, 0, sizeof mine); }
int iofault_add(long index, int kind, long arg, int err) {
    if (nplan >= MAXPLAN) return -1;
    plan[nplan].index = index; plan[nplan].kind = kind; plan[nplan].arg = arg; plan[nplan].err = err;
    nplan++;
    return 0;
}
void iofault_chunk(long n, unsigned long long seed) { chunk = n; rnd = seed | 1; }
long iofault_counter(void) { return counter; }
long iofault_delivered(void) { return delivered; }
long iofault_fired(long *out, long max) {
    for (long i = 0; i < fired_n && i < max; i++) out[i] = fired_index[i];
    return fired_n;
}
long iofault_log(unsigned char *out, long max) {
    long n = log_n < max ? log_n : max;
    memcpy(out, log_op, n);
    return n;
}

static int inside(const char *path) {
    return nprefix && path && strncmp(path, prefix, nprefix) == 0;
}
void iofault_gate(int r, int w) { gate_r = r; gate_w = w; }
void iofault_pause(int on) { paused = on; }
void iofault_mode(int ro, int no_space) { readonly_ = ro; full = no_space; }
long iofault_mode_hits(void) { return mode_hits; }
/* hand over to the scheduler of processes and wait for the next turn */
void iofault_yield(void) {
    char c = 'g';
    if (gate_w < 0) return;
    if (syscall(SYS_write, gate_w, &c, 1) != 1) syscall(SYS_exit_group, 98);
    if (syscall(SYS_read, gate_r, &c, 1) != 1) syscall(SYS_exit_group, 98);
}
/* the planned fault of this operation, or -1 */
static int step(int op) {
    if (paused) return -1;
    iofault_yield();
    pthread_mutex_lock(&lock);
    long k = counter++;
    if (log_n < MAXLOG) log_op[log_n++] = op;
    int hit = -1;
    for (int i = 0; i < nplan; i++)
        if (plan[i].index == k) { hit = i; break; }
    pthread_mutex_unlock(&lock);
    return hit;
}
static void note(int i) {
    pthread_mutex_lock(&lock);
    if (fired_n < MAXPLAN * 4) fired_index[fired_n++] = plan[i].index;
    pthread_mutex_unlock(&lock);
}
#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name);
#define CRASH() _exit(99)

static int opened(int fd) {
    if (fd >= 0 && fd < MAXFD) { mine[fd] = 1; at_eof[fd] = 0; }
    return fd;
}
#define OPEN_BODY(call) \
    if (!inside(path)) { int fd_ = (call); if (fd_ >= 0 && fd_ < MAXFD) mine[fd_] = 0; return fd_; } \
    int i = step(OPEN); \
    if (readonly_ && !paused && (flags & (O_WRONLY | O_RDWR | O_CREAT))) { mode_hits++; errno = EROFS; return -1; } \
    if (i >= 0) { \
        if (plan[i].kind == K_CRASH) CRASH(); \
        if (plan[i].kind == K_ERRNO) { note(i); errno = plan[i].err; return -1; } \
    } \
    int fd = (call); \
    if (i >= 0 && plan[i].kind == K_CRASH_AFTER) CRASH(); \
    return opened(fd);
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }

int open(const char *path, int flags, ...) { MODE REAL(int, "open", const char *, int, ...) OPEN_BODY(real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { MODE REAL(int, "open64", const char *, int, ...) OPEN_BODY(real(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { MODE REAL(int, "openat", int, const char *, int, ...) OPEN_BODY(real(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { MODE REAL(int, "openat64", int, const char *, int, ...) OPEN_BODY(real(d, path, flags, mode)) }

static size_t limited(size_t n) {
    if (chunk > 0 && n > 1) {
        rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
        size_t k = 1 + rnd % (unsigned long long)chunk;
        if (k < n) n = k;
    }
    return n;
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t)
    if (fd < 0 || fd >= MAXFD || !mine[fd]) return real(fd, buf, n);
    int i = step(READ);
    if (at_eof[fd]) return 0;
    if (i >= 0) {
        switch (plan[i].kind) {
        case K_ERRNO: note(i); errno = plan[i].err; return -1;
        case K_EOF: note(i); at_eof[fd] = 1; return 0;
        case K_SHORT: note(i); if (n > 1) n = 1 + (size_t)plan[i].arg % n; break;
        case K_CRASH: CRASH();
        }
    }
    ssize_t got = real(fd, buf, limited(n));
    if (got > 0) delivered += got;
    return got;
}
ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t)
    if (fd < 0 || fd >= MAXFD || !mine[fd]) return real(fd, buf, n);
    int i = step(WRITE);
    if (full && !paused) { mode_hits++; errno = ENOSPC; return -1; }
    if (i >= 0) {
        ssize_t r;
        switch (plan[i].kind) {
        case K_ERRNO: note(i); errno = plan[i].err; return -1;
        case K_SHORT: note(i); if (n > 1) n = 1 + (size_t)plan[i].arg % n; break;
        case K_CRASH: CRASH();
        case K_TORN_CRASH: r = real(fd, buf, n ? (size_t)plan[i].arg % n : 0); (void)r; CRASH();
        case K_CRASH_AFTER: r = real(fd, buf, n); (void)r; CRASH();
        }
    }
    return real(fd, buf, limited(n));
}
int close(int fd) {
    REAL(int, "close", int)
    if (fd < 0 || fd >= MAXFD || !mine[fd]) return real(fd);
    int i = step(CLOSE);
    if (i >= 0 && plan[i].kind == K_CRASH) CRASH();
    mine[fd] = 0;
    int r = real(fd);
    if (i >= 0 && plan[i].kind == K_CRASH_AFTER) CRASH();
    if (i >= 0 && plan[i].kind == K_ERRNO && plan[i].err != EINTR) { note(i); errno = plan[i].err; return -1; }
    return r;
}
#define PATH_BODY(op, where, call) \
    if (!(where)) return call; \
    int i = step(op); \
    if (readonly_ && !paused) { mode_hits++; errno = EROFS; return -1; } \
    if (i >= 0) { \
        if (plan[i].kind == K_CRASH) CRASH(); \
        if (plan[i].kind == K_ERRNO) { note(i); errno = plan[i].err; return -1; } \
    } \
    int r = call; \
    if (i >= 0 && plan[i].kind == K_CRASH_AFTER) CRASH(); \
    return r;
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *) PATH_BODY(RENAME, inside(a) || inside(b), real(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, "renameat", int, const char *, int, const char *) PATH_BODY(RENAME, inside(a) || inside(b), real(x, a, y, b)) }
int unlink(const char *path) { REAL(int, "unlink", const char *) PATH_BODY(UNLINK, inside(path), real(path)) }
int unlinkat(int d, const char *path, int f) { REAL(int, "unlinkat", int, const char *, int) PATH_BODY(UNLINK, inside(path), real(d, path, f)) }
int mkdir(const char *path, mode_t m) { REAL(int, "mkdir", const char *, mode_t) PATH_BODY(MKDIR, inside(path), real(path, m)) }
int mkdirat(int d, const char *path, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t) PATH_BODY(MKDIR, inside(path), real(d, path, m)) }
int chmod(const char *path, mode_t m) { REAL(int, "chmod", const char *, mode_t) PATH_BODY(CHMOD, inside(path), real(path, m)) }
