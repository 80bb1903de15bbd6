/* A fault injector for the I/O calls of one process (LD_PRELOAD).
 *
 * Calls on files below a directory, on the standard streams and on pipes are
 * events. The log of the events is shared with the parent process. When it
 * is armed, the n-th event (and a second one, and, if sticky, the following ones of the same
 * operation) fails. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAX 20000
struct event { char op; int fd; char path[118]; };
struct shared { volatile int n; volatile int hits; struct event ev[MAX]; };

static struct shared *S;
static char DIR_[512];
static int armed, at, at2, err, sticky, shortio;
static char stickyop;
static char tracked[4096];
static char names[4096][112];

int mc_init(const char *dir) {
    S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    strncpy(DIR_, dir, sizeof DIR_ - 1);
    return S != MAP_FAILED;
}
void mc_arm(int n, int e, int st, int sh, int n2) {
    S->n = S->hits = 0; at = n; at2 = n2; err = e; sticky = st; shortio = sh; stickyop = 0; armed = 1;
    memset(tracked, 0, sizeof tracked);
    tracked[0] = tracked[1] = 1;
    strcpy(names[0], "stdin"); strcpy(names[1], "stdout");
}
int mc_count(void) { return S->n; }
int mc_hits(void) { return S->hits; }
int mc_op(int i) { return S->ev[i].op; }
const char *mc_path(int i) { return S->ev[i].path; }

/* 0: go on, 1: fail with errno, 2: short */
static int event(char op, int fd, const char *path) {
    if (!armed || S->n >= MAX) return 0;
    int i = S->n++;
    S->ev[i].op = op; S->ev[i].fd = fd;
    strncpy(S->ev[i].path, path, sizeof S->ev[i].path - 1);
    S->ev[i].path[sizeof S->ev[i].path - 1] = 0;
    int hit = i == at || i == at2;
    if (hit && sticky) stickyop = op;
    else if (stickyop && stickyop == op) hit = 1;
    if (!hit) return 0;
    S->hits++;
    if (shortio) return 2;
    errno = err;
    return 1;
}
static int mine(const char *path) {
    char buf[1024], cwd[512];
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(cwd, sizeof cwd)) return 0;
        if (strlen(cwd) + strlen(path) + 2 > sizeof buf) return 0;
        strcpy(buf, cwd); strcat(buf, "/"); strcat(buf, path); path = buf;
    }
    return strncmp(path, DIR_, strlen(DIR_)) == 0;
}
static void track(int fd, const char *name) {
    if (fd >= 0 && fd < 4096) {
        tracked[fd] = 1;
        const char *b = strrchr(name, '/');
        strncpy(names[fd], b ? b + 1 : name, sizeof names[fd] - 1);
    }
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

#define OPEN(name) \
int name(const char *path, int flags, ...) { \
    REAL(name); va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    int t = mine(path); \
    if (t && event('o', -1, path) == 1) return -1; \
    int fd = real(path, flags, m); \
    if (t) track(fd, path); else if (armed && fd >= 0 && fd < 4096) tracked[fd] = 0; \
    return fd; }
#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) { \
    REAL(name); va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    int t = dir == AT_FDCWD && mine(path); \
    if (t && event('o', -1, path) == 1) return -1; \
    int fd = real(dir, path, flags, m); \
    if (t) track(fd, path); else if (armed && fd >= 0 && fd < 4096) tracked[fd] = 0; \
    return fd; }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)
static int t(int fd) { return armed && fd >= 0 && fd < 4096 && tracked[fd]; }
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (t(fd)) { int e = event('r', fd, names[fd]); if (e == 1) return -1; if (e == 2 && n > 7) n = 7; }
    return real(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    REAL(pread);
    if (t(fd)) { int e = event('r', fd, names[fd]); if (e == 1) return -1; if (e == 2 && n > 7) n = 7; }
    return real(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(pread64);
    if (t(fd)) { int e = event('r', fd, names[fd]); if (e == 1) return -1; if (e == 2 && n > 7) n = 7; }
    return real(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (t(fd)) { int e = event('w', fd, names[fd]); if (e == 1) return -1; if (e == 2 && n > 7) n = 7; }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    if (t(fd)) { int e = event('w', fd, names[fd]); if (e == 1) return -1; if (e == 2 && n > 1) n = 1; }
    return real(fd, v, n);
}
int close(int fd) {
    REAL(close);
    if (t(fd)) {
        tracked[fd] = 0;
        if (event('c', fd, names[fd]) == 1) { real(fd); errno = err; return -1; }
    }
    return real(fd);
}
int pipe2(int p[2], int flags) {
    REAL(pipe2);
    if (armed && event('p', -1, "pipe") == 1) return -1;
    int r = real(p, flags);
    if (armed && !r) { track(p[0], "pipe"); track(p[1], "pipe"); }
    return r;
}
