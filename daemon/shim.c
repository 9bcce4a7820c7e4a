// Preloaded into sourisd and mouse by the harness.
//  * maps the fixed port 7687 to one of the kernel's (bind) or of the harness's (connect) choosing;
//  * replaces the monotonic clock by one the harness advances, so that timers fire on demand;
//  * counts, records and, when armed, crashes or fails the file operations below VERIF_BASE.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define PORT 7687
enum { CRASH_BEFORE = 1, CRASH_AFTER, CRASH_MID, FAIL_NOSPC, FAIL_IO, SHORT_WRITE };

struct ctl {
    _Atomic uint64_t clock_on;   // 0: stop the clock once the port is bound (libraries calibrate before)
    _Atomic uint64_t offset_ns;  // 1: virtual time since start
    _Atomic uint64_t port;       // 2: port really bound
    _Atomic uint64_t ops;        // 3: file operations below the base so far
    _Atomic uint64_t arm;        // 4: inject at this operation (0: never)
    _Atomic uint64_t seen;       // 5: operations since armed
    _Atomic uint64_t mode;       // 6
    _Atomic uint64_t sticky;     // 7: keep failing from then on
    _Atomic uint64_t hit;        // 8: injections made
    _Atomic uint64_t idle;       // 9: waits in a row that had a timer to wait for
    _Atomic uint64_t writes;     // 10: bytes written below the base
    _Atomic uint64_t busy;       // 11: file operations under way
    _Atomic uint64_t kind;       // 12: kind of the operation injected at
    _Atomic uint64_t slow_us;    // 13: delay of every file operation below the base
    _Atomic uint64_t slow_kind;  // 14: delay only operations of this kind (0: all)
};
static struct ctl *C;
static struct ctl none;
static char base[4096];
static size_t base_len;
static int log_fd = -1;
static unsigned char tracked[65536];
static struct timespec t0;
static _Atomic int stopped;

static int (*r_bind)(int, const struct sockaddr *, socklen_t);
static int (*r_connect)(int, const struct sockaddr *, socklen_t);
static int (*r_clock)(clockid_t, struct timespec *);
static int (*r_epoll)(int, struct epoll_event *, int, int);
static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static int (*r_close)(int);
static int (*r_rename)(const char *, const char *);
static int (*r_renameat)(int, const char *, int, const char *);
static int (*r_unlink)(const char *);
static int (*r_unlinkat)(int, const char *, int);
static int (*r_fsync)(int);
static int (*r_fdatasync)(int);
static int (*r_ftruncate)(int, off_t);
static int (*r_mkdir)(const char *, mode_t);
static int (*r_link)(const char *, const char *);

static void init(void) {
    static _Atomic int done;
    if (done) return;
    r_bind = dlsym(RTLD_NEXT, "bind");
    r_connect = dlsym(RTLD_NEXT, "connect");
    r_clock = dlsym(RTLD_NEXT, "clock_gettime");
    r_epoll = dlsym(RTLD_NEXT, "epoll_wait");
    r_open = dlsym(RTLD_NEXT, "open64");
    r_openat = dlsym(RTLD_NEXT, "openat64");
    r_write = dlsym(RTLD_NEXT, "write");
    r_writev = dlsym(RTLD_NEXT, "writev");
    r_pwrite = dlsym(RTLD_NEXT, "pwrite64");
    r_close = dlsym(RTLD_NEXT, "close");
    r_rename = dlsym(RTLD_NEXT, "rename");
    r_renameat = dlsym(RTLD_NEXT, "renameat");
    r_unlink = dlsym(RTLD_NEXT, "unlink");
    r_unlinkat = dlsym(RTLD_NEXT, "unlinkat");
    r_fsync = dlsym(RTLD_NEXT, "fsync");
    r_fdatasync = dlsym(RTLD_NEXT, "fdatasync");
    r_ftruncate = dlsym(RTLD_NEXT, "ftruncate64");
    r_mkdir = dlsym(RTLD_NEXT, "mkdir");
    r_link = dlsym(RTLD_NEXT, "link");
    r_clock(CLOCK_MONOTONIC, &t0);
    C = &none;
    const char *b = getenv("VERIF_BASE"), *c = getenv("VERIF_CTL"), *l = getenv("VERIF_LOG");
    if (b) {
        base_len = strlen(b);
        if (base_len >= sizeof base) base_len = 0;
        memcpy(base, b, base_len);
    }
    if (c) {
        int fd = syscall(SYS_openat, AT_FDCWD, c, O_RDWR | O_CLOEXEC, 0);
        if (fd >= 0) {
            void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            syscall(SYS_close, fd);
            if (p != MAP_FAILED) C = p;
        }
    }
    if (l) log_fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CLOEXEC, 0);
    done = 1;
}
__attribute__((constructor)) static void start(void) { init(); }

static void note(const char *what, const char *a, const char *b) {
    if (log_fd < 0) return;
    char buf[18000];  // fields end in NUL, which no path holds
    int n = snprintf(buf, sizeof buf, "%s%c%.8000s%c%.8000s%c", what, 0, a ? a : "", 0, b ? b : "", 0);
    if (n > (int)sizeof buf) n = sizeof buf;
    if (n > 0) syscall(SYS_write, log_fd, buf, n);
}
static int below(const char *p) { return base_len && p && strncmp(p, base, base_len) == 0; }
static int is_tracked(int fd) { return fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }

static void die(void) { syscall(SYS_exit_group, 137); }

// Called before an operation below the base: 0 to go on, otherwise what to do to it.
static int gate(int kind) {
    C->ops++;
    uint64_t us = C->slow_us;
    if (us && (!C->slow_kind || C->slow_kind == (uint64_t)kind)) {
        struct timespec t = {us / 1000000, (us % 1000000) * 1000};
        syscall(SYS_nanosleep, &t, NULL);
    }
    if (!C->arm) return 0;
    uint64_t n = ++C->seen;
    if (n == C->arm || (C->sticky && n > C->arm)) {
        int m = C->mode;
        C->kind = kind;
        C->hit++;
        if (m == CRASH_BEFORE) die();
        return m;
    }
    return 0;
}
static int failed(int m) {
    if (m == FAIL_NOSPC) return ENOSPC;
    if (m == FAIL_IO) return EIO;
    return 0;
}
#define GATED(kind, under, call, errval)                  \
    do {                                                  \
        init();                                           \
        if (!(under)) return (call);                      \
        C->busy++;                                        \
        int m_ = gate(kind);                              \
        if (failed(m_)) {                                 \
            C->busy--;                                    \
            errno = failed(m_);                           \
            return (errval);                              \
        }                                                 \
        __typeof__(call) r_ = (call);                     \
        int e_ = errno;                                   \
        if (m_ == CRASH_AFTER || m_ == CRASH_MID) die();  \
        C->busy--;                                        \
        errno = e_;                                       \
        return r_;                                        \
    } while (0)

int bind(int fd, const struct sockaddr *a, socklen_t n) {
    init();
    struct sockaddr_storage s;
    if (C == &none || n > sizeof s) return r_bind(fd, a, n);
    memcpy(&s, a, n);
    struct sockaddr_in *v4 = (void *)&s;
    struct sockaddr_in6 *v6 = (void *)&s;
    int ours = 0;
    if (s.ss_family == AF_INET && ntohs(v4->sin_port) == PORT) {
        v4->sin_port = 0;
        v4->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        ours = 1;
    } else if (s.ss_family == AF_INET6 && ntohs(v6->sin6_port) == PORT) {
        v6->sin6_port = 0;
        ours = 1;
    }
    int r = r_bind(fd, (void *)&s, n);
    if (r == 0 && ours) {
        if (C->clock_on && !stopped) {
            r_clock(CLOCK_MONOTONIC, &t0);
            stopped = 1;
        }
        struct sockaddr_storage g;
        socklen_t gl = sizeof g;
        if (getsockname(fd, (void *)&g, &gl) == 0)
            C->port = ntohs(g.ss_family == AF_INET ? ((struct sockaddr_in *)&g)->sin_port : ((struct sockaddr_in6 *)&g)->sin6_port);
    }
    return r;
}
int connect(int fd, const struct sockaddr *a, socklen_t n) {
    init();
    const char *p = getenv("VERIF_PORT");
    struct sockaddr_storage s;
    if (!p || n > sizeof s) return r_connect(fd, a, n);
    memcpy(&s, a, n);
    if (s.ss_family == AF_INET && ntohs(((struct sockaddr_in *)&s)->sin_port) == PORT) ((struct sockaddr_in *)&s)->sin_port = htons(atoi(p));
    if (s.ss_family == AF_INET6 && ntohs(((struct sockaddr_in6 *)&s)->sin6_port) == PORT) ((struct sockaddr_in6 *)&s)->sin6_port = htons(atoi(p));
    return r_connect(fd, (void *)&s, n);
}
int clock_gettime(clockid_t id, struct timespec *t) {
    init();
    if (id == CLOCK_MONOTONIC && stopped) {
        uint64_t ns = (uint64_t)t0.tv_nsec + C->offset_ns;
        t->tv_sec = t0.tv_sec + ns / 1000000000;
        t->tv_nsec = ns % 1000000000;
        return 0;
    }
    return r_clock(id, t);
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int ms) {
    init();
    if (!stopped) return r_epoll(ep, ev, max, ms);
    if (ms > 0) C->idle++;
    else if (ms < 0) C->idle = 0;
    if (ms < 0 || ms > 2) {
        // come back often, the clock may have been advanced
        int n = r_epoll(ep, ev, max, 2);
        return n;
    }
    return r_epoll(ep, ev, max, ms);
}

static int do_open(int at, const char *p, int flags, mode_t mode) {
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!wr || C == &none) return at == AT_FDCWD ? r_open(p, flags, mode) : r_openat(at, p, flags, mode);
    if (strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6)) note("open", p, (flags & O_TRUNC) ? "trunc" : (flags & O_EXCL) ? "excl" : "keep");
    if (!below(p)) return at == AT_FDCWD ? r_open(p, flags, mode) : r_openat(at, p, flags, mode);
    C->busy++;
    int m = gate(1);
    if (failed(m)) {
        C->busy--;
        errno = failed(m);
        return -1;
    }
    int fd = at == AT_FDCWD ? r_open(p, flags, mode) : r_openat(at, p, flags, mode);
    int e = errno;
    if (m == CRASH_AFTER || m == CRASH_MID) die();
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 1;
    C->busy--;
    errno = e;
    return fd;
}
#define OPEN_MODE(flags, last)                          \
    mode_t mode = 0;                                    \
    if ((flags) & (O_CREAT | O_TMPFILE)) {              \
        va_list ap;                                     \
        va_start(ap, last);                             \
        mode = va_arg(ap, mode_t);                      \
        va_end(ap);                                     \
    }
int open(const char *p, int flags, ...) { OPEN_MODE(flags, flags) init(); return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { OPEN_MODE(flags, flags) init(); return do_open(AT_FDCWD, p, flags, mode); }
int openat(int at, const char *p, int flags, ...) { OPEN_MODE(flags, flags) init(); return do_open(at, p, flags, mode); }
int openat64(int at, const char *p, int flags, ...) { OPEN_MODE(flags, flags) init(); return do_open(at, p, flags, mode); }
int creat(const char *p, mode_t m) { init(); return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    init();
    if (is_tracked(fd)) {
        tracked[fd] = 0;
        C->busy++;
        int m = gate(6);
        int r = r_close(fd);
        if (m == CRASH_AFTER || m == CRASH_MID) die();
        C->busy--;
        return r;
    }
    return r_close(fd);
}
ssize_t write(int fd, const void *b, size_t n) {
    init();
    if (!is_tracked(fd)) return r_write(fd, b, n);
    C->busy++;
    int m = gate(2);
    if (failed(m)) {
        C->busy--;
        errno = failed(m);
        return -1;
    }
    size_t want = (m == CRASH_MID || m == SHORT_WRITE) ? (n > 1 ? n / 2 : n) : n;
    ssize_t r = r_write(fd, b, want);
    int e = errno;
    if (m == CRASH_AFTER || m == CRASH_MID) die();
    if (r > 0) C->writes += r;
    C->busy--;
    errno = e;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    GATED(2, is_tracked(fd), r_writev(fd, v, n), -1);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { GATED(2, is_tracked(fd), r_pwrite(fd, b, n, o), -1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { GATED(2, is_tracked(fd), r_pwrite(fd, b, n, o), -1); }
int fsync(int fd) { GATED(3, is_tracked(fd), r_fsync(fd), -1); }
int fdatasync(int fd) { GATED(3, is_tracked(fd), r_fdatasync(fd), -1); }
int ftruncate(int fd, off_t o) { GATED(4, is_tracked(fd), r_ftruncate(fd, o), -1); }
int ftruncate64(int fd, off_t o) { GATED(4, is_tracked(fd), r_ftruncate(fd, o), -1); }
int rename(const char *a, const char *b) { init(); if (C != &none) note("rename", a, b); GATED(5, below(a) || below(b), r_rename(a, b), -1); }
int renameat(int x, const char *a, int y, const char *b) { init(); if (C != &none) note("rename", a, b); GATED(5, below(a) || below(b), r_renameat(x, a, y, b), -1); }
int unlink(const char *a) { init(); if (C != &none) note("unlink", a, ""); GATED(7, below(a), r_unlink(a), -1); }
int unlinkat(int x, const char *a, int f) { init(); if (C != &none) note("unlink", a, ""); GATED(7, below(a), r_unlinkat(x, a, f), -1); }
int mkdir(const char *a, mode_t m) { init(); if (C != &none) note("mkdir", a, ""); GATED(8, below(a), r_mkdir(a, m), -1); }
int link(const char *a, const char *b) { init(); if (C != &none) note("link", a, b); GATED(5, below(a) || below(b), r_link(a, b), -1); }
