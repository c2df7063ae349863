/* Preloaded into the s5 program by the demonstrations: keeps its fixed paths
 * inside a scratch directory, sends name lookups to a local server, and makes
 * a few system calls fail on request. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

static const char *map(const char *p, char *buf, size_t n) {
    const char *root = getenv("DEMO_ROOT");
    if (!root || strncmp(p, "/usr/local/s5", 13)) return p;
    snprintf(buf, n, "%s%s", root, p + 13);
    return buf;
}

/* A request is the number of calls still to be let through, kept in a file
 * of the scratch directory so the demonstration can set it while we run. */
static int due(const char *what) {
    const char *root = getenv("DEMO_ROOT");
    char p[512], b[32] = "";
    if (!root) return 0;
    snprintf(p, sizeof(p), "%s/fault.%s", root, what);
    static __typeof__(open) *ro;
    static __typeof__(read) *rr;
    if (!ro) ro = dlsym(RTLD_NEXT, "open");
    if (!rr) rr = dlsym(RTLD_NEXT, "read");
    int e = errno;
    int fd = ro(p, O_RDWR);
    errno = e;
    if (fd < 0) return 0;
    int n = rr(fd, b, sizeof(b) - 1);
    int skip = n > 0 ? atoi(b) : 0, hit = 0;
    if (skip > 0) {
        snprintf(b, sizeof(b), "%d\n", skip - 1);
        if (ftruncate(fd, 0) || pwrite(fd, b, strlen(b), 0) < 0) abort();
    } else {
        hit = 1;
        char *colon = strchr(b, ':');
        int left = colon ? atoi(colon + 1) : 1;
        if (left <= 1) unlink(p);
        else {
            snprintf(b, sizeof(b), "0:%d\n", left - 1);
            if (ftruncate(fd, 0) || pwrite(fd, b, strlen(b), 0) < 0) abort();
        }
    }
    close(fd);
    errno = e;
    return hit;
}

int open(const char *p, int flags, ...) {
    REAL(open);
    char buf[1024];
    int mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap);
    }
    if (due("open")) { errno = EMFILE; return -1; }
    return real(map(p, buf, sizeof(buf)), flags, mode);
}
FILE *fopen(const char *p, const char *m) {
    REAL(fopen);
    char b[1024];
    if (due("fopen")) { errno = EMFILE; return NULL; }
    return real(map(p, b, sizeof(b)), m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int stat(const char *p, struct stat *st) { REAL(stat); char b[1024]; return real(map(p, b, sizeof(b)), st); }
int access(const char *p, int m) { REAL(access); char b[1024]; return real(map(p, b, sizeof(b)), m); }
int unlink(const char *p) { REAL(unlink); char b[1024]; return real(map(p, b, sizeof(b))); }

ssize_t sendto(int fd, const void *buf, size_t n, int flags, const struct sockaddr *to, socklen_t tolen) {
    REAL(sendto);
    struct sockaddr_in a;
    const char *port = getenv("DEMO_DNS_PORT");
    if (due("sendto")) { errno = ENETUNREACH; return -1; }
    if (port && to && to->sa_family == AF_INET && ((struct sockaddr_in *)to)->sin_port == htons(53)) {
        memset(&a, 0, sizeof(a));
        a.sin_family = AF_INET;
        a.sin_port = htons(atoi(port));
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        return real(fd, buf, n, flags, (struct sockaddr *)&a, sizeof(a));
    }
    return real(fd, buf, n, flags, to, tolen);
}

ssize_t recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *from, socklen_t *fromlen) {
    REAL(recvfrom);
    ssize_t r = real(fd, buf, n, flags, from, fromlen);
    const char *port = getenv("DEMO_DNS_PORT");
    if (r >= 0 && port && from && from->sa_family == AF_INET && ((struct sockaddr_in *)from)->sin_port == htons(atoi(port)))
        ((struct sockaddr_in *)from)->sin_port = htons(53);
    return r;
}

/* short reads of ordinary files */
ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    struct stat st;
    if (n > 1 && getenv("DEMO_SHORT_READ") && !fstat(fd, &st) && S_ISREG(st.st_mode)) n = n / 2 > 64 ? 64 : n / 2;
    return real(fd, buf, n);
}

/* a full disk, for the log files only */
ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    struct stat st;
    int e = errno;
    if (fd > 2 && !fstat(fd, &st) && S_ISREG(st.st_mode) && due("log_write")) { errno = ENOSPC; return -1; }
    errno = e;
    return real(fd, buf, n);
}

/* the outcome of a connection attempt */
int getsockopt(int fd, int level, int name, void *v, socklen_t *l) {
    REAL(getsockopt);
    int r = real(fd, level, name, v, l);
    if (!r && level == SOL_SOCKET && name == SO_ERROR && due("so_error")) *(int *)v = EHOSTUNREACH;
    return r;
}

int accept(int fd, struct sockaddr *a, socklen_t *l) {
    REAL(accept);
    if (due("accept_eintr")) { errno = EINTR; return -1; }
    if (due("accept_abort")) { errno = ECONNABORTED; return -1; }
    if (due("accept_emfile")) { errno = EMFILE; return -1; }
    int r = real(fd, a, l);
    if (r >= 0 && getenv("DEMO_SNDBUF")) {
        int v = atoi(getenv("DEMO_SNDBUF"));
        setsockopt(r, SOL_SOCKET, SO_SNDBUF, &v, sizeof(v));
    }
    return r;
}

pid_t fork(void) { REAL(fork); if (due("fork")) { errno = EAGAIN; return -1; } return real(); }

void *malloc(size_t n) {
    static void *(*real)(size_t);
    if (!real) real = dlsym(RTLD_NEXT, "malloc");
    return real(n);
}

/* clocks the demonstration can step: clock.step moves the wall clock, mono.step makes time pass on both */
static long step(const char *name) {
    const char *root = getenv("DEMO_ROOT");
    char p[512], b[32] = "";
    long v = 0;
    if (!root) return 0;
    static __typeof__(open) *ro;
    static __typeof__(read) *rr;
    if (!ro) ro = dlsym(RTLD_NEXT, "open");
    if (!rr) rr = dlsym(RTLD_NEXT, "read");
    snprintf(p, sizeof(p), "%s/%s.step", root, name);
    int e = errno, fd = ro(p, O_RDONLY);
    if (fd >= 0) {
        if (rr(fd, b, sizeof(b) - 1) > 0) v = atol(b);
        close(fd);
    }
    errno = e;
    return v;
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(gettimeofday);
    int r = real(tv, tz);
    if (!r) tv->tv_sec += step("clock") + step("mono");
    return r;
}
time_t time(time_t *t) {
    REAL(time);
    time_t v = real(NULL) + step("clock") + step("mono");
    if (t) *t = v;
    return v;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(clock_gettime);
    int r = real(id, ts);
    if (!r && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) ts->tv_sec += step("clock") + step("mono");
    else if (!r && id != CLOCK_PROCESS_CPUTIME_ID && id != CLOCK_THREAD_CPUTIME_ID) ts->tv_sec += step("mono");
    return r;
}
