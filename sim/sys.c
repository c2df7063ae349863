/* Redirected operating-system calls of the nodes, node life cycle and coroutines. */
#include "sim.h"
#include "result.h"
extern uint64_t thash;
#include <pthread.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <poll.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <openssl/ssl.h>
#include <openssl/bio.h>
#include <openssl/err.h>

node_t nodes[NNODES];
node_t *cur;
int (*fork_hook)(node_t *);
int (*kill_hook)(node_t *, int, int);
int (*waitpid_hook)(node_t *, int, int *, int);
void (*suspend_hook)(node_t *);
void (*syscall_hook)(node_t *, const char *);
void (*log_hook)(node_t *, const char *, const char *, int);
void (*open_hook)(node_t *, const char *, int);

extern void vnet_add_listener(sock_t *);
extern usec_t net_delay(void);

/* ---------------- coroutines ---------------- */
extern void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
extern void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
#ifdef FLAVOUR_asan
#define STACKSZ (64 * 1024 * 1024)  /* frames here are larger than in the optimised program */
#else
#define STACKSZ (8 * 1024 * 1024)   /* the usual limit */
#endif
#define GUARDSZ (256 * 1024)
struct co { ucontext_t ctx; void *stack; void *fake; };
static ucontext_t main_ctx; static void *main_fake; static const void *main_bottom; static size_t main_size;

static void co_entry(void) {
    node_t *n = cur;
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(NULL, &main_bottom, &main_size);
    static char argbuf[NNODES][64]; static char arg1buf[NNODES][64]; static char *argvv[NNODES][3];
    strcpy(argbuf[n->idx], "/usr/local/s5/sbin/s5");
    argvv[n->idx][0] = argbuf[n->idx]; argvv[n->idx][1] = argvv[n->idx][2] = NULL;
    if (n->arg1) { snprintf(arg1buf[n->idx], 64, "%s", n->arg1); argvv[n->idx][1] = arg1buf[n->idx]; }
    int rc = n->entry(n->arg1 ? 2 : 1, argvv[n->idx]);
    extern void sim_exit(int) __attribute__((noreturn));
    sim_exit(rc);
}
static void co_resume(node_t *n) {
    cur = n; result->in_node = n->idx + 1; result->in_hash = thash;
    n->edges_at_resume = edges_total; n->calls_since_wait = 0;
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&main_fake, n->co->stack, STACKSZ);
    ERR_clear_error();
    if (n->leftover_err) ERR_raise(ERR_LIB_USER, 1);
    swapcontext(&main_ctx, &n->co->ctx);
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(main_fake, NULL, NULL);
    n->leftover_err = ERR_peek_error() != 0;
    ERR_clear_error();
    cur = NULL; result->in_node = 0;
    if (n->exited && n->running) {
        n->running = 0;
        munmap(n->co->stack, STACKSZ); free(n->co); n->co = NULL;
    }
}
static void co_yield(void) {
    node_t *n = cur;
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&n->co->fake, main_bottom, main_size);
    swapcontext(&n->co->ctx, &main_ctx);
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(n->co->fake, &main_bottom, &main_size);
}
static void node_run(void *arg) {
    node_t *n = arg;
    n->wake_ev = NULL; n->wake_at = NEVER;
    if (!n->running || n->exited) return;
    if (now < n->stall_until) { n->wake_at = n->stall_until; n->wake_ev = at(n->stall_until, node_run, n); return; }
    n->waiting = 0;
    co_resume(n);
}
static usec_t wake_latency(void) {
    switch (prof.wake_mode) {
    case 0: return 3;
    case 1: { usec_t d = choose(3) ? delay_us(3, 3 * MS) : 3; if (d > 50) fault(F_WAKE_LATENCY); return d; }
    default: { usec_t d = delay_us(200, 40 * MS); fault(F_WAKE_LATENCY); return d; }
    }
}
static void wake_at(node_t *n, usec_t t) {
    if (n->wake_ev && n->wake_at <= t) return;
    cancel(n->wake_ev);
    n->wake_at = t; n->wake_ev = at(t, node_run, n);
}
void node_kick(node_t *n) {
    if (!n->running || !n->waiting || n->in_suspend) return;
    if (n->wake_ev && n->wake_at <= now + 2) return;
    if (n->wake_ev && n->wake_at < n->wait_until) return;     /* already going to run soon */
    wake_at(n, now + wake_latency());
}
int node_alive(node_t *n) { return n->running && !n->exited; }

/* ---------------- node images ---------------- */
extern int nodeC_main(int, char **), nodeS_main(int, char **);
extern char __start_nodeC_data[], __stop_nodeC_data[], __start_nodeC_bss[], __stop_nodeC_bss[];
extern char __start_nodeS_data[], __stop_nodeS_data[], __start_nodeS_bss[], __stop_nodeS_bss[];
static __attribute__((noinline, no_sanitize_address)) void rawcopy(volatile char *d, const volatile char *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; }
static struct { char *d, *de, *b, *be; } img[NNODES];
void nodes_init_once(void) {
    memset(nodes, 0, sizeof nodes);
    img[0].d = __start_nodeC_data; img[0].de = __stop_nodeC_data; img[0].b = __start_nodeC_bss; img[0].be = __stop_nodeC_bss;
    img[1].d = __start_nodeS_data; img[1].de = __stop_nodeS_data; img[1].b = __start_nodeS_bss; img[1].be = __stop_nodeS_bss;
    for (int i = 0; i < NNODES; i++) {
        node_t *n = &nodes[i];
        n->idx = i; n->name = i ? "server-node" : "client-node"; n->entry = i ? nodeS_main : nodeC_main;
        n->root = i ? "/S" : "/C"; n->ip = i ? 0x0a000002 : 0x0a000001;
        n->img_data = malloc(img[i].de - img[i].d + 1); rawcopy(n->img_data, img[i].d, img[i].de - img[i].d);
        n->img_bss = malloc(img[i].be - img[i].b + 1); rawcopy(n->img_bss, img[i].b, img[i].be - img[i].b);
    }
}
static void node_reset(node_t *n) {
    memset(n->fds, 0, sizeof n->fds);
    n->fds[0].kind = n->fds[1].kind = n->fds[2].kind = FD_STD;
    if (!n->fdlimit) n->fdlimit = 1024;
    n->exited = n->crashed = n->exit_code = 0; n->live_allocs = n->live_bytes = n->live_ssl = 0;
    if (n->alarm_ev) { cancel(n->alarm_ev); n->alarm_ev = NULL; }
    memset(n->sigh, 0, sizeof n->sigh); n->sigmask = n->sigpend = 0; n->in_suspend = 0;
    n->waiting = 0; n->wake_ev = NULL; n->wake_at = NEVER; n->waits = 0; n->bad_fd_calls = 0; n->leftover_err = 0;
    if (n->started) {       /* restart: pristine data segment */
        rawcopy(img[n->idx].d, n->img_data, img[n->idx].de - img[n->idx].d);
        rawcopy(img[n->idx].b, n->img_bss, img[n->idx].be - img[n->idx].b);
    }
}
void node_start(node_t *n) {
    node_reset(n);
    n->pid = n->pid ? n->pid + 1000 : 100 + n->idx;
    n->co = calloc(1, sizeof *n->co);
    n->co->stack = mmap(NULL, STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(n->co->stack, GUARDSZ, PROT_NONE);
    getcontext(&n->co->ctx);
    n->co->ctx.uc_stack.ss_sp = n->co->stack; n->co->ctx.uc_stack.ss_size = STACKSZ; n->co->ctx.uc_link = NULL;
    makecontext(&n->co->ctx, co_entry, 0);
    n->running = n->started = 1;
    trace("start", n->idx, n->pid, 0);
    wake_at(n, now);
}
static void fd_drop(node_t *n, int fd);
static void close_all(node_t *n) { for (int i = 3; i < MAXFD; i++) if (n->fds[i].kind != FD_NONE) fd_drop(n, i); }
void node_crash(node_t *n) {
    if (!n->running) return;
    trace("crash", n->idx, 0, 0);
    fault(F_CRASH);
    cancel(n->wake_ev); n->wake_ev = NULL;
    n->running = 0; n->exited = 1; n->crashed = 1; n->waiting = 0;
    close_all(n);
}
__attribute__((noreturn)) void sim_exit(int code) {
    node_t *n = cur;
    trace("exit", n->idx, code, 0);
    note("%s exits with %d", n->name, code);
    n->exited = 1; n->exit_code = code;
    close_all(n);
    if (n->on_exit) n->on_exit(n);
    co_yield();
    abort();
}

/* ---------------- common entry of redirected calls ---------------- */
#define CALL_BUDGET 400000
static int run_signals(node_t *n);
static inline node_t *enter(const char *name) {
    node_t *n = cur;
    if (!n) sim_error("redirected call %s outside a node", name);
    if (++n->calls_since_wait > CALL_BUDGET) {
        n->calls_since_wait = 0;
        violate("hang", "%s made %d system calls without returning to its event wait (last: %s)", n->name, CALL_BUDGET, name);
    }
    if (syscall_hook) syscall_hook(n, name);
    if (n->sigpend & ~n->sigmask) run_signals(n);
    return n;
}
/* between two calls of a node others may run and data may arrive */
static void preempt(node_t *n) {
    if (!prof.preempt || !chance(prof.preempt)) return;
    usec_t d = 1 + (choose(16) == 15 ? choose(3000) : choose(100)); int e = errno;
    long calls = n->calls_since_wait; uint64_t used = edges_total - n->edges_at_resume;
    fault(F_PREEMPT);
    wake_at(n, now + d); co_yield();
    n->calls_since_wait = calls; n->edges_at_resume = edges_total - used; errno = e;
}
static int flt(int rate) { return prof.faults_on && rate && chance(rate); }
long hard_faults;          /* failed calls and allocations so far */
static int hard(int rate) { if (!flt(rate)) return 0; hard_faults++; return 1; }
static int nth_call(void) {
    if (!prof.faults_on || !prof.call_nth) return 0;
    if (--prof.call_nth > 0) return 0;
    if (prof.call_run > 1) { prof.call_run--; prof.call_nth = 1; } else prof.call_nth = 0;
    hard_faults++;
    return 1;
}
static int seterr(int e) { errno = e; return -1; }

static void badfd(node_t *n, const char *what, int fd) {
    if (fd < 0) return;
    n->bad_fd_calls++;
    if (n->bad_fd_calls == 1) snprintf(n->bad_fd_what, sizeof n->bad_fd_what, "%s on descriptor that is not open", what);
    trace("badfd", n->idx, fd, 0);
    note("%s: %s(%d) on a closed descriptor", n->name, what, fd);
}
static fdent_t *getfd(node_t *n, int fd, const char *what) {
    if (fd < 0 || fd >= MAXFD || n->fds[fd].kind == FD_NONE) { badfd(n, what, fd); errno = EBADF; return NULL; }
    return &n->fds[fd];
}
static sock_t *getsock(node_t *n, int fd, const char *what) {
    fdent_t *f = getfd(n, fd, what);
    if (!f) return NULL;
    if (f->kind != FD_SOCK) { errno = ENOTSOCK; return NULL; }
    return f->s;
}
static int fd_alloc(node_t *n) {
    for (int i = 3; i < n->fdlimit && i < MAXFD; i++) if (n->fds[i].kind == FD_NONE) {
        memset(&n->fds[i], 0, sizeof n->fds[i]); return i; }
    errno = EMFILE; return -1;
}
int node_open_fds(node_t *n) { int c = 0; for (int i = 3; i < MAXFD; i++) if (n->fds[i].kind != FD_NONE) c++; return c; }
void node_fd_table(node_t *n, char *out, int outn) {
    int o = 0; out[0] = 0;
    for (int i = 3; i < MAXFD && o < outn - 60; i++) {
        fdent_t *f = &n->fds[i];
        if (f->kind == FD_SOCK) o += snprintf(out + o, outn - o, " %d:%s/%s", i, f->s->state == S_LISTEN ? "listen" : f->s->kind == SOCK_DGRAM ? "udp" : "tcp", f->s->role);
        else if (f->kind == FD_FILE) o += snprintf(out + o, outn - o, " %d:file %s", i, f->f->path);
        else if (f->kind == FD_EPOLL) o += snprintf(out + o, outn - o, " %d:epoll", i);
    }
}

static void ep_unready(struct epitem *it) {
    struct epollset *e = it->set;
    if (!it->inready) return;
    struct epitem **pp = &e->ready, *prev = NULL;
    while (*pp && *pp != it) { prev = *pp; pp = &(*pp)->next; }
    if (*pp) { *pp = it->next; if (e->readytail == it) e->readytail = prev; }
    it->inready = 0; it->next = NULL;
}
static void ep_remove(sock_t *s) {
    struct epitem *it = s->ep;
    if (!it) return;
    ep_unready(it);
    struct epitem **pp = &it->set->all;
    while (*pp && *pp != it) pp = &(*pp)->anext;
    if (*pp) *pp = it->anext;
    free(it); s->ep = NULL;
}
static void fd_drop(node_t *n, int fd) {
    fdent_t *f = &n->fds[fd];
    if (f->kind == FD_SOCK) { ep_remove(f->s); sock_close(f->s); }
    if (f->kind == FD_FILE) f->f->refs--;
    if (f->kind == FD_EPOLL) { for (struct epitem *it = f->ep->all, *nx; it; it = nx) { nx = it->anext; it->s->ep = NULL; free(it); } free(f->ep); }
    f->kind = FD_NONE;
}

/* ---------------- sockets ---------------- */
int sim_socket(int dom, int type, int proto) {
    node_t *n = enter("socket");
    if (hard(prof.socket_fail) || nth_call()) { fault(F_SOCKET_FAIL); return seterr(choose(2) ? ENFILE : EMFILE); }
    int fd = fd_alloc(n); if (fd < 0) return -1;
    sock_t *s = sock_new(type & 0xf, n);
    s->fd = fd; s->nonblock = !!(type & SOCK_NONBLOCK);
    if (s->kind == SOCK_DGRAM) s->state = S_ESTAB;
    n->fds[fd].kind = FD_SOCK; n->fds[fd].s = s;
    trace("socket", n->idx, fd, s->id);
    return fd;
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t l) {
    node_t *n = enter("bind"); sock_t *s = getsock(n, fd, "bind"); if (!s) return -1;
    const struct sockaddr_in *in = (const void *)a;
    if (hard(prof.socket_fail) || nth_call()) return seterr(EADDRINUSE);
    s->lport = ntohs(in->sin_port);
    return 0;
}
int sim_listen(int fd, int bl) {
    node_t *n = enter("listen"); sock_t *s = getsock(n, fd, "listen"); if (!s) return -1;
    if (hard(prof.socket_fail) || nth_call()) return seterr(EADDRINUSE);
    s->state = S_LISTEN; s->backlog_max = bl; s->role = "listener";
    vnet_add_listener(s);
    trace("listen", n->idx, s->lport, bl);
    return 0;
}
static void would_block(node_t *n, sock_t *s, const char *what) {
    if (!s->nonblock) violate("hang", "%s blocks its whole worker in %s on a blocking socket", n->name, what);
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
    node_t *n = enter("accept"); preempt(n); sock_t *s = getsock(n, fd, "accept"); if (!s) return -1;
    if (s->state != S_LISTEN) return seterr(EINVAL);
    if (!s->nbacklog) { would_block(n, s, "accept"); return seterr(EAGAIN); }
    if (flt(prof.eintr)) { fault(F_EINTR); return seterr(EINTR); }
    if (flt(prof.accept_abort)) {
        fault(F_ACCEPT_ABORT);
        /* the first pending connection was aborted by its peer before being accepted; only the misbehaving
         * peers' network does that, another one's connection is still waiting after the error */
        sock_t *dead = s->backlog[0];
        if (dead->rip >> 16 != ((10 << 8) | 9) || choose(2)) return seterr(choose(2) ? EPROTO : ECONNABORTED);
        memmove(s->backlog, s->backlog + 1, --s->nbacklog * sizeof s->backlog[0]);
        sock_abort(dead);
        return seterr(ECONNABORTED);
    }
    if (hard(prof.accept_emfile) || nth_call()) { fault(F_ACCEPT_EMFILE); static const int es[] = { EMFILE, ENFILE, ENOMEM, ENOBUFS }; return seterr(es[choose(4)]); }
    int nfd = fd_alloc(n); if (nfd < 0) { fault(F_ACCEPT_EMFILE); return -1; }
    sock_t *c = s->backlog[0];
    memmove(s->backlog, s->backlog + 1, --s->nbacklog * sizeof s->backlog[0]);
    c->fd = nfd; c->nonblock = !!(flags & SOCK_NONBLOCK);
    n->fds[nfd].kind = FD_SOCK; n->fds[nfd].s = c;
    if (a) { struct sockaddr_in *in = (void *)a; memset(in, 0, sizeof *in); in->sin_family = AF_INET; in->sin_port = htons(c->rport); in->sin_addr.s_addr = htonl(c->rip); *l = sizeof *in; }
    trace("accept", n->idx, nfd, c->id);
    return nfd;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *l) { return sim_accept4(fd, a, l, 0); }
int sim_connect(int fd, const struct sockaddr *a, socklen_t l) {
    node_t *n = enter("connect"); preempt(n); sock_t *s = getsock(n, fd, "connect"); if (!s) return -1;
    const struct sockaddr_in *in = (const void *)a;
    if (s->state == S_FRESH && nth_call()) return seterr(EADDRNOTAVAIL);
    int e = sock_connect(s, ntohl(in->sin_addr.s_addr), ntohs(in->sin_port));
    if (e == EISCONN) { return seterr(EISCONN); }
    if (e) { if (e == EINPROGRESS) would_block(n, s, "connect"); return seterr(e); }
    return 0;
}
static ssize_t do_recv(node_t *n, sock_t *s, void *b, size_t len, int flags) {
    if (s->kind == SOCK_DGRAM) {
        struct dgram *d = s->dq;
        if (!d) { would_block(n, s, "recv"); return seterr(EAGAIN); }
        int k = d->n < (int)len ? d->n : (int)len; memcpy(b, d->data, k);
        s->dq = d->next; if (!s->dq) s->dqtail = NULL; free(d); return k;
    }
    int r = sock_recv(s, b, (int)len, flags & MSG_PEEK);
    if (r == -EAGAIN) would_block(n, s, "recv");
    if (r < 0) return seterr(-r);
    return r;
}
static ssize_t do_send(node_t *n, sock_t *s, const void *b, size_t len, int flags) {
    size_t part = len;
    if (len > 1 && prof.send_short && chance(prof.send_short)) part = 1 + choose((uint32_t)(len - 1 > 3 && choose(4) == 3 ? 3 : len - 1));
    int r = sock_send(s, b, (int)part);
    if (r > 0 && (size_t)r == part && part < len) { fault(F_SEND_SHORT); s->nospace = 1; }     /* writable again later, as if the buffer had been full */
    if (r == -EAGAIN) would_block(n, s, "send");
    if (r == -EPIPE && !(flags & MSG_NOSIGNAL)) {
        if (!n->sigh[SIGPIPE]) violate("crash", "%s is killed by SIGPIPE when sending to a closed connection", n->name);
        if (n->sigh[SIGPIPE] != SIG_IGN) n->sigh[SIGPIPE](SIGPIPE);
    }
    if (r < 0) return seterr(-r);
    return r;
}
ssize_t sim_recv(int fd, void *b, size_t len, int fl) {
    node_t *n = enter("recv"); preempt(n); sock_t *s = getsock(n, fd, "recv");
    if (s && !(fl & MSG_PEEK) && flt(prof.eintr)) { fault(F_EINTR); return seterr(EINTR); }
    return s ? do_recv(n, s, b, len, fl) : -1;
}
ssize_t sim_send(int fd, const void *b, size_t len, int fl) {
    node_t *n = enter("send"); preempt(n); sock_t *s = getsock(n, fd, "send");
    if (s && flt(prof.eintr)) { fault(F_EINTR); return seterr(EINTR); }
    return s ? do_send(n, s, b, len, fl) : -1;
}
ssize_t sim_recvfrom(int fd, void *b, size_t len, int fl, struct sockaddr *a, socklen_t *l) {
    node_t *n = enter("recvfrom"); preempt(n); sock_t *s = getsock(n, fd, "recvfrom"); if (!s) return -1;
    if (s->kind == SOCK_DGRAM && s->dq && a && l && *l >= sizeof(struct sockaddr_in)) {
        if (flt(prof.eintr)) { fault(F_EINTR); return seterr(EINTR); }
        struct sockaddr_in *in = (void *)a; in->sin_family = AF_INET; in->sin_port = htons(s->dq->port); in->sin_addr.s_addr = htonl(s->dq->ip); *l = sizeof *in;
    }
    return do_recv(n, s, b, len, fl);
}
ssize_t sim_sendto(int fd, const void *b, size_t len, int fl, const struct sockaddr *a, socklen_t l) {
    node_t *n = enter("sendto"); preempt(n); sock_t *s = getsock(n, fd, "sendto"); if (!s) return -1;
    if (s->kind != SOCK_DGRAM) return do_send(n, s, b, len, fl);
    if (flt(prof.eintr)) { fault(F_EINTR); return seterr(EINTR); }
    if (nth_call()) return seterr(ENETUNREACH);
    const struct sockaddr_in *in = (const void *)a;
    uint32_t ip = in ? ntohl(in->sin_addr.s_addr) : s->rip; uint16_t port = in ? ntohs(in->sin_port) : s->rport;
    if (!s->lport) s->lport = 20000 + s->id % 20000;
    trace("udp_send", s->id, (int64_t)len, port);
    trace_data(b, (int)len);
    if (udp_hook) udp_hook(s, ip, port, b, (int)len);
    return (ssize_t)len;
}
int sim_shutdown(int fd, int how) {
    node_t *n = enter("shutdown"); sock_t *s = getsock(n, fd, "shutdown"); if (!s) return -1;
    if (s->state != S_ESTAB) return seterr(ENOTCONN);
    if (how != SHUT_RD) sock_shutdown_wr(s);
    return 0;
}
int sim_getsockopt(int fd, int lv, int opt, void *v, socklen_t *l) {
    node_t *n = enter("getsockopt"); sock_t *s = getsock(n, fd, "getsockopt"); if (!s) return -1;
    if (lv == SOL_SOCKET && opt == SO_ERROR) { *(int *)v = s->err; s->err = 0; return 0; }
    memset(v, 0, *l); return 0;
}
int sim_setsockopt(int fd, int lv, int opt, const void *v, socklen_t l) {
    node_t *n = enter("setsockopt"); sock_t *s = getsock(n, fd, "setsockopt"); if (!s) return -1;
    if (hard(prof.sockopt_fail)) { fault(F_SOCKOPT_FAIL); return seterr(ENOBUFS); }
    if (lv == SOL_SOCKET && opt == SO_LINGER) { const struct linger *lg = v; if (lg->l_onoff && !lg->l_linger) s->rderr_done = 2; }
    return 0;
}
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) {
    node_t *n = enter("getpeername"); sock_t *s = getsock(n, fd, "getpeername"); if (!s) return -1;
    if (s->state != S_ESTAB) return seterr(ENOTCONN);
    struct sockaddr_in *in = (void *)a; memset(in, 0, sizeof *in); in->sin_family = AF_INET; in->sin_port = htons(s->rport); in->sin_addr.s_addr = htonl(s->rip); *l = sizeof *in; return 0;
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) {
    node_t *n = enter("getsockname"); sock_t *s = getsock(n, fd, "getsockname"); if (!s) return -1;
    struct sockaddr_in *in = (void *)a; memset(in, 0, sizeof *in); in->sin_family = AF_INET; in->sin_port = htons(s->lport); in->sin_addr.s_addr = htonl(s->lip); *l = sizeof *in; return 0;
}
int sim_fcntl(int fd, int cmd, long arg) {
    node_t *n = enter("fcntl"); fdent_t *f = getfd(n, fd, "fcntl"); if (!f) return -1;
    if (f->kind == FD_SOCK) {
        if (cmd == F_GETFL) return O_RDWR | (f->s->nonblock ? O_NONBLOCK : 0);
        if (cmd == F_SETFL) {
            if (hard(prof.sockopt_fail) || nth_call()) { fault(F_SOCKOPT_FAIL); return seterr(ENOMEM); }
            f->s->nonblock = !!(arg & O_NONBLOCK); return 0;
        }
    } else { if (cmd == F_GETFL) return f->flags; if (cmd == F_SETFL) { f->flags = (int)arg; return 0; } }
    return 0;
}
int sim_ioctl(int fd, unsigned long req, void *arg) {
    node_t *n = enter("ioctl"); fdent_t *f = getfd(n, fd, "ioctl"); if (!f) return -1;
    if (f->kind == FD_SOCK && req == FIONBIO) { f->s->nonblock = !!*(int *)arg; return 0; }
    if (f->kind == FD_SOCK && req == FIONREAD) { *(int *)arg = f->s->kind == SOCK_DGRAM ? (f->s->dq ? f->s->dq->n : 0) : sock_readable(f->s); return 0; }
    return seterr(ENOTTY);
}

/* ---------------- epoll ---------------- */
int sim_epoll_create1(int fl) {
    node_t *n = enter("epoll_create");
    if (nth_call()) { fault(F_EPOLL_FAIL); return seterr(EMFILE); }
    int fd = fd_alloc(n); if (fd < 0) return -1;
    struct epollset *e = calloc(1, sizeof *e); e->node = n;
    n->fds[fd].kind = FD_EPOLL; n->fds[fd].ep = e;
    return fd;
}
int sim_epoll_create(int sz) { return sim_epoll_create1(0); }
static void ep_arm(struct epitem *it) {
    if ((sock_pollmask(it->s) & (it->events | EPOLLERR | EPOLLHUP)) && !it->inready) {
        it->inready = 1; it->next = NULL;
        if (it->set->readytail) it->set->readytail->next = it; else it->set->ready = it;
        it->set->readytail = it;
    }
}
int sim_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) {
    node_t *n = enter("epoll_ctl"); preempt(n);
    fdent_t *e = getfd(n, epfd, "epoll_ctl"); if (!e) return -1;
    if (e->kind != FD_EPOLL) return seterr(EINVAL);
    fdent_t *f = getfd(n, fd, "epoll_ctl"); if (!f) return -1;
    if (f->kind != FD_SOCK) return seterr(EPERM);
    sock_t *s = f->s;
    if (op == EPOLL_CTL_ADD) {
        if (s->ep) return seterr(EEXIST);
        if (hard(prof.epoll_fail) || nth_call()) { fault(F_EPOLL_FAIL); return seterr(choose(2) ? ENOSPC : ENOMEM); }
        struct epitem *it = calloc(1, sizeof *it);
        it->set = e->ep; it->s = s; it->events = ev->events; it->data = ev->data;
        it->anext = e->ep->all; e->ep->all = it; s->ep = it;
        ep_arm(it);
    } else if (op == EPOLL_CTL_MOD) {
        if (!s->ep) return seterr(ENOENT);
        s->ep->events = ev->events; s->ep->data = ev->data;
        ep_arm(s->ep);
    } else if (op == EPOLL_CTL_DEL) {
        if (!s->ep) return seterr(ENOENT);
        ep_remove(s);
    } else return seterr(EINVAL);
    trace("epctl", s->id, op, op == EPOLL_CTL_DEL ? 0 : ev->events);
    return 0;
}
static int run_signals(node_t *n) {
    int ran = 0;
    for (int sg = 1; sg < 65; sg++) {
        uint64_t bit = 1ULL << (sg - 1);
        if (!(n->sigpend & bit) || (n->sigmask & bit)) continue;
        n->sigpend &= ~bit;
        void (*h)(int) = n->sigh[sg];
        if (h == SIG_IGN) continue;
        if (!h) {
            if (sg == SIGCHLD || sg == SIGURG || sg == SIGWINCH || sg == SIGCONT) continue;
            trace("sigdeath", n->idx, sg, 0);
            sim_exit(128 + sg);
        }
        trace("sighandler", n->idx, sg, 0);
        uint64_t old = n->sigmask; n->sigmask |= bit;
        ((void (*)(int, void *, void *))h)(sg, NULL, NULL);
        n->sigmask = old; ran = 1;
    }
    return ran;
}
int sim_epoll_wait(int epfd, struct epoll_event *out, int max, int timeout) {
    node_t *n = enter("epoll_wait");
    fdent_t *e = getfd(n, epfd, "epoll_wait");
    if (!e || e->kind != FD_EPOLL) {
        /* the real call would fail at once, for ever: a spinning worker */
        n->waits++;
        if (n->waits > 200000) violate("hang", "%s spins on a broken event descriptor", n->name);
        n->waiting = 1; n->wait_ep = NULL; wake_at(n, now + 50); co_yield();
        if (run_signals(n)) return seterr(EINTR);
        return seterr(EBADF);
    }
    struct epollset *ep = e->ep;
    n->waits++;
    usec_t deadline = timeout < 0 ? NEVER : now + (usec_t)timeout * MS;
    if (run_signals(n)) return seterr(EINTR);
    for (;;) {
        int got = 0;
        n->waiting = 1; n->wait_ep = ep; n->wait_until = deadline;
        if (ep->ready) wake_at(n, now + wake_latency());
        else if (deadline < NEVER) wake_at(n, deadline > now ? deadline : now + 1);
        co_yield();
        n->waiting = 0;
        if (run_signals(n)) { trace("ep_eintr", n->idx, 0, 0); return seterr(EINTR); }
        if (flt(prof.eintr)) { fault(F_EINTR); return seterr(EINTR); }
        struct epitem *list = ep->ready; ep->ready = ep->readytail = NULL;
        struct epitem *arr[2048]; int na = 0;
        for (struct epitem *it = list, *nx; it; it = nx) { nx = it->next; it->inready = 0; it->next = NULL; if (na < 2048) arr[na++] = it; }
        if (prof.shuffle && na > 1) {
            for (int i = na - 1; i > 0; i--) { int j = (int)choose(i + 1); j = i - j; struct epitem *t = arr[i]; arr[i] = arr[j]; arr[j] = t; }
            fault(F_BATCH_SHUFFLE);
        }
        uint64_t sig = n->idx;
        for (int i = 0; i < na; i++) {
            struct epitem *it = arr[i];
            uint32_t m = sock_pollmask(it->s) & (it->events | EPOLLERR | EPOLLHUP);
            if (!m) continue;
            if (got == max) { ep_arm(it); continue; }
            out[got].events = m; out[got].data = it->data; got++;
            sig = mix64(sig ^ m ^ ((uint64_t)(it->s->role[0] | it->s->role[1] << 8) << 32) ^ ((uint64_t)it->events << 16));
            trace("event", it->s->id, m, it->events);
            if (it->events & EPOLLONESHOT) it->events &= EPOLLONESHOT | EPOLLET;
            if (!(it->events & EPOLLET)) ep_arm(it);
        }
        if (got) { state_sig(sig ^ (uint64_t)got << 48); if (got > 1) probe("multi-event batch"); return got; }
        if (now >= deadline) { trace("ep_timeout", n->idx, timeout, 0); return 0; }
    }
}
int sim_epoll_pwait(int epfd, struct epoll_event *out, int max, int timeout, const sigset_t *ss) { return sim_epoll_wait(epfd, out, max, timeout); }
static void nap(node_t *n, usec_t d) {
    n->waiting = 1; n->wait_until = now + d; n->in_suspend = 1;
    wake_at(n, now + d); co_yield(); n->in_suspend = 0; n->waiting = 0; run_signals(n);
}
int sim_usleep(useconds_t u) { nap(enter("usleep"), u); return 0; }
unsigned sim_sleep(unsigned s) { nap(enter("sleep"), s * SEC); return 0; }
int sim_nanosleep(const struct timespec *r, struct timespec *rem) { nap(enter("nanosleep"), r->tv_sec * SEC + r->tv_nsec / 1000); return 0; }
int sim_clock_nanosleep(int c, int fl, const struct timespec *r, struct timespec *rem) {
    node_t *n = enter("clock_nanosleep"); usec_t d = r->tv_sec * SEC + r->tv_nsec / 1000;
    if (fl) { extern int sim_clock_gettime(clockid_t, struct timespec *); struct timespec t; sim_clock_gettime(c, &t); d -= t.tv_sec * SEC + t.tv_nsec / 1000; }
    if (d > 0) nap(n, d);
    return 0;
}
/* waiting for descriptors without an event set: looked at once per millisecond */
static int do_poll(node_t *n, struct pollfd *p, unsigned long c, usec_t deadline) {
    for (;;) {
        int got = 0;
        for (unsigned long i = 0; i < c; i++) {
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            if (p[i].fd >= MAXFD || n->fds[p[i].fd].kind == FD_NONE) p[i].revents = POLLNVAL;
            else if (n->fds[p[i].fd].kind == FD_SOCK) p[i].revents = sock_pollmask(n->fds[p[i].fd].s) & (p[i].events | POLLERR | POLLHUP);
            else p[i].revents = p[i].events & (POLLIN | POLLOUT);
            if (p[i].revents) got++;
        }
        if (got || now >= deadline) return got;
        if (n->sigpend & ~n->sigmask) { run_signals(n); return seterr(EINTR); }
        nap(n, deadline - now < MS ? deadline - now : MS);
    }
}
int sim_poll(struct pollfd *p, unsigned long c, int ms) { node_t *n = enter("poll"); return do_poll(n, p, c, ms < 0 ? NEVER : now + (usec_t)ms * MS); }
int sim_ppoll(struct pollfd *p, unsigned long c, const struct timespec *t, const sigset_t *m) { node_t *n = enter("ppoll"); return do_poll(n, p, c, !t ? NEVER : now + t->tv_sec * SEC + t->tv_nsec / 1000); }
static int do_select(node_t *n, int c, fd_set *r, fd_set *w, usec_t deadline) {
    struct pollfd p[1024]; int k = 0, got = 0;
    for (int i = 0; i < c && i < 1024; i++) {
        int e = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0);
        if (e) { p[k].fd = i; p[k++].events = e; }
    }
    if (do_poll(n, p, k, deadline) < 0) return -1;
    for (int i = 0; i < k; i++) if (p[i].revents & POLLNVAL) { badfd(n, "select", p[i].fd); return seterr(EBADF); }
    for (int i = 0; i < k; i++) {
        if (p[i].events & POLLIN) { if (p[i].revents & (POLLIN | POLLERR | POLLHUP)) got++; else FD_CLR(p[i].fd, r); }
        if (p[i].events & POLLOUT) { if (p[i].revents & (POLLOUT | POLLERR)) got++; else FD_CLR(p[i].fd, w); }
    }
    return got;
}
int sim_select(int c, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) { node_t *n = enter("select"); if (x) FD_ZERO(x); return do_select(n, c, r, w, !t ? NEVER : now + t->tv_sec * SEC + t->tv_usec); }
int sim_pselect(int c, fd_set *r, fd_set *w, fd_set *x, const struct timespec *t, const sigset_t *m) { node_t *n = enter("pselect"); if (x) FD_ZERO(x); return do_select(n, c, r, w, !t ? NEVER : now + t->tv_sec * SEC + t->tv_nsec / 1000); }

/* ---------------- files ---------------- */
static int is_log(const char *p) { return strstr(p, "/logs/log_") != NULL; }
int sim_open(const char *path, int flags, ...) {
    node_t *n = enter("open"); preempt(n);
    int mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    char rp[512]; int e = vfs_resolve(cur->root, path, rp, sizeof rp);
    trace("open", n->idx, flags, (int64_t)strlen(path));
    if (e) { if (open_hook) open_hook(n, path, 0); return seterr(e); }
    if (hard(prof.open_fail) || nth_call()) { fault(F_OPEN_FAIL); static const int es[] = { EMFILE, ENFILE, EIO, ENOMEM }; return seterr(es[choose(4)]); }
    file_t *f = vfs_find(rp);
    if (!f && (flags & O_CREAT)) {
        char dir[512]; snprintf(dir, sizeof dir, "%s", rp); char *sl = strrchr(dir, '/'); if (sl) *sl = 0;
        if (strlen(dir) > strlen(n->root) && !vfs_find(dir)) return seterr(ENOENT);
        f = vfs_put(rp, "", 0, mode);
    }
    if (open_hook) open_hook(n, rp + strlen(n->root), f != NULL);
    if (!f) return seterr(ENOENT);
    if (f->isdir && (flags & O_ACCMODE) != O_RDONLY) return seterr(EISDIR);
    if (!(f->mode & 0400) && (flags & O_ACCMODE) != O_WRONLY && f->mode != 0) { }
    if (!(f->mode & 0444)) return seterr(EACCES);
    int fd = fd_alloc(n); if (fd < 0) return -1;
    if (flags & O_TRUNC) f->n = 0;
    n->fds[fd].kind = FD_FILE; n->fds[fd].f = f; n->fds[fd].off = 0; n->fds[fd].flags = flags;
    f->refs++;
    return fd;
}
int sim_openat(int d, const char *path, int flags, ...) { return sim_open(path, flags, 0644); }
static ssize_t file_read(node_t *n, fdent_t *f, void *b, size_t len, int64_t off, int adv) {
    if (f->f->isdir) return seterr(EISDIR);
    if (flt(prof.read_eintr)) { fault(F_EINTR); return seterr(EINTR); }
    if (hard(prof.read_err) || nth_call()) { fault(F_READ_ERR); return seterr(EIO); }
    int64_t left = f->f->n - off; if (left < 0) left = 0;
    size_t k = (size_t)left < len ? (size_t)left : len;
    if (k > 1 && flt(prof.read_short)) { fault(F_READ_SHORT); k = 1 + choose((uint32_t)(k - 1)); }
    memcpy(b, f->f->data + off, k);
    if (adv) f->off += k;
    trace("fread", n->idx, (int64_t)k, off);
    return (ssize_t)k;
}
ssize_t sim_read(int fd, void *b, size_t len) {
    node_t *n = enter("read"); preempt(n); fdent_t *f = getfd(n, fd, "read"); if (!f) return -1;
    if (f->kind == FD_SOCK) return do_recv(n, f->s, b, len, 0);
    if (f->kind != FD_FILE) return 0;
    return file_read(n, f, b, len, f->off, 1);
}
ssize_t sim_pread(int fd, void *b, size_t len, off_t off) {
    node_t *n = enter("pread"); fdent_t *f = getfd(n, fd, "pread"); if (!f) return -1;
    if (f->kind != FD_FILE) return seterr(ESPIPE);
    return file_read(n, f, b, len, off, 0);
}
static ssize_t file_write(node_t *n, fdent_t *f, const void *b, size_t len) {
    if (f->kind == FD_STD) {
        if (verbose > 2) fprintf(stderr, "             [%s] %.*s", n->name, (int)len, (const char *)b);
        if (log_hook) log_hook(n, "<stdout>", b, (int)len);
        if (flt(prof.log_err)) { fault(F_WRITE_ERR); return seterr(choose(2) ? EAGAIN : EPIPE); }
        return (ssize_t)len;
    }
    if (is_log(f->f->path)) {
        n->log_lines++;
        if (verbose) note("%s log: %.*s", n->name, (int)len - (len > 0 && ((const char *)b)[len - 1] == '\n'), (const char *)b);
        if (log_hook) log_hook(n, f->f->path + 2, b, (int)len);
        if (flt(prof.log_err)) { fault(F_WRITE_ERR); return seterr(choose(2) ? EIO : EINTR); }
        if (flt(prof.log_full)) { fault(F_DISK_FULL); return seterr(ENOSPC); }
        if (len > 1 && flt(prof.log_short)) { fault(F_WRITE_SHORT); return 1 + choose((uint32_t)(len - 1)); }
        return (ssize_t)len;
    }
    if (nth_call()) { fault(F_WRITE_ERR); return seterr(ENOSPC); }
    if (len > 1 && hard(prof.write_torn)) { fault(F_WRITE_SHORT); len = 1 + choose((uint32_t)(len - 1)); }
    file_t *v = f->f;
    if (f->flags & O_APPEND) f->off = v->n;
    if (f->off + (int64_t)len > v->alloc) { v->alloc = (int)(f->off + len) * 2 + 16; v->data = realloc(v->data, v->alloc); }
    memcpy(v->data + f->off, b, len); f->off += len; if (f->off > v->n) v->n = (int)f->off;
    return (ssize_t)len;
}
ssize_t sim_write(int fd, const void *b, size_t len) {
    node_t *n = enter("write"); fdent_t *f = getfd(n, fd, "write"); if (!f) return -1;
    if (f->kind == FD_SOCK) return do_send(n, f->s, b, len, 0);
    if (f->kind == FD_EPOLL) return seterr(EINVAL);
    return file_write(n, f, b, len);
}
ssize_t sim_writev(int fd, const struct iovec *v, int c) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
ssize_t sim_sendfile(int out, int in, off_t *off, size_t len) {
    extern ssize_t sim_pread(int, void *, size_t, off_t); extern off_t sim_lseek(int, off_t, int);
    static char b[65536]; if (len > sizeof b) len = sizeof b;
    off_t at = off ? *off : sim_lseek(in, 0, SEEK_CUR);
    ssize_t r = sim_pread(in, b, len, at); if (r <= 0) return r;
    r = sim_write(out, b, r); if (r <= 0) return r;
    if (off) *off += r; else sim_lseek(in, at + r, SEEK_SET);
    return r;
}
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) { return sim_writev(fd, m->msg_iov, (int)m->msg_iovlen); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
off_t sim_lseek(int fd, off_t o, int wh) {
    node_t *n = enter("lseek"); fdent_t *f = getfd(n, fd, "lseek"); if (!f) return -1;
    if (f->kind != FD_FILE) return seterr(ESPIPE);
    f->off = wh == SEEK_SET ? o : wh == SEEK_CUR ? f->off + o : f->f->n + o; return f->off;
}
int sim_close(int fd) {
    node_t *n = enter("close"); preempt(n); fdent_t *f = getfd(n, fd, "close"); if (!f) return -1;
    if (f->kind == FD_STD) { trace("close_std", fd, 0, 0); return 0; }
    trace("closefd", n->idx, fd, 0);
    if (f->kind == FD_SOCK && f->s->rderr_done == 2) { ep_remove(f->s); sock_abort(f->s); }
    fd_drop(n, fd);
    return 0;
}
static void fill_stat(file_t *f, struct stat *st) {
    memset(st, 0, sizeof *st); st->st_mode = (f->isdir ? S_IFDIR : S_IFREG) | f->mode; st->st_size = f->n; st->st_nlink = 1; st->st_blksize = 4096;
}
int sim_stat(const char *path, struct stat *st) {
    preempt(enter("stat")); char rp[512]; int e = vfs_resolve(cur->root, path, rp, sizeof rp); if (e) return seterr(e);
    file_t *f = vfs_find(rp); if (!f) return seterr(ENOENT);
    if (nth_call()) { fault(F_OPEN_FAIL); return seterr(EIO); }
    fill_stat(f, st); return 0;
}
int sim_lstat(const char *path, struct stat *st) { return sim_stat(path, st); }
int sim_fstat(int fd, struct stat *st) {
    node_t *n = enter("fstat"); fdent_t *f = getfd(n, fd, "fstat"); if (!f) return -1;
    if (f->kind == FD_FILE) { fill_stat(f->f, st); return 0; }
    memset(st, 0, sizeof *st); st->st_mode = f->kind == FD_SOCK ? S_IFSOCK : S_IFCHR; return 0;
}
int sim_access(const char *path, int m) {
    enter("access"); char rp[512]; int e = vfs_resolve(cur->root, path, rp, sizeof rp); if (e) return seterr(e);
    file_t *f = vfs_find(rp); if (!f) return seterr(ENOENT);
    return (m & R_OK) && !(f->mode & 0444) ? seterr(EACCES) : 0;
}
int sim_unlink(const char *path) {
    node_t *n = enter("unlink"); char rp[512]; int e = vfs_resolve(cur->root, path, rp, sizeof rp); if (e) return seterr(e);
    trace("unlink", n->idx, 0, 0); note("%s unlinks %s", n->name, rp);
    if (!vfs_find(rp)) return seterr(ENOENT);
    vfs_unlink(rp); return 0;
}
int sim_mkdir(const char *path, mode_t m) { enter("mkdir"); char rp[512]; int e = vfs_resolve(cur->root, path, rp, sizeof rp); if (e) return seterr(e); if (vfs_find(rp)) return seterr(EEXIST); vfs_mkdir(rp); return 0; }
int sim_rename(const char *a, const char *b) {
    enter("rename"); char ra[512], rb[512]; int e = vfs_resolve(cur->root, a, ra, sizeof ra); if (!e) e = vfs_resolve(cur->root, b, rb, sizeof rb); if (e) return seterr(e);
    file_t *f = vfs_find(ra); if (!f) return seterr(ENOENT); vfs_unlink(rb); snprintf(f->path, sizeof f->path, "%s", rb); return 0;
}
char *sim_realpath(const char *path, char *out) {
    enter("realpath"); char rp[512]; int e = vfs_resolve(cur->root, path, rp, sizeof rp); if (e) { errno = e; return NULL; }
    if (!vfs_find(rp)) { errno = ENOENT; return NULL; }
    extern void *sim_malloc(size_t);
    if (!out) out = sim_malloc(4096);
    if (out) strcpy(out, rp + strlen(cur->root));
    return out;
}
int sim_dup(int fd) { enter("dup"); return seterr(EMFILE); }
int sim_dup2(int a, int b) { node_t *n = enter("dup2"); return getfd(n, a, "dup2") ? b : -1; }
/* files opened by OpenSSL on behalf of a node */
FILE *fopen(const char *path, const char *mode) {
    static FILE *(*real)(const char *, const char *);
    if (!real) real = (FILE * (*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
    if (!cur) return real(path, mode);
    node_t *n = enter("fopen");
    char rp[512]; int e = vfs_resolve(cur->root, path, rp, sizeof rp); if (e) { errno = e; return NULL; }
    if (hard(prof.open_fail) || nth_call()) { fault(F_OPEN_FAIL); errno = EMFILE; return NULL; }
    int fd = fd_alloc(n); if (fd < 0) return NULL;
    file_t *f = vfs_find(rp); if (!f || f->isdir) { errno = ENOENT; return NULL; }
    if (!(f->mode & 0444)) { errno = EACCES; return NULL; }
    if (f->n == 0) return real("/dev/null", "r");
    return fmemopen(f->data, f->n, "r");
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
/* a node's own use of stdio: the stream sits on a simulated descriptor */
extern int sim_close(int);
static ssize_t ck_read(void *c, char *b, size_t n) { ssize_t r; do r = sim_read((int)(intptr_t)c, b, n); while (r < 0 && errno == EINTR); return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = sim_write((int)(intptr_t)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = sim_lseek((int)(intptr_t)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return sim_close((int)(intptr_t)c); }
static struct { FILE *f; int fd; } streams[64];
static FILE *on_fd(int fd, const char *mode) {
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *o = fopencookie((void *)(intptr_t)fd, mode, io);
    for (int i = 0; o && i < 64; i++) if (!streams[i].f || streams[i].f == o || i == 63) { streams[i].f = o; streams[i].fd = fd; break; }
    return o;
}
int sim_fileno(FILE *o) {
    if (o == stdin || o == stdout || o == stderr) return o == stdin ? 0 : o == stdout ? 1 : 2;
    for (int i = 0; i < 64; i++) if (streams[i].f == o) return streams[i].fd;
    return seterr(EBADF);
}
FILE *sim_fopen(const char *path, const char *mode) {
    int plus = strchr(mode, '+') != NULL, fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
    int fd = sim_open(path, fl, 0644);
    return fd < 0 ? NULL : on_fd(fd, mode);
}
FILE *sim_fopen64(const char *path, const char *mode) { return sim_fopen(path, mode); }
FILE *sim_fdopen(int fd, const char *mode) { node_t *n = enter("fdopen"); return getfd(n, fd, "fdopen") ? on_fd(fd, mode) : NULL; }
int sim_open64(const char *path, int flags, ...) { return sim_open(path, flags, 0644); }
int sim_creat(const char *path, mode_t m) { return sim_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int sim_remove(const char *path) { return sim_unlink(path); }
int sim_ftruncate(int fd, off_t len) {
    node_t *n = enter("ftruncate"); fdent_t *f = getfd(n, fd, "ftruncate"); if (!f) return -1;
    if (f->kind != FD_FILE) return seterr(EINVAL);
    file_t *v = f->f; if (len > v->n) { if (len > v->alloc) { v->alloc = (int)len + 16; v->data = realloc(v->data, v->alloc); } memset(v->data + v->n, 0, len - v->n); }
    v->n = (int)len; return 0;
}
int sim_fsync(int fd) { node_t *n = enter("fsync"); return getfd(n, fd, "fsync") ? 0 : -1; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
ssize_t sim_pwrite(int fd, const void *b, size_t len, off_t off) {
    node_t *n = enter("pwrite"); fdent_t *f = getfd(n, fd, "pwrite"); if (!f) return -1;
    if (f->kind != FD_FILE) return seterr(ESPIPE);
    int64_t o = f->off; f->off = off; ssize_t r = file_write(n, f, b, len); f->off = o; return r;
}
ssize_t sim_recvmsg(int fd, struct msghdr *m, int fl) {
    if (m->msg_name) {
        socklen_t l = m->msg_namelen; ssize_t r = sim_recvfrom(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, m->msg_name, &l);
        if (r >= 0) m->msg_namelen = l; m->msg_flags = 0; return r;
    }
    m->msg_flags = 0; return sim_readv(fd, m->msg_iov, (int)m->msg_iovlen);
}
int sim_vdprintf(int fd, const char *f, va_list a) { char b[8192]; int n = vsnprintf(b, sizeof b, f, a); if (n >= (int)sizeof b) n = sizeof b - 1; return (int)sim_write(fd, b, n); }
int sim_dprintf(int fd, const char *f, ...) { va_list a; va_start(a, f); int r = sim_vdprintf(fd, f, a); va_end(a); return r; }

/* ---------------- time ---------------- */
int sim_gettimeofday(struct timeval *tv, void *tz) { enter("gettimeofday"); usec_t w = wall_offset + now; tv->tv_sec = w / SEC; tv->tv_usec = w % SEC; return 0; }
time_t sim_time(time_t *t) { usec_t w = wall_offset + now; if (t) *t = w / SEC; return w / SEC; }
time_t time(time_t *t) { return sim_time(t); }         /* also used by OpenSSL */
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
    enter("clock_gettime");
    usec_t w = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_offset + now : uptime0 + now;
    ts->tv_sec = w / SEC; ts->tv_nsec = (w % SEC) * 1000; return 0;
}
struct tm *sim_localtime_r(const time_t *t, struct tm *tm) { return gmtime_r(t, tm); }
struct tm *sim_localtime(const time_t *t) { return gmtime(t); }

/* ---------------- randomness ---------------- */
int sim_rand(void) { unsigned v; rand_bytes(&v, 4); return v & 0x7fffffff; }
long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned s) { }
void sim_srandom(unsigned s) { }
ssize_t sim_getrandom(void *b, size_t n, unsigned f) { rand_bytes(b, (int)n); return (ssize_t)n; }

/* ---------------- memory ---------------- */
#define NALLOC (1 << 18)
static struct { void *p; size_t n; uint8_t node; void *site; } amap[NALLOC];
static unsigned ahash(void *p) { return (unsigned)(mix64((uintptr_t)p) & (NALLOC - 1)); }
static void amap_add(void *p, size_t n, void *site) {
    unsigned h = ahash(p); int guard = 0;
    while (amap[h].p && amap[h].p != (void *)1) { h = (h + 1) & (NALLOC - 1); if (++guard == NALLOC) sim_error("allocation map full"); }
    amap[h].p = p; amap[h].n = n; amap[h].node = (uint8_t)cur->idx; amap[h].site = site;
    cur->live_allocs++; cur->live_bytes += (long)n;
}
static int amap_del(void *p) {
    unsigned h = ahash(p);
    while (amap[h].p) {
        if (amap[h].p == p) { nodes[amap[h].node].live_allocs--; nodes[amap[h].node].live_bytes -= (long)amap[h].n; amap[h].p = (void *)1; return 1; }
        h = (h + 1) & (NALLOC - 1);
    }
    return 0;
}
void print_allocs(node_t *n) {
    for (int i = 0; i < NALLOC; i++) if (amap[i].p && amap[i].p != (void *)1 && amap[i].node == n->idx)
        fprintf(stderr, "  live %zu bytes from %p\n", amap[i].n, amap[i].site);
}
static int mfail(void) {
    if (!prof.faults_on || !cur) return 0;
    if (nth_call()) { fault(F_MALLOC_FAIL); return 1; }
    if (prof.malloc_nth) {
        if (--prof.malloc_nth <= 0) {
            if (prof.malloc_run > 1) { prof.malloc_run--; prof.malloc_nth = 1; } else prof.malloc_nth = 0;
            hard_faults++; fault(F_MALLOC_FAIL); return 1;
        }
    }
    if (hard(prof.malloc_fail)) { fault(F_MALLOC_FAIL); return 1; }
    return 0;
}
void *sim_malloc(size_t n) {
    enter("malloc");
    if (mfail()) { errno = ENOMEM; return NULL; }
    void *p = malloc(n); if (p) amap_add(p, n, __builtin_return_address(0)); return p;
}
void *sim_calloc(size_t a, size_t b) {
    enter("malloc");
    if (mfail()) { errno = ENOMEM; return NULL; }
    void *p = calloc(a, b); if (p) amap_add(p, a * b, __builtin_return_address(0)); return p;
}
void sim_free(void *p) { enter("free"); if (!p) return; amap_del(p); free(p); }
void *sim_realloc(void *q, size_t n) {
    enter("malloc");
    if (mfail()) { errno = ENOMEM; return NULL; }
    if (q) amap_del(q);
    void *p = realloc(q, n); if (p) amap_add(p, n, __builtin_return_address(0)); return p;
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

/* ---------------- console ---------------- */
int sim_printf(const char *f, ...) { return 0; }
int sim_vprintf(const char *f, va_list a) { return 0; }
int sim_puts(const char *s) { return 0; }
int sim_putchar(int c) { return c; }
static int console(FILE *o) { return !o || o == stdout || o == stderr; }
int sim_vfprintf(FILE *o, const char *f, va_list a) { return console(o) ? 0 : vfprintf(o, f, a); }
int sim_fprintf(FILE *o, const char *f, ...) { va_list a; va_start(a, f); int r = sim_vfprintf(o, f, a); va_end(a); return r; }
int sim_fputs(const char *s, FILE *o) { return console(o) ? 0 : fputs(s, o); }
int sim_fputc(int c, FILE *o) { return console(o) ? c : fputc(c, o); }
int sim_putc(int c, FILE *o) { return sim_fputc(c, o); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *o) { return console(o) ? b : fwrite(p, a, b, o); }
int sim_fflush(FILE *o) { return console(o) ? 0 : fflush(o); }
void sim_perror(const char *s) { }

/* ---------------- processes and signals ---------------- */
__attribute__((noreturn)) void sim_abort(void) { violate("crash", "%s called abort()", cur->name); }
__attribute__((noreturn)) void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    violate("crash", "%s: assertion `%s' failed in %s", cur->name, e, fn);
}
__attribute__((noreturn)) void sim__exit(int c) { sim_exit(c); }
pid_t sim_getpid(void) { return cur->pid; }
pid_t sim_getppid(void) { return 1; }
int sim_setpriority(int a, unsigned b, int c) { return 0; }
pid_t sim_setsid(void) { return cur->pid; }
mode_t sim_umask(mode_t m) { return 022; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    int r = pthread_mutex_trylock(m);
    if (r == EBUSY) violate("hang", "%s locks a mutex it already holds", cur ? cur->name : "?");
    return r;
}
pid_t sim_fork(void) {
    node_t *n = enter("fork"); if (!fork_hook) return seterr(ENOSYS);
    int r = fork_hook(n), e = errno;
    run_signals(n);          /* the new process may already have ended */
    errno = e; return r;
}
int sim_kill(pid_t p, int sg) { node_t *n = enter("kill"); if (kill_hook) { int r = kill_hook(n, p, sg); return r ? seterr(r) : 0; } return seterr(ESRCH); }
static void alarm_go(void *a) { node_t *n = a; n->alarm_ev = NULL; node_signal(n, SIGALRM); }
unsigned sim_alarm(unsigned sec) { node_t *n = enter("alarm"); if (n->alarm_ev) cancel(n->alarm_ev); n->alarm_ev = sec ? after(sec * SEC, alarm_go, n) : NULL; return 0; }
int sim_raise(int sg) { node_signal(cur, sg); run_signals(cur); return 0; }
pid_t sim_waitpid(pid_t p, int *st, int opt) { node_t *n = enter("waitpid"); preempt(n); if (waitpid_hook) return waitpid_hook(n, p, st, opt); return seterr(ECHILD); }
pid_t sim_wait3(int *st, int opt, void *ru) { return sim_waitpid(-1, st, opt); }
pid_t sim_wait4(pid_t p, int *st, int opt, void *ru) { return sim_waitpid(p, st, opt); }
pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
int sim_sigaction(int sg, const struct sigaction *sa, struct sigaction *old) {
    node_t *n = enter("sigaction");
    if (old) { memset(old, 0, sizeof *old); old->sa_handler = n->sigh[sg]; }
    if (sa) { n->sigh[sg] = sa->sa_handler; n->sigflags[sg] = sa->sa_flags; }
    return 0;
}
typedef void (*sigh_t)(int);
sigh_t sim_signal(int sg, sigh_t h) { node_t *n = enter("signal"); sigh_t o = n->sigh[sg]; n->sigh[sg] = h; return o; }
static uint64_t setbits(const sigset_t *s) { uint64_t m = 0; for (int i = 1; i < 65; i++) if (sigismember(s, i) == 1) m |= 1ULL << (i - 1); return m; }
int sim_sigprocmask(int how, const sigset_t *set, sigset_t *old) {
    node_t *n = enter("sigprocmask");
    if (old) { sigemptyset(old); for (int i = 1; i < 65; i++) if (n->sigmask >> (i - 1) & 1) sigaddset(old, i); }
    if (set) {
        uint64_t m = setbits(set);
        if (how == SIG_BLOCK) n->sigmask |= m; else if (how == SIG_UNBLOCK) n->sigmask &= ~m; else n->sigmask = m;
        run_signals(n);
    }
    return 0;
}
int sim_pthread_sigmask(int how, const sigset_t *set, sigset_t *old) { return sim_sigprocmask(how, set, old); }
int sim_sigsuspend(const sigset_t *set) {
    node_t *n = enter("sigsuspend");
    uint64_t old = n->sigmask;
    n->sigmask = setbits(set);
    while (!run_signals(n)) {
        n->waiting = 1; n->in_suspend = 1; n->wait_until = NEVER;
        if (suspend_hook) suspend_hook(n);
        co_yield();
        n->in_suspend = 0; n->waiting = 0;
    }
    n->sigmask = old;
    return seterr(EINTR);
}
static int sig_take(node_t *n, const sigset_t *set, usec_t deadline) {
    uint64_t m = setbits(set);
    for (;;) {
        for (int sg = 1; sg < 65; sg++) if (n->sigpend & m & 1ULL << (sg - 1)) { n->sigpend &= ~(1ULL << (sg - 1)); trace("sigtake", n->idx, sg, 0); return sg; }
        if (run_signals(n)) return seterr(EINTR);
        if (now >= deadline) return seterr(EAGAIN);
        uint64_t old = n->sigmask; n->sigmask &= ~m;      /* these end the wait too */
        n->waiting = n->in_suspend = 1; n->wait_until = deadline;
        if (deadline < NEVER) wake_at(n, deadline);
        if (suspend_hook) suspend_hook(n);
        if (!(n->sigpend & ~n->sigmask)) co_yield();
        n->in_suspend = n->waiting = 0; n->sigmask = old;
    }
}
int sim_sigwaitinfo(const sigset_t *set, siginfo_t *si) { node_t *n = enter("sigwaitinfo"); int sg = sig_take(n, set, NEVER); if (si && sg > 0) { memset(si, 0, sizeof *si); si->si_signo = sg; } return sg; }
int sim_sigtimedwait(const sigset_t *set, siginfo_t *si, const struct timespec *t) { node_t *n = enter("sigtimedwait"); int sg = sig_take(n, set, t ? now + t->tv_sec * SEC + t->tv_nsec / 1000 : NEVER); if (si && sg > 0) { memset(si, 0, sizeof *si); si->si_signo = sg; } return sg; }
int sim_sigwait(const sigset_t *set, int *out) { node_t *n = enter("sigwait"); int sg; do sg = sig_take(n, set, NEVER); while (sg < 0); *out = sg; return 0; }
int sim_pause(void) { node_t *n = enter("pause"); while (!run_signals(n)) { n->waiting = n->in_suspend = 1; n->wait_until = NEVER; co_yield(); n->in_suspend = n->waiting = 0; } return seterr(EINTR); }
/* deliver pending unblocked signals while the node's code is running (called from hooks) */
void node_preempt_signals(node_t *n) { if (n == cur) run_signals(n); }
void node_signal(node_t *n, int sg) {
    if (!n->running) return;
    trace("signal", n->idx, sg, 0);
    n->sigpend |= 1ULL << (sg - 1);
    if (n->waiting && n != cur) {
        uint64_t unblocked = n->sigpend & ~n->sigmask;
        if (unblocked) wake_at(n, now + wake_latency());
    }
}

/* ---------------- TLS objects of the nodes ---------------- */
static BIO_METHOD *bm;
static int bio_io(BIO *b, void *p, const void *q, int len) {
    intptr_t v = (intptr_t)BIO_get_data(b); int fd = (int)(v & 0xffff); node_t *n = &nodes[v >> 16];
    BIO_clear_retry_flags(b); BIO_clear_flags(b, BIO_FLAGS_IN_EOF);
    if (n != cur) sim_error("TLS object used outside its node");
    errno = 0;
    ssize_t r;
    enter(p ? "ssl-recv" : "ssl-send");
    sock_t *s = getsock(n, fd, p ? "TLS read" : "TLS write");
    r = !s ? -1 : p ? do_recv(n, s, p, len, 0) : do_send(n, s, q, len, 0);
    if (r <= 0) {
        if (r < 0 && (errno == EAGAIN || errno == EINTR)) BIO_set_flags(b, (p ? BIO_FLAGS_READ : BIO_FLAGS_WRITE) | BIO_FLAGS_SHOULD_RETRY);
        else if (r == 0) BIO_set_flags(b, BIO_FLAGS_IN_EOF);
    }
    return (int)r;
}
static int bio_read(BIO *b, char *p, int n) { return bio_io(b, p, NULL, n); }
static int bio_write(BIO *b, const char *p, int n) { return bio_io(b, NULL, p, n); }
static long bio_ctrl(BIO *b, int cmd, long num, void *ptr) {
    switch (cmd) {
    case BIO_CTRL_EOF: return BIO_test_flags(b, BIO_FLAGS_IN_EOF) != 0;
    case BIO_CTRL_FLUSH: case BIO_CTRL_DUP: return 1;
    case BIO_C_GET_FD: if (ptr) *(int *)ptr = (int)((intptr_t)BIO_get_data(b) & 0xffff); return (intptr_t)BIO_get_data(b) & 0xffff;
    case BIO_CTRL_GET_CLOSE: return BIO_get_shutdown(b);
    case BIO_CTRL_SET_CLOSE: BIO_set_shutdown(b, (int)num); return 1;
    }
    return 0;
}
static int bio_create(BIO *b) { BIO_set_init(b, 1); return 1; }
BIO *sim_BIO_new_socket(int fd, int close) {
    if (!bm) {
        bm = BIO_meth_new(BIO_TYPE_SOCKET, "sim");
        BIO_meth_set_read(bm, bio_read); BIO_meth_set_write(bm, bio_write); BIO_meth_set_ctrl(bm, bio_ctrl); BIO_meth_set_create(bm, bio_create);
    }
    BIO *b = BIO_new(bm); if (!b) return NULL;
    BIO_set_data(b, (void *)(intptr_t)((cur->idx << 16) | fd)); BIO_set_shutdown(b, close);
    return b;
}
int sim_SSL_set_fd(SSL *ssl, int fd) { BIO *b = sim_BIO_new_socket(fd, 0); if (!b) return 0; SSL_set_bio(ssl, b, b); return 1; }
int sim_SSL_set_rfd(SSL *ssl, int fd) { BIO *b = sim_BIO_new_socket(fd, 0); if (!b) return 0; SSL_set0_rbio(ssl, b); return 1; }
int sim_SSL_set_wfd(SSL *ssl, int fd) { BIO *b = sim_BIO_new_socket(fd, 0); if (!b) return 0; SSL_set0_wbio(ssl, b); return 1; }
int sim_SSL_read(SSL *s, void *b, int k) { preempt(enter("SSL_read")); return SSL_read(s, b, k); }
int sim_SSL_write(SSL *s, const void *b, int k) { preempt(enter("SSL_write")); return SSL_write(s, b, k); }
int sim_SSL_do_handshake(SSL *s) { preempt(enter("SSL_do_handshake")); return SSL_do_handshake(s); }
int sim_SSL_shutdown(SSL *s) { preempt(enter("SSL_shutdown")); return SSL_shutdown(s); }
SSL *sim_SSL_new(SSL_CTX *c) { enter("SSL_new"); if (mfail()) return NULL; SSL *s = SSL_new(c); if (s) cur->live_ssl++; return s; }
void sim_SSL_free(SSL *s) { enter("SSL_free"); if (s) cur->live_ssl--; SSL_free(s); }
int sim_SSL_accept(SSL *s) { preempt(enter("SSL_do_handshake")); return SSL_accept(s); }
int sim_SSL_connect(SSL *s) { preempt(enter("SSL_do_handshake")); return SSL_connect(s); }
int sim_SSL_peek(SSL *s, void *b, int k) { preempt(enter("SSL_read")); return SSL_peek(s, b, k); }
int sim_SSL_read_ex(SSL *s, void *b, size_t k, size_t *r) { preempt(enter("SSL_read")); return SSL_read_ex(s, b, k, r); }
int sim_SSL_write_ex(SSL *s, const void *b, size_t k, size_t *r) { preempt(enter("SSL_write")); return SSL_write_ex(s, b, k, r); }
BIO *sim_BIO_new_fd(int fd, int close) { return sim_BIO_new_socket(fd, close); }

/* ---------------- other names of the same calls ---------------- */
int sim_stat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_lstat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
off_t sim_lseek64(int fd, off_t o, int wh) { return sim_lseek(fd, o, wh); }
ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return sim_pread(fd, b, n, o); }
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t o) { return sim_pwrite(fd, b, n, o); }
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_creat64(const char *p, mode_t m) { return sim_creat(p, m); }
ssize_t sim_sendfile64(int o, int i, off_t *off, size_t n) { return sim_sendfile(o, i, off, n); }
int sim_openat64(int d, const char *p, int fl, ...) { return sim_open(p, fl, 0644); }
int sim_fstatat(int d, const char *p, struct stat *st, int fl) { return sim_stat(p, st); }
int sim_faccessat(int d, const char *p, int m, int fl) { return sim_access(p, m); }
int sim_unlinkat(int d, const char *p, int fl) { return sim_unlink(p); }
int sim_renameat(int a, const char *p, int b, const char *q) { return sim_rename(p, q); }
int sim_mkdirat(int d, const char *p, mode_t m) { return sim_mkdir(p, m); }
int sim_truncate(const char *p, off_t n) { int fd = sim_open(p, O_WRONLY), r; if (fd < 0) return -1; r = sim_ftruncate(fd, n); sim_close(fd); return r; }
int sim_chmod(const char *p, mode_t m) { enter("chmod"); char rp[512]; int e = vfs_resolve(cur->root, p, rp, sizeof rp); if (e) return seterr(e); file_t *f = vfs_find(rp); if (!f) return seterr(ENOENT); f->mode = m & 0777; return 0; }
int sim_fchmod(int fd, mode_t m) { node_t *n = enter("fchmod"); fdent_t *f = getfd(n, fd, "fchmod"); if (!f) return -1; if (f->kind == FD_FILE) f->f->mode = m & 0777; return 0; }
int sim_chdir(const char *p) { enter("chdir"); return 0; }
ssize_t sim_preadv(int fd, const struct iovec *v, int c, off_t o) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_pread(fd, v[i].iov_base, v[i].iov_len, o + t); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return NULL; } return sim_realloc(p, a * b); }
int sim_posix_memalign(void **o, size_t al, size_t n) {
    enter("malloc"); if (mfail()) return ENOMEM;
    void *p; int r = posix_memalign(&p, al, n); if (r) return r;
    amap_add(p, n, __builtin_return_address(0)); *o = p; return 0;
}
void *sim_aligned_alloc(size_t al, size_t n) { void *p; int r = sim_posix_memalign(&p, al < sizeof p ? sizeof p : al, n); if (r) { errno = r; return NULL; } return p; }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
void *sim_valloc(size_t n) { return sim_aligned_alloc(4096, n); }
int sim_vasprintf(char **o, const char *f, va_list a) {
    va_list b; va_copy(b, a); int n = vsnprintf(NULL, 0, f, b); va_end(b);
    char *p = sim_malloc(n + 1); if (!p) { *o = NULL; return -1; }
    *o = p; return vsnprintf(p, n + 1, f, a);
}
int sim_asprintf(char **o, const char *f, ...) { va_list a; va_start(a, f); int r = sim_vasprintf(o, f, a); va_end(a); return r; }
int sim_dup3(int a, int b, int fl) { return sim_dup2(a, b); }
