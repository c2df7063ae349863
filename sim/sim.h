/* Deterministic simulator: shared declarations. */
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stddef.h>
#include <errno.h>
#include <signal.h>
#include <sys/epoll.h>

typedef int64_t usec_t;
#define MS 1000LL
#define SEC 1000000LL
#define NEVER (INT64_MAX / 4)

/* ---------- choices, time, events (core.c) ---------- */
extern usec_t now;               /* elapsed simulated time */
extern usec_t uptime0;           /* elapsed time of the machine at the start */
extern usec_t wall_offset;       /* wall clock minus elapsed time */
extern int verbose;

uint32_t choose(uint32_t n);                 /* 0..n-1; 0 is the benign value */
int chance(uint32_t permille);               /* true with probability permille/1000 */
uint32_t range(uint32_t lo, uint32_t hi);    /* lo..hi inclusive; lo is the benign value */
uint64_t skewed(uint32_t lo, uint32_t hi);   /* lo..hi, logarithmically distributed */
usec_t delay_us(usec_t lo, usec_t hi);       /* log distributed delay */
uint64_t mix64(uint64_t x);
void rand_bytes(void *buf, int n);           /* stream for OpenSSL; not part of the schedule */

typedef struct event event_t;
typedef void (*event_fn)(void *arg);
event_t *at(usec_t when, event_fn fn, void *arg);
event_t *after(usec_t d, event_fn fn, void *arg);
void cancel(event_t *e);
int run_one(void);                            /* run next event; 0 when none */

void trace(const char *kind, int64_t a, int64_t b, int64_t c);
void trace_data(const void *p, int n);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void violate(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void finish_ok(void) __attribute__((noreturn));
void state_sig(uint64_t h);                   /* record an abstract state for the coverage measure */

enum fault_kind {
    F_SEGMENT, F_DELAY, F_SMALLBUF, F_WAKE_LATENCY, F_BATCH_SHUFFLE, F_RST, F_PEER_FIN, F_CONN_REFUSED,
    F_CONN_BLACKHOLE, F_ACCEPT_ABORT, F_ACCEPT_EMFILE, F_EINTR, F_SOCKET_FAIL, F_EPOLL_FAIL, F_SOCKOPT_FAIL,
    F_MALLOC_FAIL, F_SSL_MALLOC_FAIL, F_OPEN_FAIL, F_READ_SHORT, F_READ_ERR, F_WRITE_SHORT, F_WRITE_ERR,
    F_DISK_FULL, F_DNS_LOSS, F_DNS_DUP, F_DNS_DELAY, F_DNS_MALFORMED, F_DNS_FOREIGN, F_CLOCK_STEP, F_STALL,
    F_CRASH, F_RESTART, F_FORK_FAIL, F_SIGNAL, F_GARBAGE, F_PEER_STALL, F_POOL_EXHAUST, F_FILE_DAMAGE, F_SYN_DROP,
    F_PARTITION, F_SEND_SHORT, F_PREEMPT, F_NKINDS
};
extern const char *fault_names[];
void fault(enum fault_kind k);

/* probes: named situations counted per run */
void probe(const char *name);
void nontrivial(void);                        /* the run really exercised what its property is about */
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* one-line description of the run */

/* run profile: which faults the shims may inject in this run (rates in permille) */
typedef struct {
    int eintr, accept_abort, accept_emfile, socket_fail, epoll_fail, sockopt_fail;
    int malloc_fail, ssl_malloc_fail, open_fail, read_short, read_err, read_eintr, write_torn;
    int log_short, log_err, log_full;
    int conn_immediate;
    int preempt;         /* the node loses the processor inside a handler: the world moves on between two of its calls */
    int send_short;      /* the kernel takes only part of what is sent although there is room */
    int syn_drop, backlog_limit;
    int seg_mode;        /* 0 whole buffers, 1 mixed, 2 tiny */
    int delay_mode;      /* 0 fast, 1 mixed, 2 slow */
    int buf_mode;        /* 0 large, 1 mixed, 2 small, 3 tiny, 4 huge */
    int wake_mode;       /* 0 immediate, 1 mixed, 2 long (batches) */
    int shuffle;
    int rst;             /* network resets an established flow */
    long malloc_nth;     /* fail the n-th allocation from arming (0: off) */
    int malloc_run;      /* how many consecutive allocations fail */
    long call_nth;       /* fail the n-th fallible call from arming */
    int call_run;
    int faults_on;       /* master switch: injected errors only when set */
} profile_t;
extern profile_t prof;
extern int dark_link;                     /* connects between the nodes are not answered */

/* ---------- sockets (vnet.c) ---------- */
typedef struct node node_t;
typedef struct sock sock_t;
typedef struct pipe_s pipe_t;
enum { S_FRESH, S_LISTEN, S_SYNSENT, S_ESTAB, S_DEAD };
enum { EVT_CONNECTED = 1, EVT_READ = 2, EVT_WRITE = 4, EVT_FAILED = 8 };

struct pipe_s {                 /* one direction of a TCP connection */
    sock_t *from, *to;
    unsigned char *sq; int sqn, sqoff, sqalloc;   /* accepted by sender, not arrived */
    unsigned char *rq; int rqn, rqoff, rqalloc;   /* arrived, not consumed */
    int sndcap, rcvcap;
    int fin_sent, fin_arrived, dead;
    int cap_override;
    event_t *pump;
    usec_t last_arrival;
    int64_t total_sent, total_arrived, total_read;
    int blocked;                                   /* partition: nothing moves */
};

struct sock {
    int kind;                    /* SOCK_STREAM / SOCK_DGRAM */
    int state;
    int id;
    node_t *node; int fd;        /* owner node, or NULL for simulated peers */
    uint32_t lip, rip; uint16_t lport, rport;   /* host order */
    pipe_t *tx, *rx;
    sock_t *peer;
    int err;                     /* pending socket error */
    int rst;                     /* connection was reset */
    int rderr_done;
    int nospace;
    int closed;                  /* owner closed it */
    int shut_wr;
    int nonblock;
    sock_t *backlog[256]; int nbacklog, backlog_max;
    event_t *conn_ev;
    int syn_tries;
    /* UDP */
    struct dgram *dq, *dqtail;
    /* simulated peer owner */
    void (*cb)(sock_t *s, int what, void *arg);
    void *arg;
    event_t *cb_ev; int cb_pending;
    /* epoll */
    struct epitem *ep;
    const char *role;
    usec_t established_at, closed_at;
    int wiretap;
    void *user;
    int eof_reported;
};
struct dgram { struct dgram *next; uint32_t ip; uint16_t port; int n; unsigned char data[1600]; };

sock_t *sock_new(int kind, node_t *owner);
int sock_connect(sock_t *s, uint32_t ip, uint16_t port);   /* 0, or errno */
sock_t *peer_connect(uint32_t lip, uint32_t ip, uint16_t port, void (*cb)(sock_t *, int, void *), void *arg, const char *role);
int sock_send(sock_t *s, const void *p, int n);   /* >=0, or -errno */
int sock_recv(sock_t *s, void *p, int n, int peek);
int sock_readable(sock_t *s);
void sock_close(sock_t *s);
void sock_abort(sock_t *s);                       /* reset by the owner */
void sock_shutdown_wr(sock_t *s);
void net_reset_flow(sock_t *s);                   /* network kills the flow, both ends see a reset */
int sock_pollmask(sock_t *s);
int sock_space(sock_t *s);
void udp_inject(sock_t *to, uint32_t fromip, uint16_t fromport, const void *p, int n);
void sock_wake(sock_t *s, int key);

/* who answers at an address: installed by scenarios */
enum { ANS_ACCEPT, ANS_REFUSE, ANS_BLACKHOLE, ANS_UNREACH };
typedef struct {
    int answer;
    usec_t delay;
    void (*cb)(sock_t *, int, void *);
    void *arg;
    const char *role;
} route_t;
extern void (*route_hook)(sock_t *from, uint32_t ip, uint16_t port, route_t *out);
extern void (*udp_hook)(sock_t *from, uint32_t ip, uint16_t port, const void *p, int n);
extern void (*wiretap_hook)(pipe_t *p, const unsigned char *data, int n);
extern void (*node_connect_hook)(sock_t *s);     /* a node started a TCP connect */

/* ---------- nodes (sys.c) ---------- */
#define MAXFD 4096
enum { FD_NONE, FD_SOCK, FD_EPOLL, FD_FILE, FD_STD };
struct file;
typedef struct { int kind; sock_t *s; struct file *f; struct epollset *ep; int64_t off; int flags; } fdent_t;

struct epitem {
    struct epollset *set; sock_t *s; uint32_t events; epoll_data_t data;
    int inready; struct epitem *next;            /* ready list */
    struct epitem *anext;                         /* all items */
};
struct epollset { struct epitem *ready, *readytail; struct epitem *all; node_t *node; };

struct node {
    const char *name;
    int idx;
    int (*entry)(int, char **);
    uint32_t ip;
    const char *root;             /* prefix of its files in the virtual file system */
    fdent_t fds[MAXFD];
    int nfds, fdlimit;
    int running, started, exited, exit_code;
    int crashed;
    int pid;
    struct co *co;
    int waiting;                  /* inside a blocking call */
    struct epollset *wait_ep;
    usec_t wait_until;
    event_t *wake_ev;
    usec_t wake_at;
    uint64_t edges_at_resume;
    long calls_since_wait;
    long waits;
    /* allocation accounting */
    long live_allocs, live_bytes, alloc_seq;
    long live_ssl;
    /* signals */
    void (*sigh[65])(int);
    int sigflags[65];
    uint64_t sigmask, sigpend;
    uint64_t suspend_mask;
    int in_suspend;
    int bad_fd_calls;
    char bad_fd_what[96];
    char *img_data, *img_bss;
    usec_t stall_until;
    void (*on_exit)(node_t *n);
    const char *arg1;             /* command line argument, if any */
    event_t *alarm_ev;
    int log_lines;
    int leftover_err;             /* OpenSSL error queue not empty when it gave up control */
};
#define NNODES 2
extern node_t nodes[NNODES];
extern node_t *cur;               /* node whose code is running, or NULL */
#define NODE_C (&nodes[0])
#define NODE_S (&nodes[1])

void nodes_init_once(void);
void node_start(node_t *n);
void node_crash(node_t *n);       /* process dies; sockets are cleaned up as the kernel would */
void node_signal(node_t *n, int sig);
void node_kick(node_t *n);
int node_open_fds(node_t *n);
int node_alive(node_t *n);
void node_fd_table(node_t *n, char *out, int outn);
extern long edges_total;
extern int coverage_count(void);
void cov_reset(void);
void print_allocs(node_t *n);
typedef struct { long count; uint64_t sitehash; } alloc_snap_t;

/* hooks for supervision scenarios */
extern int (*fork_hook)(node_t *n);
extern int (*kill_hook)(node_t *n, int pid, int sig);
extern int (*waitpid_hook)(node_t *n, int pid, int *st, int opt);
extern void (*suspend_hook)(node_t *n);
extern void (*syscall_hook)(node_t *n, const char *name);   /* every redirected call of a node */
extern void (*log_hook)(node_t *n, const char *path, const char *data, int n2);
extern void (*open_hook)(node_t *n, const char *path, int ok);

/* ---------- virtual files (vfs.c) ---------- */
typedef struct file {
    char path[512]; unsigned char *data; int n, alloc; int mode; int isdir; int exists; int growable_log;
    int refs;
} file_t;
file_t *vfs_put(const char *path, const void *data, int n, int mode);
file_t *vfs_find(const char *path);
void vfs_mkdir(const char *path);
int vfs_resolve(const char *root, const char *path, char *out, int outn);   /* root is prefixed to the result */
void vfs_unlink(const char *path);
extern long vfs_free_bytes;         /* disk space left */

extern const char *cert_pem, *key_pem;

/* ---------- scenarios ---------- */
typedef struct { const char *name; void (*run)(void); const char *about; } scenario_t;
extern scenario_t scenarios[];
const scenario_t *find_scenario(const char *name);
extern const char *prop_id;

void run_until(usec_t t);                    /* process events up to simulated time t */
int run_until_cond(int (*cond)(void), usec_t limit);

extern const char *flavour;
#endif
