/* Choices, simulated time, event queue, trace hash, result reporting. */
#include "result.h"
#include <unistd.h>
#include <sys/time.h>

usec_t now, wall_offset, uptime0;
int verbose;
profile_t prof;
result_t *result;
covmap_t *cov;
long edges_total;

const char *fault_names[] = {
    "segmentation", "delay", "small_buffers", "wake_latency", "batch_shuffle", "tcp_reset", "peer_fin",
    "connect_refused", "connect_blackhole", "accept_abort", "accept_emfile", "eintr", "socket_fail", "epoll_fail",
    "sockopt_fail", "malloc_fail", "ssl_malloc_fail", "open_fail", "read_short", "read_err", "write_short",
    "write_err", "disk_full", "dns_loss", "dns_dup", "dns_delay", "dns_malformed", "dns_foreign", "clock_step",
    "node_stall", "crash", "restart", "fork_fail", "signal", "garbage_input", "peer_stall", "pool_exhaust",
    "file_damage", "syn_drop", "partition", "send_short", "preemption"
};

/* ---- PRNG and choices ---- */
static uint64_t rng_s[2], rnd_s;
static const uint32_t *rep; static uint32_t nrep, reppos; static int replaying;
uint64_t thash;

uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
static uint64_t rng_next(void) {
    uint64_t a = rng_s[0], b = rng_s[1];
    rng_s[0] = b; a ^= a << 23;
    rng_s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return rng_s[1] + b;
}
void core_begin(uint64_t seed, const uint32_t *replay, uint32_t nreplay) {
    rng_s[0] = mix64(seed); rng_s[1] = mix64(rng_s[0] ^ 0x1234567); rnd_s = mix64(seed ^ 0xabcdef0123ULL);
    rep = replay; nrep = nreplay; reppos = 0; replaying = replay != NULL;
    thash = 0xcbf29ce484222325ULL; now = 0; wall_offset = 1700000000LL * SEC; uptime0 = 1000 * SEC;
    memset(&prof, 0, sizeof prof);
    result->status = 0; result->nchoices = 0; result->nprobes = 0; result->nevents = 0;
    result->kind[0] = result->msg[0] = result->sample[0] = 0; result->nontrivial = 0;
    memset(result->faults, 0, sizeof result->faults);
    memset(result->probe_n, 0, sizeof result->probe_n);
}
uint32_t choose(uint32_t n) {
    uint32_t v;
    if (n <= 1) return 0;
    if (replaying) v = reppos < nrep ? rep[reppos++] % n : 0;
    else v = (uint32_t)(rng_next() >> 33) % n;
    if (result->nchoices < MAXCHOICES) result->choices[result->nchoices++] = v;
    else sim_error("too many choices");
    return v;
}
int chance(uint32_t permille) { return permille && choose(1000) >= 1000 - permille; }
uint32_t range(uint32_t lo, uint32_t hi) { return hi <= lo ? lo : lo + choose(hi - lo + 1); }
uint64_t skewed(uint32_t lo, uint32_t hi) {
    if (hi <= lo) return lo;
    uint32_t span = hi - lo + 1, bits = 0;
    while ((1ULL << bits) < span) bits++;
    uint32_t b = choose(bits + 1);
    uint64_t top = 1ULL << b; if (top > span) top = span;
    return lo + choose((uint32_t)top);
}
usec_t delay_us(usec_t lo, usec_t hi) {
    if (hi <= lo) return lo;
    usec_t span = hi - lo; int bits = 0;
    while ((1LL << bits) < span) bits++;
    uint32_t b = choose(bits + 1);
    usec_t top = 1LL << b; if (top > span) top = span;
    if (top > 0x7fffffff) return lo + (usec_t)choose(0x7fffffff) * (top / 0x7fffffff);
    return lo + choose((uint32_t)top + 1);
}
void rand_bytes(void *buf, int n) {
    unsigned char *p = buf;
    for (int i = 0; i < n; i++) {
        if ((i & 7) == 0) rnd_s = mix64(rnd_s);
        p[i] = (unsigned char)(rnd_s >> ((i & 7) * 8));
    }
    rnd_s = mix64(rnd_s + n);
}

/* ---- events ---- */
struct event { usec_t when; uint64_t seq; event_fn fn; void *arg; };
static event_t **heap; static int hn, halloc; static uint64_t eseq;
static int less(event_t *a, event_t *b) { return a->when < b->when || (a->when == b->when && a->seq < b->seq); }
event_t *at(usec_t when, event_fn fn, void *arg) {
    event_t *e = malloc(sizeof *e);
    if (when < now) when = now;
    e->when = when; e->seq = eseq++; e->fn = fn; e->arg = arg;
    if (hn == halloc) { halloc = halloc ? halloc * 2 : 256; heap = realloc(heap, halloc * sizeof *heap); }
    int i = hn++;
    while (i > 0 && less(e, heap[(i - 1) / 2])) { heap[i] = heap[(i - 1) / 2]; i = (i - 1) / 2; }
    heap[i] = e;
    return e;
}
event_t *after(usec_t d, event_fn fn, void *arg) { return at(now + d, fn, arg); }
void cancel(event_t *e) { if (e) e->fn = NULL; }
static event_t *pop(void) {
    event_t *top = heap[0], *e = heap[--hn]; int i = 0;
    for (;;) {
        int c = 2 * i + 1; if (c >= hn) break;
        if (c + 1 < hn && less(heap[c + 1], heap[c])) c++;
        if (!less(heap[c], e)) break;
        heap[i] = heap[c]; i = c;
    }
    if (hn) heap[i] = e;
    return top;
}
#define MAXEVENTS 6000000ULL
int run_one(void) {
    while (hn && !heap[0]->fn) free(pop());
    if (!hn) return 0;
    event_t *e = pop();
    if (e->when > now) now = e->when;
    if (++result->nevents > MAXEVENTS) sim_error("event limit at t=%lld", (long long)now);
    event_fn fn = e->fn; void *arg = e->arg;
    free(e);
    fn(arg);
    return 1;
}
void run_until(usec_t t) {
    for (;;) {
        while (hn && !heap[0]->fn) free(pop());
        if (!hn || heap[0]->when > t) break;
        run_one();
    }
    if (now < t) now = t;
}
int run_until_cond(int (*cond)(void), usec_t limit) {
    for (;;) {
        if (cond()) return 1;
        while (hn && !heap[0]->fn) free(pop());
        if (!hn || heap[0]->when > limit) { if (now < limit) now = limit; return cond(); }
        run_one();
    }
}

/* ---- trace ---- */
static void h64(uint64_t v) { for (int i = 0; i < 8; i++) { thash ^= (v >> (8 * i)) & 255; thash *= 0x100000001b3ULL; } }
void trace(const char *kind, int64_t a, int64_t b, int64_t c) {
    uint64_t k = 0; for (const char *p = kind; *p; p++) k = k * 131 + (unsigned char)*p;
    h64(now); h64(k); h64(a); h64(b); h64(c);
    if (verbose > 1) fprintf(stderr, "%12.6f %-14s %lld %lld %lld\n", now / 1e6, kind, (long long)a, (long long)b, (long long)c);
}
void trace_data(const void *p, int n) {
    const unsigned char *q = p; uint64_t h = 0;
    for (int i = 0; i < n; i++) h = h * 1099511628211ULL + q[i];
    h64(h);
}
void note(const char *fmt, ...) {
    if (!verbose) return;
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "%12.6f ", now / 1e6); vfprintf(stderr, fmt, ap); fputc('\n', stderr);
    va_end(ap);
}
void state_sig(uint64_t h) { h = mix64(h) & ((1 << 22) - 1); cov->states[h >> 3] |= 1 << (h & 7); }
void fault(enum fault_kind k) { result->faults[k]++; }
void probe(const char *name) {
    int i;
    for (i = 0; i < result->nprobes; i++) if (!strcmp(result->probe_name[i], name)) { result->probe_n[i]++; return; }
    if (i < MAXPROBES) {
        snprintf(result->probe_name[i], sizeof result->probe_name[i], "%s", name);
        result->probe_n[i] = 1; result->nprobes++;
    }
}

void nontrivial(void) { result->nontrivial = 1; }
void sample(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    int n = (int)strlen(result->sample);
    vsnprintf(result->sample + n, sizeof result->sample - n, fmt, ap);
    va_end(ap);
}

/* ---- outcomes ---- */
static void finish(int status) {
    result->hash = thash; result->simtime = now; result->status = status;
    _exit(status == 1 ? 0 : 1);
}
void violate(const char *kind, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    snprintf(result->kind, sizeof result->kind, "%s", kind);
    vsnprintf(result->msg, sizeof result->msg, fmt, ap);
    va_end(ap);
    if (verbose) fprintf(stderr, "%12.6f VIOLATION %s: %s\n", now / 1e6, kind, result->msg);
    finish(2); __builtin_unreachable();
}
void sim_error(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    snprintf(result->kind, sizeof result->kind, "simulator");
    vsnprintf(result->msg, sizeof result->msg, fmt, ap);
    va_end(ap);
    if (verbose) fprintf(stderr, "SIM ERROR %s\n", result->msg);
    finish(3); __builtin_unreachable();
}
void finish_ok(void) { finish(1); __builtin_unreachable(); }

/* ---- crash capture ---- */
static void on_crash(int sig) {
    if (result->status == 0) {
        snprintf(result->kind, sizeof result->kind, sig == SIGXCPU ? "hang" : "crash");
        snprintf(result->msg, sizeof result->msg, "%s %s %d%s", cur ? cur->name : "simulator", sig == SIGXCPU ? "does not give up the processor: signal" : "killed by signal", sig,
                 cur ? "" : " (while no node code ran: memory damaged earlier)");
        result->hash = thash; result->simtime = now; result->status = 2;
    }
    _exit(1);
}
static void asan_cb(const char *text) {
    if (result->status) return;
    snprintf(result->kind, sizeof result->kind, "crash");
    /* keep the error line and the function names of the first frames; addresses are dropped (they vary) */
    char *o = result->msg; int left = sizeof result->msg - 1;
    const char *l = text; int frames = 0;
    while (*l && left > 100 && frames < 8) {
        const char *e = strchr(l, '\n'); if (!e) e = l + strlen(l);
        char line[400]; int n = e - l < 399 ? (int)(e - l) : 399; memcpy(line, l, n); line[n] = 0;
        char *p;
        if ((p = strstr(line, "ERROR: AddressSanitizer: "))) {
            p += 25; char *q = strstr(p, " on "); if (!q) q = strstr(p, " 0x"); if (q) *q = 0;
            int k = snprintf(o, left, "%s: ASan %s;", cur ? cur->name : "outside node code (memory damaged earlier)", p); o += k; left -= k;
        } else if (strstr(line, "    #") == line && (p = strstr(line, " in "))) {
            p += 4; char *q = strchr(p, ' '); if (q) *q = 0;
            int k = snprintf(o, left, " %s", p); o += k; left -= k; frames++;
        } else if (strstr(line, "freed by") == line || strstr(line, "previously allocated") == line) {
            int k = snprintf(o, left, " | %.10s:", line); o += k; left -= k;
        }
        l = *e ? e + 1 : e;
    }
    /* a scenario's own code on top of the node's system call: our mistake, not the node's */
    int own = 0; const char *end = strstr(text, "\n\n"), *c = text;
    static const char *const mine[] = { "/sim/scn_", "/sim/world.c", "/sim/conn.c" };
    for (int i = 0; cur && i < 3; i++) if ((c = strstr(text, mine[i])) && (!end || c < end)) own = 1;
    if (own) snprintf(result->kind, sizeof result->kind, "simulator");
    result->hash = thash; result->simtime = now; result->status = own ? 3 : 2;
    if (verbose) fprintf(stderr, "%s\n", text);
}
extern void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
const char *__asan_default_options(void) {
    return "detect_leaks=0:detect_odr_violation=0:exitcode=77:halt_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1:"
           "handle_segv=1:handle_abort=1:handle_sigfpe=1:handle_sigbus=1:handle_sigill=1:print_summary=0:use_sigaltstack=1:"
           "quarantine_size_mb=16:symbolize=1:external_symbolizer_path=";
}
void core_install_handlers(void) {
    static char alt[65536];
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
    sigaction(SIGXCPU, &sa, NULL);
    if (__asan_set_error_report_callback) { __asan_set_error_report_callback(asan_cb); return; }
    stack_t st = { .ss_sp = alt, .ss_size = sizeof alt };
    sigaltstack(&st, NULL);
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, 0 };
    for (int i = 0; sigs[i]; i++) sigaction(sigs[i], &sa, NULL);
}

#define EDGE_BUDGET 40000000L
void __sanitizer_cov_trace_pc(void) {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    edges_total++;
    if (cov) cov->edges[(pc ^ (pc >> 16)) & 65535] = 1;
    if (cur && edges_total - (long)cur->edges_at_resume > EDGE_BUDGET) {
        cur->edges_at_resume = edges_total;
        violate("hang", "%s executed %ld branches without returning to its event wait", cur->name, EDGE_BUDGET);
    }
}
