/* P14, P15: the supervisor with simulated worker processes, the worker's side of a fork, and the command line. */
#include "world.h"
#include <errno.h>
#include <signal.h>
#include <sys/wait.h>
extern void node_preempt_signals(node_t *n);
#define PIDFILE "/S/usr/local/s5/logs/pid"

enum { K_RUN = 1, K_ZOMBIE, K_GONE };
typedef struct { int pid, state; event_t *ev; int marked; int told; } kid_t;
static kid_t kids[3000]; static int nkid, next_pid, kid_status;
static int want, deaths, forks, failed_forks, fork_fail, become_worker = -1, is_worker, stopping, reloads, max_exit_ms;
static int die_at_birth, master_pid, boot_forks_left, cmd_saw_master;
static usec_t busy_until;

static int running(void) { int k = 0; for (int i = 0; i < nkid; i++) if (kids[i].state == K_RUN) k++; return k; }
static void busy(usec_t d) { if (now + d > busy_until) busy_until = now + d; }
static void kid_dies(void *a) {
    kid_t *k = a; k->ev = NULL;
    if (k->state != K_RUN) return;
    k->state = K_ZOMBIE; deaths++; trace("kid_dies", k->pid, 0, 0);
    node_signal(NODE_S, SIGCHLD);
}
static int worker_faults;
static void start_faults(void) {
    switch (worker_faults) {
    case 1: prof.call_nth = 1 + choose(12); prof.call_run = 1 + (int)choose(2); break;
    case 2: prof.malloc_nth = 1 + choose(30); prof.malloc_run = 1 + (int)choose(3); break;
    case 3: prof.socket_fail = 300 + (int)choose(700); break;
    case 4: prof.epoll_fail = 300 + (int)choose(700); break;
    }
}
static int on_fork(node_t *n) {
    forks++;
    if (W.daemon && n->pid == master_pid && !nkid && boot_forks_left == -1) {       /* detaching: the parent ends, the child carries on */
        boot_forks_left = 0; n->pid = master_pid = ++next_pid; return 0;
    }
    if (chance(fork_fail)) { failed_forks++; fault(F_FORK_FAIL); errno = choose(2) ? EAGAIN : ENOMEM; return -1; }
    if (nkid == 3000) sim_error("too many worker processes");
    if (!stopping && running() >= want) violate("too-many-workers", "a worker is started although %d of %d are running", running(), want);
    kid_t *k = &kids[nkid++]; k->pid = ++next_pid; k->state = K_RUN;
    trace("kid_forked", k->pid, 0, 0);
    if (n->pid == master_pid && become_worker < 0 && die_at_birth && chance(die_at_birth)) { k->state = K_ZOMBIE; deaths++; fault(F_CRASH); probe("worker ends at once"); node_signal(n, SIGCHLD); }
    if (become_worker == nkid - 1) { is_worker = 1; n->pid = k->pid; n->sigpend = 0; start_faults(); return 0; }
    return k->pid;
}
static int on_kill(node_t *n, int pid, int sg) {
    trace("kill", pid, sg, 0);
    if (n == NODE_C) {                   /* the command line tool */
        if (pid == master_pid && node_alive(NODE_S)) { node_signal(NODE_S, sg); return 0; }
        /* it ended after the command had read its number: nobody can prevent that */
        if (pid == master_pid && cmd_saw_master && prof.preempt) { probe("supervisor ended before the signal"); return ESRCH; }
        violate("stray-signal", "the command sends signal %d to process %d, the supervisor is %d", sg, pid, master_pid);
    }
    if (pid <= 0) violate("stray-signal", "signal %d is sent to process group %d", sg, pid);
    for (int i = 0; i < nkid; i++) if (kids[i].pid == pid) {
        if (kids[i].state == K_GONE) return ESRCH;
        if (kids[i].state == K_RUN && (sg == SIGINT || sg == SIGKILL || sg == SIGTERM)) {
            kids[i].told = 1;
            if (!kids[i].ev) kids[i].ev = after(delay_us(10, max_exit_ms * MS), kid_dies, &kids[i]);
        }
        return 0;
    }
    return ESRCH;
}
static int how_died(void) { static const int sg[] = { SIGKILL, SIGSEGV, SIGABRT, SIGTERM, SIGINT, SIGBUS, SIGPIPE, SIGHUP }; return sg[choose(8)] | (choose(2) ? 0x80 : 0); }
static int on_wait(node_t *n, int pid, int *st, int opt) {
    int have = 0;
    for (int i = 0; i < nkid; i++) {
        if (kids[i].state == K_ZOMBIE && (pid == -1 || pid == kids[i].pid)) { kids[i].state = K_GONE; if (st) *st = kid_status >= 0 ? kid_status : choose(2) ? (int)choose(256) << 8 : how_died(); trace("reap", kids[i].pid, 0, 0); return kids[i].pid; }
        if (kids[i].state == K_RUN) have = 1;
    }
    if (!have) { errno = ECHILD; return -1; }
    if (!(opt & WNOHANG)) violate("hang", "the supervisor waits for a worker without looking at requests");
    return 0;
}
static void check_pidfile(const char *when) {
    file_t *f = vfs_find(PIDFILE); char b[40] = { 0 };
    if (!f || !f->exists) violate("pid-file", "%s: the pid file is missing", when);
    memcpy(b, f->data, f->n < 39 ? f->n : 39);
    if (atoi(b) != master_pid) violate("pid-file", "%s: the pid file names process %s, the supervisor is %d", when, b[0] ? b : "(empty)", master_pid);
}
/* a signal right before the n-th system call of the supervisor */
static long sig_at; static int sig_what, late_sig;
static void do_request(int sg);
static void on_call(node_t *n, const char *name) {
    if (n != NODE_S) return;
    if (late_sig && stopping && !running() && n->sigh[SIGINT] && chance(late_sig)) {
        static const int sg[] = { SIGHUP, SIGINT, SIGCHLD, SIGUSR1, SIGPIPE };
        int w = sg[choose(5)]; if (n->sigh[w]) { probe("signal while ending"); node_signal(n, w); node_preempt_signals(n); }
    }
    if (!sig_at || !n->sigh[sig_what]) return;
    if (--sig_at == 0) { probe("signal between two calls"); do_request(sig_what); node_preempt_signals(n); }
}
static void mark_old(void) { for (int i = 0; i < nkid; i++) if (kids[i].state == K_RUN) kids[i].marked = 1; }
static void do_request(int sg) {
    if (!node_alive(NODE_S)) return;
    if (sg == SIGHUP) { reloads++; if (!stopping) mark_old(); }
    if (sg == SIGINT) stopping = 1;
    busy(0); node_signal(NODE_S, sg);
}
static void random_death(void *unused) {
    int r = running(); if (!r || is_worker) return;
    int pick = (int)choose(r);
    for (int i = 0; i < nkid; i++) if (kids[i].state == K_RUN && pick-- == 0) { fault(F_CRASH); kid_dies(&kids[i]); return; }
}
static void all_die(void *unused) { for (int i = 0; i < nkid; i++) if (kids[i].state == K_RUN) kid_dies(&kids[i]); probe("all workers die at once"); }
static void req_hup(void *unused) { do_request(SIGHUP); }
static void req_int(void *unused) { do_request(SIGINT); }
static void req_other(void *unused) { static const int s[] = { SIGUSR1, SIGUSR2, SIGPIPE, SIGCHLD }; if (node_alive(NODE_S)) node_signal(NODE_S, s[choose(4)]); }
static void fail_on(void *unused) { fork_fail = 200 + (int)choose(801); busy(6 * SEC); }
static void fail_off(void *unused) { fork_fail = 0; }
static void birth_on(void *unused) { die_at_birth = 100 + (int)choose(600); busy(6 * SEC); }
static void birth_off(void *unused) { die_at_birth = 0; }
static void watch_pid(void *unused) {
    if (!node_alive(NODE_S)) return;
    if (!is_worker) check_pidfile("while running");
    after(50 * MS, watch_pid, NULL);
}
static void cmd_done(node_t *n) { }
static void run_command(void *arg) {
    if (node_alive(NODE_C)) { after(MS, run_command, arg); return; }
    if (!strcmp(arg, "-stop")) stopping = 1; else { reloads++; if (!stopping) mark_old(); }
    cmd_saw_master = node_alive(NODE_S);
    probe(arg); NODE_C->root = "/S"; NODE_C->arg1 = arg; NODE_C->on_exit = cmd_done; node_start(NODE_C);
}
static int master_up(void) { return NODE_S->in_suspend && running() == want; }
static int master_gone(void) { return !node_alive(NODE_S); }
static void settle(const char *after_what) {
    /* longest: a failed start is tried again, workers need up to max_exit_ms to end, and replacements follow */
    run_until(busy_until > now ? busy_until : now);
    run_until(now + 15 * SEC);
    if (stopping) return;
    if (!node_alive(NODE_S)) violate("supervisor-ended", "the supervisor ended with code %d after %s", NODE_S->exit_code, after_what);
    if (running() != want) violate("workers-missing", "%d of %d workers are running 15 s after %s", running(), want, after_what);
    for (int i = 0; i < nkid; i++) if (kids[i].marked && kids[i].state == K_RUN) violate("not-reloaded", "worker %d is still running 15 s after a reload request", kids[i].pid);
    check_pidfile(after_what);
}
static void begin(void) {
    world_defaults(); world_net_profile(0); prof.seg_mode = 0;
    W.use_c = 0; W.mode_s = 2 + (int)choose(2); want = W.nproc_s = 1 + (int)skewed(0, 8); W.daemon = choose(4) == 3;
    max_exit_ms = 1 + (int)choose(3000); kid_status = choose(2) ? -1 : (int)choose(256) << 8; next_pid = 5000 + (int)choose(20000);
    fork_hook = on_fork; kill_hook = on_kill; waitpid_hook = on_wait; syscall_hook = on_call;
    world_write_files();
    if (choose(3) == 2) {                 /* left by a run that was killed */
        char b[40]; memset(b, '9', sizeof b); int n = choose(3) ? sprintf(b, "%d", 1 + (int)choose(choose(2) ? 99999 : 4194303)) : (int)choose(30);
        vfs_put(PIDFILE, b, n, 0644); probe("stale pid file");
    }
}
static void boot(void) {
    boot_forks_left = W.daemon ? -1 : 0;
    node_start(NODE_S); master_pid = NODE_S->pid;
}
static void disturb(usec_t span, int reload_ok) {
    int k = 1 + (int)choose(10);
    busy(span);
    for (int i = 0; i < k; i++) {
        usec_t t = now + (choose(3) ? delay_us(0, span) : 1 * SEC + choose(3));
        switch (choose(9)) {
        case 0: case 1: case 2: at(t, random_death, NULL); break;
        case 3: at(t, all_die, NULL); break;
        case 4: at(t, fail_on, NULL); at(t + delay_us(10 * MS, 5 * SEC), fail_off, NULL); break;
        case 5: at(t, req_other, NULL); break;
        case 6: at(t, birth_on, NULL); at(t + delay_us(10 * MS, 3 * SEC), birth_off, NULL); break;
        default: if (reload_ok) { if (choose(4) == 3) at(t, run_command, "-reload"); else at(t, req_hup, NULL); } else at(t, random_death, NULL);
        }
    }
    if (choose(3) == 2) { sig_what = reload_ok ? SIGHUP : SIGUSR1; sig_at = 1 + choose(200); }
}
static void wait_first(void) {
    late_sig = 0;
    run_until_cond(master_up, now + 20 * SEC);
    fork_fail = 0;
    settle("the start");
}
/* one worker's side of a start that fails: it serves, or it ends and makes room for another */
static void worker_start_fails(void) {
    begin();
    become_worker = (int)choose(want); prof.faults_on = 1; worker_faults = 1 + (int)choose(4);
    boot();
    run_until(now + 5 * SEC);
    prof.faults_on = 0; prof.call_nth = prof.malloc_nth = 0; prof.malloc_run = prof.call_run = 0; prof.socket_fail = prof.epoll_fail = prof.malloc_fail = 0;
    if (!is_worker) return;
    probe("worker with a failing start"); nontrivial();
    run_until(now + 10 * SEC);
    sample("worker %d of %d, %s ", become_worker, want, node_alive(NODE_S) ? "serving" : "ended");
    if (!node_alive(NODE_S)) { probe("worker gives up"); return; }
    sess_t *s = sess_new(); s->direct = 1; sess_random_traffic(s, 3000); sess_start(s);
    run_until(now + 60 * SEC);
    if (!sess_complete(s)) report_incomplete("idle-worker", s);
}
void scn_p14(void) {
    if (choose(8) == 7) { worker_start_fails(); return; }
    begin();
    if (choose(4) == 3) { fork_fail = 100 + (int)choose(600); probe("process creation fails at start"); at(now + 3 * SEC, fail_off, NULL); busy_until = now + 4 * SEC; }
    if (choose(4) == 3) { sig_what = SIGHUP; sig_at = 1 + choose(45); }
    boot(); wait_first();
    int rounds = 1 + (int)choose(5);
    for (int r = 0; r < rounds; r++) { disturb(choose(2) ? 3 * SEC : 10 * SEC, (int)choose(2)); settle("the last disturbance"); sig_at = 0; }
    if (deaths) nontrivial();
    sample("%d workers, %d deaths, %d forks, %d failed, %d reloads ", want, deaths, forks, failed_forks, reloads);
}
static void worker_view(void) {
    /* the process becomes one of the workers it forks */
    begin();
    become_worker = (int)choose(want);
    if (choose(2)) {                      /* a replacement rather than one of the first */
        become_worker += want; probe("replacement worker's side");
        for (int i = 0; i < become_worker + 2; i++) at(now + 20 * MS + delay_us(0, 2 * SEC), random_death, NULL);
    }
    boot();
    run_until(now + 3 * SEC);
    if (!node_alive(NODE_S) || !is_worker) violate("worker-ended", "a freshly forked worker ended with code %d", NODE_S->exit_code);
    int n = (int)choose(4);
    for (int i = 0; i < n; i++) { sess_t *s = sess_new(); s->direct = 1; sess_random_traffic(s, 3000); sess_start_at(s, now + delay_us(0, 2 * SEC)); }
    for (int i = 0; i < (int)choose(3); i++) { static const int sg[] = { SIGHUP, SIGUSR1, SIGUSR2, SIGPIPE, SIGCHLD }; node_signal(NODE_S, sg[choose(5)]); run_until(now + delay_us(1, SEC)); }
    if (choose(2)) { run_until(now + 60 * SEC); for (int i = 0; i < nsess; i++) if (!sess_complete(sess[i])) report_incomplete("not-served", sess[i]); if (nsess) probe("worker serves sessions"); }
    if (!node_alive(NODE_S)) violate("worker-ended", "a worker ended with code %d without being asked to", NODE_S->exit_code);
    check_pidfile("while a worker runs");
    if (choose(2)) { sig_at = 1 + choose(300); sig_what = SIGINT; run_until(now + 31 * SEC); }
    if (node_alive(NODE_S)) { sig_at = 0; node_signal(NODE_S, SIGINT); }
    if (!run_until_cond(master_gone, now + 40 * SEC)) violate("worker-not-stopped", "a worker is still running 40 s after the request to end");
    check_pidfile("after a worker has ended");
    probe("worker's side"); nontrivial();
    sample("worker %d of %d, %d sessions ", become_worker, want, n);
}
/* the disk fails while the pid file is written: no start, or a right pid file */
static void torn_start(void) {
    begin(); vfs_unlink(PIDFILE); prof.faults_on = 1; if (choose(3)) prof.write_torn = 1000; else { prof.call_nth = 1 + choose(20); prof.call_run = 1 + (int)choose(2); }
    boot(); run_until(now + 3 * SEC); probe("disk fails at the start"); nontrivial();
    sample("%d workers, %s ", want, node_alive(NODE_S) ? "started" : "refused");
    if (node_alive(NODE_S)) { check_pidfile("after a start with disk errors"); return; }
    probe("start refused");
    if (vfs_find(PIDFILE)) violate("pid-file", "a start that was refused leaves a pid file");
}
void scn_p15(void) {
    if (choose(4) == 3) { worker_view(); return; }
    if (choose(12) == 11) { torn_start(); return; }
    begin();
    if (choose(4) == 3) { sig_what = choose(2) ? SIGHUP : SIGINT; sig_at = 1 + choose(45); }
    if (choose(6) == 5) { fork_fail = 100 + (int)choose(600); probe("process creation fails at start"); at(now + 3 * SEC, fail_off, NULL); busy_until = now + 4 * SEC; }
    boot();
    if (sig_what == SIGINT) run_until(now + 10 * MS);
    if (stopping) {                       /* stopped while it was starting */
        probe("stopped while starting");
        if (!run_until_cond(master_gone, now + max_exit_ms * MS + 15 * SEC)) violate("not-stopped", "the supervisor is still running with %d workers after a stop request at start", running());
        if (running()) violate("orphans", "the supervisor ended while %d workers are running", running());
        file_t *f = vfs_find(PIDFILE); if (f && f->exists) violate("pid-file", "the pid file still exists after the end");
        nontrivial(); return;
    }
    sig_at = 0; wait_first(); after(1, watch_pid, NULL);
    int cycles = 1 + (int)choose(2);
    for (int c = 0; c < cycles; c++) {
        int rounds = (int)choose(4);
        for (int r = 0; r < rounds; r++) { disturb(choose(2) ? 2 * SEC : 8 * SEC, 1); settle("the last request"); sig_at = 0; }
        /* now stop it, in the middle of other things */
        usec_t t = now + delay_us(0, 2 * SEC);
        if (choose(3)) disturb(2 * SEC, 1);
        if (choose(3) == 2) { sig_what = SIGINT; sig_at = 1 + choose(120); } else sig_at = 0;
        if (choose(4) == 3) at(t, run_command, "-stop"); else at(t, req_int, NULL);
        late_sig = choose(2) ? 150 : 0;
        run_until(t + 10 * MS);
        if (!run_until_cond(master_gone, t + max_exit_ms * MS + 15 * SEC)) violate("not-stopped", "the supervisor is still running with %d workers %.1f s after the stop request", running(), (now - t) / 1e6);
        if (running()) violate("orphans", "the supervisor ended while %d workers are running", running());
        file_t *f = vfs_find(PIDFILE);
        if (f && f->exists) violate("pid-file", "the pid file still exists after the end");
        if (NODE_S->exit_code) violate("bad-exit", "the supervisor ends with code %d after a stop request", NODE_S->exit_code);
        run_until(now + 15 * SEC);
        if (c + 1 < cycles) { for (int i = 0; i < nkid; i++) kids[i].state = K_GONE, kids[i].marked = 0; stopping = 0; fork_fail = 0; sig_at = 0; nkid = 0; boot(); wait_first(); after(1, watch_pid, NULL); probe("started again"); }
    }
    nontrivial();
    sample("%d workers, %d deaths, %d forks, %d failed, %d reloads, stopped %d times ", want, deaths, forks, failed_forks, reloads, cycles);
}
