/* P16: failing allocations and system calls, no descriptors left, all buffers in use; then recovery. */
#include "world.h"
extern void web_files(void);
extern void web_begin(usec_t t, int tls);
extern void web_tolerant(void);
extern int web_state(int *done, int *ended);
extern long hard_faults;
extern const char *flavour;

static int steady_end;                   /* sessions before this one were relaying when the trouble began */
static void brief(sess_t *s, int max) {
    sess_random_traffic(s, max); s->app_gap = s->org_gap = 0; s->app_chunk = s->org_chunk = 16384;
    if (s->pattern == PAT_PINGPONG) { s->rounds = 1 + (int)choose(4); s->upmsg = 1 + choose(200); s->downmsg = 1 + choose(200); s->up = s->upmsg * s->rounds; s->down = s->downmsg * s->rounds; }
}
static sess_t *work(usec_t t, int direct) {
    sess_t *s = sess_new();
    s->direct = direct; brief(s, prof.seg_mode == 2 ? 500 : 8000);
    if (choose(3) == 2) { char nm[64]; int n = snprintf(nm, sizeof nm, "w%d.test", s->id % 40); sess_set_name(s, nm, n); if (!rec_find(nm)) rec_add(nm, s->ip, 1 + choose(20)); }
    sess_start_at(s, t);
    return s;
}
/* a session that exchanges small messages all the time */
static sess_t *steady(int direct, usec_t gap, int rounds) {
    sess_t *s = sess_new(); s->direct = direct;
    s->pattern = PAT_DUPLEX; s->closer = (int)choose(2); s->up = rounds * (1 + choose(300)); s->down = rounds * (1 + choose(300));
    s->app_chunk = (int)(s->up / rounds); s->org_chunk = (int)(s->down / rounds); s->app_gap = s->org_gap = gap * 2;
    sess_start(s);
    return s;
}
static int up_to(int n) { for (int i = 0; i < n; i++) if (sess[i]->state != ST_DATA && !sess_complete(sess[i])) return 0; return 1; }
static int steady_up(void) { return up_to(steady_end); }
static int done_all(void) { for (int i = 0; i < nsess; i++) if (!sess_complete(sess[i])) return 0; return 1; }
static void no_death(void) {
    if (!node_alive(NODE_S)) violate("died", "the server process ended with code %d", NODE_S->exit_code);
    if (W.use_c && !node_alive(NODE_C)) violate("died", "the client process ended with code %d", NODE_C->exit_code);
}
static int anyway(void) { return !W.use_c || (int)choose(2); }
static int hurt(void) {                  /* sessions and web connections that did not get everything */
    int k = 0, wd, we, wt = web_state(&wd, &we);
    for (int i = 0; i < nsess; i++) if (!sess_complete(sess[i])) k++;
    return k + wt - wd;
}
static void judge_ended(const char *what) {
    for (int i = 0; i < nsess; i++) if (!sess_complete(sess[i]) && !sess[i]->app_eof && sess[i]->app && !sess[i]->app->closed)
        violate("hung", "session %d is neither served nor ended 40 s after %s (state %d)", i, what, sess[i]->state);
    int wd, we, wt = web_state(&wd, &we);
    if (we < wt) violate("hung", "%d web connections are neither served nor ended 40 s after %s", wt - we, what);
}
static void recovery(int leak) {
    int from = nsess;
    no_death();
    for (int i = 0; i < 2; i++) { work(now + delay_us(0, SEC), 1); if (W.use_c) work(now + delay_us(0, SEC), 0); }
    int d0, e0, t0 = web_state(&d0, &e0), d1, e1;
    web_begin(now, 0); web_begin(now, 1);
    run_until(now + 60 * SEC);
    no_death();
    for (int i = from; i < nsess; i++) if (!sess_complete(sess[i])) report_incomplete("not-served-afterwards", sess[i]);
    int t1 = web_state(&d1, &e1);
    if (t1 - t0 != d1 - d0) violate("not-served-afterwards", "a web request is not answered after resources are available again");
    if (leak) { run_until(now + 100 * SEC); check_nothing_left(NODE_S); if (W.use_c) check_nothing_left(NODE_C); }
}
static void failing_calls(void) {
    int warm = choose(6) != 5;
    if (warm) {
        work(now, 1); if (W.use_c) work(now, 0); web_begin(now, 0); web_begin(now, 1);
        if (!run_until_cond(done_all, now + 30 * SEC)) report_incomplete("stalled", sess[0]);
        run_until(now + 100 * SEC); idle_baseline();
    } else probe("no earlier connection");
    int n = (int)choose(4);
    for (int i = 0; i < n && warm; i++) steady(anyway(), 200 * MS, 20 + (int)choose(40));
    steady_end = nsess;
    if (warm) { if (!run_until_cond(steady_up, now + 10 * SEC)) report_incomplete("stalled", sess[nsess - 1]); }
    usec_t span = choose(2) ? 2 * SEC : 8 * SEC;
    int single = 0;
    long f0 = hard_faults;
    switch (choose(6)) {
    case 0: case 1: prof.malloc_nth = 1 + choose(1 + choose(choose(2) ? 40 : 400)); prof.malloc_run = choose(3) ? 1 : 1 + (int)choose(6); single = 1; probe("n-th allocation fails"); break;
    case 2: case 3: prof.call_nth = 1 + choose(1 + choose(choose(2) ? 100 : 1200)); prof.call_run = choose(3) ? 1 : 1 + (int)choose(6); single = 1; probe("n-th call fails"); break;
    case 4: prof.malloc_fail = 1 + (int)choose(choose(3) ? 60 : 700); probe("allocations fail at a rate"); break;
    default:
        prof.malloc_fail = choose(2) ? 10 : 0; prof.socket_fail = choose(2) ? (int)choose(400) : 0; prof.epoll_fail = choose(2) ? (int)choose(200) : 0;
        prof.accept_emfile = choose(2) ? (int)choose(500) : 0; prof.open_fail = choose(2) ? (int)choose(300) : 0; prof.read_err = choose(2) ? (int)choose(200) : 0; prof.sockopt_fail = choose(3) == 2 ? (int)choose(100) : 0;
        probe("several calls fail at a rate");
    }
    prof.faults_on = 1;
    int k = 1 + (int)choose(12), w = (int)choose(6);
    for (int i = 0; i < k; i++) work(now + delay_us(0, span), anyway());
    for (int i = 0; i < w; i++) web_begin(now + delay_us(0, span), (int)choose(2));
    run_until(now + span + 1 * SEC);
    if (!single || choose(2)) prof.faults_on = 0; else run_until(now + 10 * SEC);
    prof.faults_on = 0; prof.malloc_nth = prof.call_nth = 0;
    run_until(now + 40 * SEC);
    no_death();
    judge_ended("the last failed call");
    long f = hard_faults - f0; int h = hurt();
    if (f) nontrivial();
    if (h > f) violate("others-hurt", "%d connections were not served although only %ld calls failed", h, f);
    if (single && h) probe("refused after a single failure"); if (single && f && !h) probe("failure without visible effect");
    recovery(warm);
    sample("%d sessions, %ld failed calls, %d connections not served ", nsess, f, h);
}
static void no_descriptors(void) {
    work(now, 1); if (W.use_c) work(now, 0); web_begin(now, 0); web_begin(now, 1);
    if (!run_until_cond(done_all, now + 30 * SEC)) report_incomplete("stalled", sess[0]);
    run_until(now + 100 * SEC); idle_baseline();
    int n = 1 + (int)choose(4), s0 = nsess;
    for (int i = 0; i < n; i++) steady(anyway(), 200 * MS, 20 + (int)choose(60));
    steady_end = nsess;
    if (!run_until_cond(steady_up, now + 10 * SEC)) report_incomplete("stalled", sess[nsess - 1]);
    node_t *v = W.use_c && choose(2) ? NODE_C : NODE_S; int top = 0;
    for (int i = 0; i < 1024; i++) if (v->fds[i].kind) top = i + 1;
    v->fdlimit = top + (int)choose(choose(2) ? 4 : 25); fault(F_ACCEPT_EMFILE); probe("descriptor limit");
    int k = 3 + (int)choose(40), w = (int)choose(15); usec_t span = choose(2) ? SEC : 6 * SEC;
    for (int i = 0; i < k; i++) work(now + delay_us(0, span), anyway());
    for (int i = 0; i < w; i++) web_begin(now + delay_us(0, span), (int)choose(2));
    run_until(now + span + choose(8 * SEC));
    v->fdlimit = 1024;
    run_until(now + 40 * SEC);
    no_death();
    judge_ended("descriptors are available again");
    for (int i = s0; i < steady_end; i++) if (!sess_complete(sess[i])) report_incomplete("others-hurt", sess[i]);
    nontrivial();
    recovery(1);
    sample("descriptor limit %d above use, %d sessions, %d web connections ", v->fdlimit - top, k, w);
}
/* more connections than there are buffers */
typedef struct { conn_t *c; int kind, id; } crowd_t;
static crowd_t *crowd[1500]; static int ncrowd, crowd_up;
static void crowd_on(conn_t *c) {
    crowd_t *w = c->user; crowd_up++;
    if (w->kind == 0) conn_write(c, "GET /index.html HTTP/1.1\r\nX: ", 29);
    if (w->kind == 5) conn_write(c, "GET /large.bin HTTP/1.1\r\n\r\n", 27);
    if (w->kind == 1) conn_write(c, "POST /echo HTTP/1.1\r\nContent-Length: 16000\r\n\r\nabc", 49);
}
static void crowd_end(conn_t *c) { conn_close_after(c); }
static void crowd_open(void *a) {
    crowd_t *w = a; int tls = w->kind == 2 || (w->kind < 2 && w->id % 16 == 0);
    w->c = conn_open(IP(10, 8, w->id >> 8, w->id & 255), NODE_S->ip, w->kind == 3 ? W.local_port : tls ? W.https_port : W.http_port, tls, "crowd");
    if (w->kind == 3) { conn_close(w->c); w->c = conn_open(IP(10, 8, w->id >> 8, w->id & 255), NODE_C->ip, W.local_port, 0, "crowd"); }
    if (w->kind == 5) w->c->read_paused = 1;
    w->c->user = w; w->c->on_up = crowd_on; w->c->on_end = crowd_end;
    if (w->c->connected) crowd_on(w->c);
}
static void no_buffers(void) {
    prof.seg_mode = 0; prof.buf_mode = 0; prof.delay_mode = 0; if (prof.wake_mode == 2) prof.wake_mode = 1;
    work(now, 1); if (W.use_c) work(now, 0); web_begin(now, 0); web_begin(now, 1);
    if (!run_until_cond(done_all, now + 30 * SEC)) report_incomplete("stalled", sess[0]);
    run_until(now + 100 * SEC); idle_baseline();
    int n = 1 + (int)choose(4), s0 = nsess;
    for (int i = 0; i < n; i++) steady(anyway(), 200 * MS, 60 + (int)choose(60));
    steady_end = nsess;
    if (!run_until_cond(steady_up, now + 10 * SEC)) report_incomplete("stalled", sess[nsess - 1]);
    int kind = (int)choose(6), k = 300 + (int)choose(kind == 4 || kind == 2 ? 300 : 1000);
    if (kind == 5) { static unsigned char big[300000]; char lp[400]; snprintf(lp, sizeof lp, "/S%s/large.bin", W.home); vfs_put(lp, big, sizeof big, 0644); prof.buf_mode = 2; }
    if (choose(2) || kind == 5) NODE_S->fdlimit = NODE_C->fdlimit = 4096; usec_t span = SEC + choose(3 * SEC); fault(F_POOL_EXHAUST);
    static const char *nm[] = { "crowd of half requests", "crowd of half bodies", "crowd of silent TLS clients", "crowd at the client node", "crowd of sessions", "crowd of stalled downloads" };
    if (kind == 3 && !W.use_c) kind = 0;
    probe(nm[kind]);
    int last = nsess;
    for (int i = 0; i < k; i++) {
        usec_t t = now + choose((uint32_t)span);
        if (kind == 4) { sess_t *s = sess_new(); s->direct = anyway(); s->pattern = PAT_PINGPONG; s->rounds = 8; s->upmsg = s->downmsg = 30; s->up = s->down = 240; s->app_gap = s->org_gap = SEC; s->app_chunk = s->org_chunk = 30; s->expect = EXP_ANY; sess_start_at(s, t); }
        else { crowd_t *w = crowd[ncrowd++] = calloc(1, sizeof *w); w->kind = kind; w->id = i; at(t, crowd_open, w); }
    }
    int extra = (int)choose(5); for (int i = 0; i < extra; i++) work(now + choose((uint32_t)(span * 2)), anyway());
    run_until(now + span + choose(6 * SEC));
    for (int i = 0; i < ncrowd; i++) if (crowd[i]->c && !crowd[i]->c->closed) { if (choose(2)) conn_abort(crowd[i]->c); else conn_close(crowd[i]->c); }
    run_until(now + 40 * SEC);
    no_death();
    judge_ended("the crowd has left");
    for (int i = s0; i < steady_end; i++) if (!sess_complete(sess[i])) report_incomplete("others-hurt", sess[i]);
    int refused = 0; for (int i = last; i < nsess; i++) if (!sess_complete(sess[i])) refused++;
    if (refused) probe("sessions refused in the crowd");
    NODE_S->fdlimit = NODE_C->fdlimit = 1024;
    nontrivial();
    recovery(1);
    sample("%s: %d, %d sessions of %d refused ", nm[kind], k, refused, nsess - last);
}
/* more names remembered than there are buffers */
static void many_names(void) {
    prof.seg_mode = 0; prof.buf_mode = 0; prof.delay_mode = 0; prof.wake_mode = 0;
    work(now, 1); if (W.use_c) work(now, 0); web_begin(now, 0); web_begin(now, 1);
    if (!run_until_cond(done_all, now + 30 * SEC)) report_incomplete("stalled", sess[0]);
    int k = 300 + (int)choose(600), from = nsess; uint32_t ttl = choose(2) ? 10800 : 600 + choose(9000);
    probe("crowd of names"); fault(F_POOL_EXHAUST);
    for (int i = 0; i < k; i++) {
        sess_t *s = sess_new(); s->direct = 1; brief(s, 200); s->expect = EXP_ANY;
        char nm[64]; int n = snprintf(nm, sizeof nm, "n%d.many.test", i); sess_set_name(s, nm, n); rec_add(nm, s->ip, ttl); s->ip = 0;
        sess_start_at(s, now + i * 50 * MS);
    }
    run_until(now + k * 50 * MS + 40 * SEC);
    no_death();
    judge_ended("the last name");
    int refused = 0; for (int i = from; i < nsess; i++) if (!sess_complete(sess[i])) refused++;
    if (refused) probe("sessions refused with many names");
    nontrivial();
    recovery(0);
    sample("%d names, %d sessions refused ", k, refused);
}
static void begin(void) {
    world_defaults(); world_net_profile(0);
    W.use_c = (int)choose(2); W.mode_s = choose(3) == 2 ? 3 : 2; W.gw = (int)choose(2);
    web_tolerant(); web_files(); world_boot();
}
void scn_p16(void) { begin(); if (choose(4) == 3) no_descriptors(); else failing_calls(); }
void scn_p16b(void) { begin(); if (choose(3) == 2) many_names(); else no_buffers(); }
