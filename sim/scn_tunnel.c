/* Scenarios about tunnelled sessions: P01, P02. */
#include "world.h"

static const char *pat_name[] = { "req-resp", "duplex", "upload", "download", "ping-pong" };
static void finish_tunnel(usec_t limit) {
    run_until_cond(all_complete, now + limit);
}
static void count_probes(void) {
    for (int i = 0; i < nsess; i++) {
        sess_t *s = sess[i];
        if (s->state == ST_DATA) { probe("session reached data phase"); if (s->app_rcvd + s->org_rcvd > 0) nontrivial(); }
        if (i < 4) sample("[session %d %s %s up %lld/%lld down %lld/%lld] ", i, s->direct ? "direct" : "via client", pat_name[s->pattern], (long long)s->org_rcvd, (long long)s->up, (long long)s->app_rcvd, (long long)s->down);
        if (sess_complete(s)) probe("session complete");
        if (s->up > 12288 && s->down > 12288) probe("both directions exceed relay buffer");
    }
}
/* now and then one session moves megabytes */
static int big_run(void) {
    if (choose(16) != 15) return 0;
    prof.buf_mode = 4; prof.seg_mode = 0; prof.preempt = prof.send_short = 0; if (prof.delay_mode == 2) prof.delay_mode = 1;
    return 1;
}
static void big_session(void) {
    sess_t *s = sess_new(); int64_t max = choose(3) == 2 ? 8000000 : 2500000;
    if (W.use_c && choose(3) == 2) s->direct = 1;
    sess_random_traffic(s, max); s->pattern = choose(3) == 2 ? PAT_DUPLEX : choose(2) ? PAT_UPLOAD : PAT_DOWNLOAD;
    s->up = s->pattern == PAT_DOWNLOAD ? 0 : 500000 + choose((uint32_t)max); s->down = s->pattern == PAT_UPLOAD ? 0 : 500000 + choose((uint32_t)max);
    s->app_chunk = s->org_chunk = 16384 + (int)choose(100000); s->app_gap = s->org_gap = 0;
    sess_start_at(s, now + delay_us(0, 3 * SEC)); probe("megabytes in one session");
}
/* P02: no destructive faults; everything must arrive and the ends must follow. */
void scn_p02(void) {
    world_defaults();
    world_net_profile(1);
    W.use_c = choose(4) != 3; W.mode_s = choose(3) == 2 ? 3 : 2;
    int big = big_run();
    world_boot();
    if (big) big_session();
    int n = 1 + (int)choose(5);
    for (int i = 0; i < n; i++) {
        sess_t *s = sess_new();
        if (W.use_c && choose(5) == 4) s->direct = 1;
        sess_random_traffic(s, maxpay);
        sess_start_at(s, now + delay_us(0, 3 * SEC));
    }
    finish_tunnel(900 * SEC);
    count_probes();
    for (int i = 0; i < nsess; i++) if (!sess_complete(sess[i])) {
        sess_t *s = sess[i];
        report_incomplete(s->app && (s->app->ended || (s->org && s->org->ended)) ? "truncated" : "stalled", s);
    }
}
/* P01: anything may fail; what arrives must be right. */
static void rough_event(void *a) {
    int live = 0; sess_t *pick[64];
    for (int i = 0; i < nsess; i++) if (sess[i]->app && !sess[i]->app->closed && live < 64) pick[live++] = sess[i];
    if (live) {
        sess_t *s = pick[choose(live)];
        s->loss_ok = 1;
        switch (choose(5)) {
        case 0: fault(F_RST); net_reset_flow(s->app->s); break;
        case 1: if (s->org && !s->org->closed) { fault(F_RST); net_reset_flow(s->org->s); } break;
        case 2: sess_leave(s, 0); break;
        case 3: sess_leave(s, 1); break;
        default: if (s->org && !s->org->closed) { fault(F_PEER_FIN); conn_abort(s->org); } break;
        }
    }
}
static void restart(void *a) { node_t *n = a; if (!n->running) { fault(F_RESTART); node_start(n); } }
static void crash_event(void *a) {
    node_t *n = choose(2) && W.use_c ? NODE_C : NODE_S;
    if (!n->running) return;
    for (int i = 0; i < nsess; i++) sess[i]->loss_ok = 1;
    node_crash(n);
    after(delay_us(1, 3 * SEC), restart, n);
}
void scn_p01(void) {
    world_defaults();
    world_net_profile(1);
    W.use_c = choose(4) != 3; W.mode_s = choose(3) == 2 ? 3 : 2;
    prof.eintr = choose(3) == 2 ? 20 : 0;
    int big = big_run();
    world_boot();
    if (big) big_session();
    int n = 1 + (int)choose(7);
    for (int i = 0; i < n; i++) {
        sess_t *s = sess_new();
        if (W.use_c && choose(5) == 4) s->direct = 1;
        sess_random_traffic(s, maxpay);
        sess_start_at(s, now + delay_us(0, 3 * SEC));
    }
    prof.faults_on = 1;
    int k = (int)choose(5);
    for (int i = 0; i < k; i++) at(now + delay_us(0, 8 * SEC), rough_event, NULL);
    if (choose(4) == 3) at(now + delay_us(0, 6 * SEC), crash_event, NULL);
    finish_tunnel(120 * SEC);
    run_until(now + 12 * SEC);
    count_probes();
}
