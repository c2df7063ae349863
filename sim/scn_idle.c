/* P09, P18: connections in every phase that are silent, stalled or active at chosen intervals.
 * What counts as activity is taken from the simulated kernel: bytes the node reads from or writes to one of the sockets of the
 * connection, a connect it starts, a query it sends. */
#include "world.h"
extern int web_raw(unsigned char *out, int max, int keep);
extern void web_files(void);
extern void p05_body(int with_steps);

typedef struct {
    int id, kind; const char *what;
    sess_t *s; conn_t *c;             /* tunnel session, or a single connection */
    int web;                          /* limits of the web server apply */
    int64_t sig; usec_t last, prev;
    int nsteps; usec_t gap_max; int dir;    /* activity of an active one */
    unsigned char *b; int n, off;
    int cut;                          /* not sent across this offset at once */
    int active, done, left, ended_seen;
} vic_t;
static vic_t *vic[400]; static int nvic, n_idle, n_active, n_slow;
static usec_t slack = 1200 * MS; static int marathon;

static int64_t sig_sock(sock_t *k) { return k && k->tx && k->rx ? k->tx->total_read + k->rx->total_sent : 0; }
static int64_t signature(vic_t *v) {
    if (!v->s) return v->c ? sig_sock(v->c->s) : 0;
    return (v->s->app ? sig_sock(v->s->app->s) : 0) + (v->s->org ? sig_sock(v->s->org->s) : 0) + v->s->connects * 1000003 + v->s->lookup_sent * 1000003;
}
static conn_t *front(vic_t *v) { return v->s ? v->s->app : v->c; }
static void limits(vic_t *v, usec_t *lo, usec_t *hi) {
    if (v->web) { *lo = *hi = 5 * SEC; return; }
    if (v->s && v->s->state == ST_DATA) { *lo = *hi = 10 * SEC; return; }
    if (v->s && v->s->direct && v->s->connects) { *lo = *hi = 10 * SEC; return; }       /* its connect has ten seconds of its own */
    *lo = 5 * SEC; *hi = 10 * SEC;
}
static void look(void *unused) {
    for (int i = 0; i < nvic; i++) {
        vic_t *v = vic[i]; conn_t *c = front(v); usec_t lo, hi;
        if (!c || !c->connected || v->done) continue;
        if (c->closed && !c->ended) { v->done = 1; continue; }            /* left by itself */
        int64_t g = signature(v);
        if (g != v->sig || !v->last) { v->sig = g; v->prev = v->last; v->last = now; }
        sock_t *k = c->s->peer, *o = v->s && v->s->org ? v->s->org->s->peer : NULL; limits(v, &lo, &hi);
        int closed = (k && k->node && k->closed) || (o && o->node && o->closed) || c->ended;
        if (!closed) {
            if (now - v->last > hi + slack) violate("idle-not-closed", "%s: nothing moved for %.2f s (limit %lld s), still open", v->what, (now - v->last) / 1e6, (long long)(hi / SEC));
            continue;
        }
        v->done = 1;
        usec_t at_ = now, last = v->last;
        if (k && k->closed && k->closed_at < at_) at_ = k->closed_at;
        if (o && o->closed && o->closed_at < at_) at_ = o->closed_at;
        /* what happens while the node takes the connection down (the closing notice of TLS, discarded input) is not activity */
        if (at_ - last < (prof.preempt ? 150 : 30) * MS && v->prev) last = v->prev;
        if (v->left) continue;
        /* a node that is held up in its handlers counts from when they began */
        if (at_ - last < lo - ((v->s && !v->s->direct ? 600 : 60) + (prof.preempt ? 300 : 0)) * MS)        /* two nodes, each with its own clock start */ violate("closed-early", "%s: closed by the node %.3f s after the last activity (limit %lld s)", v->what, (at_ - last) / 1e6, (long long)(lo / SEC));
        v->ended_seen = 1;
    }
    after(20 * MS, look, NULL);
}
static vic_t *vic_new(const char *what) {
    vic_t *v = vic[nvic] = calloc(1, sizeof *v); v->id = nvic++; v->what = what; probe(what); return v;
}
/* raw bytes sent with pauses, then silence */
static void feed(void *a) {
    vic_t *v = a;
    if (v->c->ended || v->c->closed || v->off >= v->n) return;
    int left = v->n - v->off, cut = 0;
    if (v->cut > v->off && v->cut - v->off < left) { left = v->cut - v->off; cut = 1; }
    int k = cut && choose(3) ? left : 1 + (int)choose(left);
    conn_write(v->c, v->b + v->off, k); v->off += k;
    if (v->off < v->n) after(delay_us(1000, v->gap_max), feed, v);
}
static void vic_up(conn_t *c) { feed(c->user); }
static void vic_end(conn_t *c) { conn_close_after(c); }
static void web_more(void *a) {           /* next request of an active web client */
    vic_t *v = a; conn_t *c = v->c;
    if (c->ended || c->closed) return;
    if (v->nsteps-- <= 0) return;
    const char *r = "GET /echo HTTP/1.1\r\nConnection: keep-alive\r\n\r\n";
    conn_write(c, r, (int)strlen(r));
    after(delay_us(1000, v->gap_max), web_more, v);
}
static void web_up(conn_t *c) { web_more(c->user); }
static void session_traffic(void *a) {
    vic_t *v = a; sess_t *s = v->s; unsigned char buf[16384];
    if (!s->app || s->app->ended || s->app->closed || !s->org || s->org->ended || s->org->closed) return;
    if (v->nsteps-- <= 0) return;
    int up = v->dir == 0 || (v->dir == 2 && choose(2)); int n = 1 + (int)skewed(0, 12000);
    if (up) { stream_fill(s->key_up, s->app_sent, buf, n); s->app_sent += n; s->up = s->app_sent; conn_write(s->app, buf, n); }
    else { stream_fill(s->key_down, s->org_sent, buf, n); s->org_sent += n; s->down = s->org_sent; conn_write(s->org, buf, n); }
    after(delay_us(1000, v->gap_max), session_traffic, v);
}
static void on_ok(sess_t *s) { for (int i = 0; i < nvic; i++) if (vic[i]->s == s) session_traffic(vic[i]); }
static void flood_start(sess_t *s) {            /* one side pushes much more than the buffers hold, the other does not read or reads slowly */
    vic_t *v = NULL; for (int i = 0; i < nvic; i++) if (vic[i]->s == s) v = vic[i];
    conn_t *w = v->dir ? s->org : s->app, *r = v->dir ? s->app : s->org; int n = 300000; unsigned char *b = malloc(n);
    if (!s->org) return;
    stream_fill(v->dir ? s->key_down : s->key_up, 0, b, n);
    if (v->dir) { s->org_sent = s->down = n; } else { s->app_sent = s->up = n; }
    if (v->kind == 1) { conn_pause(r, 1); fault(F_PEER_STALL); }
    else { r->read_gap = delay_us(50 * MS, 8 * SEC); r->read_max = 200 + (int)choose(6000); }
    conn_write(w, b, n); free(b);
}
static sess_t *vsess(vic_t *v) {
    sess_t *s = v->s = sess_new(); s->pattern = PAT_DUPLEX; s->up = s->down = 0; s->expect = EXP_ANY; s->direct = !W.use_c || choose(2);
    s->closer = 2; s->on_success = on_ok; return s;
}
static void leave(void *a) { vic_t *v = a; conn_t *c = front(v); if (c && !c->closed) { v->left = 1; if (choose(2)) conn_close(c); else conn_abort(c); } }
static void light(void *unused) { dark_link = 0; }
static void open_vic(void *unused) {
    vic_t *v; sess_t *s; conn_t *c; usec_t lim; uint32_t from = IP(10, 8, nvic >> 8, nvic & 255);
    switch (choose(17)) {
    case 0: v = vic_new("silent on a TLS port"); n_idle++; v->c = conn_open(from, NODE_S->ip, choose(2) ? tunnel_entry() : W.https_port, 0, "quiet"); v->web = v->c->s->rport == W.https_port; break;
    case 1: v = vic_new("silent on the plain web port"); n_idle++; v->web = 1; v->c = conn_open(from, NODE_S->ip, W.http_port, 0, "quiet"); break;
    case 2: v = vic_new(W.use_c ? "silent on the local port" : "silent on the plain web port"); n_idle++; v->web = 1; v->c = W.use_c ? conn_open(from, NODE_C->ip, W.local_port, 0, "quiet") : conn_open(from, NODE_S->ip, W.http_port, 0, "quiet"); break;
    case 3: {   /* handshake that stops */
        v = vic_new("stopped in the TLS handshake"); n_idle++; v->b = malloc(300); v->n = 1 + (int)choose(200); memset(v->b, 0, 300); memcpy(v->b, "\x16\x03\x01\x01\x00\x01\x00\x00\xfc\x03\x03", 11);
        v->c = conn_open(from, NODE_S->ip, choose(2) ? tunnel_entry() : W.https_port, 0, "quiet"); v->gap_max = 4300 * MS; break;
    }
    case 4: v = vic_new("silent after the TLS handshake"); n_idle++; s = vsess(v); s->direct = 1; s->silent_after = ST_CONNECT; sess_start(s); break;
    case 5: v = vic_new("silent in the SOCKS handshake"); n_idle++; s = vsess(v); s->silent_after = choose(2) ? ST_AUTH : ST_GREET; if (!s->direct) s->silent_after = ST_GREET; sess_start(s); break;
    case 6: v = vic_new("target never answers"); n_idle++; s = vsess(v); s->answer = ANS_BLACKHOLE; if (choose(3) == 2) { char nm[40]; int n = snprintf(nm, sizeof nm, "dark%d.test", s->id); sess_set_name(s, nm, n); if (choose(2)) rec_add(nm, s->ip, 20); } sess_start(s); break;
    case 7: v = vic_new("stalled reader"); n_idle++; s = vsess(v); s->direct = 1; v->kind = 1; v->dir = (int)choose(2); s->on_success = flood_start; sess_start(s); break;
    case 8: v = vic_new("slow reader"); n_slow++; s = vsess(v); s->direct = 1; v->kind = 2; v->dir = (int)choose(2); s->on_success = flood_start; sess_start(s); break;
    case 9: v = vic_new("idle web connection"); n_idle++; v->web = 1; v->nsteps = 1 + (int)choose(8); v->gap_max = 4300 * MS;
        c = v->c = choose(2) ? conn_open(from, NODE_S->ip, W.http_port, 0, "quiet") : conn_open(from, NODE_S->ip, W.https_port, 1, "quiet"); v->active = 1; n_active++;
        c->user = v; c->on_up = web_up; c->on_end = vic_end; if (choose(5) == 4) after(delay_us(SEC, 20 * SEC), leave, v); return;
    case 10: v = vic_new("incomplete web request"); n_idle++; v->web = 1; v->b = malloc(20000); v->n = web_raw(v->b, 9000, 1); v->n = 1 + (int)choose(v->n > 30 && choose(2) ? 30 : v->n - 1); v->gap_max = 4300 * MS;
        v->c = choose(2) ? conn_open(from, NODE_S->ip, W.http_port, 0, "quiet") : conn_open(from, NODE_S->ip, W.https_port, 1, "quiet"); break;
    case 11: {  /* a body that stops */
        v = vic_new("incomplete body"); n_idle++; v->web = 1; v->b = malloc(20000); int body = 2 + (int)choose(choose(2) ? 20 : 12000);
        int h = sprintf((char *)v->b, "POST /echo HTTP/1.1\r\nContent-Length: %d\r\n\r\n", body); memset(v->b + h, 'b', body);
        v->n = h + (int)choose(body); v->cut = h + (int)choose(v->n - h + 1); v->gap_max = 4300 * MS;
        v->c = choose(2) ? conn_open(from, NODE_S->ip, W.http_port, 0, "quiet") : conn_open(from, NODE_S->ip, W.https_port, 1, "quiet"); break;
    }
    case 12:    /* stops anywhere in the messages before the transfer */
        v = vic_new("stops inside the tunnel handshake"); n_idle++; s = vsess(v); s->auth_split = s->direct && choose(2);
        if (choose(2)) { char nm[40]; int n = snprintf(nm, sizeof nm, "part%d.test", s->id); sess_set_name(s, nm, n); }
        sess_build_request(s); s->hs_max = 1 + (int)choose((s->direct ? 36 : 0) + s->greetn + s->reqn - 1); sess_start(s); break;
    case 13: {  /* a late answer to the query, then a late answer of the target, both in time */
        v = vic_new("slow set-up"); n_active++; s = vsess(v); v->active = 1; s->direct = 1; s->auth_split = (int)choose(2);
        if (choose(3)) { char nm[40]; int n = snprintf(nm, sizeof nm, "late%d.test", s->id); sess_set_name(s, nm, n); rec_add(nm, s->ip, 20); }
        s->answer_delay = delay_us(3 * SEC, 9400 * MS); v->nsteps = (int)choose(4); v->gap_max = 9300 * MS; v->dir = (int)choose(3); sess_start(s); break;
    }
    case 14:
        if (W.use_c) {      /* the connect to the tunnel server is never answered */
            v = vic_new("server never answers"); n_idle++; s = vsess(v); s->direct = 0; s->hs_max = choose(2) ? 0 : 1 + (int)choose(3); sess_start(s);
            if (!dark_link) { dark_link = 1; after(delay_us(100 * MS, 4 * SEC), light, NULL); }
            break;
        }
        /* fall through */
    default: v = vic_new("active session"); n_active++; s = vsess(v); v->active = 1; v->nsteps = (int)choose(12); if (marathon == 1) { marathon = 2; v->nsteps = 60 + (int)choose(400); probe("active for a long time"); } lim = 9300 * MS; v->gap_max = choose(3) ? lim : 1 + choose((uint32_t)lim); v->dir = (int)choose(3); sess_start(s); break;
    }
    c = front(v);
    if (!v->s) { c->user = v; c->on_up = vic_up; c->on_end = vic_end; }
    if (choose(5) == 4) after(delay_us(SEC, 20 * SEC), leave, v);
}
static int quiet_dns(sock_t *from, const char *name, const unsigned char *q, int qn, unsigned char *out) {
    rec_t *r = rec_find(name);
    if (!r) return 0;
    if (!strncmp(name, "late", 4)) { int n = dns_build_answer(q, qn, r, out); fault(F_DNS_DELAY); dns_send(from, r, out, n, delay_us(1 * MS, 4700 * MS), DNS_IP, 53); return 0; }
    return -1;
}
static int all_over(void) { for (int i = 0; i < nvic; i++) if (!vic[i]->done && !front(vic[i])->ended) return 0; return 1; }
static int stepped; static usec_t step_gap = 15 * SEC;
static void clock_step(void *unused) {
    static const usec_t mag[] = { SEC / 2, 2 * SEC, 4 * SEC, 7 * SEC, 20 * SEC, 60 * SEC, 3600 * SEC, 86400 * SEC, 365 * 86400LL * SEC };
    usec_t d = 1 + (usec_t)(mag[choose(9)] * (1 + choose(2000)) / 1000); int back = (int)choose(2);
    if (back && d > wall_offset / 2) d = wall_offset / 2;
    if (!back && wall_offset > 4000000000LL * SEC) back = 1;
    wall_offset += back ? -d : d; fault(F_CLOCK_STEP); stepped++;
    note("clock stepped by %.3f s", (back ? -d : d) / 1e6);
    if (stepped < 100) after(delay_us(100 * MS, step_gap), clock_step, NULL);
}
static void idle_body(int steps) {
    world_defaults();
    world_net_profile(1);
    if (prof.delay_mode == 2) prof.delay_mode = 1;
    if (prof.seg_mode == 2) prof.seg_mode = 1;
    W.use_c = (int)choose(2); W.mode_s = choose(3) == 2 ? 3 : 2; strict_targets = 0; check_prefix = 0;
    web_files();
    world_boot();
    dns_answer_hook = quiet_dns;
    int n = 2 + (int)(choose(5) == 4 ? choose(120) : choose(25)); usec_t span = choose(3) == 0 ? 2 * SEC : 25 * SEC;
    for (int i = 0; i < n; i++) at(now + delay_us(0, span), open_vic, NULL);
    marathon = choose(24) == 23;
    after(1 * MS, look, NULL);
    if (steps) after(delay_us(10 * MS, 10 * SEC), clock_step, NULL);
    run_until(now + span + 1);
    run_until_cond(all_over, now + (marathon == 2 ? 6000 : 200) * SEC);
    if (!node_alive(NODE_S)) violate("died", "the server process ended with code %d", NODE_S->exit_code);
    if (n_idle && n_active) nontrivial();
    sample("%d connections (%d active, %d slow readers), %d clock steps, %.0f s ", nvic, n_active, n_slow, stepped, now / 1e6);
}
void scn_p09(void) { idle_body(0); }
void scn_p18(void) { if (choose(3)) idle_body(1); else p05_body(1); if (stepped) nontrivial(); }
void clock_steps_begin(void) { step_gap = choose(2) ? 60 * SEC : 4000 * SEC; after(delay_us(10 * MS, 10 * SEC), clock_step, NULL); }
