/* P07, P08, P10: misbehaving peers on every port and behind every connection a node opens. */
#include "world.h"
#include <arpa/inet.h>
extern int malformed(const unsigned char *q, int qn, unsigned char *o);
extern int web_raw(unsigned char *out, int max, int keep);
extern void web_files(void);

#define FAKE_IP IP(198, 51, 100, 9)
#define ODD_PORT 40000                  /* targets from here on belong to misbehaving origins */
typedef struct { conn_t *c; unsigned char *b; int n, off, id; usec_t gap; int end; int stall; int whole; const char *what; int cut[8], ncut; } actor_t;
static actor_t *act[600]; static int nact; static int acts_up, quiet_targets;
static usec_t hostile_until;

/* ---- contents ---- */
static int rnd(unsigned char *b, int n) { for (int i = 0; i < n; i++) b[i] = (unsigned char)choose(256); return n; }
static int mutate(unsigned char *b, int n, int max) {
    int k = (int)choose(4);
    while (k--) {
        int i = n ? (int)choose(n) : 0;
        switch (choose(8)) {
        case 0: if (n) b[i] ^= 1 << choose(8); break;
        case 1: if (n) b[i] = (unsigned char)choose(256); break;
        case 2: if (n) { static const unsigned char v[] = { 0, 1, 2, 127, 128, 255, 254, 5 }; b[i] = v[choose(8)]; } break;
        case 3: n = i; break;
        case 4: { int l = (int)choose(64); if (n + l < max) { memmove(b + i + l, b + i, n - i); rnd(b + i, l); n += l; } break; }
        case 5: if (n) { int l = (int)choose(n - i + 1); memmove(b + i, b + i + l, n - i - l); n -= l; } break;
        case 6: if (n) { int l = 1 + (int)choose(n - i > 0 ? n - i : 1); if (i + l <= n && n + l < max) { memmove(b + i + l, b + i, n - i); n += l; } } break;
        default: { int l = (int)choose(600); if (n + l < max) { rnd(b + n, l); n += l; } }
        }
    }
    return n;
}
static uint16_t odd_port(void) { return (uint16_t)(ODD_PORT + choose(1000)); }
static int socks(unsigned char *b) {
    int n = 0; int nm = choose(3) == 2 ? (int)choose(256) : 1;
    b[n++] = 5; b[n++] = (unsigned char)nm; for (int i = 0; i < nm; i++) b[n++] = (unsigned char)(choose(2) ? 0 : choose(256));
    b[n++] = 5; b[n++] = (unsigned char)(choose(6) ? 1 : choose(256)); b[n++] = 0;
    switch (choose(5)) {
    case 0: case 1: b[n++] = 1; b[n++] = 203; b[n++] = 0; b[n++] = 113; b[n++] = (unsigned char)choose(256); break;
    case 2: case 3: {
        b[n++] = 3; int l = choose(3) == 2 ? (int)choose(256) : 1 + (int)choose(40); b[n++] = (unsigned char)l; int dot = 0;
        for (int i = 0; i < l; i++) { b[n++] = (unsigned char)(choose(12) == 0 && dot ? '.' : choose(40) ? "abcxyz019-"[choose(10)] : choose(256)); dot = b[n - 1] != '.'; }
        break;
    }
    default: b[n++] = (unsigned char)choose(256); n += rnd(b + n, (int)choose(20));
    }
    uint16_t p = odd_port(); b[n++] = p >> 8; b[n++] = p & 255;
    return n;
}
static int auth(unsigned char *b, int good) {
    uint32_t m = htonl(0xa001beef); memcpy(b, &m, 4); memset(b + 4, 0, 32); strncpy((char *)b + 4, W.keys[choose(W.nkeys)], 16);
    if (!good) { switch (choose(3)) { case 0: b[4 + choose(16)] ^= 1 << choose(8); break; case 1: rnd(b + 4, 32); break; default: rnd(b, 36); } }
    return 36;
}
static int http(unsigned char *b, int max) {
    int n = 0; char t[12000];
    switch (choose(15)) {
    case 0: n = web_raw(b, max, 1); n = mutate(b, n, max); break;
    case 1: n = web_raw(b, max, 1); if (n > 4000) n = 4000; n += web_raw(b + n, max - n, (int)choose(2)); n = mutate(b, n, max); break;
    case 2: n = sprintf(t, "GET /"); while (n < 3000 + (int)choose(6000)) t[n++] = "abc/.%"[choose(6)]; n += sprintf(t + n, " HTTP/1.1\r\n\r\n"); memcpy(b, t, n); break;
    case 3: { n = sprintf(t, "GET / HTTP/1.1\r\n"); int k = (int)choose(60); for (int i = 0; i < k && n < 9000; i++) n += sprintf(t + n, "H%d:%s\r\n", i, choose(3) ? " v" : ""); n += sprintf(t + n, "%s\r\n", choose(2) ? "Connection: keep-alive\r\n" : ""); memcpy(b, t, n); break; }
    case 4: { static const char *cl[] = { "-1", "0", "1", "10485760", "10485761", "99999999999", "4294967296", "2147483647", "-2147483648", "abc", "", "16384", "100000", "0x10", " 5 5", "00000000000000000005" };
        n = sprintf(t, "%s /echo HTTP/1.1\r\nContent-Length: %s\r\n%s\r\nbody-body-body", choose(4) ? "POST" : "GET", cl[choose(16)], choose(2) ? "Connection: keep-alive\r\n" : ""); memcpy(b, t, n); n += rnd(b + n, (int)choose(3000)); break; }
    case 5: { static const char *l[] = { "GET http://host HTTP/1.1\r\n\r\n", "GET  HTTP/1.1\r\n\r\n", "GET\r\n\r\n", "GET / HTTP/1.1\n\n", "\r\n\r\n\r\n", "GET / \r\n\r\n", "GET http:// HTTP/1.1\r\n\r\n", "GET http://:/ HTTP/1.1\r\n\r\n",
        "GET : HTTP/1.1\r\n\r\n", " / HTTP/1.1\r\n\r\n", "GET /%00 HTTP/1.1\r\n\r\n", "ABCDEFGHIJKLMNOPQ / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\n:\r\n\r\n", "GET / HTTP/1.1\r\nA\r\n\r\n", "GET / HTTP/1.1\r\n \r\n\r\n", "POST /index.html HTTP/1.1\r\n\r\n",
        "HEAD / HTTP/1.1\r\n\r\n", "GET /a/../.. HTTP/1.1\r\n\r\n", "GET /. HTTP/1.1\r\n\r\n", "GET /.. HTTP/1.1\r\n\r\n", "G / HTTP/1.1\r\n\r\n", "GET http://h:80 HTTP/1.1\r\n\r\n / HTTP/1.1\r\n\r\n", "GET /\rX HTTP/1.1\r\n\r\n" };
        n = sprintf(t, "%s", l[choose(23)]); memcpy(b, t, n); break; }
    case 6: n = rnd(b, (int)choose(9000)); break;
    case 7: { int k = 10 + (int)choose(choose(4) == 3 ? 2500 : 300); static const char *rq[] = { "GET /x HTTP/1.1\r\nConnection: keep-alive\r\n\r\n", "GET /echo HTTP/1.1\r\nConnection: keep-alive\r\n\r\n", "GET / HTTP/1.1\r\nConnection: keep-alive\r\n\r\n" }; const char *r = rq[choose(3)];
        int l = (int)strlen(r); for (int i = 0; i < k && n + l < max; i++) { memcpy(b + n, r, l); n += l; } probe("flood of pipelined requests"); break; }
    case 8: n = sprintf(t, "GET / HTTP/1.1\r\nX: "); while (n < 4000 + (int)choose(300)) t[n++] = 'v'; n += sprintf(t + n, "\r\n\r\n"); memcpy(b, t, n); break;
    case 9: n = sprintf(t, "GET / HTTP/1.1\r\n"); while (n < 4000 + (int)choose(300)) t[n++] = 'k'; n += sprintf(t + n, ": v\r\n\r\n"); memcpy(b, t, n); break;
    case 10: { int k = 4060 + (int)choose(60); n = sprintf(t, "GET / HTTP/1.1\r\nX:"); while (n < k - 4) t[n++] = 'v'; n += sprintf(t + n, "\r\n\r\nGET / HTTP/1.1\r\n\r\n"); memcpy(b, t, n); break; }   /* fills the request buffer exactly */
    case 11: { int k = 4060 + (int)choose(60); n = sprintf(t, "GET /"); while (n < k - 11) t[n++] = 'u'; n += sprintf(t + n, " HTTP/1.1\r\n\r\n"); memcpy(b, t, n); break; }
    case 12: n = sprintf(t, "GET / HTTP/1.1\r\nConnection: keep-alive\r\n\r\n"); memcpy(b, t, n); n += rnd(b + n, (int)choose(200)); break;
    case 13: { int k = (int)choose(2) ? 300 : 4000; k = 5 + (int)choose(k); n = sprintf(t, "GET /f%s", choose(2) ? "." : "/."); while (n < k) t[n++] = 'e'; n += sprintf(t + n, " HTTP/1.1\r\n\r\n"); memcpy(b, t, n); break; }   /* one long extension */
    default: n = web_raw(b, max, 0);
    }
    return n;
}
static int tls_like(unsigned char *b) {
    int n = 0, recs = 1 + (int)choose(3);
    while (recs--) { int l = (int)choose(choose(4) == 3 ? 18000 : 600); b[n++] = choose(4) ? 0x16 : 0x14 + choose(5); b[n++] = 3; b[n++] = (unsigned char)choose(5); b[n++] = (unsigned char)(l >> 8); b[n++] = (unsigned char)l; int k = choose(3) ? l : (int)choose(l + 1); if (choose(2) && k > 4) { int s = n; n += rnd(b + n, k); b[s] = 1; b[s + 1] = 0; b[s + 2] = (unsigned char)((k - 4) >> 8); b[s + 3] = (unsigned char)(k - 4); } else n += rnd(b + n, k); }
    return n;
}

/* ---- behaviour ---- */
static void act_finish(actor_t *a) {
    if (a->c->closed) return;
    switch (a->end) {
    case 0: conn_close_after(a->c); break;
    case 1: fault(F_RST); conn_abort(a->c); break;
    case 2: fault(F_PEER_FIN); a->c->close_when_flushed = 2; conn_cb(a->c->s, EVT_WRITE, a->c); break;
    default: fault(F_PEER_STALL); break;       /* stays, says nothing more */
    }
}
static void act_step(void *v) {
    actor_t *a = v;
    if (a->c->closed || a->c->ended) return;
    if (a->off < a->n) {
        int left = a->n - a->off, k = a->whole ? left : 1 + (int)choose(choose(3) ? left : left < 30 ? left : 30);
        for (int i = 0; i < a->ncut; i++) if (a->cut[i] > a->off && a->cut[i] < a->off + k) k = a->cut[i] - a->off;
        conn_write(a->c, a->b + a->off, k); a->off += k;
        after(1 + choose((uint32_t)a->gap), act_step, a); return;
    }
    act_finish(a);
}
static void act_up(conn_t *c) { acts_up++; act_step(c->user); }
static void act_end(conn_t *c) { actor_t *a = c->user; if (a->end != 3 || choose(2)) conn_close_after(c); }
static void act_cutoff(void *v) { actor_t *a = v; if (a->c && !a->c->closed) { fault(F_RST); if (choose(2)) conn_abort(a->c); else conn_close(a->c); } }
static void act_cleanup(void *v) { actor_t *a = v; if (a->c && !a->c->closed) { if (choose(2)) conn_abort(a->c); else conn_close(a->c); } }
static actor_t *actor(int max) {
    if (nact == 600) sim_error("too many actors");
    actor_t *a = act[nact++] = calloc(1, sizeof *a); a->id = nact; a->b = malloc(max); a->whole = choose(3) == 2; a->gap = delay_us(1, choose(3) ? 50 * MS : 2 * SEC); a->end = (int)choose(4);
    return a;
}
static void act_attach(actor_t *a, conn_t *c) {
    a->c = c; c->user = a; c->on_up = act_up; c->on_end = act_end; c->on_data = NULL;
    if (c->use_tls && choose(4) == 3) c->corrupt = 150;
    if (choose(5) == 4) { c->read_paused = 1; fault(F_PEER_STALL); }
    if (choose(4) == 3) after(delay_us(10, 6 * SEC), act_cutoff, a);
    /* nobody outlives the run: gone for good after the server's limits have had their chance */
    at((now > hostile_until ? now : hostile_until) + 15 * SEC + choose(5 * SEC), act_cleanup, a);
    if (c->connected && !c->use_tls) act_up(c);
}
static void act_start(void *v) {
    actor_t *a = v; conn_t *c; uint32_t from = IP(10, 9, a->id >> 8, a->id & 255); unsigned char *b = a->b;
    int kinds = W.use_c ? 9 : 8;
    fault(F_GARBAGE);
    switch (choose(kinds)) {
    case 0: case 1: {      /* tunnel client */
        int n = 0; int g = choose(4) != 3;
        n = auth(b, g); a->cut[a->ncut++] = 36; if (choose(8) == 7) { n = (int)choose(36); }
        if (choose(4)) { int k = socks(b + n); if (k > 2 && b[n + 1] < 255) { a->cut[a->ncut++] = n + 2 + b[n + 1]; } n += k; }
        if (choose(2)) n += rnd(b + n, (int)choose(20000));
        if (choose(2)) n = mutate(b, n, 40000);
        a->n = n; a->what = "tunnel client"; c = conn_open(from, NODE_S->ip, tunnel_entry(), 1, "odd-tun"); break;
    }
    case 2: case 3: a->n = http(b, 110000); a->what = "web client"; c = conn_open(from, NODE_S->ip, W.http_port, 0, "odd-web"); break;
    case 4: a->n = http(b, 110000); a->what = "secure web client"; c = conn_open(from, NODE_S->ip, W.https_port, 1, "odd-https"); break;
    case 5: a->n = choose(2) ? tls_like(b) : rnd(b, (int)choose(5000)); a->what = "no TLS client"; c = conn_open(from, NODE_S->ip, choose(2) ? tunnel_entry() : W.https_port, 0, "odd-raw"); break;
    case 6: a->n = 0; a->end = 3; a->what = "silent"; c = conn_open(from, NODE_S->ip, choose(3) == 0 ? W.http_port : choose(2) ? tunnel_entry() : W.https_port, (int)choose(2), "odd-silent"); break;
    case 7: a->n = 0; a->end = 1; a->what = "comes and goes"; c = conn_open(from, NODE_S->ip, choose(3) == 0 ? W.http_port : choose(2) ? tunnel_entry() : W.https_port, 0, "odd-rst"); break;
    default: {             /* application of the client node */
        int n = socks(b); if (n > 2) a->cut[a->ncut++] = 2 + b[1];
        if (choose(2)) n += rnd(b + n, (int)choose(30000));
        if (choose(2)) n = mutate(b, n, 40000);
        if (choose(6) == 5) n = rnd(b, (int)choose(20000));
        a->n = n; a->what = "application"; c = conn_open(from, NODE_C->ip, W.local_port, 0, "odd-app");
    }
    }
    probe(a->what);
    act_attach(a, c);
}
/* origins of hostile requests */
static void (*good_route)(sock_t *, uint32_t, uint16_t, route_t *);
static void org_first(sock_t *k, int what, void *v) {
    actor_t *a = v;
    if (!a->c) { conn_t *c = conn_wrap(k, 0); a->n = (int)choose(choose(3) ? 3000 : 60000); stream_fill(mix64(a->id), 0, a->b, a->n); probe("misbehaving origin"); act_attach(a, c); }
    if (a->c && !a->c->closed) conn_cb(k, what, a->c);
}
static void fake_first(sock_t *k, int what, void *v) {
    actor_t *a = v;
    if (!a->c) {
        int tls = choose(4) != 3; conn_t *c = conn_wrap(k, tls); unsigned char *b = a->b; int n = 0;
        b[n++] = 5; b[n++] = 0; a->cut[a->ncut++] = 2; b[n++] = 5; b[n++] = (unsigned char)(choose(3) ? 0 : choose(9)); b[n++] = 0; b[n++] = 1; for (int i = 0; i < 6; i++) b[n++] = 0; a->cut[a->ncut++] = 12;
        n += rnd(b + n, (int)choose(20000));
        if (choose(2)) n = mutate(b, n, 40000); if (choose(5) == 4) n = tls_like(b);
        a->n = n; probe("misbehaving tunnel server"); act_attach(a, c);
    }
    if (a->c && !a->c->closed) conn_cb(k, what, a->c);
}
static int fake_used;
static void hostile_route(sock_t *from, uint32_t ip, uint16_t port, route_t *r) {
    if (from->node == NODE_C && ip == FAKE_IP) {
        fake_used++;
        static const int an[] = { ANS_ACCEPT, ANS_ACCEPT, ANS_ACCEPT, ANS_REFUSE, ANS_BLACKHOLE, ANS_UNREACH };
        r->answer = now > hostile_until ? ANS_ACCEPT : an[choose(6)]; r->delay = delay_us(1, 300 * MS); r->role = "fake";
        actor_t *a = actor(60000); r->cb = fake_first; r->arg = a; return;
    }
    if (from->node == NODE_S && sess_by_port(port) && (quiet_targets || port < ODD_PORT)) { good_route(from, ip, port, r); return; }
    if (from->node == NODE_S) {
        static const int an[] = { ANS_ACCEPT, ANS_ACCEPT, ANS_ACCEPT, ANS_REFUSE, ANS_BLACKHOLE, ANS_UNREACH };
        r->answer = an[choose(6)]; r->delay = delay_us(1, choose(4) ? 200 * MS : 20 * SEC); r->role = "odd-origin";
        actor_t *a = actor(60000); r->cb = org_first; r->arg = a; return;
    }
    r->answer = ANS_REFUSE;
}
static int dns_bad;
static int hostile_dns(sock_t *from, const char *name, const unsigned char *q, int qn, unsigned char *out) {
    rec_t *r = rec_find(name); uint32_t sip = DNS_IP; unsigned char b[1600];
    if (r) return -1;                               /* a good session's name */
    rec_t x; memset(&x, 0, sizeof x); x.exists = choose(4) != 3; x.ip = IP(203, 0, 113, 1 + choose(200)); x.ttl = 1 + choose(50);
    int k = (int)choose(4); usec_t t = 1;
    for (int i = 0; i < k; i++) {
        t += delay_us(1, 2 * SEC);
        if (choose(2)) dns_send(from, NULL, b, malformed(q, qn, b), t, sip, 53); else dns_send(from, NULL, b, dns_build_answer(q, qn, &x, b), t, sip, 53);
    }
    return 0;
}
/* a well-behaved session that ends quickly unless something is wrong */
static void brief(sess_t *s, int max) {
    sess_random_traffic(s, max); s->app_gap = s->org_gap = 0; s->app_chunk = s->org_chunk = 16384;
    if (s->pattern == PAT_PINGPONG) { s->rounds = 1 + (int)choose(4); s->upmsg = 1 + choose(200); s->downmsg = 1 + choose(200); s->up = s->upmsg * s->rounds; s->down = s->downmsg * s->rounds; }
}
static sess_t *good(usec_t t, int direct) {
    sess_t *s = sess_new(); good_route = route_hook; route_hook = hostile_route;
    s->direct = direct; s->port = (uint16_t)(20000 + s->id);
    brief(s, prof.seg_mode == 2 ? 500 : 8000);
    if (choose(4) == 3) { char nm[64]; int n = snprintf(nm, sizeof nm, "good%d.test", s->id); sess_set_name(s, nm, n); rec_add(nm, s->ip, 20); }
    sess_start_at(s, t);
    return s;
}
static usec_t t_begin;
static void hostile_setup(int fake_ok) {
    world_defaults();
    world_net_profile(0);
    W.use_c = choose(3) != 0; W.mode_s = choose(3) == 2 ? 3 : 2; W.gw = (int)choose(2);
    if (W.use_c && fake_ok && choose(3) == 2) strcpy(W.serv_ip, "198.51.100.9");
    strict_targets = 0;
    web_files();
    world_boot();
    t_begin = now; dns_answer_hook = hostile_dns; dnsprof.cname = choose(2) ? 200 : 0;
    /* warm up: everything that is set up once */
    sess_t *s = sess_new(); good_route = route_hook; route_hook = hostile_route; s->direct = 1; brief(s, 100); sess_start(s);
    if (W.use_c && !W.serv_ip[0]) { s = sess_new(); route_hook = hostile_route; brief(s, 100); s->direct = 0; sess_start(s); }
}
static void hostile_start(int n, usec_t span) {
    hostile_until = now + span;
    for (int i = 0; i < n; i++) { actor_t *a = actor(120000); at(now + delay_us(0, span), act_start, a); }
}
static int good_done(void) { for (int i = 0; i < nsess; i++) if (!sess_complete(sess[i])) return 0; return 1; }
static void no_death(void) {
    if (!node_alive(NODE_S)) violate("died", "the server process ended with code %d", NODE_S->exit_code);
    if (W.use_c && !node_alive(NODE_C)) violate("died", "the client process ended with code %d", NODE_C->exit_code);
}
/* a plain web request that has to be answered */
typedef struct { conn_t *c; char b[400]; int n, ok, tls; } wprobe_t;
static void wp_up(conn_t *c) { const char *r = "GET /echo HTTP/1.1\r\nX-Probe: yes\r\n\r\n"; conn_write(c, r, (int)strlen(r)); }
static void wp_data(conn_t *c, const unsigned char *p, int n) { wprobe_t *w = c->user; if (w->n + n < 399) { memcpy(w->b + w->n, p, n); w->n += n; } }
static void wp_end(conn_t *c) { wprobe_t *w = c->user; if (strstr(w->b, "200") && strstr(w->b, "GMT")) w->ok = 1; conn_close_after(c); }
static void wp_open(void *v) {
    wprobe_t *w = v; w->c = conn_open(IP(10, 7, 0, 1), NODE_S->ip, w->tls ? W.https_port : W.http_port, w->tls, "probe");
    w->c->user = w; w->c->on_up = wp_up; w->c->on_data = wp_data; w->c->on_end = wp_end;
}
static void wp_slow(void *v) { wprobe_t *w = v; if (!w->ok) violate("delayed", "a web request is not answered within 8 s (ended %d, %d bytes)", w->c->ended, w->n); }
static wprobe_t *wp(usec_t t, int tls) { wprobe_t *w = calloc(1, sizeof *w); w->tls = tls; at(t, wp_open, w); return w; }
static void final_probe(void) {
    wprobe_t *w1 = wp(now, 0), *w2 = wp(now, 1);
    good(now + 1, 1); if (W.use_c && !W.serv_ip[0]) good(now + 1, 0);
    conn_t *fc = NULL; int f0 = fake_used;
    if (W.serv_ip[0]) { fc = conn_open(IP(10, 7, 0, 2), NODE_C->ip, W.local_port, 0, "probe"); conn_write(fc, "\5\1\0", 3); }
    run_until_cond(good_done, now + 20 * SEC); run_until(now + 5 * SEC);
    no_death();
    for (int i = 0; i < nsess; i++) if (!sess_complete(sess[i])) report_incomplete("not-served-afterwards", sess[i]);
    if (!w1->ok || !w2->ok) violate("not-served-afterwards", "a web request after the misbehaving clients is not answered (plain %d, secure %d)", w1->ok, w2->ok);
    if (fc && fake_used == f0) violate("not-served-afterwards", "the client node does not react to a new application");
    if (fc && !fc->closed) conn_close(fc);
}
/* a peer that sends requests without end and takes the answers */
static void flood_up(conn_t *c) {
    int k = 4000 + (int)choose(4000); char r[200]; int n = snprintf(r, sizeof r, "GET /%s HTTP/1.1\r\nConnection: keep-alive\r\n\r\n", choose(2) ? "echo" : choose(2) ? "nothing" : "");
    char *b = malloc((size_t)k * n); for (int i = 0; i < k; i++) memcpy(b + (size_t)i * n, r, n);
    conn_write(c, b, k * n); free(b); probe("thousands of requests at once");
}
static void flood_end(conn_t *c) { conn_close_after(c); }
static void flood(void *a) {
    int tls = a != NULL; conn_t *c = conn_open(IP(10, 2, 3, 4), NODE_S->ip, tls ? W.https_port : W.http_port, tls, "flood");
    c->on_up = flood_up; c->on_end = flood_end;
}
void scn_p07(void) {
    hostile_setup(1);
    if (choose(16) == 15) { prof.buf_mode = 4; prof.seg_mode = 0; if (prof.delay_mode == 2) prof.delay_mode = 1; at(now + delay_us(0, 3 * SEC), flood, choose(2) ? &nact : NULL); }
    if (!run_until_cond(good_done, now + 20 * SEC)) report_incomplete("stalled", sess_complete(sess[0]) ? sess[1] : sess[0]);
    prof.eintr = choose(3) == 2 ? 20 : 0; prof.accept_abort = choose(3) == 2 ? 50 : 0; prof.faults_on = 1;
    int n = 1 + (int)skewed(0, choose(8) == 7 ? 150 : 30);
    hostile_start(n, choose(2) ? 3 * SEC : 12 * SEC);
    run_until(hostile_until + 22 * SEC);
    prof.accept_abort = 0;
    final_probe();
    if (acts_up) nontrivial();
    sample("%d misbehaving peers, %d connected ", nact, acts_up);
}
void scn_p08(void) {
    hostile_setup(1);
    if (!run_until_cond(good_done, now + 20 * SEC)) report_incomplete("stalled", sess_complete(sess[0]) ? sess[1] : sess[0]);
    run_until(now + 100 * SEC);
    idle_baseline();
    int rounds = 1 + (int)choose(2);
    prof.eintr = choose(3) == 2 ? 20 : 0; prof.faults_on = 1;
    for (int r = 0; r < rounds; r++) {
        int n = 1 + (int)skewed(0, 25), g = (int)choose(6), s0 = nsess;
        hostile_start(n, choose(2) ? 3 * SEC : 12 * SEC);
        for (int i = 0; i < g; i++) good(now + delay_us(0, 4 * SEC), !W.use_c || W.serv_ip[0] || choose(2));
        for (int i = s0; i < nsess; i++) if (choose(3) == 2) { sess[i]->answer = choose(2) ? ANS_REFUSE : ANS_BLACKHOLE; sess[i]->expect = EXP_FAIL; }
        run_until(hostile_until + 22 * SEC);
        for (int i = s0; i < nsess; i++) if (sess[i]->app && !sess[i]->app->closed) sess_leave(sess[i], (int)choose(2));
        /* longest limit is 10 s, cached names live 50 s at most and are purged every 30 s */
        run_until(now + 40 * SEC + 60 * SEC);
        no_death();
        check_nothing_left(NODE_S); if (W.use_c) check_nothing_left(NODE_C);
    }
    if (acts_up) nontrivial();
    sample("%d misbehaving peers, %d connected, %d sessions ", nact, acts_up, nsess);
}
#define P10_LIMIT (8 * SEC)
static void too_slow(void *v) {
    sess_t *s = v;
    if (!sess_complete(s)) violate("delayed", "session %d is not complete %.1f s after it began (state %d, %lld/%lld up, %lld/%lld down)", s->id, (now - s->start_at) / 1e6, s->state, (long long)s->org_rcvd, (long long)s->up, (long long)s->app_rcvd, (long long)s->down);
}
/* many kept connections that all ask at the same moment */
typedef struct { conn_t *c; int first, n, asked; char b[64]; } cw_t;
static const char *cw_req = "GET /echo HTTP/1.1\r\nConnection: keep-alive\r\n\r\n";
static void cw_up(conn_t *c) { conn_write(c, cw_req, (int)strlen(cw_req)); }
static void cw_data(conn_t *c, const unsigned char *p, int n) {
    cw_t *w = c->user; w->first += !w->asked;
    if (w->asked) for (int i = 0; i < n && w->n < 63; i++) w->b[w->n++] = p[i];
}
static void cw_end(conn_t *c) { conn_close_after(c); }
static void cw_open(void *v) {
    cw_t *w = v; int tls = w->asked; w->asked = 0;
    w->c = conn_open(IP(10, 7, 1, 1), NODE_S->ip, tls ? W.https_port : W.http_port, tls, "crowd");
    w->c->user = w; w->c->on_up = cw_up; w->c->on_data = cw_data; w->c->on_end = cw_end;
}
static void cw_slow(void *v) { cw_t *w = v; if (w->asked && !strstr(w->b, "200")) violate("delayed", "a web request on a kept connection is not answered within 8 s (ended %d, %d bytes)", w->c->ended, w->n); if (!w->c->closed) conn_close(w->c); }
static void cw_ask(void *v) {
    cw_t *w = v; usec_t n = now;
    if (!w->first || w->c->ended || w->c->closed) return;
    w->asked = 1; cw_up(w->c); at(n + P10_LIMIT, cw_slow, w); probe("one of a crowd asks");
}
static void crowd_go(void *v) { NODE_S->stall_until = now + delay_us(MS, 300 * MS); }
static void crowd_start(void) {
    int n = 20 + (int)choose(choose(2) ? 60 : 250); usec_t t = now + 2500 * MS;
    for (int i = 0; i < n; i++) {
        cw_t *w = calloc(1, sizeof *w); w->asked = choose(8) == 7;
        at(now + (usec_t)i * 2000 * MS / n, cw_open, w); at(t + (usec_t)choose(choose(2) ? 50 : 20000), cw_ask, w);
    }
    if (choose(2)) at(t, crowd_go, NULL);
    int g = 1 + (int)choose(10);
    for (int i = 0; i < g; i++) { usec_t ts = t - 20 * MS + (usec_t)choose(40) * MS; sess_t *s = good(ts, !W.use_c || choose(2)); at(ts + P10_LIMIT, too_slow, s); }
    probe("crowd at one moment");
}
void scn_p10(void) {
    hostile_setup(0);
    quiet_targets = 1;
    if (!run_until_cond(good_done, now + 20 * SEC)) report_incomplete("stalled", sess_complete(sess[0]) ? sess[1] : sess[0]);
    prof.eintr = choose(3) == 2 ? 20 : 0; prof.accept_abort = choose(3) == 2 ? 100 : 0; prof.accept_emfile = choose(5) == 4 ? 60 : 0; prof.faults_on = 1;
    int n = 1 + (int)skewed(0, choose(6) == 5 ? 100 : 25), g = 2 + (int)choose(10); usec_t span = choose(2) ? 3 * SEC : 12 * SEC;
    hostile_start(n, span);
    for (int i = 0; i < g; i++) {
        usec_t t = now + delay_us(0, span); sess_t *s = good(t, !W.use_c || choose(2));
        at(t + P10_LIMIT, too_slow, s);
        if (choose(2)) { t = now + delay_us(0, span); at(t + P10_LIMIT, wp_slow, wp(t, (int)choose(2))); }
    }
    if (choose(8) == 7 && prof.delay_mode != 2 && prof.seg_mode != 2) { crowd_start(); if (hostile_until < now + 5 * SEC) hostile_until = now + 5 * SEC; }
    run_until(hostile_until + P10_LIMIT + 1);
    no_death();
    usec_t worst = 0;
    for (int i = 0; i < nsess; i++) { usec_t d = sess[i]->done_at - sess[i]->start_at; if (d > worst) worst = d; }
    if (worst > 2 * SEC) probe("worst session above 2 s"); if (worst > 4 * SEC) probe("worst session above 4 s");
    if (acts_up) nontrivial();
    sample("%d misbehaving peers, %d connected, %d sessions, slowest %.3f s ", nact, acts_up, nsess, worst / 1e6);
}
