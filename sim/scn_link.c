/* P17: everything on the link between the two tunnel ends is TLS, and nothing is served outside TLS. */
#include "world.h"
#include <arpa/inet.h>
extern void web_files(void);
#define FAKE_IP IP(198, 51, 100, 9)

/* ---- wiretap ---- */
typedef struct { pipe_t *p; int hdrn; unsigned char hdr[5]; int left; int types; unsigned char tail[64]; int tailn; int64_t off; int judge; } tap_t;
static tap_t taps[1000]; static int ntap; static int64_t tapped, records;
typedef struct { unsigned char b[64]; int n; const char *what; } mark_t;
static mark_t marks[200]; static int nmark;
static void mark(const void *b, int n, const char *what) {
    if (n < 8) return;
    if (n > 32) n = 32;
    if (nmark < 200) { memcpy(marks[nmark].b, b, n); marks[nmark].n = n; marks[nmark++].what = what; }
}
static void tap(pipe_t *p, const unsigned char *d, int n) {
    tap_t *t = NULL;
    for (int i = 0; i < ntap; i++) if (taps[i].p == p) t = &taps[i];
    if (!t) { if (ntap == 1000) return; t = &taps[ntap++]; t->p = p; t->judge = p->from->node != NULL; }
    tapped += n;
    if (!t->judge) return;                /* sent by a simulated peer */
    const char *who = p->from->node->name;
    unsigned char *w = malloc(t->tailn + n); memcpy(w, t->tail, t->tailn); memcpy(w + t->tailn, d, n); int wn = t->tailn + n;
    for (int i = 0; i < nmark; i++) if (memmem(w, wn, marks[i].b, marks[i].n)) violate("in-clear", "%s sends %s in clear on the link", who, marks[i].what);
    t->tailn = wn < 31 ? wn : 31; memcpy(t->tail, w + wn - t->tailn, t->tailn); free(w);
    for (int i = 0; i < n; i++) {
        if (t->left) { int k = n - i < t->left ? n - i : t->left; t->left -= k; i += k - 1; continue; }
        t->hdr[t->hdrn++] = d[i];
        if (t->hdrn == 1 && (d[i] < 20 || d[i] > 23)) violate("not-tls", "%s sends byte 0x%02x where a TLS record begins (offset %lld)", who, d[i], (long long)(t->off + i));
        if (t->hdrn == 2 && d[i] != 3) violate("not-tls", "%s sends a record of version %d.x", who, d[i]);
        if (t->hdrn == 5) {
            int l = t->hdr[3] << 8 | t->hdr[4], ty = t->hdr[0];
            if (l > 16384 + 2048) violate("not-tls", "%s sends a record of %d bytes", who, l);
            if (ty == 23 && !(t->types & (1 << 22 % 20))) violate("not-tls", "%s sends application data before any handshake", who);
            t->types |= 1 << ty % 20; t->left = l; t->hdrn = 0; records++;
        }
    }
    t->off += n;
}
static void watch(sock_t *s) { if (s->node == NODE_C) s->wiretap = 1; }

/* ---- applications that do not wait ---- */
static unsigned char payload[64];
typedef struct { conn_t *c; unsigned char b[30000]; int n, off; usec_t gap; int cut; } eager_t;
static void eager_go(void *a) {
    eager_t *e = a;
    if (e->c->closed || e->c->ended) return;
    if (e->off < e->n) { int k = choose(2) ? e->n - e->off : 1 + (int)choose(e->n - e->off); conn_write(e->c, e->b + e->off, k); e->off += k; after(1 + choose((uint32_t)e->gap), eager_go, e); return; }
    if (e->cut == 1) conn_close_after(e->c); else if (e->cut == 2) { fault(F_RST); conn_abort(e->c); }
}
static void eager_up(conn_t *c) { eager_go(c->user); }
static void eager_end(conn_t *c) { conn_close_after(c); }
static void eager_start(void *unused) {
    eager_t *e = calloc(1, sizeof *e); int n = 0;
    e->b[n++] = 5; e->b[n++] = 1; e->b[n++] = 0;
    n += sprintf((char *)e->b + n, "%c%c%c%c%csecret-host.example%c%c", 5, 1, 1, 3, 19, 80, 80); e->b[5] = 0;
    int k = 1 + (int)choose(300); for (int i = 0; i < k && n < 29000; i++) { memcpy(e->b + n, payload, 64); n += 64; }
    e->n = choose(3) ? n : 1 + (int)choose(n); e->gap = delay_us(1, 200 * MS); e->cut = (int)choose(3);
    e->c = conn_open(IP(10, 6, 0, 1 + choose(200)), NODE_C->ip, W.local_port, 0, "eager"); e->c->user = e; e->c->on_up = eager_up; e->c->on_end = eager_end;
    probe("application that sends at once");
}
/* ---- servers that are none ---- */
static int fakes;
static void fake_data(conn_t *c, const unsigned char *p, int n) {
    unsigned char b[3000]; int k = 0;
    switch (choose(6)) {
    case 0: k = 2; memcpy(b, "\5\0", 2); break;
    case 1: k = 12; memcpy(b, "\5\0\5\0\0\1\0\0\0\0\0\0", 12); break;
    case 2: k = 1 + (int)choose(3000); for (int i = 0; i < k; i++) b[i] = (unsigned char)choose(256); break;
    case 3: k = 7; memcpy(b, "\x15\3\3\0\2\2\x28", 7); break;
    case 4: fault(F_RST); conn_abort(c); return;
    default: break;
    }
    if (k) conn_write(c, b, k);
    if (choose(3) == 2) conn_close_after(c);
}
static void fake_end(conn_t *c) { conn_close_after(c); }
static void fake_cut(void *a) { conn_t *c = a; if (!c->closed) { fault(F_RST); if (choose(2)) conn_abort(c); else conn_close(c); } }
typedef struct { conn_t *c; } fake_t;
static void fake_cb(sock_t *k, int what, void *a) {
    fake_t *f = a;
    if (!f->c) {
        int tls = choose(3) == 2; f->c = conn_wrap(k, tls); f->c->on_data = fake_data; f->c->on_end = fake_end; fakes++;
        probe(tls ? "TLS server that is no tunnel server" : "server without TLS");
        if (tls && choose(2)) f->c->corrupt = 200;
        if (choose(2)) after(delay_us(10, 4 * SEC), fake_cut, f->c);
        if (!tls && choose(3) == 2) { conn_write(f->c, "\5\0", 2); }
    }
    if (!f->c->closed) conn_cb(k, what, f->c);
}
static void (*good_route)(sock_t *, uint32_t, uint16_t, route_t *);
static void link_route(sock_t *from, uint32_t ip, uint16_t port, route_t *r) {
    if (from->node == NODE_C && ip == FAKE_IP) { r->answer = choose(8) ? ANS_ACCEPT : ANS_REFUSE; r->delay = net_delay(); r->cb = fake_cb; r->arg = calloc(1, sizeof(fake_t)); r->role = "fake"; return; }
    if (from->node == NODE_S && port >= 50000) violate("served-outside-tls", "the server connects out for a tunnel request received without TLS");
    if (from->node == NODE_S && !sess_by_port(port)) { r->answer = ANS_REFUSE; return; }
    if (good_route) good_route(from, ip, port, r); else r->answer = ANS_REFUSE;
}
/* ---- clients without TLS on the secure ports ---- */
typedef struct { conn_t *c; unsigned char b[3000]; int n, off; unsigned char got[600]; int gotn; int secure; } plain_t;
static void plain_go(void *a) { plain_t *p = a; if (p->c->closed || p->c->ended || p->off >= p->n) return; int k = choose(2) ? p->n - p->off : 1 + (int)choose(p->n - p->off); conn_write(p->c, p->b + p->off, k); p->off += k; after(delay_us(1, SEC), plain_go, p); }
static void plain_up(conn_t *c) { plain_go(c->user); }
static void plain_data(conn_t *c, const unsigned char *d, int n) {
    plain_t *p = c->user;
    for (int i = 0; i < n && p->gotn < 599; i++) p->got[p->gotn++] = d[i];
    if (p->secure) {
        if (p->gotn && p->got[0] != 21) violate("served-outside-tls", "the secure port answers a client without TLS with 0x%02x...", p->got[0]);
        if (memmem(p->got, p->gotn, "HTTP/1.1", 8)) violate("served-outside-tls", "the secure port answers a plain request");
    } else if (p->gotn >= 2 && p->got[0] == 5 && p->got[1] == 0) violate("served-outside-tls", "the plain web port answers a tunnel client");
}
static int nplain;
static void plain_start(void *unused) {
    plain_t *p = calloc(1, sizeof *p); int n = 0, port = choose(4) == 0 ? W.http_port : choose(2) ? tunnel_entry() : W.https_port;
    p->secure = port != W.http_port;
    if (choose(2) || !p->secure) {
        uint32_t m = htonl(0xa001beef); if (choose(5)) { memcpy(p->b, &m, 4); strncpy((char *)p->b + 4, W.local_key, 16); n = 36; }
        memcpy(p->b + n, "\5\1\0\5\1\0\1\313\0\161\7", 11); n += 11; int t = 50000 + (int)choose(1000); p->b[n++] = t >> 8; p->b[n++] = t & 255;
    } else n = sprintf((char *)p->b, "GET /%s HTTP/1.1\r\nHost: x\r\n\r\n", choose(2) ? "" : "echo");
    p->n = n;
    p->c = conn_open(IP(10, 5, 0, 1 + choose(200)), NODE_S->ip, port, 0, "plain"); p->c->user = p; p->c->on_up = plain_up; p->c->on_data = plain_data; p->c->on_end = eager_end;
    nplain++; probe("client without TLS");
}
static void flow_cut(void *unused) {       /* the network resets something */
    int k = ntap ? (int)choose(ntap) : -1;
    if (k >= 0 && !taps[k].p->from->closed && taps[k].p->from->state == S_ESTAB) { fault(F_RST); net_reset_flow(taps[k].p->from); probe("link reset"); }
}
void scn_p17(void) {
    world_defaults(); world_net_profile(0);
    W.use_c = 1; W.mode_s = choose(3) == 2 ? 3 : 2; strict_targets = 0;
    int fake = choose(3) == 2; if (fake) strcpy(W.serv_ip, "198.51.100.9");
    while (strlen(W.local_key) < 8) { int i = (int)strlen(W.local_key); W.local_key[i] = 'k'; W.local_key[i + 1] = 0; }
    strcpy(W.keys[0], W.local_key);
    wiretap_hook = tap; node_connect_hook = watch;
    for (int i = 0; i < 64; i++) payload[i] = stream_byte(77, i);
    mark(payload, 32, "application data"); mark(payload + 32, 32, "application data"); mark(W.local_key, (int)strlen(W.local_key) > 16 ? 16 : (int)strlen(W.local_key), "the key"); mark("secret-host.example", 19, "the requested name");
    web_files();
    world_boot();
    int ns = fake ? 0 : (int)choose(6), ne = (int)choose(6) + (fake ? 1 : 0), np = (int)choose(5);
    route_hook = link_route;
    for (int i = 0; i < ns; i++) {
        sess_t *s = sess_new(); good_route = route_hook; route_hook = link_route;
        sess_random_traffic(s, prof.seg_mode == 2 ? 800 : 20000); s->expect = EXP_ANY; s->direct = 0; s->loss_ok = 1;
        if (choose(2)) { char nm[64]; int n = snprintf(nm, sizeof nm, "session-host-%d.test", s->id); sess_set_name(s, nm, n); rec_add(nm, s->ip, 20); mark(nm, n, "the requested name"); }
        sess_build_request(s); if (s->dst == DST_IP) mark(s->req, s->reqn, "the request");
        unsigned char b[32]; stream_fill(s->key_up, 0, b, 32); mark(b, 16, "application data"); stream_fill(s->key_down, 0, b, 32); mark(b, 16, "application data");
        sess_start_at(s, now + delay_us(0, 5 * SEC));
    }
    for (int i = 0; i < ne; i++) at(now + delay_us(0, 5 * SEC), eager_start, NULL);
    for (int i = 0; i < np; i++) at(now + delay_us(0, 5 * SEC), plain_start, NULL);
    if (choose(3) == 2) for (int i = 0; i < 4; i++) at(now + delay_us(0, 6 * SEC), flow_cut, NULL);
    prof.eintr = choose(3) == 2 ? 20 : 0; prof.faults_on = 1;
    run_until(now + 30 * SEC);
    if (!node_alive(NODE_S) || !node_alive(NODE_C)) violate("died", "a process ended");
    if (records > 1) nontrivial();
    sample("%d sessions, %d eager applications, %d fake servers, %d plain clients, %lld bytes in %lld records tapped ", ns, ne, fakes, nplain, (long long)tapped, (long long)records);
}
