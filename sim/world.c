#include "world.h"
#include <sys/socket.h>
#include <arpa/inet.h>

wcfg_t W;
sess_t *sess[MAXSESS]; int nsess;
int strict_targets = 1, check_prefix = 1;
int64_t maxpay = 200000;
static struct { int fds; long allocs, ssl; } base[NNODES];

/* ---------------- configuration ---------------- */
static void rnd_key(char *out) {
    static const char cs[] = "abcdefgh01234567";
    int n = 16 - (int)choose(13);
    for (int i = 0; i < n; i++) out[i] = cs[choose(16)];
    out[n] = 0;
}
uint16_t any_port(uint16_t **w, int n) {      /* different from the n others */
    static const uint16_t edge[] = { 1, 80, 255, 256, 443, 1023, 1024, 32767, 32768, 65535 };
    for (;;) {
        uint16_t p = choose(3) == 2 ? edge[choose(10)] : (uint16_t)(1 + choose(65535)); int i;
        for (i = 0; i < n && *w[i] != p; i++);
        if (i == n) return p;
    }
}
/* a path of up to 256 characters */
static void rnd_path(char *b, const char *dir, const char *end) {
    int n = sprintf(b, "%s/x", dir), want = choose(3) ? 10 + (int)choose(40) : choose(2) ? 60 + (int)choose(196) : 256, el = (int)strlen(end);
    for (int l = 1; n < want - el; n++, l++) { b[n] = l > 20 && n < want - el - 1 && choose(9) == 8 ? l = 0, '/' : "abcdefghijklmnopqrstuvwxyz0123456789-_."[choose(39)]; if (!l) continue; if (b[n] == '.' && l == 1) b[n] = 'd'; }
    strcpy(b + n, end);
}
static void ip_str(char *o, uint32_t ip) { sprintf(o, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255); }
void world_defaults(void) {
    memset(&W, 0, sizeof W);
    W.use_c = 1; W.mode_s = 2; W.local_port = 1080; W.tun_port = 3333; W.http_port = 8080; W.https_port = 8443;
    if (choose(3) == 2) {                 /* other ports than the usual ones */
        uint16_t *w[] = { &W.local_port, &W.tun_port, &W.http_port, &W.https_port };
        for (int i = 0; i < 4; i++) *w[i] = any_port(w, i);
    }
    W.nkeys = 1 + (int)choose(4);
    for (int i = 0; i < W.nkeys; i++) {
    again:
        rnd_key(W.keys[i]);
        for (int j = 0; j < i; j++) if (!strcmp(W.keys[i], W.keys[j])) { snprintf(W.keys[i], 40, "key%d", i); if (!strcmp(W.keys[j], W.keys[i])) goto again; }
    }
    strcpy(W.local_key, W.keys[choose(W.nkeys)]);
    W.log_level = 2; W.gw = 1; tls_vary = choose(3) == 2;
    strcpy(W.home, "/usr/local/s5/www"); strcpy(W.index, "index.html");
    strcpy(W.crt, "/usr/local/s5/certificate/server.crt"); strcpy(W.keyp, "/usr/local/s5/certificate/server.key"); strcpy(W.auth, "/usr/local/s5/config/s5_auth.json");
    if (choose(4) == 3) {                 /* other places than the usual ones */
        static const char *ix[] = { "index.html", "default.htm", "i", "start.page.txt", "main.js" };
        strcpy(W.index, ix[choose(5)]);
        if (choose(2)) rnd_path(W.home, "/srv", choose(2) ? "" : "/");
        if (choose(2)) rnd_path(W.crt, "/etc/ssl", ".pem");
        if (choose(2)) rnd_path(W.keyp, "/etc/ssl/private", ".pem");
        if (choose(2)) rnd_path(W.auth, "/var/lib", ".json");
        probe("configured paths");
    }
    W.dns_ip = IP(192, 168, 7, 1); NODE_S->ip = IP(10, 0, 0, 2);
    if (choose(4) == 3) {                 /* other addresses than the usual ones */
        static const uint32_t a[] = { IP(192, 168, 107, 101), IP(9, 9, 9, 9), IP(172, 216, 100, 200), IP(223, 255, 255, 254), IP(128, 0, 0, 1), IP(100, 64, 0, 10) };
        int k = (int)choose(6); W.dns_ip = a[k]; NODE_S->ip = a[(k + 1 + choose(5)) % 6]; probe("configured addresses");
    }
    ip_str(W.dns_str, W.dns_ip); ip_str(W.srv_str, NODE_S->ip);
    switch (choose(8)) {                  /* how long the machine has been up */
    case 5: uptime0 = choose(100 * 86400) * SEC; break;
    case 6: uptime0 = 0x80000000LL * MS - choose(choose(2) ? 4000 : 30) * SEC; break;    /* about 25 days */
    case 7: uptime0 = 0x100000000LL * MS - choose(choose(2) ? 4000 : 30) * SEC; break;   /* about 50 days */
    }
    if (choose(6) == 5) wall_offset = (choose(2) ? 0x7fffffffLL - choose(40) : choose(46000) * 86400LL + choose(86400)) * SEC;    /* another date */
    dns_setup();
}
void world_net_profile(int tiny_ok) {
    prof.seg_mode = (int)choose(3);
    prof.delay_mode = (int)choose(3);
    prof.buf_mode = (int)choose(tiny_ok ? 4 : 3); if (prof.buf_mode == 0 && choose(4) == 3) prof.buf_mode = 4;
    prof.wake_mode = (int)choose(3);
    prof.shuffle = (int)choose(2);
    prof.conn_immediate = choose(4) == 3 ? 300 : 0;
    prof.preempt = choose(4) == 3 ? (choose(2) ? 20 : choose(2) ? 200 : 900) : 0;
    prof.send_short = choose(4) == 3 ? 20 + (int)choose(400) : 0;
    maxpay = prof.buf_mode == 3 ? 30000 : prof.buf_mode == 2 ? 80000 : 200000;
    if (prof.seg_mode == 2) maxpay = maxpay > 6000 ? 6000 : maxpay;
}
static void put_str(const char *root, const char *path, const char *data) {
    char p[512]; snprintf(p, sizeof p, "%s%s", root, path); vfs_put(p, data, (int)strlen(data), 0644);
}
void world_write_files(void) {
    for (int i = 0; i < NNODES; i++) {
        const char *r = nodes[i].root; char p[512];
        snprintf(p, sizeof p, "%s/usr/local/s5/logs", r); vfs_mkdir(p);
        snprintf(p, sizeof p, "%s%s", r, W.home); if (p[strlen(p) - 1] == '/') p[strlen(p) - 1] = 0; vfs_mkdir(p);
        put_str(r, "/dev/null", "");
        put_str(r, W.crt, cert_pem);
        put_str(r, W.keyp, key_pem);
    }
    char cfg[4096], gw[64] = ""; if (W.gw) snprintf(gw, sizeof gw, " \"s5_serv_gw\":\"%s\",\n", W.dns_str);
    snprintf(cfg, sizeof cfg,
        "{\n \"sys_daemon\":0,\n \"sys_process\":%d,\n \"sys_log_level\":%d,\n \"ssl_crt_path\":\"%s\",\n"
        " \"ssl_key_path\":\"%s\",\n \"s5_mode\":1,\n \"s5_local_port\":%d,\n \"s5_local_serv_port\":%d,\n"
        " \"s5_local_serv_ip\":\"%s\",\n \"s5_local_auth\":\"%s\",\n \"http_arr\":[],\n \"https_arr\":[],\n"
        " \"http_home\":\"%s\",\n \"http_index\":\"%s\"\n}\n",
        W.nproc_c, W.log_level, W.crt, W.keyp, W.local_port, tunnel_entry(), W.serv_ip[0] ? W.serv_ip : W.srv_str, W.local_key, W.home, W.index);
    put_str("/C", "/usr/local/s5/config/config.json", cfg);
    snprintf(cfg, sizeof cfg,
        "{\n \"sys_daemon\":%d,\n \"sys_process\":%d,\n \"sys_log_level\":%d,\n \"ssl_crt_path\":\"%s\",\n"
        " \"ssl_key_path\":\"%s\",\n \"s5_mode\":%d,\n \"s5_serv_port\":%d,\n"
        " \"s5_serv_auth_path\":\"%s\",\n%s \"http_arr\":[%d],\n \"https_arr\":[%d],\n"
        " \"http_home\":\"%s\",\n \"http_index\":\"%s\"\n}\n",
        W.daemon, W.nproc_s, W.log_level, W.crt, W.keyp, W.mode_s ? W.mode_s : 2, W.tun_port, W.auth, gw, W.http_port, W.https_port, W.home, W.index);
    put_str("/S", "/usr/local/s5/config/config.json", cfg);
    int o = snprintf(cfg, sizeof cfg, "[\n");
    for (int i = 0; i < W.nkeys; i++) o += snprintf(cfg + o, sizeof cfg - o, "    \"%s\"%s\n", W.keys[i], i + 1 < W.nkeys ? "," : "");
    snprintf(cfg + o, sizeof cfg - o, "]\n");
    put_str("/S", W.auth, cfg);
}
uint16_t tunnel_entry(void) { return W.mode_s == 3 ? W.https_port : W.tun_port; }
static int booted(void) { return NODE_S->waiting && NODE_S->wait_ep && (!W.use_c || (NODE_C->waiting && NODE_C->wait_ep)); }
void world_boot(void) {
    world_write_files();
    node_start(NODE_S);
    if (W.use_c) node_start(NODE_C);
    if (!run_until_cond(booted, 5 * SEC)) violate("start", "a node did not start (server exited=%d code=%d, client exited=%d)", NODE_S->exited, NODE_S->exit_code, NODE_C->exited);
    idle_baseline();
}
void idle_baseline(void) {
    for (int i = 0; i < NNODES; i++) { base[i].fds = node_open_fds(&nodes[i]); base[i].allocs = nodes[i].live_allocs; base[i].ssl = nodes[i].live_ssl; }
}
extern const char *flavour;
void check_nothing_left(node_t *n) {
    char tab[600];
    if (n->bad_fd_calls) violate("bad-fd", "%s: %s (%d times)", n->name, n->bad_fd_what, n->bad_fd_calls);
    if (node_open_fds(n) != base[n->idx].fds) {
        node_fd_table(n, tab, sizeof tab);
        violate("leak-fd", "%s holds %d descriptors at rest, %d before; now:%s", n->name, node_open_fds(n), base[n->idx].fds, tab);
    }
    if (n->live_allocs > base[n->idx].allocs && !strcmp(flavour, "asan")) violate("leak-memory", "%s holds %ld allocated objects at rest, %ld before", n->name, n->live_allocs, base[n->idx].allocs);
    if (n->live_ssl != base[n->idx].ssl) violate("leak-tls", "%s holds %ld TLS objects at rest, %ld before", n->name, n->live_ssl, base[n->idx].ssl);
}

/* ---------------- targets ---------------- */
sess_t *sess_by_port(uint16_t port) { for (int i = nsess - 1; i >= 0; i--) if (sess[i]->port == port && sess[i]->used) return sess[i]; return NULL; }
sess_t *sess_by_name(const char *name, int n) { for (int i = nsess - 1; i >= 0; i--) if (sess[i]->used && sess[i]->dst == DST_NAME && sess[i]->namelen == n && !memcmp(sess[i]->name, name, n)) return sess[i]; return NULL; }
void sess_set_name(sess_t *s, const void *name, int n) { s->dst = DST_NAME; memcpy(s->name, name, n); s->name[n] = 0; s->namelen = n; }
static int target_allowed(sess_t *s, uint32_t ip) {
    if (s->dst == DST_IP) return s->ip == ip;
    char nm[300]; snprintf(nm, sizeof nm, "%s", s->name); int l = (int)strlen(nm); if (l > 1 && nm[l - 1] == '.') nm[l - 1] = 0;
    rec_t *r = rec_find(nm);
    if (!r) return 0;
    if (r->ip == ip) return 1;
    for (int i = 0; i < r->nhist; i++) if (r->hist[i] == ip) return 1;
    return 0;
}
static void org_open(sess_t *s, sock_t *k);
static void org_cb(sock_t *k, int what, void *arg) {     /* first notification for an accepted origin connection */
    sess_t *s = arg;
    if (!s->org || s->org->s != k) org_open(s, k);
    conn_cb(k, what, s->org);
}
static void on_route(sock_t *from, uint32_t ip, uint16_t port, route_t *r) {
    sess_t *s = sess_by_port(port);
    if (from->node != NODE_S && strict_targets) violate("wrong-target", "%s connects to %u.%u.%u.%u:%d, which is not the tunnel server", from->node ? from->node->name : "?", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255, port);
    if (!s) {
        if (strict_targets) violate("wrong-target", "server connects to %u.%u.%u.%u:%d, which no client asked for", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255, port);
        r->answer = ANS_REFUSE; return;
    }
    if (strict_targets && !target_allowed(s, ip))
        violate("wrong-target", "session %d asked for %s:%d but the server connects to %u.%u.%u.%u", s->id, s->dst == DST_NAME ? "a name" : "another address", port, ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255);
    if (s->app && s->app->closed && now - s->close_at > 15 * SEC) probe("late connect");
    if (s->deny) violate("unauthorised", "session %d: outbound connection although %s", s->id, s->deny_why ? s->deny_why : "its key is not accepted");
    if (target_hook) target_hook(s, ip);
    s->connects++; s->connect_at = now; s->learned = ip;
    if (s->connects > 1 && strict_targets) violate("double-connect", "session %d: the server opened %d outbound connections for one request", s->id, s->connects);
    if (s->state < ST_REQ && strict_targets) violate("unasked", "session %d: outbound connection before its request was sent", s->id);
    r->answer = s->answer; r->delay = s->answer_delay; r->cb = org_cb; r->arg = s; r->role = "origin";
    if (s->answer != ANS_ACCEPT) s->refused_seen = 1;
}

/* ---------------- data phase ---------------- */
static void app_send_more(sess_t *s);
static void org_send_more(sess_t *s);
static int64_t app_quota(sess_t *s) {      /* how much the application may have sent by now */
    if (s->pattern == PAT_PINGPONG) { int64_t r = s->app_rcvd / (s->downmsg ? s->downmsg : 1); int64_t q = (r + 1) * s->upmsg; return q < s->up ? q : s->up; }
    return s->up;
}
static int64_t org_quota(sess_t *s) {
    if (s->pattern == PAT_REQRESP) return s->org_rcvd >= s->up ? s->down : 0;
    if (s->pattern == PAT_PINGPONG) { int64_t r = s->org_rcvd / (s->upmsg ? s->upmsg : 1); int64_t q = r * s->downmsg; return q < s->down ? q : s->down; }
    return s->down;
}
static void app_maybe_close(sess_t *s) {
    if (!s->app || s->app->closed || s->state != ST_DATA) return;
    int sent = s->app_sent >= s->up;
    if (s->pattern == PAT_UPLOAD && sent) { s->close_at = now; s->app_closed_by_us = 1; conn_close_after(s->app); }
    else if (s->pattern == PAT_PINGPONG && sent && s->app_rcvd >= s->down) { s->close_at = now; s->app_closed_by_us = 1; conn_close_after(s->app); }
    else if (s->pattern == PAT_DUPLEX && s->closer == 0 && sent && s->app_rcvd >= s->down) { s->close_at = now; s->app_closed_by_us = 1; conn_close_after(s->app); }
}
static void org_maybe_close(sess_t *s) {
    if (!s->org || s->org->closed) return;
    int sent = s->org_sent >= s->down;
    if ((s->pattern == PAT_REQRESP && sent && s->org_rcvd >= s->up) || (s->pattern == PAT_DOWNLOAD && sent)
        || (s->pattern == PAT_DUPLEX && s->closer == 1 && sent && s->org_rcvd >= s->up)) { s->close_at = now; conn_close_after(s->org); }
}
static void app_tick(void *a) { app_send_more(a); }
static void org_tick(void *a) { org_send_more(a); }
static void app_send_more(sess_t *s) {
    unsigned char buf[16384];
    if (!s->app || s->app->closed || s->app->ended || s->state != ST_DATA) return;
    int64_t q = app_quota(s);
    while (s->app_sent < q && conn_backlog(s->app) < 40000) {
        int64_t k = q - s->app_sent; if (k > s->app_chunk) k = s->app_chunk;
        if (k > (int64_t)sizeof buf) k = sizeof buf;
        stream_fill(s->key_up, s->app_sent, buf, (int)k);
        s->app_sent += k;
        conn_write(s->app, buf, (int)k);
        if (s->app_gap && s->app_sent < q) { after(1 + choose((uint32_t)s->app_gap), app_tick, s); return; }
    }
    if (s->app_gap && s->app_sent < q) { after(1 + choose((uint32_t)s->app_gap), app_tick, s); return; }      /* backlog full: try later */
    app_maybe_close(s);
}
static void org_send_more(sess_t *s) {
    unsigned char buf[16384];
    if (!s->org || s->org->closed || s->org->ended) return;
    int64_t q = org_quota(s);
    while (s->org_sent < q && conn_backlog(s->org) < 40000) {
        int64_t k = q - s->org_sent; if (k > s->org_chunk) k = s->org_chunk;
        if (k > (int64_t)sizeof buf) k = sizeof buf;
        stream_fill(s->key_down, s->org_sent, buf, (int)k);
        s->org_sent += k;
        conn_write(s->org, buf, (int)k);
        if (s->org_gap && s->org_sent < q) { after(1 + choose((uint32_t)s->org_gap), org_tick, s); return; }
    }
    if (s->org_gap && s->org_sent < q) { after(1 + choose((uint32_t)s->org_gap), org_tick, s); return; }      /* backlog full: try later */
    org_maybe_close(s);
}
static void expect_stream(sess_t *s, uint64_t key, int64_t off, int64_t limit, const unsigned char *p, int n, const char *dir) {
    if (!check_prefix) return;
    if (off + n > limit) violate("extra-bytes", "session %d: %s received %lld bytes, only %lld were sent", s->id, dir, (long long)(off + n), (long long)limit);
    unsigned char e[16384];
    stream_fill(key, off, e, n);
    if (memcmp(e, p, n)) {
        int i = 0; while (e[i] == p[i]) i++;
        violate("corrupt-bytes", "session %d: byte %lld received by the %s differs from the byte sent", s->id, (long long)(off + i), dir);
    }
}
static void org_data(conn_t *c, const unsigned char *p, int n) {
    sess_t *s = c->user;
    expect_stream(s, s->key_up, s->org_rcvd, s->app_sent, p, n, "origin");
    s->org_rcvd += n;
    org_send_more(s);
}
static void org_end(conn_t *c) {
    sess_t *s = c->user;
    s->org_eof = c->ended; conn_close_after(c);
}
static void org_drain(conn_t *c) { sess_t *s = c->user; if (!s->org_gap) org_send_more(s); else org_maybe_close(s); }
/* some peers read slowly, but fast enough (>= 40 kB/s) that a full socket buffer drains well within the 10 s idle limit */
static void slow_reader(conn_t *c) {
    if (choose(4) != 3) return;
    c->read_gap = delay_us(100, 30 * MS);
    c->read_max = 1 + (int)(c->read_gap / 25) + (int)choose(4000); if (prof.buf_mode == 4) c->read_max += (int)c->read_gap * 2;
}
static void org_open(sess_t *s, sock_t *k) {
    conn_t *c = s->org = conn_wrap(k, 0);
    s->conn_up_at = now;
    c->user = s; c->on_data = org_data; c->on_end = org_end; c->on_drain = org_drain;
    slow_reader(c);
    org_send_more(s);
}

/* ---------------- application side ---------------- */
static void send_pieces(sess_t *s, const unsigned char *p, int n) {
    if (s->app->closed) return;
    if (s->hs_max && n > s->hs_max - s->hs_out) n = s->hs_max - s->hs_out;
    if (n <= 0) return;
    s->hs_out += n;
    conn_write(s->app, p, n);
}
typedef struct { sess_t *s; int off, n; const unsigned char *p; } piece_t;
static void piece_go(void *a) {
    piece_t *k = a; sess_t *s = k->s;
    if (s->app->closed || s->app->ended) { free(k); return; }
    int left = k->n - k->off, c = choose(2) ? left : 1 + (int)choose(left);
    if (c == left) c = left;
    send_pieces(s, k->p + k->off, c); k->off += c;
    if (k->off < k->n) after(delay_us(2, 300 * MS), piece_go, k); else free(k);
}
static void send_split(sess_t *s, const unsigned char *p, int n) {     /* sometimes in several writes */
    if (n == 0) return;
    piece_t *k = calloc(1, sizeof *k); k->s = s; k->p = p; k->n = n;
    after(2, piece_go, k);
}
static void greet_go(void *a) { sess_t *s = a; if (s->silent_after == ST_AUTH) return; if (s->state == ST_AUTH) s->state = ST_GREET; send_split(s, s->greet, s->greetn); }
static void auth2_go(void *a) { sess_t *s = a; if (!s->app->closed) conn_write(s->app, s->auth2, 36); after(3 + delay_us(1, 200 * MS), greet_go, s); }
static void auth_done(sess_t *s) {
    if (s->use_auth2) after(3 + delay_us(1, 200 * MS), auth2_go, s);
    else after(3 + (choose(2) ? 0 : delay_us(1, 200 * MS)), greet_go, s);
}
static void auth_piece(void *a) {
    sess_t *s = a; int left = 36 - s->auth_off;
    if (s->app->closed || s->app->ended) return;
    int k = choose(3) ? 1 + (int)choose(left) : left;
    send_pieces(s, s->auth + s->auth_off, k); s->auth_off += k;
    if (s->auth_off < 36) after(delay_us(2, 500 * MS), auth_piece, s); else auth_done(s);
}
static void app_up(conn_t *c) {
    sess_t *s = c->user;
    s->state = ST_AUTH;
    if (s->silent_after == ST_CONNECT) return;
    if (s->direct && s->use_auth) {
        if (s->auth_split) { after(2, auth_piece, s); return; }
        unsigned char b[36 + 340]; memcpy(b, s->auth, 36);
        for (int i = 0; i < s->auth_more; i++) b[36 + i] = i < s->greetn ? s->greet[i] : i - s->greetn < s->reqn ? s->req[i - s->greetn] : 0;
        send_pieces(s, b, 36 + s->auth_more); auth_done(s);
    } else greet_go(s);
}
static void success(sess_t *s) {
    s->state = ST_DATA; s->reply_at = now;
    if (s->expect == EXP_FAIL) violate("false-success", "session %d: success reported although %s", s->id,
        s->answer == ANS_REFUSE ? "the target refused the connection" : s->answer == ANS_BLACKHOLE ? "the target never answered" : "the request cannot be served");
    if (!s->connects || (!s->org && !s->conn_up_at)) violate("early-success", "session %d: success reported before the outbound connection was established", s->id);
    if (s->on_success) { s->on_success(s); return; }
    app_send_more(s);
}
static void app_data(conn_t *c, const unsigned char *p, int n) {
    sess_t *s = c->user;
    while (n > 0 && s->state < ST_DATA) {
        if (s->hsn < (int)sizeof s->hs) s->hs[s->hsn++] = *p;
        p++; n--;
        if (s->hsn == 2 && s->state <= ST_GREET) {
            if (s->hs[0] != 5 || s->hs[1] != 0) { s->bad_reply = 1; if (check_prefix) violate("bad-greeting-reply", "session %d: greeting answered with %02x %02x", s->id, s->hs[0], s->hs[1]); }
            s->state = ST_REQ;
            if (s->silent_after == ST_GREET) continue;
            send_split(s, s->req, s->reqn);
        } else if (s->hsn == 12) {
            if (s->hs[2] != 5) violate("bad-reply", "session %d: reply version %d", s->id, s->hs[2]);
            if (s->hs[3] == 0) success(s);
            else { s->state = ST_DONE; }
        }
    }
    if (n > 0 && s->state == ST_DATA) {
        expect_stream(s, s->key_down, s->app_rcvd, s->org_sent, p, n, "application");
        s->app_rcvd += n;
        app_send_more(s);
    }
}
static void app_end(conn_t *c) {
    sess_t *s = c->user;
    s->app_eof = c->ended; if (!s->close_at) s->close_at = now;
    note("session %d: application sees end (%d) in state %d", s->id, c->ended, s->state);
    s->done_at = now;
    conn_close_after(c);
}
static void app_drain(conn_t *c) { sess_t *s = c->user; if (s->state == ST_DATA) { if (!s->app_gap) app_send_more(s); else app_maybe_close(s); } }

void sess_random_traffic(sess_t *s, int64_t max) {
    s->pattern = (int)choose(NPAT);
    s->up = choose(3) == 2 ? choose((uint32_t)max) : (int64_t)skewed(0, (uint32_t)max); s->down = choose(3) == 2 ? choose((uint32_t)max) : (int64_t)skewed(0, (uint32_t)max);
    s->closer = (int)choose(2);
    if (s->pattern == PAT_UPLOAD) s->down = 0;
    if (s->pattern == PAT_DOWNLOAD) s->up = 0;
    if (s->pattern == PAT_PINGPONG) { s->rounds = 1 + (int)choose(12); s->upmsg = 1 + (int64_t)skewed(0, 2000); s->downmsg = 1 + (int64_t)skewed(0, 2000); s->up = s->upmsg * s->rounds; s->down = s->downmsg * s->rounds; }
    s->app_chunk = choose(2) ? 16384 : 1 + (int)skewed(0, 16000); s->org_chunk = choose(2) ? 16384 : 1 + (int)skewed(0, 16000);
    /* keep the number of paced chunks moderate */
    s->app_gap = choose(3) == 2 ? delay_us(10, 400 * MS) : 0; s->org_gap = choose(3) == 2 ? delay_us(10, 400 * MS) : 0;
    if (s->app_gap && s->up / s->app_chunk > 60) s->app_chunk = (int)(s->up / 60) + 1;
    if (s->org_gap && s->down / s->org_chunk > 60) s->org_chunk = (int)(s->down / 60) + 1;
}
sess_t *sess_new(void) {
    if (nsess == MAXSESS) sim_error("too many sessions");
    sess_t *s = sess[nsess] = calloc(1, sizeof *s);
    s->id = nsess++; s->used = 1; s->role = "good";
    s->ip = IP(203, 0, 113, 1 + s->id % 200); s->port = (uint16_t)(20000 + s->id); s->dst = DST_IP; s->answer = ANS_ACCEPT;
    s->key_up = mix64(s->id * 2 + 1000); s->key_down = mix64(s->id * 2 + 1001);
    s->use_auth = 1; s->direct = !W.use_c;
    uint32_t magic = htonl(0xa001beef); memcpy(s->auth, &magic, 4); strncpy((char *)s->auth + 4, W.local_key, 16);
    s->greet[0] = 5; s->greet[1] = 1; s->greet[2] = 0; s->greetn = 3;
    s->app_chunk = s->org_chunk = 16384;
    route_hook = on_route;
    return s;
}
void sess_build_request(sess_t *s) {
    unsigned char *r = s->req; int n = 0;
    r[n++] = 5; r[n++] = 1; r[n++] = 0;
    if (s->dst == DST_IP) { r[n++] = 1; r[n++] = s->ip >> 24; r[n++] = s->ip >> 16; r[n++] = s->ip >> 8; r[n++] = s->ip; }
    else { r[n++] = 3; r[n++] = (unsigned char)s->namelen; memcpy(r + n, s->name, s->namelen); n += s->namelen; }
    r[n++] = s->port >> 8; r[n++] = s->port & 255; s->reqn = n;
}
void sess_start(sess_t *s) {
    s->start_at = now;
    if (!s->reqn) sess_build_request(s);
    uint32_t from = IP(10, 1, s->id >> 8, s->id & 255);
    if (s->direct) s->app = conn_open(from, NODE_S->ip, tunnel_entry(), 1, s->role);
    else s->app = conn_open(from, NODE_C->ip, W.local_port, 0, s->role);
    conn_t *c = s->app;
    c->user = s; c->on_up = app_up; c->on_data = app_data; c->on_end = app_end; c->on_drain = app_drain;
    slow_reader(c);
}
static void start_ev(void *a) { sess_start(a); }
void sess_start_at(sess_t *s, usec_t t) { at(t, start_ev, s); }
void sess_leave(sess_t *s, int how) {
    if (!s->app || s->app->closed) return;
    s->loss_ok = 1; s->close_at = now; s->app_closed_by_us = 1;
    if (how) conn_abort(s->app); else conn_close(s->app);
}
int sess_complete(sess_t *s) {
    if (s->expect == EXP_FAIL) return s->app && (s->app->ended || s->app->closed);
    if (!s->app || s->state != ST_DATA) return 0;
    if (s->org_rcvd < s->up || s->app_rcvd < s->down) return 0;
    if (s->pattern == PAT_UPLOAD || s->pattern == PAT_PINGPONG || (s->pattern == PAT_DUPLEX && s->closer == 0)) return s->org && s->org->ended;
    return s->app->ended != 0;
}
int all_complete(void) {
    for (int i = 0; i < nsess; i++) if (!sess_complete(sess[i]) && !sess[i]->loss_ok && sess[i]->expect != EXP_ANY) return 0;
    return 1;
}
void report_incomplete(const char *kind, sess_t *s) {
    static const char *pn[] = { "request-response", "duplex", "upload", "download", "ping-pong" };
    static const char *sn[] = { "?", "connecting", "authenticating", "greeting", "requesting", "transferring", "done" };
    violate(kind, "session %d (%s, %s, %s): to origin %lld of %lld bytes, to application %lld of %lld bytes, application end=%d, origin end=%d",
        s->id, s->direct ? "direct" : "via client node", pn[s->pattern], sn[s->state], (long long)s->org_rcvd, (long long)s->up, (long long)s->app_rcvd, (long long)s->down, s->app_eof, s->org_eof);
}

/* ---------------- name server ---------------- */
rec_t recs[1200]; int nrecs; dnsprof_t dnsprof; int dns_queries;
void (*dns_query_hook)(const char *, sock_t *);
void (*dns_delivered_hook)(const char *, uint32_t, uint32_t);
void (*target_hook)(sess_t *, uint32_t);
int (*dns_answer_hook)(sock_t *, const char *, const unsigned char *, int, unsigned char *);
rec_t *rec_add(const char *name, uint32_t ip, uint32_t ttl) {
    if (nrecs == 1200) sim_error("too many names"); rec_t *r = &recs[nrecs++]; memset(r, 0, sizeof *r); snprintf(r->name, sizeof r->name, "%s", name); r->ip = ip; r->ttl = ttl; r->exists = 1; return r;
}
rec_t *rec_find(const char *name) { for (int i = 0; i < nrecs; i++) if (!strcmp(recs[i].name, name)) return &recs[i]; return NULL; }
typedef struct { sock_t *to; int n; uint32_t fromip; uint16_t port; const rec_t *r; uint32_t ip, ttl; unsigned char d[1600]; } dans_t;
static void ans_go(void *a) {
    dans_t *d = a;
    if (!d->to->closed && d->r && dns_delivered_hook) dns_delivered_hook(d->r->name, d->ip, d->ttl);
    udp_inject(d->to, d->fromip, d->port, d->d, d->n); free(d);
}
/* r: the record whose address the datagram carries, or NULL for anything but a proper answer */
void dns_send(sock_t *to, const rec_t *r, const unsigned char *p, int n, usec_t dly, uint32_t fromip, uint16_t port) {
    dans_t *d = calloc(1, sizeof *d); d->to = to; d->n = n; d->fromip = fromip; d->port = port; memcpy(d->d, p, n);
    if (r && r->exists) { d->r = r; d->ip = r->ip; d->ttl = r->ttl; }
    after(dly, ans_go, d);
}
static int w16(unsigned char *p, int v) { p[0] = v >> 8; p[1] = v; return 2; }
static int w32(unsigned char *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; return 4; }
int dns_build_answer(const unsigned char *q, int qn, rec_t *r, unsigned char *o) {
    memcpy(o, q, qn);
    o[2] = 0x81; o[3] = r && r->exists ? 0x80 : 0x83;
    int n = qn, cnt = 0;
    if (r && r->exists) {
        int owner = 12;                                      /* compression pointer to the owner of the next record */
        int chain = dnsprof.cname && choose(6) == 5 ? 4 + (int)choose(8) : 0;      /* mostly none to three, sometimes many */
        if (chain && n + chain * 21 > 440) chain = 0;
        int extra = dnsprof.cname ? (int)choose(12) : 0;
        if (extra == 11 && n <= 100) {                        /* a record of another type that is longer than 255 bytes */
            int len = 256 + (int)choose(512 - 256 - 12 - 3 * 16 - n + 1);
            n += w16(o + n, 0xc000 | owner); n += w16(o + n, 16); n += w16(o + n, 1); n += w32(o + n, 300); n += w16(o + n, len);
            for (int i = 0; i < len; i++) o[n + i] = i % 128 ? 'a' + i % 26 : len - i > 127 ? 127 : len - i - 1;
            n += len; cnt++; chain = 0; probe("dns long other record");
        } else if (extra == 10 && n < 180) {                 /* names that point to pointers */
            int deep = 1 + (int)choose(4); chain = 0;
            for (int k = 0; k < deep; k++) {
                int own = n; n += w16(o + n, 0xc000 | owner); n += w16(o + n, 5); n += w16(o + n, 1); n += w32(o + n, 300);
                n += w16(o + n, 4); owner = n; o[n] = 1; o[n + 1] = 'a' + k; n += 2; n += w16(o + n, 0xc000 | own); cnt++;
            }
            probe("dns pointers to pointers");
        }
        for (int k = 0; chain ? k < chain : extra < 10 && k < 3 && dnsprof.cname && chance(dnsprof.cname); k++) {
            n += w16(o + n, 0xc000 | owner); n += w16(o + n, 5); n += w16(o + n, 1); n += w32(o + n, 300);
            n += w16(o + n, 9); owner = n; memcpy(o + n, "\4cdn0\2ex\0", 9); o[n + 4] += k; n += 9; cnt++; probe(k < 3 ? "dns cname answer" : "dns long cname chain");
        }
        for (int k = 0; k < 3; k++) {
            if (owner == 12 && dnsprof.cname && choose(4) == 3 && n + qn - 16 + 14 + 2 * 16 <= 512) {
                memcpy(o + n, q + 12, qn - 16); if (choose(4) == 3) { for (int i = n; i < n + qn - 16; i++) if (o[i] >= 'a' && o[i] <= 'z') o[i] -= 32; probe("dns answer in capitals"); }
                n += qn - 16; probe("dns answer with full name");
            }
            else n += w16(o + n, 0xc000 | owner);
            n += w16(o + n, 1); n += w16(o + n, 1); n += w32(o + n, r->ttl); n += w16(o + n, 4); n += w32(o + n, r->ip); cnt++;
            if (!dnsprof.multi || !chance(dnsprof.multi) || n + 16 > 512) break;
        }
    }
    w16(o + 6, cnt);
    return n;
}
static void on_udp(sock_t *from, uint32_t ip, uint16_t port, const void *vp, int n) {
    const unsigned char *p = vp;
    if (port != 53 || ip != (DNS_IP)) { if (strict_targets) violate("wrong-target", "datagram to %u.%u.%u.%u:%d", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255, port); return; }
    char name[600]; int o = 0, i = 12, bad = n < 17;
    while (!bad && i < n && p[i]) { int l = p[i++]; if (l > 63 || i + l >= n || o + l > 255) { bad = 1; break; } if (o) name[o++] = '.'; memcpy(name + o, p + i, l); o += l; i += l; }
    name[o] = 0; int qn = i + 5;
    if (bad || qn > n || p[i + 1] || p[i + 2] != 1 || p[i + 3] || p[i + 4] != 1 || n != qn) { probe("malformed query sent"); return; }
    dns_queries++;
    trace("query", from->id, o, 0); trace_data(name, o);
    note("dns query for %s", name);
    if (dns_query_hook) dns_query_hook(name, from);
    rec_t *r = rec_find(name);
    unsigned char a[1600]; int an = -1;
    if (dns_answer_hook) { an = dns_answer_hook(from, name, p, qn, a); if (an == 0) return; }
    if (an < 0) an = dns_build_answer(p, qn, r, a);
    if (chance(dnsprof.loss)) { fault(F_DNS_LOSS); return; }
    usec_t d = net_delay() * 2;
    if (chance(dnsprof.delay_long)) { fault(F_DNS_DELAY); d = delay_us(1 * SEC, 9 * SEC); }
    dns_send(from, r, a, an, d, ip, 53);
    if (chance(dnsprof.dup)) { fault(F_DNS_DUP); dns_send(from, r, a, an, d + delay_us(1, 2 * SEC), ip, 53); }
}
void dns_setup(void) { udp_hook = on_udp; nrecs = 0; }
