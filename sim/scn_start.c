/* P19: what a start makes of its files. P20: the log while its writes fail and odd data is logged. */
#include "world.h"
#include <arpa/inet.h>
extern void web_files(void);
extern void web_begin(usec_t t, int tls);
extern int web_state(int *done, int *ended);
extern void web_judge_all(usec_t limit);
#define CFG "/S/usr/local/s5/config/config.json"
#define PIDF "/S/usr/local/s5/logs/pid"
#define KEYS (snprintf(keys_path, sizeof keys_path, "/S%s", W.auth), keys_path)
static char keys_path[300];

/* ---------------- P19 ---------------- */
static char keyv[400][20]; static int nkeyv;
static uint16_t hport[128], sport[128]; static int nhport, nsport;
static char *cfg; static int cfgn;
static void ws(char *b, int *n) { static const char *w[] = { "", "", " ", "\n", "\t", "  ", "\r\n" }; *n += sprintf(b + *n, "%s", w[choose(7)]); }
static void make_config(int size) {
    char *f[24]; int nf = 0; cfg = calloc(1, size + 20000); cfgn = 0;
    for (int i = 0; i < 24; i++) f[i] = malloc(1000);
    sprintf(f[nf++], "\"sys_daemon\":0"); sprintf(f[nf++], "\"sys_process\":0"); sprintf(f[nf++], "\"sys_log_level\":%d", (int)choose(3));
    sprintf(f[nf++], "\"ssl_crt_path\":\"%s\"", W.crt); sprintf(f[nf++], "\"ssl_key_path\":\"%s\"", W.keyp);
    sprintf(f[nf++], "\"s5_mode\":%d", W.mode_s); sprintf(f[nf++], "\"s5_serv_port\":%d", W.tun_port); sprintf(f[nf++], "\"s5_serv_auth_path\":\"%s\"", W.auth);
    sprintf(f[nf++], "\"s5_local_port\":%d", W.local_port); sprintf(f[nf++], "\"s5_local_serv_port\":44444"); sprintf(f[nf++], "\"s5_local_serv_ip\":\"10.0.0.77\""); sprintf(f[nf++], "\"s5_local_auth\":\"k1\"");
    sprintf(f[nf++], "\"s5_serv_gw\":\"%s\"", W.dns_str); sprintf(f[nf++], "\"http_home\":\"%s\"", W.home); sprintf(f[nf++], "\"http_index\":\"%s\"", W.index);
    int o = sprintf(f[nf], "\"http_arr\":["); for (int i = 0; i < nhport; i++) o += sprintf(f[nf] + o, "%s%d", i ? "," : "", hport[i]); sprintf(f[nf++] + o, "]");
    o = sprintf(f[nf], "\"https_arr\":["); for (int i = 0; i < nsport; i++) o += sprintf(f[nf] + o, "%s%d", i ? "," : "", sport[i]); sprintf(f[nf++] + o, "]");
    if (choose(2)) sprintf(f[nf++], "\"comment\":\"unknown settings are ignored {[:,\\\"\"");
    if (choose(2)) sprintf(f[nf++], "\"other\":{\"a\":[1,2,{\"b\":null}],\"c\":true}");
    for (int i = nf - 1; i > 0; i--) { int j = (int)choose(i + 1); char *t = f[i]; f[i] = f[j]; f[j] = t; }
    cfgn += sprintf(cfg, "{");
    for (int i = 0; i < nf; i++) { ws(cfg, &cfgn); cfgn += sprintf(cfg + cfgn, "%s%s", f[i], i + 1 < nf ? "," : ""); if (i == nf / 2) while (cfgn < size - 1000) cfg[cfgn++] = choose(50) ? ' ' : '\n'; }
    ws(cfg, &cfgn); cfgn += sprintf(cfg + cfgn, "}"); if (choose(2)) cfgn += sprintf(cfg + cfgn, "\n");
}
static int odd_keys;                     /* the list also has entries that are no strings */
static void make_keys(int size) {        /* up to exactly size bytes */
    char *b = calloc(1, size + 200); int n = 0; nkeyv = 0; odd_keys = 0;
    int odd = choose(8) == 7 ? 60 + (int)choose(400) : 0, esc = choose(8) == 7 ? 30 + (int)choose(300) : 0;
    n += sprintf(b, "["); ws(b, &n);
    int want = 1 + (int)choose(choose(3) ? 12 : 380);
    for (int i = 0; i < want && n < size - 60 && nkeyv < 400; i++) {
        char k[20]; int l = 1 + (int)choose(16);
        for (int j = 0; j < l; j++) k[j] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789-_.!"[choose(50)]; k[l] = 0;
        int dup = 0; for (int j = 0; j < nkeyv; j++) if (!strcmp(keyv[j], k)) dup = 1; if (dup) continue;
        if (nkeyv) { n += sprintf(b + n, ","); ws(b, &n); }
        if (odd && n < size - 100 && chance(odd)) {
            static const char *const v[] = { "12", "null", "true", "{}", "[]", "-1.5e3", "[\"x\"]", "{\"key\":\"v\"}" };
            n += sprintf(b + n, "%s,", v[choose(8)]); odd_keys = 1; probe("key list with other entries");
        }
        if (esc && n < size - 160 && chance(esc)) {
            n += sprintf(b + n, "\""); for (int j = 0; j < l; j++) n += choose(3) ? sprintf(b + n, "\\u%04x", (unsigned char)k[j]) : sprintf(b + n, "%c", k[j]);
            n += sprintf(b + n, "\""); probe("key written with escapes");
        } else n += sprintf(b + n, "\"%s\"", k);
        strcpy(keyv[nkeyv++], k);
    }
    if (choose(3) == 2) { while (n < size - 1) b[n++] = choose(40) ? ' ' : '\n'; if (n == size - 1) probe("key file of the largest size"); }
    b[n++] = ']'; if (n < size && choose(2)) b[n++] = '\n';
    vfs_put(KEYS, b, n, 0644);
}
static int settled(void) { return !node_alive(NODE_S) || (NODE_S->waiting && NODE_S->wait_ep); }
typedef struct { conn_t *c; int ok, n; char b[300]; uint16_t port; } pp_t;
static void pp_up(conn_t *c) { if (((pp_t *)c->user)->port == W.local_port) ((pp_t *)c->user)->ok = 1; else conn_write(c, "GET /echo HTTP/1.1\r\nA: b\r\n\r\n", 28); }
static void pp_data(conn_t *c, const unsigned char *p, int n) { pp_t *w = c->user; if (w->n + n < 299) { memcpy(w->b + w->n, p, n); w->n += n; } if (strstr(w->b, "200")) w->ok = 1; }
static void pp_end(conn_t *c) { conn_close_after(c); }
static pp_t *port_probe(uint16_t port, int tls) {
    pp_t *w = calloc(1, sizeof *w); w->port = port; w->c = conn_open(IP(10, 7, 0, 1), NODE_S->ip, port, tls, "probe");
    w->c->user = w; w->c->on_up = pp_up; w->c->on_data = pp_data; w->c->on_end = pp_end; return w;
}
static const char *damage(void) {        /* makes the configuration unusable; NULL if it was left alone */
    char *p; int end; for (end = cfgn; end > 0 && cfg[end - 1] != '}'; end--) ;
    fault(F_FILE_DAMAGE);
    switch (choose(10)) {
    case 0: vfs_unlink(CFG); return "missing";
    case 1: vfs_put(CFG, cfg, cfgn, 0); return "unreadable";
    case 2: { int k = (int)choose(end); vfs_put(CFG, cfg, k, 0644); return k ? "cut off" : "empty"; }
    case 3: do p = cfg + choose(cfgn); while (*p != ':' || p[-1] != '"'); *p = 'x'; break;
    case 4: cfg[choose(end)] = 0; vfs_put(CFG, cfg, cfgn, 0644); return "with a zero byte";
    case 5: cfg[0] = ' '; cfg[end - 1] = ' '; break;
    case 6: for (int i = 0; i < cfgn; i++) cfg[i] = (char)(128 + choose(127)); break;
    case 7: vfs_unlink(CFG); vfs_mkdir(CFG); return "a directory";
    case 8: {        /* another type where a text is needed */
        static const char *names[] = { "\"ssl_crt_path\":", "\"ssl_key_path\":", "\"s5_serv_auth_path\":", "\"s5_serv_gw\":", "\"http_home\":", "\"http_index\":", "\"s5_local_serv_ip\":", "\"s5_local_auth\":" }, *vals[] = { "17", "null", "[\"a\"]", "{\"a\":1}", "true" };
        const char *nm = names[choose(8)], *v = vals[choose(5)]; p = strstr(cfg, nm) + strlen(nm); char *q = strchr(p + 1, '"') + 1, *t = strdup(q);
        memcpy(p, v, strlen(v)); memcpy(p + strlen(v), t, cfg + cfgn - q); cfgn -= (int)(q - p) - (int)strlen(v); cfg[cfgn] = 0;
        vfs_put(CFG, cfg, cfgn, 0644); return "of the wrong type"; }
    default: prof.read_err = 1000; return "failing with an input error";
    }
    vfs_put(CFG, cfg, cfgn, 0644);
    return "malformed";
}
static const char *damage_keys(void) {   /* the service may run without keys or not at all, but must not fail later */
    static char b[5000]; int n = 0; fault(F_FILE_DAMAGE); nkeyv = 0;
    switch (choose(7)) {
    case 0: vfs_unlink(KEYS); return "keys missing";
    case 1: vfs_put(KEYS, "[\"a\"]", 5, 0); return "keys unreadable";
    case 2: vfs_unlink(KEYS); vfs_mkdir(KEYS); return "keys in a directory";
    case 3: vfs_put(KEYS, "", 0, 0644); return "no keys";
    case 4: for (n = 0; n < 4096 + (int)choose(500); n++) b[n] = (char)(1 + choose(255)); break;
    case 5: n = sprintf(b, "["); for (int i = (int)choose(20); i >= 0; i--) n += sprintf(b + n, "%s%s", (const char *[]){ "1", "null", "\"abc\"", "[]", "{\"a\":\"b\"}", "true", "\"\"" }[choose(7)], i ? "," : "]"); break;
    default: n = sprintf(b, "%s", (const char *[]){ "{\"a\":\"abcdef\"}", "\"abcdef\"", "[[[[[[", "[\"abcdef", "17", "[\"abcdef\",", "[\"\\u0000abc\"]" }[choose(7)]);
    }
    vfs_put(KEYS, b, n, 0644); return "keys damaged";
}
void scn_p19(void) {
    world_defaults(); world_net_profile(0); prof.seg_mode = 0;
    W.use_c = 0; W.mode_s = choose(5) == 0 ? (int)choose(2) : 2 + (int)choose(2);
    nhport = (int)choose(4); nsport = W.mode_s == 3 ? 1 + (int)choose(3) : (int)choose(4);
    int variant = (int)choose(10); const char *bad = NULL; int may_refuse = 0;
    if (variant == 9) { nhport = (int)choose(100); nsport = 1 + (int)choose(100); may_refuse = 1; }
    for (int i = 0; i < nhport; i++) hport[i] = (uint16_t)(8080 + i); for (int i = 0; i < nsport; i++) sport[i] = (uint16_t)(8443 + i);
    if (variant != 9 && choose(2)) {      /* anywhere in the range */
        uint16_t *w[256]; int n = 0; w[n++] = &W.local_port; w[n++] = &W.tun_port;
        for (int i = 0; i < nhport; i++) { hport[i] = any_port(w, n); w[n++] = &hport[i]; }
        for (int i = 0; i < nsport; i++) { sport[i] = any_port(w, n); w[n++] = &sport[i]; }
        probe("ports of any number");
    }
    world_write_files(); web_files();
    static const int sz[] = { 0, 1500, 4096, 4097, 8192, 16384, 65536, 200000 };
    make_config(sz[choose(8)]); vfs_put(CFG, cfg, cfgn, 0644);
    make_keys(4096 - (int)choose(choose(2) ? 3 : 4000) * (choose(3) ? 1 : 0));
    if (odd_keys) may_refuse = 1;
    prof.faults_on = 1;
    if (choose(4)) prof.read_short = 200 + (int)choose(801);
    if (choose(2)) prof.read_eintr = (int)choose(500);
    if (variant <= 2) bad = damage();
    else if (variant == 3) { probe(damage_keys()); may_refuse = 1; }
    else if (variant <= 5) {
        may_refuse = 1;
        switch (choose(4)) {
        case 2: *(int *[]){ &prof.socket_fail, &prof.epoll_fail, &prof.sockopt_fail, &prof.open_fail, &prof.read_err }[choose(5)] = 20 + (int)choose(300); break;
        case 0: prof.call_nth = 1 + choose(60); prof.call_run = 1; break;
        case 1: prof.malloc_nth = 1 + choose(80); prof.malloc_run = 1; break;
        default: prof.write_torn = 1000;
        }
    }
    node_start(NODE_S);
    run_until_cond(settled, now + 10 * SEC);
    if (!node_alive(NODE_S)) {
        if (!bad && !may_refuse) violate("not-started", "the program ended with code %d although its files are in order", NODE_S->exit_code);
        if (NODE_S->exit_code == 0) violate("silent-refusal", "the program ends with success although %s%s", bad ? "its configuration is " : "it cannot start", bad ? bad : "");
        if (vfs_find(PIDF)) violate("pid-left", "a start that was refused leaves a pid file");
        probe("refused"); if (bad) probe(bad); nontrivial(); return;
    }
    if (bad) violate("made-up-settings", "the program runs although its configuration is %s", bad);
    if (variant == 4 || variant == 5) { probe("started after a failure"); prof.faults_on = 0; }
    if (prof.faults_on) prof.faults_on = (int)choose(2);
    pp_t *pp[256]; int npp = 0;
    for (int i = 0; i < nhport; i++) pp[npp++] = port_probe(hport[i], 0);
    for (int i = 0; i < nsport; i++) pp[npp++] = port_probe(sport[i], 1);
    if (W.mode_s == 1) { pp[npp++] = port_probe(W.local_port, 0); probe("started as a client"); }
    W.https_port = sport[0];
    int tried = 0;
    if (W.mode_s >= 2) {
        int k = nkeyv < 12 ? nkeyv : 12;
        for (int i = 0; i < k; i++) {
            int j = i == 0 ? 0 : i == 1 ? nkeyv - 1 : (int)choose(nkeyv);
            sess_t *s = sess_new(); s->direct = 1; s->pattern = PAT_PINGPONG; s->rounds = 2; s->upmsg = s->downmsg = 10; s->up = s->down = 20;
            memset(s->auth + 4, 0, 32); memcpy(s->auth + 4, keyv[j], strlen(keyv[j]));
            sess_start_at(s, now + delay_us(0, SEC)); tried++;
        }
        /* and one that is not listed */
        sess_t *s = sess_new(); s->direct = 1; s->expect = EXP_ANY; s->deny = 1; s->deny_why = "its key is not in the file"; memset(s->auth + 4, 0, 32); strcpy((char *)s->auth + 4, "~not~listed~"); sess_start(s);
    }
    run_until(now + 30 * SEC);
    if (!node_alive(NODE_S)) violate("died", "the program ended with code %d", NODE_S->exit_code);
    for (int i = 0; i < npp; i++) if (!pp[i]->ok) violate("port-not-served", "the configured port %d is not served (%s)", pp[i]->port, pp[i]->c->connected ? "connected" : "not connected");
    for (int i = 0; i < nsess; i++) if (!sess[i]->deny && !sess_complete(sess[i])) violate("key-refused", "a listed key is not accepted (%d keys)", nkeyv);
    nontrivial(); probe("started");
    sample("configuration of %d bytes, %d keys, %d tried, %d ports ", cfgn, nkeyv, tried, npp);
}

/* ---------------- P20 ---------------- */
static int records, longest; static char marks[60][24]; static int nmarks;
static void on_log(node_t *n, const char *path, const char *p, int len) {
    (void)n; if (!strcmp(path, "<stdout>")) { if (len > 0 && p[0] != '[') return; }
    records++; if (len > longest) longest = len;
    if (len <= 0) violate("log-content", "an empty record is written to %s", path);
    const char *z = memchr(p, 0, len);
    if (z) violate("log-content", "a record of %d bytes in %s continues after its message of %d bytes", len, path, (int)(z - p));
    for (const char *e, *end = p + len; p < end; p = e) {        /* a message has one line */
        e = memchr(p, '\n', end - p); e = e ? e + 1 : end;
        int seen = 0;
        for (int i = 0; i < nmarks; i++) if (memmem(p, e - p, marks[i], strlen(marks[i]))) seen++;
        if (seen > 1) violate("log-content", "a record in %s contains the data of %d different requests", path, seen);
    }
}
typedef struct { conn_t *c; char *b; int n, got; int tls, ended; char r[64]; } lq_t;
static void lq_up(conn_t *c) { lq_t *q = c->user; conn_write(c, q->b, q->n); }
static void lq_data(conn_t *c, const unsigned char *p, int n) { lq_t *q = c->user; for (int i = 0; i < n && q->got < 63; i++) q->r[q->got++] = (char)p[i]; }
static void lq_end(conn_t *c) { lq_t *q = c->user; q->ended = 1; conn_close_after(c); }
static void lq_open(void *a) { lq_t *q = a; q->c = conn_open(IP(10, 6, 0, 1), NODE_S->ip, q->tls ? W.https_port : W.http_port, q->tls, "odd"); q->c->user = q; q->c->on_up = lq_up; q->c->on_data = lq_data; q->c->on_end = lq_end; }
void scn_p20(void) {
    world_defaults(); world_net_profile(0);
    W.use_c = (int)choose(2); W.mode_s = choose(3) == 2 ? 3 : 2; W.log_level = (int)choose(3); if (choose(4) == 3) W.log_level = 255;
    web_files(); log_hook = on_log;
    prof.faults_on = 1;
    int early = (int)choose(2);
    #define LOGF() (prof.log_err = choose(2) ? (int)choose(1001) : 0, prof.log_full = choose(3) == 2 ? (choose(2) ? 1000 : (int)choose(900)) : 0, prof.log_short = choose(2) ? (int)choose(1001) : 0)
    if (early) LOGF();
    world_boot();
    if (!early) LOGF();
    int n = 1 + (int)choose(6), w = (int)choose(5), q = (int)choose(12);
    for (int i = 0; i < n; i++) {
        sess_t *s = sess_new(); s->direct = !W.use_c || choose(2); sess_random_traffic(s, prof.seg_mode == 2 ? 500 : 8000); s->app_gap = s->org_gap = 0;
        switch (choose(6)) {
        case 4: s->answer = choose(2) ? ANS_REFUSE : ANS_UNREACH; s->expect = EXP_FAIL; break;
        case 5: { char nm[64]; int l = snprintf(nm, sizeof nm, "no%d.test", s->id); sess_set_name(s, nm, l); rec_t *r = rec_add(nm, s->ip, 20); if (choose(2)) { r->exists = 0; s->expect = EXP_FAIL; } break; }
        }
        sess_start_at(s, now + delay_us(0, 3 * SEC));
    }
    for (int i = 0; i < w; i++) web_begin(now + delay_us(0, 3 * SEC), (int)choose(2));
    lq_t *lq[16];
    for (int i = 0; i < q; i++) {
        lq_t *x = lq[i] = calloc(1, sizeof *x); x->b = calloc(1, 6000); x->tls = (int)choose(2);
        char *m = marks[nmarks++]; snprintf(m, 24, "mK%dq%d", i, (int)choose(100000));
        int l = (int)choose(choose(3) ? 900 : 1900), k = sprintf(x->b, "GET /%s.", m);
        for (int j = 0; j < l; j++) { char ch = choose(30) ? "abcdefgh/._-%d%s%n"[choose(18)] : (char)(33 + choose(94)); if (ch == ':' || (ch == '.' && x->b[k - 1] == '.')) ch = '%'; x->b[k++] = ch; }
        if (choose(3)) k += sprintf(x->b + k, "%s", m);
        k += sprintf(x->b + k, " HTTP/1.1\r\n\r\n"); x->n = k; probe("long or odd request");
        at(now + delay_us(0, 3 * SEC), lq_open, x);
    }
    run_until(now + 4 * SEC); run_until_cond(all_complete, now + 60 * SEC);
    web_judge_all(200 * SEC);
    run_until(now + 10 * SEC);
    if (!node_alive(NODE_S) || (W.use_c && !node_alive(NODE_C))) violate("died", "a process ended (server %d, client %d)", NODE_S->exit_code, NODE_C->exit_code);
    for (int i = 0; i < nsess; i++) {
        if (sess[i]->expect == EXP_OK && !sess_complete(sess[i])) report_incomplete("service-changed", sess[i]);
        if (sess[i]->expect == EXP_FAIL && !sess[i]->app_eof && sess[i]->state != ST_DONE) violate("service-changed", "session %d is not ended although its target cannot be reached", i);
    }
    for (int i = 0; i < q; i++) if (!lq[i]->ended || !strstr(lq[i]->r, "HTTP/1.1 4")) violate("service-changed", "a request for a missing file is not answered properly (%d bytes, ended %d)", lq[i]->got, lq[i]->ended);
    if (records) nontrivial();
    sample("%d log records, longest %d bytes ", records, longest);
}
