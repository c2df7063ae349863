/* P11, P12, P13: the web server. */
#include "world.h"
#include <time.h>

/* ---------------- files ---------------- */
typedef struct { char uri[300]; char vpath[600]; int size, readable; uint64_t key; file_t *f; int grown; } wfile_t;
static wfile_t wf[40]; static int nwf, large_ok;
static wfile_t *wfile(const char *uri, int size, int mode) {
    wfile_t *w = &wf[nwf++]; static unsigned char buf[3400000];
    snprintf(w->uri, sizeof w->uri, "%s", uri); snprintf(w->vpath, sizeof w->vpath, "/S%.*s%s", (int)strlen(W.home) - (W.home[strlen(W.home) - 1] == '/'), W.home, uri);
    w->size = size; w->readable = mode & 0400; w->key = mix64(0xf11e + nwf);
    stream_fill(w->key, 0, buf, size);
    w->f = vfs_put(w->vpath, buf, size, mode);
    return w;
}
void web_files(void) {
    static const char *ext[] = { ".html", ".js", ".json", ".png", "", ".css", ".txt", ".unknown", ".tar.gz", ".", ".m3u8" };
    static const int sz[] = { 100, 0, 1, 4096, 16344, 16343, 16345, 16384, 32688, 65536, 100000 };
    static const char *dir[] = { "", "/a", "/a/b", "/deep/er/and/deeper", "/with-dash_and.dot" };
    nwf = 0;
    char ix[120]; snprintf(ix, sizeof ix, "/%s", W.index);
    if (choose(4) != 3) wfile(ix, 500, 0644);
    snprintf(ix, sizeof ix, "/a/%s", W.index);
    if (choose(2)) wfile(ix, 300, 0644);
    int n = 2 + (int)choose(10);
    for (int i = 0; i < n; i++) {
        char u[300]; snprintf(u, sizeof u, "%s/f%d%s", dir[choose(5)], i, ext[choose(11)]);
        int s = choose(3) ? sz[choose(11)] : (int)skewed(0, 250000);
        if (prof.seg_mode == 2 && s > 6000) s = 6000 - (int)choose(50);
        wfile(u, s, choose(8) == 7 ? 0 : choose(2) ? 0644 : 0400);
    }
    if (large_ok && prof.seg_mode == 0 && prof.delay_mode == 0 && choose(6) == 5) { wfile("/large.bin", 300000 + (int)choose(3000000), 0644); probe("file over 300 KB"); }
    if (choose(3) == 2) { char u[300] = "/"; for (int i = 1; i < 200; i++) u[i] = "abcdefgh-_.0123"[choose(15)]; u[200] = 0; wfile(u, 77, 0644); }
    if (choose(3) == 2) { char u[300] = "/x."; int l = 4 + (int)choose(choose(2) ? 30 : 240); for (int i = 3; i < l; i++) u[i] = "abcdefgh-_0123"[choose(14)]; u[l] = 0; wfile(u, 99, 0644); probe("long file name extension"); }
}

/* ---------------- clients ---------------- */
enum { R_FILE, R_ERR, R_ECHO, R_TIME };
typedef struct { char *raw; int n; int want; wfile_t *f; char *body; int bodyn; int keep; const char *what; } wreq_t;
typedef struct {
    conn_t *c; int id, tls; uint16_t port; wreq_t *req; int nreq; int sent, off, got; int pipeline; usec_t piece_gap, think;
    char head[5000]; int headn; int inbody, status, len; int64_t bodyoff; int done; int started; usec_t *sent_at; int finish;   /* finish: 0 wait for the server's end, 1 close ourselves */
    char tbuf[100]; int gaveup; usec_t done_at; wfile_t *grow;
} wcl_t;
static wcl_t *wcl[80]; static int nwcl;
static int responses, web_faulty, big_seen;

static void put(char **b, int *n, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
static void put(char **b, int *n, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); char t[9000]; int k = vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
    *b = realloc(*b, *n + k + 1); memcpy(*b + *n, t, k + 1); *n += k;
}
static void target_form(char *out, int n, const char *path) {
    switch (choose(5)) {
    case 3: snprintf(out, n, "http://www.example.org%s", path); break;
    case 4: snprintf(out, n, "http://10.0.0.2:8080%s", path); break;
    default: snprintf(out, n, "%s", path);
    }
}
static void make_req(wreq_t *r, int keep) {
    char t[900]; const char *method = "GET"; memset(r, 0, sizeof *r);
    r->keep = keep;
    switch (choose(8)) {
    case 0: case 1: case 2: case 3: {
        wfile_t *f = &wf[choose(nwf)]; r->f = f; r->want = f->readable ? R_FILE : R_ERR; r->what = f->readable ? "file" : "unreadable file";
        int l = (int)strlen(f->uri);
        int il = (int)strlen(W.index);
        if (l > il && f->uri[l - il - 1] == '/' && !strcmp(f->uri + l - il, W.index) && choose(2)) { char d[300]; snprintf(d, sizeof d, "%.*s", l - il, f->uri); target_form(t, sizeof t, d); r->what = "directory index"; }
        else target_form(t, sizeof t, f->uri);
        break;
    }
    case 4: {
        static const char *miss[] = { "/nothing.html", "/a/b/c/d/nothing", "/f", "/nothing.", "/no/dir/", "/a.b.c", "/%41", "/x?y=1", "//none", "/ECHO", "/Echo", "/ech", "/echo2", "/echo/x", "/INDEX.HTML" };
        r->want = R_ERR; target_form(t, sizeof t, miss[choose(15)]); r->what = "missing file"; break;
    }
    case 5: r->want = R_TIME; strcpy(t, "/echo"); r->what = "GET /echo"; break;
    case 6: r->want = R_ECHO; method = "POST"; target_form(t, sizeof t, "/echo"); r->bodyn = choose(4) == 0 ? 0 : 1 + (int)skewed(0, prof.seg_mode == 2 ? 2000 : 15900); r->what = r->bodyn ? "POST /echo" : "POST /echo without body"; break;
    default: r->want = R_ERR; target_form(t, sizeof t, choose(2) ? "/a" : "/deep/er"); r->what = "directory";
        break;
    }
    probe(r->what);
    static const char *mcase[] = { "GET", "get", "POST", "post" };
    if (choose(6) == 5) method = mcase[(!strcmp(method, "POST")) * 2 + 1];
    if (choose(10) == 9) { put(&r->raw, &r->n, "%s", choose(3) == 2 ? "\r\n\r\n" : "\r\n"); probe("empty line before a request"); }
    put(&r->raw, &r->n, "%s %s HTTP/1.1\r\n", method, t);
    int nh = (int)choose(9), hp = (int)choose(nh + 1), cp = (int)choose(nh + 1);
    int many = choose(10) == 9 && r->n < 1500;     /* more lines than the server looks at; those that matter come first */
    if (many) { nh = 12 + (int)choose(28); probe("many header lines"); }
    /* now and then a head that comes close to the 4096 bytes the server has room for */
    int big = nh && !many && choose(5) == 4 ? (int)choose(nh) : -1, room = 0;
    if (big >= 0) { room = 3950 - r->n - nh * 250 - 60; room = choose(3) ? (int)choose(room) : room - (int)choose(40); if (room > 500) probe("long request head"); }
    for (int i = 0; i <= nh; i++) {
        if (i == hp && (keep || choose(2))) {
            const char *v = keep ? (choose(2) ? "keep-alive" : "Keep-Alive") : "close";
            put(&r->raw, &r->n, "%s:%s%s\r\n", choose(2) ? "Connection" : "connection", choose(3) ? " " : "", v);
        }
        if (i == cp && (r->bodyn || (r->want == R_ECHO && choose(2)))) put(&r->raw, &r->n, "Content-%sength: %d\r\n", choose(2) ? "L" : "l", r->bodyn);
        if (i < nh) {
            static const char *hn[] = { "Host", "User-Agent", "Accept", "X", "Content", "C", "Con", "Accept-Encoding", "X-Long-Header-Name-For-Testing", "Content-Type", "Content-Len", "Connect" };
            char v[4100]; int l = i == big ? room : (int)choose(many ? 12 : choose(5) ? 30 : 200); for (int k = 0; k < l; k++) v[k] = "abcdefghij/.:;=-+()*0123456789 "[choose(31)]; v[l] = 0;
            if (i != big && choose(5) == 4) strcpy(v, choose(2) ? "5" : "keep-alive");
            if (v[0] == 0 && choose(2)) strcpy(v, "x"); if (!v[0]) probe("empty header value");
            put(&r->raw, &r->n, "%s:%s%s\r\n", hn[choose(12)], choose(4) ? " " : "", v);
        }
    }
    put(&r->raw, &r->n, "\r\n");
    if (r->bodyn) {
        r->body = malloc(r->bodyn); stream_fill(mix64(0xb0d + r->bodyn), 0, (unsigned char *)r->body, r->bodyn);
        r->raw = realloc(r->raw, r->n + r->bodyn); memcpy(r->raw + r->n, r->body, r->bodyn); r->n += r->bodyn;
    }
}
int web_raw(unsigned char *out, int max, int keep) {     /* one well-formed request */
    wreq_t r; make_req(&r, keep); int n = r.n < max ? r.n : max; memcpy(out, r.raw, n); return n;
}
static void next_piece(void *a) {
    wcl_t *w = a;
    if (w->c->closed || w->c->ended || w->sent >= w->nreq) return;
    wreq_t *r = &w->req[w->sent];
    int left = r->n - w->off, k = left;
    if (w->piece_gap && left > 1) k = 1 + (int)choose(choose(2) ? left : left < 40 ? left : 40);
    if (k > left) k = left;
    int off = w->off;
    w->off += k;
    int whole = w->off == r->n;
    if (whole) { w->off = 0; w->sent_at[w->sent++] = now; }
    conn_write(w->c, r->raw + off, k);
    if (w->c->closed || w->c->ended) return;
    if (!whole) after(1 + choose((uint32_t)w->piece_gap), next_piece, w);
    else if (w->sent < w->nreq && w->pipeline) { if (choose(2)) next_piece(w); else after(delay_us(1, 100 * MS), next_piece, w); }
}
static int http_num(const char *h, const char *name, int *out) {
    for (const char *p = h; (p = strchr(p, '\n')); ) { p++; int l = (int)strlen(name); if (!strncasecmp(p, name, l) && p[l] == ':') { *out = atoi(p + l + 1); return 1; } }
    return 0;
}
static void resp_done(wcl_t *w) {
    wreq_t *r = &w->req[w->got];
    w->got++; w->inbody = 0; w->headn = 0; responses++;
    note("web client %d: response %d complete (%s)", w->id, w->got, r->what);
    if (!r->keep || w->got == w->nreq) {
        w->done = 1; w->done_at = now;
        if (r->keep && w->finish) conn_close_after(w->c);
        return;
    }
    if (!w->pipeline) after(1 + (w->think ? choose((uint32_t)w->think) : 0), next_piece, w);
}
static void resp_head(wcl_t *w) {
    wreq_t *r = &w->req[w->got]; int ok;
    if (w->got >= w->sent && !(w->got == w->sent && w->off)) violate("extra-response", "web client %d: response before the request was sent", w->id);
    if (sscanf(w->head, "HTTP/1.%*d %d", &w->status) != 1 || !strstr(w->head, "\r\n")) violate("bad-response", "web client %d: status line unreadable", w->id);
    char *eol = strstr(w->head, "\r\n"); *eol = 0; if (strchr(w->head, ':')) violate("bad-response", "web client %d: status line runs into a header: %.60s", w->id, w->head); *eol = '\r';
    if (!http_num(w->head, "Content-Length", &w->len)) violate("bad-response", "web client %d: no content length in the response to %s", w->id, r->what);
    switch (r->want) {
    case R_FILE: ok = w->status == 200; break;
    case R_ERR: ok = w->status >= 400 && w->status < 600; break;
    default: ok = w->status == 200;
    }
    if (web_faulty && (r->want == R_FILE || web_faulty == 2) && w->status >= 400 && w->status < 600) { w->inbody = 2; w->bodyoff = 0; probe("error status after a fault"); return; }
    if (!ok) violate("wrong-status", "web client %d: status %d for %s %.60s", w->id, w->status, r->what, r->f ? r->f->uri : "");
    if (r->want == R_FILE && w->len != r->f->size && !(r->f->grown && w->len > r->f->size && w->len <= r->f->f->n)) violate("wrong-length", "web client %d: length %d declared for %s of %d bytes", w->id, w->len, r->what, r->f->size);
    if (r->want == R_ECHO && w->len != r->bodyn) violate("wrong-length", "web client %d: length %d declared for an echo of %d bytes", w->id, w->len, r->bodyn);
    w->inbody = 1; w->bodyoff = 0;
    if (w->len > 60000) big_seen = 1;
}

static void resp_body(wcl_t *w, const unsigned char *p, int n) {
    wreq_t *r = &w->req[w->got];
    if (w->inbody == 2) { w->bodyoff += n; return; }
    if (r->want == R_FILE) {
        static unsigned char e[16384]; stream_fill(r->f->key, w->bodyoff, e, n);
        if (memcmp(e, p, n)) { int i = 0; while (e[i] == p[i]) i++; violate("wrong-body", "web client %d: byte %lld of %s differs from the file", w->id, (long long)(w->bodyoff + i), r->f->uri); }
    } else if (r->want == R_ECHO) {
        if (memcmp(r->body + w->bodyoff, p, n)) violate("wrong-body", "web client %d: echo differs from what was posted", w->id);
    } else if (r->want == R_TIME) {
        if (w->bodyoff + n < (int)sizeof w->tbuf) { memcpy(w->tbuf + w->bodyoff, p, n); w->tbuf[w->bodyoff + n] = 0; }
        if (w->bodyoff + n == w->len) {
            struct tm tm = { 0 }; char *e = strptime(w->tbuf, "%a, %d %b %Y %H:%M:%S GMT", &tm);
            if (!e || *e) violate("wrong-body", "web client %d: the time service returned \"%s\"", w->id, w->tbuf);
            time_t t = timegm(&tm); time_t want = (time_t)((now + wall_offset) / SEC);
            if (t > want + 1 || t < want - 3600) violate("wrong-body", "web client %d: the time service is %lld s off", w->id, (long long)(t - want));
        }
    }
    w->bodyoff += n;
}
static void web_data(conn_t *c, const unsigned char *p, int n) {
    wcl_t *w = c->user;
    while (n > 0) {
        if (w->done) violate("extra-bytes", "web client %d: %d bytes after its last response", w->id, n);
        if (!w->inbody) {
            w->head[w->headn++] = (char)*p++; n--; w->head[w->headn] = 0;
            if (w->headn > 4900) violate("bad-response", "web client %d: endless response head", w->id);
            if (w->headn >= 4 && !memcmp(w->head + w->headn - 4, "\r\n\r\n", 4)) { resp_head(w); if (w->len == 0) resp_done(w); }
            continue;
        }
        int k = n < w->len - (int)w->bodyoff ? n : w->len - (int)w->bodyoff;
        resp_body(w, p, k); p += k; n -= k;
        if (w->bodyoff == w->len) resp_done(w);
    }
}
static void web_up(conn_t *c) { next_piece(c->user); }
static void web_end(conn_t *c) {
    wcl_t *w = c->user;
    note("web client %d: end %d after %d of %d responses", w->id, c->ended, w->got, w->nreq);
    /* a kept connection without a further request within the web server's 5 s may be ended */
    if (!w->done && !w->inbody && !w->headn && !w->pipeline && w->got && now - w->sent_at[w->got - 1] >= 4900 * MS) { w->done = 1; w->done_at = now; probe("kept connection ended idle"); }
    conn_close_after(c);
}
static void web_start(void *a) {
    wcl_t *w = a; w->started = 1;
    conn_t *c = w->c = conn_open(IP(10, 2, 0, w->id), NODE_S->ip, w->port, w->tls, "web");
    c->user = w; c->on_up = web_up; c->on_data = web_data; c->on_end = web_end;
    if (choose(4) == 3) { c->read_gap = delay_us(100, 30 * MS); c->read_max = 1 + (int)(c->read_gap / 25) + (int)choose(4000); if (prof.buf_mode == 4) c->read_max += (int)c->read_gap * 2; probe("slow web reader"); }
}
static wcl_t *web_client(int tls) {
    wcl_t *w = wcl[nwcl] = calloc(1, sizeof *w); w->id = ++nwcl; w->tls = tls; w->port = tls ? W.https_port : W.http_port;
    w->nreq = choose(2) ? 1 : 1 + (int)choose(prof.seg_mode == 2 ? 4 : 20); w->pipeline = (int)choose(2); w->finish = (int)choose(2);
    w->piece_gap = choose(3) == 2 ? delay_us(2, 800 * MS) : 0; w->think = choose(3) == 2 ? delay_us(1, 3 * SEC) : 0;
    w->req = calloc(w->nreq, sizeof *w->req); w->sent_at = calloc(w->nreq, sizeof *w->sent_at);
    for (int i = 0; i < w->nreq; i++) {
        int keep = i + 1 < w->nreq || choose(2); if (choose(40) == 39) keep = 0;
        make_req(&w->req[i], keep);
        if (w->piece_gap && w->req[i].n > 2000) w->piece_gap = choose(2) ? 0 : 1 + choose(20000);
        if (!keep) { w->nreq = i + 1; break; }
    }
    if (w->pipeline && w->nreq > 1) probe("pipelined requests");
    return w;
}
/* very many requests at once, without waiting for a response */
static void long_up(conn_t *c) {
    wcl_t *w = c->user;
    for (; w->sent < w->nreq && !c->closed && !c->ended; ) { wreq_t *r = &w->req[w->sent]; w->sent_at[w->sent++] = now; conn_write(c, r->raw, r->n); }
}
static void long_start(void *a) { wcl_t *w = a; web_start(w); w->c->on_up = long_up; }
static wcl_t *long_client(int tls) {
    wcl_t *w = wcl[nwcl] = calloc(1, sizeof *w); w->id = ++nwcl; w->tls = tls; w->port = tls ? W.https_port : W.http_port; w->pipeline = 1; w->finish = (int)choose(2);
    wreq_t t[8]; int n = 1 + (int)choose(8);
    for (int i = 0; i < n; i++) {
        int k; for (k = 0; k < 10; k++) { make_req(&t[i], 1); if (t[i].n < 300 && (!t[i].f || t[i].f->size < 300)) break; }
        if (k == 10) { memset(&t[i], 0, sizeof t[i]); t[i].want = R_ERR; t[i].keep = 1; t[i].what = "missing file"; put(&t[i].raw, &t[i].n, "GET /nothing HTTP/1.1\r\nConnection: keep-alive\r\n\r\n"); }
    }
    w->nreq = choose(2) ? 4000 + (int)choose(5000) : 25 + (int)choose(800);
    w->req = calloc(w->nreq, sizeof *w->req); w->sent_at = calloc(w->nreq, sizeof *w->sent_at);
    for (int i = 0; i < w->nreq; i++) w->req[i] = t[i % n];
    probe(w->nreq >= 4000 ? "thousands of requests at once" : "hundreds of requests at once");
    return w;
}
static int web_done(void) {
    for (int i = 0; i < nwcl; i++) { wcl_t *w = wcl[i]; if (!w->c || (!w->done && !(w->c->ended && web_faulty)) || !(w->c->ended || w->c->closed)) return 0; }
    return all_complete();
}
static void web_judge(usec_t limit) {
    run_until_cond(web_done, now + limit);
    for (int i = 0; i < nwcl; i++) {
        wcl_t *w = wcl[i];
        if (!w->done && !(w->c && w->c->ended && web_faulty)) {
            wreq_t *r = &w->req[w->got];
            if (w->c && w->c->ended) violate("no-response", "web client %d (%s): connection ended (%d) with %d of %d responses; waiting for %s, %lld of %d body bytes", w->id, w->tls ? "TLS" : "plain", w->c->ended, w->got, w->nreq, r->what, (long long)w->bodyoff, w->inbody ? w->len : -1);
            violate("no-response", "web client %d (%s): request %d of %d (%s) not answered completely, %d sent, %lld of %d body bytes", w->id, w->tls ? "TLS" : "plain", w->got + 1, w->nreq, r->what, w->sent, (long long)w->bodyoff, w->inbody ? w->len : -1);
        }
        if (w->done && !w->c->ended && !w->c->closed) violate("not-closed", "web client %d: connection still open %lld s after its last response", w->id, (long long)((now - w->done_at) / SEC));
    }
}
/* for other scenarios: clients that may be hit by faults */
void web_judge_all(usec_t limit) { web_judge(limit); }
void web_tolerant(void) { web_faulty = 2; }
void web_begin(usec_t t, int tls) { wcl_t *w = web_client(tls); if (w->nreq > 4) { w->nreq = 4; } w->think = w->piece_gap = 0; at(t, web_start, w); }
int web_state(int *done, int *ended) { *done = *ended = 0; for (int i = 0; i < nwcl; i++) { if (wcl[i]->done) ++*done; if (wcl[i]->c && (wcl[i]->c->ended || wcl[i]->c->closed)) ++*ended; } return nwcl; }
static void grow_file(void *a) {
    wfile_t *f = a; unsigned char *nd; int add = 1 + (int)choose(prof.seg_mode == 2 ? 400 : 30000);
    if (!f->grown && !f->f->n) return;
    nd = malloc(f->f->n + add + 1); memcpy(nd, f->f->data, f->f->n); stream_fill(f->key, f->f->n, nd + f->f->n, add);
    f->f->data = nd; f->f->n += add; f->grown = 1; probe("file grew");
}
static void grow_hook(node_t *n, const char *path, int ok) {
    (void)n; if (!ok) return;
    for (int i = 0; i < nwf; i++) if (!strcmp(path, wf[i].vpath + 2) && wf[i].size && choose(4) == 3) after(1 + choose(choose(2) ? 200 : 20000), grow_file, &wf[i]);
}
void scn_p11(void) {
    world_defaults();
    world_net_profile(1);
    if (prof.buf_mode == 3 && choose(2)) prof.buf_mode = 2;
    W.use_c = 0; W.mode_s = choose(4) == 3 ? 3 : 2;
    prof.eintr = choose(3) == 2 ? 20 : 0; prof.read_short = choose(3) == 2 ? 300 : 0; prof.faults_on = 1;
    if (choose(6) == 5) { prof.open_fail = 0; web_faulty = 1; }
    int many = choose(16) == 15;
    if (many) { prof.buf_mode = 4; prof.seg_mode = 0; if (prof.delay_mode == 2) prof.delay_mode = 1; web_faulty = 0; }
    large_ok = 1; web_files();
    world_boot();
    if (many) { wcl_t *w = long_client((int)choose(2)); at(now + delay_us(0, 2 * SEC), long_start, w); }
    if (web_faulty) { prof.open_fail = choose(2) ? 150 : 0; prof.read_err = choose(2) ? 50 : 0; }
    int n = 1 + (int)choose(8);
    for (int i = 0; i < n; i++) { wcl_t *w = web_client((int)choose(2)); at(now + delay_us(0, 2 * SEC), web_start, w); }
    if (!many && choose(4) == 3) open_hook = grow_hook;
    if (choose(4) == 3 && W.mode_s == 2) { sess_t *s = sess_new(); sess_random_traffic(s, 3000); sess_start_at(s, now + delay_us(0, SEC)); }
    web_judge(900 * SEC);
    if (responses) nontrivial();
    if (big_seen) probe("large response");
    sample("%d web clients, %d responses ", nwcl, responses);
}

/* ---------------- P12 ---------------- */
/* @ = the web root, ^ = the directory it is in, ~ = the one above */
static const char *outside_t[] = {
    "/etc/passwd", "/etc/shadow", "^/secret.txt", "@-private/secret.txt", "@-private/index.html",
    "^/config/auth.html", "^/index.html", "~/index.html", "/index.html", "/secret.js", "@secret", "^/ww/w.txt",
    "/usr/local/s5/config/config.json", W.keyp, W.auth };
static char outside[15][400], home[300], strip[30][300]; static int nstrip;
static void make_outside(void) {
    snprintf(home, sizeof home, "%s", W.home); if (home[strlen(home) - 1] == '/') home[strlen(home) - 1] = 0;
    strcpy(strip[0], home);
    for (nstrip = 1; strip[nstrip - 1][0]; nstrip++) { strcpy(strip[nstrip], strip[nstrip - 1]); *strrchr(strip[nstrip], '/') = 0; }
    for (int i = 0; i < 15; i++) {
        const char *p = outside_t[i], *d = *p == '@' ? strip[0] : *p == '^' ? strip[1] : *p == '~' ? strip[2] : NULL;
        snprintf(outside[i], sizeof outside[i], "%s%s", d ? d : "", d ? p + 1 : p);
    }
}
#define NOUT 15
#define MARK "OUTSIDE-THE-WEB-ROOT"
typedef struct { conn_t *c; int id, tls, n, sent; char *req[6]; int reqn[6]; unsigned char *rx; int rxn; int started; } pcl_t;
static pcl_t *pcl[40]; static int npcl; static int boot_done, opened_outside, opens_inside, served_inside;
static void outside_hook(node_t *n, const char *path, int ok) {
    if (!boot_done || n != NODE_S) return;
    int hl = (int)strlen(home);
    if (!strncmp(path, home, hl) && (path[hl] == '/' || !path[hl])) { opens_inside++; return; }
    if (!strncmp(path, "/usr/local/s5/logs/", 19) || !strcmp(path, W.keyp) || !strcmp(path, W.crt)) return;
    violate("opened-outside", "the server opened %.100s, which is outside its web root", path);
}
static void pcl_next(pcl_t *w) {
    if (w->sent < w->n) { conn_write(w->c, w->req[w->sent], w->reqn[w->sent]); w->sent++; }
}
static void pcl_timer(void *a) { pcl_t *w = a; if (!w->c->closed && !w->c->ended) { pcl_next(w); if (w->sent < w->n) after(delay_us(1, 300 * MS), pcl_timer, w); } }
static void pcl_up(conn_t *c) { pcl_timer(c->user); }
static void pcl_data(conn_t *c, const unsigned char *p, int n) {
    pcl_t *w = c->user; w->rx = realloc(w->rx, w->rxn + n + 1); memcpy(w->rx + w->rxn, p, n); w->rxn += n; w->rx[w->rxn] = 0;
}
static void pcl_end(conn_t *c) { conn_close_after(c); }
static void pcl_start(void *a) {
    pcl_t *w = a; w->started = 1;
    conn_t *c = w->c = conn_open(IP(10, 2, 0, w->id), NODE_S->ip, w->tls ? W.https_port : W.http_port, w->tls, "web");
    c->user = w; c->on_up = pcl_up; c->on_data = pcl_data; c->on_end = pcl_end;
}
static void add(char *u, int *n, const char *s) { int l = (int)strlen(s); if (*n + l < 3900) { memcpy(u + *n, s, l); *n += l; u[*n] = 0; } }
/* a request target aimed at something outside */
static void hostile_uri(char *u) {
    int n = 0; u[0] = 0;
    static const char *pre[] = { "", "", "", "http://host", "http://host:80", "https://10.0.0.2", "x://" };
    static const char *pads[] = { "/.", "/", "/a/..", "/./", "/a", "//", "/a/b/../.." };
    static const char *ups[] = { "/..", "/..", "/..", "/..", "/../", "/..//", "/./..", "/.../..", "/%2e%2e", "/..%2f", "/..\\", "\\..", "/.. ", "/..;", "/.." };
    static const int offs[] = { 0, 0, 0, 1000, 1008, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 1100, 2000, 2020, 2027, 2028, 2029, 2030, 2031, 2040, 2047, 2048, 2060, 3000, 3700 };
    add(u, &n, pre[choose(7)]);
    int base = n;
    int want = base + (choose(2) ? 0 : choose(3) ? offs[choose(27)] : (int)choose(3500));
    if (choose(2)) {        /* pad, then climb */
        const char *pad = pads[choose(7)];
        while (n < want && n < 3600) { int before = n; add(u, &n, pad); if (n == before) break; }
        if (choose(3) == 2 && n > want && want > base) { n = want; u[n] = 0; }
    } else if (choose(3) == 2) {
        while (n < want && n < 3600) { char c[2] = { "abc./_-%"[choose(8)], 0 }; if (n == base) c[0] = '/'; add(u, &n, c); }
    }
    int climbs = (int)choose(6);
    const char *o = outside[choose(NOUT)];
    const char *rest = o;
    int lv = (int)choose(nstrip);
    if (!strncmp(o, strip[lv], strlen(strip[lv])) && lv) { rest = o + strlen(strip[lv]); if (choose(4)) climbs = lv; }
    else if (choose(2)) climbs = nstrip - 1;
    const char *up = ups[choose(15)];
    int mixed = choose(4) == 3;
    for (int i = 0; i < climbs; i++) add(u, &n, mixed ? ups[choose(15)] : up);
    switch (choose(10)) {
    case 0: break;                                             /* ends with the dot-dot */
    case 1: add(u, &n, "/"); break;                             /* directory form */
    case 2: add(u, &n, rest[0] == '/' ? rest + 1 : rest); break;  /* no separator: sibling names */
    case 3: add(u, &n, "-private/secret.txt"); break;
    case 4: add(u, &n, "secret"); break;
    default: add(u, &n, rest); break;
    }
    if (choose(12) == 11) { add(u, &n, "/"); }
    if (n == base) add(u, &n, "/");
    for (int i = 0; i < n; i++) if (u[i] == ' ' && choose(2)) u[i] = '+';
}
static int file_has(const unsigned char *p, int n) {
    static unsigned char e[300000];
    for (int i = 0; i < nwf; i++) { if (wf[i].size != n) continue; stream_fill(wf[i].key, 0, e, n); if (!memcmp(e, p, n)) return 1; }
    return 0;
}
void scn_p12(void) {
    world_defaults();
    world_net_profile(0);
    if (prof.seg_mode == 2) prof.seg_mode = 1;
    W.use_c = 0; W.mode_s = choose(3) == 2 ? 3 : 2;
    make_outside();
    web_files();
    static const char *sub[] = { "/a", "/a/b", "/..." };
    for (int i = 0; i < 3; i++) { char d[400]; snprintf(d, sizeof d, "/S%s%s", home, sub[i]); vfs_mkdir(d); }
    for (int i = 0; i < 12; i++) {
        char v[500], b[2000] = ""; int n = 0; snprintf(v, sizeof v, "/S%s", outside[i]);
        while (n < 1000) n += snprintf(b + n, sizeof b - n, MARK " %d ", i);
        vfs_put(v, b, n, 0644);
    }
    for (int i = 0; i < W.nkeys; i++) if (strlen(W.keys[i]) < 8) snprintf(W.keys[i], sizeof W.keys[i], "key-of-user-%d", i);
    strcpy(W.local_key, W.keys[0]);
    open_hook = outside_hook;
    world_boot(); boot_done = 1;
    int n = 2 + (int)choose(14);
    for (int i = 0; i < n; i++) {
        pcl_t *w = pcl[npcl++] = calloc(1, sizeof *w); w->id = npcl; w->tls = (int)choose(2); w->n = 1 + (int)choose(4);
        for (int k = 0; k < w->n; k++) {
            char u[4100]; const char *m = "GET";
            if (choose(6) == 5) snprintf(u, sizeof u, "%s", wf[choose(nwf)].uri); else hostile_uri(u);
            if (strlen(u) > 1010) probe("target longer than 1010 bytes"); if (strlen(u) > 2025) probe("target longer than 2025 bytes");
            int nn = 0; char *raw = NULL; put(&raw, &nn, "%s %s HTTP/1.1\r\nConnection: %s\r\n\r\n", m, u, k + 1 < w->n || choose(2) ? "keep-alive" : "close");
            w->req[k] = raw; w->reqn[k] = nn;
        }
        at(now + delay_us(0, 2 * SEC), pcl_start, w);
    }
    run_until(now + 12 * SEC);
    /* the file service itself must work, otherwise nothing is being tested */
    int hits = 0;
    for (int i = 0; i < npcl; i++) {
        pcl_t *w = pcl[i]; if (!w->rx) continue;
        if (memmem(w->rx, w->rxn, MARK, strlen(MARK))) violate("revealed", "client %d received the content of a file outside the web root", w->id);
        if (memmem(w->rx, w->rxn, "PRIVATE KEY", 11)) violate("revealed", "client %d received the private key", w->id);
        for (int k = 0; k < W.nkeys; k++) if (memmem(w->rx, w->rxn, W.keys[k], strlen(W.keys[k]))) violate("revealed", "client %d received a configured key", w->id);
        /* every body must be a file inside the root */
        unsigned char *p = w->rx, *end = w->rx + w->rxn;
        while (p < end) {
            unsigned char *h = memmem(p, end - p, "\r\n\r\n", 4); if (!h) break;
            *h = 0; int st = 0, len = 0; sscanf((char *)p, "HTTP/1.%*d %d", &st); http_num((char *)p, "Content-Length", &len);
            p = h + 4; hits++;
            if (st == 200 && len > 0 && len <= end - p) {
                if (!file_has(p, len)) violate("foreign-bytes", "client %d received a body of %d bytes that is no file of the web root", w->id, len);
                served_inside++;
            }
            p += len;
        }
    }
    if (hits) nontrivial();
    if (served_inside) probe("inside file served");
    if (hits > served_inside) probe("target refused");
    sample("%d clients, %d responses, %d files served ", npcl, hits, served_inside);
}

/* ---------------- P13 ---------------- */
extern void auth_variant(sess_t *s, int which);
extern void give_name(sess_t *s);
typedef struct { conn_t *c; unsigned char b[200]; int n, off, kind; } odd_t;
static odd_t *odd[10]; static int nodd;
static void odd_more(void *a) {
    odd_t *o = a; if (o->c->closed || o->c->ended || o->off >= o->n) return;
    int k = 1 + (int)choose(o->n - o->off); conn_write(o->c, o->b + o->off, k); o->off += k;
    after(delay_us(1, 400 * MS), odd_more, o);
}
static void odd_up(conn_t *c) { odd_more(c->user); }
static void odd_data(conn_t *c, const unsigned char *p, int n) { odd_t *o = c->user; if (o->kind == 0 && n) violate("served", "a client that sent the tunnel marker and no valid key got %d bytes", n); }
static void odd_end(conn_t *c) { conn_close_after(c); }
static void odd_start(void *a) {
    odd_t *o = a; o->c = conn_open(IP(10, 3, 0, 1), NODE_S->ip, W.https_port, 1, "odd");
    o->c->user = o; o->c->on_up = odd_up; o->c->on_data = odd_data; o->c->on_end = odd_end;
}
static int p13_done(void) {
    for (int i = 0; i < nsess; i++) if (!sess[i]->deny && !sess_complete(sess[i])) return 0;
    for (int i = 0; i < nwcl; i++) { wcl_t *w = wcl[i]; if (!w->c || !w->done || !(w->c->ended || w->c->closed)) return 0; }
    return 1;
}
static void p13_lookup(const char *name, sock_t *from) {
    sess_t *s = sess_by_name(name, (int)strlen(name));
    if (s && s->deny) violate("unauthorised", "session %d: name lookup although its key is not accepted (%s)", s->id, s->deny_why);
}
void scn_p13(void) {
    world_defaults();
    world_net_profile(1);
    if (prof.buf_mode == 3) prof.buf_mode = 2;
    W.use_c = choose(3) == 2; W.mode_s = 3;
    prof.eintr = choose(3) == 2 ? 20 : 0; prof.faults_on = 1;
    web_files();
    world_boot();
    dns_query_hook = p13_lookup;
    int n = 1 + (int)choose(7), m = 1 + (int)choose(8), good = 0;
    for (int i = 0; i < n; i++) { wcl_t *w = web_client(choose(8) != 7); at(now + delay_us(0, 3 * SEC), web_start, w); }
    for (int i = 0; i < m; i++) {
        sess_t *s = sess_new();
        if (W.use_c && choose(2)) s->direct = 0; else { s->direct = 1; auth_variant(s, -1); }
        sess_random_traffic(s, prof.seg_mode == 2 ? 1000 : 20000); s->app_gap = s->org_gap = 0;
        if (choose(3) == 2) give_name(s);
        if (!s->deny) good++;
        sess_start_at(s, now + delay_us(0, 3 * SEC));
    }
    int k = (int)choose(4);
    for (int i = 0; i < k; i++) {
        odd_t *o = odd[nodd++] = calloc(1, sizeof *o);
        static const unsigned char mg[4] = { 0xa0, 0x01, 0xbe, 0xef };
        o->kind = (int)choose(2);
        memcpy(o->b, mg, 4);
        if (o->kind == 0) { o->n = 4 + (int)choose(150); for (int j = 4; j < o->n; j++) o->b[j] = (unsigned char)(j < 20 ? 'A' + choose(26) : choose(256)); probe("marker without key"); }
        else { int keep = (int)choose(4); o->n = keep + 1 + (int)choose(60); for (int j = keep; j < o->n; j++) o->b[j] = (unsigned char)(choose(2) ? choose(256) : "GET /\r\n HTTP"[choose(12)]); if (o->b[keep] == mg[keep]) o->b[keep] ^= 1; probe("part of the marker"); }
        at(now + delay_us(0, 3 * SEC), odd_start, o);
    }
    run_until_cond(p13_done, now + 900 * SEC);
    for (int i = 0; i < nsess; i++) if (!sess[i]->deny && !sess_complete(sess[i])) report_incomplete("tunnel-not-served", sess[i]);
    run_until(now + 12 * SEC);
    for (int i = 0; i < nodd; i++) if (!odd[i]->c->ended && !odd[i]->c->closed) violate("not-closed", "a client that sent an unfinished first message (%d bytes) is still connected", odd[i]->n);
    web_judge(SEC);
    if (responses && good) nontrivial();
    sample("%d web clients, %d responses, %d tunnel sessions (%d with key), %d odd ", nwcl, responses, m, good, nodd);
}
