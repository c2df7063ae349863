#include "conn.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/rand.h>

static SSL_CTX *cctx, *sctx; static int keep_sess(SSL *s, SSL_SESSION *n);
static int r_bytes(unsigned char *b, int n) { rand_bytes(b, n); return 1; }
static int r_status(void) { return 1; }
static RAND_METHOD rmeth = { NULL, r_bytes, NULL, NULL, r_bytes, r_status };
void tls_global_init(void) {
    RAND_set_rand_method(&rmeth);
    OPENSSL_init_ssl(OPENSSL_INIT_LOAD_SSL_STRINGS | OPENSSL_INIT_LOAD_CRYPTO_STRINGS | OPENSSL_INIT_NO_LOAD_CONFIG, NULL);
    OPENSSL_init_crypto(OPENSSL_INIT_ADD_ALL_CIPHERS | OPENSSL_INIT_ADD_ALL_DIGESTS | OPENSSL_INIT_NO_LOAD_CONFIG, NULL);
    cctx = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_mode(cctx, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    SSL_CTX_set_session_cache_mode(cctx, SSL_SESS_CACHE_CLIENT | SSL_SESS_CACHE_NO_INTERNAL);
    SSL_CTX_sess_set_new_cb(cctx, keep_sess);
    sctx = SSL_CTX_new(TLS_server_method());
    SSL_CTX_set_mode(sctx, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    BIO *b = BIO_new_mem_buf(cert_pem, -1);
    X509 *x = PEM_read_bio_X509(b, NULL, NULL, NULL); BIO_free(b);
    b = BIO_new_mem_buf(key_pem, -1);
    EVP_PKEY *k = PEM_read_bio_PrivateKey(b, NULL, NULL, NULL); BIO_free(b);
    SSL_CTX_use_certificate(sctx, x); SSL_CTX_use_PrivateKey(sctx, k);
    ERR_clear_error();
}
unsigned char stream_byte(uint64_t key, uint64_t off) { return (unsigned char)(mix64(key * 0x9e3779b97f4a7c15ULL + (off >> 3)) >> ((off & 7) * 8)); }
void stream_fill(uint64_t key, uint64_t off, unsigned char *p, int n) {
    uint64_t w = 0, have = (uint64_t)-1;
    for (int i = 0; i < n; i++) {
        uint64_t o = off + i;
        if ((o >> 3) != have) { have = o >> 3; w = mix64(key * 0x9e3779b97f4a7c15ULL + have); }
        p[i] = (unsigned char)(w >> ((o & 7) * 8));
    }
}
static void put(unsigned char **b, int *n, int *off, int *alloc, const void *p, int k) {
    if (*off + *n + k > *alloc) {
        if (*n) memmove(*b, *b + *off, *n);
        *off = 0;
        if (*n + k > *alloc) { *alloc = (*n + k) * 2; *b = realloc(*b, *alloc); }
    }
    memcpy(*b + *off + *n, p, k); *n += k;
}
int tls_vary; static SSL_SESSION *last_sess;
static int keep_sess(SSL *s, SSL_SESSION *n) { if (last_sess) SSL_SESSION_free(last_sess); last_sess = n; return 1; }
/* other versions, sizes of records, padding, resumed sessions, key updates */
static void vary_tls(conn_t *c, int server) {
    int v12 = choose(3) == 2;
    if (v12) { SSL_set_max_proto_version(c->ssl, TLS1_2_VERSION); probe("tls 1.2"); if (choose(3) == 2) SSL_set_options(c->ssl, SSL_OP_NO_TICKET); }
    if (choose(3) == 2) { SSL_set_max_send_fragment(c->ssl, 512 + choose(choose(2) ? 600 : 15000)); probe("tls small records"); }
    if (!v12 && choose(4) == 3) { SSL_set_block_padding(c->ssl, 16 + choose(1000)); probe("tls padded records"); }
    if (!v12 && choose(4) == 3) { SSL_set_ciphersuites(c->ssl, choose(2) ? "TLS_AES_256_GCM_SHA384" : "TLS_CHACHA20_POLY1305_SHA256"); probe("tls other cipher"); }
    if (!v12 && choose(3) == 2) c->key_updates = 1 + (int)choose(300);
    if (!server && last_sess && choose(2) && SSL_SESSION_is_resumable(last_sess)) { SSL_set_session(c->ssl, last_sess); c->resume = 1; }
    ERR_clear_error();
}
static void setup_tls(conn_t *c, int server) {
    c->use_tls = 1; c->tls_server = server;
    c->ssl = SSL_new(server ? sctx : cctx);
    c->rb = BIO_new(BIO_s_mem()); c->wb = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return((BIO *)c->rb, -1);
    SSL_set_bio(c->ssl, c->rb, c->wb);
    if (server) SSL_set_accept_state(c->ssl); else SSL_set_connect_state(c->ssl);
    if (tls_vary) vary_tls(c, server);
}
static void ended(conn_t *c, int how) {
    if (c->ended) return;
    c->ended = how; c->ended_at = now;
    trace("conn_end", c->s->id, how, c->rx_total);
    if (c->on_end) c->on_end(c);
}
static void flush_raw(conn_t *c) {
    while (c->rawn > 0 && !c->closed) {
        int r = sock_send(c->s, c->raw + c->rawoff, c->rawn);
        if (r < 0) { if (r != -EAGAIN) { c->rawn = 0; } break; }
        c->rawoff += r; c->rawn -= r; c->last_tx = now;
        if (!c->rawn) c->rawoff = 0;
    }
}
static void drain_wb(conn_t *c) {
    char *p; long n = BIO_get_mem_data((BIO *)c->wb, &p);
    if (n > 0 && c->corrupt && chance(c->corrupt)) { fault(F_GARBAGE); p[choose((uint32_t)n)] ^= 1 << choose(8); }
    if (n > 0) { put(&c->raw, &c->rawn, &c->rawoff, &c->rawalloc, p, (int)n); (void)BIO_reset((BIO *)c->wb); }
}
static void read_later(void *arg);
static void pump_conn(conn_t *c);
static void deliver(conn_t *c, const unsigned char *p, int n) { c->rx_total += n; c->last_rx = now; if (c->on_data) c->on_data(c, p, n); }
static void do_read(conn_t *c) {
    unsigned char buf[16384];
    while (!c->closed && !c->read_paused && !c->read_ev && !c->ended) {
        int want = sizeof buf;
        if (c->read_max && c->read_max < want) want = c->read_max;
        int r = sock_recv(c->s, buf, want, 0);
        if (r == -EAGAIN) break;
        if (r <= 0) {
            if (r == 0 && !c->s->rst) ended(c, c->use_tls && !c->tls_up ? END_TLS : END_FIN); else ended(c, END_RST);
            break;
        }
        if (c->use_tls) {
            BIO_write((BIO *)c->rb, buf, r);
            if (!c->tls_up) {
                int h = SSL_do_handshake(c->ssl);
                drain_wb(c);
                if (h == 1) { if (c->resume) probe(SSL_session_reused(c->ssl) ? "tls session resumed" : "tls session not resumed"); c->tls_up = 1; c->up = 1; c->up_at = now; flush_raw(c); if (c->on_up) c->on_up(c); }
                else { int e = SSL_get_error(c->ssl, h); ERR_clear_error(); if (e != SSL_ERROR_WANT_READ) { flush_raw(c); ended(c, END_TLS); break; } }
            }
            if (c->tls_up) for (;;) {
                if (c->closed) break;
                int k = SSL_read(c->ssl, buf, sizeof buf);
                if (k > 0) { deliver(c, buf, k); continue; }
                int e = SSL_get_error(c->ssl, k); ERR_clear_error();
                if (e == SSL_ERROR_ZERO_RETURN) c->tls_notify = 1;
                else if (e != SSL_ERROR_WANT_READ) ended(c, END_TLS);
                break;
            }
            drain_wb(c);
        } else deliver(c, buf, r);
        if (c->read_gap && !c->closed) { c->read_ev = after(c->read_gap, read_later, c); break; }
    }
}
static void read_later(void *arg) { conn_t *c = arg; c->read_ev = NULL; pump_conn(c); }
static void do_write(conn_t *c) {
    flush_raw(c);
    if (!c->up || c->closed) return;
    if (c->use_tls) {
        while (c->outn > 0 && c->rawn < 32768 && !c->ended) {
            /* a requested update would make the library answer inside SSL_read; it cannot while a write is blocked ("bad length") */
            if (c->key_updates && chance(c->key_updates) && SSL_key_update(c->ssl, SSL_KEY_UPDATE_NOT_REQUESTED)) probe("tls key update");
            int k = SSL_write(c->ssl, c->out + c->outoff, c->outn);
            if (k <= 0) { ERR_clear_error(); break; }
            c->outoff += k; c->outn -= k; if (!c->outn) c->outoff = 0;
            drain_wb(c); flush_raw(c);
        }
    } else {
        while (c->outn > 0 && !c->ended) {
            int r = sock_send(c->s, c->out + c->outoff, c->outn);
            if (r < 0) { if (r != -EAGAIN) c->outn = 0; break; }
            c->outoff += r; c->outn -= r; c->last_tx = now; if (!c->outn) c->outoff = 0;
        }
    }
}
static void pump_conn(conn_t *c) {
    if (c->in_process) { c->again = 1; return; }
    if (c->closed) return;
    c->in_process = 1;
    do {
        c->again = 0;
        do_read(c);
        if (!c->closed) do_write(c);
        if (!c->closed && c->up && c->on_drain && conn_backlog(c) == 0 && !c->ended) c->on_drain(c);
    } while (c->again && !c->closed);
    c->in_process = 0;
    if (!c->closed && c->close_when_flushed && (conn_backlog(c) == 0 || c->ended)) {
        if (c->close_when_flushed == 1) conn_close(c);
        else if (!c->half_closed) { c->half_closed = 1; sock_shutdown_wr(c->s); }
    }
}
void conn_cb(sock_t *s, int what, void *arg) {
    conn_t *c = arg;
    if (c->closed) return;
    if (what & EVT_CONNECTED && !c->connected) {
        c->connected = 1; c->opened_at = now;
        if (c->use_tls) { if (!c->tls_server) { SSL_do_handshake(c->ssl); ERR_clear_error(); drain_wb(c); } }
        else { c->up = 1; c->up_at = now; if (c->on_up) c->on_up(c); }
    }
    if (c->closed) return;
    if ((what & EVT_FAILED) && !c->connected) { ended(c, END_CONNFAIL); return; }
    pump_conn(c);
}
conn_t *conn_open(uint32_t fromip, uint32_t ip, uint16_t port, int tls, const char *role) {
    conn_t *c = calloc(1, sizeof *c);
    if (tls) setup_tls(c, 0);
    c->opened_at = now;
    c->s = peer_connect(fromip, ip, port, conn_cb, c, role);
    return c;
}
conn_t *conn_wrap(sock_t *s, int tls_server) {
    conn_t *c = calloc(1, sizeof *c);
    c->s = s; s->cb = conn_cb; s->arg = c; c->connected = 1; c->opened_at = now;
    if (tls_server) setup_tls(c, 1); else { c->up = 1; c->up_at = now; }
    return c;
}
int conn_backlog(conn_t *c) { return c->outn + c->rawn; }
void conn_write(conn_t *c, const void *p, int n) {
    if (c->closed || c->ended) return;
    put(&c->out, &c->outn, &c->outoff, &c->outalloc, p, n);
    c->tx_total += n;
    pump_conn(c);
}
void conn_close(conn_t *c) {
    if (c->closed) return;
    if (c->use_tls && c->tls_up && !c->ended) { SSL_shutdown(c->ssl); ERR_clear_error(); drain_wb(c); flush_raw(c); }
    c->closed = 1;
    cancel(c->read_ev); c->read_ev = NULL;
    sock_close(c->s);
}
void conn_close_after(conn_t *c) { if (c->close_when_flushed) return; c->close_when_flushed = 1; pump_conn(c); }
void conn_abort(conn_t *c) { if (c->closed) return; c->closed = 1; cancel(c->read_ev); c->read_ev = NULL; sock_abort(c->s); }
void conn_pause(conn_t *c, int on) { c->read_paused = on; if (!on) pump_conn(c); }
