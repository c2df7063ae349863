/* Simulated peers: a byte stream over a simulated socket, plain or TLS. */
#ifndef CONN_H
#define CONN_H
#include "sim.h"
typedef struct conn conn_t;
enum { END_FIN = 1, END_RST = 2, END_CONNFAIL = 3, END_TLS = 4 };
struct conn {
    sock_t *s;
    struct ssl_st *ssl; void *rb, *wb; int use_tls, tls_up, tls_server;
    unsigned char *raw; int rawn, rawoff, rawalloc;   /* bytes for the socket */
    unsigned char *out; int outn, outoff, outalloc;   /* application bytes waiting for TLS/space */
    int connected, up;
    int ended;                /* how the stream ended, 0 while open */
    int tls_notify;           /* TLS close_notify seen */
    int closed;               /* we closed it */
    int close_when_flushed;   /* 1 close, 2 half close */
    int half_closed;
    int read_paused;
    usec_t read_gap;          /* pause between reads (0: none) */
    int read_max;             /* bytes per read (0: any) */
    event_t *read_ev;
    int corrupt;              /* permille of outgoing TLS flights in which a byte is changed */
    int key_updates, resume;  /* permille of writes preceded by a key update; an earlier session is offered */
    int in_process, again;
    usec_t opened_at, up_at, ended_at, last_rx, last_tx;
    int64_t rx_total, tx_total;
    void (*on_up)(conn_t *);
    void (*on_data)(conn_t *, const unsigned char *, int);
    void (*on_end)(conn_t *);
    void (*on_drain)(conn_t *);
    void *user; int tag;
};
conn_t *conn_open(uint32_t fromip, uint32_t ip, uint16_t port, int tls, const char *role);
conn_t *conn_wrap(sock_t *s, int tls_server);       /* accepted socket */
void conn_write(conn_t *c, const void *p, int n);
int conn_backlog(conn_t *c);                        /* bytes not yet in the socket */
void conn_close(conn_t *c);                         /* orderly, TLS close_notify first; unsent bytes are dropped */
void conn_close_after(conn_t *c);                   /* close when everything is written */
void conn_abort(conn_t *c);                         /* reset */
void conn_pause(conn_t *c, int on);
void conn_cb(sock_t *s, int what, void *arg);
void tls_global_init(void);
extern int tls_vary;                                /* the TLS of the peers is varied */
unsigned char stream_byte(uint64_t key, uint64_t off);
void stream_fill(uint64_t key, uint64_t off, unsigned char *p, int n);
#endif
