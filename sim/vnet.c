/* Simulated TCP and UDP. */
#include "sim.h"
#include <sys/socket.h>

void (*route_hook)(sock_t *, uint32_t, uint16_t, route_t *);
void (*udp_hook)(sock_t *, uint32_t, uint16_t, const void *, int);
void (*wiretap_hook)(pipe_t *, const unsigned char *, int);
void (*node_connect_hook)(sock_t *);
static int next_sock_id;
static uint16_t next_port = 40000;
static sock_t *listeners[64]; static int nlisteners;

void vnet_add_listener(sock_t *s) {
    for (int i = 0; i < nlisteners; i++) if (!listeners[i]) { listeners[i] = s; return; }
    if (nlisteners < 64) listeners[nlisteners++] = s;
}
static void del_listener(sock_t *s) { for (int i = 0; i < nlisteners; i++) if (listeners[i] == s) listeners[i] = NULL; }
static sock_t *find_listener(uint32_t ip, uint16_t port) {
    for (int i = 0; i < nlisteners; i++)
        if (listeners[i] && listeners[i]->lport == port && listeners[i]->node->ip == ip) return listeners[i];
    return NULL;
}

sock_t *sock_new(int kind, node_t *owner) {
    sock_t *s = calloc(1, sizeof *s);
    s->kind = kind; s->node = owner; s->id = ++next_sock_id; s->fd = -1; s->state = S_FRESH; s->role = "?";
    s->lip = owner ? owner->ip : 0;
    return s;
}

static int pick_cap(void) {
    int c;
    switch (prof.buf_mode) {
    case 0: return 65536;
    /* never below what a kernel grants at the least: both ends write during the TLS handshake without reading */
    case 1: c = 65536 - (int)skewed(0, 64000); break;
    case 2: c = 6000 - (int)skewed(0, 4800); break;
    case 4: return 4 << 20;           /* what a kernel grants to a fast connection */
    default: c = 900 - (int)range(0, 300); break;
    }
    fault(F_SMALLBUF);
    return c;
}
static int pick_seg(int avail) {
    int k = avail;
    if (prof.seg_mode == 1) { if (choose(3)) k = 1 + (int)choose(avail < 3000 ? avail : 3000); }
    else if (prof.seg_mode == 2) k = 9 - (int)range(1, 8);
    else return avail;
    if (k > avail) k = avail;
    if (k < 1) k = 1;
    if (k < avail) fault(F_SEGMENT);
    return k;
}
usec_t net_delay(void) {
    switch (prof.delay_mode) {
    case 0: return 100;
    case 1: fault(F_DELAY); return delay_us(30, 20 * MS);
    default: fault(F_DELAY); return delay_us(500, 250 * MS);
    }
}
static usec_t seg_gap(void) {
    switch (prof.delay_mode) {
    case 0: return 5;
    case 1: return choose(8) ? 10 : delay_us(10, 5 * MS);
    default: return choose(3) ? 50 : delay_us(50, 60 * MS);
    }
}

static pipe_t *pipe_new(sock_t *a, sock_t *b) {
    pipe_t *p = calloc(1, sizeof *p);
    p->from = a; p->to = b; p->sndcap = pick_cap(); p->rcvcap = pick_cap();
    return p;
}
static void link_pair(sock_t *a, sock_t *b) {
    pipe_t *ab = pipe_new(a, b), *ba = pipe_new(b, a);
    a->tx = ab; b->rx = ab; b->tx = ba; a->rx = ba; a->peer = b; b->peer = a;
}

/* ---- readiness ---- */
static void peer_cb(void *arg) {
    sock_t *s = arg; int w = s->cb_pending;
    s->cb_ev = NULL; s->cb_pending = 0;
    if (s->cb && !s->closed) s->cb(s, w, s->arg);
}
static void peer_notify(sock_t *s, int what) {
    if (!s->cb || s->closed) return;
    s->cb_pending |= what;
    if (!s->cb_ev) s->cb_ev = after(1, peer_cb, s);
}
int sock_pollmask(sock_t *s) {
    int m = 0;
    if (s->kind == SOCK_DGRAM) {
        if (s->dq) m |= EPOLLIN;
        return m | EPOLLOUT;
    }
    if (s->state == S_LISTEN) return s->nbacklog ? EPOLLIN : 0;
    if (s->state == S_SYNSENT) return 0;
    if (s->state == S_FRESH) return EPOLLOUT | EPOLLHUP;
    if (s->err) m |= EPOLLERR;
    if (s->rst || s->state == S_DEAD) return m | EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP;
    if (s->rx->rqn > 0) m |= EPOLLIN;
    if (s->rx->fin_arrived) m |= EPOLLIN | EPOLLRDHUP;
    if (s->rx->fin_arrived && s->shut_wr) m |= EPOLLHUP;
    if (s->shut_wr) m |= EPOLLOUT;
    else {
        int free = s->tx->sndcap - s->tx->sqn;
        if (free > 0 && free * 3 >= s->tx->sndcap) m |= EPOLLOUT; else s->nospace = 1;
    }
    return m;
}
void sock_wake(sock_t *s, int key) {
    if (s->closed) return;
    if (!s->node) {
        int w = 0;
        if (key & (EPOLLIN | EPOLLERR | EPOLLHUP)) w |= EVT_READ;
        if (key & EPOLLOUT) w |= EVT_WRITE;
        peer_notify(s, w);
        return;
    }
    struct epitem *it = s->ep;
    if (!it) return;
    if (!(key & (it->events | EPOLLERR | EPOLLHUP))) return;
    if (!it->inready) {
        it->inready = 1; it->next = NULL;
        if (it->set->readytail) it->set->readytail->next = it; else it->set->ready = it;
        it->set->readytail = it;
    }
    node_kick(s->node);
}

/* ---- data movement ---- */
static void pump(void *arg);
static void sched(pipe_t *p, usec_t d) {
    if (p->pump || p->dead || p->blocked) return;
    usec_t t = now + d;
    if (t < p->last_arrival) t = p->last_arrival;
    p->pump = at(t, pump, p);
}
static void rst_arrive(void *arg) {
    sock_t *s = arg;
    if (s->rst || s->state == S_DEAD) return;
    s->rst = 1;
    if (!s->err) s->err = ECONNRESET;
    if (s->tx) { s->tx->dead = 1; cancel(s->tx->pump); s->tx->pump = NULL; s->tx->sqn = 0; }
    if (s->rx) { s->rx->dead = 1; cancel(s->rx->pump); s->rx->pump = NULL; }
    trace("rst_arrive", s->id, 0, 0);
    sock_wake(s, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP);
    if (!s->node) peer_notify(s, EVT_READ | EVT_FAILED);
}
static void send_rst(sock_t *to) { if (to) after(net_delay(), rst_arrive, to); }

static void pump(void *arg) {
    pipe_t *p = arg;
    p->pump = NULL;
    if (p->dead || p->blocked) return;
    p->last_arrival = now;
    sock_t *r = p->to, *s = p->from;
    if (p->sqn > 0) {
        if (r->closed) {              /* data for a closed socket: answered with a reset */
            p->sqn = 0; p->dead = 1;
            send_rst(s);
            return;
        }
        int space = p->rcvcap - p->rqn;
        if (space <= 0) return;       /* window closed; the reader reopens it */
        int k = pick_seg(p->sqn < space ? p->sqn : space);
        if (p->rqoff + p->rqn + k > p->rqalloc) {
            memmove(p->rq, p->rq + p->rqoff, p->rqn); p->rqoff = 0;
            if (p->rqn + k > p->rqalloc) { p->rqalloc = (p->rqn + k) * 2; p->rq = realloc(p->rq, p->rqalloc); }
        }
        memcpy(p->rq + p->rqoff + p->rqn, p->sq + p->sqoff, k);
        p->rqn += k; p->sqoff += k; p->sqn -= k; p->total_arrived += k;
        if (p->sqn == 0) p->sqoff = 0;
        trace("arrive", r->id, k, p->total_arrived);
        sock_wake(r, EPOLLIN);
        if (s->nospace && !s->closed) {
            int free = p->sndcap - p->sqn;
            if (free > 0 && free * 3 >= p->sndcap) { s->nospace = 0; sock_wake(s, EPOLLOUT); }
        }
        if (!s->node) peer_notify(s, EVT_WRITE);
        if (p->sqn > 0 || (p->fin_sent && !p->fin_arrived)) sched(p, seg_gap());
        return;
    }
    if (p->fin_sent && !p->fin_arrived) {
        p->fin_arrived = 1;
        trace("fin", r->id, 0, 0);
        if (!r->closed) sock_wake(r, EPOLLIN | EPOLLRDHUP | (r->shut_wr ? EPOLLHUP : 0));
    }
}

int sock_space(sock_t *s) { return s->tx && !s->rst && s->state == S_ESTAB ? s->tx->sndcap - s->tx->sqn : 0; }

int sock_send(sock_t *s, const void *buf, int n) {
    if (s->state == S_SYNSENT || s->state == S_FRESH) return s->state == S_FRESH ? -EPIPE : -EAGAIN;
    if (s->err) { int e = s->err; s->err = 0; return -e; }
    if (s->rst || s->state == S_DEAD || s->shut_wr) return -EPIPE;
    pipe_t *p = s->tx;
    int free = p->sndcap - p->sqn;
    if (free <= 0) { s->nospace = 1; return -EAGAIN; }
    int k = n < free ? n : free;
    if (k < n) s->nospace = 1;
    if (p->sqoff + p->sqn + k > p->sqalloc) {
        if (p->sqn) memmove(p->sq, p->sq + p->sqoff, p->sqn);
        p->sqoff = 0;
        if (p->sqn + k > p->sqalloc) { p->sqalloc = (p->sqn + k) * 2; p->sq = realloc(p->sq, p->sqalloc); }
    }
    memcpy(p->sq + p->sqoff + p->sqn, buf, k);
    p->sqn += k; p->total_sent += k;
    if (wiretap_hook && (s->wiretap || (s->peer && s->peer->wiretap))) wiretap_hook(p, buf, k);
    trace("send", s->id, k, p->total_sent);
    sched(p, net_delay());
    return k;
}
int sock_readable(sock_t *s) { return s->rx ? s->rx->rqn : 0; }
int sock_recv(sock_t *s, void *buf, int n, int peek) {
    if (s->state == S_SYNSENT) return -EAGAIN;
    if (s->state == S_FRESH) return -ENOTCONN;
    pipe_t *p = s->rx;
    if (p && p->rqn > 0) {
        int k = n < p->rqn ? n : p->rqn;
        memcpy(buf, p->rq + p->rqoff, k);
        if (!peek) {
            p->rqoff += k; p->rqn -= k; p->total_read += k;
            if (p->rqn == 0) p->rqoff = 0;
            if (p->sqn > 0) sched(p, net_delay());
            trace("recv", s->id, k, p->total_read);
        }
        return k;
    }
    if (s->err) { int e = s->err; if (!peek) s->err = 0; return -e; }
    if (s->rst || s->state == S_DEAD) return 0;
    if (p && p->fin_arrived) { if (!peek) trace("eof", s->id, 0, 0); return 0; }
    return -EAGAIN;
}

void sock_shutdown_wr(sock_t *s) {
    if (s->shut_wr || !s->tx) return;
    s->shut_wr = 1; s->tx->fin_sent = 1;
    sched(s->tx, net_delay());
}
void sock_close(sock_t *s) {
    if (s->closed) return;
    s->closed = 1; s->closed_at = now;
    cancel(s->cb_ev); s->cb_ev = NULL;
    trace("close", s->id, s->state, 0);
    if (s->state == S_LISTEN) {
        del_listener(s);
        for (int i = 0; i < s->nbacklog; i++) sock_abort(s->backlog[i]);
        s->nbacklog = 0;
        return;
    }
    if (s->kind == SOCK_DGRAM) { s->state = S_DEAD; return; }
    if (s->state == S_SYNSENT) { cancel(s->conn_ev); s->conn_ev = NULL; s->state = S_DEAD; if (s->peer) send_rst(s->peer); return; }
    if (s->state != S_ESTAB || s->rst) { s->state = S_DEAD; return; }
    if (s->rx->rqn > 0) {            /* unread data: reset instead of orderly close */
        s->tx->dead = 1; s->tx->sqn = 0; cancel(s->tx->pump); s->tx->pump = NULL;
        s->rx->dead = 1; cancel(s->rx->pump); s->rx->pump = NULL;
        s->state = S_DEAD;
        send_rst(s->peer);
        return;
    }
    if (!s->shut_wr) { s->shut_wr = 1; s->tx->fin_sent = 1; }
    sched(s->tx, net_delay());
}
void sock_abort(sock_t *s) {
    if (s->state == S_ESTAB && !s->rst && !s->closed) {
        s->closed = 1; s->closed_at = now; s->state = S_DEAD;
        cancel(s->cb_ev); s->cb_ev = NULL;
        s->tx->dead = 1; s->tx->sqn = 0; cancel(s->tx->pump); s->tx->pump = NULL;
        s->rx->dead = 1; cancel(s->rx->pump); s->rx->pump = NULL;
        trace("abort", s->id, 0, 0);
        send_rst(s->peer);
    } else sock_close(s);
}
void net_reset_flow(sock_t *s) {
    if (s->state != S_ESTAB || s->rst) return;
    fault(F_RST);
    rst_arrive(s);
    send_rst(s->peer);
}

/* ---- connecting ---- */
typedef struct { sock_t *c; uint32_t ip; uint16_t port; route_t r; int to_node; } syn_t;
static void connected(void *arg) {
    sock_t *c = arg;
    c->conn_ev = NULL;
    if (c->closed || c->state != S_SYNSENT) return;
    c->state = S_ESTAB; c->established_at = now;
    trace("connected", c->id, 0, 0);
    if (c->node) sock_wake(c, EPOLLOUT | (c->rx->rqn ? EPOLLIN : 0));
    else peer_notify(c, EVT_CONNECTED | EVT_WRITE | (c->rx->rqn ? EVT_READ : 0));
}
static void conn_fail(sock_t *c, int e) {
    c->conn_ev = NULL;
    if (c->closed || c->state != S_SYNSENT) return;
    c->state = S_DEAD; c->err = e;
    trace("connfail", c->id, e, 0);
    if (c->node) sock_wake(c, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP);
    else peer_notify(c, EVT_FAILED);
}
static void conn_timeout(void *arg) { conn_fail(arg, ETIMEDOUT); }
static void syn_arrive(void *arg) {
    syn_t *y = arg; sock_t *c = y->c;
    c->conn_ev = NULL;
    if (c->closed || c->state != S_SYNSENT) { free(y); return; }
    if (y->to_node) {
        sock_t *l = find_listener(y->ip, y->port);
        if (!l) { fault(F_CONN_REFUSED); conn_fail(c, ECONNREFUSED); free(y); return; }
        if (l->nbacklog > l->backlog_max || l->nbacklog >= 250 || chance(prof.faults_on ? prof.syn_drop : 0)) {
            fault(F_SYN_DROP);
            if (++c->syn_tries > 6) { conn_fail(c, ETIMEDOUT); free(y); return; }
            c->conn_ev = at(now + (SEC << (c->syn_tries - 1)), syn_arrive, y);
            return;
        }
        sock_t *b = sock_new(SOCK_STREAM, l->node);
        b->state = S_ESTAB; b->established_at = now; b->lport = y->port; b->rip = c->lip; b->rport = c->lport;
        b->role = c->role;
        link_pair(c, b);
        l->backlog[l->nbacklog++] = b;
        trace("backlog", l->id, b->id, l->nbacklog);
        sock_wake(l, EPOLLIN);
    } else {
        sock_t *b = sock_new(SOCK_STREAM, NULL);
        b->state = S_ESTAB; b->established_at = now; b->lip = y->ip; b->lport = y->port; b->rip = c->lip; b->rport = c->lport;
        b->cb = y->r.cb; b->arg = y->r.arg; b->role = y->r.role ? y->r.role : "origin";
        link_pair(c, b);
        trace("paccept", b->id, c->id, y->port);
        peer_notify(b, EVT_CONNECTED | EVT_WRITE);
    }
    c->conn_ev = after(net_delay(), connected, c);
    free(y);
}
int dark_link;
int sock_connect(sock_t *s, uint32_t ip, uint16_t port) {
    if (s->state == S_SYNSENT) return EALREADY;
    if (s->state == S_ESTAB) return EISCONN;
    if (s->state != S_FRESH) return ECONNREFUSED;
    s->rip = ip; s->rport = port;
    if (!s->lport) s->lport = ++next_port;
    trace("connect", s->id, ip, port);
    if (s->node && node_connect_hook) node_connect_hook(s);
    syn_t *y = calloc(1, sizeof *y);
    y->c = s; y->ip = ip; y->port = port;
    usec_t d = net_delay();
    for (int i = 0; i < NNODES; i++) if (nodes[i].ip == ip) y->to_node = 1;
    if (!y->to_node) {
        y->r.answer = ANS_REFUSE;
        if (route_hook) route_hook(s, ip, port, &y->r);
        d += y->r.delay;
        if (y->r.answer == ANS_UNREACH) { free(y); s->state = S_DEAD; { static const int e[] = { ENETUNREACH, EHOSTUNREACH, EACCES, EADDRNOTAVAIL }; return e[choose(4)]; } }
    }
    s->state = S_SYNSENT;
    if (y->to_node ? s->node && dark_link : y->r.answer == ANS_BLACKHOLE) {
        fault(F_CONN_BLACKHOLE); free(y);
        s->conn_ev = after(127 * SEC, conn_timeout, s);
        return EINPROGRESS;
    }
    if (!y->to_node && y->r.answer == ANS_REFUSE) {
        extern void conn_refused(void *);
        fault(F_CONN_REFUSED); free(y);
        s->conn_ev = after(d, conn_refused, s);
        return EINPROGRESS;
    }
    sock_t *lst = y->to_node ? find_listener(ip, port) : NULL;
    if (s->node && prof.conn_immediate && (!y->to_node || (lst && lst->nbacklog < lst->backlog_max && !prof.syn_drop)) && chance(prof.conn_immediate)) {
        syn_arrive(y);
        cancel(s->conn_ev); s->conn_ev = NULL;
        s->state = S_ESTAB; s->established_at = now;
        trace("connected", s->id, 1, 0);
        return 0;
    }
    s->conn_ev = after(d, syn_arrive, y);
    return EINPROGRESS;
}
void conn_refused(void *arg) {
    static const int e[] = { ECONNREFUSED, ECONNREFUSED, ECONNREFUSED, ECONNRESET, EHOSTUNREACH, ENETUNREACH, ETIMEDOUT, EACCES };
    conn_fail(arg, e[choose(8)]);
}

sock_t *peer_connect(uint32_t lip, uint32_t ip, uint16_t port, void (*cb)(sock_t *, int, void *), void *arg, const char *role) {
    sock_t *s = sock_new(SOCK_STREAM, NULL);
    s->lip = lip; s->cb = cb; s->arg = arg; s->role = role;
    sock_connect(s, ip, port);
    return s;
}

void udp_inject(sock_t *to, uint32_t fromip, uint16_t fromport, const void *p, int n) {
    if (to->closed) return;
    struct dgram *d = calloc(1, sizeof *d);
    if (n > (int)sizeof d->data) n = sizeof d->data;
    d->ip = fromip; d->port = fromport; d->n = n; memcpy(d->data, p, n);
    if (to->dqtail) to->dqtail->next = d; else to->dq = d;
    to->dqtail = d;
    trace("dgram", to->id, n, 0);
    sock_wake(to, EPOLLIN);
}
void pipe_unblock(pipe_t *p) { p->blocked = 0; if (p->sqn || (p->fin_sent && !p->fin_arrived)) sched(p, net_delay()); }
