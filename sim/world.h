/* Workload building blocks shared by the scenarios. */
#ifndef WORLD_H
#define WORLD_H
#include "conn.h"

#define IP(a, b, c, d) ((uint32_t)(a) << 24 | (b) << 16 | (c) << 8 | (d))
#define DNS_IP (W.gw ? W.dns_ip : IP(8, 8, 8, 8))

/* ---- configuration of the two nodes ---- */
typedef struct {
    int use_c;                     /* applications go through the client node */
    int mode_s;                    /* 0 web only, 2 tunnel port, 3 shared secure port */
    uint16_t local_port, tun_port, http_port, https_port;
    char keys[130][40]; int nkeys;  /* accepted by the server */
    char local_key[40];            /* presented by the client node */
    int log_level;
    int nproc_c, nproc_s, daemon;
    char serv_ip[20];              /* where the client node finds its tunnel server (empty: the server node) */
    char home[260], index[100], crt[260], keyp[260], auth[260];      /* configured paths */
    int gw;                        /* configure a DNS server address (else 8.8.8.8) */
    uint32_t dns_ip; char dns_str[20], srv_str[20];
} wcfg_t;
extern wcfg_t W;
uint16_t any_port(uint16_t **w, int n);
void world_defaults(void);                 /* randomised configuration and profile */
void world_write_files(void);
void world_boot(void);                     /* start nodes and wait until their ports are open */
void world_net_profile(int tiny_ok);       /* segmentation, delays, buffers, wake-ups, shuffle */
uint16_t tunnel_entry(void);               /* port of the server that accepts tunnel clients */
void idle_baseline(void);                  /* remember descriptor/object counts */
void check_nothing_left(node_t *n);        /* compare with the baseline, violation if different */

/* ---- sessions ---- */
enum { PAT_REQRESP, PAT_DUPLEX, PAT_UPLOAD, PAT_DOWNLOAD, PAT_PINGPONG, NPAT };
enum { EXP_OK, EXP_FAIL, EXP_ANY };
enum { DST_IP, DST_NAME };
enum { ST_CONNECT = 1, ST_AUTH, ST_GREET, ST_REQ, ST_DATA, ST_DONE };
typedef struct sess {
    int id, used;
    int direct;                     /* TLS straight to the server node */
    int expect;
    conn_t *app, *org;
    int state;
    int dst; uint32_t ip; uint16_t port; char name[260]; int namelen; uint32_t learned;
    int answer;                     /* ANS_* at the target */
    usec_t answer_delay;
    int pattern; int64_t up, down;  /* bytes each way */
    int rounds; int64_t upmsg, downmsg;
    int64_t app_sent, org_sent, app_rcvd, org_rcvd;
    int closer;                     /* duplex: 0 application closes, 1 origin */
    int app_chunk, org_chunk; usec_t app_gap, org_gap;
    unsigned char hs[600]; int hsn; /* handshake bytes received */
    unsigned char auth[36]; int use_auth;
    unsigned char greet[300]; int greetn;
    unsigned char req[300]; int reqn;
    int connects; usec_t connect_at, conn_up_at, reply_at, start_at, done_at, close_at;
    int refused_seen;
    int app_done, org_done;         /* everything expected arrived */
    int app_eof, org_eof;
    int loss_ok;                    /* a fault may have hit it: completeness not required */
    int lookup_sent; usec_t lookup_at;
    usec_t leave_at;                /* application leaves at this time, whatever the state */
    int stopped_reading;
    int silent_after;               /* stop sending at this handshake stage (0: never) */
    uint64_t key_up, key_down;
    int early_close;
    const char *role;
    void (*on_success)(struct sess *);
    int tag;
    int app_closed_by_us;
    int bad_reply;
    int deny;                       /* no connect or lookup may happen for it */
    const char *deny_why;
    unsigned char auth2[36]; int use_auth2;   /* a second authentication message */
    int hs_max, hs_out;                  /* the application stops for good after so many handshake bytes; 0 = it does not */
    int auth_more;                            /* bytes sent along with the authentication message */
    int auth_off, auth_split;                 /* send the authentication message in several pieces */
} sess_t;
#define MAXSESS 2048
extern sess_t *sess[MAXSESS]; extern int nsess;
sess_t *sess_new(void);                     /* defaults: good session with random pattern */
void sess_start(sess_t *s);
void sess_start_at(sess_t *s, usec_t t);
void sess_random_traffic(sess_t *s, int64_t maxbytes);
int sess_complete(sess_t *s);               /* all expected bytes and ends have been seen */
int all_complete(void);
void sess_build_request(sess_t *s);
void sess_leave(sess_t *s, int how);        /* 0 fin, 1 reset */
sess_t *sess_by_port(uint16_t port);
sess_t *sess_by_name(const char *name, int n);
void sess_set_name(sess_t *s, const void *name, int n);
extern int strict_targets;                  /* unexpected outbound connect is a violation */
extern int check_prefix;
extern int64_t maxpay;
void report_incomplete(const char *kind, sess_t *s);

/* ---- name server ---- */
typedef struct { char name[256]; uint32_t ip; uint32_t ttl; int exists; uint32_t hist[64]; int nhist; } rec_t;
extern rec_t recs[1200]; extern int nrecs;
rec_t *rec_add(const char *name, uint32_t ip, uint32_t ttl);
rec_t *rec_find(const char *name);
typedef struct { int loss, dup, delay_long, malformed, foreign, cname, multi, nxdomain; } dnsprof_t;
extern dnsprof_t dnsprof;
extern int dns_queries;
extern void (*dns_query_hook)(const char *name, sock_t *from);
extern int (*dns_answer_hook)(sock_t *from, const char *name, const unsigned char *q, int qn, unsigned char *out);   /* returns length, 0 none, -1 default */
extern void (*dns_delivered_hook)(const char *name, uint32_t ip, uint32_t ttl);   /* a proper answer reaches a socket that is still open */
extern void (*target_hook)(sess_t *s, uint32_t ip);                              /* a session's outbound connection begins */
void dns_send(sock_t *to, const rec_t *r, const unsigned char *p, int n, usec_t dly, uint32_t fromip, uint16_t port);
int dns_build_answer(const unsigned char *q, int qn, rec_t *r, unsigned char *o);
void dns_setup(void);
usec_t net_delay(void);
#endif
