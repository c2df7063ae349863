From 861c1ee39b53f7c2e9210c61aaebb7bb17bdc009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:15 +0000
Subject: [PATCH 01/55] fix: give accepted connections 5 seconds, not 5 ms, to
 send their first bytes

Timer delays are in milliseconds. A client whose first bytes arrived more
than 5 ms after accept was disconnected.
---
 src/common/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/net.c b/src/common/net.c
index a641f37..3d768f6 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -167,7 +167,7 @@ int net_accept(con_t *c) {
         ///only check readable event for accept result 
         ev_opt(cc, EV_R);
 
-        EZ_TMADD(cc, net_exp, 5);
+        EZ_TMADD(cc, net_exp, 5*1000);
     }
     return 0;
 }
-- 
2.43.0


From f8ede24394d5a60e28b4372a7f9d57c2abd1343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:15 +0000
Subject: [PATCH 02/55] fix: build aho-corasick fail links breadth first

The nodes were visited depth first, so the fail link of a shallower node
could still be NULL when it was followed. Some sets of auth keys crashed the
server at start-up.
---
 src/common/aho_corasick.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 33e144e..21e8f0b 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -51,32 +51,28 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
 }
 
 int ezac_compiler(ezac_ctx_t *ctx) {
-    ezac_node_t *stack[4096] = {0};
-    int stackn = 0;
+    ezac_node_t *queue[4096] = {0};
+    int head = 0, tail = 0;
     int i = 0;
 
     for (i = 0; i < EZAC_MAX; i++) {
         if (ctx->root.arr[i]) {
             ctx->root.arr[i]->pfail = &ctx->root;
-            stack[stackn++] = ctx->root.arr[i];
+            queue[tail++] = ctx->root.arr[i];
         }
     }
 
-    while (stackn > 0) {
-        ezac_node_t * n = stack[--stackn];
+    /// breadth first. the fail node of a node is always less deep than
+    /// the node itself, so it is already done
+    while (head < tail) {
+        ezac_node_t * n = queue[head++];
         for (i = 0; i < EZAC_MAX; i++) {
             if (n->arr[i]) {
                 ezac_node_t * x = n->pfail;
-                char find = 0;
-                do {
-                    if (x->arr[i]) {
-                        find = 1;
-                        break;
-                    }
+                while (!x->arr[i] && x != &ctx->root)
                     x = x->pfail;
-                } while(x != &ctx->root);
-                n->arr[i]->pfail = (find ? x->arr[i]: x);
-                stack[stackn++] = n->arr[i];
+                n->arr[i]->pfail = (x->arr[i] ? x->arr[i]: x);
+                queue[tail++] = n->arr[i];
             }
         }
     }
-- 
2.43.0


From dc1d2d85ae2b0c9b75b99c9354850aa987bd4ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:34 +0000
Subject: [PATCH 03/55] fix: accept an auth key only when it matches a
 configured key as a whole

The key was searched as a stream: any key that contained a configured key
was accepted, the search position survived from one connection to the next,
bytes over 127 were all treated alike, and a key without a terminating zero
was read past its 16 bytes.
---
 src/app/tls_tunnel_s.c    |  2 +-
 src/common/aho_corasick.c | 18 ++++++++++++++----
 src/common/aho_corasick.h |  3 ++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 56681d5..57a53d6 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -251,7 +251,7 @@ static int tls_tunnel_s_auth_chk(con_t *cdown) {
     int auth_chk = -1;
     do {
         schk(auth->magic == htonl(TLS_TUNNEL_AUTH_MAGIC_NUM), break);
-        schk(0 == ezac_find(g_ses_ctx->ac, auth->key, strlen(auth->key)), break);
+        schk(0 == ezac_match(g_ses_ctx->ac, auth->key, strnlen(auth->key, sizeof(auth->key))), break);
         auth_chk = 0;
     } while(0);
     
diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 21e8f0b..77742e0 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -39,8 +39,7 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
 
     for (i = 0; i < datan; i ++) {
-        int idx = data[i];
-        if (idx < 0 || idx > EZAC_MAX) idx = 0;
+        int idx = (unsigned char)data[i];
         if (!n->arr[idx]) {
             schk(n->arr[idx] = sys_alloc(sizeof(ezac_node_t)), return -1);
         }
@@ -87,8 +86,7 @@ int ezac_reset(ezac_ctx_t *ctx) {
 int ezac_find(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
     for (i = 0; i < datan; i++) {
-        int idx = data[i];
-        if (idx < 0 || idx > EZAC_MAX) idx = 0;
+        int idx = (unsigned char)data[i];
         if (!ctx->cur->arr[idx])
             ctx->cur = ctx->cur->pfail;
 
@@ -104,3 +102,15 @@ int ezac_find(ezac_ctx_t *ctx, char *data, int datan) {
     return -1;
 }
 
+/// 0 when data is, as a whole, one of the added strings
+int ezac_match(ezac_ctx_t *ctx, char *data, int datan) {
+    ezac_node_t *n = &ctx->root;
+    int i = 0;
+
+    for (i = 0; i < datan; i++) {
+        n = n->arr[(unsigned char)data[i]];
+        if (!n) return -1;
+    }
+    return n->fendup ? 0 : -1;
+}
+
diff --git a/src/common/aho_corasick.h b/src/common/aho_corasick.h
index 952ca7a..72cf0ea 100755
--- a/src/common/aho_corasick.h
+++ b/src/common/aho_corasick.h
@@ -6,7 +6,7 @@ extern "C"
 {
 #endif
 
-#define EZAC_MAX  128
+#define EZAC_MAX  256
 typedef struct ezac_node_t ezac_node_t;
 struct ezac_node_t {
     ezac_node_t * arr[EZAC_MAX];
@@ -25,6 +25,7 @@ int ezac_add(ezac_ctx_t * ctx, char * data, int datan);
 int ezac_compiler(ezac_ctx_t * ctx);
 int ezac_reset(ezac_ctx_t * ctx);
 int ezac_find(ezac_ctx_t * ctx, char * data, int datan);
+int ezac_match(ezac_ctx_t * ctx, char * data, int datan);
 
 
 #ifdef __cplusplus
-- 
2.43.0


From a95f000d25d132bcfee89418f553147390b83b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:34 +0000
Subject: [PATCH 04/55] fix: do not spin forever on a pending OpenSSL error

ssl_clear_error() looped until the error queue was empty without ever
removing an entry from it.
---
 src/common/ssl.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 930814c..54ef975 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -10,10 +10,6 @@ static g_ssl_t *g_ssl_ctx = NULL;
 
 #define ssl_clear_error()                   \
 {                                           \
-    unsigned long rc = 0;                   \
-    do {                                    \
-        rc = ERR_peek_error();              \
-    } while(rc);                            \
     ERR_clear_error();                      \
 }
 
-- 
2.43.0


From 08ce78e97c7adf40dadd311493e1f6802df2f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:54 +0000
Subject: [PATCH 05/55] fix: never cache the handshake callback as the callback
 to resume

When the handshake had to wait more than once, or for both directions, its
own callback was saved and later restored, and the connection recursed into
ssl_handshake_cb until the stack was gone.
---
 src/common/ssl.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 54ef975..c68d041 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -105,17 +105,14 @@ static int ssl_handshake_cb(con_t *c) {
     if (c->ssl->f_handshaked) {
         if (c->ssl->cc_ev_typ) {
             ev_opt(c, c->ssl->cc_ev_typ);
+            c->ssl->cc_ev_typ = 0;
         }
 
-        if (c->ssl->cc_ev_cbw) {
-            c->ev->write_cb = c->ssl->cc_ev_cbw;
-            c->ssl->cc_ev_cbw = NULL;
-        }
+        c->ev->write_cb = c->ssl->cc_ev_cbw;
+        c->ssl->cc_ev_cbw = NULL;
 
-        if (c->ssl->cc_ev_cbr) {
-            c->ev->read_cb = c->ssl->cc_ev_cbr;
-            c->ssl->cc_ev_cbr = NULL;
-        }
+        c->ev->read_cb = c->ssl->cc_ev_cbr;
+        c->ssl->cc_ev_cbr = NULL;
 
         if (c->ev->write_cb) 
             return c->ev->write_cb(c);
@@ -153,14 +150,14 @@ int ssl_handshake(con_t *c) {
         if (!sslc->cc_ev_typ) 
             sslc->cc_ev_typ = c->ev->opt; ///cache current event opt
             
-        if (!sslc->cc_ev_cbr)
-            if(c->ev->read_cb) 
-                sslc->cc_ev_cbr = c->ev->read_cb;
+        ///cache the callbacks of the user, never the callback of the handshake
+        if (c->ev->read_cb && c->ev->read_cb != ssl_handshake_cb)
+            sslc->cc_ev_cbr = c->ev->read_cb;
 
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                sslc->cc_ev_cbw = c->ev->write_cb;
-   
+        if (c->ev->write_cb && c->ev->write_cb != ssl_handshake_cb)
+            sslc->cc_ev_cbw = c->ev->write_cb;
+
+        c->ev->read_cb = c->ev->write_cb = NULL;
         if (sslerr == SSL_ERROR_WANT_READ) {
             c->ev->read_cb = ssl_handshake_cb;
             ev_opt(c, EV_R);
-- 
2.43.0


From 229af02f428ebf3983bc09df1adeb3ba3b3a9f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:01:16 +0000
Subject: [PATCH 06/55] fix: keep waiting for both directions of a TLS
 connection

ssl_read and ssl_write replaced the event set with the one direction they
were blocked on, so a blocked read dropped a pending write and a transfer in
both directions could stall. They also restored callbacks saved long before,
over ones the user of the connection had set since.
---
 src/common/ssl.c | 69 ++++++++++++++++++------------------------------
 1 file changed, 25 insertions(+), 44 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index c68d041..4b1db2b 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -172,42 +172,32 @@ int ssl_handshake(con_t *c) {
     return -1;
 }
 
-static int ssl_read_cb(con_t *c) { return c->ev->read_cb(c); }
+static int ssl_read_cb(con_t *c) { return c->ev->read_cb ? c->ev->read_cb(c) : 0; }
 
 int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     ssl_con_t * sslc = c->ssl;
 
     ssl_clear_error();
 
+    ///read was waiting for writeable. give the write callback back
+    if (c->ev->write_cb == ssl_read_cb) {
+        c->ev->write_cb = sslc->cc_ev_cbw;
+        sslc->cc_ev_cbw = NULL;
+    }
+
     int rc = SSL_read(sslc->con, buf, bufn);
-    if (rc > 0) {
-        if (sslc->cc_ev_typ) {
-            ev_opt(c, sslc->cc_ev_typ);
-            sslc->cc_ev_typ = 0;
-        }
-        if (sslc->cc_ev_cbw) {
-            c->ev->write_cb = sslc->cc_ev_cbw;
-            sslc->cc_ev_cbw = NULL;
-        }
+    if (rc > 0) 
         return rc;
-    }
     
     int sslerr = SSL_get_error(sslc->con, rc);
     if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
-        if (!sslc->cc_ev_typ) 
-            sslc->cc_ev_typ = c->ev->opt;
-        if (!sslc->cc_ev_cbr)
-            if (c->ev->read_cb) 
-                sslc->cc_ev_cbr = c->ev->read_cb;
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                sslc->cc_ev_cbw = c->ev->write_cb;
-
+        ///keep the other direction's event, it may be waited for too
         if (sslerr == SSL_ERROR_WANT_READ) {
-            ev_opt(c, EV_R);
+            ev_opt(c, c->ev->opt | EV_R);
         } else if (sslerr == SSL_ERROR_WANT_WRITE) {
+            sslc->cc_ev_cbw = c->ev->write_cb;
             c->ev->write_cb = ssl_read_cb;
-            ev_opt(c, EV_W);
+            ev_opt(c, c->ev->opt | EV_W);
         }
         return -11;
     }
@@ -218,41 +208,32 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     return -1;
 }
 
-static int ssl_write_cb(con_t *c) { return c->ev->write_cb(c); }
+static int ssl_write_cb(con_t *c) { return c->ev->write_cb ? c->ev->write_cb(c) : 0; }
 
 int ssl_write(con_t *c, unsigned char *data, int datan) {
     ssl_con_t * sslc = c->ssl;
 
     ssl_clear_error();
+
+    ///write was waiting for readable. give the read callback back
+    if (c->ev->read_cb == ssl_write_cb) {
+        c->ev->read_cb = sslc->cc_ev_cbr;
+        sslc->cc_ev_cbr = NULL;
+    }
+
     int rc = SSL_write(sslc->con, data, datan);
-    if (rc > 0) {
-        if (sslc->cc_ev_typ) {
-            ev_opt(c, c->ssl->cc_ev_typ);
-            sslc->cc_ev_typ = 0;
-        }
-        if (sslc->cc_ev_cbr) {
-            c->ev->read_cb = sslc->cc_ev_cbr;
-            sslc->cc_ev_cbr = NULL;
-        }
+    if (rc > 0) 
         return rc;
-    }
     
     int sslerr = SSL_get_error(sslc->con, rc);
     if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
-        if (!sslc->cc_ev_typ)
-            c->ssl->cc_ev_typ = c->ev->opt;
-        if (!sslc->cc_ev_cbr) 
-            if (c->ev->read_cb) 
-                c->ssl->cc_ev_cbr = c->ev->read_cb;
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                c->ssl->cc_ev_cbw = c->ev->write_cb;
-
+        ///keep the other direction's event, it may be waited for too
         if (sslerr == SSL_ERROR_WANT_READ) {
+            sslc->cc_ev_cbr = c->ev->read_cb;
             c->ev->read_cb = ssl_write_cb;
-            ev_opt(c, EV_R);
+            ev_opt(c, c->ev->opt | EV_R);
         } else if (sslerr == SSL_ERROR_WANT_WRITE) {
-            ev_opt(c, EV_W);
+            ev_opt(c, c->ev->opt | EV_W);
         }
         return -11;
     }
-- 
2.43.0


From bb5fea85878eeaa874548888028cb28678491a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:02:36 +0000
Subject: [PATCH 07/55] fix: clear only the active slots of the event being
 freed

Freeing an event cleared slots it had used in an earlier round, so the
pending event of another connection was lost, and a freed event in slot 0
stayed in the list and was used after free.
---
 src/common/event.c | 18 ++++++++++--------
 src/common/event.h |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/common/event.c b/src/common/event.c
index 52409b6..a674acb 100755
--- a/src/common/event.c
+++ b/src/common/event.c
@@ -77,12 +77,12 @@ int ev_epoll_loop(time_t msec) {
         int opt = g_event_ctx->epev[i].events;
         if (opt & EV_R) {
             ev->fread = 1;
-            ev->idxr = g_event_ctx->evn;
+            ev->idxr = g_event_ctx->evn + 1;
             g_event_ctx->evs[g_event_ctx->evn++] = ev;
         }
         if (opt & EV_W) {
             ev->fwrite = 1;
-            ev->idxw = g_event_ctx->evn;
+            ev->idxw = g_event_ctx->evn + 1;
             g_event_ctx->evs[g_event_ctx->evn++] = ev;
         }
     }
@@ -183,12 +183,12 @@ int ev_select_loop(time_t msec) {
         c = ev->c;
         if (FD_ISSET(c->fd, &rfds)) {
             ev->fread = 1;
-            ev->idxr = g_event_ctx->evn;
+            ev->idxr = g_event_ctx->evn + 1;
             g_event_ctx->evs[g_event_ctx->evn++] = ev;
         }
         if (FD_ISSET(c->fd, &wfds)) {
             ev->fwrite = 1;
-            ev->idxw = g_event_ctx->evn;
+            ev->idxw = g_event_ctx->evn + 1;
             g_event_ctx->evs[g_event_ctx->evn++] = ev;
         }
         q = queue_next(q);
@@ -241,10 +241,12 @@ int ev_alloc(ev_t **ev) {
 
 int ev_free(ev_t *ev) {
     if (ev) {
-        if (ev->idxr) 
-            g_event_ctx->evs[ev->idxr] = NULL;
-        if (ev->idxw)
-            g_event_ctx->evs[ev->idxw] = NULL;
+        ///the slots are those of the last time this event was active.
+        ///clear them only when they still belong to it
+        if (ev->idxr && g_event_ctx->evs[ev->idxr - 1] == ev) 
+            g_event_ctx->evs[ev->idxr - 1] = NULL;
+        if (ev->idxw && g_event_ctx->evs[ev->idxw - 1] == ev)
+            g_event_ctx->evs[ev->idxw - 1] = NULL;
     
         queue_remove(&ev->queue);
         mem_pool_free(ev);
diff --git a/src/common/event.h b/src/common/event.h
index f50bb38..b3821e2 100755
--- a/src/common/event.h
+++ b/src/common/event.h
@@ -23,7 +23,7 @@ struct ev {
     ev_timer_t timer;  /// every event should have a timer to control network time out
     int opt;    /// cache previously event option (EV_R,EV_W,EV_NONE)
 
-    int idxr;
+    int idxr;   /// slot in the active events + 1, 0 means none
     int idxw;
 
     ev_cb  read_cb;
-- 
2.43.0


From d9cf3fe57837ff64b1f736c8a8d6d61e933fe052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:10:12 +0000
Subject: [PATCH 08/55] fix: tell the owner when a TLS handshake times out

The handshake timer released only the TLS connection itself. The tunnel
session kept a pointer to it, and the next event of the other side used it
after free.
---
 src/common/ssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 4b1db2b..c3dbc60 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -33,6 +33,11 @@ static g_ssl_t *g_ssl_ctx = NULL;
 void ssl_cexp(void *data) {
     con_t *c = data;
     c->ssl->f_err = 1;
+    ///handshake timeout. the owner of the connection have more to release 
+    if (!c->ssl->f_handshaked && c->ssl->handshake_cb) {
+        c->ssl->handshake_cb(c);
+        return;
+    }
     net_free(c);
     return;
 }
-- 
2.43.0


From 89b621573acd11ca2d69f89e816553fb4b4a820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:25:32 +0000
Subject: [PATCH 09/55] fix: keep accepting after a failed accept

Events of the listening socket are edge triggered. After an aborted
connection, a lack of descriptors or a failed allocation the connections
that were already waiting were not accepted until another one came.
---
 src/common/net.c | 27 ++++++++++++++++++---------
 src/common/net.h |  1 +
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/common/net.c b/src/common/net.c
index 3d768f6..d7246dd 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -124,6 +124,11 @@ int net_connect(con_t *c, struct sockaddr_in *addr) {
     }
 }
 
+static void net_accept_retry(void *data) {
+    con_t *c = data;
+    net_accept(c);
+}
+
 int net_accept(con_t *c) {
     listen_t *listen = c->data;
     int cfd = 0;
@@ -136,25 +141,29 @@ int net_accept(con_t *c) {
         memset(&caddr, 0x0, caddrn);
         cfd = accept(c->fd, (struct sockaddr *)&caddr, &caddrn);
         if (-1 == cfd) {
-            if (errno == EWOULDBLOCK ||
-                errno == EAGAIN ||
-                errno == EINTR ||
+            if (errno == EWOULDBLOCK || errno == EAGAIN) {
+                return -11;
+            }
+            ///this one is gone. the others of this event are still waiting
+            if (errno == EINTR ||
                 errno == EPROTO ||
                 errno == ECONNABORTED
             ) {
-                return -11;
+                continue;
             }
+            ///there is no new event for the connections already waiting. try again later
             err("accept failed, [%d]\n", errno);
+            EZ_TMADD(c, net_accept_retry, NET_ACCEPT_RETRY);
             return -1;
         }
-        schk(net_alloc(&cc) != -1, {close(cfd); return -1;});
+        schk(net_alloc(&cc) != -1, {close(cfd); continue;});
         memcpy(&cc->addr, &caddr, caddrn);
         cc->fd = cfd;
         
-        schk(net_socket_nbio(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_nodelay(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_fastopen(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_lowat_send(cc->fd) == 0, {net_free(cc); return -1;});
+        schk(net_socket_nbio(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_nodelay(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_fastopen(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_lowat_send(cc->fd) == 0, {net_free(cc); continue;});
         
         cc->recv = recvs;
         cc->send = sends;
diff --git a/src/common/net.h b/src/common/net.h
index b8ee2b9..0e5f442 100755
--- a/src/common/net.h
+++ b/src/common/net.h
@@ -11,6 +11,7 @@ extern "C"
 #define MAX_NET_CON  768
 
 #define NET_TMOUT 5
+#define NET_ACCEPT_RETRY 100
 
 typedef int (*net_cb_rw_chain) (con_t * c, meta_t * meta);
 typedef int (*net_cb_rw) (con_t * c, unsigned char * buf, int bufn);
-- 
2.43.0


From 7ce70f30ce9f728d8a193db803c5ef2f28f1d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:25:32 +0000
Subject: [PATCH 10/55] fix: refuse empty method lists and empty or cut off
 domain names

A greeting without methods or a request with an empty name ran over the end
of its buffer, a name of 255 bytes was not terminated, and a name with a zero
byte was looked up only up to that byte.
---
 src/app/socks5.c | 14 ++++++++++++--
 src/app/socks5.h |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 68eeb36..8b38d9e 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -304,8 +304,11 @@ int s5_p2_req(con_t *cdown) {
             if (s5->s5_state == TYP_DOMAINN) {
                 s5p2->dst_addr_n = *p;
                 s5->s5_state = TYP_DOMAIN;
-                if (s5p2->dst_addr_n < 0) s5p2->dst_addr_n = 0;
-                if (s5p2->dst_addr_n > 255) s5p2->dst_addr_n = 255;
+                if (s5p2->dst_addr_n < 1) {
+                    err("s5p2 domain empty\n");
+                    net_free(cdown);
+                    return -1;
+                }
                 continue;
             }
             if (s5->s5_state == TYP_DOMAIN) {
@@ -331,6 +334,8 @@ int s5_p2_req(con_t *cdown) {
                     schk(0x05 == s5p2->ver, break);
                     schk(0x01 == s5p2->cmd, break);    /// only support CONNECT 0x01 request
                     schk(s5p2->atyp != S5_RFC_IPV6, break); /// not support IPV6 request
+                    schk(s5p2->atyp != S5_RFC_DOMAIN || 
+                        strlen((char*)s5p2->dst_addr) == s5p2->dst_addr_n, break); /// domain is used as string
     
                     cdown->ev->read_cb = s5_cup_addr;
                     cdown->ev->write_cb = NULL;
@@ -411,6 +416,11 @@ int s5_p1_req(con_t *cdown) {
                 s5p1->methods_n = *p;
                 s5p1->methods_cnt = 0;
                 s5->s5_state = METHOD;
+                if (s5p1->methods_n < 1) {
+                    err("s5p1 no methods\n");
+                    net_free(cdown);
+                    return -1;
+                }
                 continue;
             }
             if (s5->s5_state == METHOD) {
diff --git a/src/app/socks5.h b/src/app/socks5.h
index 24044d2..6cb443b 100755
--- a/src/app/socks5.h
+++ b/src/app/socks5.h
@@ -31,7 +31,7 @@ typedef struct {
     unsigned char       atyp;
     unsigned char       dst_addr_n;
     unsigned char       dst_addr_cnt;
-    unsigned char       dst_addr[DOMAIN_LENGTH];
+    unsigned char       dst_addr[DOMAIN_LENGTH+1];
     unsigned char       dst_port[2];
 } s5_ph2_req_t;
 
-- 
2.43.0


From e56eba9be23f06d7b80817ff7c113f9e8ffb76de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:14 +0000
Subject: [PATCH 11/55] fix: expire cached names by their lifetime

The cache was never checked for expiry on use, and the periodic clean-up
removed the fresh records instead of the expired ones. Lifetimes beyond
2147483 seconds overflowed.
---
 src/dns/dns.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 8bdb7b4..2b509f3 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -28,7 +28,7 @@ static void dns_cexp(void *data) {
     dns_async_result(dns, -1, NULL);
 }
 
-static int dns_rec_add(char *query, char *addr, int msec) {
+static int dns_rec_add(char *query, char *addr, long long msec) {
     dns_cache_t rdns = {0};
     
     strncpy(rdns.query, query, sizeof(rdns.query)-1);
@@ -48,6 +48,10 @@ static int dns_rec_add(char *query, char *addr, int msec) {
 int dns_rec_find(char *query, char *out_addr) {
     dns_cache_t *dnsc = ezhash_find(dns_ctx->dns_hash, query, strlen(query));
     if (dnsc) {
+        if (dnsc->expire_msec <= systime_msec()) {
+            ezhash_del(dns_ctx->dns_hash, query, strlen(query));
+            return -1;
+        }
         if (out_addr) memcpy(out_addr, dnsc->addr, 4);
         return 0;
     }
@@ -67,7 +71,7 @@ void dns_rec_chk(void *data) {
 
                     ezhash_obj_t *obj = ptr_get_struct(p, ezhash_obj_t, queue);
                     dns_cache_t *dnsc = obj->val;
-                    if (dnsc->expire_msec > now) {
+                    if (dnsc->expire_msec <= now) {
                         if (obj->key) 
                             mem_pool_free(obj->key);
                         if (obj->val)
@@ -167,7 +171,7 @@ int dns_response_analyze(con_t *c) {
                         /// do nothing, record already in cache 
                     } else {
                         if (rttl > 0 && rdatan > 0) {
-                            dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000*rttl);
+                            dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000LL*rttl);
                         }
                     }
                     memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
-- 
2.43.0


From 66ab873f813b628a46378ca29ca0cfa7055cea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:34:26 +0000
Subject: [PATCH 12/55] fix: end the name lookup of a session that is closed
 meanwhile

The lookup went on with a pointer to the freed session and used it when
the answer arrived or the lookup timed out.
---
 src/app/socks5.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 8b38d9e..d4d86a2 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -8,6 +8,10 @@ static int s5_try_read(con_t *cdown) {
 
     if (0 != net_socket_check_status(cdown->fd)) {
         err("tls tunnel. socket chk err\n");
+        if (ses->dns) { ///lookup still running, no one wait for it anymore
+            dns_free(ses->dns);
+            ses->dns = NULL;
+        }
         net_free(ses->cup);
         net_free(cdown);
         return -1;
@@ -111,6 +115,7 @@ void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
  
         //after result used 
         dns_free(dnsc); 	
+        ses->dns = NULL;
 
         ses->cup->addr.sin_family = AF_INET;
         ses->cup->addr.sin_port = addr_port;
-- 
2.43.0


From 00960dc3d3bf41169b8f4dca773f9d3243fa4e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:34:53 +0000
Subject: [PATCH 13/55] fix: close the session when its name lookup cannot be
 started

A failed allocation either left the session waiting for ever or called
back before the lookup existed, which crashed. The lookup object leaked.
---
 src/app/socks5.c | 4 +++-
 src/dns/dns.c    | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index d4d86a2..0b06b15 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -126,7 +126,9 @@ void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
         ses->cup->ev->write_cb(ses->cup);
     } else {
         err("TLS tunnel. dns resolv failed\n");
-        dns_free(dnsc);
+        if (dnsc) ///NULL if the lookup can not even start
+            dns_free(dnsc);
+        ses->dns = NULL;
         net_free(ses->cup);
         net_free(ses->cdown);
     }
diff --git a/src/dns/dns.c b/src/dns/dns.c
index 2b509f3..6ccb76b 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -331,7 +331,7 @@ static int dns_request_packet(con_t *c) {
 
 int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
     dnsc_t * dns = mem_pool_alloc(sizeof(dnsc_t));
-    schk(dns, return -1);
+    schk(dns, {cb(-1, NULL, userdata); return -1;});
 
     dns->user_data = userdata;
     dns->cb = cb;
@@ -361,6 +361,7 @@ int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
         return dns->c->ev->write_cb(dns->c);
     } while(0);
 
+    dns_free(dns);
     cb(-1, NULL, userdata);
     return -1;
 }
-- 
2.43.0


From 98f502f1d0df851b5bb77b34deae9195df672954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:35:37 +0000
Subject: [PATCH 14/55] fix: use only addresses that the name server gave for
 the queried name

Answers were not matched with the query: any datagram counted, whatever
its sender, id, question, record owner, class or size. Short datagrams
were joined with the following ones and restarted the lookup timer.
---
 src/dns/dns.c | 197 ++++++++++++++++++++++++--------------------------
 1 file changed, 96 insertions(+), 101 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 6ccb76b..4ce6395 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -98,95 +98,105 @@ inline static char * dns_get_serv(void) {
     }
 }
 
+/// read the domain name at p, it may be compressed
+/// return where the name ends, NULL if the name is malformed
+static unsigned char *dns_response_name(meta_t *meta, unsigned char *p, char *name) {
+    unsigned char *end = NULL;
+    int namen = 0, jump = 0;
+
+    while (p < meta->last && *p) {
+        if ((*p & 0xc0) == 0xc0) { /// 0xc0 means two byte length 
+            if (meta->last - p < 2 || ++jump > DOMAIN_LENGTH)
+                return NULL;
+            if (!end) end = p + 2;
+            p = meta->pos + (((p[0] & 0x3f) << 8) | p[1]);
+            continue;
+        }
+        if ((*p & 0xc0) || *p >= meta->last - p || namen + *p + 1 > DOMAIN_LENGTH)
+            return NULL;
+        if (namen > 0)
+            name[namen++] = '.';
+        memcpy(name + namen, p + 1, *p);
+        namen += *p;
+        p += *p + 1;
+    }
+    if (p >= meta->last)
+        return NULL;
+    name[namen] = 0;
+    return end ? end : p + 1;
+}
+
+/// is it the response of the query that we send ?
+static int dns_response_chk(con_t *c) {
+    dnsc_t *dnsc = c->data;
+    meta_t *meta = c->meta;
+    dns_header_t *header = (dns_header_t*)meta->pos;
+    unsigned char qname[DOMAIN_LENGTH*2] = {0};
+    dns_question_t *qinfo = (dns_question_t*)(meta->pos + sizeof(dns_header_t) + dnsc->qname_len);
+
+    if (c->addr.sin_addr.s_addr != inet_addr(dns_get_serv()) || c->addr.sin_port != htons(53))
+        return -1;
+    /// at least the response need contains the request 
+    if (meta_getlen(meta) < sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t))
+        return -1;
+    if (ntohs(header->id) != 0xbeef || !(ntohs(header->flag) & 0x8000) || ntohs(header->question_count) != 1)
+        return -1;
+    dns_request_host2qname(dnsc->query, qname);
+    if (memcmp(meta->pos + sizeof(dns_header_t), qname, dnsc->qname_len))
+        return -1;
+    if (ntohs(qinfo->qtype) != 0x0001 || ntohs(qinfo->qclass) != 0x0001)
+        return -1;
+    return 0;
+}
+
 int dns_response_analyze(con_t *c) {
-    unsigned char *p = NULL;
-    int state_len = 0, cur = 0;
     dnsc_t *dnsc = c->data;
     meta_t *meta = c->meta;
-    
-    enum {
-        ANSWER_DOMAIN,
-        ANSWER_DOMAIN2,
-        ANSWER_COMMON_START,
-        ANSWER_COMMON,
-        ANSWER_ADDR_START,
-        ANSWER_ADDR
-    } state = ANSWER_DOMAIN;
-    p = meta->pos + sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t);
+    char want[DOMAIN_LENGTH+1] = {0}; /// the name that we need the address of
+    char name[DOMAIN_LENGTH+1] = {0};
+    int n = ntohs(((dns_header_t*)meta->pos)->answer_count);
+    unsigned char *p = dns_response_name(meta, meta->pos + sizeof(dns_header_t), want);
+
     /*
         parse dns answer
     */
-    for (; p < meta->last; p++) {
-        if (state == ANSWER_DOMAIN) {
-            if ((*p)&0xc0) {    /// 0xc0 means two byte length 
-                dnsc->answer.name = p;
-                state = ANSWER_DOMAIN2;
-                continue;
-            } else {
-                /// not 0xc0 mean normal string type. then just wait the end flag 0 comes 
-                if (*p == 0) {    
-                    state = ANSWER_COMMON_START;
-                    cur = 0;
-                    state_len = sizeof(dns_rdata_t);
-                    continue;
-                }
-            }
-        }
-        if (state == ANSWER_DOMAIN2) {
-            cur = 0;
-            state_len = sizeof(dns_rdata_t);
-            state = ANSWER_COMMON_START;
+    if (p)
+        p += sizeof(dns_question_t);
+    for (; p && n > 0; n--) {
+        dnsc->answer.name = p;
+        p = dns_response_name(meta, p, name);
+        if (!p || meta->last - p < sizeof(dns_rdata_t))
+            break;
+        dnsc->answer.rdata = (dns_rdata_t *)p;
+        p += sizeof(dns_rdata_t);
+
+        unsigned int rttl = ntohl(dnsc->answer.rdata->ttl);
+        unsigned short rtyp = ntohs(dnsc->answer.rdata->type);
+        unsigned short rclass = ntohs(dnsc->answer.rdata->rclass);
+        unsigned short rdatan = ntohs(dnsc->answer.rdata->data_len);
+        if (meta->last - p < rdatan)
+            break;
+        dnsc->answer.answer_addr = p;
+        p += rdatan;
+
+        if (rclass != 0x0001 || strcasecmp(name, want))
             continue;
-        }
-        if (state == ANSWER_COMMON_START) {
-            /// common start means common part already started
-            dnsc->answer.rdata = (dns_rdata_t *)p;
-            state = ANSWER_COMMON;
-        }
-        if (state == ANSWER_COMMON) {
-            cur++;
-            if(cur >= state_len) {
-                ///answer common finish, goto answer address
-                state = ANSWER_ADDR_START;
-                cur = 0;
-                state_len = ntohs(dnsc->answer.rdata->data_len);
-                continue;
-            }
-        }
-        if (state == ANSWER_ADDR_START) {
-            dnsc->answer.answer_addr = p;
-            state = ANSWER_ADDR;
-        }
-        if (state == ANSWER_ADDR) {
-            cur++;
-            if (cur >= state_len) {
-                /// answer address finish. check address in here
-                unsigned int rttl = ntohl(dnsc->answer.rdata->ttl);
-                unsigned short rtyp = ntohs(dnsc->answer.rdata->type);
-                unsigned short rdatan = ntohs(dnsc->answer.rdata->data_len);
-
-                /// if this answer is a A TYPE answer (IPV4), return ok
-                if (rtyp == 0x0001) {
-                    if (0 == dns_rec_find((char*)dnsc->query, NULL)) {
-                        /// do nothing, record already in cache 
-                    } else {
-                        if (rttl > 0 && rdatan > 0) {
-                            dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000LL*rttl);
-                        }
-                    }
-                    memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
-                    dns_async_result(dnsc, 0, dnsc->result);
-                    return 0;
-                } else if (rtyp == 0x0005) {
-                    ///dbg("dns answer type CNAME, ignore\n");
-                } else if (rtyp == 0x0002) {
-                    ///dbg("dns answer type NAME SERVER, ignore\n");
-                } else if (rtyp == 0x000f) {
-                    ///dbg("dns answer type MAIL SERVER, ignore\n");
+        /// if this answer is a A TYPE answer (IPV4), return ok
+        if (rtyp == 0x0001 && rdatan == 4) {
+            if (0 == dns_rec_find((char*)dnsc->query, NULL)) {
+                /// do nothing, record already in cache 
+            } else {
+                if (rttl > 0) {
+                    dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000LL*rttl);
                 }
-                state = ANSWER_DOMAIN;
-                cur = 0;
             }
+            memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
+            dns_async_result(dnsc, 0, dnsc->result);
+            return 0;
+        } else if (rtyp == 0x0005) {
+            /// CNAME, the address of this name is following 
+            if (!dns_response_name(meta, dnsc->answer.answer_addr, want))
+                break;
         }
     }
     err("dns rsp find result error.\n");
@@ -197,17 +207,13 @@ int dns_response_analyze(con_t *c) {
 int dns_response_recv(con_t *c) {
     dnsc_t *dnsc = c->data;
     meta_t *meta = c->meta;
-    dns_header_t *header = NULL;
 
-    /// at least the response need contains the request 
-    size_t want_len = sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t);
-
-    while (meta_getlen(meta) < want_len) {
+    /// every datagram is a message of its own. ignore everything but the response of our query
+    do {
+        meta_clr(meta);
         int size = udp_recvs(c, meta->last, meta_getfree(meta));
         if (size <= 0) {
             if (size == -11) {
-                // add timer for recv
-                EZ_TMADD(c, dns_cexp, DNS_TMOUT);
                 return -11;
             }
             err("dns recv response failed, errno [%d]\n", errno);
@@ -215,22 +221,9 @@ int dns_response_recv(con_t *c) {
             return -1;
         }
         meta->last += size;
-    }
+    } while (0 != dns_response_chk(c));
     EZ_TMDEL(c);
 
-    /// do basic filter in here, check req question count and answer count     
-    header = (dns_header_t*)meta->pos;
-    if (ntohs(header->question_count) < 1) {
-        err("dns response question count [%d], illegal\n", header->question_count);
-        dns_async_result(dnsc, -1, NULL);
-        return -1;
-    }
-    if (ntohs(header->answer_count) < 1) {
-        err("dns response answer count [%d], illegal\n", header->answer_count);
-        dns_async_result(dnsc, -1, NULL);
-        return -1;
-    }
-
     // make dns connection event invalidate
     return dns_response_analyze(c);
 }
@@ -256,6 +249,8 @@ int dns_request_send(con_t *c) {
 
     meta_clr(meta);
     
+    // add timer for recv
+    EZ_TMADD(c, dns_cexp, DNS_TMOUT);
     c->ev->write_cb = NULL;
     c->ev->read_cb = dns_response_recv;
     return c->ev->read_cb(c);
-- 
2.43.0


From c523589e82cca46596c27a3097f672d630f4a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:42:34 +0000
Subject: [PATCH 15/55] fix: wait for the rest of a web request that arrives in
 pieces

---
 src/http/http_req.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 8652b45..2cfc717 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -40,6 +40,10 @@ static int web_req_line(con_t *c, web_req_t *req) {
 
     for (;;) {
         if (meta_getlen(c->meta) < 1) {
+            if (meta_getfree(c->meta) < 1) {
+                err("webreq meta full\n");
+                return -1;
+            }
             int recvd = c->recv(c, c->meta->last, meta_getfree(c->meta));
             if (recvd < 0) {
                 if (recvd == -11) {
@@ -188,10 +192,8 @@ static int web_req_line(con_t *c, web_req_t *req) {
             }
         }
 
-        if (meta_getfree(c->meta) < 1) {
-            err("webreq meta full\n");
-            return -1;
-        }
+        ///all of it is parsed, continue with the data of the next recv
+        meta->pos = meta->last;
     }
 }
 
@@ -210,6 +212,10 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
     for (;;) {
         
         if (meta_getlen(c->meta) < 1) {
+            if (meta_getfree(c->meta) < 1) {
+                err("webreq meta full\n");
+                return -1;
+            }
             int recvd = c->recv(c, c->meta->last, meta_getfree(c->meta));
             if (recvd < 0) {
                 if (recvd == -11) {
@@ -305,10 +311,8 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
             }
         }
 
-        if (meta_getfree(c->meta) < 1) {
-            err("webreq meta full\n");
-            return -1;
-        }
+        ///all of it is parsed, continue with the data of the next recv
+        meta->pos = meta->last;
     }
 }
 
-- 
2.43.0


From e8e6e51a58d939ec4ca34eb799f34c222bae9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:42:35 +0000
Subject: [PATCH 16/55] fix: keep the received bytes of the next web request

---
 src/app/webser.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index a4f41e6..0380960 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -116,11 +116,12 @@ static int webser_keepalive(con_t *c) {
     meta_free(webc->rsp_hdr);
     meta_free(webc->rsp_payload);
     mem_pool_free(webc);
+    c->data = NULL;
 
     ///process net con meta remian data 
     int remain = meta_getlen(c->meta);
     if (remain) {
-        memcpy(c->meta->start, c->meta->pos, remain);
+        memmove(c->meta->start, c->meta->pos, remain);
         c->meta->pos = c->meta->start;
         c->meta->last = c->meta->pos + remain;
     } else {
@@ -438,10 +439,12 @@ static int webser_req_proc(con_t *c) {
 static int webser_start(con_t *c) {
     webser_t *webc = NULL;
     ///init web connection page and meta memory for use
-    schk(0 == meta_alloc(&c->meta, 4096), {
-        net_free(c);
-        return -1;
-    });
+    ///keep the meta when it is there, it may already hold data of this request
+    if (!c->meta)
+        schk(0 == meta_alloc(&c->meta, 4096), {
+            net_free(c);
+            return -1;
+        });
 
     schk(0 == web_calloc(&webc), {
         net_free(c);
-- 
2.43.0


From 29c1fd19dd4352087db4da4d38064b89613d331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:42:36 +0000
Subject: [PATCH 17/55] fix: take only the body of a web request from the
 received data, and release it

---
 src/http/http_req.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 2cfc717..dfc12ff 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -13,8 +13,10 @@ web_req_t * web_req_alloc(void) {
 }
 
 void web_req_free(web_req_t *webreq) {
-    if (webreq)
+    if (webreq) {
+        meta_free(webreq->payload);
         mem_pool_free(webreq);
+    }
 }
 
 static int web_req_line(con_t *c, web_req_t *req) {
@@ -336,8 +338,11 @@ static int web_req_payload(con_t *c, web_req_t *req) {
         if (req->payloadn > 0) {
             schk(0 == meta_alloc(&req->payload, req->payloadn), return -1);
             int remain = meta_getlen(c->meta);
+            if (remain > req->payloadn) ///the others belong to the next request
+                remain = req->payloadn;
             if (remain) {
-                schk(0 == meta_pdata(req->payload, c->meta->pos, meta_getlen(c->meta)), return -1);
+                schk(0 == meta_pdata(req->payload, c->meta->pos, remain), return -1);
+                c->meta->pos += remain;
             }
         } else {
             return 0;
-- 
2.43.0


From ccafa31ccaa73723b5cf13c2d13af7c43328a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:42:36 +0000
Subject: [PATCH 18/55] fix: answer a POST /echo without body

---
 src/app/web_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/web_api.c b/src/app/web_api.c
index 467e339..700acb7 100755
--- a/src/app/web_api.c
+++ b/src/app/web_api.c
@@ -4,6 +4,8 @@
 
 static int wapi_echo_post(con_t *c) {
     webser_t * webc = c->data;
+    if (!webc->webreq->payload)
+        return webser_rsp(c, 200, NULL, NULL, 0);
     ///dbg("http req data [%s]\n", webc->webreq->payload->pos);
     return webser_rsp(c, 200, NULL, webc->webreq->payload->pos, meta_getlen(webc->webreq->payload));
 }
-- 
2.43.0


From c6e21f0ae3b5535f401d156dfb0d74512fd1bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:42:37 +0000
Subject: [PATCH 19/55] fix: serve files whose path has no dot

---
 src/app/webser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/webser.c b/src/app/webser.c
index 0380960..74416f5 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -135,6 +135,8 @@ static int webser_keepalive(con_t *c) {
 
 void * webser_rsp_mime(webser_t * webser, char * mimetype)
 {
+    if (!mimetype) ///file name without a postfix
+        return "text/plain";
     void * typ = ezhash_find(g_web_ctx->mime_hash, 
                 mimetype, strlen(mimetype));
     return typ ? typ : "text/plain";
-- 
2.43.0


From a865c0bfbf9015e7c085612435d180b175e6c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:42:38 +0000
Subject: [PATCH 20/55] fix: end the status line of a 400 response

---
 src/app/webser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 74416f5..0e65d47 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -309,7 +309,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         if (rcode == 200) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 200 OK\r\n"), break);
         } else if (rcode == 400) {
-            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request"), break);
+            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request\r\n"), break);
         } else if (rcode == 403) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 403 Forbidden\r\n"), break);
         } else if (rcode == 404) {
@@ -317,7 +317,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         } else if (rcode == 500) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 500 Internal Server Error\r\n"), break);
         } else {
-            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request"), break);
+            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request\r\n"), break);
         }
         schk(0 == webser_rsp_hdrp(c, "Server: s5\r\n"), break);
         schk(0 == webser_rsp_hdrp(c, "Date: %s\r\n", systime_gmt()), break);    
-- 
2.43.0


From 04c8ceca0b62e5610f0f989f0c94fe878baa504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:42:38 +0000
Subject: [PATCH 21/55] fix: terminate the strings kept in a hash table

---
 src/common/util/ezhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/util/ezhash.c b/src/common/util/ezhash.c
index bd5dfa6..3afc8ab 100755
--- a/src/common/util/ezhash.c
+++ b/src/common/util/ezhash.c
@@ -144,7 +144,7 @@ int ezhash_add(ezhash_t *hash, void *key, int keyn, void *val, int valn) {
         mem_pool_free(hs);
         return -1;
     }
-    hs->val = mem_pool_alloc(valn);
+    hs->val = mem_pool_alloc(valn + 1); ///values are used as strings
     if(!hs->val) {
         err("alloc hs val err. [%d]\n", errno);
         mem_pool_free(hs->key);
-- 
2.43.0


From 6000d3b04fb84b6eea696fa98e62b65a811d44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:01 +0000
Subject: [PATCH 22/55] fix: answer with an error when the requested file
 cannot be served

---
 src/app/webser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 0e65d47..e450be3 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -364,15 +364,17 @@ static int webser_req_file(con_t *c) {
         err("webser stat reqfile [%s] err, [%d]\n", p, errno);
         http_code = 400;
     } else {
-        if (st.st_mode & S_IFMT) {
+        if (S_ISREG(st.st_mode)) {
             if (st.st_mode & S_IRUSR) {
                 webc->ffd = open(p, O_RDONLY);
                 if (-1 == webc->ffd) {
                     err("webser open reqfile [%s] err, [%d]\n", p, errno);
+                    webc->ffd = 0;
                     http_code = 500;
+                } else {
+                    http_code = 200;
+                    webc->fsize = st.st_size;
                 }
-                http_code = 200;
-                webc->fsize = st.st_size;
             } else {
                 http_code = 403;
             }
-- 
2.43.0


From e2713504ed9453992f058f35ae6a97f9974302e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:01 +0000
Subject: [PATCH 23/55] fix: continue web responses that do not fit into the
 socket buffer

---
 src/app/webser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/webser.c b/src/app/webser.c
index e450be3..c2f0107 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -335,6 +335,8 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         return -1;
     }
     
+    ///the response may have to wait for writeable
+    ev_opt(c, EV_R|EV_W);
     c->ev->read_cb = webser_try_read;
     c->ev->write_cb = webser_rsp_hdr_send;
     return c->ev->write_cb(c);
-- 
2.43.0


From 9509c2311d48eb74a207c2d256591909f090cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:02 +0000
Subject: [PATCH 24/55] fix: accept web request headers with an empty value

---
 src/http/http_req.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index dfc12ff..53b99d2 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -258,6 +258,11 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
             if (req->state == s_value_init) {
                 if (*p == SP) { /// do nothing
                     continue;
+                } else if (*p == CR) { ///empty value
+                    req->kvs[req->kvn].v.data = p;
+                    req->kvs[req->kvn].v.len = 0;
+                    req->state = s_end;
+                    continue;
                 } else {
                     req->kvs[req->kvn].v.data = p;
                     req->state = s_value;
-- 
2.43.0


From a9cc88fc0ea064422a033e8b370910abe82ea9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:03 +0000
Subject: [PATCH 25/55] fix: compare whole names in web requests

---
 src/http/http_req.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 53b99d2..ecc5d80 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -12,6 +12,10 @@ web_req_t * web_req_alloc(void) {
     return rr;
 }
 
+static int web_req_str_is(string_t *str, const char *s) {
+    return str->len == strlen(s) && strncasecmp((char*)str->data, s, str->len) == 0;
+}
+
 void web_req_free(web_req_t *webreq) {
     if (webreq) {
         meta_free(webreq->payload);
@@ -298,16 +302,16 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
                     int i = 0;
                     for (i = 0; i < req->kvn; i++) {
-                        if (strncasecmp((char*)req->kvs[i].k.data, "Connection", req->kvs[i].k.len) == 0) {
-                            if (strncasecmp((char*)req->kvs[i].v.data, "Keep-Alive", req->kvs[i].v.len) == 0) {
+                        if (web_req_str_is(&req->kvs[i].k, "Connection")) {
+                            if (web_req_str_is(&req->kvs[i].v, "Keep-Alive")) {
                                 req->fkeepalive = 1;
                             }
                         }
                     }
 
-                    if (strncasecmp((char*)req->method.data, "GET", req->method.len) == 0) {
+                    if (web_req_str_is(&req->method, "GET")) {
                         req->method_typ = HTTP_METHOD_GET;
-                    } else if (strncasecmp((char*)req->method.data, "POST", req->method.len) == 0) {
+                    } else if (web_req_str_is(&req->method, "POST")) {
                         req->method_typ = HTTP_METHOD_POST;
                     }
                     return req->cb(c, req);
@@ -327,7 +331,7 @@ static int web_req_payload(con_t *c, web_req_t *req) {
     if (!req->payload) {
         int i = 0;
         for (i = 0; i < req->kvn; i++) {
-            if (strncasecmp((char*)req->kvs[i].k.data, "Content-Length", req->kvs[i].k.len) == 0) {
+            if (web_req_str_is(&req->kvs[i].k, "Content-Length")) {
                 req->payloadn = strtol((char*)req->kvs[i].v.data, NULL, 10);
                 if (req->payloadn < 0) {
                     err("webreq payloadn illegal. [%d]\n", req->payloadn);
-- 
2.43.0


From d31bef62b2e9240370ffb81901639e7d96b167f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:25 +0000
Subject: [PATCH 26/55] fix: send the rest of a partly sent file before reading
 on

---
 src/app/webser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index c2f0107..84a9934 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -188,10 +188,9 @@ static int webser_rsp_payload_send_ff(con_t *c) {
         }
         if (webc->fsend >= webc->fsize) 
             break;
-        if (meta_getlen(meta) == 0) 
+        if (meta_getlen(meta) == 0) {
             meta_clr(meta);
         
-        if (meta_getfree(meta) > 0) {
             int readn = read(webc->ffd, meta->last, meta_getfree(meta));
             if (readn <= 0) {
                 err("webserv rff err. [%d] [%d] [%d]\n",
-- 
2.43.0


From 6892625ce91cfb4477dadd04bf26e06f9e93ebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:44:29 +0000
Subject: [PATCH 27/55] fix: send only the declared length of a file that grows

---
 src/app/webser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 84a9934..ce12bc5 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -191,7 +191,11 @@ static int webser_rsp_payload_send_ff(con_t *c) {
         if (meta_getlen(meta) == 0) {
             meta_clr(meta);
         
-            int readn = read(webc->ffd, meta->last, meta_getfree(meta));
+            ///not more than the response header says, the file may have grown
+            int want = webc->fsize - webc->fsend;
+            if (want > meta_getfree(meta))
+                want = meta_getfree(meta);
+            int readn = read(webc->ffd, meta->last, want);
             if (readn <= 0) {
                 err("webserv rff err. [%d] [%d] [%d]\n",
                     errno, webc->fsend, webc->fsize);
-- 
2.43.0


From d669dab7cf296e15f901f5d3930ec6c285112f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:15 +0000
Subject: [PATCH 28/55] fix: answer short web requests on the shared port

---
 src/app/webser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index ce12bc5..ee9d1b6 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -489,7 +489,11 @@ static int webser_transfer_to_tlstunnel(con_t *c) {
 
     /// try to recv TLS tunnel authorization header 
     meta = c->meta;
+    uint32_t magic = htonl(TLS_TUNNEL_AUTH_MAGIC_NUM);
     while (meta_getlen(meta) < sizeof(tls_tunnel_auth_t)) {
+        ///a web request may be shorter. do not wait when it starts with something else
+        if (memcmp(meta->pos, &magic, meta_getlen(meta) < sizeof(magic) ? meta_getlen(meta) : sizeof(magic)))
+            break;
         rc = c->recv(c, meta->last, meta_getfree(meta));
         if (rc < 0) {
             if (rc == -11) {
@@ -506,8 +510,7 @@ static int webser_transfer_to_tlstunnel(con_t *c) {
     }
     EZ_TMDEL(c);
 
-    tls_tunnel_auth_t * auth = (tls_tunnel_auth_t*)meta->pos;
-    if (htonl(TLS_TUNNEL_AUTH_MAGIC_NUM) != auth->magic) {
+    if (memcmp(meta->pos, &magic, meta_getlen(meta) < sizeof(magic) ? meta_getlen(meta) : sizeof(magic))) {
         c->ev->read_cb = webser_start;
         c->ev->write_cb = NULL;
         return c->ev->read_cb(c);
-- 
2.43.0


From 306525ba9366cc069c6302ef5cb55f77e73d810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:26 +0000
Subject: [PATCH 29/55] fix: refuse dot-dot segments anywhere in a web request
 target

---
 src/app/webser.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index ee9d1b6..cedfcd0 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -398,6 +398,18 @@ int webser_req_api(con_t *c) {
     return webc->api->handler(c);
 }
 
+/// @brief check for a ".." path segment anywhere in the uri
+static int webser_uri_dotdot(string_t *uri) {
+    int i = 0;
+    for (i = 0; i + 1 < uri->len; i++) {
+        if (uri->data[i] == '.' && uri->data[i+1] == '.' &&
+            (i == 0 || uri->data[i-1] == '/') &&
+            (i + 2 == uri->len || uri->data[i+2] == '/'))
+            return 1;
+    }
+    return 0;
+}
+
 static int webser_req_router(con_t *c) {
     webser_t *webc = c->data;
 
@@ -413,10 +425,7 @@ static int webser_req_router(con_t *c) {
             return -1;
         });
         
-        char uri[1024] = {0};
-        memcpy(uri, webc->webreq->uri.data,
-                webc->webreq->uri.len > 1024 ? 1024 : webc->webreq->uri.len);
-        schk(!strstr(uri, "../"), {net_free(c);return -1;});
+        schk(!webser_uri_dotdot(&webc->webreq->uri), {net_free(c);return -1;});
         
         c->ev->read_cb = webser_req_file;
         c->ev->write_cb = NULL;
-- 
2.43.0


From fa273278eb61bec28e1d56bd664d8f8b772f86a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:48 +0000
Subject: [PATCH 30/55] fix: answer with an error when the path of a web
 request is too long

---
 src/app/webser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index cedfcd0..e13d15b 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -354,6 +354,11 @@ static int webser_req_file(con_t *c) {
     char *s = p;
     char *e = p + sizeof(p);
     
+    webc->fsize = webc->fsend = 0;
+    if (strlen(config_get()->http_home) + webc->webreq->uri.len + strlen(config_get()->http_index) + 2 > sizeof(p)) {
+        err("webser uri too long, [%d]\n", webc->webreq->uri.len);
+        return webser_rsp(c, 400, NULL, NULL, 0);
+    }
     s += snprintf(s, e-s, "%s", config_get()->http_home);
     if(webc->webreq->uri.len > 0) {
         s += snprintf(s, e-s, "%.*s", webc->webreq->uri.len, webc->webreq->uri.data);
@@ -364,7 +369,6 @@ static int webser_req_file(con_t *c) {
     }
     char * postfix = strrchr(p, '.');
  
-    webc->fsize = webc->fsend = 0;
     if (0 != stat(p, &st)) {
         err("webser stat reqfile [%s] err, [%d]\n", p, errno);
         http_code = 400;
-- 
2.43.0


From 484aa1352559562be606362731be42f9a740321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:02:42 +0000
Subject: [PATCH 31/55] fix: close the descriptor of a failed connect only once

---
 src/common/net.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/net.c b/src/common/net.c
index d7246dd..76250b6 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -117,8 +117,7 @@ int net_connect(con_t *c, struct sockaddr_in *addr) {
                 return -11;
             }
             err("connect failed, [%d]\n", errno);
-            close(fd);
-            return -1;
+            return -1; ///fd is closed with the connection
         }
         return 0;
     }
-- 
2.43.0


From 032abbd9923462b019fcec3edfb57f70234241cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:11:26 +0000
Subject: [PATCH 32/55] fix: keep the timer heap in order when a timer in the
 middle is cancelled

---
 src/common/util/bheap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/util/bheap.c b/src/common/util/bheap.c
index c852865..5d1cfb5 100755
--- a/src/common/util/bheap.c
+++ b/src/common/util/bheap.c
@@ -60,6 +60,12 @@ int heap_del(heap_t * heap, int del_index)
     heap->index--;
     
     i = del_index;
+    ///the tail comes from another branch. it may belong above the deleted one
+    while(HEAP_PARENT(i) && tail_node->key < heap->array[HEAP_PARENT(i)]->key) {
+        heap->array[i] = heap->array[HEAP_PARENT(i)];
+        heap->array[i]->index = i;
+        i = HEAP_PARENT(i);
+    }
     while(HEAP_LCHILD(i) <= heap->index) { ///left child is necessary. right child is unnecessary
         child_min = HEAP_LCHILD(i);
         if(HEAP_RCHILD(i) <= heap->index) {
-- 
2.43.0


From 9fa73ea314e3c7f5bb29a82feee96d54911588ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:13:09 +0000
Subject: [PATCH 33/55] fix: a slowly read transfer keeps both connections of
 its session alive

---
 src/app/tls_tunnel_s.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 57a53d6..231224b 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -93,7 +93,9 @@ static int tls_tunnel_traffic_send(con_t *c) {
     con_t *cup = ses->cup;
     int sendn = 0;
 
+    ///a slow receiver is progress of both connections
     EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
 
     while (meta_getlen(cdown->meta) > 0) {
         sendn = cup->send(cup, cdown->meta->pos, meta_getlen(cdown->meta));
@@ -162,6 +164,7 @@ static int tls_tunnel_traffic_reverse_send(con_t *c) {
     int sendn = 0;
     
     EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
 
     while (meta_getlen(cup->meta) > 0) {
         sendn = cdown->send(cdown, cup->meta->pos, meta_getlen(cup->meta));
-- 
2.43.0


From 80675f2f3e6209837fdaede347f3aa6181628a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:15:44 +0000
Subject: [PATCH 34/55] fix: base timers and cached names on elapsed time
 instead of the wall clock

---
 src/common/sys_time.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/sys_time.c b/src/common/sys_time.c
index d817754..42443f4 100755
--- a/src/common/sys_time.c
+++ b/src/common/sys_time.c
@@ -15,6 +15,7 @@ long long systime_msec() { return time_msec; }
 
 status systime_update(void) {
     struct timeval tv;
+    struct timespec mono;
     time_t sec;
     int msec;
 
@@ -22,7 +23,11 @@ status systime_update(void) {
     gettimeofday(&tv, NULL);
     sec = tv.tv_sec;
     msec = tv.tv_usec / 1000;
-    time_msec = (sec * 1000) + msec;
+
+    ///elapsed time. stepping the system clock must not move the timers
+    memset(&mono, 0, sizeof(struct timespec));
+    clock_gettime(CLOCK_MONOTONIC, &mono);
+    time_msec = ((long long)mono.tv_sec * 1000) + (mono.tv_nsec / 1000000);
 
     struct tm gmt;
     gmtime_r(&sec, &gmt);
-- 
2.43.0


From 94dc2e8758fef849e880f42e92f2ed8b22039aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:26:22 +0000
Subject: [PATCH 35/55] fix: block SIGHUP in the master while it is not waiting

A reload request which arrived between two waits was only noticed after the next signal.
---
 src/common/process.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/process.c b/src/common/process.c
index 022b328..876baee 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -87,6 +87,7 @@ void proc_master_run(void) {
     sigemptyset(&set);
     sigaddset(&set, SIGCHLD);
     sigaddset(&set, SIGINT);
+    sigaddset(&set, SIGHUP);
     sigaddset(&set, SIGUSR1);
     sigaddset(&set, SIGUSR2);
     if (sigprocmask(SIG_BLOCK, &set, NULL) == -1) {
-- 
2.43.0


From 9ae2210835f76878c79fca01bee6ad095386224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:26:22 +0000
Subject: [PATCH 36/55] fix: signal every living worker

The broadcast stopped at the first worker it could not signal, so one dead worker kept the others from being stopped or reloaded.
---
 src/common/process.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index 876baee..bd96393 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -36,14 +36,16 @@ int proc_signal_send(pid_t pid, int32 signal) {
 }
 
 static int proc_signal_bcast(int sig) {
-    int i = 0;
+    int i = 0, rc = 0;
     for (i = 0; i < config_get()->sys_process_num; i++) {
+        if (g_proc_ctx->processes[i].exited) ///already dead, the pid may belong to someone else
+            continue;
         if (-1 == proc_signal_send(g_proc_ctx->processes[i].pid, sig)) {
             err("broadcast signal failed\n");
-            return -1;
+            rc = -1;
         }
     }
-    return 0;
+    return rc;
 }
 
 void proc_worker_run(void) {
-- 
2.43.0


From 4ed28f4d8a1b79ef416e87e5fd12f22d03cb792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:26:22 +0000
Subject: [PATCH 37/55] fix: start a worker again after a failed fork

A fork which failed when replacing a dead worker was never repeated. One which failed at start ended the master and left the other workers running.
---
 src/common/process.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/process.c b/src/common/process.c
index bd96393..13e6d4f 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -90,6 +90,7 @@ void proc_master_run(void) {
     sigaddset(&set, SIGCHLD);
     sigaddset(&set, SIGINT);
     sigaddset(&set, SIGHUP);
+    sigaddset(&set, SIGALRM);
     sigaddset(&set, SIGUSR1);
     sigaddset(&set, SIGUSR2);
     if (sigprocmask(SIG_BLOCK, &set, NULL) == -1) {
@@ -100,7 +101,9 @@ void proc_master_run(void) {
     for (i = 0; i < config_get()->sys_process_num; i++) { /// start worker process
         if (-1 == proc_fork(&g_proc_ctx->processes[i])) {
             err("process spawn number [%d] child failed, errno [%d]\n", i, errno);
-            return;
+            g_proc_ctx->processes[i].exited = 1;
+            alarm(1);
+            continue;
         }
         if (g_proc_ctx->process_id != L_PROCESS_MASTER)
             return;
@@ -134,6 +137,7 @@ void proc_master_run(void) {
                     if (!g_proc_ctx->sig_quit) {  ///if master not recived sigint, just to restart the child process
                         if (-1 == proc_fork( &g_proc_ctx->processes[i])) {
                             err("proc_fork index [%d] failed, [%d]\n", i, errno);
+                            alarm(1); ///try again later
                             continue;
                         }
 
@@ -189,6 +193,8 @@ void proc_signal_cb(int signal) {
         } else if(signal == SIGCHLD) {
             g_proc_ctx->sig_reap = 1;
             proc_waitpid();
+        } else if (signal == SIGALRM) { ///a worker could not be started
+            g_proc_ctx->sig_reap = 1;
         } else if (signal == SIGHUP) {
             g_proc_ctx->sig_reload = 1;
         }
@@ -207,6 +213,7 @@ status proc_signal_init(void) {
         SIGHUP,
         SIGCHLD,
         SIGPIPE,
+        SIGALRM,
         SIGUSR1,
         SIGUSR2,
         0
-- 
2.43.0


From ab8312d0900610c5eadc890e73afa72e68dcda99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:28:16 +0000
Subject: [PATCH 38/55] fix: keep the pid file when a worker ends

Every worker which ended removed the pid file of the master, so -stop and -reload did not work after the first reload.
---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c2af9a1..241bc6d 100755
--- a/src/main.c
+++ b/src/main.c
@@ -119,11 +119,13 @@ int main(int argc, char ** argv)
     schk(0 == config_init(), return -1);
     schk(0 == proc_daemon(), return -1);
     schk(0 == proc_pid_create(), return -1);
+    pid_t pid = getpid();
     schk(0 == modules_core_init(), {unlink(S5_PATH_PID); return -1;});
 
     config_get()->sys_process_num > 0 ? proc_master_run() : proc_worker_run();
     modules_core_exit();
-    unlink(S5_PATH_PID);
+    if (pid == getpid()) ///pid file belongs to the master, not to a worker
+        unlink(S5_PATH_PID);
     return 0;
 }
 #endif
-- 
2.43.0


From 476e5fbd9a4c36ef235cc0f9b5bca7275db2dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:28:16 +0000
Subject: [PATCH 39/55] fix: do not use the process context in signal callback
 before it is made or after it is freed

---
 src/common/process.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index 13e6d4f..cbbd5a4 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -185,6 +185,9 @@ void proc_waitpid(void) {
 
 void proc_signal_cb(int signal) {
     int err_cc = errno; ///cache errno 
+
+    if (!g_proc_ctx) ///process end
+        return;
     
     g_proc_ctx->signal = signal;
     if (g_proc_ctx->process_id == L_PROCESS_MASTER) { ///master
@@ -231,7 +234,6 @@ status proc_signal_init(void) {
 int process_init(void) {
     int i = 0;
     schk(!g_proc_ctx, return -1);
-    schk(0 == proc_signal_init(), return -1);
     schk(g_proc_ctx = sys_alloc(sizeof(process_ctx_t)), return -1);
 
     g_proc_ctx->process_id = L_PROCESS_MASTER;
@@ -242,16 +244,20 @@ int process_init(void) {
 
     for (i = 0; i < config_get()->sys_process_num; i++)
         g_proc_ctx->processes[i].sequence_num = i;
+
+    schk(0 == proc_signal_init(), return -1); ///signal callback use all of above
     return 0;
 }
 
 status process_end(void) {
-    if(g_proc_ctx) {
-        if(g_proc_ctx->shm.size > 0 && g_proc_ctx->shm.data) {
-            sys_shm_free(&g_proc_ctx->shm);
-            g_proc_ctx->shm.size = 0;
+    process_ctx_t *ctx = g_proc_ctx;
+    if(ctx) {
+        g_proc_ctx = NULL; ///signals still arrive
+        if(ctx->shm.size > 0 && ctx->shm.data) {
+            sys_shm_free(&ctx->shm);
+            ctx->shm.size = 0;
         }
-        sys_free(g_proc_ctx);
+        sys_free(ctx);
     }
     return 0;
 }
-- 
2.43.0


From c8efaf41d838d02b4ba65fe3b87f39a120615a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:28:16 +0000
Subject: [PATCH 40/55] fix: notice a stop request which comes during start

The request was remembered but the master started the workers and waited for another signal.
---
 src/common/process.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/process.c b/src/common/process.c
index cbbd5a4..175ba62 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -97,6 +97,8 @@ void proc_master_run(void) {
         err("master blcok signal set failed, [%d]\n", errno);
         return;
     }
+    if (g_proc_ctx->sig_quit) ///stop request came before signals blocked
+        return;
 
     for (i = 0; i < config_get()->sys_process_num; i++) { /// start worker process
         if (-1 == proc_fork(&g_proc_ctx->processes[i])) {
-- 
2.43.0


From 787c2f94709c52e7093e0e3a105c3188b4e031fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:31 +0000
Subject: [PATCH 41/55] fix: do not free a web connection twice when building
 its response fails

webser_rsp_hdrp() freed the connection and webser_rsp() freed it again.
Leave the freeing to webser_rsp().
---
 src/app/webser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index e13d15b..d9c38ec 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -281,7 +281,7 @@ static int webser_rsp_hdrp(con_t *c, const char * str, ...) {
 
 
     if (!webc->rsp_hdr) {
-        schk(0 == meta_alloc(&webc->rsp_hdr, 4096), {net_free(c);return -1;});
+        schk(0 == meta_alloc(&webc->rsp_hdr, 4096), return -1);
     }
     meta_t * n = webc->rsp_hdr;
     meta_t * p = NULL;
@@ -293,8 +293,8 @@ static int webser_rsp_hdrp(con_t *c, const char * str, ...) {
         }
         n = n->next;
     }
-    schk(0 == meta_alloc(&n, 4096), {net_free(c);return -1;});
-    schk(0 == meta_pdata(n, buf, strlen(buf)), {net_free(c);return -1;});
+    schk(0 == meta_alloc(&n, 4096), return -1);
+    schk(0 == meta_pdata(n, buf, strlen(buf)), {meta_free(n);return -1;});
     p->next = n;
     return 0;
 }
-- 
2.43.0


From 1b8b13057657d716976f9e1be4b37013273ab022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:31 +0000
Subject: [PATCH 42/55] fix: check the chosen block of the memory pool for free
 objects

Only the smallest block was checked. An allocation from any other
exhausted block took the queue head itself for an object.
---
 src/common/mem.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/common/mem.c b/src/common/mem.c
index 5442cfd..4f93449 100755
--- a/src/common/mem.c
+++ b/src/common/mem.c
@@ -137,11 +137,6 @@ void * mem_pool_alloc(int size) {
     assert(size > 0);
 
     pthread_mutex_lock(&g_mp_thread_lock);
-    if(queue_empty(&g_mem_ctx.blks[blk_idx].usable)) {
-        pthread_mutex_unlock(&g_mp_thread_lock);
-        return NULL;
-    }
-    
     ///choice block
     if (size <= 512) {
         blk_idx = 0;
@@ -167,6 +162,10 @@ void * mem_pool_alloc(int size) {
         return NULL;
     }
     
+    if(queue_empty(&g_mem_ctx.blks[blk_idx].usable)) {
+        pthread_mutex_unlock(&g_mp_thread_lock);
+        return NULL;
+    }
     queue_t * q = queue_head(&g_mem_ctx.blks[blk_idx].usable);
     mem_obj_t * obj = ptr_get_struct(q, mem_obj_t, queue);
     queue_remove(&obj->queue);
-- 
2.43.0


From aa305b366d1a6d039b413c82af0a6a658a38ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:31 +0000
Subject: [PATCH 43/55] fix: write no more than the formatted text of a long
 log message

vsnprintf() returns the length the text would have had. Using it as the
length of the record wrote stack memory to the log.
---
 src/common/log.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/log.c b/src/common/log.c
index 57bad7e..fe4e290 100755
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -22,9 +22,14 @@ static int log_format_prefix(log_content_t *ctx) {
 }
 
 static int log_format_text(log_content_t *ctx) {
-    
-    ctx->pos += vsnprintf(ctx->pos, (ctx->last - ctx->pos)-1, ctx->args, ctx->args_list);
+    int space = (int)(ctx->last - ctx->pos)-1;
+    int n = vsnprintf(ctx->pos, space, ctx->args, ctx->args_list);
     va_end(ctx->args_list);
+    if (n >= space) { ///truncated, still one line
+        n = space - 1;
+        ctx->pos[n-1] = '\n';
+    }
+    if (n > 0) ctx->pos += n;
     return 0;
 }
 
-- 
2.43.0


From 8a431f5c636b96fd6b8e88c10a5594ab9108d1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:44:17 +0000
Subject: [PATCH 44/55] fix: refuse to start without a usable configuration

A missing, unreadable, incomplete or malformed configuration file was
reported but ignored, and the program ran with all settings zero. An
interrupted read is repeated.
---
 src/common/config.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index d37549f..6f5f52c 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -5,7 +5,7 @@ static config_t g_config;
 static int config_parse(char *str) {
     int i = 0;
     cJSON *root = cJSON_Parse(str);
-    if (root) {
+    if (cJSON_IsObject(root)) {
         cJSON *sys_daemon = cJSON_GetObjectItem(root, "sys_daemon");
         cJSON *sys_process = cJSON_GetObjectItem(root, "sys_process");
         cJSON *sys_loglevel = cJSON_GetObjectItem(root, "sys_log_level");
@@ -96,6 +96,7 @@ static int config_parse(char *str) {
         cJSON_Delete(root);
     } else {
         err("cjson parse config file failed\n");
+        cJSON_Delete(root);
         return -1;
     }
     return 0;
@@ -112,6 +113,7 @@ int config_init(void) {
 
     struct stat fstat;
     int rc = 0;
+    int ret = -1;
     int fsz = 0;
     int ffd = 0;
     int freadn = 0;
@@ -127,19 +129,22 @@ int config_init(void) {
         ffd = open(S5_PATH_CFG, O_RDONLY);
         schk(ffd > 0, break);
         while (freadn < fsz) {
-            rc = read(ffd, fbuf + freadn, fsz + 1 - freadn);
+            rc = read(ffd, fbuf + freadn, fsz - freadn);
+            if (rc < 0 && errno == EINTR) continue;
             schk(rc > 0, break);
             freadn += rc;
         }
+        schk(freadn == fsz, break);
 
         ahead_dbg("config string:\n");
         ahead_dbg("%s", fbuf);
         schk(0 == config_parse(fbuf), break);
+        ret = 0;
     } while(0);
     
-    if (ffd) close(ffd);
+    if (ffd > 0) close(ffd);
     if (fbuf) sys_free(fbuf);
-    return 0;
+    return ret;
 }
 
 int config_end(void) { return OK; }
-- 
2.43.0


From 202d843790950b51c4def9458f6325cbaa511879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:44:17 +0000
Subject: [PATCH 45/55] fix: refuse configuration values that are not strings
 where one is needed

cJSON_GetStringValue() returns NULL for them, which was copied from.
---
 src/common/config.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index 6f5f52c..e9eaf5a 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -2,6 +2,12 @@
 
 static config_t g_config;
 
+static int config_string(cJSON *item, char *dst, int dstn) {
+    schk(cJSON_IsString(item), return -1);
+    strncpy(dst, cJSON_GetStringValue(item), dstn - 1);
+    return 0;
+}
+
 static int config_parse(char *str) {
     int i = 0;
     cJSON *root = cJSON_Parse(str);
@@ -23,9 +29,9 @@ static int config_parse(char *str) {
         cJSON *ssl_crt_path = cJSON_GetObjectItem(root, "ssl_crt_path");
         cJSON *ssl_key_path = cJSON_GetObjectItem(root, "ssl_key_path");
         if (ssl_crt_path)
-            strncpy(g_config.ssl_crt_path, cJSON_GetStringValue(ssl_crt_path), sizeof(g_config.ssl_crt_path)-1);
+            schk(0 == config_string(ssl_crt_path, g_config.ssl_crt_path, sizeof(g_config.ssl_crt_path)), {cJSON_Delete(root); return -1;});
         if (ssl_key_path)
-            strncpy(g_config.ssl_key_path, cJSON_GetStringValue(ssl_key_path), sizeof(g_config.ssl_key_path)-1);
+            schk(0 == config_string(ssl_key_path, g_config.ssl_key_path, sizeof(g_config.ssl_key_path)), {cJSON_Delete(root); return -1;});
         ///dbg("ssl_crt_path: [%s]\n", g_config.ssl_crt_path);
         ///dbg("ssl_key_path: [%s]\n", g_config.ssl_key_path);
 
@@ -39,9 +45,9 @@ static int config_parse(char *str) {
         if (s5_serv_port)
             g_config.s5_serv_port = s5_serv_port->valueint;
         if (s5_serv_auth_path)
-            strncpy(g_config.s5_serv_auth_path, cJSON_GetStringValue(s5_serv_auth_path), sizeof(g_config.s5_serv_auth_path)-1);
+            schk(0 == config_string(s5_serv_auth_path, g_config.s5_serv_auth_path, sizeof(g_config.s5_serv_auth_path)), {cJSON_Delete(root); return -1;});
         if (s5_serv_gw)
-            strncpy(g_config.s5_serv_gw, cJSON_GetStringValue(s5_serv_gw), sizeof(g_config.s5_serv_gw)-1);
+            schk(0 == config_string(s5_serv_gw, g_config.s5_serv_gw, sizeof(g_config.s5_serv_gw)), {cJSON_Delete(root); return -1;});
         ///dbg("s5_mode: [%d]\n", g_config.s5_mode);
         ///dbg("s5_serv_port: [%d]\n", g_config.s5_serv_port);
         ///dbg("s5_serv_auth_path: [%s]\n", g_config.s5_serv_auth_path);
@@ -57,9 +63,9 @@ static int config_parse(char *str) {
         if (s5_local_serv_port)
             g_config.s5_local_serv_port = s5_local_serv_port->valueint;
         if (s5_local_serv_ip)
-            strncpy(g_config.s5_local_serv_ip, cJSON_GetStringValue(s5_local_serv_ip), sizeof(g_config.s5_local_serv_ip)-1);
+            schk(0 == config_string(s5_local_serv_ip, g_config.s5_local_serv_ip, sizeof(g_config.s5_local_serv_ip)), {cJSON_Delete(root); return -1;});
         if (s5_local_auth)
-            strncpy(g_config.s5_local_auth, cJSON_GetStringValue(s5_local_auth), sizeof(g_config.s5_local_auth)-1);
+            schk(0 == config_string(s5_local_auth, g_config.s5_local_auth, sizeof(g_config.s5_local_auth)), {cJSON_Delete(root); return -1;});
         ///dbg("s5_local_port: [%d]\n", g_config.s5_local_port);
         ///dbg("s5_local_serv_port: [%d]\n", g_config.s5_local_serv_port);
         ///dbg("s5_local_serv_ip: [%s]\n", g_config.s5_local_serv_ip);
@@ -79,9 +85,9 @@ static int config_parse(char *str) {
                 g_config.https_arr[i] = cJSON_GetArrayItem(https_arr, i)->valueint;
         }
         if (http_home)
-            strncpy(g_config.http_home, cJSON_GetStringValue(http_home), sizeof(g_config.http_home)-1);
+            schk(0 == config_string(http_home, g_config.http_home, sizeof(g_config.http_home)), {cJSON_Delete(root); return -1;});
         if (http_index)
-            strncpy(g_config.http_index, cJSON_GetStringValue(http_index), sizeof(g_config.http_index)-1);
+            schk(0 == config_string(http_index, g_config.http_index, sizeof(g_config.http_index)), {cJSON_Delete(root); return -1;});
 
         g_config.http_num = cJSON_GetArraySize(http_arr);
         ///for(i = 0; i < g_config.http_num; i++) 
-- 
2.43.0


From ad09ba1d38989334bc036e3bd7540213a2ec2791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:44:17 +0000
Subject: [PATCH 46/55] fix: refuse to start with more ports than can be opened

Ports beyond the 8 listeners were silently left out, and more than 64
ports of one kind were written behind the array.
---
 src/common/config.c |  2 ++
 src/common/listen.c | 13 +++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index e9eaf5a..f4e3d45 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -76,6 +76,8 @@ static int config_parse(char *str) {
         cJSON *https_arr = cJSON_GetObjectItem(root, "https_arr");
         cJSON *http_home = cJSON_GetObjectItem(root, "http_home");
         cJSON *http_index = cJSON_GetObjectItem(root, "http_index");
+        schk(cJSON_GetArraySize(http_arr) <= L_OPEN_PORT_MAX, {cJSON_Delete(root); return -1;});
+        schk(cJSON_GetArraySize(https_arr) <= L_OPEN_PORT_MAX, {cJSON_Delete(root); return -1;});
         if (http_arr) {
             for (i = 0; i < cJSON_GetArraySize(http_arr); i++)
                 g_config.http_arr[i] = cJSON_GetArrayItem(http_arr, i)->valueint;
diff --git a/src/common/listen.c b/src/common/listen.c
index 188ca51..6689170 100755
--- a/src/common/listen.c
+++ b/src/common/listen.c
@@ -60,17 +60,18 @@ int listen_start(void) {
 int listen_init(void) {
     int i = 0;
 
-    if (config_get()->s5_mode == TLS_TUNNEL_C)
-        listen_add(config_get()->s5_local_port, tls_tunnel_c_accept, S5_NOSSL); 
-    else if (config_get()->s5_mode == TLS_TUNNEL_S)
-        listen_add(config_get()->s5_serv_port, tls_tunnel_s_accept, S5_SSL); 
+    if (config_get()->s5_mode == TLS_TUNNEL_C) {
+        schk(0 == listen_add(config_get()->s5_local_port, tls_tunnel_c_accept, S5_NOSSL), return -1); 
+    } else if (config_get()->s5_mode == TLS_TUNNEL_S) {
+        schk(0 == listen_add(config_get()->s5_serv_port, tls_tunnel_s_accept, S5_SSL), return -1); 
+    }
     
     
     for (i = 0; i < config_get()->http_num; i++)
-        listen_add(config_get()->http_arr[i], webser_accept_cb, S5_NOSSL);
+        schk(0 == listen_add(config_get()->http_arr[i], webser_accept_cb, S5_NOSSL), return -1);
     
     for (i = 0; i < config_get()->https_num; i++)
-        listen_add(config_get()->https_arr[i], webser_accept_cb_ssl, S5_SSL);
+        schk(0 == listen_add(config_get()->https_arr[i], webser_accept_cb_ssl, S5_SSL), return -1);
 
     schk(0 == listen_start(), return -1);
     return 0;
-- 
2.43.0


From 98f2fe30042c0e0c39b9465b11ca50c36c32fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:44:17 +0000
Subject: [PATCH 47/55] fix: read the key file completely

A short read lost the rest of the keys, and a file of the largest size
was parsed without a terminating byte.
---
 src/app/tls_tunnel_s.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 231224b..d896a56 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -359,10 +359,14 @@ static int tls_tunnel_s_auth_fread(meta_t *meta) {
     ssize_t size = 0;
     int fd = open((char*)config_get()->s5_serv_auth_path, O_RDONLY);
     schk(fd > 0, return -1);
-    size = read(fd, meta->pos, meta_getfree(meta));
+    while (meta_getfree(meta) > 1) { ///the last byte terminates the text
+        size = read(fd, meta->last, meta_getfree(meta) - 1);
+        if (size < 0 && errno == EINTR) continue;
+        schk(size != -1, {close(fd); return -1;});
+        if (size == 0) break;
+        meta->last += size;
+    }
     close(fd);
-    schk(size != -1, return -1);
-    meta->last += size;
     return 0;
 }
 
@@ -371,7 +375,7 @@ static int tls_tunnel_s_auth_init(void) {
     int rc = -1;
     do {
         schk(g_ses_ctx->ac = ezac_init(), break);
-        schk(meta_alloc(&meta, TLS_TUNNEL_AUTH_FILE_MAX) == 0, break);
+        schk(meta_alloc(&meta, TLS_TUNNEL_AUTH_FILE_MAX + 1) == 0, break);
         schk(tls_tunnel_s_auth_fread(meta) == 0, break);
         schk(tls_tunnel_s_auth_fparse(meta) == 0, break);
         ezac_compiler(g_ses_ctx->ac);
-- 
2.43.0


From 389dd2178c560df46a3e6efab872dbbaed8b785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:44:17 +0000
Subject: [PATCH 48/55] fix: skip entries of the key file that are not strings

---
 src/app/tls_tunnel_s.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index d896a56..72d7541 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -346,6 +346,10 @@ static int tls_tunnel_s_auth_fparse(meta_t *meta) {
         int i = 0;
         for (i = 0; i < cJSON_GetArraySize(root); i++) {
             cJSON * arrobj = cJSON_GetArrayItem(root, i);
+            if (!cJSON_IsString(arrobj)) {
+                err("s5 srv auth is not a string\n");
+                continue;
+            }
             if (0 != ezac_add(g_ses_ctx->ac, cJSON_GetStringValue(arrobj), strlen(cJSON_GetStringValue(arrobj)))) {
                 err("s5 srv auth add ac err\n", cJSON_GetStringValue(arrobj));
             }
-- 
2.43.0


From dc34c4a9c18c457035f911aa3de8cfc88abc6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:44:49 +0000
Subject: [PATCH 49/55] fix: do not run a worker whose modules failed to
 initialize

A worker that could not read its keys or certificate went on with half
of its modules and crashed on the first web request. It ends instead;
a master starts it again after a second.
---
 src/common/process.c | 8 +++++---
 src/common/process.h | 2 +-
 src/main.c           | 8 ++++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index 175ba62..80d804c 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -48,13 +48,13 @@ static int proc_signal_bcast(int sig) {
     return rc;
 }
 
-void proc_worker_run(void) {
+int proc_worker_run(void) {
     int32 timer;
     sigset_t set;
     sigemptyset(&set); ///clear signal set
     sigprocmask(SIG_SETMASK, &set, NULL); ///worker process set the empty signal set to block. it is equal to not block any signal
 
-    modules_process_init();  ///init process modules
+    schk(0 == modules_process_init(), return -1);  ///init process modules
     for (;;) {
         if (g_proc_ctx->sig_quit) {
             g_proc_ctx->sig_quit = 0;
@@ -64,6 +64,7 @@ void proc_worker_run(void) {
         ev_loop(timer);
     }
     modules_pocess_exit();
+    return 0;
 }
 
 static int proc_fork(process_t *process) {
@@ -73,7 +74,8 @@ static int proc_fork(process_t *process) {
         return -1;
     } else if (pid == 0) { ///child
         g_proc_ctx->process_id = process->sequence_num;
-        proc_worker_run();
+        if (0 != proc_worker_run())
+            sleep(1); ///master will restart this worker, not too fast
     } else if (pid > 0) { ///parent
         process->pid = pid;
     }
diff --git a/src/common/process.h b/src/common/process.h
index 9e2b975..4471dd6 100755
--- a/src/common/process.h
+++ b/src/common/process.h
@@ -16,7 +16,7 @@ typedef struct {
 } process_t ;
 
 void proc_master_run(void);
-void proc_worker_run(void);
+int proc_worker_run(void);
 
 int proc_pid();
 int proc_pid_form_file(pid_t * pid);
diff --git a/src/main.c b/src/main.c
index 241bc6d..b1b97e0 100755
--- a/src/main.c
+++ b/src/main.c
@@ -122,10 +122,14 @@ int main(int argc, char ** argv)
     pid_t pid = getpid();
     schk(0 == modules_core_init(), {unlink(S5_PATH_PID); return -1;});
 
-    config_get()->sys_process_num > 0 ? proc_master_run() : proc_worker_run();
+    int rc = 0;
+    if (config_get()->sys_process_num > 0)
+        proc_master_run();
+    else
+        rc = proc_worker_run();
     modules_core_exit();
     if (pid == getpid()) ///pid file belongs to the master, not to a worker
         unlink(S5_PATH_PID);
-    return 0;
+    return rc;
 }
 #endif
-- 
2.43.0


From 5b972e2a60a0ec12cc50dd3c112536358bc51173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:06 +0000
Subject: [PATCH 50/55] fix: report failures while initializing timers, events
 and the web api

A worker that could not create its timer heap or event descriptor,
watch a port or register a web api went on without it.
---
 src/app/web_api.c  | 4 ++--
 src/app/webser.c   | 2 +-
 src/common/event.c | 7 ++++---
 src/common/timer.c | 2 +-
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/app/web_api.c b/src/app/web_api.c
index 700acb7..a9c9028 100755
--- a/src/app/web_api.c
+++ b/src/app/web_api.c
@@ -15,8 +15,8 @@ static int wapi_echo_get(con_t *c) {
 }
 
 int webapi_init(void) {
-    webser_api_reg("/echo", wapi_echo_get, HTTP_METHOD_GET, 0);
-    webser_api_reg("/echo", wapi_echo_post, HTTP_METHOD_POST, 1);
+    schk(0 == webser_api_reg("/echo", wapi_echo_get, HTTP_METHOD_GET, 0), return -1);
+    schk(0 == webser_api_reg("/echo", wapi_echo_post, HTTP_METHOD_POST, 1), return -1);
     return OK;
 }
 
diff --git a/src/app/webser.c b/src/app/webser.c
index d9c38ec..330e30d 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -646,7 +646,7 @@ int webser_init(void) {
         /// init webserv api data
         schk(mem_arr_create(&g_web_ctx->g_api_list, sizeof(webser_api_t)) == 0, break);
 
-        webapi_init();
+        schk(webapi_init() == 0, break);
         ret = 0;
     } while(0);
 
diff --git a/src/common/event.c b/src/common/event.c
index a674acb..9d17967 100755
--- a/src/common/event.c
+++ b/src/common/event.c
@@ -272,8 +272,9 @@ int ev_init(void) {
     g_event_handler.opt = ev_select_opt;
     g_event_handler.run = ev_select_loop;
 #endif    
-    if (g_event_handler.init)
-        g_event_handler.init();
+    if (g_event_handler.init) {
+        schk(0 == g_event_handler.init(), return -1);
+    }
 
     /// all worker process will be add listen fd into event.
     /// listen fd set by SO_REUSEPORT. 
@@ -287,7 +288,7 @@ int ev_init(void) {
             g_listens[i].c->ev->read_cb = net_accept;
             g_listens[i].c->data = &g_listens[i];
             g_listens[i].c->data_cb = NULL;
-            ev_opt(g_listens[i].c, EV_R);
+            schk(0 == ev_opt(g_listens[i].c, EV_R), return -1);
         }
     }
     
diff --git a/src/common/timer.c b/src/common/timer.c
index 04dcc8d..6db6030 100755
--- a/src/common/timer.c
+++ b/src/common/timer.c
@@ -56,7 +56,7 @@ int timer_expire(int *wait_ms) {
 }
 
 int timer_init(void) {
-    heap_create(&g_heap, MAX_NET_CON * 2);
+    schk(0 == heap_create(&g_heap, MAX_NET_CON * 2), return -1);
     return 0;
 }
 
-- 
2.43.0


From 532ae52b5bc05701b67806c2db6304da895c52fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:06 +0000
Subject: [PATCH 51/55] fix: do not leave an incomplete pid file behind

The cut off number of a failed write names some other process, which a
later -stop would signal.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index b1b97e0..8c4ce28 100755
--- a/src/main.c
+++ b/src/main.c
@@ -38,7 +38,7 @@ int proc_pid_create()
     sprintf(str, "%d", getpid());
     int writen = write(fd, str, strlen(str));
     close(fd);
-    schk(writen == strlen(str), return -1);
+    schk(writen == strlen(str), {unlink(S5_PATH_PID); return -1;});
     return 0;
 }
 
-- 
2.43.0


From 14694bc1a86423d61539203d819e7d7665269c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:15 +0000
Subject: [PATCH 52/55] fix: do not run without the keys when the key file
 cannot be loaded

A failed allocation or a malformed file left all or some of the listed
keys refused until the next start.
---
 src/app/tls_tunnel_s.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 72d7541..e89aa35 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -341,9 +341,11 @@ int tls_tunnel_s_accept(con_t *cdown) {
 }
 
 static int tls_tunnel_s_auth_fparse(meta_t *meta) {
+    int rc = -1;
     cJSON *root = cJSON_Parse((char*)meta->pos);
     if (root) {  /// traversal the array 
         int i = 0;
+        rc = 0;
         for (i = 0; i < cJSON_GetArraySize(root); i++) {
             cJSON * arrobj = cJSON_GetArrayItem(root, i);
             if (!cJSON_IsString(arrobj)) {
@@ -352,11 +354,12 @@ static int tls_tunnel_s_auth_fparse(meta_t *meta) {
             }
             if (0 != ezac_add(g_ses_ctx->ac, cJSON_GetStringValue(arrobj), strlen(cJSON_GetStringValue(arrobj)))) {
                 err("s5 srv auth add ac err\n", cJSON_GetStringValue(arrobj));
+                rc = -1;
             }
         }
         cJSON_Delete(root);
     }
-    return 0;
+    return rc;
 }
 
 static int tls_tunnel_s_auth_fread(meta_t *meta) {
-- 
2.43.0


From 046b0a821bccb39f7a91a3040193aebd8ca81f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:15 +0000
Subject: [PATCH 53/55] fix: do not mark a timer set that could not be added

Deleting such a timer later removed some other timer from the heap.
---
 src/common/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/timer.c b/src/common/timer.c
index 6db6030..c3bd4b6 100755
--- a/src/common/timer.c
+++ b/src/common/timer.c
@@ -15,11 +15,11 @@ int tm_add(ev_timer_t *timer, timer_cb cb, void *data, int delay_ms) {
         tm_del(timer);
 
     timer->f_timeout = 0;
-    timer->f_timeset = 1;
     timer->cb = cb;
     timer->data = data;
     timer->node.key = (systime_msec() + delay_ms);
     schk(0 == heap_add(g_heap, &timer->node), return -1);
+    timer->f_timeset = 1;
     return 0;
 }
 
-- 
2.43.0


From 0dd59ee9a42657220f1d3507a5d1cfe0de6aaada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:20 +0000
Subject: [PATCH 54/55] fix: limit the number of remembered names

Every remembered name takes three objects of the memory pool for up to
three hours. After some hundreds of names none was left for connections
and all of them were refused. Names beyond the limit are looked up each time.
---
 src/dns/dns.c | 10 +++++++++-
 src/dns/dns.h |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 4ce6395..05c8a1e 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -11,6 +11,7 @@ typedef struct dns_cache_s {
 
 typedef struct dns_ctx_s {
     ezhash_t *dns_hash;
+    int dns_num;
     ev_timer_t dns_timer;
 } dns_ctx_t;
 static dns_ctx_t *dns_ctx = NULL;
@@ -30,6 +31,10 @@ static void dns_cexp(void *data) {
 
 static int dns_rec_add(char *query, char *addr, long long msec) {
     dns_cache_t rdns = {0};
+
+    ///connections need memory of the pool too
+    if (dns_ctx->dns_num >= DNS_REC_MAX)
+        return -1;
     
     strncpy(rdns.query, query, sizeof(rdns.query)-1);
     rdns.addr[0] = addr[0];
@@ -40,7 +45,8 @@ static int dns_rec_add(char *query, char *addr, long long msec) {
         msec = DNS_TTL_MAX;
     rdns.expire_msec = systime_msec() + msec;
 
-    ezhash_add(dns_ctx->dns_hash, query, strlen(query), &rdns, sizeof(dns_cache_t));
+    schk(0 == ezhash_add(dns_ctx->dns_hash, query, strlen(query), &rdns, sizeof(dns_cache_t)), return -1);
+    dns_ctx->dns_num++;
     ///dbg("dns cache add entry: [%s]. ttl [%d] msec\n", query, msec);
     return 0;
 }
@@ -50,6 +56,7 @@ int dns_rec_find(char *query, char *out_addr) {
     if (dnsc) {
         if (dnsc->expire_msec <= systime_msec()) {
             ezhash_del(dns_ctx->dns_hash, query, strlen(query));
+            dns_ctx->dns_num--;
             return -1;
         }
         if (out_addr) memcpy(out_addr, dnsc->addr, 4);
@@ -78,6 +85,7 @@ void dns_rec_chk(void *data) {
                             mem_pool_free(obj->val);
                         queue_remove(&obj->queue);
                         mem_pool_free(obj);
+                        dns_ctx->dns_num--;
                     }
                     
                     p = n;
diff --git a/src/dns/dns.h b/src/dns/dns.h
index 4ce31ed..f6df298 100755
--- a/src/dns/dns.h
+++ b/src/dns/dns.h
@@ -10,6 +10,7 @@ extern "C"
 #define DNS_TMOUT   5000
 #define DNS_METAN    1500
 #define DNS_TTL_MAX  (3600*1000*3)
+#define DNS_REC_MAX  256
 
 #pragma pack(push,1)
 /// dns format in here
-- 
2.43.0


From 4b5f611346cd4b0794dda726d332c450ece1cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:14 +0000
Subject: [PATCH 55/55] fix: start the next request of a kept connection from
 the event loop

A client that sent thousands of requests without waiting for the responses
made the handlers call each other once per request, until the stack of the
worker was used up and it was killed.
---
 src/app/webser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 330e30d..46db9aa 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -128,9 +128,13 @@ static int webser_keepalive(con_t *c) {
         meta_clr(c->meta);
     }
 
+    ///the next request is started by the event loop. when many of them are waiting,
+    ///calling it here would nest as deep as the client likes
     c->ev->read_cb = webser_start;
-    c->ev->write_cb = NULL;
-    return c->ev->read_cb(c);
+    c->ev->write_cb = webser_start;
+    EZ_TMADD(c, web_exp, WEB_TMOUT);
+    ev_opt(c, EV_R);
+    return ev_opt(c, EV_R|EV_W); ///writeable is reported once more
 }
 
 void * webser_rsp_mime(webser_t * webser, char * mimetype)
-- 
2.43.0

