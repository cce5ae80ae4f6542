From b911aa8e00d9c2ab05399ca99a4ca7f660648b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:41 +0000
Subject: [PATCH 01/76] fix: do not spin in ssl_clear_error when the error
 queue is not empty

ERR_peek_error never removes an entry, so the loop never ended once an
earlier call had left an error behind. ERR_clear_error alone empties
the queue.
---
 src/common/ssl.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 930814c..54ef975 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -10,10 +10,6 @@ static g_ssl_t *g_ssl_ctx = NULL;
 
 #define ssl_clear_error()                   \
 {                                           \
-    unsigned long rc = 0;                   \
-    do {                                    \
-        rc = ERR_peek_error();              \
-    } while(rc);                            \
     ERR_clear_error();                      \
 }
 
-- 
2.43.0


From 613c6fb1567697456ac3cd8ef8fa60ce79426dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:17 +0000
Subject: [PATCH 02/76] fix: restore the caller's callbacks after a handshake
 that had to wait

A server side handshake that once waited for writability left its own
callback installed as write callback and then called itself without
end. Save both callbacks when the handshake first waits and put both
back when it completes.
---
 src/common/ssl.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 54ef975..457d7ea 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -105,17 +105,14 @@ static int ssl_handshake_cb(con_t *c) {
     if (c->ssl->f_handshaked) {
         if (c->ssl->cc_ev_typ) {
             ev_opt(c, c->ssl->cc_ev_typ);
+            c->ssl->cc_ev_typ = 0;
         }
 
-        if (c->ssl->cc_ev_cbw) {
-            c->ev->write_cb = c->ssl->cc_ev_cbw;
-            c->ssl->cc_ev_cbw = NULL;
-        }
+        c->ev->write_cb = c->ssl->cc_ev_cbw;
+        c->ssl->cc_ev_cbw = NULL;
 
-        if (c->ssl->cc_ev_cbr) {
-            c->ev->read_cb = c->ssl->cc_ev_cbr;
-            c->ssl->cc_ev_cbr = NULL;
-        }
+        c->ev->read_cb = c->ssl->cc_ev_cbr;
+        c->ssl->cc_ev_cbr = NULL;
 
         if (c->ev->write_cb) 
             return c->ev->write_cb(c);
@@ -150,17 +147,13 @@ int ssl_handshake(con_t *c) {
     int sslerr = SSL_get_error(sslc->con, rc);
     if ((sslerr == SSL_ERROR_WANT_READ) || (sslerr == SSL_ERROR_WANT_WRITE)) {
 
-        if (!sslc->cc_ev_typ) 
+        if (!sslc->cc_ev_typ) {
             sslc->cc_ev_typ = c->ev->opt; ///cache current event opt
-            
-        if (!sslc->cc_ev_cbr)
-            if(c->ev->read_cb) 
-                sslc->cc_ev_cbr = c->ev->read_cb;
+            sslc->cc_ev_cbr = c->ev->read_cb;
+            sslc->cc_ev_cbw = c->ev->write_cb;
+        }
 
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                sslc->cc_ev_cbw = c->ev->write_cb;
-   
+        c->ev->read_cb = c->ev->write_cb = NULL;
         if (sslerr == SSL_ERROR_WANT_READ) {
             c->ev->read_cb = ssl_handshake_cb;
             ev_opt(c, EV_R);
-- 
2.43.0


From 7f6ef7490c7df059ca7d12b29f88a7b3093fc8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:18 +0000
Subject: [PATCH 03/76] fix: keep both directions of a TLS connection going
 when one has to wait

A read that had to wait dropped the interest in writability, and a write
that had to wait dropped the interest in readability, so the opposite
direction stalled. The stale saved callbacks could also replace ones the
caller had changed meanwhile. Only add the interest that is needed, and
only restore callbacks that were really replaced.
---
 src/common/ssl.c | 42 ++++++++++--------------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 457d7ea..ca479b5 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -177,11 +177,7 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
 
     int rc = SSL_read(sslc->con, buf, bufn);
     if (rc > 0) {
-        if (sslc->cc_ev_typ) {
-            ev_opt(c, sslc->cc_ev_typ);
-            sslc->cc_ev_typ = 0;
-        }
-        if (sslc->cc_ev_cbw) {
+        if (c->ev->write_cb == ssl_read_cb) {
             c->ev->write_cb = sslc->cc_ev_cbw;
             sslc->cc_ev_cbw = NULL;
         }
@@ -190,20 +186,13 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     
     int sslerr = SSL_get_error(sslc->con, rc);
     if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
-        if (!sslc->cc_ev_typ) 
-            sslc->cc_ev_typ = c->ev->opt;
-        if (!sslc->cc_ev_cbr)
-            if (c->ev->read_cb) 
-                sslc->cc_ev_cbr = c->ev->read_cb;
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                sslc->cc_ev_cbw = c->ev->write_cb;
-
         if (sslerr == SSL_ERROR_WANT_READ) {
-            ev_opt(c, EV_R);
+            ev_opt(c, c->ev->opt | EV_R);
         } else if (sslerr == SSL_ERROR_WANT_WRITE) {
+            if (c->ev->write_cb != ssl_read_cb)
+                sslc->cc_ev_cbw = c->ev->write_cb;
             c->ev->write_cb = ssl_read_cb;
-            ev_opt(c, EV_W);
+            ev_opt(c, c->ev->opt | EV_W);
         }
         return -11;
     }
@@ -222,11 +211,7 @@ int ssl_write(con_t *c, unsigned char *data, int datan) {
     ssl_clear_error();
     int rc = SSL_write(sslc->con, data, datan);
     if (rc > 0) {
-        if (sslc->cc_ev_typ) {
-            ev_opt(c, c->ssl->cc_ev_typ);
-            sslc->cc_ev_typ = 0;
-        }
-        if (sslc->cc_ev_cbr) {
+        if (c->ev->read_cb == ssl_write_cb) {
             c->ev->read_cb = sslc->cc_ev_cbr;
             sslc->cc_ev_cbr = NULL;
         }
@@ -235,20 +220,13 @@ int ssl_write(con_t *c, unsigned char *data, int datan) {
     
     int sslerr = SSL_get_error(sslc->con, rc);
     if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
-        if (!sslc->cc_ev_typ)
-            c->ssl->cc_ev_typ = c->ev->opt;
-        if (!sslc->cc_ev_cbr) 
-            if (c->ev->read_cb) 
-                c->ssl->cc_ev_cbr = c->ev->read_cb;
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                c->ssl->cc_ev_cbw = c->ev->write_cb;
-
         if (sslerr == SSL_ERROR_WANT_READ) {
+            if (c->ev->read_cb != ssl_write_cb)
+                sslc->cc_ev_cbr = c->ev->read_cb;
             c->ev->read_cb = ssl_write_cb;
-            ev_opt(c, EV_R);
+            ev_opt(c, c->ev->opt | EV_R);
         } else if (sslerr == SSL_ERROR_WANT_WRITE) {
-            ev_opt(c, EV_W);
+            ev_opt(c, c->ev->opt | EV_W);
         }
         return -11;
     }
-- 
2.43.0


From 6e06f1333e0aa2df8c0e20c9e86bf841e6c43452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:19 +0000
Subject: [PATCH 04/76] fix: let the handshake owner clean up when a handshake
 times out

The timeout freed only the connection being set up. In client mode the
local connection stayed behind with a dangling pointer to it.
---
 src/common/ssl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index ca479b5..2ebb2af 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -33,6 +33,10 @@ static g_ssl_t *g_ssl_ctx = NULL;
 void ssl_cexp(void *data) {
     con_t *c = data;
     c->ssl->f_err = 1;
+    if (!c->ssl->f_handshaked && c->ssl->handshake_cb) {
+        c->ssl->handshake_cb(c);
+        return;
+    }
     net_free(c);
     return;
 }
-- 
2.43.0


From f91ef039f393bd8cd0737cba91a4724b18cfe1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:36 +0000
Subject: [PATCH 05/76] fix: do not drop a local connection that sends a lot
 before the tunnel is up

A full early data buffer closed the session. Leave the rest in the
socket instead. The relay reads it when it starts.
---
 src/app/tls_tunnel_c.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/app/tls_tunnel_c.c b/src/app/tls_tunnel_c.c
index 15b0de1..d7075c8 100755
--- a/src/app/tls_tunnel_c.c
+++ b/src/app/tls_tunnel_c.c
@@ -11,12 +11,9 @@ static int tls_tunnel_c_recv(con_t *cdown) {
     int readn = 0;
 
     for (;;) {
-        if (meta_getfree(meta) < 1) {
-            err("TLS tunnel cdown recv ccdata too much\n");
-            net_free(ses->cup);
-            net_free(ses->cdown);
-            return -1;
-        }
+        /// cache is full. the rest is read once traffic starts
+        if (meta_getfree(meta) < 1)
+            return -11;
 
         /// cache read data
         readn = cdown->recv(cdown, meta->last, meta_getfree(meta));
-- 
2.43.0


From d1068171ee8d27ccae15eee626463cd730c4ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:57:17 +0000
Subject: [PATCH 06/76] fix: find every pattern in the multi-pattern search

---
 src/common/aho_corasick.c | 39 +++++++++++++++++----------------------
 src/common/aho_corasick.h |  5 +++--
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 33e144e..72bdca1 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -39,8 +39,7 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
 
     for (i = 0; i < datan; i ++) {
-        int idx = data[i];
-        if (idx < 0 || idx > EZAC_MAX) idx = 0;
+        int idx = (unsigned char)data[i];
         if (!n->arr[idx]) {
             schk(n->arr[idx] = sys_alloc(sizeof(ezac_node_t)), return -1);
         }
@@ -51,32 +50,30 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
 }
 
 int ezac_compiler(ezac_ctx_t *ctx) {
-    ezac_node_t *stack[4096] = {0};
-    int stackn = 0;
+    ezac_node_t *queue[4096] = {0};
+    int queuen = 0;
+    int head = 0;
     int i = 0;
 
     for (i = 0; i < EZAC_MAX; i++) {
         if (ctx->root.arr[i]) {
             ctx->root.arr[i]->pfail = &ctx->root;
-            stack[stackn++] = ctx->root.arr[i];
+            ctx->root.arr[i]->fmatch = ctx->root.arr[i]->fendup;
+            queue[queuen++] = ctx->root.arr[i];
         }
     }
 
-    while (stackn > 0) {
-        ezac_node_t * n = stack[--stackn];
+    ///shallow nodes first, a fail link always points to a shallower node
+    while (head < queuen) {
+        ezac_node_t * n = queue[head++];
         for (i = 0; i < EZAC_MAX; i++) {
             if (n->arr[i]) {
                 ezac_node_t * x = n->pfail;
-                char find = 0;
-                do {
-                    if (x->arr[i]) {
-                        find = 1;
-                        break;
-                    }
+                while (x != &ctx->root && !x->arr[i])
                     x = x->pfail;
-                } while(x != &ctx->root);
-                n->arr[i]->pfail = (find ? x->arr[i]: x);
-                stack[stackn++] = n->arr[i];
+                n->arr[i]->pfail = (x->arr[i] ? x->arr[i] : x);
+                n->arr[i]->fmatch = n->arr[i]->fendup || n->arr[i]->pfail->fmatch;
+                queue[queuen++] = n->arr[i];
             }
         }
     }
@@ -91,17 +88,15 @@ int ezac_reset(ezac_ctx_t *ctx) {
 int ezac_find(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
     for (i = 0; i < datan; i++) {
-        int idx = data[i];
-        if (idx < 0 || idx > EZAC_MAX) idx = 0;
-        if (!ctx->cur->arr[idx])
+        int idx = (unsigned char)data[i];
+        while (ctx->cur != &ctx->root && !ctx->cur->arr[idx])
             ctx->cur = ctx->cur->pfail;
 
         if (ctx->cur->arr[idx]) {
-            if (ctx->cur->arr[idx]->fendup) {
+            ctx->cur = ctx->cur->arr[idx];
+            if (ctx->cur->fmatch) {
                 ezac_reset(ctx);
                 return 0;
-            } else {
-                ctx->cur = ctx->cur->arr[idx];
             }
         }
     }
diff --git a/src/common/aho_corasick.h b/src/common/aho_corasick.h
index 952ca7a..433df39 100755
--- a/src/common/aho_corasick.h
+++ b/src/common/aho_corasick.h
@@ -6,12 +6,13 @@ extern "C"
 {
 #endif
 
-#define EZAC_MAX  128
+#define EZAC_MAX  256
 typedef struct ezac_node_t ezac_node_t;
 struct ezac_node_t {
     ezac_node_t * arr[EZAC_MAX];
     ezac_node_t * pfail;
-    char fendup:1;
+    unsigned char fendup:1;
+    unsigned char fmatch:1;    ///this node or one on its fail chain ends a pattern
 };
 typedef struct {    
     ezac_node_t root;
-- 
2.43.0


From c6a1b0245165bf1cbc63418bb425a1ffaf44f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:57:19 +0000
Subject: [PATCH 07/76] fix: accept only a key equal to a registered one

---
 src/app/tls_tunnel_s.c    |  2 +-
 src/common/aho_corasick.c | 11 +++++++++++
 src/common/aho_corasick.h |  1 +
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 56681d5..57a53d6 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -251,7 +251,7 @@ static int tls_tunnel_s_auth_chk(con_t *cdown) {
     int auth_chk = -1;
     do {
         schk(auth->magic == htonl(TLS_TUNNEL_AUTH_MAGIC_NUM), break);
-        schk(0 == ezac_find(g_ses_ctx->ac, auth->key, strlen(auth->key)), break);
+        schk(0 == ezac_match(g_ses_ctx->ac, auth->key, strnlen(auth->key, sizeof(auth->key))), break);
         auth_chk = 0;
     } while(0);
     
diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 72bdca1..70eeea3 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -103,3 +103,14 @@ int ezac_find(ezac_ctx_t *ctx, char *data, int datan) {
     return -1;
 }
 
+///the whole data must be equal to one of the patterns
+int ezac_match(ezac_ctx_t *ctx, char *data, int datan) {
+    ezac_node_t *n = &ctx->root;
+    int i = 0;
+    for (i = 0; i < datan; i++) {
+        n = n->arr[(unsigned char)data[i]];
+        schk(n, return -1);
+    }
+    return n->fendup ? 0 : -1;
+}
+
diff --git a/src/common/aho_corasick.h b/src/common/aho_corasick.h
index 433df39..8261cb8 100755
--- a/src/common/aho_corasick.h
+++ b/src/common/aho_corasick.h
@@ -26,6 +26,7 @@ int ezac_add(ezac_ctx_t * ctx, char * data, int datan);
 int ezac_compiler(ezac_ctx_t * ctx);
 int ezac_reset(ezac_ctx_t * ctx);
 int ezac_find(ezac_ctx_t * ctx, char * data, int datan);
+int ezac_match(ezac_ctx_t * ctx, char * data, int datan);
 
 
 #ifdef __cplusplus
-- 
2.43.0


From cdc64c7dec1633a196b46b03b05a8a3ad7b54119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:57:20 +0000
Subject: [PATCH 08/76] fix: skip authorization entries that are not strings

---
 src/app/tls_tunnel_s.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 57a53d6..ab64e68 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -343,6 +343,10 @@ static int tls_tunnel_s_auth_fparse(meta_t *meta) {
         int i = 0;
         for (i = 0; i < cJSON_GetArraySize(root); i++) {
             cJSON * arrobj = cJSON_GetArrayItem(root, i);
+            if (!cJSON_IsString(arrobj)) {
+                err("s5 srv auth item [%d] is not a string\n", i);
+                continue;
+            }
             if (0 != ezac_add(g_ses_ctx->ac, cJSON_GetStringValue(arrobj), strlen(cJSON_GetStringValue(arrobj)))) {
                 err("s5 srv auth add ac err\n", cJSON_GetStringValue(arrobj));
             }
-- 
2.43.0


From c6d3c9d178c1a673c405557c5a7d54feecbb1773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:57:21 +0000
Subject: [PATCH 09/76] fix: keep the greeting that arrives together with the
 authorization header

---
 src/app/tls_tunnel_s.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index ab64e68..0e9c226 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -259,7 +259,8 @@ static int tls_tunnel_s_auth_chk(con_t *cdown) {
        net_free(cdown);
        return -1;
     }
-    meta_clr(meta);
+    ///mabey the greeting comes together with auth hdr
+    meta->pos += sizeof(tls_tunnel_auth_t);
     
     cdown->ev->read_cb = s5_p1_req;
     cdown->ev->write_cb = NULL;
-- 
2.43.0


From 60708befcbac1569c4d5b699743ebc76f88a9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:58:48 +0000
Subject: [PATCH 10/76] fix: refuse a greeting with another version or without
 methods

---
 src/app/socks5.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 68eeb36..dd89c9c 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -411,6 +411,11 @@ int s5_p1_req(con_t *cdown) {
                 s5p1->methods_n = *p;
                 s5p1->methods_cnt = 0;
                 s5->s5_state = METHOD;
+                if (s5p1->ver != 0x05 || s5p1->methods_n < 1) {
+                    err("s5p1 ver [%d] methods [%d] not support\n", s5p1->ver, s5p1->methods_n);
+                    net_free(cdown);
+                    return -1;
+                }
                 continue;
             }
             if (s5->s5_state == METHOD) {
-- 
2.43.0


From a118cb4b786cac0a5342479a668019234b20b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:58:50 +0000
Subject: [PATCH 11/76] fix: refuse an empty domain name and terminate one of
 full length

---
 src/app/socks5.c | 8 ++++++--
 src/app/socks5.h | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index dd89c9c..b9b24bd 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -304,13 +304,17 @@ int s5_p2_req(con_t *cdown) {
             if (s5->s5_state == TYP_DOMAINN) {
                 s5p2->dst_addr_n = *p;
                 s5->s5_state = TYP_DOMAIN;
-                if (s5p2->dst_addr_n < 0) s5p2->dst_addr_n = 0;
-                if (s5p2->dst_addr_n > 255) s5p2->dst_addr_n = 255;
+                if (s5p2->dst_addr_n < 1) {
+                    err("s5p2 domain is empty\n");
+                    net_free(cdown);
+                    return -1;
+                }
                 continue;
             }
             if (s5->s5_state == TYP_DOMAIN) {
                 s5p2->dst_addr[(int)s5p2->dst_addr_cnt++] = *p;
                 if (s5p2->dst_addr_cnt == s5p2->dst_addr_n) {
+                    s5p2->dst_addr[(int)s5p2->dst_addr_n] = 0;
                     s5->s5_state = PORT;
                     continue;
                 }
diff --git a/src/app/socks5.h b/src/app/socks5.h
index 24044d2..6cb443b 100755
--- a/src/app/socks5.h
+++ b/src/app/socks5.h
@@ -31,7 +31,7 @@ typedef struct {
     unsigned char       atyp;
     unsigned char       dst_addr_n;
     unsigned char       dst_addr_cnt;
-    unsigned char       dst_addr[DOMAIN_LENGTH];
+    unsigned char       dst_addr[DOMAIN_LENGTH+1];
     unsigned char       dst_port[2];
 } s5_ph2_req_t;
 
-- 
2.43.0


From 34593e46206a4f8816f654c719ef21ffdb3618c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:58:51 +0000
Subject: [PATCH 12/76] fix: refuse a domain name that contains a zero byte

---
 src/app/socks5.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index b9b24bd..a049349 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -335,6 +335,8 @@ int s5_p2_req(con_t *cdown) {
                     schk(0x05 == s5p2->ver, break);
                     schk(0x01 == s5p2->cmd, break);    /// only support CONNECT 0x01 request
                     schk(s5p2->atyp != S5_RFC_IPV6, break); /// not support IPV6 request
+                    if (s5p2->atyp == S5_RFC_DOMAIN)  /// a zero byte would cut the domain short
+                        schk(!memchr(s5p2->dst_addr, 0, s5p2->dst_addr_n), break);
     
                     cdown->ev->read_cb = s5_cup_addr;
                     cdown->ev->write_cb = NULL;
-- 
2.43.0


From 35c32caf482f18ab8920756d917dfba1be888a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:59:19 +0000
Subject: [PATCH 13/76] fix: close the session when a name lookup cannot be
 started

---
 src/app/socks5.c | 6 ++++--
 src/dns/dns.c    | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index a049349..b692b0d 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -110,7 +110,8 @@ void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
             result[0], result[1], result[2], result[3]);
  
         //after result used 
-        dns_free(dnsc); 	
+        dns_free(dnsc);
+        ses->dns = NULL;
 
         ses->cup->addr.sin_family = AF_INET;
         ses->cup->addr.sin_port = addr_port;
@@ -121,7 +122,8 @@ void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
         ses->cup->ev->write_cb(ses->cup);
     } else {
         err("TLS tunnel. dns resolv failed\n");
-        dns_free(dnsc);
+        if (dnsc) dns_free(dnsc);
+        ses->dns = NULL;
         net_free(ses->cup);
         net_free(ses->cdown);
     }
diff --git a/src/dns/dns.c b/src/dns/dns.c
index 8bdb7b4..6fd9d04 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -327,7 +327,7 @@ static int dns_request_packet(con_t *c) {
 
 int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
     dnsc_t * dns = mem_pool_alloc(sizeof(dnsc_t));
-    schk(dns, return -1);
+    schk(dns, {cb(-1, NULL, userdata); return -1;});
 
     dns->user_data = userdata;
     dns->cb = cb;
@@ -357,6 +357,7 @@ int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
         return dns->c->ev->write_cb(dns->c);
     } while(0);
 
+    dns_free(dns);
     cb(-1, NULL, userdata);
     return -1;
 }
-- 
2.43.0


From 2c39886d5ea290f478c8e9a8250ed25dcfb71d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:59:20 +0000
Subject: [PATCH 14/76] fix: cancel the running name lookup when its session
 ends

---
 src/app/socks5.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index b692b0d..c42682b 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -8,6 +8,10 @@ static int s5_try_read(con_t *cdown) {
 
     if (0 != net_socket_check_status(cdown->fd)) {
         err("tls tunnel. socket chk err\n");
+        if (ses->dns) {
+            dns_free(ses->dns);
+            ses->dns = NULL;
+        }
         net_free(ses->cup);
         net_free(cdown);
         return -1;
-- 
2.43.0


From 4d20c48817ae493ff7cbc52c4dea4237a31e1917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:59:22 +0000
Subject: [PATCH 15/76] fix: refuse a name that does not fit into a query

---
 src/dns/dns.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 6fd9d04..55b57b4 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -288,6 +288,24 @@ int dns_request_host2qname(unsigned char *host, unsigned char *qname) {
     return qnamen;
 }
 
+///every label has 1..63 byte, all of them fit into 253 byte
+static int dns_request_host_chk(char *host) {
+    int labeln = 0;
+    char *p = host;
+
+    schk(strlen(host) <= 253, return -1);
+    for (; *p; p++) {
+        if (*p == '.') {
+            schk(labeln > 0, return -1);
+            labeln = 0;
+        } else {
+            labeln++;
+            schk(labeln <= 63, return -1);
+        }
+    }
+    return p > host ? 0 : -1;
+}
+
 static int dns_request_packet(con_t *c) {
     /*
         header + question
@@ -326,6 +344,8 @@ static int dns_request_packet(con_t *c) {
 }
 
 int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
+    schk(0 == dns_request_host_chk(domain), {cb(-1, NULL, userdata); return -1;});
+
     dnsc_t * dns = mem_pool_alloc(sizeof(dnsc_t));
     schk(dns, {cb(-1, NULL, userdata); return -1;});
 
-- 
2.43.0


From b6be96d58c9586c32572639250ef4313fb4cda0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:59:23 +0000
Subject: [PATCH 16/76] fix: sweep out the expired names instead of the fresh
 ones

---
 src/dns/dns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 55b57b4..a34b5b0 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -67,7 +67,7 @@ void dns_rec_chk(void *data) {
 
                     ezhash_obj_t *obj = ptr_get_struct(p, ezhash_obj_t, queue);
                     dns_cache_t *dnsc = obj->val;
-                    if (dnsc->expire_msec > now) {
+                    if (dnsc->expire_msec <= now) {
                         if (obj->key) 
                             mem_pool_free(obj->key);
                         if (obj->val)
-- 
2.43.0


From a45f38d712c6b0095a86c161da8d222e454189e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:59:25 +0000
Subject: [PATCH 17/76] fix: do not use a cached address after its time-to-live

---
 src/dns/dns.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index a34b5b0..35f3d8e 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -47,6 +47,10 @@ static int dns_rec_add(char *query, char *addr, int msec) {
 
 int dns_rec_find(char *query, char *out_addr) {
     dns_cache_t *dnsc = ezhash_find(dns_ctx->dns_hash, query, strlen(query));
+    if (dnsc && dnsc->expire_msec <= systime_msec()) {
+        ezhash_del(dns_ctx->dns_hash, query, strlen(query));
+        dnsc = NULL;
+    }
     if (dnsc) {
         if (out_addr) memcpy(out_addr, dnsc->addr, 4);
         return 0;
-- 
2.43.0


From 7a80f56f18ce4cf6b9f4c46f02256612aa618703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:59:26 +0000
Subject: [PATCH 18/76] fix: do not overflow when a time-to-live is long

---
 src/dns/dns.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 35f3d8e..00c9f58 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -28,7 +28,7 @@ static void dns_cexp(void *data) {
     dns_async_result(dns, -1, NULL);
 }
 
-static int dns_rec_add(char *query, char *addr, int msec) {
+static int dns_rec_add(char *query, char *addr, long long msec) {
     dns_cache_t rdns = {0};
     
     strncpy(rdns.query, query, sizeof(rdns.query)-1);
@@ -171,7 +171,7 @@ int dns_response_analyze(con_t *c) {
                         /// do nothing, record already in cache 
                     } else {
                         if (rttl > 0 && rdatan > 0) {
-                            dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000*rttl);
+                            dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000LL*rttl);
                         }
                     }
                     memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
-- 
2.43.0


From 7f5c0f89aeff65665522e29a74da344a9e8f7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:00:12 +0000
Subject: [PATCH 19/76] fix: walk the records of a DNS answer by their lengths

---
 src/dns/dns.c | 121 +++++++++++++++++---------------------------------
 1 file changed, 40 insertions(+), 81 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 00c9f58..753e6fb 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -99,94 +99,53 @@ inline static char * dns_get_serv(void) {
 }
 
 int dns_response_analyze(con_t *c) {
-    unsigned char *p = NULL;
-    int state_len = 0, cur = 0;
     dnsc_t *dnsc = c->data;
     meta_t *meta = c->meta;
-    
-    enum {
-        ANSWER_DOMAIN,
-        ANSWER_DOMAIN2,
-        ANSWER_COMMON_START,
-        ANSWER_COMMON,
-        ANSWER_ADDR_START,
-        ANSWER_ADDR
-    } state = ANSWER_DOMAIN;
-    p = meta->pos + sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t);
+    unsigned char *p = meta->pos + sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t);
+    int answern = ntohs(((dns_header_t*)meta->pos)->answer_count);
     /*
-        parse dns answer
+        parse dns answer. domain + dns_rdata_t + address
     */
-    for (; p < meta->last; p++) {
-        if (state == ANSWER_DOMAIN) {
-            if ((*p)&0xc0) {    /// 0xc0 means two byte length 
-                dnsc->answer.name = p;
-                state = ANSWER_DOMAIN2;
-                continue;
-            } else {
-                /// not 0xc0 mean normal string type. then just wait the end flag 0 comes 
-                if (*p == 0) {    
-                    state = ANSWER_COMMON_START;
-                    cur = 0;
-                    state_len = sizeof(dns_rdata_t);
-                    continue;
-                }
-            }
-        }
-        if (state == ANSWER_DOMAIN2) {
-            cur = 0;
-            state_len = sizeof(dns_rdata_t);
-            state = ANSWER_COMMON_START;
-            continue;
-        }
-        if (state == ANSWER_COMMON_START) {
-            /// common start means common part already started
-            dnsc->answer.rdata = (dns_rdata_t *)p;
-            state = ANSWER_COMMON;
-        }
-        if (state == ANSWER_COMMON) {
-            cur++;
-            if(cur >= state_len) {
-                ///answer common finish, goto answer address
-                state = ANSWER_ADDR_START;
-                cur = 0;
-                state_len = ntohs(dnsc->answer.rdata->data_len);
-                continue;
-            }
-        }
-        if (state == ANSWER_ADDR_START) {
-            dnsc->answer.answer_addr = p;
-            state = ANSWER_ADDR;
+    for (; answern > 0; answern--) {
+        dnsc->answer.name = p;
+        /// normal string type, length + string. until the end flag 0 comes
+        while (p < meta->last && *p > 0 && !((*p) & 0xc0))
+            p += 1 + *p;
+        if (p >= meta->last)
+            break;
+        if (*p == 0) {
+            p += 1;
+        } else if (((*p) & 0xc0) == 0xc0) {    /// 0xc0 means two byte length
+            p += 2;
+        } else {
+            break;
         }
-        if (state == ANSWER_ADDR) {
-            cur++;
-            if (cur >= state_len) {
-                /// answer address finish. check address in here
-                unsigned int rttl = ntohl(dnsc->answer.rdata->ttl);
-                unsigned short rtyp = ntohs(dnsc->answer.rdata->type);
-                unsigned short rdatan = ntohs(dnsc->answer.rdata->data_len);
-
-                /// if this answer is a A TYPE answer (IPV4), return ok
-                if (rtyp == 0x0001) {
-                    if (0 == dns_rec_find((char*)dnsc->query, NULL)) {
-                        /// do nothing, record already in cache 
-                    } else {
-                        if (rttl > 0 && rdatan > 0) {
-                            dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000LL*rttl);
-                        }
-                    }
-                    memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
-                    dns_async_result(dnsc, 0, dnsc->result);
-                    return 0;
-                } else if (rtyp == 0x0005) {
-                    ///dbg("dns answer type CNAME, ignore\n");
-                } else if (rtyp == 0x0002) {
-                    ///dbg("dns answer type NAME SERVER, ignore\n");
-                } else if (rtyp == 0x000f) {
-                    ///dbg("dns answer type MAIL SERVER, ignore\n");
+
+        if (meta->last - p < (int)sizeof(dns_rdata_t))
+            break;
+        dnsc->answer.rdata = (dns_rdata_t *)p;
+        p += sizeof(dns_rdata_t);
+
+        unsigned int rttl = ntohl(dnsc->answer.rdata->ttl);
+        unsigned short rtyp = ntohs(dnsc->answer.rdata->type);
+        unsigned short rdatan = ntohs(dnsc->answer.rdata->data_len);
+        if (meta->last - p < rdatan)
+            break;
+        dnsc->answer.answer_addr = p;
+        p += rdatan;
+
+        /// if this answer is a A TYPE answer (IPV4), return ok. ignore CNAME, NAME SERVER, MAIL SERVER ...
+        if (rtyp == 0x0001 && rdatan == 4) {
+            if (0 == dns_rec_find((char*)dnsc->query, NULL)) {
+                /// do nothing, record already in cache 
+            } else {
+                if (rttl > 0) {
+                    dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000LL*rttl);
                 }
-                state = ANSWER_DOMAIN;
-                cur = 0;
             }
+            memcpy(dnsc->result, dnsc->answer.answer_addr, 4);
+            dns_async_result(dnsc, 0, dnsc->result);
+            return 0;
         }
     }
     err("dns rsp find result error.\n");
-- 
2.43.0


From 635e816d68916a7bffe7779ecdf08eb002493152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:00:13 +0000
Subject: [PATCH 20/76] fix: check that a DNS response is complete, successful
 and for our question

---
 src/dns/dns.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 753e6fb..6340f4f 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -161,7 +161,7 @@ int dns_response_recv(con_t *c) {
     /// at least the response need contains the request 
     size_t want_len = sizeof(dns_header_t) + dnsc->qname_len + sizeof(dns_question_t);
 
-    while (meta_getlen(meta) < want_len) {
+    if (meta_getlen(meta) < want_len) {
         int size = udp_recvs(c, meta->last, meta_getfree(meta));
         if (size <= 0) {
             if (size == -11) {
@@ -177,9 +177,21 @@ int dns_response_recv(con_t *c) {
     }
     EZ_TMDEL(c);
 
-    /// do basic filter in here, check req question count and answer count     
+    /// one response comes in one datagram
+    if (meta_getlen(meta) < want_len) {
+        err("dns response too short\n");
+        dns_async_result(dnsc, -1, NULL);
+        return -1;
+    }
+
+    /// do basic filter in here, check rcode, req question count and answer count     
     header = (dns_header_t*)meta->pos;
-    if (ntohs(header->question_count) < 1) {
+    if (ntohs(header->flag) & 0x000f) {
+        err("dns response rcode [%d]\n", ntohs(header->flag) & 0x000f);
+        dns_async_result(dnsc, -1, NULL);
+        return -1;
+    }
+    if (ntohs(header->question_count) != 1) {
         err("dns response question count [%d], illegal\n", header->question_count);
         dns_async_result(dnsc, -1, NULL);
         return -1;
@@ -190,6 +202,15 @@ int dns_response_recv(con_t *c) {
         return -1;
     }
 
+    /// the answer starts after the question, so it must be the one we asked
+    unsigned char qname[DOMAIN_LENGTH+2] = {0};
+    dns_request_host2qname(dnsc->query, qname);
+    if (0 != strncasecmp((char*)qname, (char*)(header + 1), dnsc->qname_len)) {
+        err("dns response is for another question\n");
+        dns_async_result(dnsc, -1, NULL);
+        return -1;
+    }
+
     // make dns connection event invalidate
     return dns_response_analyze(c);
 }
-- 
2.43.0


From 55331e8fc4d6ff115226da15a713ce2fcd979df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:01:05 +0000
Subject: [PATCH 21/76] fix: do not close the socket of a failed connect twice

---
 src/common/net.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/net.c b/src/common/net.c
index a641f37..4605e3e 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -117,8 +117,7 @@ int net_connect(con_t *c, struct sockaddr_in *addr) {
                 return -11;
             }
             err("connect failed, [%d]\n", errno);
-            close(fd);
-            return -1;
+            return -1; ///fd belongs to c now, net_free will close it
         }
         return 0;
     }
-- 
2.43.0


From e595d0824d07a1be6c80c10be995ac7965553b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:01:06 +0000
Subject: [PATCH 22/76] fix: go on accepting after one connection failed

---
 src/common/net.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/common/net.c b/src/common/net.c
index 4605e3e..d8403e6 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -135,25 +135,28 @@ int net_accept(con_t *c) {
         memset(&caddr, 0x0, caddrn);
         cfd = accept(c->fd, (struct sockaddr *)&caddr, &caddrn);
         if (-1 == cfd) {
-            if (errno == EWOULDBLOCK ||
-                errno == EAGAIN ||
-                errno == EINTR ||
+            if (errno == EINTR ||
                 errno == EPROTO ||
                 errno == ECONNABORTED
+            ) {
+                continue; ///only this one failed, others still wait
+            }
+            if (errno == EWOULDBLOCK ||
+                errno == EAGAIN
             ) {
                 return -11;
             }
             err("accept failed, [%d]\n", errno);
             return -1;
         }
-        schk(net_alloc(&cc) != -1, {close(cfd); return -1;});
+        schk(net_alloc(&cc) != -1, {close(cfd); continue;});
         memcpy(&cc->addr, &caddr, caddrn);
         cc->fd = cfd;
         
-        schk(net_socket_nbio(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_nodelay(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_fastopen(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_lowat_send(cc->fd) == 0, {net_free(cc); return -1;});
+        schk(net_socket_nbio(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_nodelay(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_fastopen(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_lowat_send(cc->fd) == 0, {net_free(cc); continue;});
         
         cc->recv = recvs;
         cc->send = sends;
-- 
2.43.0


From 5e0c02307f7936b43e229fe82dc1e0c0c3ea1314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:01:07 +0000
Subject: [PATCH 23/76] fix: give a new connection five seconds for its first
 bytes, not five milliseconds

---
 src/common/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/net.c b/src/common/net.c
index d8403e6..c53ad43 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -169,7 +169,7 @@ int net_accept(con_t *c) {
         ///only check readable event for accept result 
         ev_opt(cc, EV_R);
 
-        EZ_TMADD(cc, net_exp, 5);
+        EZ_TMADD(cc, net_exp, 5*1000);
     }
     return 0;
 }
-- 
2.43.0


From 1208f9eac0744da2ec1779858ca46745da1cf46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:01:38 +0000
Subject: [PATCH 24/76] fix: do not lose the event of another connection when
 one is closed

---
 src/common/event.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/event.c b/src/common/event.c
index 52409b6..8e96a52 100755
--- a/src/common/event.c
+++ b/src/common/event.c
@@ -241,9 +241,10 @@ int ev_alloc(ev_t **ev) {
 
 int ev_free(ev_t *ev) {
     if (ev) {
-        if (ev->idxr) 
+        ///idx mabey belongs to an earlier batch, the slot is used by others now
+        if (g_event_ctx->evs[ev->idxr] == ev)
             g_event_ctx->evs[ev->idxr] = NULL;
-        if (ev->idxw)
+        if (g_event_ctx->evs[ev->idxw] == ev)
             g_event_ctx->evs[ev->idxw] = NULL;
     
         queue_remove(&ev->queue);
-- 
2.43.0


From ad4532144427cccffb007356f4fe795765bff415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:56 +0000
Subject: [PATCH 25/76] fix: continue a partly received request line or header
 where parsing stopped

---
 src/http/http_req.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 8652b45..5967d67 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -188,6 +188,7 @@ static int web_req_line(con_t *c, web_req_t *req) {
             }
         }
 
+        meta->pos = p;
         if (meta_getfree(c->meta) < 1) {
             err("webreq meta full\n");
             return -1;
@@ -305,6 +306,7 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
             }
         }
 
+        meta->pos = p;
         if (meta_getfree(c->meta) < 1) {
             err("webreq meta full\n");
             return -1;
-- 
2.43.0


From aa613961cbee25f5006b241d6f92353234ddd4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:57 +0000
Subject: [PATCH 26/76] fix: refuse a request whose request line fills the
 buffer instead of aborting

---
 src/http/http_req.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 5967d67..b70649b 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -211,6 +211,10 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
     for (;;) {
         
         if (meta_getlen(c->meta) < 1) {
+            if (meta_getfree(c->meta) < 1) {
+                err("webreq meta full\n");
+                return -1;
+            }
             int recvd = c->recv(c, c->meta->last, meta_getfree(c->meta));
             if (recvd < 0) {
                 if (recvd == -11) {
-- 
2.43.0


From 571dbef395b905ba5b6843b6e7a6190b741d687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:58 +0000
Subject: [PATCH 27/76] fix: accept a request header with an empty value

---
 src/http/http_req.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index b70649b..14cd4c5 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -255,6 +255,11 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
             if (req->state == s_value_init) {
                 if (*p == SP) { /// do nothing
                     continue;
+                } else if (*p == CR) { /// empty value
+                    req->kvs[req->kvn].v.data = p;
+                    req->kvs[req->kvn].v.len = 0;
+                    req->state = s_end;
+                    continue;
                 } else {
                     req->kvs[req->kvn].v.data = p;
                     req->state = s_value;
-- 
2.43.0


From ce23bd1cdb4fc4535cfcac75b1b2ac79a67d19eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:25 +0000
Subject: [PATCH 28/76] fix: compare header names, header values and methods in
 full, not just a prefix

---
 src/http/http_req.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 14cd4c5..e27da3a 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -17,6 +17,10 @@ void web_req_free(web_req_t *webreq) {
         mem_pool_free(webreq);
 }
 
+static int web_req_streq(string_t *str, const char *name) {
+    return str->len == (int)strlen(name) && strncasecmp((char*)str->data, name, str->len) == 0;
+}
+
 static int web_req_line(con_t *c, web_req_t *req) {
     unsigned char *p = NULL;
     ///reqline example
@@ -295,16 +299,16 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
                     int i = 0;
                     for (i = 0; i < req->kvn; i++) {
-                        if (strncasecmp((char*)req->kvs[i].k.data, "Connection", req->kvs[i].k.len) == 0) {
-                            if (strncasecmp((char*)req->kvs[i].v.data, "Keep-Alive", req->kvs[i].v.len) == 0) {
+                        if (web_req_streq(&req->kvs[i].k, "Connection")) {
+                            if (web_req_streq(&req->kvs[i].v, "Keep-Alive")) {
                                 req->fkeepalive = 1;
                             }
                         }
                     }
 
-                    if (strncasecmp((char*)req->method.data, "GET", req->method.len) == 0) {
+                    if (web_req_streq(&req->method, "GET")) {
                         req->method_typ = HTTP_METHOD_GET;
-                    } else if (strncasecmp((char*)req->method.data, "POST", req->method.len) == 0) {
+                    } else if (web_req_streq(&req->method, "POST")) {
                         req->method_typ = HTTP_METHOD_POST;
                     }
                     return req->cb(c, req);
@@ -327,7 +331,7 @@ static int web_req_payload(con_t *c, web_req_t *req) {
     if (!req->payload) {
         int i = 0;
         for (i = 0; i < req->kvn; i++) {
-            if (strncasecmp((char*)req->kvs[i].k.data, "Content-Length", req->kvs[i].k.len) == 0) {
+            if (web_req_streq(&req->kvs[i].k, "Content-Length")) {
                 req->payloadn = strtol((char*)req->kvs[i].v.data, NULL, 10);
                 if (req->payloadn < 0) {
                     err("webreq payloadn illegal. [%d]\n", req->payloadn);
-- 
2.43.0


From a40460844ceacb95077dcf7d777fd31ecc9f4787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:26 +0000
Subject: [PATCH 29/76] fix: do not truncate a huge Content-Length or take an
 empty one from the next line

---
 src/http/http_req.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index e27da3a..8d97d15 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -332,15 +332,16 @@ static int web_req_payload(con_t *c, web_req_t *req) {
         int i = 0;
         for (i = 0; i < req->kvn; i++) {
             if (web_req_streq(&req->kvs[i].k, "Content-Length")) {
-                req->payloadn = strtol((char*)req->kvs[i].v.data, NULL, 10);
-                if (req->payloadn < 0) {
-                    err("webreq payloadn illegal. [%d]\n", req->payloadn);
+                long payloadn = req->kvs[i].v.len > 0 ? strtol((char*)req->kvs[i].v.data, NULL, 10) : -1;
+                if (payloadn < 0) {
+                    err("webreq payloadn illegal. [%ld]\n", payloadn);
                     return -1;
                 }
-                if (req->payloadn > (10*1024*1024)) {
-                    err("ebreq payloadn too big. [%d]\n", req->payloadn);
+                if (payloadn > (10*1024*1024)) {
+                    err("ebreq payloadn too big. [%ld]\n", payloadn);
                     return -1;
                 }
+                req->payloadn = payloadn;
             }
         }
 
-- 
2.43.0


From 526eeb6ae30abdc9afe7696ba10bd43097950d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:27 +0000
Subject: [PATCH 30/76] fix: take only the body out of the bytes received with
 the request head

---
 src/http/http_req.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 8d97d15..35db829 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -348,8 +348,11 @@ static int web_req_payload(con_t *c, web_req_t *req) {
         if (req->payloadn > 0) {
             schk(0 == meta_alloc(&req->payload, req->payloadn), return -1);
             int remain = meta_getlen(c->meta);
+            if (remain > req->payloadn) 
+                remain = req->payloadn;
             if (remain) {
-                schk(0 == meta_pdata(req->payload, c->meta->pos, meta_getlen(c->meta)), return -1);
+                schk(0 == meta_pdata(req->payload, c->meta->pos, remain), return -1);
+                c->meta->pos += remain;
             }
         } else {
             return 0;
-- 
2.43.0


From c949a2cb69f435234bf0756cfa011537776c6ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:28 +0000
Subject: [PATCH 31/76] fix: honour Connection and Content-Length also after
 the first fifteen headers

---
 src/http/http_req.c | 47 +++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 35db829..652dd10 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -21,6 +21,27 @@ static int web_req_streq(string_t *str, const char *name) {
     return str->len == (int)strlen(name) && strncasecmp((char*)str->data, name, str->len) == 0;
 }
 
+/// every header is looked at when its line ends, also those which don't fit into kvs
+static int web_req_hdr(web_req_t *req, web_kv_t *kv) {
+    if (web_req_streq(&kv->k, "Connection")) {
+        if (web_req_streq(&kv->v, "Keep-Alive")) {
+            req->fkeepalive = 1;
+        }
+    } else if (web_req_streq(&kv->k, "Content-Length")) {
+        long payloadn = kv->v.len > 0 ? strtol((char*)kv->v.data, NULL, 10) : -1;
+        if (payloadn < 0) {
+            err("webreq payloadn illegal. [%ld]\n", payloadn);
+            return -1;
+        }
+        if (payloadn > (10*1024*1024)) {
+            err("ebreq payloadn too big. [%ld]\n", payloadn);
+            return -1;
+        }
+        req->payloadn = payloadn;
+    }
+    return 0;
+}
+
 static int web_req_line(con_t *c, web_req_t *req) {
     unsigned char *p = NULL;
     ///reqline example
@@ -281,6 +302,7 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
             if (req->state == s_end) {
                 if (*p == LF) {
+                    schk(0 == web_req_hdr(req, &req->kvs[req->kvn]), return -1);
                     req->kvn ++;
                     if (req->kvn > (REQ_KV_MAX - 1)) 
                         req->kvn = REQ_KV_MAX - 1;
@@ -297,15 +319,6 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
                     c->meta->pos = p + 1;
                     req->cb = web_req_payload;
 
-                    int i = 0;
-                    for (i = 0; i < req->kvn; i++) {
-                        if (web_req_streq(&req->kvs[i].k, "Connection")) {
-                            if (web_req_streq(&req->kvs[i].v, "Keep-Alive")) {
-                                req->fkeepalive = 1;
-                            }
-                        }
-                    }
-
                     if (web_req_streq(&req->method, "GET")) {
                         req->method_typ = HTTP_METHOD_GET;
                     } else if (web_req_streq(&req->method, "POST")) {
@@ -329,22 +342,6 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
 static int web_req_payload(con_t *c, web_req_t *req) {
     if (!req->payload) {
-        int i = 0;
-        for (i = 0; i < req->kvn; i++) {
-            if (web_req_streq(&req->kvs[i].k, "Content-Length")) {
-                long payloadn = req->kvs[i].v.len > 0 ? strtol((char*)req->kvs[i].v.data, NULL, 10) : -1;
-                if (payloadn < 0) {
-                    err("webreq payloadn illegal. [%ld]\n", payloadn);
-                    return -1;
-                }
-                if (payloadn > (10*1024*1024)) {
-                    err("ebreq payloadn too big. [%ld]\n", payloadn);
-                    return -1;
-                }
-                req->payloadn = payloadn;
-            }
-        }
-
         if (req->payloadn > 0) {
             schk(0 == meta_alloc(&req->payload, req->payloadn), return -1);
             int remain = meta_getlen(c->meta);
-- 
2.43.0


From a66ca44529f99c382947e290049654ad44328a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:29 +0000
Subject: [PATCH 32/76] fix: release the body of a request with the request

---
 src/http/http_req.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 652dd10..9e8e2e2 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -13,8 +13,10 @@ web_req_t * web_req_alloc(void) {
 }
 
 void web_req_free(web_req_t *webreq) {
-    if (webreq)
+    if (webreq) {
+        meta_free(webreq->payload);
         mem_pool_free(webreq);
+    }
 }
 
 static int web_req_streq(string_t *str, const char *name) {
-- 
2.43.0


From 1d912b93d962dbb0a491c667878d039aeb18a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:12 +0000
Subject: [PATCH 33/76] fix: wait for writability when a plain HTTP response
 cannot be sent at once

---
 src/app/webser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/webser.c b/src/app/webser.c
index a4f41e6..e7656e9 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -334,6 +334,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
     
     c->ev->read_cb = webser_try_read;
     c->ev->write_cb = webser_rsp_hdr_send;
+    ev_opt(c, EV_R | EV_W);
     return c->ev->write_cb(c);
 }
 
-- 
2.43.0


From b45068f4529fddb14c23f6079b06112736de52f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:13 +0000
Subject: [PATCH 34/76] fix: keep the bytes already received when the next
 request on a connection starts

---
 src/app/webser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index e7656e9..f1cabf1 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -439,10 +439,11 @@ static int webser_req_proc(con_t *c) {
 static int webser_start(con_t *c) {
     webser_t *webc = NULL;
     ///init web connection page and meta memory for use
-    schk(0 == meta_alloc(&c->meta, 4096), {
-        net_free(c);
-        return -1;
-    });
+    if (!c->meta)
+        schk(0 == meta_alloc(&c->meta, 4096), {
+            net_free(c);
+            return -1;
+        });
 
     schk(0 == web_calloc(&webc), {
         net_free(c);
-- 
2.43.0


From 40a3a26375a38cecb4e3fc53926e13b9b9d0bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:15 +0000
Subject: [PATCH 35/76] fix: do not release a finished request again when the
 next one cannot be started

---
 src/app/webser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/webser.c b/src/app/webser.c
index f1cabf1..30b4929 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -116,6 +116,7 @@ static int webser_keepalive(con_t *c) {
     meta_free(webc->rsp_hdr);
     meta_free(webc->rsp_payload);
     mem_pool_free(webc);
+    c->data = NULL;
 
     ///process net con meta remian data 
     int remain = meta_getlen(c->meta);
-- 
2.43.0


From c00c90cdaef1e030d5f1dcc55c52a8de08e9df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:16 +0000
Subject: [PATCH 36/76] fix: move overlapping pipelined bytes with memmove

---
 src/app/webser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 30b4929..6a746a2 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -121,7 +121,7 @@ static int webser_keepalive(con_t *c) {
     ///process net con meta remian data 
     int remain = meta_getlen(c->meta);
     if (remain) {
-        memcpy(c->meta->start, c->meta->pos, remain);
+        memmove(c->meta->start, c->meta->pos, remain);
         c->meta->pos = c->meta->start;
         c->meta->last = c->meta->pos + remain;
     } else {
-- 
2.43.0


From 4e3aa16f8369ece353a9d8fcb012cf9ba37a5b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:17 +0000
Subject: [PATCH 37/76] fix: answer an echo request without a body instead of
 crashing

---
 src/app/web_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/web_api.c b/src/app/web_api.c
index 467e339..4c4fa0a 100755
--- a/src/app/web_api.c
+++ b/src/app/web_api.c
@@ -5,6 +5,8 @@
 static int wapi_echo_post(con_t *c) {
     webser_t * webc = c->data;
     ///dbg("http req data [%s]\n", webc->webreq->payload->pos);
+    if (!webc->webreq->payload)
+        return webser_rsp(c, 200, NULL, NULL, 0);
     return webser_rsp(c, 200, NULL, webc->webreq->payload->pos, meta_getlen(webc->webreq->payload));
 }
 
-- 
2.43.0


From d509b33b6586519886f704aa215cd153696a7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:18 +0000
Subject: [PATCH 38/76] fix: serve paths without a dot instead of crashing

---
 src/app/webser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/webser.c b/src/app/webser.c
index 6a746a2..255a4c0 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -135,6 +135,8 @@ static int webser_keepalive(con_t *c) {
 
 void * webser_rsp_mime(webser_t * webser, char * mimetype)
 {
+    if (!mimetype)
+        return "text/plain";
     void * typ = ezhash_find(g_web_ctx->mime_hash, 
                 mimetype, strlen(mimetype));
     return typ ? typ : "text/plain";
-- 
2.43.0


From 6621497ae26d9f44961050fa3ee9243863b0e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:19 +0000
Subject: [PATCH 39/76] fix: end the status line of a 400 response

---
 src/app/webser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 255a4c0..145d8b2 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -309,7 +309,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         if (rcode == 200) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 200 OK\r\n"), break);
         } else if (rcode == 400) {
-            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request"), break);
+            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request\r\n"), break);
         } else if (rcode == 403) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 403 Forbidden\r\n"), break);
         } else if (rcode == 404) {
@@ -317,7 +317,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         } else if (rcode == 500) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 500 Internal Server Error\r\n"), break);
         } else {
-            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request"), break);
+            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request\r\n"), break);
         }
         schk(0 == webser_rsp_hdrp(c, "Server: s5\r\n"), break);
         schk(0 == webser_rsp_hdrp(c, "Date: %s\r\n", systime_gmt()), break);    
-- 
2.43.0


From 3a14d481087d9ec41437339c59a8b61d06fce693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:21 +0000
Subject: [PATCH 40/76] fix: refuse a target too long to be checked for parent
 directory steps

---
 src/app/webser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 145d8b2..6f353de 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -408,8 +408,8 @@ static int webser_req_router(con_t *c) {
         });
         
         char uri[1024] = {0};
-        memcpy(uri, webc->webreq->uri.data,
-                webc->webreq->uri.len > 1024 ? 1024 : webc->webreq->uri.len);
+        schk(webc->webreq->uri.len < sizeof(uri), {net_free(c);return -1;});
+        memcpy(uri, webc->webreq->uri.data, webc->webreq->uri.len);
         schk(!strstr(uri, "../"), {net_free(c);return -1;});
         
         c->ev->read_cb = webser_req_file;
-- 
2.43.0


From 6a29c61a969da34a0f768fb28bba5111485786f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:22 +0000
Subject: [PATCH 41/76] fix: serve regular files only, not directories

---
 src/app/webser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 6f353de..10532d4 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -365,7 +365,7 @@ static int webser_req_file(con_t *c) {
         err("webser stat reqfile [%s] err, [%d]\n", p, errno);
         http_code = 400;
     } else {
-        if (st.st_mode & S_IFMT) {
+        if (S_ISREG(st.st_mode)) {
             if (st.st_mode & S_IRUSR) {
                 webc->ffd = open(p, O_RDONLY);
                 if (-1 == webc->ffd) {
-- 
2.43.0


From a12792a0a0a0e62e8a510195be18a86a7f95faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:23 +0000
Subject: [PATCH 42/76] fix: report a file which cannot be opened as an error

---
 src/app/webser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 10532d4..066ce08 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -371,9 +371,11 @@ static int webser_req_file(con_t *c) {
                 if (-1 == webc->ffd) {
                     err("webser open reqfile [%s] err, [%d]\n", p, errno);
                     http_code = 500;
+                    webc->ffd = 0;
+                } else {
+                    http_code = 200;
+                    webc->fsize = st.st_size;
                 }
-                http_code = 200;
-                webc->fsize = st.st_size;
             } else {
                 http_code = 403;
             }
-- 
2.43.0


From 2f42bf007a3e92e3bf70bbd33c78c6018affe399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:25 +0000
Subject: [PATCH 43/76] fix: close the connection once when a response header
 cannot be built

---
 src/app/webser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 066ce08..a8178b8 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -278,7 +278,7 @@ static int webser_rsp_hdrp(con_t *c, const char * str, ...) {
 
 
     if (!webc->rsp_hdr) {
-        schk(0 == meta_alloc(&webc->rsp_hdr, 4096), {net_free(c);return -1;});
+        schk(0 == meta_alloc(&webc->rsp_hdr, 4096), return -1);
     }
     meta_t * n = webc->rsp_hdr;
     meta_t * p = NULL;
@@ -290,9 +290,9 @@ static int webser_rsp_hdrp(con_t *c, const char * str, ...) {
         }
         n = n->next;
     }
-    schk(0 == meta_alloc(&n, 4096), {net_free(c);return -1;});
-    schk(0 == meta_pdata(n, buf, strlen(buf)), {net_free(c);return -1;});
+    schk(0 == meta_alloc(&n, 4096), return -1);
     p->next = n;
+    schk(0 == meta_pdata(n, buf, strlen(buf)), return -1);
     return 0;
 }
 
-- 
2.43.0


From bade93b2961446a7796e101fd721cb10469bdf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:26 +0000
Subject: [PATCH 44/76] fix: answer short HTTP requests on the shared port

---
 src/app/webser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index a8178b8..e23f504 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -484,7 +484,11 @@ static int webser_transfer_to_tlstunnel(con_t *c) {
 
     /// try to recv TLS tunnel authorization header 
     meta = c->meta;
+    unsigned int magic = htonl(TLS_TUNNEL_AUTH_MAGIC_NUM);
     while (meta_getlen(meta) < sizeof(tls_tunnel_auth_t)) {
+        /// stop waiting for a whole header once the magic does not match
+        if (memcmp(meta->pos, &magic, meta_getlen(meta) < sizeof(magic) ? meta_getlen(meta) : sizeof(magic)))
+            break;
         rc = c->recv(c, meta->last, meta_getfree(meta));
         if (rc < 0) {
             if (rc == -11) {
@@ -502,7 +506,7 @@ static int webser_transfer_to_tlstunnel(con_t *c) {
     EZ_TMDEL(c);
 
     tls_tunnel_auth_t * auth = (tls_tunnel_auth_t*)meta->pos;
-    if (htonl(TLS_TUNNEL_AUTH_MAGIC_NUM) != auth->magic) {
+    if (magic != auth->magic) {
         c->ev->read_cb = webser_start;
         c->ev->write_cb = NULL;
         return c->ev->read_cb(c);
-- 
2.43.0


From b484a2efafd91a6ed7b6b796115c4fa66e5b55a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:16:19 +0000
Subject: [PATCH 45/76] fix: finish sending a file whose last part was sent
 only partly

---
 src/app/webser.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index e23f504..f60018c 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -188,10 +188,8 @@ static int webser_rsp_payload_send_ff(con_t *c) {
         }
         if (webc->fsend >= webc->fsize) 
             break;
-        if (meta_getlen(meta) == 0) 
+        if (meta_getlen(meta) == 0) {
             meta_clr(meta);
-        
-        if (meta_getfree(meta) > 0) {
             int readn = read(webc->ffd, meta->last, meta_getfree(meta));
             if (readn <= 0) {
                 err("webserv rff err. [%d] [%d] [%d]\n",
-- 
2.43.0


From 171132271c1f5f0432eb09e3367a4a5abdea8004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:26 +0000
Subject: [PATCH 46/76] fix: traffic on one leg of a tunnel keeps the other leg
 from timing out

---
 src/app/tls_tunnel_s.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 0e9c226..8b0d1ef 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -54,13 +54,19 @@ void tls_ses_exp(void *data) {
 }
 
 
+/// traffic on one side keeps the whole session alive
+static void tls_ses_active(tls_tunnel_session_t *ses) {
+    EZ_TMADD(ses->cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    EZ_TMADD(ses->cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+}
+
 static int tls_tunnel_traffic_recv(con_t *c) {
     tls_tunnel_session_t *ses = c->data;
     con_t *cdown = ses->cdown;
     con_t *cup = ses->cup;    
     int recvn = 0;
 
-    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    tls_ses_active(ses);
 
     while (meta_getfree(cdown->meta) > 0) {
         recvn = cdown->recv(cdown, cdown->meta->last, meta_getfree(cdown->meta));
@@ -93,7 +99,7 @@ static int tls_tunnel_traffic_send(con_t *c) {
     con_t *cup = ses->cup;
     int sendn = 0;
 
-    EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    tls_ses_active(ses);
 
     while (meta_getlen(cdown->meta) > 0) {
         sendn = cup->send(cup, cdown->meta->pos, meta_getlen(cdown->meta));
@@ -128,7 +134,7 @@ static int tls_tunnel_traffic_reverse_recv(con_t *c) {
     con_t *cup = ses->cup;
     int recvn = 0;
 
-    EZ_TMADD(cup, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    tls_ses_active(ses);
 
     while (meta_getfree(cup->meta) > 0) {
         recvn = cup->recv(cup, cup->meta->last, meta_getfree(cup->meta));
@@ -161,7 +167,7 @@ static int tls_tunnel_traffic_reverse_send(con_t *c) {
     con_t *cup = ses->cup;
     int sendn = 0;
     
-    EZ_TMADD(cdown, tls_ses_exp, TLS_TUNNEL_TMOUT);
+    tls_ses_active(ses);
 
     while (meta_getlen(cup->meta) > 0) {
         sendn = cdown->send(cdown, cup->meta->pos, meta_getlen(cup->meta));
-- 
2.43.0


From 60619fbef7bccceedff919733d5f90f20d0632cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:20:00 +0000
Subject: [PATCH 47/76] fix: keep the heap ordered when a node is deleted from
 another subtree than the last one

---
 src/common/util/bheap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/util/bheap.c b/src/common/util/bheap.c
index c852865..def20ab 100755
--- a/src/common/util/bheap.c
+++ b/src/common/util/bheap.c
@@ -74,6 +74,12 @@ int heap_del(heap_t * heap, int del_index)
             break;
         }
     }
+    /// the tail may come from another subtree, it can be smaller than the parent
+    while(HEAP_PARENT(i) && tail_node->key < heap->array[HEAP_PARENT(i)]->key) {
+        heap->array[i] = heap->array[HEAP_PARENT(i)];
+        heap->array[i]->index = i;
+        i = HEAP_PARENT(i);
+    }
     heap->array[i] = tail_node;
     heap->array[i]->index = i;
     return 0;
-- 
2.43.0


From d683a932df83eaa3c7c0d7d70d2a0c1f4121026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:20:01 +0000
Subject: [PATCH 48/76] fix: do not mark a timer as armed when the timer queue
 is full

---
 src/common/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/timer.c b/src/common/timer.c
index 04dcc8d..6474878 100755
--- a/src/common/timer.c
+++ b/src/common/timer.c
@@ -15,11 +15,11 @@ int tm_add(ev_timer_t *timer, timer_cb cb, void *data, int delay_ms) {
         tm_del(timer);
 
     timer->f_timeout = 0;
-    timer->f_timeset = 1;
     timer->cb = cb;
     timer->data = data;
     timer->node.key = (systime_msec() + delay_ms);
     schk(0 == heap_add(g_heap, &timer->node), return -1);
+    timer->f_timeset = 1;
     return 0;
 }
 
-- 
2.43.0


From 9be268cfd35fddcfccebee910d16bbcb40ac2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:34:28 +0000
Subject: [PATCH 49/76] fix: release the pool lock when something that is no
 pool block is freed

---
 src/common/mem.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/mem.c b/src/common/mem.c
index 5442cfd..fb16f47 100755
--- a/src/common/mem.c
+++ b/src/common/mem.c
@@ -124,7 +124,10 @@ int mem_pool_init(void) {
 int mem_pool_free(void *p) {
     pthread_mutex_lock(&g_mp_thread_lock);
     mem_obj_t * obj = ptr_get_struct(p, mem_obj_t, addr);
-    schk(obj->magic == MP_OBJ_MAGIC, return -1);
+    schk(obj->magic == MP_OBJ_MAGIC, {
+        pthread_mutex_unlock(&g_mp_thread_lock);
+        return -1;
+    });
     queue_remove(&obj->queue);
     queue_insert_tail(&g_mem_ctx.blks[obj->blk_idx].usable, &obj->queue);
     pthread_mutex_unlock(&g_mp_thread_lock);
-- 
2.43.0


From 5c1d35e26b47f34dd26e33eefab284c4bdb4fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:34:29 +0000
Subject: [PATCH 50/76] fix: check the size class that is used for free blocks,
 not always the smallest

---
 src/common/mem.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/mem.c b/src/common/mem.c
index fb16f47..c3c719f 100755
--- a/src/common/mem.c
+++ b/src/common/mem.c
@@ -140,11 +140,6 @@ void * mem_pool_alloc(int size) {
     assert(size > 0);
 
     pthread_mutex_lock(&g_mp_thread_lock);
-    if(queue_empty(&g_mem_ctx.blks[blk_idx].usable)) {
-        pthread_mutex_unlock(&g_mp_thread_lock);
-        return NULL;
-    }
-    
     ///choice block
     if (size <= 512) {
         blk_idx = 0;
@@ -170,6 +165,11 @@ void * mem_pool_alloc(int size) {
         return NULL;
     }
     
+    if(queue_empty(&g_mem_ctx.blks[blk_idx].usable)) {
+        pthread_mutex_unlock(&g_mp_thread_lock);
+        return NULL;
+    }
+
     queue_t * q = queue_head(&g_mem_ctx.blks[blk_idx].usable);
     mem_obj_t * obj = ptr_get_struct(q, mem_obj_t, queue);
     queue_remove(&obj->queue);
-- 
2.43.0


From 875d9186ac5d5b778e6d3be21e1baf504ec517c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:36:52 +0000
Subject: [PATCH 51/76] fix: count only the pushed bytes when the ring buffer
 has wrapped

---
 src/common/ringbuffer.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common/ringbuffer.c b/src/common/ringbuffer.c
index 4d81b27..446b5bc 100755
--- a/src/common/ringbuffer.c
+++ b/src/common/ringbuffer.c
@@ -73,10 +73,9 @@ int ringbuffer_push(ringbuffer_t *rb,unsigned char *data, int datan)
         }
     } else {
         /// start-----last-----pos-----end
-        int freen = rb->pos - rb->last;
         memcpy(rb->last, data, datan);
-        rb->last += freen;
-        rb->datan += freen;
+        rb->last += datan;
+        rb->datan += datan;
     }
     pthread_mutex_unlock(&rb->lock);
     return 0;
-- 
2.43.0


From 1aabd54e374cd828e26c747a1e56f40681fa740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:36:53 +0000
Subject: [PATCH 52/76] fix: wrap the ring buffer positions when they are
 exactly at the end

---
 src/common/ringbuffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/ringbuffer.c b/src/common/ringbuffer.c
index 446b5bc..f14bf5d 100755
--- a/src/common/ringbuffer.c
+++ b/src/common/ringbuffer.c
@@ -64,8 +64,8 @@ int ringbuffer_push(ringbuffer_t *rb,unsigned char *data, int datan)
                 memcpy(rb->last, data, tailn);
                 rb->last += tailn;
                 rb->datan += tailn;
-                rb->last = rb->start;
             }
+            rb->last = rb->start;
             int headn = datan - tailn;
             memcpy(rb->start, data + tailn, headn);
             rb->last += headn;
@@ -112,8 +112,8 @@ int ringbuffer_pull(ringbuffer_t *rb, int datan, unsigned char *data, int *outn)
                 memcpy(data, rb->pos, tailn);
                 rb->pos += tailn;
                 rb->datan -= tailn;
-                rb->pos = rb->start;
             }
+            rb->pos = rb->start;
             int headn = rb->last - rb->start;
             int pulln = (datan - tailn >= headn ? headn : (datan - tailn));
             memcpy(data + tailn, rb->start, pulln);
-- 
2.43.0


From 4670b4eb9287aac8de6d7c94f3867eae561ea165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:41:36 +0000
Subject: [PATCH 53/76] fix: delete leaves and direct successors from the
 search tree correctly

---
 src/common/util/bst.c | 61 ++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/src/common/util/bst.c b/src/common/util/bst.c
index 2ec5fee..3354309 100755
--- a/src/common/util/bst.c
+++ b/src/common/util/bst.c
@@ -91,53 +91,44 @@ bst_node_t * bst_find(bst_t * bst, long long key)
     return NULL;
 }
 
+///put v (mabey NULL) into the place of n
+static void bst_replace(bst_node_t * n, bst_node_t * v)
+{
+    if(n->type == BST_LEFT)
+        n->parent->left = v;
+    else
+        n->parent->right = v;
+
+    if(v) {
+        v->parent = n->parent;
+        v->type = n->type;
+        v->level = n->level;
+    }
+}
+
 int bst_del(bst_t * bst, long long key)
 {
     bst_node_t * n = bst_find(bst, key);
     if(!n) 
         return -1;
 
-    if(n->left && !n->right) {
-        if(n->type == BST_LEFT) 
-            n->parent->left = n->left;
-        else 
-            n->parent->right = n->left;
-
-        n->left->parent = n->parent;
-        n->left->level = n->level;
-    } else if (!n->left && n->right) {
-        if(n->type == BST_LEFT) 
-            n->parent->left = n->right;
-        else
-            n->parent->right = n->right;
-
-        n->right->parent = n->parent;
-        n->right->level = n->level;
+    if(!n->left) {
+        bst_replace(n, n->right);
+    } else if (!n->right) {
+        bst_replace(n, n->left);
     } else {
         ///find right tree mininum node.
         bst_node_t * m = bst_min(n->right);
-        ///delete the node
-        if(m->right) {
-            if(m->type == BST_LEFT)
-                m->parent->left = m->right;
-            else
-                m->parent->right = m->right;
-            m->right->parent = m->parent;
-            m->right->level = m->level;
-        } else {
-            m->parent->left = NULL;
+        ///take the node out of its place
+        if(m != n->right) {
+            bst_replace(m, m->right);
+            m->right = n->right;
+            m->right->parent = m;
         }
         ///replace delete node with this node
-        if(n->type == BST_LEFT) 
-            n->parent->left = m;
-        else
-            n->parent->right = m;
-        n->left->parent = m;
-        n->right->parent = m;
-        m->parent = n->parent;
-        m->level = n->level;
+        bst_replace(n, m);
         m->left = n->left;
-        m->right = n->right;
+        m->left->parent = m;
     }
     sys_free(n);
     bst->elem_num --;
-- 
2.43.0


From e86a85791261310ec628d2bea0a9eb07e63917be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:41:37 +0000
Subject: [PATCH 54/76] fix: keep the head of the search tree out of searches
 and negative keys below the root

---
 src/common/util/bst.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/common/util/bst.c b/src/common/util/bst.c
index 3354309..f245986 100755
--- a/src/common/util/bst.c
+++ b/src/common/util/bst.c
@@ -34,8 +34,8 @@ int bst_free(bst_t * bst)
 
 int bst_add(bst_t * bst, long long key)
 {
-    bst_node_t * n = &bst->head;
-    bst_node_t * p = NULL;
+    bst_node_t * n = bst->head.right;
+    bst_node_t * p = &bst->head;
 
     while(n) {
         p = n;
@@ -52,7 +52,7 @@ int bst_add(bst_t * bst, long long key)
         return -1;
     }
         
-    if(key > p->num) {
+    if(p == &bst->head || key > p->num) {
         p->right = v;
         v->type = BST_RIGHT;
     } else {
@@ -75,18 +75,11 @@ bst_node_t * bst_min(bst_node_t * n)
 
 bst_node_t * bst_find(bst_t * bst, long long key)
 {
-    bst_node_t * stack[8192] = {NULL};
-    int stackn = 0;
-
-    stack[stackn++] = &bst->head;
+    bst_node_t * n = bst->head.right;
 
-    while(stackn > 0) {
-        bst_node_t * n = stack[--stackn];
+    while(n) {
         if(n->num == key) return n;
-        if(n->left)
-            stack[stackn++] = n->left;
-        if(n->right)
-            stack[stackn++] = n->right;
+        n = (key > n->num) ? n->right : n->left;
     }
     return NULL;
 }
-- 
2.43.0


From 95ad87748bae943120cbd2985da07944d0253d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:41:38 +0000
Subject: [PATCH 55/76] fix: free the whole search tree whatever its shape

---
 src/common/util/bst.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/common/util/bst.c b/src/common/util/bst.c
index f245986..219edee 100755
--- a/src/common/util/bst.c
+++ b/src/common/util/bst.c
@@ -15,20 +15,24 @@ int bst_create(bst_t ** bst)
 
 int bst_free(bst_t * bst)
 {
-    bst_node_t * stack[8192] = {NULL};
-    int stackn = 0;
-
-    if(!bst->head.right) return 0;
-    stack[stackn++] = bst->head.right;
-
-    while(stackn > 0) {
-        bst_node_t * n = stack[--stackn];
-        if(n->left)
-            stack[stackn++] = n->left;
-        if(n->right)
-            stack[stackn++] = n->right;
-        sys_free(n);
+    bst_node_t * n = bst->head.right;
+
+    while(n) {
+        if(n->left) {
+            n = n->left;
+        } else if(n->right) {
+            n = n->right;
+        } else {
+            bst_node_t * p = n->parent;
+            if(p->left == n)
+                p->left = NULL;
+            else
+                p->right = NULL;
+            sys_free(n);
+            n = (p == &bst->head) ? NULL : p;
+        }
     }
+    sys_free(bst);
     return 0;
 }
 
-- 
2.43.0


From 88c2e58b1ec2f2898122fe113e4a571e8f264b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:10 +0000
Subject: [PATCH 56/76] fix: label info and debug records with their own level

---
 src/common/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/log.c b/src/common/log.c
index 57bad7e..b254a38 100755
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -10,8 +10,8 @@ log_mgr_t * log_ctx = NULL;
 
 static string_t levels[] = {
     string("[error]"),
-    string("[debug]"),
-    string("[info]")
+    string("[info]"),
+    string("[debug]")
 };
 
 static int log_format_prefix(log_content_t *ctx) {
-- 
2.43.0


From 04092ddc3f297bb249971da3ec914bcce2704035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:11 +0000
Subject: [PATCH 57/76] fix: write only the stored part of a log record that is
 longer than the buffer

---
 src/common/log.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/common/log.c b/src/common/log.c
index b254a38..bd9e921 100755
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -14,16 +14,28 @@ static string_t levels[] = {
     string("[debug]")
 };
 
+///n is what the text would have needed, at most room - 1 bytes were stored
+static void log_advance(log_content_t *ctx, int n, int room) {
+    if (n >= room)
+        n = room - 1;
+    if (n > 0)
+        ctx->pos += n;
+}
+
 static int log_format_prefix(log_content_t *ctx) {
-    ctx->pos += snprintf(ctx->pos, (ctx->last - ctx->pos)-1, "%.*s %s <%s:%d> ",
+    int room = (int)(ctx->last - ctx->pos) - 1;
+    int n = snprintf(ctx->pos, room, "%.*s %s <%s:%d> ",
         levels[ctx->level].len, levels[ctx->level].data,
         systime_log(), ctx->func, ctx->line );
+    log_advance(ctx, n, room);
     return 0;
 }
 
 static int log_format_text(log_content_t *ctx) {
     
-    ctx->pos += vsnprintf(ctx->pos, (ctx->last - ctx->pos)-1, ctx->args, ctx->args_list);
+    int room = (int)(ctx->last - ctx->pos) - 1;
+    int n = vsnprintf(ctx->pos, room, ctx->args, ctx->args_list);
+    log_advance(ctx, n, room);
     va_end(ctx->args_list);
     return 0;
 }
-- 
2.43.0


From 38231a6aae24eb1ec7364d1f63bd49bb53f72713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:14 +0000
Subject: [PATCH 58/76] fix: compile and free pattern sets of any size

---
 src/common/aho_corasick.c | 35 +++++++++++++++++++++--------------
 src/common/aho_corasick.h |  1 +
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 70eeea3..2763568 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -1,16 +1,18 @@
 #include "common.h"
 
 int ezac_node_free(ezac_node_t *root) {
-    ezac_node_t *stack[4096] = {0};
-    int stackn = 0;
+    ezac_node_t *top = root;
     int i = 0;
 
-    stack[stackn++] = root;
-    while (stackn > 0) {
-        ezac_node_t * p = stack[--stackn];
+    root->next = NULL;
+    while (top) {
+        ezac_node_t * p = top;
+        top = p->next;
         for (i = 0; i < EZAC_MAX; i++) {
-            if (p->arr[i])
-                stack[stackn++] = p->arr[i];
+            if (p->arr[i]) {
+                p->arr[i]->next = top;
+                top = p->arr[i];
+            }
         }
         if (p != root)
             sys_free(p);
@@ -50,22 +52,25 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
 }
 
 int ezac_compiler(ezac_ctx_t *ctx) {
-    ezac_node_t *queue[4096] = {0};
-    int queuen = 0;
-    int head = 0;
+    ezac_node_t *head = &ctx->root;
+    ezac_node_t *tail = &ctx->root;
     int i = 0;
 
+    ctx->root.next = NULL;
+
     for (i = 0; i < EZAC_MAX; i++) {
         if (ctx->root.arr[i]) {
             ctx->root.arr[i]->pfail = &ctx->root;
             ctx->root.arr[i]->fmatch = ctx->root.arr[i]->fendup;
-            queue[queuen++] = ctx->root.arr[i];
+            tail->next = ctx->root.arr[i];
+            tail = tail->next;
+            tail->next = NULL;
         }
     }
 
     ///shallow nodes first, a fail link always points to a shallower node
-    while (head < queuen) {
-        ezac_node_t * n = queue[head++];
+    while ((head = head->next)) {
+        ezac_node_t * n = head;
         for (i = 0; i < EZAC_MAX; i++) {
             if (n->arr[i]) {
                 ezac_node_t * x = n->pfail;
@@ -73,7 +78,9 @@ int ezac_compiler(ezac_ctx_t *ctx) {
                     x = x->pfail;
                 n->arr[i]->pfail = (x->arr[i] ? x->arr[i] : x);
                 n->arr[i]->fmatch = n->arr[i]->fendup || n->arr[i]->pfail->fmatch;
-                queue[queuen++] = n->arr[i];
+                tail->next = n->arr[i];
+                tail = tail->next;
+                tail->next = NULL;
             }
         }
     }
diff --git a/src/common/aho_corasick.h b/src/common/aho_corasick.h
index 8261cb8..93a9ec0 100755
--- a/src/common/aho_corasick.h
+++ b/src/common/aho_corasick.h
@@ -11,6 +11,7 @@ typedef struct ezac_node_t ezac_node_t;
 struct ezac_node_t {
     ezac_node_t * arr[EZAC_MAX];
     ezac_node_t * pfail;
+    ezac_node_t * next;        ///next node to visit while compiling or freeing
     unsigned char fendup:1;
     unsigned char fmatch:1;    ///this node or one on its fail chain ends a pattern
 };
-- 
2.43.0


From 146e1f258994b0bab2ab2911f6ff3560458e1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:15 +0000
Subject: [PATCH 59/76] fix: ignore settings of the wrong type instead of
 crashing or taking another value

---
 src/common/config.c | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index d37549f..fe9d1e8 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -2,6 +2,10 @@
 
 static config_t g_config;
 
+static int config_is_int(cJSON *item) {
+    return cJSON_IsNumber(item) || cJSON_IsBool(item);
+}
+
 static int config_parse(char *str) {
     int i = 0;
     cJSON *root = cJSON_Parse(str);
@@ -9,11 +13,11 @@ static int config_parse(char *str) {
         cJSON *sys_daemon = cJSON_GetObjectItem(root, "sys_daemon");
         cJSON *sys_process = cJSON_GetObjectItem(root, "sys_process");
         cJSON *sys_loglevel = cJSON_GetObjectItem(root, "sys_log_level");
-        if (sys_daemon)
+        if (config_is_int(sys_daemon))
             g_config.sys_daemon = sys_daemon->valueint;
-        if (sys_process)
+        if (config_is_int(sys_process))
             g_config.sys_process_num = sys_process->valueint;
-        if (sys_loglevel)
+        if (config_is_int(sys_loglevel))
             g_config.sys_log_level = sys_loglevel->valueint;
         ///dbg("sys_daemon: [%d]\n", g_config.sys_daemon);
         ///dbg("sys_process: [%d]\n", g_config.sys_process_num);
@@ -22,9 +26,9 @@ static int config_parse(char *str) {
 
         cJSON *ssl_crt_path = cJSON_GetObjectItem(root, "ssl_crt_path");
         cJSON *ssl_key_path = cJSON_GetObjectItem(root, "ssl_key_path");
-        if (ssl_crt_path)
+        if (cJSON_IsString(ssl_crt_path))
             strncpy(g_config.ssl_crt_path, cJSON_GetStringValue(ssl_crt_path), sizeof(g_config.ssl_crt_path)-1);
-        if (ssl_key_path)
+        if (cJSON_IsString(ssl_key_path))
             strncpy(g_config.ssl_key_path, cJSON_GetStringValue(ssl_key_path), sizeof(g_config.ssl_key_path)-1);
         ///dbg("ssl_crt_path: [%s]\n", g_config.ssl_crt_path);
         ///dbg("ssl_key_path: [%s]\n", g_config.ssl_key_path);
@@ -34,13 +38,13 @@ static int config_parse(char *str) {
         cJSON *s5_serv_port = cJSON_GetObjectItem(root, "s5_serv_port");
         cJSON *s5_serv_auth_path = cJSON_GetObjectItem(root, "s5_serv_auth_path");
         cJSON *s5_serv_gw = cJSON_GetObjectItem(root, "s5_serv_gw");
-        if (s5_mode)
+        if (config_is_int(s5_mode))
             g_config.s5_mode = s5_mode->valueint;
-        if (s5_serv_port)
+        if (config_is_int(s5_serv_port))
             g_config.s5_serv_port = s5_serv_port->valueint;
-        if (s5_serv_auth_path)
+        if (cJSON_IsString(s5_serv_auth_path))
             strncpy(g_config.s5_serv_auth_path, cJSON_GetStringValue(s5_serv_auth_path), sizeof(g_config.s5_serv_auth_path)-1);
-        if (s5_serv_gw)
+        if (cJSON_IsString(s5_serv_gw))
             strncpy(g_config.s5_serv_gw, cJSON_GetStringValue(s5_serv_gw), sizeof(g_config.s5_serv_gw)-1);
         ///dbg("s5_mode: [%d]\n", g_config.s5_mode);
         ///dbg("s5_serv_port: [%d]\n", g_config.s5_serv_port);
@@ -52,13 +56,13 @@ static int config_parse(char *str) {
         cJSON *s5_local_serv_port = cJSON_GetObjectItem(root, "s5_local_serv_port");
         cJSON *s5_local_serv_ip = cJSON_GetObjectItem(root, "s5_local_serv_ip");
         cJSON *s5_local_auth = cJSON_GetObjectItem(root, "s5_local_auth");
-        if (s5_local_port)
+        if (config_is_int(s5_local_port))
             g_config.s5_local_port = s5_local_port->valueint;
-        if (s5_local_serv_port)
+        if (config_is_int(s5_local_serv_port))
             g_config.s5_local_serv_port = s5_local_serv_port->valueint;
-        if (s5_local_serv_ip)
+        if (cJSON_IsString(s5_local_serv_ip))
             strncpy(g_config.s5_local_serv_ip, cJSON_GetStringValue(s5_local_serv_ip), sizeof(g_config.s5_local_serv_ip)-1);
-        if (s5_local_auth)
+        if (cJSON_IsString(s5_local_auth))
             strncpy(g_config.s5_local_auth, cJSON_GetStringValue(s5_local_auth), sizeof(g_config.s5_local_auth)-1);
         ///dbg("s5_local_port: [%d]\n", g_config.s5_local_port);
         ///dbg("s5_local_serv_port: [%d]\n", g_config.s5_local_serv_port);
@@ -70,24 +74,24 @@ static int config_parse(char *str) {
         cJSON *https_arr = cJSON_GetObjectItem(root, "https_arr");
         cJSON *http_home = cJSON_GetObjectItem(root, "http_home");
         cJSON *http_index = cJSON_GetObjectItem(root, "http_index");
-        if (http_arr) {
+        if (cJSON_IsArray(http_arr)) {
             for (i = 0; i < cJSON_GetArraySize(http_arr); i++)
                 g_config.http_arr[i] = cJSON_GetArrayItem(http_arr, i)->valueint;
         }
-        if (https_arr) {
+        if (cJSON_IsArray(https_arr)) {
             for (i = 0; i < cJSON_GetArraySize(https_arr); i++)
                 g_config.https_arr[i] = cJSON_GetArrayItem(https_arr, i)->valueint;
         }
-        if (http_home)
+        if (cJSON_IsString(http_home))
             strncpy(g_config.http_home, cJSON_GetStringValue(http_home), sizeof(g_config.http_home)-1);
-        if (http_index)
+        if (cJSON_IsString(http_index))
             strncpy(g_config.http_index, cJSON_GetStringValue(http_index), sizeof(g_config.http_index)-1);
 
-        g_config.http_num = cJSON_GetArraySize(http_arr);
+        g_config.http_num = cJSON_IsArray(http_arr) ? cJSON_GetArraySize(http_arr) : 0;
         ///for(i = 0; i < g_config.http_num; i++) 
         ///    dbg("[%d]\n", g_config.http_arr[i]);
             
-        g_config.https_num = cJSON_GetArraySize(https_arr);
+        g_config.https_num = cJSON_IsArray(https_arr) ? cJSON_GetArraySize(https_arr) : 0;
         ///for(i = 0; i < g_config.https_num; i++)
         ///    dbg("[%d]\n", g_config.https_arr[i]);
             
-- 
2.43.0


From 7b6b20858d0459cee4cd3b1f80fcf65c5428db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:16 +0000
Subject: [PATCH 60/76] fix: cut port lists at the number of ports there is
 room for

---
 src/common/config.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index fe9d1e8..09129f2 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -75,11 +75,17 @@ static int config_parse(char *str) {
         cJSON *http_home = cJSON_GetObjectItem(root, "http_home");
         cJSON *http_index = cJSON_GetObjectItem(root, "http_index");
         if (cJSON_IsArray(http_arr)) {
-            for (i = 0; i < cJSON_GetArraySize(http_arr); i++)
+            g_config.http_num = cJSON_GetArraySize(http_arr);
+            if (g_config.http_num > L_OPEN_PORT_MAX)
+                g_config.http_num = L_OPEN_PORT_MAX;
+            for (i = 0; i < g_config.http_num; i++)
                 g_config.http_arr[i] = cJSON_GetArrayItem(http_arr, i)->valueint;
         }
         if (cJSON_IsArray(https_arr)) {
-            for (i = 0; i < cJSON_GetArraySize(https_arr); i++)
+            g_config.https_num = cJSON_GetArraySize(https_arr);
+            if (g_config.https_num > L_OPEN_PORT_MAX)
+                g_config.https_num = L_OPEN_PORT_MAX;
+            for (i = 0; i < g_config.https_num; i++)
                 g_config.https_arr[i] = cJSON_GetArrayItem(https_arr, i)->valueint;
         }
         if (cJSON_IsString(http_home))
@@ -87,11 +93,9 @@ static int config_parse(char *str) {
         if (cJSON_IsString(http_index))
             strncpy(g_config.http_index, cJSON_GetStringValue(http_index), sizeof(g_config.http_index)-1);
 
-        g_config.http_num = cJSON_IsArray(http_arr) ? cJSON_GetArraySize(http_arr) : 0;
         ///for(i = 0; i < g_config.http_num; i++) 
         ///    dbg("[%d]\n", g_config.http_arr[i]);
             
-        g_config.https_num = cJSON_IsArray(https_arr) ? cJSON_GetArraySize(https_arr) : 0;
         ///for(i = 0; i < g_config.https_num; i++)
         ///    dbg("[%d]\n", g_config.https_arr[i]);
             
-- 
2.43.0


From 59592d1063d7e880d663bab7dac557bdad111ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:18 +0000
Subject: [PATCH 61/76] fix: keep the configuration text terminated when the
 file grows while it is read

---
 src/common/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/config.c b/src/common/config.c
index 09129f2..bc1ae42 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -135,7 +135,7 @@ int config_init(void) {
         ffd = open(S5_PATH_CFG, O_RDONLY);
         schk(ffd > 0, break);
         while (freadn < fsz) {
-            rc = read(ffd, fbuf + freadn, fsz + 1 - freadn);
+            rc = read(ffd, fbuf + freadn, fsz - freadn);
             schk(rc > 0, break);
             freadn += rc;
         }
-- 
2.43.0


From eaf3c518c5b355e065d9c4d74db9a722f3f067b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:28 +0000
Subject: [PATCH 62/76] fix: refuse JSON strings with a malformed unicode
 escape

---
 src/common/cJSON.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/cJSON.c b/src/common/cJSON.c
index 524ba46..e5e8b9a 100755
--- a/src/common/cJSON.c
+++ b/src/common/cJSON.c
@@ -632,9 +632,9 @@ static unsigned parse_hex4(const unsigned char * const input)
         {
             h += (unsigned int) 10 + input[i] - 'a';
         }
-        else /* invalid */
+        else /* invalid, no 16 bit value */
         {
-            return 0;
+            return 0x10000;
         }
 
         if (i < 3)
@@ -669,7 +669,7 @@ static unsigned char utf16_literal_to_utf8(const unsigned char * const input_poi
     first_code = parse_hex4(first_sequence + 2);
 
     /* check that the code is valid */
-    if (((first_code >= 0xDC00) && (first_code <= 0xDFFF)))
+    if ((first_code > 0xFFFF) || ((first_code >= 0xDC00) && (first_code <= 0xDFFF)))
     {
         goto fail;
     }
-- 
2.43.0


From 48e889550fcfc36d4a16aab49eca873988d585e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:58:31 +0000
Subject: [PATCH 63/76] fix: do not read past a JSON text that ends after a
 comma in an object

---
 src/common/cJSON.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/cJSON.c b/src/common/cJSON.c
index e5e8b9a..0315676 100755
--- a/src/common/cJSON.c
+++ b/src/common/cJSON.c
@@ -1654,6 +1654,11 @@ static cJSON_bool parse_object(cJSON * const item, parse_buffer * const input_bu
             current_item = new_item;
         }
 
+        if (cannot_access_at_index(input_buffer, 1))
+        {
+            goto fail; /* nothing comes after the comma */
+        }
+
         /* parse the name of the child */
         input_buffer->offset++;
         buffer_skip_whitespace(input_buffer);
-- 
2.43.0


From 5d75952615d1d9d3de4ffcd051b4ad75b3dabf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:34:54 +0000
Subject: [PATCH 64/76] fix: signal every live worker even if another one has
 already exited

---
 src/common/process.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index 022b328..e8fb67d 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -38,10 +38,10 @@ int proc_signal_send(pid_t pid, int32 signal) {
 static int proc_signal_bcast(int sig) {
     int i = 0;
     for (i = 0; i < config_get()->sys_process_num; i++) {
-        if (-1 == proc_signal_send(g_proc_ctx->processes[i].pid, sig)) {
-            err("broadcast signal failed\n");
-            return -1;
-        }
+        if (g_proc_ctx->processes[i].exited) ///its pid may belong to someone else now
+            continue;
+        if (-1 == proc_signal_send(g_proc_ctx->processes[i].pid, sig))
+            err("broadcast signal to [%d] failed\n", g_proc_ctx->processes[i].pid);
     }
     return 0;
 }
-- 
2.43.0


From ef2e6fef223fdb88c332035e63c1a7edf4338e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:34:55 +0000
Subject: [PATCH 65/76] fix: block SIGHUP in the master so that a reload
 request is not slept through

---
 src/common/process.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/process.c b/src/common/process.c
index e8fb67d..5c8ddd1 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -87,6 +87,7 @@ void proc_master_run(void) {
     sigemptyset(&set);
     sigaddset(&set, SIGCHLD);
     sigaddset(&set, SIGINT);
+    sigaddset(&set, SIGHUP);
     sigaddset(&set, SIGUSR1);
     sigaddset(&set, SIGUSR2);
     if (sigprocmask(SIG_BLOCK, &set, NULL) == -1) {
-- 
2.43.0


From 48126bfe9fd106627886595966a0cf2bac34692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:34:56 +0000
Subject: [PATCH 66/76] fix: keep the pid file when a worker ends

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c2af9a1..6722c69 100755
--- a/src/main.c
+++ b/src/main.c
@@ -119,11 +119,13 @@ int main(int argc, char ** argv)
     schk(0 == config_init(), return -1);
     schk(0 == proc_daemon(), return -1);
     schk(0 == proc_pid_create(), return -1);
+    pid_t master = getpid();
     schk(0 == modules_core_init(), {unlink(S5_PATH_PID); return -1;});
 
     config_get()->sys_process_num > 0 ? proc_master_run() : proc_worker_run();
     modules_core_exit();
-    unlink(S5_PATH_PID);
+    if (getpid() == master) ///workers come here too
+        unlink(S5_PATH_PID);
     return 0;
 }
 #endif
-- 
2.43.0


From 431073f0f5a827f1b39a7ae379aac15e710580c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:34:57 +0000
Subject: [PATCH 67/76] fix: try again to replace a worker when fork fails

---
 src/common/process.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index 5c8ddd1..48f01be 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -88,6 +88,7 @@ void proc_master_run(void) {
     sigaddset(&set, SIGCHLD);
     sigaddset(&set, SIGINT);
     sigaddset(&set, SIGHUP);
+    sigaddset(&set, SIGALRM);
     sigaddset(&set, SIGUSR1);
     sigaddset(&set, SIGUSR2);
     if (sigprocmask(SIG_BLOCK, &set, NULL) == -1) {
@@ -127,11 +128,13 @@ void proc_master_run(void) {
         }
 
         if (g_proc_ctx->sig_reap == 1) { ///someone child dead
+            int retry = 0;
             for (i = 0; i < config_get()->sys_process_num; i++) {
                 if (g_proc_ctx->processes[i].exited) {
                     if (!g_proc_ctx->sig_quit) {  ///if master not recived sigint, just to restart the child process
                         if (-1 == proc_fork( &g_proc_ctx->processes[i])) {
                             err("proc_fork index [%d] failed, [%d]\n", i, errno);
+                            retry = 1;
                             continue;
                         }
 
@@ -143,7 +146,9 @@ void proc_master_run(void) {
                     }
                 }
             }
-            g_proc_ctx->sig_reap = 0;
+            g_proc_ctx->sig_reap = retry;
+            if (retry)
+                alarm(1); ///wake up and try again
         }
         
         if (g_proc_ctx->sig_reload) {
@@ -168,7 +173,7 @@ void proc_waitpid(void) {
             return;
         }
         for (i = 0; i < config_get()->sys_process_num; i++) {
-            if (dead_child_pid == g_proc_ctx->processes[i].pid) {
+            if (!g_proc_ctx->processes[i].exited && dead_child_pid == g_proc_ctx->processes[i].pid) {
                 g_proc_ctx->processes[i].exited = 1;
                 break;
             }
@@ -204,6 +209,7 @@ status proc_signal_init(void) {
         SIGINT,
         SIGHUP,
         SIGCHLD,
+        SIGALRM,
         SIGPIPE,
         SIGUSR1,
         SIGUSR2,
-- 
2.43.0


From ae3157f6c5e92928ae08f9488c8d271a839b776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:34:59 +0000
Subject: [PATCH 68/76] fix: do not miss a stop request that arrives right
 before waiting for events

---
 src/common/event.c   | 4 +++-
 src/common/process.c | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/event.c b/src/common/event.c
index 8e96a52..f6008cf 100755
--- a/src/common/event.c
+++ b/src/common/event.c
@@ -57,7 +57,9 @@ static int ev_epoll_opt(con_t *c, int want_opt) {
 int ev_epoll_loop(time_t msec) {
     int i = 0;
 
-    int all = epoll_wait(g_event_ctx->epfd, g_event_ctx->epev, MAX_NET_CON, (int)msec); 
+    sigset_t none;
+    sigemptyset(&none);
+    int all = epoll_pwait(g_event_ctx->epfd, g_event_ctx->epev, MAX_NET_CON, (int)msec, &none); 
     if (all <= 0) {
         if (all == 0) {
             return (msec == -1) ? -1 : -11;
diff --git a/src/common/process.c b/src/common/process.c
index 48f01be..76aff24 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -50,7 +50,8 @@ void proc_worker_run(void) {
     int32 timer;
     sigset_t set;
     sigemptyset(&set); ///clear signal set
-    sigprocmask(SIG_SETMASK, &set, NULL); ///worker process set the empty signal set to block. it is equal to not block any signal
+    sigaddset(&set, SIGINT); ///only received while waiting for events, it could be slept through otherwise
+    sigprocmask(SIG_SETMASK, &set, NULL);
 
     modules_process_init();  ///init process modules
     for (;;) {
-- 
2.43.0


From 0751daf88b04950cb742d5fb92fa15212f486b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:35:00 +0000
Subject: [PATCH 69/76] fix: refuse a pid file that does not name a process

---
 src/common/process.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index 76aff24..07fac21 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -25,8 +25,11 @@ int proc_pid_form_file(pid_t *pid) {
     char str[32] = {0};
     int fd = open(S5_PATH_PID, O_RDONLY);
     schk(fd > 0, return -1);
-    schk(read(fd, str, sizeof(str)) > 0, {close(fd); return -1;});
-    *pid = strtol(str, NULL, 10);
+    schk(read(fd, str, sizeof(str) - 1) > 0, {close(fd); return -1;});
+    close(fd);
+    long n = strtol(str, NULL, 10);
+    schk(n > 0 && n <= INT_MAX, return -1);
+    *pid = (pid_t)n;
     return 0;
 }
 
-- 
2.43.0


From c34e3e0578da65f9bb76ced93db6463fbb9092d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:35:02 +0000
Subject: [PATCH 70/76] fix: listen on every configured port

---
 src/common/event.c  | 4 ++--
 src/common/listen.c | 8 ++++----
 src/common/listen.h | 2 +-
 src/common/macro.h  | 1 +
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/common/event.c b/src/common/event.c
index f6008cf..4b02e1c 100755
--- a/src/common/event.c
+++ b/src/common/event.c
@@ -280,7 +280,7 @@ int ev_init(void) {
     /// listen fd set by SO_REUSEPORT. 
     /// kernel will be process listen fd loadbalance
     int i = 0;
-    for (i = 0; i < 8; i++) {
+    for (i = 0; i < L_LISTEN_MAX; i++) {
         if (g_listens[i].fuse) {
             
             schk(0 == net_alloc(&g_listens[i].c), return -1);
@@ -297,7 +297,7 @@ int ev_init(void) {
 
 int ev_exit(void) {
     int i = 0;
-    for (i = 0; i < 8; i++) {
+    for (i = 0; i < L_LISTEN_MAX; i++) {
         if (g_listens[i].fuse)
             net_free(g_listens[i].c);
     }
diff --git a/src/common/listen.c b/src/common/listen.c
index 188ca51..f515ca5 100755
--- a/src/common/listen.c
+++ b/src/common/listen.c
@@ -5,11 +5,11 @@
 #include "http_req.h"
 #include "webser.h"
 
-listen_t g_listens[8];
+listen_t g_listens[L_LISTEN_MAX];
 
 static int listen_add(unsigned short port, ev_cb cb, char fssl) {
     int i = 0;
-    for (i = 0; i < 8; i++) {
+    for (i = 0; i < L_LISTEN_MAX; i++) {
         if(!g_listens[i].fuse) {
             g_listens[i].port = port;
             g_listens[i].cb = cb;
@@ -49,7 +49,7 @@ static int listen_set_opt(listen_t *l) {
 
 int listen_start(void) {
     int i = 0;
-    for (i = 0; i < 8; i++) {
+    for (i = 0; i < L_LISTEN_MAX; i++) {
         if (g_listens[i].fuse) {
             schk(0 == listen_set_opt(&g_listens[i]), return -1);
         }
@@ -78,7 +78,7 @@ int listen_init(void) {
 
 status listen_end(void) {
     int i = 0;
-    for (i = 0; i < 8; i++) {
+    for (i = 0; i < L_LISTEN_MAX; i++) {
         if (g_listens[i].fuse) {
             if (g_listens[i].fd)
                 close(g_listens[i].fd);
diff --git a/src/common/listen.h b/src/common/listen.h
index 022452d..0055762 100755
--- a/src/common/listen.h
+++ b/src/common/listen.h
@@ -18,7 +18,7 @@ struct listen {
     char fssl:1;
 };
 
-extern listen_t g_listens[8];
+extern listen_t g_listens[L_LISTEN_MAX];
 
 
 status listen_start(void);
diff --git a/src/common/macro.h b/src/common/macro.h
index 273d648..03065cb 100755
--- a/src/common/macro.h
+++ b/src/common/macro.h
@@ -64,6 +64,7 @@ extern "C"
 
 /// open port limit
 #define L_OPEN_PORT_MAX    64
+#define L_LISTEN_MAX       (2 * L_OPEN_PORT_MAX + 1)
 
 // file paths
 #define S5_PATH                 "/usr/local/s5/"
-- 
2.43.0


From 0ab8c93f81e9934d51b6a52dbf0d47363b7224ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:18:03 +0000
Subject: [PATCH 71/76] fix: parse JSON numbers of any length

Only the first 63 characters of a number were read. A longer number was
parsed as another value, or its document was refused.
---
 src/common/cJSON.c | 53 +++++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/src/common/cJSON.c b/src/common/cJSON.c
index 0315676..704b8f4 100755
--- a/src/common/cJSON.c
+++ b/src/common/cJSON.c
@@ -306,8 +306,9 @@ static cJSON_bool parse_number(cJSON * const item, parse_buffer * const input_bu
 {
     double number = 0;
     unsigned char *after_end = NULL;
-    unsigned char number_c_string[64];
+    unsigned char *number_c_string = NULL;
     unsigned char decimal_point = get_decimal_point();
+    size_t number_length = 0;
     size_t i = 0;
 
     if ((input_buffer == NULL) || (input_buffer->content == NULL))
@@ -315,44 +316,37 @@ static cJSON_bool parse_number(cJSON * const item, parse_buffer * const input_bu
         return false;
     }
 
+    /* a number may be of any length */
+    while (can_access_at_index(input_buffer, number_length)
+        && (buffer_at_offset(input_buffer)[number_length] != '\0')
+        && (strchr("0123456789+-eE.", buffer_at_offset(input_buffer)[number_length]) != NULL))
+    {
+        number_length++;
+    }
+
+    number_c_string = (unsigned char*)input_buffer->hooks.allocate(number_length + sizeof(""));
+    if (number_c_string == NULL)
+    {
+        return false; /* allocation failure */
+    }
+
     /* copy the number into a temporary buffer and replace '.' with the decimal point
      * of the current locale (for strtod)
      * This also takes care of '\0' not necessarily being available for marking the end of the input */
-    for (i = 0; (i < (sizeof(number_c_string) - 1)) && can_access_at_index(input_buffer, i); i++)
-    {
-        switch (buffer_at_offset(input_buffer)[i])
-        {
-            case '0':
-            case '1':
-            case '2':
-            case '3':
-            case '4':
-            case '5':
-            case '6':
-            case '7':
-            case '8':
-            case '9':
-            case '+':
-            case '-':
-            case 'e':
-            case 'E':
-                number_c_string[i] = buffer_at_offset(input_buffer)[i];
-                break;
-
-            case '.':
-                number_c_string[i] = decimal_point;
-                break;
-
-            default:
-                goto loop_end;
+    for (i = 0; i < number_length; i++)
+    {
+        number_c_string[i] = buffer_at_offset(input_buffer)[i];
+        if (number_c_string[i] == '.')
+        {
+            number_c_string[i] = decimal_point;
         }
     }
-loop_end:
     number_c_string[i] = '\0';
 
     number = strtod((const char*)number_c_string, (char**)&after_end);
     if (number_c_string == after_end)
     {
+        input_buffer->hooks.deallocate(number_c_string);
         return false; /* parse_error */
     }
 
@@ -375,6 +369,7 @@ loop_end:
     item->type = cJSON_Number;
 
     input_buffer->offset += (size_t)(after_end - number_c_string);
+    input_buffer->hooks.deallocate(number_c_string);
     return true;
 }
 
-- 
2.43.0


From 41e1b55bf9765d8d443de43562f3657a47ed9199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:18:13 +0000
Subject: [PATCH 72/76] fix: do not use up the stack for requests sent back to
 back

Each pipelined request on a kept-alive connection was started from the
handler of the one before it. Some thousands of requests in one arrival
overflowed the stack and ended the process.
---
 src/app/webser.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index f60018c..5f5f0f8 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -128,9 +128,13 @@ static int webser_keepalive(con_t *c) {
         meta_clr(c->meta);
     }
 
-    c->ev->read_cb = webser_start;
-    c->ev->write_cb = NULL;
-    return c->ev->read_cb(c);
+    ///the next request is started by the event loop. requests sent back to
+    ///back would use up the stack if each one was started from the last one
+    EZ_TMADD(c, web_exp, WEB_TMOUT);
+    c->ev->read_cb = c->ev->write_cb = webser_start;
+    ev_opt(c, EV_R);
+    ev_opt(c, EV_R | EV_W); ///always comes, the request may be in memory already
+    return -11;
 }
 
 void * webser_rsp_mime(webser_t * webser, char * mimetype)
-- 
2.43.0


From 6ec7a60d5fe35f3ebe57f84b1be709f236a9428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:18:14 +0000
Subject: [PATCH 73/76] fix: serve files of 2 GiB and more

The size and the number of bytes sent were kept in an int. A larger file
was announced with a negative or too small length.
---
 src/app/webser.c | 4 ++--
 src/app/webser.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 5f5f0f8..4472289 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -196,7 +196,7 @@ static int webser_rsp_payload_send_ff(con_t *c) {
             meta_clr(meta);
             int readn = read(webc->ffd, meta->last, meta_getfree(meta));
             if (readn <= 0) {
-                err("webserv rff err. [%d] [%d] [%d]\n",
+                err("webserv rff err. [%d] [%lld] [%lld]\n",
                     errno, webc->fsend, webc->fsize);
                 net_free(c);
                 return -1;
@@ -324,7 +324,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         schk(0 == webser_rsp_hdrp(c, "Server: s5\r\n"), break);
         schk(0 == webser_rsp_hdrp(c, "Date: %s\r\n", systime_gmt()), break);    
         schk(0 == webser_rsp_hdrp(c, "Connection: %s\r\n", webc->webreq->fkeepalive ? "keep-alive" : "close"), break);
-        schk(0 == webser_rsp_hdrp(c, "Content-Length: %d\r\n", (webc->type == WEBSER_FILE) ? webc->fsize : meta_getlens(webc->rsp_payload)), break);
+        schk(0 == webser_rsp_hdrp(c, "Content-Length: %lld\r\n", (webc->type == WEBSER_FILE) ? webc->fsize : (long long)meta_getlens(webc->rsp_payload)), break);
         if (exthdr) {
             schk(0 == webser_rsp_hdrp(c, "%s", exthdr), break);
         }
diff --git a/src/app/webser.h b/src/app/webser.h
index 96d9f30..1340f73 100755
--- a/src/app/webser.h
+++ b/src/app/webser.h
@@ -25,8 +25,8 @@ typedef struct {
        
     // static file data
     int ffd;        // file fd  
-    int fsize;      // file allsize
-    int fsend;      // file sendsize
+    long long fsize;    // file allsize
+    long long fsend;    // file sendsize
 
     // api data
     webser_api_t * api;
-- 
2.43.0


From 425d12d73da41065c307f386f043defd8e7f73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:18:16 +0000
Subject: [PATCH 74/76] fix: start a worker later when its first fork fails

The master ended when it could not start one of its workers. The workers
started before stayed behind without a master and without a pid file.
---
 src/common/process.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/process.c b/src/common/process.c
index 07fac21..60d82b0 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -103,7 +103,10 @@ void proc_master_run(void) {
     for (i = 0; i < config_get()->sys_process_num; i++) { /// start worker process
         if (-1 == proc_fork(&g_proc_ctx->processes[i])) {
             err("process spawn number [%d] child failed, errno [%d]\n", i, errno);
-            return;
+            g_proc_ctx->processes[i].exited = 1; ///try again like for a dead child
+            g_proc_ctx->sig_reap = 1;
+            alarm(1);
+            continue;
         }
         if (g_proc_ctx->process_id != L_PROCESS_MASTER)
             return;
-- 
2.43.0


From 0514b5474cb31b806a152cd27f357f38f43970b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:15 +0000
Subject: [PATCH 75/76] fix: leave memory to the connections when many names
 are cached

Every cached name takes three blocks of the smallest size of the memory
pool and may be kept for three hours, so a few hundred names used all of
them up and new connections were refused. Keep at most 256 names.
---
 src/dns/dns.c | 8 +++++++-
 src/dns/dns.h | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 6340f4f..f75362c 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -11,6 +11,7 @@ typedef struct dns_cache_s {
 
 typedef struct dns_ctx_s {
     ezhash_t *dns_hash;
+    int dns_recn;   /// number of records in dns_hash
     ev_timer_t dns_timer;
 } dns_ctx_t;
 static dns_ctx_t *dns_ctx = NULL;
@@ -40,7 +41,10 @@ static int dns_rec_add(char *query, char *addr, long long msec) {
         msec = DNS_TTL_MAX;
     rdns.expire_msec = systime_msec() + msec;
 
-    ezhash_add(dns_ctx->dns_hash, query, strlen(query), &rdns, sizeof(dns_cache_t));
+    if (dns_ctx->dns_recn >= DNS_CACHE_MAX)
+        return -1;
+    schk(0 == ezhash_add(dns_ctx->dns_hash, query, strlen(query), &rdns, sizeof(dns_cache_t)), return -1);
+    dns_ctx->dns_recn++;
     ///dbg("dns cache add entry: [%s]. ttl [%d] msec\n", query, msec);
     return 0;
 }
@@ -49,6 +53,7 @@ int dns_rec_find(char *query, char *out_addr) {
     dns_cache_t *dnsc = ezhash_find(dns_ctx->dns_hash, query, strlen(query));
     if (dnsc && dnsc->expire_msec <= systime_msec()) {
         ezhash_del(dns_ctx->dns_hash, query, strlen(query));
+        dns_ctx->dns_recn--;
         dnsc = NULL;
     }
     if (dnsc) {
@@ -78,6 +83,7 @@ void dns_rec_chk(void *data) {
                             mem_pool_free(obj->val);
                         queue_remove(&obj->queue);
                         mem_pool_free(obj);
+                        dns_ctx->dns_recn--;
                     }
                     
                     p = n;
diff --git a/src/dns/dns.h b/src/dns/dns.h
index 4ce31ed..8ea2d21 100755
--- a/src/dns/dns.h
+++ b/src/dns/dns.h
@@ -10,6 +10,7 @@ extern "C"
 #define DNS_TMOUT   5000
 #define DNS_METAN    1500
 #define DNS_TTL_MAX  (3600*1000*3)
+#define DNS_CACHE_MAX  256   /// records live in the memory pool, leave most of it to the connections
 
 #pragma pack(push,1)
 /// dns format in here
-- 
2.43.0


From 5f17aa3f53c93863e6f4ed0822b0a3526509cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:06 +0000
Subject: [PATCH 76/76] fix: keep a TLS connection going when reading has to
 wait for writing

---
 src/common/ssl.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 2ebb2af..1533383 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -172,7 +172,11 @@ int ssl_handshake(con_t *c) {
     return -1;
 }
 
-static int ssl_read_cb(con_t *c) { return c->ev->read_cb(c); }
+static int ssl_read_cb(con_t *c) {
+    c->ev->write_cb = NULL;
+    ///mabey nobody wants to read right now
+    return (c->ev->read_cb ? c->ev->read_cb(c) : -11);
+}
 
 int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     ssl_con_t * sslc = c->ssl;
@@ -181,10 +185,8 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
 
     int rc = SSL_read(sslc->con, buf, bufn);
     if (rc > 0) {
-        if (c->ev->write_cb == ssl_read_cb) {
-            c->ev->write_cb = sslc->cc_ev_cbw;
-            sslc->cc_ev_cbw = NULL;
-        }
+        if (c->ev->write_cb == ssl_read_cb)
+            c->ev->write_cb = NULL;
         return rc;
     }
     
@@ -193,9 +195,9 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
         if (sslerr == SSL_ERROR_WANT_READ) {
             ev_opt(c, c->ev->opt | EV_R);
         } else if (sslerr == SSL_ERROR_WANT_WRITE) {
-            if (c->ev->write_cb != ssl_read_cb)
-                sslc->cc_ev_cbw = c->ev->write_cb;
-            c->ev->write_cb = ssl_read_cb;
+            ///who waits to write keeps its callback
+            if (!c->ev->write_cb)
+                c->ev->write_cb = ssl_read_cb;
             ev_opt(c, c->ev->opt | EV_W);
         }
         return -11;
-- 
2.43.0

