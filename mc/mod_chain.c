/* C28: chains of buffers against a string of bytes, on a connection that takes and gives what it likes */
#include "common.h"
#include "mod.h"
#define MAXB 40
static unsigned char ref[MAXB], out[MAXB]; static int refn, outn, calls, blocks, maxblk, intr, maxintr, bad, lastblk, maxbad; static con_t *c; static meta_t *head; static long base;
static int left(void) { return refn - outn; }
static void begin(void) {
    mod_begin(); refn = outn = calls = blocks = intr = bad = lastblk = 0; head = NULL; systime_update(); timer_init(); if (ev_init()) mc_fail("cannot start");
    if (net_alloc(&c)) mc_fail("no connection"); c->fd = mod_newfd(); base = mod_blocks();
}
static meta_t *buf(int cap) { meta_t *m = NULL; if (meta_alloc(&m, cap) || !m) mc_fail("no buffer"); if (meta_getlen(m) || meta_getfree(m) != cap || m->next) mc_fail("a new buffer of %d is not empty", cap); return m; }
static void add(meta_t *m) { meta_t **p = &head; while (*p) p = &(*p)->next; *p = m; }
static int put(meta_t *m, int n) {
    unsigned char *b = malloc(n ? n : 1); for (int i = 0; i < n; i++) b[i] = 65 + refn + i;
    int room = meta_getfree(m), r = meta_pdata(m, b, n); free(b); mc_trans(1);
    if (!r != (n <= room)) mc_fail("%d bytes are %s with room for %d", n, r ? "refused" : "taken", room);
    if (meta_getfree(m) != (r ? room : room - n)) mc_fail("%d bytes change the room from %d to %d", n, room, (int)meta_getfree(m));
    if (!r) for (int i = 0; i < n; i++, refn++) ref[refn] = 65 + refn;
    return r;
}
/* what is in the chain and not sent yet */
static void same(meta_t *m, const char *what) { int k = outn; for (; m; m = m->next) for (unsigned char *p = m->pos; p < m->last; p++, k++) if (k >= refn || *p != ref[k]) mc_fail("%s holds other bytes", what); if (k != refn) mc_fail("%s holds %d bytes instead of %d", what, k - outn, left()); }
static ssize_t h_send(int fd, const void *b, size_t n) {
    if (fd != c->fd) return -2;
    if (++calls > 500) mc_fail("sends without end");
    mc_trans(1); if (bad) { errno = EPIPE; return -1; }
    if ((int)n > left()) mc_fail("sends %d bytes with %d left", (int)n, left());
    if (memcmp(b, ref + outn, n)) mc_fail("other bytes are sent than were put in");
    if (!n) return 0;
    int e = 0, k, x[3]; if (blocks < maxblk) x[e++] = 1; if (intr < maxintr) x[e++] = 2; if (maxbad) x[e++] = 3;
    k = mc_choose(n + e, 0, "send");
    if (k >= (int)n) { k = x[k - n]; if (k == 1) { blocks++; lastblk = 1; errno = EAGAIN; } else if (k == 2) { intr++; errno = EINTR; } else { bad = 1; errno = mc_choose(2, 0, "error") ? EPIPE : ECONNRESET; } mc_note("   send of %d fails: %s", (int)n, strerror(errno)); return -1; }
    k = n - k; memcpy(out + outn, b, k); outn += k; mc_note("   send of %d takes %d", (int)n, k); return k;
}
static void end(void) { meta_free(head); head = NULL; if (mod_blocks() != base) mc_fail("%ld blocks are left", mod_blocks() - base); net_free(c); }
static void all(int grow) {
    int rounds = 0; mod_send_hook = h_send;
    for (;;) {
        lastblk = 0; int r = send_chains(c, head); mc_note("   chain -> %d", r); mc_outcome(r); mc_state(mc_mix(mc_mix(refn, outn), blocks * 8 + intr * 2 + bad));
        if (bad) { if (r >= 0 || r == -11) mc_fail("a broken connection is reported as %s", r == -11 ? "blocked" : "done"); return; }
        if (meta_getlens(head) != left()) mc_fail("%d bytes are reported as left instead of %d", meta_getlens(head), left());
        same(head, "the chain");
        if (r == -11) { if (!lastblk) mc_fail("reported as blocked, and it is not"); }
        else if (r < 0) mc_fail("reported as broken, and it is not"); else if (left()) mc_fail("reported as done with %d bytes left", left()); else if (lastblk) mc_fail("went on with a blocked connection");
        if (++rounds > 40) mc_fail("no end");
        if (r != -11 && !grow) return;
        if (grow) { int k = mc_choose(3, 0, "meanwhile"); grow--; if (k == 1) { meta_t *m = buf(2); put(m, 2); add(m); } else if (k == 2) { meta_t *m = head; while (m->next) m = m->next; put(m, 1); } else if (r != -11) return; }
    }
}
static void shape(int nb, int maxlen, int used) {
    for (int i = 0; i < nb; i++) { int len = mc_choose(maxlen + 1, 0, "bytes"); meta_t *m = buf(len + 1); put(m, len); add(m); }
    /* part of it went out before */
    if (used) { int u = mc_choose(refn + 1, 0, "sent before"); for (meta_t *m = head; m && u; m = m->next) while (u && m->pos < m->last) { m->pos++; out[outn] = ref[outn]; outn++; u--; } }
}
static void sending(long a) { int nb = a & 7, len = a >> 3 & 7; maxblk = a >> 6 & 3; maxintr = a >> 8 & 3; maxbad = a >> 10 & 1; begin(); shape(nb, len, a >> 11 & 1); all(a >> 12 & 3); end(); }
/* two connections at once, each with its own chain; either may be served next, broken or given up */
static struct two { con_t *c; int fd; meta_t *h; unsigned char ref[12]; int n, out, gone, blk; } X[2]; static int hard;
static ssize_t h_send2(int fd, const void *b, size_t n) {
    int i = fd == X[0].fd ? 0 : fd == X[1].fd ? 1 : -1; if (i < 0) return -2;
    struct two *x = X + i; mc_trans(1); if (++calls > 500) mc_fail("sends without end");
    if ((int)n > x->n - x->out) mc_fail("sends %d bytes with %d left", (int)n, x->n - x->out);
    if (memcmp(b, x->ref + x->out, n)) mc_fail("other bytes are sent than were put in");
    if (!n) return 0;
    int k = mc_choose(n + 1 + hard, 0, "send"); if (k == (int)n) { x->blk = 1; errno = EAGAIN; return -1; } if (k > (int)n) { x->gone = 1; errno = ECONNRESET; return -1; }
    x->out += n - k; return n - k;
}
static void two(long a) {
    begin(); hard = a >> 4 & 1; mod_send_hook = h_send2;
    for (int i = 0; i < 2; i++) { struct two *x = X + i; memset(x, 0, sizeof *x); if (i) { if (net_alloc(&x->c)) mc_fail("no connection"); x->c->fd = mod_newfd(); } else x->c = c; x->fd = x->c->fd; meta_t **t = &x->h; for (int k = 0; k < 2; k++) { *t = buf(2); int n = a >> k & 1 ? 2 : 1; for (int j = 0; j < n; j++, x->n++) { x->ref[x->n] = 'a' + 13 * i + x->n; if (meta_pdata(*t, x->ref + x->n, 1)) mc_fail("no room"); } t = &(*t)->next; } }
    for (int turns = a >> 5; turns > 0; turns--) {
        int i = mc_choose(2, 0, "which"); struct two *x = X + i; if (!x->h) mc_prune();
        x->blk = 0; int r = send_chains(x->c, x->h); mc_note("   chain %d -> %d", i, r); mc_outcome(r); mc_state(mc_mix(mc_mix(X[0].out, X[1].out), X[0].gone * 8 + X[1].gone * 4 + i));
        if (x->gone ? r >= 0 || r == -11 : x->blk ? r != -11 : r < 0) mc_fail("the state of the connection is reported wrongly"); if (r >= 0 && x->out != x->n) mc_fail("reported as done with %d bytes left", x->n - x->out);
        if (meta_getlens(x->h) != x->n - x->out) mc_fail("%d bytes are reported as left instead of %d", meta_getlens(x->h), x->n - x->out);
        if (r != -11 || mc_choose(2, 0, "given up")) { meta_free(x->h); x->h = NULL; net_free(x->c); }
    }
    for (int i = 0; i < 2; i++) if (X[i].h) { meta_free(X[i].h); net_free(X[i].c); }
}
static void joining(long a) {
    maxbad = maxblk = maxintr = 0; begin(); shape(a & 7, a >> 3 & 7, 1); int nl = 0; for (meta_t *m = head; m; m = m->next) nl++;
    if (meta_getlens(head) != left()) mc_fail("a chain of %d bytes is measured as %d", left(), meta_getlens(head));
    if (a >> 6 & 1) mod_faults("a");
    meta_t *d = meta_dump(head); mod_faults(""); mc_trans(1); mc_state(mc_mix(mc_mix(refn, outn), nl * 2 + !!d)); mc_outcome(!!d);
    if (!d && !mod_injected()) mc_fail("a chain cannot be joined");
    if (d) { if (d->next) mc_fail("the joined chain is still a chain"); same(d, "the joined chain"); }
    same(head, "the chain after joining"); int n2 = 0; for (meta_t *m = head; m; m = m->next) n2++; if (n2 != nl) mc_fail("joining changes the chain");
    if (d && d != head) { meta_free(d); same(head, "the chain after the joined one is gone"); }
    end();
}
static void filling(long a) {
    begin(); int cap = mc_choose(9, 0, "capacity"); meta_t *l = buf(3), *m = buf(cap), *r = buf(3); put(l, 3); head = m; refn = outn = 0; maxbad = 0;
    for (int i = 0; i < (int)a; i++) {
        int k = mc_choose(cap + 4, 0, "operation");
        if (k <= cap + 2) put(m, k); else { meta_clr(m); refn = outn = 0; if (meta_getlen(m) || meta_getfree(m) != cap) mc_fail("a cleared buffer is not empty"); }
        same(head, "the buffer"); mc_state(mc_mix(cap, refn)); mc_outcome(refn);
        if (meta_getlen(l) != 3 || memcmp(l->pos, "ABC", 3) || meta_getlen(r)) mc_fail("another buffer changes");
    }
    meta_free(l); meta_free(r); end();
}
static void sizes(long a) {
    begin(); static const int S[] = {0, 1, 471, 472, 473, 511, 512, 983, 984, 1024, 2008, 2048, 4055, 4056, 4096, 8152, 8192, 16343, 16344, 16345, 16384, 20000, 65536, 1 << 20};
    int n = S[mc_choose(sizeof S / sizeof *S, 0, "size")]; if (a) mod_faults("a");
    meta_t *m = NULL; int r = meta_alloc(&m, n); mod_faults(""); mc_trans(1); mc_outcome(r); mc_state(mc_mix(n, r));
    if (r) { if (!mod_injected() && n <= 16000) mc_fail("no buffer of %d", n); end(); return; }
    if (!m || meta_getfree(m) != n || meta_getlen(m) || m->next) mc_fail("a new buffer of %d is not empty", n);
    unsigned char *b = malloc(n + 1); for (int i = 0; i < n; i++) b[i] = i * 7; if (meta_pdata(m, b, n)) mc_fail("a buffer of %d cannot be filled", n); int d = memcmp(m->pos, b, n), q = meta_pdata(m, b, 1); free(b);
    if (d || meta_getlen(m) != n || meta_getlens(m) != n) mc_fail("a full buffer of %d holds something else", n); if (!q) mc_fail("a full buffer of %d takes one more byte", n);
    head = m; end();
}
static int inn, eof, sendend;
static ssize_t h_recv(int fd, void *b, size_t n, int flags) {
    if (fd != c->fd) return -2;
    if (++calls > 500) mc_fail("reads without end");
    mc_trans(1); if (eof) { if (eof == 1) return 0; errno = ECONNRESET; return -1; }
    int av = refn - inn, m = av < (int)n ? av : (int)n, e = 0, k, x[4]; if (blocks < maxblk) x[e++] = 1; if (intr < maxintr) x[e++] = 2; if (!av || maxbad) x[e++] = 3; if (!av) x[e++] = 4;
    k = mc_choose(m + e, 0, "receive");
    if (k >= m) { k = x[k - m]; if (k == 1) { blocks++; lastblk = 1; errno = EAGAIN; return -1; } if (k == 2) { intr++; errno = EINTR; return -1; } if (k == 4) { eof = 1; return 0; } eof = 2; errno = ECONNRESET; return -1; }
    k = m - k; memcpy(b, ref + inn, k); if (!(flags & MSG_PEEK)) inn += k; return k;
}
static void reading(long a) {
    maxblk = 2; maxintr = 2; maxbad = a >> 3 & 1; begin(); int sz = a & 7; inn = eof = sendend = 0; for (refn = 0; refn < (a >> 4); refn++) ref[refn] = 65 + refn;
    mod_recv_hook = h_recv; unsigned char *b = malloc(sz);
    for (int i = 0; ; i++) {
        lastblk = 0; memset(b, 0, sz); int was = inn, r = recvs(c, b, sz), ok = r <= sz && (r <= 0 || !memcmp(b, ref + was, r)); mc_note("   read %d -> %d", sz, r); mc_outcome(r); mc_state(mc_mix(mc_mix(refn, inn), mc_mix(sz, eof * 16 + blocks * 4 + intr)));
        if (r > 0 && (!ok || r != inn - was)) { free(b); mc_fail("other bytes are read than came in"); }
        if (r == 0 || (r > 0 && eof)) { free(b); mc_fail("an end is reported as data"); }
        if (r < 0 && inn != was) { free(b); mc_fail("bytes are lost"); }
        if (r == -11 && !lastblk) { free(b); mc_fail("reported as blocked, and it is not"); }
        if (r < 0 && r != -11 && !eof) { free(b); mc_fail("reported as closed, and it is not"); }
        if (eof) { if (r == -11) { free(b); mc_fail("an end is reported as blocked"); } break; }
        if (i > 60) { free(b); mc_fail("no end"); }
    }
    free(b); end();
}
MOD_REGISTER(C28) {
    int t = mc_thorough();
    for (int nb = 1; nb <= 3; nb++) { int len = nb == 1 ? 7 : nb == 2 ? 4 : 2 + t; mc_add(sending, nb | len << 3 | 2 << 6 | 1 << 8 | 1 << 10 | 0 << 11, 0, "%d buffers", nb); mc_add(sending, nb | (nb == 3 ? 1 + t : 2) << 3 | 1 << 6 | 1 << 8 | 0 << 10 | 1 << 11, 0, "%d buffers, part sent before", nb); mc_add(sending, nb | (nb == 1 ? 3 : 1) << 3 | 2 << 6 | 0 << 8 | 0 << 10 | 0 << 11 | 2 << 12, 0, "%d buffers, more added meanwhile", nb); }
    mc_add(sending, 4 | 1 << 3 | 1 << 6 | 1 << 8 | 1 << 10, 0, "4 buffers"); mc_add(sending, 5 | 1 << 3 | 1 << 6 | t << 8, 0, "5 buffers");
    for (int k = 0; k < 8; k++) mc_add(two, (k & 3) | (k >> 2) << 4 | (4 + t) << 5, 0, "two connections (%d)%s", k & 3, k & 4 ? ", may break" : "");
    for (int nb = 1; nb <= 4; nb++) { mc_add(joining, nb | (nb < 3 ? 5 : 2 + t) << 3, 0, "joining %d", nb); mc_add(joining, nb | 1 << 3 | 1 << 6, 1, "joining %d, no memory", nb); }
    mc_add(filling, 3 + t, 0, "filling"); mc_add(sizes, 0, 0, "sizes"); mc_add(sizes, 1, 1, "sizes, no memory");
    for (int sz = 1; sz <= 5; sz++) for (int e = 0; e < 2; e++) mc_add(reading, sz | e << 3 | (5 + t) << 4, 0, "reading by %d%s", sz, e ? ", may break" : "");
}
