/* C06: what the event loop does with a batch of events, for everything handlers can do meanwhile */
#include "common.h"
#include "mod.h"
#define NC 6
static struct con { con_t *c; int fd, live, wasnull, alt; int reg, want; uint32_t mask; void *ptr; } C[NC];
static int nc, maxc, pend[NC][2], nulled[NC], batches, left, opened, plain; static int bno;
static int rdA(con_t *c), wrA(con_t *c), rdB(con_t *c), wrB(con_t *c);
static int whofd(int fd) { for (int i = 0; i < nc; i++) if (C[i].live && C[i].fd == fd) return i; return -1; }
static int h_ctl(int op, int fd, struct epoll_event *e) {
    int i = whofd(fd); if (i < 0) mc_fail("interest in a descriptor that is not open");
    if (op == EPOLL_CTL_ADD ? C[i].reg : !C[i].reg) { errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT; return -1; }
    if (op == EPOLL_CTL_DEL) C[i].reg = 0; else { C[i].reg = 1; C[i].mask = e->events; C[i].ptr = e->data.ptr; }
    return 0;
}
static int h_close(int fd) { int i = whofd(fd); if (i >= 0) { C[i].live = 0; C[i].reg = 0; } return -2; }
static void opt_(int i, int w) { if (ev_opt(C[i].c, w)) mc_fail("the interest of a connection cannot be changed"); C[i].want = w; }
static int open_(void) {
    if (nc >= maxc) return -1;
    int i = nc++; memset(&C[i], 0, sizeof C[i]);
    if (net_alloc(&C[i].c)) mc_fail("no connection");
    C[i].fd = C[i].c->fd = mod_newfd(); C[i].live = 1; C[i].c->ev->read_cb = rdA; C[i].c->ev->write_cb = wrA;
    opt_(i, EV_R | EV_W); mc_note("   open %d (fd %d)", i, C[i].fd);
    return i;
}
static void close_(int i) { con_t *c = C[i].c; mc_note("   close %d", i); net_free(c); if (C[i].live) mc_fail("a closed connection keeps its descriptor"); }
static void swap_(int i) { C[i].alt ^= 1; C[i].c->ev->read_cb = C[i].alt ? rdB : rdA; C[i].c->ev->write_cb = C[i].alt ? wrB : wrA; mc_note("   other handlers for %d", i); }
static void act(int self) {
    if (left <= 0) return;
    int o[NC], no = 0; for (int i = 0; i < nc; i++) if (C[i].live && i != self) o[no++] = i;
    /* own: 1 close, 2 swap, 3 only read, 4 only write, 5 none, 6 drop write handler; 7 open; then per other: close, swap, only read, none, close and open */
    int k = mc_choose(8 + 5 * no, 1, "handler does"); if (!k) return;
    left--;
    if (k == 1) close_(self); else if (k == 2) swap_(self);
    else if (k == 3) opt_(self, EV_R); else if (k == 4) opt_(self, EV_W); else if (k == 5) opt_(self, EV_NONE);
    else if (k == 6) { C[self].c->ev->write_cb = NULL; nulled[self] = 1; }
    else if (k == 7) { if (open_() < 0) mc_prune(); }
    else { int i = o[(k - 8) / 5]; switch ((k - 8) % 5) { case 0: close_(i); break; case 1: swap_(i); break; case 2: opt_(i, EV_R); break; case 3: opt_(i, EV_NONE); break; default: if (nc >= maxc) mc_prune(); close_(i); open_(); } }
}
static void snap(int x) { uint64_t h = mc_mix(bno, x); for (int i = 0; i < nc; i++) { h = mc_mix(h, C[i].live * 1024 + C[i].fd % 32 * 32 + C[i].alt * 16 + pend[i][0] * 4 + pend[i][1] * 2 + nulled[i]); h = mc_mix(h, C[i].reg * C[i].mask); } mc_state(h); }
static int got(con_t *c, int w, int alt) {
    int i = -1; for (int k = 0; k < nc; k++) if (C[k].c == c && C[k].live) i = k;
    if (i < 0) mc_fail("a closed connection gets an event");
    mc_note("   %s event for %d", w ? "write" : "read", i);
    if (C[i].c->fd != C[i].fd) mc_fail("the connection's descriptor changed");
    if (pend[i][w] < 1) mc_fail("connection %d gets a %s event the kernel did not report (or twice)", i, w ? "write" : "read");
    if (C[i].alt != alt) mc_fail("a handler is called that is not installed any more");
    pend[i][w]--; mc_trans(1); mc_outcome(i * 4 + w * 2 + alt); snap(i);
    act(i); mc_outcome(whofd(50) + 20);
    return 0;
}
static int rdA(con_t *c) { return got(c, 0, 0); } static int wrA(con_t *c) { return got(c, 1, 0); } static int rdB(con_t *c) { return got(c, 0, 1); } static int wrB(con_t *c) { return got(c, 1, 1); }
static int h_wait(struct epoll_event *ev, int max, int timeout) {
    int m[NC], n = 0; static const uint32_t M[] = {0, EPOLLIN, EPOLLIN | EPOLLOUT, EPOLLOUT, EPOLLIN | EPOLLHUP | EPOLLRDHUP, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP};
    for (int i = 0; i < nc; i++) if (C[i].live && C[i].reg && C[i].mask & (EPOLLIN | EPOLLOUT)) m[n++] = i;
    for (int i = 0; i < nc; i++) if (C[i].live && C[i].want & ~(C[i].reg ? C[i].mask : 0)) mc_fail("the kernel is not asked for the events connection %d waits for", i);
    int k = 0, perm[NC]; uint32_t f[NC], used = 0;
    int later = bno++; for (int i = 0; i < n; i++) { f[i] = M[later ? mc_choose(3, 0, "reported") : mc_choose(plain ? 4 : 6, 0, "reported")] & (C[m[i]].mask | EPOLLHUP | EPOLLERR); if (!(f[i] & (EPOLLIN | EPOLLOUT))) f[i] = 0; }
    int cnt = 0; for (int i = 0; i < n; i++) cnt += !!f[i];
    if (later) { int rev = cnt > 1 && mc_choose(2, 0, "order"), j = 0; for (int x = 0; x < n; x++) { int y = rev ? n - 1 - x : x; if (f[y]) perm[j++] = y; } }
    else for (int j = 0; j < cnt; j++) { int c = mc_choose(cnt - j, 0, "order"), x; for (x = 0; x < n; x++) if (f[x] && !(used >> x & 1) && !c--) break; used |= 1u << x; perm[j] = x; }
    for (int j = 0; j < cnt && k < max; j++) { int i = m[perm[j]]; ev[k].events = f[perm[j]]; ev[k].data.ptr = C[i].ptr; k++; if (f[perm[j]] & EPOLLIN) pend[i][0]++; if (f[perm[j]] & EPOLLOUT) pend[i][1]++; mc_note("   kernel: %d %s%s", i, f[perm[j]] & EPOLLIN ? "R" : "", f[perm[j]] & EPOLLOUT ? "W" : ""); }
    return k;
}
static void begin(void) {
    mod_begin(); memset(C, 0, sizeof C); memset(pend, 0, sizeof pend); memset(nulled, 0, sizeof nulled); nc = 0; bno = 0;
    systime_update(); timer_init(); if (ev_init()) mc_fail("cannot start"); mod_epoll_hook = h_wait; mod_epollctl_hook = h_ctl; mod_close_hook = h_close;
}
static void batch(void) {
    memset(pend, 0, sizeof pend); for (int i = 0; i < nc; i++) nulled[i] = C[i].live && !C[i].c->ev->write_cb;
    ev_loop(10);
    for (int i = 0; i < nc; i++) if (C[i].live && (pend[i][0] || (pend[i][1] && !nulled[i]))) mc_fail("an event of connection %d is lost", i);
    snap(NC);
}
static void run(long a) {
    int n = a & 15, nb = a >> 4 & 15; begin(); maxc = n + 2 < NC ? n + 2 : NC; left = 9; plain = a >> 8 & 1;
    for (int i = 0; i < n; i++) open_();
    for (int b = 0; b < nb; b++) batch();
    for (int i = 0; i < nc; i++) if (C[i].live) close_(i);
    ev_exit(); timer_end(); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks());
}
/* as many connections as the server supports, all ready at once, in one batch */
static con_t *big[800]; static int bigr[800], bign; static void *bigp[2000]; static int bigfd0;
static int b_rd(con_t *c) { for (int i = 0; i < bign; i++) if (big[i] == c) { bigr[i]++; mc_trans(1); return 0; } mc_fail("an event for no connection"); return 0; }
static int b_wr(con_t *c) { for (int i = 0; i < bign; i++) if (big[i] == c) { bigr[i] += 100; mc_trans(1); return 0; } mc_fail("an event for no connection"); return 0; }
static int b_ctl(int op, int fd, struct epoll_event *e) { if (e) bigp[fd] = e->data.ptr; return 0; }
static int b_kind, bcur;
static int b_wait(struct epoll_event *ev, int max, int t) { int k = 0; for (; bcur < bign && k < max; bcur++) { int i = bcur; ev[k].events = b_kind == 0 ? EPOLLIN : b_kind == 1 ? EPOLLOUT : EPOLLIN | EPOLLOUT; ev[k].data.ptr = bigp[big[i]->fd]; k++; } return k; }
static void many(long a) {
    begin(); bign = 760; b_kind = mc_choose(3, 0, "events"); mod_epoll_hook = b_wait; mod_epollctl_hook = b_ctl; mod_close_hook = NULL;
    for (int i = 0; i < bign; i++) { if (net_alloc(&big[i])) mc_fail("no connection"); big[i]->fd = mod_newfd(); big[i]->ev->read_cb = b_rd; big[i]->ev->write_cb = b_wr; ev_opt(big[i], EV_R | EV_W); bigr[i] = 0; }
    for (int b = 1; b <= 2; b++) { bcur = 0; while (bcur < bign) ev_loop(1); for (int i = 0; i < bign; i++) if (bigr[i] != b * (b_kind == 0 ? 1 : b_kind == 1 ? 100 : 101)) mc_fail("connection %d of %d misses an event or gets one twice", i, bign); mc_state(mc_mix(b, b_kind)); }
    for (int i = 0; i < bign; i++) net_free(big[i]);
    ev_exit(); timer_end(); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks());
}
MOD_REGISTER(C06) {
    int t = mc_thorough();
    mc_add(run, 1 | 3 << 4, t ? 4 : 3, "one connection, three batches");
    mc_add(run, 2 | 2 << 4, 2, "two connections, two batches");
    mc_add(run, 2 | 2 << 4 | 1 << 8, t ? 3 : 2, "two connections, two batches, no errors");
    mc_add(run, 3 | 1 << 4, 2, "three connections, one batch");
    mc_add(run, 3 | 1 << 4 | 1 << 8, t ? 3 : 2, "three connections, one batch, no errors");
    mc_add(run, 3 | 2 << 4 | 1 << 8, t ? 2 : 1, "three connections, two batches");
    mc_add(run, 2 | 3 << 4 | 1 << 8, t ? 2 : 1, "two connections, three batches");
    mc_add(run, 4 | 1 << 4 | 1 << 8, t ? 2 : 1, "four connections, one batch");
    mc_add(many, 0, 0, "760 connections ready at once");
}
