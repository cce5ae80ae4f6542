/* C07: timers against a set of deadlines */
#include "common.h"
#include "mod.h"
#define NT 8
static ev_timer_t T[NT]; static long long dead[NT]; static int armed[NT]; static long long now; static int ran[NT], order[64], norder; static long long last; static int depth_cb, mode, left;
static void arm(int t, int d); static void cancel(int t);
static void fire(void *data) {
    int t = (ev_timer_t *)data - T;
    if (t < 0 || t >= NT) mc_fail("a callback got the data of no timer");
    if (!armed[t]) mc_fail("timer %d runs although it is not armed", t);
    if (dead[t] > now) mc_fail("timer %d runs %lld ms early", t, dead[t] - now);
    for (int i = 0; i < NT; i++) if (armed[i] && dead[i] < dead[t]) mc_fail("timer %d (deadline %lld) runs before timer %d (deadline %lld)", t, dead[t], i, dead[i]);
    armed[t] = 0; ran[t]++; mc_outcome(t + 1);
    mc_note("   timer %d runs at %lld", t, now);
    if (mode && left > 0) { /* what the callback does */
        int n = mode == 1 ? 3 : 4, k = mc_choose(1 + 3 * n, 0, "callback");
        if (k) { left--; k--; int x = k % n, w = k / n; if (w == 0) arm(x, 1); else if (w == 1) cancel(x); else arm(x, 0); }
    }
}
static void arm(int t, int d) { mc_note("   arm %d +%d", t, d); int r = tm_add(&T[t], fire, &T[t], d); if (r) mc_fail("arming timer %d fails although the queue is not full", t); armed[t] = 1; dead[t] = now + d; }
static void cancel(int t) { mc_note("   cancel %d", t); tm_del(&T[t]); armed[t] = 0; }
static void poll_(void) {
    int wait = -12345; systime_update(); timer_expire(&wait);
    long long next = -1;
    for (int i = 0; i < NT; i++) if (armed[i]) { if (dead[i] <= now) mc_fail("timer %d is due since %lld ms and was not run", i, now - dead[i]); if (next < 0 || dead[i] < next) next = dead[i]; }
    if (next >= 0 && (wait > next - now)) mc_fail("the event loop would sleep %d ms although a timer is due in %lld ms", wait, next - now);
    if (next >= 0 && wait < 0) mc_fail("the event loop would sleep forever although a timer is armed");
}
static void state(void) { uint64_t h = mode; for (int i = 0; i < NT; i++) h = mc_mix(h, armed[i] ? dead[i] - now + 3 : 1); mc_state(h); mc_trans(1); }
static void advance(int d) { now += d; mod_set_ms(now); mc_note("   +%d ms", d); poll_(); }
static void begin(void) { mod_begin(); memset(T, 0, sizeof T); memset(armed, 0, sizeof armed); memset(ran, 0, sizeof ran); memset(dead, 0, sizeof dead); now = 0; mode = 0; left = 0; systime_update(); timer_init(); }
static void finish(void) { /* everything still armed runs in the end */
    for (int i = 0; i < 40; i++) { int any = 0; for (int k = 0; k < NT; k++) any |= armed[k]; if (!any) break; advance(1); }
    for (int k = 0; k < NT; k++) if (armed[k]) mc_fail("timer %d never runs", k);
    timer_end(); if (mod_blocks()) mc_fail("%ld blocks are left after the end", mod_blocks());
}
/* every history over n timers; delays 0..nd-1 */
static void hist(long a) {
    int n = a & 15, nd = a >> 4 & 15, len = a >> 8 & 15; mode = 0; begin();
    for (int i = 0; i < len; i++) {
        int k = mc_choose(n * nd + n + 2, 0, "operation");
        if (k < n * nd) arm(k % n, 1 + k / n); else if (k < n * nd + n) cancel(k - n * nd); else advance(1 + k - n * nd - n);
        state();
    }
    finish();
}
/* every arrival order of n deadlines, then every cancellation of up to c of them (and re-arming), all run in order */
static void shapes(long a) {
    int n = a & 15, c = a >> 4 & 15, re = a >> 8 & 1; begin(); int used = 0;
    for (int i = 0; i < n; i++) { int k = mc_choose(n - i, 0, "next deadline"), d = 0; for (d = 0; d < n; d++) if (!(used >> d & 1) && !k--) break; used |= 1 << d; arm(i, 1 + d); }
    state();
    for (int i = 0; i < c; i++) { int k = mc_choose(n, 0, "cancel"); cancel(k); state(); }
    if (re) { int k = mc_choose(n, 0, "re-arm"); arm(k, 1 + mc_choose(n, 0, "delay")); state(); }
    finish();
}
/* callbacks that arm and cancel others */
static void cbs(long a) {
    int n = a & 15, l = a >> 4 & 15; begin(); mode = n == 3 ? 1 : 2; left = l;
    for (int i = 0; i < n; i++) { int k = mc_choose(3, 0, "delay"); if (k) arm(i, k); }
    for (int i = 0; i < 5; i++) { advance(1); state(); }
    finish();
}
/* equal deadlines, and deadlines over a long time with jumps of the clock */
static void jumps(long a) {
    static const int D[] = {1, 200, 201, 5000, 1800000, 0x7fffffff}; int n = a; begin();
    for (int i = 0; i < n; i++) arm(i, D[mc_choose(6, 0, "delay")]);
    for (int i = 0; i < 3; i++) { static const long long J[] = {0, 1, 199, 5000, 1800001, 0x80000000ll}; long long j = J[mc_choose(6, 0, "jump")]; now += j; mod_set_ms(now); poll_(); state(); }
    timer_end();
}
/* deadlines on both sides of moments at which the clock in milliseconds passes a power of two */
static void around(long a) {
    static const long long M[] = {466ll << 31, 467ll << 31, 1ll << 40, 500ll << 31, 501ll << 31, 1ll << 41}; int n = a; begin();
    long long base = 1000000000000ll, m = M[mc_choose(6, 0, "moment")]; now = m - base - 3; mod_set_ms(now); systime_update(); poll_();
    int used = 0; for (int i = 0; i < n; i++) arm(i, 1 + mc_choose(6, 0, "delay"));
    int k = mc_choose(n + 1, 0, "cancel"); if (k) cancel(k - 1); state();
    k = mc_choose(n + 1, 0, "re-arm"); if (k) arm(k - 1, 4); state(); finish(); (void)used;
}
/* a queue that is full */
static int fran[20001]; static ev_timer_t *FT;
static void ffire(void *d) { fran[(ev_timer_t *)d - FT]++; }
static void full(long a) {
    begin(); int cap = 0; ev_timer_t *F = calloc(20001, sizeof(ev_timer_t)); static ev_timer_t *keep; free(keep); keep = FT = F; memset(fran, 0, sizeof fran); long long base = 1000;
    while (cap < 20000 && tm_add(&F[cap], ffire, &F[cap], base + cap) == 0) cap++;
    if (cap < 700) mc_fail("only %d timers can be armed", cap);      /* a timer for every connection */
    mc_outcome(cap);
    /* F[cap] could not be armed.  T[0] is armed instead of one of the others */
    int did = 0;
    for (int i = 0; i < a; i++) {
        int k = mc_choose(7, 0, "operation");
        if (k == 0) { tm_del(&F[cap]); }                                   /* cancel the one that is not armed */
        if (k == 1 && cap < 20000) { if (tm_add(&F[cap], ffire, &F[cap], 1) == 0 && !did) mc_fail("a full queue takes one more"); else if (did) mc_prune(); }
        if (k == 2) { tm_del(&F[5]); did++; arm(0, 1); if (did > 1) mc_prune(); }
        if (k == 3) { int r = tm_add(&F[7], ffire, &F[7], base + 7 - now); if (r) mc_fail("re-arming an armed timer fails in a full queue"); }
        if (k == 4) advance(1);
        if (k == 5) { if (armed[0]) cancel(0); }
        if (k == 6) { tm_del(&F[cap - 1]); tm_add(&F[cap - 1], ffire, &F[cap - 1], base + cap - 1 - now); }
        mc_trans(1); mc_state(mc_mix(k, now * 2 + armed[0]));
    }
    advance(900 - now > 0 ? 900 - now : 0);
    /* all the others are still armed: the wait time moves with the first of them, and none is left at the end */
    int wait; now = base - 1; mod_set_ms(now); systime_update(); timer_expire(&wait); if (wait > 1) mc_fail("the nearest timer is due in 1 ms but the event loop would sleep %d ms", wait);
    now = base + cap + 1000; mod_set_ms(now); systime_update(); timer_expire(&wait);
    for (int i = 0; i <= cap; i++) { int want = i < cap && !(i == 5 && did); if (fran[i] != want) mc_fail("timer %d of %d runs %d times, not %d", i, cap, fran[i], want); }
    timer_end();
}
MOD_REGISTER(C07) {
    int t = mc_thorough();
    mc_add(hist, 3 | 2 << 4 | (t ? 7 : 6) << 8, 0, "histories of 3 timers, 2 delays"); mc_add(hist, 2 | 3 << 4 | (t ? 8 : 6) << 8, 0, "histories of 2 timers, 3 delays"); mc_add(hist, 4 | 3 << 4 | (t ? 5 : 4) << 8, 0, "histories of 4 timers, 3 delays");
    for (int n = 4; n <= 8; n++) { mc_add(shapes, n | 1 << 4, 0, "%d timers, one cancelled", n); if (n < 8 || t) mc_add(shapes, n | 2 << 4, 0, "%d timers, two cancelled", n); if (n < 7 || t) mc_add(shapes, n | 0x101 << 4 & 0 | 1 << 4 | 1 << 8, 0, "%d timers, one cancelled, one re-armed", n); }
    mc_add(cbs, 3 | 2 << 4, 0, "callbacks, 3 timers, 2 actions"); mc_add(cbs, 4 | (t ? 3 : 2) << 4, 0, "callbacks, 4 timers"); mc_add(cbs, 3 | 3 << 4, 0, "callbacks, 3 timers, 3 actions");
    mc_add(jumps, 2, 0, "long delays and clock jumps, 2 timers"); mc_add(jumps, 3, 0, "long delays and clock jumps, 3 timers");
    mc_add(around, 3, 0, "clock passing a power of two, 3 timers"); mc_add(around, 4 + t, 0, "clock passing a power of two, %d timers", 4 + t);
    for (int n = 1; n <= (t ? 4 : 3); n++) mc_add(full, n, 0, "full queue, %d operations", n);
}
