/* C17: the ring buffer against a queue of bytes */
#include "common.h"
#include "mod.h"
static unsigned char Q[64], seq; static int qn; static ringbuffer_t *rb; static int cap;
static void chk(void) { if (ringbuffer_getlen(rb) != qn) mc_fail("fill level %d, %d bytes were pushed and not pulled", ringbuffer_getlen(rb), qn); if (ringbuffer_getfree(rb) != cap - qn) mc_fail("free space %d of %d with %d bytes inside", ringbuffer_getfree(rb), cap, qn); mc_trans(1); }
static void push(int n) {
    unsigned char *b = malloc(n); for (int i = 0; i < n; i++) b[i] = ++seq;
    int r = ringbuffer_push(rb, b, n); mc_note("   push %d -> %d", n, r);
    if (!r) { if (n > cap - qn) { free(b); mc_fail("%d bytes are taken with room for %d", n, cap - qn); } memcpy(Q + qn, b, n); qn += n; } else if (n <= cap - qn) { free(b); mc_fail("%d bytes are refused with room for %d", n, cap - qn); }
    free(b); mc_outcome(r == 0); chk();
}
static void pull(int n) {
    unsigned char *b = malloc(n + 1), e[64]; memset(b, 0xee, n + 1); int out = -7, r = ringbuffer_pull(rb, n, b, &out), bad = 0, en = qn < n ? qn : n; mc_note("   pull %d -> %d (%d)", n, r, out);
    memcpy(e, Q, en);
    for (int i = 0; !r && i < out && i < n; i++) bad |= i >= en || b[i] != e[i];
    bad |= b[n] != 0xee; free(b);
    if (r) { if (qn) mc_fail("a pull is refused with %d bytes inside", qn); } else { if (!qn) mc_fail("a pull from an empty buffer succeeds"); if (out != en) mc_fail("a pull of %d with %d bytes inside returns %d", n, qn, out); if (bad) mc_fail("other bytes are pulled than were pushed"); memmove(Q, Q + out, qn - out); qn -= out; }
    mc_outcome(out); chk();
}
static void begin(int c) { mod_begin(); qn = 0; seq = 0; cap = c; if (ringbuffer_alloc(&rb, c)) mc_fail("no ring buffer"); chk(); }
static void end(void) { while (qn) pull(1); pull(1); ringbuffer_free(rb); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks()); }
static void hist(long a) {
    int c = a & 31, len = a >> 5, at = 0; begin(c);
    for (int i = 0; i < len; i++) { int k = mc_choose(2 * c + 2, 0, "operation"); if (k <= c) { int q0 = qn; push(k + 1); (void)q0; } else { int q0 = qn; pull(k - c); at = (at + q0 - qn) % c; } mc_state(mc_mix(c, at * 64 + qn)); }
    end();
}
/* every start position and fill level, then every operation sequence */
static void wrapped(long a) {
    int c = a & 31, len = a >> 5 & 15; begin(c); int off = mc_choose(c, 0, "start"), one = mc_choose(2, 0, "in one piece"), f;
    if (off) { if (one) { push(off); pull(off); } else for (int i = 0; i < off; i++) { push(1); pull(1); } }
    f = mc_choose(c + 1, 0, "fill"); if (f) push(f);
    for (int i = 0; i < len; i++) { int k = mc_choose(2 * c + 2, 0, "operation"); if (k <= c) push(k + 1); else pull(k - c); mc_state(mc_mix(mc_mix(c, off), i * 64 + qn)); }
    end();
}
static void allocs(long a) { mod_begin(); mod_faults("a"); ringbuffer_t *r = NULL; int x = ringbuffer_alloc(&r, 1 + mc_choose(40, 0, "size")); if (!x) { if (!r) mc_fail("no buffer"); ringbuffer_free(r); } if (mod_blocks()) mc_fail("a block is left"); mc_outcome(x); mc_trans(1); mc_state(!!x); }
MOD_REGISTER(C17) {
    int t = mc_thorough();
    for (int c = 1; c <= 8; c++) { int len = c == 1 ? 10 : c == 2 ? 7 : c == 3 ? 6 : c <= 6 ? 5 : 4; if (t) len++; mc_add(hist, c | len << 5, 0, "capacity %d, histories of %d operations", c, len); mc_add(wrapped, c | (c < 5 ? 4 : 3) + t << 5, 0, "capacity %d, every start and fill level", c); }
    mc_add(allocs, 0, 1, "allocation fails");
}
