/* C22: pattern search against a search by comparison */
#include "common.h"
#include "mod.h"
static char P[4][8]; static int pn[4], np; static const char *AL; static int al;
static int word(char *b, int max, const char *what) { int n = 1 + mc_choose(max, 0, what); for (int i = 0; i < n; i++) b[i] = AL[mc_choose(al, 0, "letter")]; return n; }
static int ends(const char *t, int i) { for (int k = 0; k < np; k++) if (i + 1 >= pn[k] && !memcmp(t + i + 1 - pn[k], P[k], pn[k])) return 1; return 0; }
static void feed(ezac_ctx_t *x, const char *t, int from, int to, int *done) {
    if (*done || from >= to) return;
    int want = -1; for (int i = from; i < to; i++) if (ends(t, i)) { want = 0; break; }
    char *b = malloc(to - from); memcpy(b, t + from, to - from); int r = ezac_find(x, b, to - from); free(b); mc_trans(1); mc_outcome(r ? 1 : 2);
    if (!r != !want) mc_fail("%s: patterns %.*s %.*s %.*s, text %.*s, piece %d..%d", r ? "a pattern is missed" : "a match is reported although no pattern ends there", pn[0], P[0], pn[1], P[1], pn[2], P[2], to, t, from, to);
    if (!r) *done = 1;
}
static ezac_ctx_t *build(void) { ezac_ctx_t *x = ezac_init(); if (!x) mc_fail("no matcher"); for (int k = 0; k < np; k++) if (ezac_add(x, P[k], pn[k])) mc_fail("a pattern is refused"); ezac_compiler(x); return x; }
static const char *ALS[] = {"ab", "abc", "\xff\x01", "\x80\x7f\xfe"};
static void pieces(ezac_ctx_t *x, const char *t, int n, int three) {
    for (int i = 0; i <= n; i++) for (int j = three ? i : n; j <= n; j++) { int done = 0; ezac_reset(x); feed(x, t, 0, i, &done); feed(x, t, i, j, &done); feed(x, t, j, n, &done); }
}
/* all pattern sets, all texts: a text per path, all ways to cut it */
static void sets(long a) {
    al = strlen(AL = ALS[a & 3]); np = a >> 2 & 3; int max = a >> 4 & 7, tl = a >> 7 & 15; mod_begin(); memset(P, 0, sizeof P); memset(pn, 0, sizeof pn); char t[16];
    for (int k = 0; k < np; k++) { pn[k] = word(P[k], max, "pattern length"); if (k && (pn[k] < pn[k - 1] || (pn[k] == pn[k - 1] && memcmp(P[k], P[k - 1], pn[k]) < 0)) && a >> 11 & 1) mc_prune(); }
    ezac_ctx_t *x = build(); uint64_t h = np; for (int k = 0; k < np; k++) h = mc_mix(h, mc_hash(7, P[k], pn[k]));
    long tot = 1; for (int i = 0; i < tl; i++) tot *= al;
    for (long v = 0; v < tot; v++) { long w = v; for (int i = 0; i < tl; i++) { t[i] = AL[w % al]; w /= al; } pieces(x, t, tl, a >> 12 & 1); mc_state(mc_mix(h, v)); }
    ezac_free(x); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks());
}
/* a second search after a report or after a reset starts afresh */
static void again(long a) {
    al = 2; AL = "ab"; np = 2; mod_begin(); memset(P, 0, sizeof P); memset(pn, 0, sizeof pn); for (int k = 0; k < 2; k++) pn[k] = word(P[k], 3, "pattern length"); ezac_ctx_t *x = build(); char t[4], u[4]; int n = word(t, 3, "first text"), m = word(u, 3, "second text"), rs = mc_choose(2, 0, "reset");
    int done = 0; ezac_reset(x); feed(x, t, 0, n, &done); if (rs || done) { if (rs) ezac_reset(x); done = 0; feed(x, u, 0, m, &done); } mc_state(mc_mix(mc_hash(7, t, n), mc_hash(7, u, m)));
    ezac_free(x); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks());
}
/* many patterns: n random-looking words of 16 letters, each found, words differing in one letter not found */
static void many(long n) {
    mod_begin(); ezac_ctx_t *x = ezac_init(); char w[17]; int shape = mc_choose(3, 0, "shape");
    for (long i = 0; i < n; i++) { for (int k = 0; k < 16; k++) w[k] = shape == 0 ? (k < 3 ? (i >> (8 * k)) & 255 : 'x') : shape == 1 ? ((k < 14) ? 'x' : (i >> (8 * (k - 14))) & 255) : (i * 2654435761u >> k) & 255; if (ezac_add(x, w, 16)) mc_fail("a pattern is refused"); }
    ezac_compiler(x); mc_trans(n); mc_state(n * 3 + shape);
    for (long i = 0; i < n; i += 1 + n / 50) { for (int k = 0; k < 16; k++) w[k] = shape == 0 ? (k < 3 ? (i >> (8 * k)) & 255 : 'x') : shape == 1 ? ((k < 14) ? 'x' : (i >> (8 * (k - 14))) & 255) : (i * 2654435761u >> k) & 255; ezac_reset(x); if (ezac_find(x, w, 16)) mc_fail("pattern %ld of %ld is missed", i, n); ezac_reset(x); if (!ezac_find(x, w, 15)) mc_fail("a match without the last letter"); }
    ezac_free(x); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks());
}
static void nomem(long a) { /* a pattern that could not be added changes nothing for the others */
    al = 2; AL = "ab"; np = 0; mod_begin(); memset(P, 0, sizeof P); memset(pn, 0, sizeof pn); mod_faults("a"); ezac_ctx_t *x = ezac_init(); if (!x) { if (!mod_injected()) mc_fail("no matcher"); return; }
    for (int k = 0; k < 2; k++) { char b[8]; int n = word(b, 3, "pattern length"); long inj = mod_injected(); if (ezac_add(x, b, n)) { if (inj == mod_injected()) mc_fail("a pattern is refused"); } else { memcpy(P[np], b, n); pn[np++] = n; } }
    if (ezac_compiler(x) && !mod_injected()) mc_fail("no matcher"); mod_faults(""); char t[8]; for (int v = 0; v < 32; v++) { for (int i = 0; i < 5; i++) t[i] = AL[v >> i & 1]; pieces(x, t, 5, 0); mc_state(v); }
    ezac_free(x); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks());
}
#define S(alpha, n, max, tl, sorted, three) (alpha | n << 2 | max << 4 | tl << 7 | sorted << 11 | three << 12)
MOD_REGISTER(C22) {
    int t = mc_thorough();
    mc_add(sets, S(0, 1, 4, 8, 0, 1), 0, "one pattern, two letters"); mc_add(sets, S(0, 2, 4, 8, 0, 1), 0, "two patterns, two letters"); mc_add(sets, S(0, 3, 3, 7, 0, 1), 0, "three patterns, two letters");
    mc_add(sets, S(1, 1, 3, 6, 0, 1), 0, "one pattern, three letters"); mc_add(sets, S(1, 2, 3, 6, 0, 0), 0, "two patterns, three letters"); mc_add(sets, S(2, 2, 3, 6, 0, 1), 0, "two patterns of bytes ff and 01"); mc_add(sets, S(3, 2, 2, 5, 0, 0), 0, "two patterns of bytes 80, 7f and fe");
    mc_add(sets, S(0, 2, 5, 9, 1, 0), 0, "two patterns up to 5 letters"); mc_add(sets, S(0, 3, 4, 8, 1, 0), 0, "three patterns up to 4 letters");
    if (t) { mc_add(sets, S(1, 3, 3, 6, 1, 0), 0, "three patterns, three letters"); mc_add(sets, S(0, 2, 6, 10, 1, 0), 0, "two patterns up to 6 letters"); mc_add(sets, S(0, 3, 5, 9, 1, 0), 0, "three patterns up to 5 letters"); }
    mc_add(again, 0, 0, "a second search"); mc_add(nomem, 0, 2, "no memory"); mc_add(many, 100, 0, "100 patterns"); mc_add(many, 900, 0, "900 patterns");
}
