/* C08: the block pool, with its memory in an area that is reset before every history */
#define _GNU_SOURCE
#include "common.h"
#include "mod.h"
#include <sys/mman.h>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#define AREA ((char *)0x200000000000ull)
#define ASZ  (64u << 20)
#define NREG 20000
struct reg { size_t at, n; };
static size_t bump; static const int SZ[] = {512, 1024, 2048, 4096, 8192, 16384};
static struct var { int fd, cls, free_; void **blk; int n; void *glob; size_t bump; int nreg; struct reg *reg; } V[20]; static int nv, cap[6];
static struct reg reg_[NREG]; static int nreg;
static void *h_malloc(size_t n) { bump = (bump + 63) & ~63ul; if (bump + n > ASZ || nreg == NREG) return NULL; void *p = AREA + bump; reg_[nreg].at = bump; reg_[nreg++].n = n; bump += n; return p; }
static int h_free(void *p) { if ((char *)p < AREA || (char *)p >= AREA + ASZ) mc_fail("something is freed that was not allocated"); return 1; }
static void map_(int fd, int fl) { if (mmap(AREA, ASZ, PROT_READ | PROT_WRITE, fl | MAP_FIXED, fd, 0) != AREA) { perror("mmap"); exit(2); } }
/* class cls filled up to free_ blocks; cls -1: nothing allocated.  Done in a child: what goes wrong there is a finding, not the end of the check */
struct shared { int n, ok; void *blk[20000]; size_t bump; int nreg; struct reg reg[NREG]; }; static int broken;
static int inchild(struct shared *sh, int fd, int cls, int limit, void *glob) {
    pid_t p = fork();
    if (!p) { signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); int e = open("/dev/null", 1); dup2(e, 2); dup2(e, 1); map_(fd, MAP_SHARED); bump = 0; nreg = 0; if (mem_pool_init()) _exit(3); void *b; sh->n = 0; while (cls >= 0 && sh->n < limit && (b = mem_pool_alloc(SZ[cls]))) sh->blk[sh->n++] = b; mod_gsave(glob); sh->bump = bump; sh->nreg = nreg; memcpy(sh->reg, reg_, sizeof reg_); sh->ok = 1; _exit(0); }
    int st; waitpid(p, &st, 0); return sh->ok;
}
static void prep(int cls, int free_) {
    struct var *v = &V[nv++]; v->cls = cls; v->free_ = free_; v->fd = memfd_create("pool", 0); if (v->fd < 0 || ftruncate(v->fd, ASZ)) { perror("memfd"); exit(2); }
    v->glob = mmap(NULL, mod_gsize(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);      /* what the pool keeps outside of its blocks */
    struct shared *sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (cls >= 0 && !cap[cls]) { int fd = memfd_create("pool", 0); if (ftruncate(fd, ASZ)) exit(2); inchild(sh, fd, cls, 20000, v->glob); cap[cls] = sh->n; close(fd); }   /* crashes when used up: the number before */
    sh->ok = 0; sh->n = 0;
    if (!inchild(sh, v->fd, cls, cls < 0 ? 0 : cap[cls] - free_, v->glob)) broken = 1;
    v->n = sh->n; v->blk = malloc(sizeof sh->blk); memcpy(v->blk, sh->blk, sizeof sh->blk); v->bump = sh->bump; v->nreg = sh->nreg; v->reg = malloc(sizeof sh->reg); memcpy(v->reg, sh->reg, sizeof sh->reg); munmap(sh, sizeof *sh);
    if (nv == 1 && !broken) { map_(v->fd, MAP_PRIVATE); bump = 0; nreg = 0; mem_pool_init(); }      /* the globals every other path starts with */
}
static struct { char *p; int n; unsigned char c; } L[40]; static int nl; static struct var *cur; static unsigned char col;
static void verify(const char *when) { for (int i = 0; i < nl; i++) { unsigned char *p = (void *)L[i].p; for (int k = 0; k < L[i].n; k++) if (p[k] != L[i].c) mc_fail("%s: a block in use changed at byte %d of %d", when, k, L[i].n); } }
static int clsof(int n) { for (int i = 0; i < 6; i++) if (n <= SZ[i]) return i; return 6; }
static int used(int c) { int u = cur->cls == c ? cur->n : 0; for (int i = 0; i < nl; i++) u += clsof(L[i].n) == c; return u; }
static int alloc_(int n) {
    char *p = mem_pool_alloc(n); int c = clsof(n); mc_note("   alloc %d -> %s", n, p ? "block" : "none"); mc_outcome(p ? c : 9);
    if (!p) { if (c < 6 && (!cap[c] || used(c) < cap[c])) mc_fail("a block of %d bytes is refused although only %d of %d such blocks are in use", n, used(c), cap[c]); return 0; }
    int in = 0; for (int i = 0; i < nreg; i++) if (p >= AREA + reg_[i].at && p + n <= AREA + reg_[i].at + reg_[i].n) in = 1;
    if (!in) mc_fail("a block of %d bytes is not inside the pool's memory", n);
    for (int k = 0; k < n; k++) if (p[k]) mc_fail("a block of %d bytes is not zero at byte %d", n, k);
    for (int i = 0; i < nl; i++) if (p < L[i].p + L[i].n && L[i].p < p + n) mc_fail("two blocks in use overlap");
    if (cur->cls >= 0) for (int i = 0; i < cur->n; i++) { char *q = cur->blk[i]; if (p < q + SZ[cur->cls] && q < p + n) mc_fail("a block is handed out that is in use"); }
    memset(p, ++col, n); L[nl].p = p; L[nl].n = n; L[nl++].c = col; verify("after an allocation"); return 1;
}
static void free_(int i) { mc_note("   free %d", i); if (mem_pool_free(L[i].p)) mc_fail("a pool block is not taken back"); L[i] = L[--nl]; verify("after a release"); }
static char junk[256];
static void begin(struct var *v) { mod_begin(); cur = v; map_(v->fd, MAP_PRIVATE); mod_gload(v->glob); bump = v->bump; nreg = v->nreg; memcpy(reg_, v->reg, nreg * sizeof *reg_); nl = 0; col = 0; cap[0] = cap[0]; mod_malloc_hook = h_malloc; mod_free_hook = h_free; memset(junk, 0, sizeof junk); v->n = v->n; }
static void fin(int more) { /* what is free can be had: at least that many blocks */
    while (nl) free_(nl - 1);
    if (cur->cls < 0) return;
    int c = cur->cls, f = cap[c] - cur->n; if (more < f) f = more;
    for (int i = 0; i < f && i < 30; i++) alloc_(SZ[c]);
}
static int keepn;
static void hist(long a) {
    struct var *v = &V[a & 31]; int len = a >> 5 & 15; struct var loc = *v; begin(v); cur = &loc; keepn = loc.n;
    int c = v->cls < 0 ? a >> 9 & 7 : v->cls, lo = c ? SZ[c - 1] : 0, oth = c ? 0 : 1;
    for (int i = 0; i < len; i++) {
        int pre = loc.n > 0, k = mc_choose(7 + 2 * pre + nl, 0, "operation");
        if (k == 0) alloc_(SZ[c]); else if (k == 1) alloc_(lo + 1); else if (k == 2) alloc_(SZ[c] - 1); else if (k == 3) alloc_(SZ[c] + 1); else if (k == 4) alloc_(SZ[oth]);
        else if (k == 5) { if (!mem_pool_free(junk + 128)) mc_fail("the release of something that is not a pool block is accepted"); for (int j = 0; j < (int)sizeof junk; j++) if (junk[j]) mc_fail("the release of something else writes to it"); }
        else if (k == 6) { if (nl) { if (!mem_pool_free(L[0].p + 64)) mc_fail("the release of the middle of a block is accepted"); verify("after a wrong release"); } else mc_prune(); }
        else if (k - 7 < nl) free_(k - 7);
        else { int w = k - 7 - nl; void *p; if (w == 0) { p = loc.blk[--loc.n]; } else { if (loc.n < 2) mc_prune(); p = loc.blk[0]; loc.blk++; loc.n--; } if (mem_pool_free(p)) mc_fail("a pool block is not taken back"); verify("after a release"); }
        mc_trans(1); mc_state(mc_mix(mc_mix(a, nl), mc_mix(cap[c] - loc.n, nl ? L[nl - 1].n : 0)));
    }
    fin(6);
}
/* a whole class is used up and given back, twice */
static void whole(long c) {
    struct var *v = &V[0], loc = *v; begin(v); cur = &loc; int n = 0; static void *b[20000]; void *p; int order = mc_choose(3, 0, "order of release");
    for (int round = 0; round < 2; round++) {
        n = 0; while (n < 20000 && (p = mem_pool_alloc(SZ[c]))) { for (int k = 0; k < SZ[c]; k++) if (((char *)p)[k]) mc_fail("a block is not zero"); memset(p, 1 + n % 251, SZ[c]); b[n++] = p; }
        if (n < cap[c]) mc_fail("only %d of %d blocks can be had again", n, cap[c]);
        for (int i = 0; i < n; i++) for (int k = 0; k < SZ[c]; k++) if (((unsigned char *)b[i])[k] != 1 + i % 251) mc_fail("block %d changed", i);
        for (int o = 0; o < 6; o++) if (o != c && (p = mem_pool_alloc(SZ[o])) == NULL) mc_fail("blocks of %d bytes are refused because those of %d bytes are used up", SZ[o], SZ[c]); else if (o != c) mem_pool_free(p);
        for (int i = 0; i < n; i++) { int k = order == 0 ? i : order == 1 ? n - 1 - i : (int)((i * 7ll) % n); if (order == 2 && n % 7 == 0) k = i ^ 1; if (k < n && mem_pool_free(b[k])) mc_fail("a pool block is not taken back"); }
        mc_trans(2 * n); mc_state(mc_mix(c, round));
    }
}
/* every size */
static void sizes(long a) {
    struct var *v = &V[0], loc = *v; begin(v); cur = &loc; int lo = a * 2048 + 1;
    for (int n = lo; n < lo + 2048; n++) { if (n > 16390) break; nl = 0; col = 0; int ok = alloc_(n); if (!ok && n <= 16384) mc_fail("a block of %d bytes is refused", n); if (ok) { char *p = L[0].p; char *q = mem_pool_alloc(n); if (q && q < p + n && p < q + n) mc_fail("two blocks of %d bytes overlap", n); if (q) { memset(q, 9, n); verify("second block"); mem_pool_free(q); } free_(0); } mc_trans(2); mc_state(mc_mix(77, n)); }
}
static void cannot(long a) { mod_begin(); mc_fail("the pool cannot be set up or filled"); }
MOD_REGISTER(C08) {
    int t = mc_thorough();
    mod_begin(); mod_malloc_hook = h_malloc; mod_free_hook = h_free;
    prep(-1, 0); for (int c = 0; c < 6; c++) { prep(c, 0); prep(c, 1); prep(c, 2); }
    mod_resnap();
    if (broken) { mc_add(cannot, 0, 0, "filling the pool"); return; }
    for (int c = 0; c < 6; c++) { mc_add(hist, 0 | (t ? 6 : 5) << 5 | c << 9, 0, "empty pool, blocks of %d bytes", SZ[c]); for (int f = 0; f < 3; f++) mc_add(hist, (1 + c * 3 + f) | (t ? 6 : 5) << 5, 0, "blocks of %d bytes used up but for %d", SZ[c], f); mc_add(whole, c, 0, "all blocks of %d bytes", SZ[c]); }
    for (int i = 0; i <= 8; i++) mc_add(sizes, i, 0, "every size from %d", i * 2048 + 1);
}
