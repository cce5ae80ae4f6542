/* C27: the pool and the ring buffer used by several threads.  The program is compiled with -fsanitize=thread and linked
 * against the hooks below instead of that sanitizer's library, so that every access to memory other than the thread's own
 * stack, every copy and every lock operation is a point at which another thread may go on.  Threads are coroutines;
 * which one goes on is a choice of the explorer, a switch away from a thread that could go on costs one deviation. */
#include "mod.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <pthread.h>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <sanitizer/asan_interface.h>
extern "C" {
int mem_pool_init(void); int mem_pool_free(void *p); void *mem_pool_alloc(int size); void *sys_alloc(int size); void sys_free(void *p);
struct ringbuffer_t_; typedef struct ringbuffer_t_ RB;
int ringbuffer_alloc(RB **rb, int size); void ringbuffer_free(RB *rb); int ringbuffer_push(RB *rb, unsigned char *d, int n); int ringbuffer_pull(RB *rb, int n, unsigned char *d, int *out);
extern int (*mod_lock_hook)(void *m, int op);
}
#define NOSAN __attribute__((no_sanitize("address")))
static const size_t STK = 256 << 10;
struct Th { ucontext_t ctx; char *stk; bool done; void *wait; std::function<void()> body; };
static Th T[3]; static int nt, cur = -1; static ucontext_t mainctx; static long accesses; static std::map<void*, int> *owner;
static bool ready(int i) { return !T[i].done && (!T[i].wait || !owner->count(T[i].wait)); }
static void to(int i) { int me = cur; cur = i; if (me < 0) swapcontext(&mainctx, &T[i].ctx); else if (i < 0) swapcontext(&T[me].ctx, &mainctx); else swapcontext(&T[me].ctx, &T[i].ctx); }
/* a thread's finding is reported from the main stack */
static char badmsg[512];
static void bad(const char *f, ...) { char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); if (cur < 0) mc_fail("%s", b); memcpy(badmsg, b, sizeof b); to(-1); }
static int others(int *o) { int n = 0; for (int i = 0; i < nt; i++) if (i != cur && ready(i)) o[n++] = i; return n; }
/* another thread may go on here */
static void point(void) {
    if (cur < 0) return; accesses++; if (mc_budget() <= 0) return;
    int o[3], n = others(o); if (!n) return;
    int k = mc_choose(n + 1, 1, "switch"); if (k) { mc_note("   thread %d stops, thread %d goes on", cur, o[k - 1]); mc_state(mc_mix(accesses, mc_mix(cur, o[k - 1]))); to(o[k - 1]); }
}
/* this thread cannot go on */
static void away(void) {
    int o[3], n = others(o);
    if (!n) { bool all = true; for (int i = 0; i < nt; i++) if (i != cur && !T[i].done) all = false; if (all && T[cur].done) { to(-1); return; } bad("deadlock: every thread waits for a lock"); }
    to(o[mc_choose(n, 0, "next thread")]);
}
static int lock(void *m, int op) {      /* 0 take, 1 try, 2 give back */
    if (cur < 0) { if (op == 2) owner->erase(m); else { if (owner->count(m)) { if (op == 1) return EBUSY; bad("deadlock: a lock is taken that was never released"); } (*owner)[m] = -2; } return 0; }
    if (op == 2) { owner->erase(m); point(); return 0; }
    point();
    if (op == 1) { if (owner->count(m)) return EBUSY; (*owner)[m] = cur; return 0; }
    while (owner->count(m)) { if ((*owner)[m] == cur) bad("deadlock: a thread takes a lock that it holds already"); T[cur].wait = m; away(); T[cur].wait = nullptr; }
    (*owner)[m] = cur; mc_note("   thread %d has the lock", cur); return 0;
}
static void entry(int i) { T[i].body(); T[i].done = true; away(); }
static void run(const std::vector<std::function<void()>> &b) {
    nt = b.size(); accesses = 0; badmsg[0] = 0; for (auto &t : T) t.done = true;
    for (int i = 0; i < nt; i++) { Th &t = T[i]; if (!t.stk) t.stk = (char*)mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ASAN_UNPOISON_MEMORY_REGION(t.stk, STK); t.done = false; t.wait = nullptr; t.body = b[i]; getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stk; t.ctx.uc_stack.ss_size = STK; t.ctx.uc_link = &mainctx; makecontext(&t.ctx, (void(*)())entry, 1, i); }
    to(mc_choose(nt, 0, "first thread")); cur = -1; mc_trans(accesses); if (badmsg[0]) mc_fail("%s", badmsg);
    for (int i = 0; i < nt; i++) if (!T[i].done) bad("a thread does not end");
    if (!owner->empty()) bad("a lock is held by nobody");
}
static void begin(void) { mod_begin(); static std::map<void*, int> ow; ow.clear(); owner = &ow; cur = -1; nt = 0; mod_lock_hook = lock; }
/* ---- what the compiler calls ---- */
static inline void acc(void *p) { if (cur < 0) return; char *s = T[cur].stk; if ((char*)p >= s && (char*)p < s + STK) return; point(); }
extern "C" {
void __tsan_init(void) {} void __tsan_func_entry(void *) {} void __tsan_func_exit(void *) {}
#define RWN(n) void __tsan_read##n(void *p) { acc(p); } void __tsan_write##n(void *p) { acc(p); } void __tsan_unaligned_read##n(void *p) { acc(p); } void __tsan_unaligned_write##n(void *p) { acc(p); } void __tsan_volatile_read##n(void *p) { acc(p); } void __tsan_volatile_write##n(void *p) { acc(p); } void __tsan_unaligned_volatile_read##n(void *p) { acc(p); } void __tsan_unaligned_volatile_write##n(void *p) { acc(p); }
RWN(1) RWN(2) RWN(4) RWN(8) RWN(16)
void __tsan_read_range(void *p, long) { acc(p); } void __tsan_write_range(void *p, long) { acc(p); }
/* (under names of their own: the compiler has its own idea of the types of these) */
#define AT(r, b, op, ar, body) r vt_##op##b ar __asm__("__tsan_atomic" #b "_" #op); r vt_##op##b ar { acc((void*)p); body }
#define ATN(b, t) AT(t, b, load, (const volatile t *p, int), return __atomic_load_n(p, 5);) AT(void, b, store, (volatile t *p, t v, int), __atomic_store_n(p, v, 5);) AT(t, b, exchange, (volatile t *p, t v, int), return __atomic_exchange_n(p, v, 5);) \
AT(t, b, fetch_add, (volatile t *p, t v, int), return __atomic_fetch_add(p, v, 5);) AT(t, b, fetch_sub, (volatile t *p, t v, int), return __atomic_fetch_sub(p, v, 5);) AT(t, b, fetch_and, (volatile t *p, t v, int), return __atomic_fetch_and(p, v, 5);) AT(t, b, fetch_or, (volatile t *p, t v, int), return __atomic_fetch_or(p, v, 5);) AT(t, b, fetch_xor, (volatile t *p, t v, int), return __atomic_fetch_xor(p, v, 5);) AT(t, b, fetch_nand, (volatile t *p, t v, int), return __atomic_fetch_nand(p, v, 5);) \
AT(bool, b, compare_exchange_strong, (volatile t *p, t *e, t v, int, int), return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);) AT(bool, b, compare_exchange_weak, (volatile t *p, t *e, t v, int, int), return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);) AT(t, b, compare_exchange_val, (volatile t *p, t e, t v, int, int), __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e;)
ATN(8, unsigned char) ATN(16, unsigned short) ATN(32, unsigned) ATN(64, unsigned long)
void vt_fence(int) __asm__("__tsan_atomic_thread_fence"); void vt_fence(int) {} void vt_sfence(int) __asm__("__tsan_atomic_signal_fence"); void vt_sfence(int) {}
/* a copy may be interrupted in the middle */
void *vf_memcpy(void *d, const void *s, size_t n) { acc(d); size_t h = n / 2; memcpy(d, s, h); if (h) acc(d); memcpy((char*)d + h, (const char*)s + h, n - h); return d; }
void *vf_memmove(void *d, const void *s, size_t n) { acc(d); return memmove(d, s, n); }
void *vf_memset(void *d, int c, size_t n) { acc(d); size_t h = n / 2; memset(d, c, h); if (h) acc(d); memset((char*)d + h, c, n - h); return d; }
int vf_pthread_spin_lock(pthread_spinlock_t *m) { return lock((void*)m, 0); } int vf_pthread_spin_trylock(pthread_spinlock_t *m) { return lock((void*)m, 1); } int vf_pthread_spin_unlock(pthread_spinlock_t *m) { return lock((void*)m, 2); }
int vf_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return lock(m, 0); } int vf_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lock(m, 0); } int vf_pthread_rwlock_unlock(pthread_rwlock_t *m) { return lock(m, 2); }
}
/* ---- the pool ---- */
#define AREA ((char *)0x200000000000ull)
static const size_t ASZ = 64u << 20; static size_t bump; static const int SZ[] = {512, 1024, 2048, 4096, 8192, 16384};
struct Var { int fd, cls, left, n; void *blk[8]; void *glob; size_t bump; }; static Var V[16]; static int nv; static bool broken;
static void *h_malloc(size_t n) { bump = (bump + 63) & ~63ul; if (bump + n > ASZ) return NULL; void *p = AREA + bump; bump += n; return p; }
static int h_free(void *p) { return 1; }
static void map_(int fd, int fl) { if (mmap(AREA, ASZ, PROT_READ | PROT_WRITE, fl | MAP_FIXED, fd, 0) != AREA) { perror("mmap"); exit(2); } }
/* class cls with `left` free blocks; the last 8 of the others are remembered.  In a child: the pool's memory is shared, the rest of the process is not touched */
static void prep(int cls, int left) {
    Var &v = V[nv++]; v.cls = cls; v.left = left; v.fd = memfd_create("pool", 0); if (v.fd < 0 || ftruncate(v.fd, ASZ)) { perror("memfd"); exit(2); }
    v.glob = mmap(NULL, mod_gsize(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Sh { int ok, n; void *b[8]; size_t bump; } *sh = (Sh*)mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static int cap[6]; for (int pass = cap[cls] ? 1 : 0; pass < 2; pass++) { int fd = pass ? v.fd : memfd_create("pool", 0); if (!pass && ftruncate(fd, ASZ)) exit(2); sh->ok = sh->n = 0;
        pid_t p = fork(); if (!p) { signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); int e = open("/dev/null", 1); dup2(e, 1); dup2(e, 2); map_(fd, MAP_SHARED); bump = 0; if (mem_pool_init()) _exit(3); void *b; while ((!pass || sh->n < cap[cls] - left) && sh->n < 20000 && (b = mem_pool_alloc(SZ[cls]))) sh->b[sh->n++ & 7] = b; mod_gsave(v.glob); sh->bump = bump; sh->ok = 1; _exit(0); }
        int st; waitpid(p, &st, 0); if (!sh->ok) broken = true; if (!pass) { cap[cls] = sh->n; close(fd); } }
    v.n = 8; memcpy(v.blk, sh->b, sizeof v.blk); v.bump = sh->bump; munmap(sh, sizeof *sh);
    if (nv == 1 && !broken) { map_(v.fd, MAP_PRIVATE); bump = 0; mem_pool_init(); }
}
struct Blk { unsigned char *p; int n; unsigned char c; }; static std::vector<Blk> held; static unsigned char col;
static void check(const Blk &b) { for (int i = 0; i < b.n; i++) if (b.p[i] != b.c) bad("a block in use changed"); }
static bool take(int n, int total, int left, int back, Blk *out) {
    unsigned char *p = (unsigned char*)mem_pool_alloc(n); mc_note("   alloc %d -> %s", n, p ? "block" : "none"); mc_outcome(!!p);
    if (!p) { if (total <= left) bad("a block is refused although never more than %d of %d free blocks were wanted", total, left); return false; }
    for (auto &h : held) if (p < h.p + h.n && h.p < p + n) bad("two threads are given the same block");
    for (int i = 0; i < n; i++) if (p[i]) bad("a block is not zero at byte %d", i);
    memset(p, ++col, n); *out = {p, n, col}; held.push_back(*out); (void)back; return true;
}
static void give(const Blk &b) { check(b); for (size_t i = 0; i < held.size(); i++) if (held[i].p == b.p) { held.erase(held.begin() + i); break; } mc_note("   free"); if (mem_pool_free(b.p)) bad("a pool block is not taken back"); }
static void pool(long a) {
    Var &v = V[a & 15]; int n = a >> 4 & 3; begin(); map_(v.fd, MAP_PRIVATE); mod_gload(v.glob); bump = v.bump; mod_malloc_hook = h_malloc; mod_free_hook = h_free; held.clear(); col = 0; int sz = SZ[v.cls], left = v.left;
    static const char *prog[] = {"a", "f", "af", "fa", "aa", "afa", "A", "Af", "sr", "La"}; int pr[3], total = 0, frees = 0; for (int i = 0; i < n; i++) { pr[i] = mc_choose(10, 0, "program"); if (i && pr[i] < pr[i - 1]) mc_prune(); for (const char *c = prog[pr[i]]; *c; c++) if (*c == 'a') total++; }
    std::vector<std::function<void()>> th; int used = 0; Blk mine[3];
    for (int i = 0; i < n; i++) if (prog[pr[i]][0] == 'f') { mine[i] = {(unsigned char*)v.blk[used++], sz, ++col}; memset(mine[i].p, mine[i].c, sz); held.push_back(mine[i]); frees++; }
    for (int i = 0; i < n; i++) th.push_back([=, &mine]() {
        std::vector<Blk> my; if (prog[pr[i]][0] == 'f') my.push_back(mine[i]); int oth = v.cls ? 512 : 1024;
        for (const char *c = prog[pr[i]]; *c; c++) { Blk b; if (*c == 'a') { if (take(sz, total, left, frees, &b)) my.push_back(b); } else if (*c == 'A') { if (take(oth, 0, 1, 0, &b)) my.push_back(b); } else if (*c == 'L') { if (mem_pool_alloc(20000)) bad("a block larger than the largest class"); }
            else if (*c == 's') { unsigned char *p = (unsigned char*)sys_alloc(96); if (!p) bad("memory of the system is refused"); for (auto &h : held) if (p < h.p + h.n && h.p < p + 96) bad("two threads are given the same memory"); for (int k = 0; k < 96; k++) if (p[k]) bad("memory of the system is not zero"); memset(p, ++col, 96); held.push_back({p, 96, col}); my.push_back(held.back()); }
            else if (*c == 'r') { Blk x = my.back(); my.pop_back(); check(x); for (size_t k = 0; k < held.size(); k++) if (held[k].p == x.p) { held.erase(held.begin() + k); break; } sys_free(x.p); }
            else if (my.size()) { give(my.back()); my.pop_back(); } } });
    run(th); for (auto &h : held) check(h);
    int have = 0; for (auto &h : held) if (h.n == sz) have++; int want = left + used - have;
    for (int i = 0; i <= want; i++) { unsigned char *p = (unsigned char*)mem_pool_alloc(sz); if (!p) { if (i < want) bad("%d blocks are free, only %d can be had", want, i); break; } if (i == want) bad("%d blocks are free, more can be had", want); for (auto &h : held) if (p < h.p + h.n && h.p < p + sz) bad("a block in use is handed out again"); held.push_back({p, sz, 0}); memset(p, 0, sz); }
    mc_state(mc_mix(want, held.size())); mc_outcome(want);
}
/* ---- the ring buffer: the results must be those of some order of the operations ---- */
struct Op { int th; bool push; int n; std::string data; int r = -9; std::string got; long t0 = 0, t1 = 0; };
static long stamp; static std::vector<Op> ops; static int rcap;
static bool fits(const Op &o, std::string &q) { if (o.push) { bool ok = o.n <= rcap - (int)q.size(); if ((o.r == 0) != ok) return false; if (ok) q += o.data; return true; } if (q.empty()) return o.r != 0; int k = std::min<int>(o.n, q.size()); if (o.r != 0 || o.got != q.substr(0, k)) return false; q.erase(0, k); return true; }
static bool lin(std::vector<char> &used, std::string q, size_t k) {
    if (k == ops.size()) return true;
    for (size_t i = 0; i < ops.size(); i++) { if (used[i]) continue; bool first = true; for (size_t j = 0; j < ops.size(); j++) if (!used[j] && j != i && ops[j].t1 < ops[i].t0) first = false; if (!first) continue; std::string q2 = q; if (!fits(ops[i], q2)) continue; used[i] = 1; if (lin(used, q2, k + 1)) return true; used[i] = 0; }
    return false;
}
static RB *rb;
static void doit(Op &o) {
    o.t0 = ++stamp;
    if (o.push) o.r = ringbuffer_push(rb, (unsigned char*)o.data.data(), o.n); else { std::string b(o.n, '!'); int out = -1; o.r = ringbuffer_pull(rb, o.n, (unsigned char*)&b[0], &out); if (o.r == 0) { if (out < 0 || out > o.n) bad("a pull of %d returns %d bytes", o.n, out); o.got = b.substr(0, out); } }
    o.t1 = ++stamp; mc_note("   thread %d %s %d -> %d %s", o.th, o.push ? "push" : "pull", o.n, o.r, o.got.c_str()); mc_outcome(mc_mix(o.r, o.got.size()));
}
static void ring(long a) {
    int n = a & 3, len = a >> 2 & 3, each = a >> 4 & 3; rcap = 4; begin(); stamp = 0; ops.clear(); char nx = 'a'; if (ringbuffer_alloc(&rb, rcap)) bad("no ring buffer");
    auto mk = [&](int th, bool p, int k) { Op o; o.th = th; o.push = p; o.n = k; if (p) for (int i = 0; i < k; i++) o.data += nx++; ops.push_back(o); };
    int off = mc_choose(3, 0, "start"), fill = mc_choose(4, 0, "fill"); if (off) { mk(-1, true, off); doit(ops.back()); mk(-1, false, off); doit(ops.back()); } if (fill) { mk(-1, true, fill); doit(ops.back()); }
    size_t base = ops.size(); static const int sz[] = {1, 3, 2, 4};
    for (int i = 0; i < n; i++) for (int j = 0; j < len; j++) { int k = mc_choose(2 * each, 0, "operation"); mk(i, k < each, sz[k % each]); }
    std::vector<std::function<void()>> th; for (int i = 0; i < n; i++) th.push_back([=]() { for (int j = 0; j < len; j++) doit(ops[base + i * len + j]); });
    run(th);
    for (int i = 0; i < rcap + 1; i++) { mk(-1, false, 1); doit(ops.back()); }
    std::vector<char> used(ops.size(), 0); if (!lin(used, "", 0)) { std::string s; for (auto &o : ops) s += (o.push ? " push(" + o.data : " pull(" + std::to_string(o.n)) + ")=" + (o.r ? "no" : o.push ? "ok" : o.got); bad("no order of the operations gives these results:%s", s.c_str()); }
    uint64_t h = 0; for (auto &o : ops) h = mc_mix(h, o.r * 7 + o.got.size()); mc_state(h); ringbuffer_free(rb);
}
static void cannot(long) { begin(); bad("the pool cannot be set up or filled"); }
MOD_REGISTER(C27) {
    int t = mc_thorough(); begin(); mod_malloc_hook = h_malloc; mod_free_hook = h_free;
    static const int pv[][2] = {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {5, 1}, {2, 2}}; for (auto &p : pv) prep(p[0], p[1]);
    mod_resnap(); if (broken) { mc_add(cannot, 0, 0, "filling the pool"); return; }
    for (int i = 0; i < nv; i++) { mc_add(pool, i | 2 << 4, 3 + t, "pool, %d blocks of %d bytes left, two threads", pv[i][1], SZ[pv[i][0]]); mc_add(pool, i | 3 << 4, 1 + t, "pool, %d blocks of %d bytes left, three threads", pv[i][1], SZ[pv[i][0]]); }
    mc_add(ring, 2 | 1 << 2 | 3 << 4, 4 + t, "ring buffer, two threads, one operation each"); mc_add(ring, 2 | 2 << 2 | 2 << 4, 2 + t, "ring buffer, two threads, two operations each"); mc_add(ring, 3 | 1 << 2 | 2 << 4, 2 + t, "ring buffer, three threads, one operation each");
}
