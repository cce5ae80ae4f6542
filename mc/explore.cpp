/* Stateless exhaustive explorer.
 *
 * A scenario is a deterministic function of the answers it gets from mc_choose().  A path is identified by
 * its non-default answers (position, option).  Starting from the all-default path, every executed path
 * spawns one child per alternative at positions after its last deviation, as long as the summed cost of the
 * deviations stays within the bound: every choice sequence within the bound is executed exactly once.
 * Paths are distributed over worker processes; each worker's stack and current path live in shared memory,
 * so that a path that crashes or hangs its worker is known, and exploration can be resumed by a new worker.
 */
#include "explore.h"
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <pthread.h>
#include <string>
#include <vector>
#include <atomic>
#include <sanitizer/asan_interface.h>

#define MAXDEV_REC 62
#define MAXPOS 60000
#define NW_MAX 16
#define STACK_MAX 400000
#define SHQ_MAX 4096

struct Dev { uint32_t pos; uint16_t opt, n; };
struct Task { uint16_t scn; uint16_t nd; uint16_t used; uint16_t pad; Dev d[MAXDEV_REC]; };
struct Scn { std::string name; mc_fn fn; long arg; int maxdev; };
struct ScnStat { std::atomic<long> execs, pruned; std::atomic<long> choices; };

struct Slot {
    volatile int busy;            /* executing cur */
    volatile int alive;
    volatile long nexec;          /* heartbeat */
    Task cur;
    long sp;
    Task *stack;
};
struct Shared {
    pthread_mutex_t mu;
    int qn;                       /* shared queue */
    std::atomic<int> stop;
    std::atomic<int> idle;
    std::atomic<long> execs, trans, pruned, merged, nstates, noutcomes, known;
    std::atomic<long> tableful;
    int nsample; char sample[8][400];
    int nfail; struct { Task t; int kind; char msg[2000]; } fail[4];
    Slot slot[NW_MAX];
    Task q[SHQ_MAX];
};

static std::vector<Scn> g_scn;
static ScnStat *g_stat;
static Shared *S;
static uint64_t *g_states, *g_outs, *g_seen; static int g_noseen; static const size_t ST_N = 1u << 25, OUT_N = 1u << 20;
static int g_nw = 8, g_thorough, g_bound;
static const char *g_prop = "C00";
static std::vector<std::string> g_known;
int mc_verbose; static FILE *g_notef;

/* ---- current path ---- */
static Task *c_task; static int c_nd; static uint32_t c_pos; static int c_used;
static uint16_t c_n[MAXPOS]; static uint8_t c_cost[MAXPOS]; static const char *c_tag[MAXPOS];
static sigjmp_buf c_jmp; static int c_result; static char c_msg[2000]; static int c_bound;
static uint64_t c_outcome;

static void *shmem(size_t n) { void *p = mmap(0, n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3);} return p; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }

extern "C" {
uint64_t mc_hash(uint64_t h, const void *p, size_t n) {
    const unsigned char *b = (const unsigned char*)p; 
    while (n >= 8) { uint64_t v; __builtin_memcpy(&v, b, 8); h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 31; b += 8; n -= 8; }
    while (n--) h = (h ^ *b++) * 0x100000001b3ull;
    return h ^ (h >> 32);
}
void mc_add(mc_fn fn, long arg, int maxdev, const char *fmt, ...) {
    char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    g_scn.push_back({b, fn, arg, maxdev});
}
int mc_thorough(void) { return g_thorough; }
int mc_budget(void) { return c_bound - c_used; }
int mc_choose(int n, int cost, const char *tag) {
    if (n <= 1) return 0;
    if (n > 65535) { fprintf(stderr, "mc_choose: n=%d\n", n); _exit(99); }
    if (c_pos >= MAXPOS) { fprintf(stderr, "path too long\n"); _exit(99); }
    uint32_t p = c_pos++;
    c_n[p] = n; c_cost[p] = cost; c_tag[p] = tag;
    int r = 0;
    if (c_nd < c_task->nd && c_task->d[c_nd].pos == p) {
        if (c_task->d[c_nd].n != n) { fprintf(stderr, "NONDETERMINISM at %u tag %s: %d options, recorded %d (scenario %s)\n", p, tag, n, c_task->d[c_nd].n, g_scn[c_task->scn].name.c_str()); _exit(98); }
        r = c_task->d[c_nd].opt; c_nd++; c_used += cost;
    }
    if (mc_verbose && r) mc_note("    [choice %u %s = %d of %d]", p, tag, r, n);
    return r;
}
void mc_fail(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(c_msg, sizeof c_msg, fmt, ap); va_end(ap);
    for (char *p = c_msg; *p; p++) if ((*p < ' ' && *p != '\n') || *p > '~') *p = '?';
    c_result = 1; siglongjmp(c_jmp, 1);
}
void mc_prune(void) { c_result = 2; siglongjmp(c_jmp, 1); }
void mc_done(void) { c_result = 0; siglongjmp(c_jmp, 1); }
static bool table_add(uint64_t *t, size_t N, uint64_t h) {
    if (!h) h = 1;
    size_t i = (h * 0x9e3779b97f4a7c15ull) & (N - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (N - 1)) {
        uint64_t v = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
        if (v == h) return false;
        if (!v) { uint64_t e = 0; if (__atomic_compare_exchange_n(&t[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (e == h) return false; }
    }
    S->tableful++; return false;
}
void mc_state(uint64_t h) { if (table_add(g_states, ST_N, h)) S->nstates++; }
void mc_seen(uint64_t key) {
    if (g_noseen || c_nd < c_task->nd) return;         /* still on the way to the last deviation */
    key = mc_mix(mc_mix(key, c_task->scn + 1), c_bound * 256 + c_used); long f = S->tableful;
    if (!table_add(g_seen, ST_N, key) && S->tableful == f) { S->merged++; mc_prune(); }
}
void mc_trans(long n) { S->trans += n; }
void mc_outcome(uint64_t h) { c_outcome = mc_mix(c_outcome, h); }
void mc_note(const char *fmt, ...) {
    if (!mc_verbose || !g_notef) return;
    va_list ap; va_start(ap, fmt); static char b[8192]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); for (char *p = b; *p; p++) if ((*p < ' ' && *p != '\n') || *p > '~') *p = '?'; fputs(b, g_notef); fputc('\n', g_notef); fflush(g_notef);
}
const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=16:max_redzone=64:abort_on_error=0:print_legend=0:handle_segv=1:use_sigaltstack=1"; }
const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=77"; }
}

/* returns 0 ok, 1 failed, 2 pruned */
static int execute(Task *t, int bound) {
    c_task = t; c_nd = 0; c_pos = 0; c_used = 0; c_bound = bound; c_result = 0; c_outcome = 0;
    if (sigsetjmp(c_jmp, 0) == 0) g_scn[t->scn].fn(g_scn[t->scn].arg);
    int r = c_result;
    mc_cleanup();
    if (r != 1 && c_nd < t->nd) { fprintf(stderr, "NONDETERMINISM: path ended before its deviations (scenario %s)\n", g_scn[t->scn].name.c_str()); _exit(98); }
    return r;
}

static bool known(const char *msg) { for (auto &k : g_known) if (strstr(msg, k.c_str())) return true; return false; }

static std::string describe(const Task *t) {
    std::string s = g_scn[t->scn].name + " :";
    for (int i = 0; i < t->nd; i++) { char b[120]; const char *tag = (t == c_task && t->d[i].pos < c_pos) ? c_tag[t->d[i].pos] : ""; snprintf(b, sizeof b, " %u%s%s=%u/%u", t->d[i].pos, *tag ? "." : "", tag, t->d[i].opt, t->d[i].n); s += b; if (s.size() > 360) break; }
    return s;
}

static void add_fail(Task *t, int kind, const char *msg) {
    pthread_mutex_lock(&S->mu);
    if (S->nfail < 4) { auto &f = S->fail[S->nfail]; f.t = *t; f.kind = kind; strncpy(f.msg, msg, sizeof f.msg - 1); S->nfail++; }
    pthread_mutex_unlock(&S->mu);
    S->stop = 1;
}

static void worker(int w) {
    Slot &sl = S->slot[w];
    long quota = 0; bool isidle = false;
    for (;;) {
        if (S->stop) break;
        if (sl.sp == 0) {
            pthread_mutex_lock(&S->mu);
            if (S->qn > 0) { sl.stack[sl.sp++] = S->q[--S->qn]; if (isidle) { isidle = false; S->idle--; } }
            pthread_mutex_unlock(&S->mu);
            if (sl.sp == 0) {
                if (!isidle) { isidle = true; S->idle++; }
                usleep(200); 
                continue;      /* the parent sets stop when everybody is idle and the queue is empty */
            }
        }
        sl.cur = sl.stack[--sl.sp];
        sl.busy = 1; __sync_synchronize();
        Task *t = &sl.cur;
        int r = execute(t, g_bound);
        sl.nexec++;
        ScnStat &st = g_stat[t->scn];
        if (r == 2) { S->pruned++; st.pruned++; }
        else { S->execs++; st.execs++; st.choices += c_pos; if (table_add(g_outs, OUT_N, mc_mix(c_outcome, t->scn + 1))) { S->noutcomes++; 
                 if (S->nsample < 8 && (t->nd > 0 || st.execs < 2)) { pthread_mutex_lock(&S->mu); if (S->nsample < 8) { std::string d = describe(t); strncpy(S->sample[S->nsample], d.c_str(), 399); S->nsample++; } pthread_mutex_unlock(&S->mu); } } }
        if (r == 1) {
            if (known(c_msg)) S->known++;
            else { add_fail(t, 0, c_msg); sl.busy = 0; break; }
        }
        /* children */
        uint32_t first = t->nd ? t->d[t->nd-1].pos + 1 : 0;
        if (t->nd < MAXDEV_REC) {
            for (uint32_t p = c_pos; p-- > first; ) {
                if (c_used + c_cost[p] > g_bound) continue;
                for (int o = c_n[p] - 1; o >= 1; o--) {
                    if (sl.sp >= STACK_MAX) { fprintf(stderr, "stack overflow\n"); _exit(99); }
                    Task &n = sl.stack[sl.sp++];
                    n.scn = t->scn; n.nd = t->nd + 1; n.used = c_used + c_cost[p];
                    memcpy(n.d, t->d, sizeof(Dev) * t->nd);
                    n.d[t->nd] = {p, (uint16_t)o, (uint16_t)c_n[p]};
                }
            }
        } else { fprintf(stderr, "too many deviations in %s\n", g_scn[t->scn].name.c_str()); _exit(99); }
        sl.busy = 0; __sync_synchronize();
        /* donate the oldest (largest) subtrees */
        if (S->idle > 0 && sl.sp > 1 && S->qn < 64) {
            pthread_mutex_lock(&S->mu);
            int k = sl.sp / 2; if (k > 32) k = 32; if (k > SHQ_MAX - S->qn) k = SHQ_MAX - S->qn;
            for (int i = 0; i < k; i++) S->q[S->qn++] = sl.stack[i];
            memmove(sl.stack, sl.stack + k, sizeof(Task) * (sl.sp - k)); sl.sp -= k;
            pthread_mutex_unlock(&S->mu);
        }
        if ((++quota & 0x3ff) == 0) {
            long rss = 0; FILE *f = fopen("/proc/self/statm", "r"); if (f) { long a; if (fscanf(f, "%ld %ld", &a, &rss) != 2) rss = 0; fclose(f); }
            if (rss > (1500L << 20) / 4096) { _exit(5); }   /* recycled by the parent */
        }
    }
    if (isidle) S->idle--;
    _exit(0);
}

static std::string g_logdir;
static pid_t spawn(int w) {
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        char f[300]; snprintf(f, sizeof f, "%s/w%d.log", g_logdir.c_str(), w);
        int fd = open(f, O_CREAT|O_TRUNC|O_WRONLY, 0644); dup2(fd, 2); 
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        worker(w);
    }
    return p;
}

static std::string summarize_log(const char *f) {
    FILE *h = fopen(f, "r"); if (!h) return ""; std::string s; char b[600]; int fr = 0;
    while (fgets(b, sizeof b, h)) { if (strstr(b, "ERROR: ") || strstr(b, "runtime error") || strstr(b, "NONDETERMINISM") || strstr(b, "stack overflow") || strstr(b, "too ") || strstr(b,"mc_choose") || strstr(b,"Assertion")) { s += b; }
        else if (strstr(b, "    #") && fr < 12) { s += b; fr++; } if (s.size() > 1500) break; }
    fclose(h); return s;
}

/* fresh process, alone; returns 0 reproduced(fail) with msg, 1 ok, 2 hang(also reproduced), 3 machinery error */
static int replay(Task *t, const char *tracefile, double limit, std::string &msg, int bound) {
    char mf[300], lf[300]; snprintf(mf, sizeof mf, "%s/replay.msg", g_logdir.c_str()); snprintf(lf, sizeof lf, "%s/replay.log", g_logdir.c_str());
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(lf, O_CREAT|O_TRUNC|O_WRONLY, 0644); dup2(fd, 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        if (tracefile) { g_notef = fopen(tracefile, "a"); mc_verbose = 1; }
        Task tt = *t; g_noseen = 1;
        int r = execute(&tt, bound);
        if (r == 1) { FILE *f = fopen(mf, "w"); fputs(c_msg, f); fclose(f); _exit(10); }
        _exit(0);
    }
    double t0 = now(); int st;
    for (;;) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); msg = "no progress (endless loop)"; return 2; }
        usleep(2000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { char b[2001] = {0}; FILE *f = fopen(mf, "r"); size_t n = fread(b, 1, 2000, f); (void)n; fclose(f); msg = b; return 0; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 1;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99)) { msg = summarize_log(lf); return 3; }
    msg = "crash: " + summarize_log(lf);
    if (WIFSIGNALED(st)) msg += " signal " + std::to_string(WTERMSIG(st));
    return 0;
}

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

static double g_deadline; static int g_machinery_error;
/* explores the given scenarios with the bound; returns true when complete */
static bool run_pass(int bound, const std::vector<int> &scns) {
    g_bound = bound;
    S->stop = 0; S->idle = 0; S->qn = 0;
    for (int w = 0; w < g_nw; w++) { S->slot[w].sp = 0; S->slot[w].busy = 0; }
    /* scenarios dealt to the workers' stacks round robin, last first so that they start in order */
    int w = 0;
    for (size_t i = scns.size(); i-- > 0; ) { Task t; memset(&t, 0, sizeof t); t.scn = scns[i]; Slot &sl = S->slot[w++ % g_nw]; if (sl.sp < STACK_MAX) sl.stack[sl.sp++] = t; }
    pid_t pid[NW_MAX]; long lastn[NW_MAX]; double lastt[NW_MAX];
    for (int i = 0; i < g_nw; i++) { pid[i] = spawn(i); lastn[i] = -1; lastt[i] = now(); }
    bool complete = true; int left = g_nw; double stopped = 0;
    while (left) {
        int st; pid_t p;
        while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
            for (int i = 0; i < g_nw; i++) if (pid[i] == p) {
                Slot &sl = S->slot[i];
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[i] = 0; left--; break; }
                char f[300]; snprintf(f, sizeof f, "%s/w%d.log", g_logdir.c_str(), i);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 5) { sl.busy = 0; if (S->stop) { pid[i] = 0; left--; } else { pid[i] = spawn(i); lastt[i] = now(); } break; }
                if (stopped && WIFSIGNALED(st)) { pid[i] = 0; left--; break; }
                if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99)) {
                    std::string m = summarize_log(f); fprintf(stderr, "check machinery error: %s\n", m.c_str()); g_machinery_error = 1; S->stop = 1; pid[i] = 0; left--; break;
                }
                /* crashed */
                std::string m = "crash: " + summarize_log(f);
                if (WIFSIGNALED(st)) m += " signal " + std::to_string(WTERMSIG(st));
                if (known(m.c_str())) { S->known++; S->execs++; sl.busy = 0; if (S->stop) { pid[i] = 0; left--; } else { pid[i] = spawn(i); lastt[i] = now(); } break; }
                add_fail(&sl.cur, 1, m.c_str());
                pid[i] = 0; left--; break;
            }
        }
        if (!left) break;
        /* finished? (an idle worker has an empty stack) */
        if (!S->stop && S->idle == g_nw) {
            pthread_mutex_lock(&S->mu); bool e = S->qn == 0; pthread_mutex_unlock(&S->mu);
            if (e) S->stop = 1;
        }
        if (!S->stop && now() > g_deadline) {
            S->stop = 1; complete = false;
        }
        if (S->stop && !stopped) stopped = now();
        for (int i = 0; i < g_nw; i++) if (pid[i] > 0) {
            Slot &sl = S->slot[i];
            if (!sl.busy || sl.nexec != lastn[i]) { lastn[i] = sl.nexec; lastt[i] = now(); }
            else if (now() - lastt[i] > 20 && !S->nfail) {
                kill(pid[i], SIGKILL); int st2; waitpid(pid[i], &st2, 0);
                std::string m; int r = replay(&sl.cur, NULL, 60, m, bound);
                if (r == 1) { fprintf(stderr, "note: slow path completed when run alone\n"); sl.busy = 0; complete = false; if (S->stop) { pid[i] = 0; left--; } else pid[i] = spawn(i); lastt[i] = now(); }
                else { add_fail(&sl.cur, 2, m.c_str()); pid[i] = 0; left--; }
            } else if (stopped && now() - stopped > 2 && S->nfail) { kill(pid[i], SIGKILL); }
        }
        usleep(1000);
    }
    long rest = S->qn; for (int i = 0; i < g_nw; i++) rest += S->slot[i].sp;
    if (rest) complete = false;
    return complete;
}

int main(int argc, char **argv) {
    /* explore <property> <quick|thorough> <evidence.json> <scratchdir> [time-limit]   |   explore --replay <file> <scratchdir> */
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (argc >= 3 && !strcmp(argv[1], "--replay")) {
        g_logdir = argc > 3 ? argv[3] : "/tmp";
        FILE *f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 2; }
        char line[8000], prop[64] = "", scn[400] = ""; int bound = 99, th = 0; Task t; memset(&t, 0, sizeof t);
        while (fgets(line, sizeof line, f)) {
            if (sscanf(line, "property %60s", prop) == 1) continue;
            if (!strncmp(line, "scenario ", 9)) { strncpy(scn, line + 9, 399); scn[strcspn(scn, "\n")] = 0; continue; }
            if (sscanf(line, "bound %d thorough %d", &bound, &th) == 2) continue;
            if (!strncmp(line, "choices", 7)) { char *p = line + 7; unsigned a, b, c; int k; while (sscanf(p, " %u=%u/%u%n", &a, &b, &c, &k) == 3) { t.d[t.nd++] = {a, (uint16_t)b, (uint16_t)c}; p += k; } }
        }
        fclose(f);
        g_thorough = th; g_prop = strdup(prop);
        S = (Shared*)shmem(sizeof(Shared)); g_states = (uint64_t*)shmem(ST_N * 8); g_outs = (uint64_t*)shmem(OUT_N * 8); g_seen = (uint64_t*)shmem(ST_N * 8);
        mc_register(prop);
        int id = -1; for (size_t i = 0; i < g_scn.size(); i++) if (g_scn[i].name == scn) id = i;
        if (id < 0) { fprintf(stderr, "no scenario %s\n", scn); return 2; }
        t.scn = id; std::string m;
        g_stat = (ScnStat*)shmem(sizeof(ScnStat) * g_scn.size());
        int r = replay(&t, "/dev/stdout", 60, m, bound);
        printf("replay: %s %s\n", r == 1 ? "no violation" : "VIOLATED", m.c_str());
        return r == 1 ? 0 : 1;
    }
    if (argc < 5) { fprintf(stderr, "usage\n"); return 2; }
    g_prop = argv[1]; g_thorough = !strcmp(argv[2], "thorough"); const char *evf = argv[3]; g_logdir = argv[4];
    double limit = argc > 5 ? atof(argv[5]) : (g_thorough ? 3000 : 300);
    const char *only = getenv("MC_ONLY");
    if (getenv("MC_NW")) g_nw = atoi(getenv("MC_NW"));
    double t0 = now(); g_deadline = t0 + limit;
    FILE *kf = fopen("known_findings.txt", "r");
    if (kf) { char l[1000], p[32], k[900]; while (fgets(l, sizeof l, kf)) if (sscanf(l, "known: property=%31s key=\"%899[^\"]\"", p, k) == 2 && !strcmp(p, g_prop)) g_known.push_back(k); fclose(kf); }
    S = (Shared*)shmem(sizeof(Shared)); g_states = (uint64_t*)shmem(ST_N * 8); g_outs = (uint64_t*)shmem(OUT_N * 8); g_seen = (uint64_t*)shmem(ST_N * 8);
    pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_STALLED); pthread_mutex_init(&S->mu, &a);
    for (int i = 0; i < g_nw; i++) S->slot[i].stack = (Task*)shmem(sizeof(Task) * STACK_MAX);
    mc_register(g_prop);
    if (only) { std::vector<Scn> k; for (auto &s : g_scn) if (s.name.find(only) != std::string::npos) k.push_back(s); g_scn = k; }
    if (g_scn.empty()) { fprintf(stderr, "no scenarios for %s\n", g_prop); return 2; }
    g_stat = (ScnStat*)shmem(sizeof(ScnStat) * g_scn.size());
    int maxb = 0; for (auto &s : g_scn) if (s.maxdev > maxb) maxb = s.maxdev;
    bool exhaustive = true; std::string passes; long execs_total = 0, trans_total = 0;
    /* cheap passes first, so that shallow violations are found quickly; each scenario's counts come from its last pass */
    for (int b = 0; b <= maxb && !S->nfail && !g_machinery_error; b++) {
        std::vector<int> todo; bool last_any = false;
        for (size_t i = 0; i < g_scn.size(); i++) {
            if (g_scn[i].maxdev == b) { todo.push_back(i); last_any = true; }
            else if (g_scn[i].maxdev > b && b == 1) todo.push_back(i);
        }
        if (todo.empty()) continue; (void)last_any;
        std::vector<long> before(g_scn.size());
        for (int i : todo) { g_stat[i].execs = 0; g_stat[i].pruned = 0; g_stat[i].choices = 0; }
        long e0 = S->execs, tr0 = S->trans; double p0 = now();
        bool c = run_pass(b, todo);
        if (!c) exhaustive = false;
        char buf[200]; snprintf(buf, sizeof buf, "%s{\"deviations\":%d,\"scenarios\":%zu,\"executions\":%ld,\"complete\":%s,\"wall_s\":%.1f}", passes.empty() ? "" : ",", b, todo.size(), S->execs - e0, c ? "true" : "false", now() - p0);
        passes += buf; trans_total += S->trans - tr0;
        fprintf(stderr, "[%s] pass D=%d: %zu scenarios, %ld executions, %ld states so far, complete=%d, %.1fs\n", g_prop, b, todo.size(), S->execs - e0, (long)S->nstates, c, now() - p0);
    }
    if (g_machinery_error) { printf("ERROR in check machinery for %s\n", g_prop); return 2; }
    for (size_t i = 0; i < g_scn.size(); i++) execs_total += g_stat[i].execs;
    if (S->nfail) exhaustive = false;
    int rc = 0; std::string viol;
    for (int i = 0; i < S->nfail && i < 1; i++) {
        auto &f = S->fail[i];
        char rf[400]; snprintf(rf, sizeof rf, "%s.replay", evf);
        FILE *o = fopen(rf, "w");
        fprintf(o, "property %s\nscenario %s\nbound %d thorough %d\nchoices", g_prop, g_scn[f.t.scn].name.c_str(), g_bound, g_thorough);
        for (int k = 0; k < f.t.nd; k++) fprintf(o, " %u=%u/%u", f.t.d[k].pos, f.t.d[k].opt, f.t.d[k].n);
        fprintf(o, "\nfound: %s\n--- trace ---\n", f.msg); fclose(o);
        std::string m; int r = replay(&f.t, rf, 60, m, g_bound);
        if (r == 1 || r == 3) { fprintf(stderr, "failure did not reproduce: scenario %s: %s / %s\n", g_scn[f.t.scn].name.c_str(), f.msg, m.c_str()); printf("ERROR in check machinery for %s: unreproducible\n", g_prop); return 2; }
        o = fopen(rf, "a"); fprintf(o, "--- verdict ---\n%s\n", m.c_str()); fclose(o);
        printf("scenario %s: %s\n", g_scn[f.t.scn].name.c_str(), m.c_str());
        printf("VIOLATION property=%s replay=%s\n", g_prop, rf);
        rc = 1; viol = "{\"scenario\":\"" + jesc(g_scn[f.t.scn].name) + "\",\"what\":\"" + jesc(m.substr(0, 600)) + "\",\"replay\":\"" + jesc(rf) + "\"}";
    }
    if (S->known) printf("KNOWN-FINDING: property=%s %ld executions hit listed findings\n", g_prop, (long)S->known);
    FILE *o = fopen(evf, "w"); if (!o) { perror(evf); return 2; }
    fprintf(o, "{\n \"property\":\"%s\",\n \"tier\":\"%s\",\n \"seed\":%d,\n \"level\":\"model_checking\",\n \"coverage\":{\n  \"states\":%ld,\n  \"transitions\":%ld,\n  \"traces_validated_against_impl\":%ld,\n  \"exhaustive\":%s,\n  \"scenarios\":%zu,\n  \"distinct_outcomes\":%ld,\n  \"pruned_paths\":%ld,\n  \"paths_ending_in_a_known_state\":%ld,\n  \"max_deviations\":%d,\n  \"passes\":[%s],\n  \"samples\":[",
        g_prop, argv[2], getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1, (long)S->nstates, (long)S->trans, (long)S->execs, exhaustive ? "true" : "false", g_scn.size(), (long)S->noutcomes, (long)S->pruned - (long)S->merged, (long)S->merged, maxb, passes.c_str());
    for (int i = 0; i < S->nsample; i++) fprintf(o, "%s\n   \"%s\"", i ? "," : "", jesc(S->sample[i]).c_str());
    fprintf(o, "],\n  \"per_scenario\":[");
    for (size_t i = 0; i < g_scn.size() && i < 400; i++) fprintf(o, "%s\n   {\"name\":\"%s\",\"deviations\":%d,\"executions\":%ld}", i ? "," : "", jesc(g_scn[i].name).c_str(), g_scn[i].maxdev, (long)g_stat[i].execs);
    fprintf(o, "]\n },\n \"wall_s\":%.2f,\n \"violations\":[%s]\n}\n", now() - t0, viol.c_str());
    fclose(o);
    fprintf(stderr, "[%s] %s: %ld executions, %ld states, %ld transitions, %ld outcomes, exhaustive=%d, %.1fs\n", g_prop, rc ? "VIOLATED" : "held", (long)S->execs, (long)S->nstates, (long)S->trans, (long)S->noutcomes, exhaustive, now() - t0);
    return rc;
}
