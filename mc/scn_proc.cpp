/* C15: master and workers, signals, the stop and reload commands */
#include "scn.h"
#include "sim_proc.h"
#define PID "/usr/local/s5/logs/pid"
static const int MASTER = 4242;
static const char *signame(int s) { return s == SIGINT ? "SIGINT" : s == SIGHUP ? "SIGHUP" : s == SIGCHLD ? "SIGCHLD" : s == SIGALRM ? "SIGALRM" : "a signal"; }
/* signal state of one process */
struct Signals : ProcHooks {
    uint64_t mask = 0, pending = 0; bool in_handler = false;
    static uint64_t bits(const sigset_t *s) { uint64_t m = 0; for (int i = 1; i < 32; i++) if (sigismember(s, i) == 1) m |= 1ull << i; return m; }
    void sigaction(int, const struct sigaction *) override {}
    int sigprocmask(int how, const sigset_t *s, sigset_t *o) override {
        if (o) { sigemptyset(o); for (int i = 1; i < 32; i++) if (mask >> i & 1) sigaddset(o, i); }
        if (s) { uint64_t b = bits(s); mask = how == SIG_BLOCK ? mask | b : how == SIG_UNBLOCK ? mask & ~b : b; }
        deliver(); return 0;
    }
    virtual void handled(int) {}
    int deliver() {
        int n = 0;
        for (;;) {
            std::vector<int> l; for (int i = 1; i < 32; i++) if ((pending & ~mask) >> i & 1) l.push_back(i);
            if (l.empty()) return n;
            int sig = l[l.size() > 1 ? mc_choose(l.size(), 1, "signal order") : 0]; pending &= ~(1ull << sig); n++;
            auto it = W->sigh.find(sig); void (*h)(int) = it == W->sigh.end() ? SIG_DFL : it->second;
            mc_note("    %s is delivered", signame(sig)); mc_trans(1);
            if (h == SIG_IGN || (h == SIG_DFL && sig == SIGCHLD)) continue;
            if (h == SIG_DFL) mc_fail("the process is killed by %s", signame(sig));
            handled(sig); uint64_t m = mask; mask |= 1ull << sig; h(sig); mask = m;
        }
    }
};
struct Master : Base, Signals {
    int N = 1, budget = 0, forks = 0, reaped_n = 0, nextpid = 5000, stops = 0, reloads = 0; bool stop_seen = false, faults = false, alarmed = false, endedmain = false, child = false, short_start = false;
    struct Wk { bool told = false; }; std::map<int, Wk> live; std::vector<int> zombies; std::set<int> reaped, mustgo;
    void setup() override {
        N = arg & 3; budget = arg >> 2 & 7; faults = arg >> 5 & 1;
        set_config_server(2); size_t p = W->config.find("\"sys_process\":0"); W->config[p + 14] = '0' + N; W->keep_sinks = true; PH = this;
    }
    uint64_t key() { /* all of the environment, and the program's memory */
        uint64_t h = mc_mix(mask, pending); for (auto &x : live) h = mc_mix(h, x.first * 2 + x.second.told); h = mc_mix(h, 1); for (int z : zombies) h = mc_mix(h, z); h = mc_mix(h, 2); for (int z : reaped) h = mc_mix(h, z); h = mc_mix(h, 3); for (int z : mustgo) h = mc_mix(h, z);
        h = mc_mix(h, budget + stops * 100 + reloads * 1000 + stop_seen * 10000 + alarmed * 20000); h = mc_mix(h, nextpid * 10000 + (forks - reaped_n)); return mc_mix(h, sim_memhash());
    }
    void state() { uint64_t h = mc_mix(mask * 7 + pending, live.size() * 16 + zombies.size()); int k = 0; for (auto &x : live) h = mc_mix(h, x.second.told * 2 + mustgo.count(x.first) + 4 * k++); mc_state(mc_mix(h, budget * 64 + stops * 16 + reloads * 4 + stop_seen * 2 + alarmed)); }
    void die(int pid) { mc_note("  worker %d ends", pid); live.erase(pid); zombies.push_back(pid); pending |= 1ull << SIGCHLD; mc_trans(1); }
    /* what may happen next outside the master; must: one of them has to */
    bool event(int cost, bool must) {
        struct Alt { int what, pid; }; std::vector<Alt> alts;
        for (auto &x : live) if (x.second.told) alts.push_back({0, x.first});
        if (alarmed) alts.push_back({3, 0});
        bool forced = !alts.empty();
        if (budget > 0 && forks) { for (auto &x : live) if (!x.second.told) alts.push_back({0, x.first}); if (stops < 2) alts.push_back({1, 0}); if (reloads < 2) alts.push_back({2, 0}); }
        if (alts.empty()) return false;
        int c = mc_choose(alts.size() + (must && forced ? 0 : 1), cost, must ? "next" : "meanwhile"); if (!(must && forced)) { if (!c) return false; c--; }
        Alt a = alts[c];
        if (a.what == 0) { if (!live[a.pid].told) budget--; die(a.pid); }
        else if (a.what == 1) { budget--; stops++; pending |= 1ull << SIGINT; mc_note("  stop request"); }
        else if (a.what == 2) { budget--; reloads++; pending |= 1ull << SIGHUP; for (auto &x : live) mustgo.insert(x.first); mc_note("  reload request"); }
        else { alarmed = false; pending |= 1ull << SIGALRM; }
        state(); return true;
    }
    void point() { if (child) return; while (event(1, false)) {} deliver(); }
    void handled(int sig) override { if (sig == SIGINT) stop_seen = true; }
    int getpid() override { return MASTER; }
    int fork() override {
        point();
        if (stop_seen) mc_fail("a worker is started after a stop request");
        if (forks >= N + reaped_n) mc_fail("more workers are started than have ended");
        if (faults && mc_choose(2, 1, "fork fails")) { mc_note("  ! fork fails"); W->injected++; if (forks < N) short_start = true; errno = EAGAIN; return -1; }
        int pid = nextpid++; if (!reaped.empty() && mc_choose(2, 1, "process number reused")) { pid = *reaped.begin(); reaped.erase(pid); mustgo.erase(pid); }
        forks++; live[pid]; mc_note("  fork -> %d", pid); mc_trans(1); state(); point(); return pid;
    }
    int kill(int pid, int sig) override {
        point(); mc_note("  kill %d %s", pid, signame(sig)); mc_trans(1);
        auto it = live.find(pid);
        if (it == live.end()) { for (int z : zombies) if (z == pid) return 0; mc_fail("a signal is sent to process %d, which is not a worker of this program", pid); }
        if (sig == SIGINT || sig == SIGTERM || sig == SIGQUIT || sig == SIGKILL) it->second.told = true;
        point(); return 0;
    }
    int waitpid(int want, int *st, int opt) override {
        point(); if (st) *st = 0;
        for (;;) {
            std::vector<int> l; for (int z : zombies) if (want <= 0 || z == want) l.push_back(z);
            if (!l.empty()) { int pid = l[l.size() > 1 ? mc_choose(l.size(), 1, "order of the dead") : 0]; zombies.erase(std::find(zombies.begin(), zombies.end(), pid)); reaped.insert(pid); reaped_n++; state(); return pid; }
            if (want > 0 ? !live.count(want) : live.empty()) { errno = ECHILD; return -1; }
            if (opt & WNOHANG_) return 0;
            W->since_wait = 0; if (++W->waits > 2000) mc_fail("endless loop in the master");
            if (!event(0, true)) quiet(); if (deliver()) { errno = EINTR; return -1; }
        }
    }
    static const int WNOHANG_ = 1;
    unsigned alarm(unsigned n) override { alarmed = n > 0; return 0; }
    int sigsuspend(const sigset_t *s) override {
        W->since_wait = 0; if (++W->waits > 2000) mc_fail("endless loop in the master");
        mc_seen(key()); point(); uint64_t old = mask; mask = bits(s); int n = deliver();
        while (!n) { if (!event(0, true)) quiet(); while (event(0, false)) {} n = deliver(); }
        mask = old; errno = EINTR; return -1;
    }
    bool pidfile() { if (W->sinks[PID] != std::to_string(MASTER)) return false; for (auto &u : W->unlinked) if (u == PID) return false; return true; }
    void quiet() { /* nothing will happen any more */
        if (stops) mc_fail(live.empty() ? "the master does not end although all workers have" : "the master does not end after a stop request: a worker was not told to stop");
        if ((int)live.size() != N) mc_fail("%d of %d workers are left", (int)live.size(), N);
        for (auto &x : live) if (mustgo.count(x.first)) mc_fail("a worker was not told to stop by a reload request");
        if (!pidfile()) mc_fail("the pid file is gone while the master runs");
        mc_outcome(forks); mc_done();
    }
    void ended(int r) override {
        if (!stops && !short_start) mc_fail("the master ends without a stop request");      /* it may give up when it cannot start its workers, if it stops those it has */
        bool told = short_start; for (auto &x : live) if (!x.second.told) told = false;
        if (!live.empty() && !told) mc_fail("the master ends while %d workers run", (int)live.size());
        if (pidfile()) mc_fail("the pid file is left behind");
        mc_outcome(forks + 100); mc_done();
    }
};
/* one process becomes a worker (or the program runs without workers): it serves, and ends when told to, and touches nothing of the master's */
struct Worker : Base, Signals {
    int N, which, forks = 0; bool child = false, sent = false, hup = false; int self = MASTER; int suspends = 0; uint64_t reap = 0;
    void setup() override {
        N = arg & 3; which = arg >> 2 & 7; child = N == 0;
        set_config_server(2); size_t p = W->config.find("\"sys_process\":0"); W->config[p + 14] = '0' + N; W->keep_sinks = true; PH = this;
        W->vfs["/www"].type = 1; W->vfs["/www/a.txt"].data = Str(3000, 'a');
        W->targets.push_back({0x04040404, 80, 0, [](Agent &a) { o_expect(a, "ping"); o_send(a, "pong"); o_waitclose(a); }});
        Agent &u = add_agent("user");
        if (arg >> 5 & 1) { tunnel_open(u, P_TUN, "key1", req_ip(4,4,4,4,80)); o_tsend(u, "ping"); o_expect(u, "pong"); o_tclose(u); o_close(u); }
        else { o_connect(u, P_HTTP); o_send(u, "GET /a.txt HTTP/1.1\r\nConnection: keep-alive\r\n\r\n"); o_wait(u, "await the response", [](Agent &u) { return u.got().size() > 3000; }); o_close(u); }
    }
    int getpid() override { return self; }
    int fork() override {
        if (self != MASTER) mc_fail("a worker starts another process");
        if (forks++ == which) { self = 6000; child = true; pending = 0; mc_note("  this is the worker"); return 0; }
        return 5000 + forks;
    }
    int kill(int pid, int) override { mc_fail("a worker sends a signal to %d", pid); }
    int waitpid(int, int *, int) override { if (child) { errno = ECHILD; return -1; } if (reap) { int p = reap; reap = 0; return p; } return 0; }
    int sigsuspend(const sigset_t *s) override {
        if (child) mc_fail("a worker waits like the master");
        if (suspends++ > 4) mc_fail("the worker is not started"); reap = 5001; pending |= 1ull << SIGCHLD; uint64_t old = mask; mask = bits(s); deliver(); mask = old; errno = EINTR; return -1;      /* the first worker dies: a replacement is started */
    }
    int wait(const sigset_t *s) override {
        if (!child) mc_fail("the master serves connections");
        if (sent) { if (pending && s) { uint64_t old = mask; mask = bits(s); int n = deliver(); mask = old; if (n) return -1; } return 0; }
        int c = mc_choose(hup ? 3 : 4, 0, "stop"); if (!c) return 0;
        if (c == 3) { hup = true; pending |= 1ull << SIGHUP; deliver(); return 0; }
        sent = W->lenient_close = true; mc_note("  told to stop %s the wait", c == 1 ? "before" : "in"); pending |= 1ull << SIGINT; mc_state(mc_mix(c, W->waits)); mc_trans(1);
        if (c == 1) deliver();
        uint64_t old = mask; if (s) mask = bits(s); int n = deliver(); mask = old; if (c == 2 && !n) mc_fail("a worker told to stop does not notice"); return n ? -1 : 0;
    }
    void stuck(Agent &a) override { if (sent) mc_fail("a worker told to stop keeps waiting"); Base::stuck(a); }
    void finished() override { if (sent) mc_fail("a worker told to stop keeps waiting"); mc_outcome(1); }
    void ended(int r) override {
        if (!sent) mc_fail("the worker ends without having been told to");
        bool gone = false; for (auto &u : W->unlinked) if (u == PID) gone = true;
        if (N && gone) mc_fail("a worker removes the pid file");
        if (!N && !gone) mc_fail("the pid file is left behind");
        mc_outcome(2); mc_done();
    }
};
/* the commands */
struct Command : Base, Signals {
    std::vector<std::pair<int, int>> kills; int cmd, file; bool fails = false;
    static const char *F[]; static const int V[]; static const int NFILE = 10;
    void setup() override {
        set_config_server(2); PH = this;
        static const char *C[] = {"-stop", "-reload", "-sto", "-stopx", "stop", "", "-reloadd"}; cmd = mc_choose(7, 0, "command"); W->args.push_back(C[cmd]); if (mc_choose(2, 0, "more arguments")) { W->args.push_back("x"); cmd = 9; }
        file = mc_choose(NFILE, 0, "pid file"); if (F[file]) W->vfs[PID].data = F[file];
        fails = mc_choose(2, 0, "kill fails"); mc_state(cmd * 100 + file);
    }
    int getpid() override { return 7777; } int fork() override { mc_fail("a command starts a process"); } int waitpid(int, int *, int) override { errno = ECHILD; return -1; } int sigsuspend(const sigset_t *) override { mc_fail("a command waits"); } int wait(const sigset_t *) override { mc_fail("a command serves connections"); }
    int kill(int pid, int sig) override { kills.push_back({pid, sig}); mc_trans(1); if (fails) { errno = ESRCH; return -1; } return 0; }
    void exited(int) override {
        int want = cmd < 2 ? V[file] : 0;
        if (!want && !kills.empty()) mc_fail("%s: a signal is sent to %d", cmd < 2 ? "the pid file names no process" : "not a command", kills[0].first);
        if (want && kills.empty()) mc_fail("the command sends no signal");
        for (auto &k : kills) if (k.first != want || k.second != (cmd == 0 ? SIGINT : SIGHUP)) mc_fail("signal %d is sent to %d instead of %d", k.second, k.first, want);
        if (kills.size() > 1) mc_fail("several signals are sent");
        for (auto &u : W->unlinked) if (u == PID) mc_fail("a command removes the pid file");
        mc_outcome(want + cmd); mc_done();
    }
    void ended(int) override { mc_fail("a command falls through to a normal start"); }
};
const char *Command::F[] = {"4242", NULL, "", "0", "-1", "-4242", "abc", "1234567\n", "99999999999999999999999999", "4294967295"};
const int Command::V[] = {4242, 0, 0, 0, 0, 0, 0, 1234567, 0, 0};
REGISTER(C15) {
    bool t = mc_thorough();
    struct { int n, b, d; } M[] = {{1, 4, 2}, {2, 3, 2}, {2, 4, 1}, {3, 2, 1}, {3, 3, 0}, {1, 5, 3}, {2, 4, 2}, {3, 3, 1}, {3, 2, 3}};
    for (int i = 0; i < (t ? 9 : 5); i++) for (int f = 0; f < 2; f++) mc_add(run_scn<Master>, M[i].n | M[i].b << 2 | f << 5, M[i].d, "%d workers, %d events%s, %d deviations", M[i].n, M[i].b, f ? ", forks fail" : "", M[i].d);
    for (int n = 0; n <= 2; n++) for (int w = 0; w <= n; w++) for (int k = 0; k < 2; k++) mc_add(run_scn<Worker>, n | w << 2 | k << 5, 0, "%d workers, %s %d, %s", n, n ? w < n ? "worker" : "replacement" : "single process", w, k ? "tunnel" : "HTTP");
    mc_add(run_scn<Command>, 0, 0, "commands");
}
