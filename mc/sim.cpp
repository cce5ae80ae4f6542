/* Simulated kernel, peers, TLS stand-in and clock.  The real program runs unmodified on top of the vf_* calls. */
#include "sim.h"
#include "mod.h"
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <poll.h>
#include <unordered_map>
#include <sanitizer/asan_interface.h>

World *W;
extern "C" { extern char __start_vfdata[] __attribute__((weak)), __stop_vfdata[] __attribute__((weak)), __start_vfbss[] __attribute__((weak)), __stop_vfbss[] __attribute__((weak)); }

/* ---------------- tracked memory ---------------- */
struct Blk { size_t n; long seq; int kind; };       /* kind 0 pool, 1 malloc */
static std::unordered_map<void*, Blk> g_blk; static long g_blkseq; static long g_baseseq;

static void *g_snap; static size_t g_nd, g_nb;
static __attribute__((no_sanitize("address"), noinline)) void rawcopy(void *d, const void *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
static void globals_snapshot() {
    g_nd = __stop_vfdata - __start_vfdata; g_nb = __stop_vfbss - __start_vfbss;
    g_snap = mmap(0, g_nd + g_nb + 64, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if (g_nd) rawcopy(g_snap, __start_vfdata, g_nd);
    if (g_nb) rawcopy((char*)g_snap + g_nd, __start_vfbss, g_nb);
}
static void globals_restore() { if (g_nd) rawcopy(__start_vfdata, g_snap, g_nd); if (g_nb) rawcopy(__start_vfbss, (char*)g_snap + g_nd, g_nb); }

/* hash of program memory with pointer-looking words masked (addresses differ between worker processes) */
static __attribute__((no_sanitize("address"), noinline)) uint64_t memhash(uint64_t h, const void *p, size_t n) {
    const uint64_t *w = (const uint64_t*)p;
    for (size_t i = 0; i < n / 8; i++) { uint64_t v = w[i]; if (!v) { continue; } if ((v >> 40) && !(v >> 47)) v = 0x1111; h = (h ^ (v + i)) * 0x9fb21c651e98df25ull; h ^= h >> 29; }
    return h;
}

/* ---------------- world basics ---------------- */
#define NOTE(...) do { if (mc_verbose) mc_note(__VA_ARGS__); } while (0)
static const int FD0 = 50;

int World::newsock(int kind) { Sock *s = new Sock; s->id = all.size(); s->kind = kind; s->t_open = now_ms; all.push_back(s); socks.push_back(s); return s->id; }
int World::allocfd(int id) { int fd = FD0; while (fdt.count(fd)) fd++; fdt[fd] = id; all[id]->fd = fd; return fd; }
int World::nconn_open() { int n = 0; for (auto s : socks) if (s->open && s->fd >= 0 && (s->kind == K_TCP || s->kind == K_UDP)) n++; return n; }
Agent &World::agent(const char *name) { for (auto &a : agents) if (!strcmp(a.name, name)) return a; fprintf(stderr, "no agent %s\n", name); _exit(99); }

uint32_t World::mask(Sock &s) {
    uint32_t m = 0;
    switch (s.kind) {
    case K_LISTEN: if (!s.acceptq.empty()) m |= EPOLLIN; break;
    case K_UDP: if (!s.dq.empty()) m |= EPOLLIN; if (!s.blocked) m |= EPOLLOUT; break;
    case K_TCP:
        if (s.st == T_NEW) m |= EPOLLOUT | EPOLLHUP;
        else if (s.st == T_SYN) m = 0;
        else if (s.st == T_FAIL) m |= EPOLLIN|EPOLLOUT|EPOLLERR|EPOLLHUP|EPOLLRDHUP;
        else {
            if (s.rxpos < s.rx.size() || s.rx_fin || s.rst) m |= EPOLLIN;
            if (!s.blocked || s.rst) m |= EPOLLOUT;
            if (s.rx_fin || s.rst) m |= EPOLLRDHUP;
            if (s.rst) { m |= EPOLLHUP; if (s.so_err) m |= EPOLLERR; }
            if (s.rx_fin && s.tx_fin) m |= EPOLLHUP;
        }
        break;
    }
    return m;
}
/* something happened on s that raises `bits` */
void World::notify(Sock &s, uint32_t bits) {
    if (!s.inep || !s.open) return;
    if (!(bits & (s.interest | EPOLLERR | EPOLLHUP))) return;
    if (!s.rdy) { s.rdy = true; rdyq.push_back(s.id); }
}

Sock &Agent::s() { if (sock < 0) { fprintf(stderr, "agent %s has no socket\n", name); _exit(99); } return *W->all[sock]; }
const Str &Agent::got() { static const Str empty; if (sock < 0) return empty; if (tls.on) { tls_poll(*this); return tls.plain; } return s().tx; }
Agent &add_agent(const char *name) { W->agents.emplace_back(); Agent &a = W->agents.back(); a.id = W->agents.size() - 1; a.name = name; return a; }

/* ---------------- syscall accounting ---------------- */
static void sys_enter() {
    W->syscalls++;
    if (++W->since_wait > 60000) mc_fail("endless loop: 60000 system calls without returning to the event loop");
}
/* choose whether a system call fails with one of the given errors */
static int sysfault(bool on, const char *tag, std::initializer_list<int> errs) {
    if (!W->f.armed || !on) return 0;
    int k = mc_choose(1 + errs.size(), 1, tag);
    if (!k) return 0;
    W->injected++;
    int e = *(errs.begin() + (k - 1)); NOTE("  ! %s fails: %s", tag, strerror(e));
    return e;
}

/* ---------------- TCP primitives used by libc calls and by the TLS stand-in ---------------- */
extern "C" { extern ssize_t (*mod_send_hook)(int, const void *, size_t); extern ssize_t (*mod_recv_hook)(int, void *, size_t, int); }
static ssize_t k_send(int fd, const void *buf, size_t n, bool nosig) {
    sys_enter();
    if (mod_send_hook) { ssize_t r = mod_send_hook(fd, buf, n); if (r != -2) return r; }
    Sock *s = W->byfd(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->kind == K_LISTEN) { errno = ENOTCONN; return -1; }
    if (s->kind == K_SINK) { if (W->keep_sinks) W->sinks[s->path].append((const char*)buf, n); return n; }
    if (s->kind != K_TCP) { errno = ENOTSOCK; return -1; }
    auto pipe_err = [&](int e) { errno = e; if (e == EPIPE && !nosig) { auto it = W->sigh.find(SIGPIPE); if (it == W->sigh.end() || it->second == SIG_DFL) mc_fail("killed by SIGPIPE"); else if (it->second != SIG_IGN) it->second(SIGPIPE); errno = e; } return (ssize_t)-1; };
    if (s->st == T_SYN) { errno = EAGAIN; return -1; }
    if (s->st == T_NEW) return pipe_err(EPIPE);
    if (s->st == T_FAIL) { if (s->so_err) { errno = s->so_err; s->so_err = 0; return -1; } return pipe_err(EPIPE); }
    if (s->tx_fin) return pipe_err(EPIPE);
    if (s->rst) { if (s->so_err) { errno = s->so_err; s->so_err = 0; return -1; } return pipe_err(EPIPE); }
    if (n == 0) return 0;
    if (s->blocked) { errno = EAGAIN; NOTE("  send fd%d %zu -> EAGAIN", fd, n); return -1; }
    size_t take = n; bool blk = false;
    if (W->trickle_out && n > W->trickle_out) { take = W->trickle_out; blk = true; }
    if (W->f.armed) {
        int no = 1; int kinds[8]; kinds[0] = 0;
        if (W->f.block && s->nblock < W->f.maxblock) { if (n > 1) kinds[no++] = 1; kinds[no++] = 2; if (W->f.cuts3 && n > 2) { kinds[no++] = 3; kinds[no++] = 4; } }
        if (W->f.senderr) kinds[no++] = 5;
        /* no EINTR here: Linux never interrupts a call on a non-blocking socket */
        int k = kinds[mc_choose(no, 1, "send")];
        if (k == 1) { take = n / 2; blk = true; }
        if (k == 3) { take = 1; blk = true; }
        if (k == 4) { take = n - 1; blk = true; }
        if (k == 2) { take = 0; blk = true; }
        if (k == 5) { W->injected++; s->rst = true; s->so_err = 0; NOTE("  ! send fd%d fails: reset", fd); W->notify(*s, EPOLLIN|EPOLLOUT|EPOLLHUP|EPOLLERR); errno = ECONNRESET; return -1; }
    }
    if (blk) { s->blocked = true; s->nblock++; s->t_block = W->now_ms; }
    if (s->peer_closed && take) { /* peer is gone: the bytes vanish and a reset comes back */
        s->rst = true; s->so_err = ECONNRESET; W->notify(*s, EPOLLIN|EPOLLOUT|EPOLLHUP|EPOLLERR); NOTE("  send fd%d %zu to closed peer", fd, take); return take; }
    if (s->tap) { if (!s->tap((const char*)buf, take)) { s->rst = true; s->so_err = ECONNRESET; W->notify(*s, EPOLLIN|EPOLLOUT|EPOLLHUP|EPOLLERR); } else if (++s->ntap % 16000 == 0) { s->blocked = true; s->t_block = W->now_ms; } return take; }
    s->tx.append((const char*)buf, take);
    NOTE("  send fd%d %zu/%zu%s", fd, take, n, blk ? " (window full)" : "");
    if (!take) { errno = EAGAIN; return -1; }
    return take;
}
static ssize_t k_recv(int fd, void *buf, size_t n, int flags) {
    sys_enter();
    if (mod_recv_hook) { ssize_t r = mod_recv_hook(fd, buf, n, flags); if (r != -2) return r; }
    Sock *s = W->byfd(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->kind != K_TCP) { errno = s->kind == K_LISTEN ? ENOTCONN : ENOTSOCK; return -1; }
    if (s->st == T_NEW || s->st == T_SYN) { errno = s->st == T_NEW ? ENOTCONN : EAGAIN; return -1; }
    if (W->f.armed && W->f.recverr && s->st == T_EST && !s->rst) {
        int no = 1; int kinds[4]; kinds[0] = 0; if (W->f.recverr) kinds[no++] = 1;
        int k = kinds[mc_choose(no, 1, "recv")];
        if (k == 1) { W->injected++; s->rst = true; s->so_err = 0; s->rxpos = s->rx.size(); NOTE("  ! recv fd%d fails: reset", fd); errno = ECONNRESET; return -1; }
    }
    size_t av = s->rx.size() - s->rxpos;
    if (av) {
        size_t k = av < n ? av : n;
        memcpy(buf, s->rx.data() + s->rxpos, k);
        if (!(flags & MSG_PEEK)) s->rxpos += k;
        NOTE("  recv%s fd%d %zu/%zu", flags & MSG_PEEK ? "(peek)" : "", fd, k, n);
        return k;
    }
    if (s->so_err) { errno = s->so_err; s->so_err = 0; NOTE("  recv fd%d error %s", fd, strerror(errno)); int e = errno; errno = e; return -1; }
    if (s->rx_fin || s->rst || s->st == T_FAIL) { NOTE("  recv fd%d EOF", fd); s->fin_read = true; return 0; }
    if (n == 0) return 0;
    errno = EAGAIN; return -1;
}

/* ---------------- agent actions ---------------- */
void ag_deliver(Agent &a, const Str &b) { Sock &s = a.s(); if (!s.open && s.fd < 0) return; if (s.rst) return; s.rx += b; W->notify(s, EPOLLIN); }
void ag_fin(Agent &a) { Sock &s = a.s(); a.wrshut = true; if (!s.rx_fin) { s.rx_fin = true; W->notify(s, EPOLLIN|EPOLLRDHUP); } }
void ag_rst(Agent &a) { Sock &s = a.s(); a.closed = true; if (!s.rst) { s.rst = true; s.so_err = (s.rx_fin ? EPIPE : ECONNRESET); s.peer_closed = true; W->notify(s, EPOLLIN|EPOLLOUT|EPOLLERR|EPOLLHUP|EPOLLRDHUP); } }
void ag_close(Agent &a) { Sock &s = a.s(); a.closed = true; s.peer_closed = true; if (s.blocked) { s.blocked = false; W->notify(s, EPOLLOUT); } if (!s.rx_fin) { s.rx_fin = true; W->notify(s, EPOLLIN|EPOLLRDHUP); } }

/* chunked delivery: with wire cuts armed the arrival may be split in two */
struct Pend { Str b; };
static std::map<int, Str> g_pend;      /* agent id -> rest of the current arrival */
static void deliver_cut(Agent &a, const Str &b) {
    if (W->trickle_in && b.size() > W->trickle_in) { ag_deliver(a, b.substr(0, W->trickle_in)); g_pend[a.id] = b.substr(W->trickle_in); a.t_pend = W->now_ms + W->trickle_delay; return; }
    if (W->f.armed && W->f.wire && b.size() > 1) {
        size_t c[4] = {0, 1, b.size() / 2, b.size() - 1}; int no = b.size() > 3 ? 4 : (int)b.size();
        int k = mc_choose(no, 1, "cut");
        if (k) { size_t n = c[k]; if (b.size() <= 3) n = k; ag_deliver(a, b.substr(0, n)); g_pend[a.id] = b.substr(n); NOTE("env: %s arrival cut after %zu of %zu", a.name, n, b.size()); return; }
    }
    ag_deliver(a, b);
}
static void op(Agent &a, const char *n, std::function<bool(Agent&)> en, std::function<void(Agent&)> act) { a.ops.push_back({n, en, act}); }
static bool yes(Agent&) { return true; }
void o_connect(Agent &a, uint16_t port) {
    op(a, "connect", yes, [port](Agent &a) {
        Sock *l = nullptr; for (auto s : W->socks) if (s->kind == K_LISTEN && s->open && s->port == port) l = s;
        if (!l) mc_fail("nobody listens on port %d", port);
        int id = W->newsock(K_TCP); Sock &s = W->S(id); s.st = T_EST; s.inbound = true; s.port = port; s.agent = a.id; s.ip = IP(10,0,0,1 + a.id); a.sock = id;
        l->acceptq.push_back(id); W->notify(*l, EPOLLIN);
    });
}
void o_send(Agent &a, const Str &b) { op(a, "send", yes, [b](Agent &a) { a.sent += b; deliver_cut(a, b); }); }
void o_expect_raw(Agent &a, const Str &b) {
    op(a, "expect", [b](Agent &a) { return a.s().tx.size() >= a.mark + b.size() || (a.s().tx.size() > a.mark && a.s().tx.compare(a.mark, Str::npos, b, 0, a.s().tx.size() - a.mark) != 0); },
       [b](Agent &a) { if (a.s().tx.compare(a.mark, b.size(), b) != 0) mc_fail("%s: unexpected bytes from the proxy", a.name); a.mark += b.size(); });
}
void o_wait_n(Agent &a, size_t n) { op(a, "await-bytes", [n](Agent &a) { return a.got().size() >= n; }, [](Agent&) {}); }
void o_expect(Agent &a, const Str &b) {
    op(a, "expect", [b](Agent &a) { const Str &g = a.got(); size_t av = g.size() - a.mark; return av >= b.size() || g.compare(a.mark, av, b, 0, av) != 0; },
       [b](Agent &a) { const Str &g = a.got(); if (g.size() < a.mark + b.size() || g.compare(a.mark, b.size(), b) != 0) mc_fail("%s: unexpected bytes from the proxy at offset %zu", a.name, a.mark); a.mark += b.size(); });
}
void o_call(Agent &a, std::function<void(Agent&)> f) { op(a, "call", yes, f); }
void o_wait(Agent &a, const char *name, std::function<bool(Agent&)> en) { op(a, name, en, [](Agent&) {}); }
void o_shutwr(Agent &a) { op(a, "shutwr", yes, [](Agent &a) { ag_fin(a); }); }
void o_close(Agent &a) { op(a, "close", yes, [](Agent &a) { ag_close(a); }); }
void o_rst(Agent &a) { op(a, "reset", yes, [](Agent &a) { ag_rst(a); }); }
void o_waitclose(Agent &a) { op(a, "await-close", [](Agent &a) { Sock &s = a.s(); if (a.tls.on) { tls_poll(a); if (a.tls.close_notify) return true; } return s.tx_fin || !s.open; }, [](Agent &a) {}); }
void o_sleep(Agent &a, long ms) {
    op(a, "pause", yes, [ms](Agent &a) { a.t_ready = W->now_ms + ms; });
    op(a, "pause-end", [](Agent &a) { return W->now_ms >= a.t_ready; }, [](Agent&) {});
}
/* --- TLS agent side --- */
static uint32_t chk(const Str &p) { uint32_t h = 2166136261u; for (unsigned char c : p) h = (h ^ c) * 16777619u; return h; }
Str tls_record(int type, const Str &p) {
    Str r; Str body = p; for (auto &c : body) c ^= 0x5a; uint32_t k = chk(p); body.append((char*)&k, 4);
    r += (char)type; r += (char)3; r += (char)3; r += (char)(body.size() >> 8); r += (char)body.size(); return r + body;
}
void tls_poll(Agent &a) {
    TlsEnd &t = a.tls; Sock &s = a.s();
    while (!t.bad && s.tx.size() - t.parsed >= 5) {
        const unsigned char *p = (const unsigned char*)s.tx.data() + t.parsed;
        size_t len = (p[3] << 8) | p[4];
        if ((p[0] < 0x15 || p[0] > 0x17) || p[1] != 3 || p[2] != 3 || len < 4 || len > 17000) { t.bad = true; t.badwhy = "bytes on the wire that are not a TLS record"; break; }
        if (s.tx.size() - t.parsed < 5 + len) break;
        Str pl((const char*)p + 5, len - 4); for (auto &c : pl) c ^= 0x5a; uint32_t k; memcpy(&k, p + 5 + len - 4, 4);
        if (k != chk(pl)) { t.bad = true; t.badwhy = "corrupted TLS record"; break; }
        t.parsed += 5 + len; t.nrec++;
        if (p[0] == 0x16) { if (pl.compare(0, 2, "NT") == 0) t.tickets++; else if (pl.compare(0, 2, "KU") == 0) { t.kus++; if (!t.hs_done || t.close_notify) { t.bad = true; t.badwhy = "a key update out of place"; break; } } else t.hs++; }
        else if (p[0] == 0x15) t.close_notify = true;
        else { if (!t.hs_done) { t.bad = true; t.badwhy = "application data before the handshake completed"; break; } if (t.close_notify) { t.bad = true; t.badwhy = "application data after close_notify"; break; } t.plain += pl; }
    }
}
static Str hsmsg(const char *k, size_t n) { Str s = k; while (s.size() < n) s += (char)('a' + s.size() % 26); return s; }
void o_tls_client(Agent &a) {
    op(a, "client-hello", yes, [](Agent &a) { a.tls.on = true; deliver_cut(a, tls_record(0x16, hsmsg("CH", 40))); });
    op(a, "server-hello", [](Agent &a) { tls_poll(a); return a.tls.hs >= 1 || a.tls.bad; }, [](Agent &a) { if (a.tls.bad) mc_fail("%s: %s during handshake", a.name, a.tls.badwhy.c_str()); });
    op(a, "client-finished", yes, [](Agent &a) { a.tls.hs_done = true; deliver_cut(a, tls_record(0x16, hsmsg("CF", 20))); });
}
void o_tls_server(Agent &a) {
    op(a, "await-client-hello", [](Agent &a) { a.tls.on = true; a.tls.server = true; tls_poll(a); return a.tls.hs >= 1 || a.tls.bad; }, [](Agent &a) { if (a.tls.bad) mc_fail("%s: %s during handshake", a.name, a.tls.badwhy.c_str()); });
    op(a, "send-server-hello", yes, [](Agent &a) { a.tls.hs_done = true; deliver_cut(a, tls_record(0x16, hsmsg("SH", 60))); });
    op(a, "await-client-finished", [](Agent &a) { tls_poll(a); return a.tls.hs >= 2 || a.tls.bad; }, [](Agent &a) { if (a.tls.bad) mc_fail("%s: %s during handshake", a.name, a.tls.badwhy.c_str()); });
    op(a, "send-ticket", yes, [](Agent &a) { ag_deliver(a, tls_record(0x16, hsmsg("NT", 30))); });
}
void o_tsend(Agent &a, const Str &b, size_t rec) {
    op(a, "tls-send", yes, [b, rec](Agent &a) { a.sent += b; Str w; for (size_t i = 0; i < b.size(); i += rec) w += tls_record(0x17, b.substr(i, rec)); deliver_cut(a, w); });
}
void o_asend(Agent &a, const Str &b) { op(a, "send", yes, [b](Agent &a) { a.sent += b; if (!a.tls.on) { deliver_cut(a, b); return; } Str w; for (size_t i = 0; i < b.size(); i += 16384) w += tls_record(0x17, b.substr(i, 16384)); deliver_cut(a, w); }); }
void o_tkey(Agent &a) { op(a, "key-update", yes, [](Agent &a) { ag_deliver(a, tls_record(0x16, hsmsg("KU", 5))); }); }
void o_tclose(Agent &a) { op(a, "close-notify", yes, [](Agent &a) { ag_deliver(a, tls_record(0x15, Str("\x01\x00", 2))); }); }

/* ---------------- scheduler ---------------- */
struct Step { int kind, id; };
enum { E_CONN, E_DNS, E_OP, E_DRAIN, E_RST, E_FIN, E_TIME };
static std::vector<Step> g_steps, g_alts;
static void enabled() {
    g_steps.clear(); g_alts.clear();
    for (auto s : W->socks) if (s->kind == K_TCP && s->open && s->st == T_SYN && s->backlog_extra >= 0 && W->now_ms >= s->t_open + W->env_delay) g_steps.push_back({E_CONN, s->id});
    if (W->dns_auto) for (size_t i = 0; i < W->dns.size(); i++) if (!W->dns[i].answered && W->S(W->dns[i].sock).open && W->now_ms >= W->dns[i].t + W->env_delay) g_steps.push_back({E_DNS, (int)i});
    for (auto &a : W->agents) {
        if (g_pend.count(a.id)) { if (W->now_ms >= a.t_pend) g_steps.push_back({E_OP, a.id}); continue; }
        if (a.done()) continue;
        Op &o = a.ops[a.pc];
        if (o.en(a)) g_steps.push_back({E_OP, a.id});
        if (W->f.armed && W->f.peerdie && a.sock >= 0 && !a.closed) { g_alts.push_back({E_RST, a.id}); g_alts.push_back({E_FIN, a.id}); }
    }
    if (!W->nodrain || W->phase) for (auto s : W->socks) if (s->kind == K_TCP && s->open && s->blocked && !s->peer_closed && W->now_ms >= s->t_block + W->drain_delay) g_steps.push_back({E_DRAIN, s->id});
    for (auto s : W->socks) if (s->kind == K_UDP && s->open && s->blocked) g_steps.push_back({E_DRAIN, s->id});
}
static void connect_done(Sock &s, bool now = false);
static void perform(Step st) {
    W->f.armed ? mc_trans(0) : mc_trans(0);
    switch (st.kind) {
    case E_CONN: connect_done(W->S(st.id)); break;
    case E_DNS: {
        DnsQuery &q = W->dns[st.id]; q.answered = true; Dgram d; d.ip = q.ip; d.port = q.port;
        if (W->dns_reply && W->dns_reply(q, d)) { Sock &s = W->S(q.sock); NOTE("env: dns reply %zu bytes for %s", d.data.size(), q.name.c_str()); s.dq.push_back(d); W->notify(s, EPOLLIN); }
        else NOTE("env: no dns reply for %s", q.name.c_str());
        break; }
    case E_OP: {
        Agent &a = W->agents[st.id];
        auto it = g_pend.find(a.id);
        if (it != g_pend.end()) { Str r = it->second; g_pend.erase(it); NOTE("env: %s rest of arrival (%zu)", a.name, r.size()); if (W->trickle_in && r.size() > W->trickle_in) { ag_deliver(a, r.substr(0, W->trickle_in)); g_pend[a.id] = r.substr(W->trickle_in); a.t_pend = W->now_ms + W->trickle_delay; } else ag_deliver(a, r); break; }
        Op &o = a.ops[a.pc]; NOTE("env: %s %s", a.name, o.name);
        a.pc++; auto f = o.act; f(a); break; }
    case E_DRAIN: { Sock &s = W->S(st.id); NOTE("env: window of fd%d opens", s.fd); s.blocked = false; W->notify(s, EPOLLOUT); break; }
    case E_RST: { Agent &a = W->agents[st.id]; NOTE("env: ! %s resets", a.name); W->injected++; a.dead = true; g_pend.erase(a.id); ag_rst(a); break; }
    case E_FIN: { Agent &a = W->agents[st.id]; NOTE("env: ! %s closes", a.name); W->injected++; a.dead = true; g_pend.erase(a.id); ag_close(a); break; }
    }
}
static void connect_done(Sock &s, bool now) {
    Target *t = nullptr; for (auto &x : W->targets) if ((!x.ip || x.ip == s.ip) && (!x.port || x.port == s.port)) { t = &x; break; }
    int mode = t ? t->mode : 1;
    if (mode == 2) { s.backlog_extra = -1; return; }
    if (!now && W->f.armed && W->f.conn && mode == 0) { int k = mc_choose(3, 1, "connect"); if (k == 1) { mode = 1; W->injected++; } if (k == 2) { s.backlog_extra = -1; W->injected++; NOTE("env: ! connect never answered"); return; } }
    if (mode == 1 || mode == 4) { NOTE("env: connect fd%d refused", s.fd); s.st = T_FAIL; s.so_err = ECONNREFUSED; W->notify(s, EPOLLIN|EPOLLOUT|EPOLLERR|EPOLLHUP); return; }
    NOTE("env: connect fd%d established", s.fd);
    s.st = T_EST; 
    Agent &a = add_agent("target"); a.sock = s.id; s.agent = a.id; if (t->script) { auto f = t->script; f(a); }
    W->notify(s, EPOLLOUT);
}

void Scenario::stuck(Agent &a) { mc_fail("stalled: %s waits for '%s' and nothing can happen any more", a.name, a.ops[a.pc].name); }

static void hash_state() {
    uint64_t h = W->phase + 77;
    for (auto s : W->socks) {
        if (s->kind == K_FILE || s->kind == K_SINK) { if (s->open) h = mc_mix(h, s->fpos + 3); continue; }
        h = mc_mix(h, s->id * 64 + s->kind * 8 + s->st); h = mc_mix(h, (uint64_t)s->fd);
        h = mc_mix(h, (uint64_t)s->open | s->rx_fin << 1 | s->rst << 2 | s->tx_fin << 3 | s->blocked << 4 | s->inep << 5 | s->rdy << 6 | (s->so_err != 0) << 7 | s->peer_closed << 8 | (uint64_t)s->interest << 16);
        h = mc_mix(h, s->rx.size() - s->rxpos); h = mc_mix(h, s->tx.size()); h = mc_mix(h, s->acceptq.size() + s->dq.size() * 1000);
        if (s->rx.size() > s->rxpos) h = mc_hash(h, s->rx.data() + s->rxpos, s->rx.size() - s->rxpos); for (auto &d : s->dq) h = mc_hash(h, d.data.data(), d.data.size());
    }
    for (auto &a : W->agents) h = mc_mix(h, a.pc * 4 + a.dead * 2 + a.closed);
    h = mc_mix(h, W->now_ms); h = mc_mix(h, W->dns.size() * 100 + W->connects.size());
    h = memhash(h, __start_vfdata, g_nd & ~7ul); h = memhash(h, __start_vfbss, g_nb & ~7ul);
    uint64_t sum = 0;
    for (auto &b : g_blk) if (b.second.seq > g_baseseq) sum += memhash(b.second.seq * 0x10001 + b.second.n, b.first, b.second.n);
    mc_state(mc_mix(h, sum));
}

static std::map<void*, size_t> g_maps;
/* everything the program remembers */
uint64_t sim_memhash() { uint64_t h = memhash(1, __start_vfdata, g_nd & ~7ul), sum = 0; h = memhash(h, __start_vfbss, g_nb & ~7ul); for (auto &b : g_blk) sum += memhash(b.second.seq * 0x10001 + b.second.n, b.first, b.second.n); for (auto &m : g_maps) sum += mc_hash(m.second, m.first, m.second); return mc_mix(h, sum); }
static void baseline() { g_baseseq = g_blkseq; W->baselined = true; W->max_con = W->nconn_open(); }
static std::set<int> g_basefds;

static void check_release(const char *when) {
    for (auto s : W->socks) if (s->open && s->fd >= 0 && !g_basefds.count(s->id) && s->kind != K_EPOLL) mc_fail("descriptor leak: fd%d (%s%s) still open %s", s->fd, s->kind == K_TCP ? "tcp" : s->kind == K_UDP ? "udp" : "file ", s->path.c_str(), when);
    size_t n = 0; long seq = 0; size_t sz = 0;
    for (auto &b : g_blk) if (b.second.seq > g_baseseq) { n++; if (!seq || b.second.seq < seq) { seq = b.second.seq; sz = b.second.n; } }
    if (n) mc_fail("memory leak: %zu blocks still allocated %s (first: %zu bytes)", n, when, sz);
    if (W->ssl_live) mc_fail("leak: %d TLS objects still alive %s", W->ssl_live, when);
}

extern "C" { int (*mod_epoll_hook)(struct epoll_event *, int, int); int (*mod_epollctl_hook)(int, int, struct epoll_event *); int (*mod_close_hook)(int); ssize_t (*mod_write_hook)(int, const void *, size_t); ssize_t (*mod_send_hook)(int, const void *, size_t); ssize_t (*mod_recv_hook)(int, void *, size_t, int); void *(*mod_malloc_hook)(size_t); int (*mod_free_hook)(void *); }
#include "sim_proc.h"
static const sigset_t *g_waitmask;
extern "C" int vf_epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout) {
    if (mod_epoll_hook) return mod_epoll_hook(ev, max, timeout);
    if (PH && PH->wait(g_waitmask) < 0) { errno = EINTR; return -1; }
    if (W->since_wait > 0 || !W->baselined) {}
    W->since_wait = 0;
    if (!W->baselined) { baseline(); g_basefds.clear(); for (auto s : W->socks) if (s->open) g_basefds.insert(s->id); }
    if (++W->waits > 20000) mc_fail("endless loop: the event loop never comes to rest");
    Sock *ep = W->byfd(epfd); if (!ep || ep->kind != K_EPOLL) { errno = EBADF; return -1; }
    mc_trans(1); hash_state();
    if (W->f.armed && W->f.eintr && mc_choose(2, 1, "wait-eintr")) { NOTE("  ! epoll_wait EINTR"); errno = EINTR; return -1; }
    W->scn->step();
    int idle_guard = 0;
    for (;;) {
        /* drop stale ready entries */
        size_t k = 0;
        for (size_t i = 0; i < W->rdyq.size(); i++) { Sock &s = W->S(W->rdyq[i]); uint32_t m = s.open && s.inep ? (W->mask(s) & (s.interest | EPOLLERR | EPOLLHUP)) : 0; if (m) W->rdyq[k++] = s.id; else s.rdy = false; }
        W->rdyq.resize(k);
        enabled();
        if (!W->rdyq.empty()) {
            if (W->f.armed && W->f.early && !g_steps.empty()) { int c = mc_choose(1 + g_steps.size(), 1, "early"); if (c) { perform(g_steps[c - 1]); hash_state(); continue; } }
            int n = 0;
            size_t cnt = W->rdyq.size() < (size_t)max ? W->rdyq.size() : max;
            if (cnt > 1 && W->f.armed && W->f.order) { int c = mc_choose(cnt == 2 ? 2 : 3, 1, "order"); if (c == 1) std::vector<int>(W->rdyq.rbegin(), W->rdyq.rend()).swap(W->rdyq); else if (c == 2) { int x = W->rdyq[0]; W->rdyq.erase(W->rdyq.begin()); W->rdyq.push_back(x); } }
            for (size_t i = 0; i < cnt; i++) { Sock &s = W->S(W->rdyq[i]); uint32_t m = W->mask(s) & ((s.interest & ~(EPOLLET|EPOLLONESHOT)) | EPOLLERR | EPOLLHUP); ev[n].events = m; ev[n].data.u64 = s.epdata; NOTE("event fd%d %s%s%s", s.fd, m & EPOLLIN ? "R" : "", m & EPOLLOUT ? "W" : "", m & (EPOLLERR|EPOLLHUP) ? "!" : ""); n++; if (s.interest & EPOLLONESHOT) s.interest = 0; s.rdy = false; if (!(s.interest & EPOLLET)) { s.rdy = true; W->rdyq.push_back(s.id); } }
            W->rdyq.erase(W->rdyq.begin(), W->rdyq.begin() + cnt);
            return n;
        }
        bool timeopt = W->f.armed && W->f.time && timeout >= 0;
        int alts = (W->phase == 0 ? g_alts.size() : 0) + (timeopt ? 1 : 0);
        if (!g_steps.empty() || alts) {
            bool none = g_steps.empty();
            int n = (none ? 1 : g_steps.size()) + alts; int c = 0;
            if (W->f.armed && (W->f.sched || W->f.peerdie || W->f.time)) {
                if (!W->f.sched && !none) { c = mc_choose(1 + alts, 1, "env"); if (c) c = g_steps.size() + c - 1; }
                else c = mc_choose(n, 1, "env");
            }
            int base = none ? 1 : g_steps.size();
            if (c >= base) {
                int j = c - base;
                if (j < (int)(W->phase == 0 ? g_alts.size() : 0)) { perform(g_alts[j]); hash_state(); continue; }
                NOTE("env: ! %d ms pass", timeout); W->injected++; W->now_ms += timeout; return 0;
            }
            if (!none) { perform(g_steps[c]); hash_state(); continue; }
        }
        /* nothing can happen */
        if (W->phase == 0) {
            long long soon = -1; Agent *st = nullptr;
            for (auto &a : W->agents) if (!a.done()) {
                if (!strcmp(a.ops[a.pc].name, "pause-end")) { if (soon < 0 || a.t_ready < soon) soon = a.t_ready; }
                else if (!a.background && !st) st = &a;
            }
            if (W->trickle_delay) for (auto &a : W->agents) if (g_pend.count(a.id) && (soon < 0 || a.t_pend < soon)) soon = a.t_pend;
            if (W->drain_delay && !W->nodrain) for (auto s : W->socks) if (s->kind == K_TCP && s->open && s->blocked && !s->peer_closed && (soon < 0 || s->t_block + W->drain_delay < soon)) soon = s->t_block + W->drain_delay;
            if (W->env_delay) {
                for (auto s : W->socks) if (s->kind == K_TCP && s->open && s->st == T_SYN && s->backlog_extra >= 0 && (soon < 0 || s->t_open + W->env_delay < soon)) soon = s->t_open + W->env_delay;
                for (auto &q : W->dns) if (!q.answered && W->S(q.sock).open && (soon < 0 || q.t + W->env_delay < soon)) soon = q.t + W->env_delay;
            }
            if (soon >= 0) { long long d = soon - W->now_ms; if (timeout >= 0 && timeout < d) d = timeout; W->now_ms += d; NOTE("time +%lld", d); if (d == timeout) return 0; continue; }
            if (st) { size_t before = W->injected; (void)before; W->scn->stuck(*st); /* tolerant scenarios return: let time pass */
                if (timeout < 0) mc_fail("waits for ever with work outstanding");
                W->now_ms += timeout ? timeout : 1; NOTE("time +%d (waiting)", timeout); if (++idle_guard > 5) {} return 0; }
            W->scn->finished();
            if (W->scn->skip_drain) mc_done();
            W->phase = 1; W->f.armed = false; W->t_drain = W->now_ms;
            NOTE("--- all scripts done, peers close");
            for (auto &a : W->agents) { if (a.sock >= 0 && !a.closed) ag_close(a); }
            for (auto s : W->socks) if (s->blocked) { s->blocked = false; if (s->open) W->notify(*s, EPOLLOUT); }
            continue;
        }
        /* draining: let time pass until everything is closed */
        bool busy = false; for (auto s : W->socks) if (s->open && s->fd >= 0 && (s->kind == K_TCP || s->kind == K_UDP)) busy = true;
        if (!busy) { bool blocks = false; for (auto &b : g_blk) if (b.second.seq > g_baseseq) blocks = true; busy = blocks && W->scn->check_release && W->now_ms - W->t_drain < 70000; }
        if (busy && W->now_ms - W->t_drain < 130000) { if (timeout < 0) mc_fail("waits for ever with connections open"); long d = timeout > 0 ? timeout : 1; W->now_ms += d; NOTE("time +%ld (draining)", d); return 0; }
        if (W->scn->check_release) check_release("after every peer has gone"); else for (auto s : W->socks) if (s->open && s->fd >= 0 && s->kind == K_TCP) mc_fail("connection fd%d still open long after its peer has gone", s->fd);
        W->scn->drained();
        if (W->scn->more()) { W->phase = 0; W->nprobe++; continue; }
        mc_done();
    }
}

/* ---------------- libc surface ---------------- */
extern "C" {
int vf_socket(int d, int t, int p) {
    sys_enter(); int e = sysfault(W->f.sys, "socket", {EMFILE}); if (e) { errno = e; return -1; }
    int id = W->newsock((t & 0xf) == SOCK_DGRAM ? K_UDP : K_TCP); if (t & SOCK_NONBLOCK) W->S(id).nonblock = true; return W->allocfd(id);
}
int vf_bind(int fd, const struct sockaddr *a, socklen_t n) { sys_enter(); Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; } s->port = ntohs(((struct sockaddr_in*)a)->sin_port); return 0; }
int vf_listen(int fd, int b) { sys_enter(); Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; } s->kind = K_LISTEN; return 0; }
static int do_accept(int fd, struct sockaddr *a, socklen_t *n, int fl) {
    sys_enter(); Sock *l = W->byfd(fd); if (!l) { errno = EBADF; return -1; } if (l->kind != K_LISTEN) { errno = EINVAL; return -1; }
    if (l->acceptq.empty()) { errno = EAGAIN; return -1; }
    if (W->f.armed && W->f.acc) { int k = mc_choose(4, 1, "accept"); if (k) { int e = k == 1 ? EINTR : k == 2 ? ECONNABORTED : EPROTO; W->injected++; NOTE("  ! accept: %s", strerror(e)); if (k > 1) { int id = l->acceptq.front(); l->acceptq.pop_front(); Sock &s = W->S(id); s.open = false; s.tx_fin = true; s.rst = true; if (s.agent >= 0) { W->agents[s.agent].dead = true; W->agents[s.agent].closed = true; } } errno = e; return -1; } }
    int id = l->acceptq.front(); l->acceptq.pop_front(); int nfd = W->allocfd(id); Sock &s = W->S(id);
    if (fl & SOCK_NONBLOCK) s.nonblock = true;
    if (a && n) { struct sockaddr_in si; memset(&si, 0, sizeof si); si.sin_family = AF_INET; si.sin_port = htons(40000 + id); si.sin_addr.s_addr = s.ip; memcpy(a, &si, *n < sizeof si ? *n : sizeof si); *n = sizeof si; }
    NOTE("  accept -> fd%d", nfd);
    return nfd;
}
int vf_accept(int fd, struct sockaddr *a, socklen_t *n) { return do_accept(fd, a, n, 0); }
int vf_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { return do_accept(fd, a, n, fl); }
int vf_connect(int fd, const struct sockaddr *a, socklen_t n) {
    sys_enter(); Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; }
    const struct sockaddr_in *si = (const struct sockaddr_in*)a;
    if (s->kind == K_UDP) { s->ip = si->sin_addr.s_addr; s->port = ntohs(si->sin_port); return 0; }
    if (s->st == T_SYN) { errno = EALREADY; return -1; } if (s->st == T_EST) { errno = EISCONN; return -1; }
    if (si->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    s->ip = si->sin_addr.s_addr; s->port = ntohs(si->sin_port);
    W->connects.push_back({s->ip, s->port});
    NOTE("  connect fd%d -> %s:%d", fd, inet_ntoa(si->sin_addr), s->port);
    if (!s->nonblock) mc_fail("connect on a blocking socket");
    Target *t = nullptr; for (auto &x : W->targets) if ((!x.ip || x.ip == s->ip) && (!x.port || x.port == s->port)) { t = &x; break; }
    int mode = t ? t->mode : 1;
    if (W->f.armed && W->f.conn && mode == 0) { int k = mc_choose(3, 1, "connect-now"); if (k == 1) mode = 3; if (k == 2) { mode = 4; W->injected++; } }
    if (mode == 4) { s->st = T_FAIL; errno = ECONNREFUSED; return -1; }
    if (mode == 3) { s->st = T_SYN; connect_done(*s, true); return 0; }
    s->st = T_SYN; errno = EINPROGRESS; return -1;
}
int vf_close(int fd) {
    if (mod_close_hook) { int r = mod_close_hook(fd); if (r != -2) return r; }
    sys_enter();
    if (fd >= 0 && fd < 3) mc_fail("the program closes descriptor %d, which it does not own", fd);
    if (fd < 0) { errno = EBADF; return -1; }
    Sock *s = W->byfd(fd); if (!s) { if (W->lenient_close) { errno = EBADF; return -1; } mc_fail("close of descriptor %d which is not open", fd); }
    NOTE("  close fd%d", fd);
    W->fdt.erase(fd); s->fd = -1; s->open = false; s->inep = false; s->tx_fin = true; s->t_close = W->now_ms;
    if (s->rdy) { s->rdy = false; for (size_t i = 0; i < W->rdyq.size(); i++) if (W->rdyq[i] == s->id) { W->rdyq.erase(W->rdyq.begin() + i); break; } }
    if (s->kind == K_LISTEN) for (int q : s->acceptq) { W->S(q).open = false; W->S(q).tx_fin = true; }
    return 0;
}
int vf_shutdown(int fd, int how) { sys_enter(); Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; } if (how != SHUT_RD) s->tx_fin = true; return 0; }
ssize_t vf_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *); ssize_t vf_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
static bool is_udp(int fd) { Sock *s = W ? W->byfd(fd) : nullptr; return s && s->kind == K_UDP; }
ssize_t vf_recv(int fd, void *b, size_t n, int fl) { return is_udp(fd) ? vf_recvfrom(fd, b, n, fl, NULL, NULL) : k_recv(fd, b, n, fl); }
ssize_t vf_send(int fd, const void *b, size_t n, int fl) { return is_udp(fd) ? vf_sendto(fd, b, n, fl, NULL, 0) : k_send(fd, b, n, fl & MSG_NOSIGNAL); }
static ssize_t udp_recv(Sock *s, void *b, size_t n, struct sockaddr *a, socklen_t *al, int fl) {
    int e = sysfault(W->f.recverr, "recvfrom", {ECONNREFUSED}); if (e) { errno = e; return -1; }
    if (s->dq.empty()) { errno = EAGAIN; return -1; }
    Dgram &d = s->dq.front(); size_t k = d.data.size() < n ? d.data.size() : n; memcpy(b, d.data.data(), k);
    if (a && al) { struct sockaddr_in si; memset(&si, 0, sizeof si); si.sin_family = AF_INET; si.sin_addr.s_addr = d.ip; si.sin_port = htons(d.port); memcpy(a, &si, *al < sizeof si ? *al : sizeof si); *al = sizeof si; }
    if (!(fl & MSG_PEEK)) s->dq.pop_front();
    NOTE("  recvfrom %zu", k); return k;
}
ssize_t vf_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al) {
    Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; } if (s->kind != K_UDP) return k_recv(fd, b, n, fl);
    sys_enter(); return udp_recv(s, b, n, a, al, fl);
}
static void parse_query(DnsQuery &q) {
    const unsigned char *p = (const unsigned char*)q.data.data(); size_t n = q.data.size();
    if (n < 12) return; q.id = p[0] << 8 | p[1]; q.flags = p[2] << 8 | p[3];
    int qd = p[4] << 8 | p[5]; if (qd != 1 || p[6] || p[7] || p[8] || p[9]) return;
    size_t i = 12; Str nm;
    for (;;) { if (i >= n) return; int l = p[i++]; if (!l) break; if (l > 63 || i + l > n) { q.name = "?"; return; } if (!nm.empty()) nm += '.'; nm.append((const char*)p + i, l); i += l; }
    if (i + 4 > n) return; q.qtype = p[i] << 8 | p[i+1]; q.qclass = p[i+2] << 8 | p[i+3]; q.name = nm; q.wellformed = (i + 4 == n || (p[10]|p[11])) && nm.size() <= 253;
}
ssize_t vf_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al) {
    Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; } if (s->kind != K_UDP) return k_send(fd, b, n, fl & MSG_NOSIGNAL);
    sys_enter(); int e = sysfault(W->f.senderr, "sendto", {ENETUNREACH}); if (e) { errno = e; return -1; }
    if (s->blocked) { errno = EAGAIN; return -1; }
    if (W->f.armed && W->f.block && s->nblock < 1 && mc_choose(2, 1, "sendto-block")) { s->blocked = true; s->nblock++; errno = EAGAIN; return -1; }
    DnsQuery q; q.sock = s->id; q.data.assign((const char*)b, n); q.t = W->now_ms; q.ip = a ? ((const struct sockaddr_in*)a)->sin_addr.s_addr : s->ip; q.port = a ? ntohs(((const struct sockaddr_in*)a)->sin_port) : s->port; q.qtype = q.qclass = q.id = q.flags = 0;
    parse_query(q); NOTE("  dns query %zu bytes '%s'", n, q.name.c_str()); W->dns.push_back(q); return n;
}
/* a period that is no multiple of any buffer size tells every offset from its neighbours */
const char *huge_at(size_t pos) { static Str t; if (t.empty()) { t.resize(2 * 65521); unsigned x = 12345; for (size_t i = 0; i < 65521; i++) { x = x * 1103515245u + 12345; t[i] = t[i + 65521] = x >> 16; } } return t.data() + pos % 65521; }
ssize_t vf_read(int fd, void *b, size_t n) {
    if (mod_recv_hook) { ssize_t r = mod_recv_hook(fd, b, n, 0); if (r != -2) return r; }
    Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; }
    if (s->kind == K_TCP) return k_recv(fd, b, n, 0);
    if (s->kind == K_UDP) { sys_enter(); return udp_recv(s, b, n, 0, 0, 0); }
    sys_enter(); if (s->kind != K_FILE) { errno = EBADF; return -1; }
    int e = sysfault(W->f.sys, "read", {EIO}); if (e) { errno = e; return -1; }
    if (!s->content) { errno = EISDIR; return -1; }
    if (s->huge) { size_t k = std::min({n, s->huge - std::min(s->huge, s->fpos), (size_t)65521}); memcpy(b, huge_at(s->fpos), k); s->fpos += k; return k; }
    size_t av = s->fpos < s->content->size() ? s->content->size() - s->fpos : 0; size_t k = av < n ? av : n;
    if (k > 1 && W->f.armed && W->f.shortread && mc_choose(2, 1, "short-read")) k = k / 2;
    memcpy(b, s->content->data() + s->fpos, k); s->fpos += k; return k;
}
ssize_t vf_pread(int fd, void *b, size_t n, off_t o) { Sock *s = W->byfd(fd); if (!s || s->kind != K_FILE) { errno = EBADF; return -1; } if (o < 0) { errno = EINVAL; return -1; } auto keep = s->fpos; s->fpos = o; ssize_t r = vf_read(fd, b, n); s->fpos = keep; return r; }
off_t vf_lseek(int fd, off_t o, int wh) { Sock *s = W->byfd(fd); if (!s || s->kind != K_FILE || !s->content) { errno = EBADF; return -1; } sys_enter(); off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? s->fpos : s->huge ? s->huge : s->content->size(); if (base + o < 0) { errno = EINVAL; return -1; } s->fpos = base + o; return s->fpos; }
ssize_t vf_write(int fd, const void *b, size_t n) {
    if (mod_write_hook) { ssize_t r = mod_write_hook(fd, b, n); if (r != -2) return r; }
    if (fd == 1 || fd == 2) { if (W->keep_sinks) W->stdouts.push_back({fd, Str((const char*)b, n)}); return n; }
    Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; }
    if (s->kind == K_SINK) { if (W->keep_sinks) W->sinks[s->path].append((const char*)b, n); return n; }
    return vf_send(fd, b, n, 0);
}
ssize_t vf_writev(int fd, const struct iovec *v, int c) { Str b; for (int i = 0; i < c; i++) b.append((char*)v[i].iov_base, v[i].iov_len); ssize_t r = vf_write(fd, b.data(), b.size()); return r; }
ssize_t vf_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = vf_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t vf_sendmsg(int fd, const struct msghdr *m, int fl) { Str b; for (size_t i = 0; i < m->msg_iovlen; i++) b.append((char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return m->msg_name ? vf_sendto(fd, b.data(), b.size(), fl, (struct sockaddr*)m->msg_name, m->msg_namelen) : vf_send(fd, b.data(), b.size(), fl); }
ssize_t vf_recvmsg(int fd, struct msghdr *m, int fl) { if (m->msg_iovlen < 1) { errno = EINVAL; return -1; } socklen_t l = m->msg_namelen; ssize_t r = vf_recvfrom(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, (struct sockaddr*)m->msg_name, m->msg_name ? &l : NULL); return r; }
int vf_fcntl(int fd, int cmd, ...) {
    sys_enter(); va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; }
    int e = sysfault(W->f.sys, "fcntl", {EINVAL}); if (e) { errno = e; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
int vf_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return vf_fcntl(fd, cmd, arg); }
int vf_ioctl(int fd, unsigned long req, ...) { sys_enter(); va_list ap; va_start(ap, req); int *p = va_arg(ap, int*); va_end(ap); Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; } if (req == 0x5421) { s->nonblock = *p; return 0; } if (req == 0x541B) { *p = s->rx.size() - s->rxpos; return 0; } return 0; }
int vf_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { sys_enter(); Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; } int e = sysfault(W->f.sys, "setsockopt", {EINVAL}); if (e) { errno = e; return -1; } return 0; }
int vf_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { sys_enter(); Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; } int e = sysfault(W->f.sys, "getsockopt", {EINVAL}); if (e) { errno = e; return -1; } if (o == SO_ERROR) { *(int*)v = s->so_err; s->so_err = 0; } else *(int*)v = 0; return 0; }
int vf_getsockname(int fd, struct sockaddr *a, socklen_t *n) { struct sockaddr_in si; memset(&si, 0, sizeof si); si.sin_family = AF_INET; memcpy(a, &si, *n < sizeof si ? *n : sizeof si); return 0; }
int vf_getpeername(int fd, struct sockaddr *a, socklen_t *n) { Sock *s = W->byfd(fd); if (!s || s->st != T_EST || s->rst) { errno = ENOTCONN; return -1; } struct sockaddr_in si; memset(&si, 0, sizeof si); si.sin_family = AF_INET; si.sin_addr.s_addr = s->ip; si.sin_port = htons(s->port); memcpy(a, &si, *n < sizeof si ? *n : sizeof si); return 0; }
int vf_epoll_create1(int f) { sys_enter(); return W->allocfd(W->newsock(K_EPOLL)); }
int vf_epoll_create(int f) { return vf_epoll_create1(0); }
int vf_epoll_ctl(int ep, int op, int fd, struct epoll_event *e) {
    if (mod_epollctl_hook) return mod_epollctl_hook(op, fd, e);
    sys_enter(); Sock *s = W->byfd(fd); if (!s) { errno = EBADF; return -1; } Sock *p = W->byfd(ep); if (!p || p->kind != K_EPOLL) { errno = EBADF; return -1; }
    if (op == EPOLL_CTL_ADD) { if (s->inep) { errno = EEXIST; return -1; } int er = sysfault(W->f.sys, "epoll_ctl", {ENOSPC}); if (er) { errno = er; return -1; } s->inep = true; }
    else if (!s->inep) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_DEL) { s->inep = false; s->rdy = false; for (size_t i = 0; i < W->rdyq.size(); i++) if (W->rdyq[i] == s->id) { W->rdyq.erase(W->rdyq.begin() + i); break; } return 0; }
    s->interest = e->events; s->epdata = e->data.u64;
    W->notify(*s, W->mask(*s));
    return 0;
}
int vf_epoll_pwait(int ep, struct epoll_event *e, int m, int t, const sigset_t *s) { g_waitmask = s; int r = vf_epoll_wait(ep, e, m, t); g_waitmask = nullptr; return r; }
/* ---- files ---- */
static Str norm(const char *p) { std::vector<Str> v; Str s = p, cur; if (s.empty() || s[0] != '/') s = "/cwd/" + s; s += '/'; for (char c : s) { if (c == '/') { if (cur == "..") { if (!v.empty()) v.pop_back(); } else if (!cur.empty() && cur != ".") v.push_back(cur); cur.clear(); } else cur += c; } Str o; for (auto &x : v) o += "/" + x; return o.empty() ? "/" : o; }
/* resolves like the kernel: every component but the last must be an existing directory; 0 or an error number */
static bool is_dir(const Str &n) { auto it = W->vfs.find(n); if (it != W->vfs.end()) return it->second.type == 1; it = W->vfs.lower_bound(n + "/"); return it != W->vfs.end() && it->first.compare(0, n.size() + 1, n + "/") == 0; }
static int walk(const char *p) { Str s = p, done, cur; if (s.empty()) return ENOENT; if (s[0] != '/') s = "/cwd/" + s; for (size_t i = 1; i < s.size(); i++) { if (s[i] != '/') { cur += s[i]; continue; } if (cur.size() > 255) return ENAMETOOLONG; if (!cur.empty()) { done += "/" + cur; Str n = norm(done.c_str()); if (n != "/" && !is_dir(n)) return W->vfs.count(n) ? ENOTDIR : ENOENT; done = n == "/" ? "" : n; } cur.clear(); } return cur.size() > 255 ? ENAMETOOLONG : 0; }
static int do_open(const char *path, int fl) {
    sys_enter(); Str n = norm(path);
    int e = sysfault(W->f.sys, "open", {EMFILE}); if (e) { errno = e; return -1; }
    if (strlen(path) >= 4096) { errno = ENAMETOOLONG; return -1; }
    if (n.compare(0, 18, "/usr/local/s5/logs") == 0 || n == "/dev/null") {
        auto it = W->vfs.find(n);
        if (!(fl & (O_CREAT|O_RDWR|O_WRONLY)) && it == W->vfs.end() && n != "/dev/null") { errno = ENOENT; return -1; }
        int id = W->newsock(K_SINK); W->S(id).path = n; int fd = W->allocfd(id); if (it != W->vfs.end() && !(fl & (O_WRONLY|O_RDWR))) { W->S(id).kind = K_FILE; W->S(id).content = &it->second.data; } return fd; }
    NOTE("  open %s", n.c_str());
    int we = walk(path); if (we) { errno = we; return -1; }
    auto it = W->vfs.find(n); if (it == W->vfs.end()) { errno = ENOENT; return -1; }
    if (it->second.type == 3 || it->second.type == 2) { errno = EACCES; return -1; }
    if (it->second.type == 1 && (fl & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if ((fl & O_ACCMODE) != O_RDONLY) mc_fail("program opens %s for writing", n.c_str());
    if (it->second.type != 1 && path[strlen(path) - 1] == '/') { errno = ENOTDIR; return -1; }
    if (it->second.type == 6 && !(fl & O_NONBLOCK)) mc_fail("the program opens a named pipe and waits for somebody to write to it");
    W->opened.push_back(n);
    int id = W->newsock(K_FILE); Sock &s = W->S(id); s.path = n; s.content = it->second.type == 1 ? nullptr : &it->second.data; if (it->second.type == 5) s.huge = it->second.statsize; return W->allocfd(id);
}
int vf_open(const char *p, int fl, ...) { return do_open(p, fl); }
int vf_open64(const char *p, int fl, ...) { return do_open(p, fl); }
int vf_openat(int d, const char *p, int fl, ...) { return do_open(p, fl); }
static void fill_stat(const VFile &f, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = f.type == 1 ? (S_IFDIR | 0755) : f.type == 2 || f.type == 7 ? S_IFREG : f.type == 6 ? (S_IFIFO | 0644) : (S_IFREG | 0644); if (f.mode >= 0) st->st_mode = (st->st_mode & S_IFMT) | f.mode; st->st_size = f.type == 1 ? 4096 : f.statsize ? f.statsize : f.data.size(); st->st_nlink = 1; }
int vf_stat(const char *p, struct stat *st) { sys_enter(); int e = sysfault(W->f.sys, "stat", {EIO}); if (e) { errno = e; return -1; } if (strlen(p) >= 4096) { errno = ENAMETOOLONG; return -1; } Str n = norm(p); auto it = W->vfs.find(n); int we = walk(p); if (we) { errno = we; return -1; } if (it == W->vfs.end()) { errno = ENOENT; return -1; } if (it->second.type != 1 && p[strlen(p) - 1] == '/') { errno = ENOTDIR; return -1; } fill_stat(it->second, st); return 0; }
int vf_stat64(const char *p, struct stat *st) { return vf_stat(p, st); }
int vf_lstat(const char *p, struct stat *st) { return vf_stat(p, st); }
int vf_fstat(int fd, struct stat *st) { sys_enter(); Sock *s = W->byfd(fd); if (!s || s->kind != K_FILE) { errno = EBADF; return -1; } auto it = W->vfs.find(s->path); if (it == W->vfs.end()) { errno = EBADF; return -1; } fill_stat(it->second, st); return 0; }
int vf_fstat64(int fd, struct stat *st) { return vf_fstat(fd, st); }
int vf_access(const char *p, int m) { struct stat st; if (vf_stat(p, &st)) return -1; return (m & R_OK) && !(st.st_mode & S_IRUSR) ? (errno = EACCES, -1) : 0; }
int vf_unlink(const char *p) { sys_enter(); W->unlinked.push_back(norm(p)); return 0; }
void *vf_malloc(size_t n);
char *vf_realpath(const char *p, char *out) { Str n = norm(p); if (!W->vfs.count(n)) { errno = ENOENT; return NULL; } if (!out) { out = (char*)vf_malloc(4096); if (!out) return NULL; } strcpy(out, n.c_str()); return out; }
/* ---- time ---- */
int vf_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = W->now_ms / 1000; tv->tv_usec = (W->now_ms % 1000) * 1000; return 0; }
int vf_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = W->now_ms / 1000; t->tv_nsec = (W->now_ms % 1000) * 1000000; return 0; }
time_t vf_time(time_t *t) { time_t v = W->now_ms / 1000; if (t) *t = v; return v; }
int vf_usleep(useconds_t) { sys_enter(); return 0; }
unsigned vf_alarm(unsigned n) { sys_enter(); return PH ? PH->alarm(n) : 0; }
unsigned vf_sleep(unsigned) { sys_enter(); return 0; }
/* ---- memory ---- */
static std::map<size_t, int> g_inuse;
static void *track(void *p, size_t n, int kind) { if (p) g_blk[p] = {n, ++g_blkseq, kind}; return p; }
static bool alloc_fails(const char *tag) { if (W && W->f.armed && W->f.alloc && mc_choose(2, 1, tag)) { W->injected++; NOTE("  ! %s fails", tag); return true; } return false; }
void *vf_mem_pool_alloc(int size) {
    if (size <= 0) mc_fail("abort: allocation of %d bytes", size);     /* the pool asserts */
    if (size > 16384) return NULL;
    if (alloc_fails("alloc")) return NULL;
    size_t n = 512; while (n < (size_t)size) n *= 2;
    if (g_inuse[n] >= (n == 512 ? 2048 : 1024)) { NOTE("  ! the pool has no block of %zu bytes left", n); return NULL; }      /* as many as the shipped program has */
    g_inuse[n]++;
    return track(calloc(1, n), n, 0);           /* the shipped pool clears and hands out the whole block */
}
int vf_mem_pool_free(void *p) {
    auto it = g_blk.find(p);
    if (it == g_blk.end() || it->second.kind != 0) { if (p == NULL) mc_fail("release of a null block"); mc_fail("release of a block that is not allocated (released twice?)"); }
    g_inuse[it->second.n]--; g_blk.erase(it); free(p); return 0;
}
int vf_mem_pool_init(void) { return 0; }
int vf_mem_pool_deinit(void) { return 0; }
void *vf_malloc(size_t n) { if (mod_malloc_hook) return mod_malloc_hook(n); if (alloc_fails("malloc")) return NULL; return track(malloc(n), n, 1); }
void *vf_calloc(size_t a, size_t b) { if (mod_malloc_hook) { void *p = mod_malloc_hook(a * b); if (p) memset(p, 0, a * b); return p; } if (alloc_fails("malloc")) return NULL; return track(calloc(a, b), a * b, 1); }
void *vf_realloc(void *p, size_t n) { if (p) { auto it = g_blk.find(p); if (it == g_blk.end()) mc_fail("realloc of a block that is not allocated"); if (alloc_fails("malloc")) return NULL; g_blk.erase(it); } else if (alloc_fails("malloc")) return NULL; return track(realloc(p, n), n, 1); }
void vf_free(void *p) { if (!p) return; if (mod_free_hook && mod_free_hook(p)) return; auto it = g_blk.find(p); if (it == g_blk.end()) mc_fail("free of a block that is not allocated (freed twice?)"); g_blk.erase(it); free(p); }
char *vf_strdup(const char *s) { size_t n = strlen(s) + 1; void *p = vf_malloc(n); if (p) memcpy(p, s, n); return (char*)p; }
/* ---- what the program does not use today but might: the same things under other names ---- */
char *vf_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char*)vf_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int vf_vasprintf(char **o, const char *f, va_list ap) { va_list b; va_copy(b, ap); int n = vsnprintf(NULL, 0, f, b); va_end(b); *o = n < 0 ? NULL : (char*)vf_malloc(n + 1); if (!*o) return -1; return vsnprintf(*o, n + 1, f, ap); }
int vf_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vasprintf(o, f, ap); va_end(ap); return r; }
void *vf_reallocarray(void *p, size_t a, size_t b) { return vf_realloc(p, a * b); }
void *vf_aligned_alloc(size_t, size_t n) { return vf_malloc(n); }
int vf_posix_memalign(void **o, size_t, size_t n) { *o = vf_malloc(n); return *o ? 0 : ENOMEM; }
off_t vf_lseek64(int fd, off_t o, int w) { return vf_lseek(fd, o, w); }
ssize_t vf_pread64(int fd, void *b, size_t n, off_t o) { return vf_pread(fd, b, n, o); }
int vf_openat64(int d, const char *p, int fl, ...) { return do_open(p, fl); }
int vf_lstat64(const char *p, struct stat *st) { return vf_lstat(p, st); }
int vf_fstatat(int, const char *p, struct stat *st, int) { return vf_stat(p, st); }
int vf_nanosleep(const struct timespec *, struct timespec *) { sys_enter(); return 0; }
int vf_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { sys_enter(); return 0; }
int vf_creat(const char *p, mode_t) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC); }
static std::map<FILE*, int> g_files;
static ssize_t ck_read(void *c, char *b, size_t n) { return vf_read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = vf_write((int)(long)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = vf_lseek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return vf_close((int)(long)c); }
FILE *vf_fdopen(int fd, const char *m) { FILE *f = fopencookie((void*)(long)fd, m, {ck_read, ck_write, ck_seek, ck_close}); if (f) g_files[f] = fd; return f; }
FILE *vf_fopen(const char *p, const char *m) { int fd = do_open(p, strchr(m, '+') ? O_RDWR | O_CREAT : *m == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (*m == 'w' ? O_TRUNC : O_APPEND)); return fd < 0 ? NULL : vf_fdopen(fd, m); }
FILE *vf_fopen64(const char *p, const char *m) { return vf_fopen(p, m); }
int vf_fileno(FILE *f) { auto it = g_files.find(f); return it == g_files.end() ? fileno(f) : it->second; }
int vf_fclose(FILE *f) { g_files.erase(f); return fclose(f); }
/* ---- locks: one thread of control, so a lock that is already taken can never be granted ---- */
static std::map<void*, int> g_locks;
int (*mod_lock_hook)(void *m, int op);
int vf_pthread_mutex_lock(pthread_mutex_t *m) { if (mod_lock_hook) return mod_lock_hook(m, 0); if (g_locks[m]++) mc_fail("deadlock: a lock is taken that was never released"); return 0; }
int vf_pthread_mutex_trylock(pthread_mutex_t *m) { if (mod_lock_hook) return mod_lock_hook(m, 1); if (g_locks[m]) return EBUSY; g_locks[m]++; return 0; }
int vf_pthread_mutex_unlock(pthread_mutex_t *m) { if (mod_lock_hook) return mod_lock_hook(m, 2); auto it = g_locks.find(m); if (it != g_locks.end()) g_locks.erase(it); return 0; }
/* ---- output, misc ---- */
int vf_printf(const char *, ...) { return 0; }
int vf_vdprintf(int fd, const char *f, va_list ap) { va_list b; va_copy(b, ap); int n = vsnprintf(NULL, 0, f, b); va_end(b); if (n <= 0) return n; Str t(n + 1, 0); vsnprintf(&t[0], n + 1, f, ap); return vf_write(fd, t.data(), n); }
int vf_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vdprintf(fd, f, ap); va_end(ap); return r; }
/* the same calls as the compiler writes them when it knows how long the buffer is */
#define FORT(n, l) do { if ((size_t)(n) > (l)) mc_fail("buffer overflow: %zu bytes into a buffer of %zu", (size_t)(n), (size_t)(l)); } while (0)
int vf___printf_chk(int, const char *, ...) { return 0; }
int vf___dprintf_chk(int fd, int, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vdprintf(fd, f, ap); va_end(ap); return r; }
int vf___vdprintf_chk(int fd, int, const char *f, va_list ap) { return vf_vdprintf(fd, f, ap); }
int vf___vasprintf_chk(char **o, int, const char *f, va_list ap) { return vf_vasprintf(o, f, ap); }
int vf___asprintf_chk(char **o, int, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vasprintf(o, f, ap); va_end(ap); return r; }
ssize_t vf___read_chk(int fd, void *b, size_t n, size_t l) { FORT(n, l); return vf_read(fd, b, n); }
ssize_t vf___pread_chk(int fd, void *b, size_t n, off_t o, size_t l) { FORT(n, l); return vf_pread(fd, b, n, o); }
ssize_t vf___pread64_chk(int fd, void *b, size_t n, off_t o, size_t l) { FORT(n, l); return vf_pread(fd, b, n, o); }
ssize_t vf___recv_chk(int fd, void *b, size_t n, size_t l, int fl) { FORT(n, l); return vf_recv(fd, b, n, fl); }
ssize_t vf___recvfrom_chk(int fd, void *b, size_t n, size_t l, int fl, struct sockaddr *a, socklen_t *al) { FORT(n, l); return vf_recvfrom(fd, b, n, fl, a, al); }
char *vf___realpath_chk(const char *p, char *o, size_t) { return vf_realpath(p, o); }
/* ---- files, more ---- */
ssize_t vf_pwrite(int fd, const void *b, size_t n, off_t) { return vf_write(fd, b, n); }
ssize_t vf_sendfile(int out, int in, off_t *o, size_t n) {
    Sock *f = W->byfd(in); if (!f || f->kind != K_FILE) { errno = EBADF; return -1; }
    size_t k = n < 65536 ? n : 65536; Str t(k, 0); off_t at = o ? *o : (off_t)f->fpos;
    ssize_t r = vf_pread(in, &t[0], k, at); if (r <= 0) return r;
    ssize_t w = vf_send(out, t.data(), r, 0); if (w < 0) return w;
    if (o) *o += w; else f->fpos += w; return w;
}
ssize_t vf_sendfile64(int out, int in, off_t *o, size_t n) { return vf_sendfile(out, in, o, n); }
int vf_fsync(int) { sys_enter(); return 0; } int vf_fdatasync(int) { sys_enter(); return 0; } int vf_posix_fadvise(int, off_t, off_t, int) { return 0; } int vf_posix_fadvise64(int, off_t, off_t, int) { return 0; }
int vf_isatty(int) { errno = ENOTTY; return 0; }
int vf_remove(const char *p) { return vf_unlink(p); }
int vf_faccessat(int, const char *p, int m, int) { return vf_access(p, m); }
/* ---- chance is not left to chance: a run has to be repeatable ---- */
static uint32_t g_rnd; static uint32_t rnd() { g_rnd = g_rnd * 1664525u + 1013904223u; return g_rnd >> 8; }
ssize_t vf_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char*)b)[i] = rnd(); return n; }
int vf_getentropy(void *b, size_t n) { vf_getrandom(b, n, 0); return 0; }
int vf_RAND_bytes(unsigned char *b, int n) { vf_getrandom(b, n, 0); return 1; }
uint32_t vf_arc4random() { return rnd() << 16 ^ rnd(); } void vf_arc4random_buf(void *b, size_t n) { vf_getrandom(b, n, 0); } uint32_t vf_arc4random_uniform(uint32_t n) { return n ? vf_arc4random() % n : 0; }
long vf_random() { return rnd(); } int vf_rand() { return rnd(); } void vf_srand(unsigned n) { g_rnd = n; } void vf_srandom(unsigned n) { g_rnd = n; } int vf_rand_r(unsigned *s) { *s = *s * 1664525u + 1013904223u; return *s >> 8; }
int vf_puts(const char *) { return 0; }
int vf_putchar(int c) { return c; }
int vf_setpriority(int, int, int) { return 0; }
void vf_exit(int c) { W->scn->exited(c); mc_fail("the program exits with status %d", c); }
void vf__exit(int c) { vf_exit(c); }
}

/* ---------------- TLS library stand-in ---------------- */
struct VSSL { int fd = -1; int server = -1; int st = 0; bool done = false, fatal = false; Str rbuf; Str app; size_t apppos = 0; Str wbuf; size_t woff = 0; const void *wp = nullptr; size_t wplen = 0, wptot = 0; bool wapp = false; bool alertpend = false; bool sent = false, recvd = false; int rw = 0; bool warn_close = false; void *ex = nullptr; long mode = 0; bool ku = false, kulater = false; };
enum { RW_NONE = 1, RW_W = 2, RW_R = 3 };
static unsigned long E(int reason) { return 0x0A000000ul | reason; }
static void push(int r) { W->errq.push_back(E(r)); }
static void fatal(VSSL *s, int r) { push(r); s->fatal = true; }
static int flush(VSSL *s) {           /* 1 ok, -1 would block, -2 error */
    while (s->woff < s->wbuf.size()) { s->rw = RW_W; ssize_t k = k_send(s->fd, s->wbuf.data() + s->woff, s->wbuf.size() - s->woff, false); if (k < 0) { if (errno == EAGAIN) return -1; if (errno == EINTR) return -1; s->rw = RW_NONE; return -2; } s->woff += k; }
    s->wbuf.clear(); s->woff = 0; s->rw = RW_NONE; return 1;
}
static int fill(VSSL *s, size_t n) {  /* 1 ok, 0 eof, -1 would block, -2 error */
    while (s->rbuf.size() < n) { char b[17000]; s->rw = RW_R; ssize_t k = k_recv(s->fd, b, n - s->rbuf.size(), 0); if (k < 0) { if (errno == EAGAIN || errno == EINTR) return -1; s->rw = RW_NONE; return -2; } if (k == 0) { s->rw = RW_NONE; return 0; } s->rbuf.append(b, k); }
    s->rw = RW_NONE; return 1;
}
static int get_record(VSSL *s, int &type, Str &pl) {   /* 1 ok; 0 eof; -1 block; -2 syscall error; -3 protocol error (fatal) */
    int r = fill(s, 5); if (r != 1) { if (r == 0) { fatal(s, 294); return -3; } return r; }
    const unsigned char *p = (const unsigned char*)s->rbuf.data(); size_t len = p[3] << 8 | p[4];
    if (p[0] < 0x15 || p[0] > 0x17 || p[1] != 3 || p[2] != 3 || len < 4 || len > 16500) { fatal(s, 267); return -3; }
    r = fill(s, 5 + len); if (r != 1) { if (r == 0) { fatal(s, 294); return -3; } return r; }
    p = (const unsigned char*)s->rbuf.data(); type = p[0]; pl.assign((const char*)p + 5, len - 4); for (auto &c : pl) c ^= 0x5a; uint32_t k; memcpy(&k, p + 5 + len - 4, 4);
    if (k != chk(pl)) { fatal(s, 281); return -3; }
    s->rbuf.clear(); return 1;
}
extern "C" { static int answer_ku(VSSL *s); }
static int handshake(VSSL *s) {       /* 1 done, -1 otherwise */
    if (s->fatal) { push(1); return -1; }
    if (s->done) return answer_ku(s) == 1 ? 1 : -1;
    for (;;) {
        int type; Str pl; int r;
        if (s->server == 1) switch (s->st) {
        case 0: case 2: r = get_record(s, type, pl); if (r != 1) return -1; if (type != 0x16 || pl.compare(0, 2, s->st == 0 ? "CH" : "CF") != 0) { fatal(s, 244); return -1; } s->wbuf = s->st == 0 ? tls_record(0x16, hsmsg("SH", 60)) : tls_record(0x16, hsmsg("NT", 30)); s->woff = 0; s->st++; break;
        case 1: r = flush(s); if (r != 1) return -1; s->st = 2; break;
        case 3: r = flush(s); if (r != 1) return -1; s->done = true; return 1;
        } else switch (s->st) {
        case 0: s->wbuf = tls_record(0x16, hsmsg("CH", 40)); s->woff = 0; s->st = 1; break;
        case 1: r = flush(s); if (r != 1) return -1; s->st = 2; break;
        case 2: r = get_record(s, type, pl); if (r != 1) return -1; if (type != 0x16 || pl.compare(0, 2, "SH") != 0) { fatal(s, 244); return -1; } s->wbuf = tls_record(0x16, hsmsg("CF", 20)); s->woff = 0; s->st = 3; break;
        case 3: r = flush(s); if (r != 1) return -1; s->done = true; return 1;
        }
    }
}
extern "C" {
typedef struct VSSL VS;
void *vf_TLS_client_method() { return (void*)1; } void *vf_TLS_server_method() { return (void*)2; } void *vf_TLS_method() { return (void*)3; }
struct VCTX { int server; long mode; };
void *vf_SSL_CTX_new(void *m) { W->ssl_ctx_live++; return new VCTX{m == (void*)2, 0}; }
void vf_SSL_CTX_free(void *c) { if (c) { W->ssl_ctx_live--; delete (VCTX*)c; } }
long vf_SSL_CTX_ctrl(void *c, int cmd, long l, void *) { if (cmd == 33) return ((VCTX*)c)->mode |= l; if (cmd == 78) return ((VCTX*)c)->mode &= ~l; return 1; }
int vf_SSL_CTX_set_cipher_list(void *, const char *) { return 1; }
int vf_SSL_CTX_set_ciphersuites(void *, const char *) { return 1; }
void vf_SSL_CTX_set_verify(void *, int, void *) {}
uint64_t vf_SSL_CTX_set_options(void *, uint64_t) { return 1; }
void vf_SSL_CTX_set_quiet_shutdown(void *, int) {}
static int certload(const char *path) {
    int e = sysfault(W->f.sys, "certificate", {EIO}); 
    if (e || W->cert_fail > 0 || !W->vfs.count(path)) { if (W->cert_fail > 0) W->cert_fail--; W->errq.push_back(0x02000002ul | 0x80000000ul); push(2); return 0; }
    return 1;
}
int vf_SSL_CTX_use_certificate_file(void *, const char *p, int) { return certload(p); }
int vf_SSL_CTX_use_certificate_chain_file(void *, const char *p) { return certload(p); }
int vf_SSL_CTX_use_PrivateKey_file(void *, const char *p, int) { return certload(p); }
int vf_SSL_CTX_check_private_key(void *) { return 1; }
int vf_SSL_use_certificate_file(void *, const char *p, int) { return certload(p); }
int vf_SSL_use_PrivateKey_file(void *, const char *p, int) { return certload(p); }
int vf_SSL_check_private_key(void *) { return 1; }
static std::set<void*> g_ssls;
static VSSL *vs(void *p) { if (!g_ssls.count(p)) mc_fail("use of a TLS object that does not exist (freed?)"); return (VSSL*)p; }
void *vf_SSL_new(void *ctx) { if (W->ssl_new_fail > 0 ? W->ssl_new_fail-- > 0 : alloc_fails("SSL_new")) { push(65); return NULL; } W->ssl_live++; VSSL *s = new VSSL; s->mode = ((VCTX*)ctx)->mode; g_ssls.insert(s); return s; }
void vf_SSL_free(void *p) { if (!p) return; VSSL *s = vs(p); g_ssls.erase(p); W->ssl_live--; delete s; }
int vf_SSL_set_fd(void *p, int fd) { if (alloc_fails("SSL_set_fd")) { push(7); return 0; } vs(p)->fd = fd; return 1; }
int vf_SSL_get_fd(void *p) { return vs(p)->fd; }
int vf_SSL_get_rfd(void *p) { return vs(p)->fd; } int vf_SSL_get_wfd(void *p) { return vs(p)->fd; }
int vf_SSL_set_rfd(void *p, int fd) { vs(p)->fd = fd; return 1; } int vf_SSL_set_wfd(void *p, int fd) { vs(p)->fd = fd; return 1; }
int vf_SSL_is_server(void *p) { return vs(p)->server == 1; }
int vf_SSL_get_state(void *p) { VSSL *s = vs(p); return s->done && !s->fatal ? 1 : s->fatal ? 49 : s->st ? 20 : 0; }
const char *vf_SSL_state_string(void *) { return "UNKWN "; } const char *vf_SSL_state_string_long(void *) { return "unknown state"; }
const char *vf_SSL_get_version(void *) { return "TLSv1.3"; } int vf_SSL_version(void *) { return 0x304; }
void *vf_SSL_get_current_cipher(void *) { return NULL; } const char *vf_SSL_CIPHER_get_name(void *) { return "(NONE)"; }
int vf_SSL_session_reused(void *) { return 0; } long vf_SSL_get_verify_result(void *) { return 0; } void *vf_SSL_get1_peer_certificate(void *) { return NULL; } void *vf_SSL_get0_peer_certificate(void *) { return NULL; }
void vf_SSL_set_verify(void *, int, void *) {} void vf_SSL_set_quiet_shutdown(void *, int) {} int vf_SSL_get_quiet_shutdown(void *) { return 0; }
uint64_t vf_SSL_set_options(void *, uint64_t o) { return o; } uint64_t vf_SSL_CTX_clear_options(void *, uint64_t) { return 0; }
int vf_SSL_set_cipher_list(void *, const char *) { return 1; } int vf_SSL_set_ciphersuites(void *, const char *) { return 1; }
int vf_SSL_use_certificate_chain_file(void *, const char *p) { return certload(p); }
int vf_SSL_CTX_set_default_verify_paths(void *) { return 1; } int vf_SSL_CTX_load_verify_locations(void *, const char *, const char *) { return 1; } int vf_SSL_CTX_set_session_id_context(void *, const unsigned char *, unsigned) { return 1; }
long vf_SSL_CTX_set_timeout(void *, long) { return 300; } int vf_SSL_CTX_set_num_tickets(void *, size_t) { return 1; } int vf_SSL_set_num_tickets(void *, size_t) { return 1; } void vf_SSL_CTX_set_info_callback(void *, void *) {} void vf_SSL_set_info_callback(void *, void *) {}
void vf_SSL_set_read_ahead(void *, int) {} void vf_SSL_CTX_set_default_read_buffer_len(void *, size_t) {} void vf_SSL_CTX_set_read_ahead(void *, int) {} int vf_SSL_CTX_set_alpn_protos(void *, const unsigned char *, unsigned) { return 0; }
void vf_ERR_print_errors_fp(void *) { W->errq.clear(); } void vf_ERR_print_errors_cb(void *, void *) { W->errq.clear(); }
void vf_SSL_set_connect_state(void *p) { vs(p)->server = 0; }
void vf_SSL_set_accept_state(void *p) { vs(p)->server = 1; }
int vf_SSL_set_ex_data(void *p, int, void *d) { vs(p)->ex = d; return 1; }
void *vf_SSL_get_ex_data(void *p, int) { return vs(p)->ex; }
long vf_SSL_ctrl(void *p, int cmd, long l, void *) { if (cmd == 33) return vs(p)->mode |= l; if (cmd == 78) return vs(p)->mode &= ~l; return 1; }
int vf_SSL_do_handshake(void *p) { sys_enter(); VSSL *s = vs(p); s->rw = RW_NONE; if (s->server < 0) { push(144); return -1; } return handshake(s); }
int vf_SSL_accept(void *p) { vs(p)->server = 1; return vf_SSL_do_handshake(p); }
int vf_SSL_connect(void *p) { vs(p)->server = 0; return vf_SSL_do_handshake(p); }
int vf_SSL_in_init(void *p) { VSSL *s = vs(p); return !s->done || s->fatal || s->ku; }
int vf_SSL_is_init_finished(void *p) { VSSL *s = vs(p); return s->done && !s->fatal && !s->ku; }
/* the peer has asked for new keys: the answer goes out before anything else, from whichever call comes next; behind a record that is being written it has to wait */
static int answer_ku(VSSL *s) {
    if (s->kulater && !s->wapp) { s->kulater = false; s->ku = true; s->wbuf = tls_record(0x16, hsmsg("KU", 5)); s->woff = 0; }
    if (s->ku) { int r = flush(s); if (r != 1) return r; s->ku = false; }
    return 1;
}
static int ssl_rd(VSSL *s, void *b, int n, bool peek) {
    s->rw = RW_NONE;
    if (s->apppos >= s->app.size() && s->recvd) { return 0; }
    if (s->fatal) { push(1); return -1; }
    if (!s->done) { int r = handshake(s); if (r != 1) return -1; }
    if (answer_ku(s) != 1) return -1;
    while (s->apppos >= s->app.size()) {
        if (s->recvd) return 0;
        int type; Str pl; int r = get_record(s, type, pl);
        if (r != 1) return -1;
        if (type == 0x17) { s->app = pl; s->apppos = 0; }
        else if (type == 0x15) { s->recvd = true; s->warn_close = true; return 0; }
        else if (type == 0x16 && pl.compare(0, 2, "NT") == 0) continue;
        else if (type == 0x16 && pl.compare(0, 2, "KU") == 0) { s->kulater = true; if (answer_ku(s) != 1) return -1; }
        else { fatal(s, 244); return -1; }
    }
    size_t k = s->app.size() - s->apppos; if (k > (size_t)n) k = n; memcpy(b, s->app.data() + s->apppos, k); if (!peek) s->apppos += k; if (s->apppos >= s->app.size()) { s->app.clear(); s->apppos = 0; }
    return k;
}
int vf_SSL_read(void *p, void *b, int n) { sys_enter(); VSSL *s = vs(p); if (n < 0) { push(271); return -1; } int r = ssl_rd(s, b, n, false); NOTE("  SSL_read fd%d %d -> %d", s->fd, n, r); return r; }
int vf_SSL_read_ex(void *p, void *b, size_t n, size_t *o) { int r = vf_SSL_read(p, b, n > 0x7fffffff ? 0x7fffffff : n); *o = r > 0 ? r : 0; return r > 0; }
int vf_SSL_peek(void *p, void *b, int n) { sys_enter(); return ssl_rd(vs(p), b, n, true); }
int vf_SSL_pending(void *p) { VSSL *s = vs(p); return s->app.size() - s->apppos; }
int vf_SSL_has_pending(void *p) { VSSL *s = vs(p); return s->app.size() > s->apppos || !s->rbuf.empty(); }
static int ssl_wr(VSSL *s, const void *b, int n) {
    s->rw = RW_NONE;
    if (s->sent) { push(207); return -1; }
    if (s->fatal) { push(1); return -1; }
    if (!s->done) { int r = handshake(s); if (r != 1) return -1; }
    if (n <= 0) { push(271); return -1; }
    size_t tot = 0;
    if (s->wapp) {                         /* a record of an earlier call is still being written */
        if ((size_t)n < s->wptot || (s->wp != b && !(s->mode & 2))) { push(127); return -1; }
        int r = flush(s); if (r != 1) return -1;
        s->wapp = false; tot = s->wptot;
    }
    if (tot < (size_t)n && answer_ku(s) != 1) return -1;
    while (tot < (size_t)n) {
        if (tot && (s->mode & 1)) return tot;          /* SSL_MODE_ENABLE_PARTIAL_WRITE */
        size_t k = n - tot; if (k > 16384) k = 16384;
        s->wbuf = tls_record(0x17, Str((const char*)b + tot, k)); s->woff = 0;
        int r = flush(s);
        if (r == -1) { s->wapp = true; s->wp = b; s->wptot = tot + k; return -1; }
        if (r != 1) return -1;
        tot += k;
    }
    return n;
}
int vf_SSL_write(void *p, const void *b, int n) { sys_enter(); VSSL *s = vs(p); int r = ssl_wr(s, b, n); NOTE("  SSL_write fd%d %d -> %d", s->fd, n, r); return r; }
int vf_SSL_write_ex(void *p, const void *b, size_t n, size_t *o) { int r = vf_SSL_write(p, b, n > 0x7fffffff ? 0x7fffffff : n); *o = r > 0 ? r : 0; return r > 0; }
int vf_SSL_shutdown(void *p) {
    sys_enter(); VSSL *s = vs(p);
    if (!s->done || s->fatal || s->ku) { push(407); return -1; }
    if (!s->sent) { s->sent = true; if (s->wapp) { s->alertpend = true; return -1; } s->rw = RW_NONE; s->wbuf = tls_record(0x15, Str("\x01\x00", 2)); s->woff = 0; int r = flush(s); if (r != 1) { s->alertpend = true; return -1; } }
    else if (s->alertpend) { if (s->wapp) { push(127); return -1; } int r = flush(s); if (r != 1) return -1; s->alertpend = false; }
    else if (!s->recvd) {
        s->rw = RW_NONE; int type; Str pl;
        for (;;) { if (s->apppos < s->app.size()) { fatal(s, 291); return -1; } int r = get_record(s, type, pl); if (r != 1) return -1; if (type == 0x15) { s->recvd = true; s->warn_close = true; break; } if (type == 0x16 && (pl.compare(0, 2, "NT") == 0 || pl.compare(0, 2, "KU") == 0)) continue; fatal(s, 291); return -1; }
    }
    return s->sent && s->recvd && !s->alertpend ? 1 : 0;
}
int vf_SSL_get_shutdown(void *p) { VSSL *s = vs(p); return (s->sent ? 1 : 0) | (s->recvd ? 2 : 0); }
int vf_SSL_get_error(void *p, int rc) {
    VSSL *s = vs(p); if (rc > 0) return 0;
    if (!W->errq.empty()) return (W->errq.front() & 0x80000000ul) ? 5 : 1;
    if (s->rw == RW_R) return 2; if (s->rw == RW_W) return 3;
    if (s->recvd && s->warn_close) return 6;
    return 5;
}
unsigned long vf_ERR_peek_error() { sys_enter(); return W->errq.empty() ? 0 : W->errq.front(); }
unsigned long vf_ERR_peek_last_error() { sys_enter(); return W->errq.empty() ? 0 : W->errq.back(); }
unsigned long vf_ERR_get_error() { sys_enter(); if (W->errq.empty()) return 0; unsigned long e = W->errq.front(); W->errq.erase(W->errq.begin()); return e; }
void vf_ERR_clear_error() { W->errq.clear(); }
void vf_ERR_error_string_n(unsigned long e, char *b, size_t n) { snprintf(b, n, "error:%lx", e); }
char *vf_ERR_error_string(unsigned long e, char *b) { static char st[256]; if (!b) b = st; snprintf(b, 120, "error:%lx", e); return b; }
const char *vf_ERR_reason_error_string(unsigned long) { return "err"; }
int vf_OPENSSL_init_ssl(uint64_t, void *) { return 1; }
int vf_OPENSSL_init_crypto(uint64_t, void *) { return 1; }
}

/* ---------------- processes and signals (single process mode; the supervisor check replaces these) ---------------- */
#include "sim_proc.h"
ProcHooks *PH;
extern "C" {
int vf_fork() { sys_enter(); if (PH) return PH->fork(); mc_fail("unexpected fork"); }
int vf_kill(int pid, int sig) { sys_enter(); if (PH) return PH->kill(pid, sig); return 0; }
int vf_waitpid(int pid, int *st, int opt) { sys_enter(); if (PH) return PH->waitpid(pid, st, opt); errno = ECHILD; return -1; }
int vf_wait(int *st) { return vf_waitpid(-1, st, 0); }
int vf_sigaction(int sig, const struct sigaction *sa, struct sigaction *old) { sys_enter(); if (old) { memset(old, 0, sizeof *old); old->sa_handler = W->sigh.count(sig) ? W->sigh[sig] : SIG_DFL; } if (sa) W->sigh[sig] = sa->sa_handler; if (PH) PH->sigaction(sig, sa); return 0; }
typedef void (*sigh_t)(int);
sigh_t vf_signal(int sig, sigh_t h) { sigh_t o = W->sigh.count(sig) ? W->sigh[sig] : SIG_DFL; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = h; vf_sigaction(sig, &sa, NULL); return o; }
int vf_sigprocmask(int how, const sigset_t *s, sigset_t *o) { sys_enter(); if (PH) return PH->sigprocmask(how, s, o); return 0; }
int vf_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return vf_sigprocmask(how, s, o); }
int vf_sigsuspend(const sigset_t *s) { sys_enter(); if (PH) return PH->sigsuspend(s); mc_fail("unexpected sigsuspend"); }
int vf_getpid() { return PH ? PH->getpid() : 4242; }
int vf_getppid() { return 1; }
int vf_setsid() { return 1; }
mode_t vf_umask(mode_t) { return 0; }
int vf_dup2(int a, int b) { return b; }
void *vf_mmap(void *, size_t n, int, int, int, off_t) { if (mod_malloc_hook) { void *p = mod_malloc_hook(n); if (!p) { errno = ENOMEM; return MAP_FAILED; } memset(p, 0, n); return p; } void *p = calloc(1, n ? n : 1); g_maps[p] = n; return p; }
int vf_munmap(void *p, size_t) { if (mod_free_hook && mod_free_hook(p)) return 0; auto it = g_maps.find(p); if (it == g_maps.end()) mc_fail("munmap of unmapped memory"); g_maps.erase(it); free(p); return 0; }
}

/* ---------------- one execution ---------------- */
static bool g_snapped;
extern "C" void mc_cleanup(void) {
    if (W) { for (auto s : W->all) delete s; delete W; W = nullptr; }
    for (auto &b : g_blk) free(b.first); g_blk.clear(); g_inuse.clear(); g_blkseq = g_baseseq = 0;
    for (auto p : g_ssls) delete (VSSL*)p; g_ssls.clear(); for (auto &m : g_maps) free(m.first); g_maps.clear(); g_pend.clear(); g_locks.clear();
    mod_epoll_hook = nullptr; mod_epollctl_hook = nullptr; mod_close_hook = nullptr; mod_write_hook = nullptr; g_rnd = 1; mod_send_hook = nullptr; mod_recv_hook = nullptr;
    PH = nullptr;
    g_waitmask = nullptr; if (g_snapped) globals_restore();
}
static Scenario *g_cur;
void sim_run(Scenario &s) {
    if (!g_snapped) { globals_snapshot(); g_snapped = true; }
    g_cur = &s;
    W = new World; W->scn = &s;
    W->vfs["/usr/local/s5/certificate/2048.crt"] = {"cert"}; W->vfs["/usr/local/s5/certificate/2048.key"] = {"key"};
    s.setup();
    W->vfs["/usr/local/s5/config/config.json"].data = W->config; if (!W->authfile.empty()) W->vfs["/usr/local/s5/config/auth.json"].data = W->authfile;
    static char arg0[256]; strcpy(arg0, "s5-binary-under-test"); char *argv[8] = {arg0}, *e = arg0 + strlen(arg0) + 1; int argc = 1;
    for (auto &a : W->args) { strcpy(e, a.c_str()); argv[argc++] = e; e += a.size() + 1; }
    errno = 0;
    int r = s5_main(argc, argv);
    s.ended(r);
}
void Scenario::ended(int r) { mc_fail("the program ended by itself (main returned %d)", r); }
void Scenario::exited(int c) { mc_fail("the program exits with status %d", c); }
Str auth_header(const Str &key, uint32_t magic) { Str s; uint32_t m = htonl(magic); s.append((char*)&m, 4); Str k = key; k.resize(16, 0); s += k; s += Str(16, 0); return s; }
Str pattern(size_t n, int seed) { Str s(n, 0); uint32_t x = seed * 2654435761u + 12345; for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; s[i] = (char)(x >> 24); } return s; }
void set_config_server(int mode, const Str &extra) {
    W->config = "{\"sys_daemon\":false,\"sys_process\":0,\"sys_log_level\":0,\"ssl_crt_path\":\"/usr/local/s5/certificate/2048.crt\",\"ssl_key_path\":\"/usr/local/s5/certificate/2048.key\",\"s5_mode\":" + std::to_string(mode) + ",\"s5_serv_port\":12345,\"s5_serv_auth_path\":\"/usr/local/s5/config/auth.json\",\"s5_serv_gw\":\"9.9.9.9\",\"http_arr\":[80],\"https_arr\":[443],\"http_home\":\"/www\",\"http_index\":\"index.html\"" + extra + "}";
    if (W->authfile.empty()) W->authfile = "[\"key1\",\"auth_for_tanx\"]";
}
void set_config_client(const Str &key) {
    W->config = "{\"sys_daemon\":false,\"sys_process\":0,\"sys_log_level\":0,\"ssl_crt_path\":\"/usr/local/s5/certificate/2048.crt\",\"ssl_key_path\":\"/usr/local/s5/certificate/2048.key\",\"s5_mode\":1,\"s5_local_port\":1080,\"s5_local_serv_port\":12345,\"s5_local_serv_ip\":\"5.6.7.8\",\"s5_local_auth\":\"" + key + "\",\"http_arr\":[],\"https_arr\":[],\"http_home\":\"/www\",\"http_index\":\"index.html\"}";
}
void check_prefix(const Str &got, const Str &sent, const char *what) {
    if (got.size() > sent.size()) { size_t i = 0; while (i < sent.size() && got[i] == sent[i]) i++; mc_fail("%s: %zu bytes delivered but only %zu were sent (first difference at %zu)", what, got.size(), sent.size(), i); }
    if (got.compare(0, got.size(), sent, 0, got.size()) != 0) { size_t i = 0; while (got[i] == sent[i]) i++; mc_fail("%s: delivered bytes differ from the sent ones at offset %zu", what, i); }
}

/* ---------------- parts driven directly ---------------- */
struct NoScn : Scenario { void setup() override {} };
extern "C" {
void mod_begin(void) { if (!g_snapped) { globals_snapshot(); g_snapped = true; } static NoScn ns; W = new World; W->scn = &ns; W->keep_sinks = true; errno = 0; }
size_t mod_gsize(void) { return g_nd + g_nb + 64; }
void mod_gsave(void *b) { if (g_nd) rawcopy(b, __start_vfdata, g_nd); if (g_nb) rawcopy((char*)b + g_nd, __start_vfbss, g_nb); }
void mod_gload(const void *b) { if (g_nd) rawcopy(__start_vfdata, b, g_nd); if (g_nb) rawcopy(__start_vfbss, (const char*)b + g_nd, g_nb); }
void mod_resnap(void) { if (g_snap) munmap(g_snap, g_nd + g_nb + 64); globals_snapshot(); g_snapped = true; }
void mod_set_ms(long long ms) { W->now_ms = 1000000000000ll + ms; }
long mod_blocks(void) { return g_blk.size(); }
long mod_injected(void) { return W->injected; }
void mod_file(const char *p, const void *d, size_t n) { W->vfs[p].data.assign((const char*)d, n); }
int mod_newfd(void) { return W->allocfd(W->newsock(K_FILE)); }
int mod_listens(int port) { int n = 0; for (auto s : W->socks) if (s->kind == K_LISTEN && s->open && s->port == port) n++; return n; }
void mod_statsize(const char *p, size_t n) { W->vfs[p].statsize = n; }
const char *mod_sink(const char *p, size_t *n) { if (!*p) { static Str o; o.clear(); for (auto &x : W->stdouts) o += x.second; *n = o.size(); return o.data(); } Str &s = W->sinks[p]; *n = s.size(); return s.data(); }
}
