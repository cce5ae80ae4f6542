/* C04 ends of sessions, C20 accepting, C21 TLS, C25 silence and slowness, C26 hostile peers */
#include "scn.h"
#include <memory>

/* ------------------------------------------------------------------ complete sessions of every kind */
enum Kind { K_IP, K_DOM, K_CLIENT, K_HTTP, K_HTTP2, K_HTTPS, K_SH_TUN, K_SH_HTTP, K_N };
static const char *kname[] = {"tunnel", "tunnel by name", "client mode", "HTTP", "HTTP keep-alive", "HTTPS", "shared port tunnel", "shared port HTTP"};
static const Str F1 = "file-a:0123456789";
static Str F2() { return pattern(20000, 5); }
static void world(int kind) {
    if (kind == K_CLIENT) set_config_client(); else set_config_server(kind == K_SH_TUN || kind == K_SH_HTTP ? 3 : 2);
    W->vfs["/www"].type = 1; W->vfs["/www/a.txt"].data = F1; W->vfs["/www/b.bin"].data = F2();
    dns_ok(IP(4,4,4,4), 2);
    W->targets.push_back({IP(4,4,4,4), 80, 0, [](Agent &a) { o_expect(a, "ping"); o_send(a, "pong"); o_waitclose(a); }});
    W->targets.push_back({IP(4,4,4,4), 81, 0, [](Agent &a) { o_expect(a, "ping"); o_send(a, "pong"); o_close(a); }});
    W->targets.push_back({IP(5,6,7,8), 12345, 0, [](Agent &a) { far_server(a, "key1"); o_expect(a, "ping"); o_tsend(a, "pong"); o_waitclose(a); }});
    W->targets.push_back({IP(9,9,9,9), 12345, 0, [](Agent &a) { far_server(a, "key1"); o_expect(a, "ping"); o_tsend(a, "pong"); o_waitclose(a); }});
}
static Str body_of(Agent &a) { const Str &g = a.got(); size_t e = g.rfind("\r\n\r\n"); return e == Str::npos ? Str() : g.substr(e + 4); }
static void http_wait(Agent &u, const Str &body, int nth = 1) {
    o_wait(u, "await the response", [body, nth](Agent &u) { const Str &g = u.got(); int n = 0; for (size_t p = 0; (p = g.find("HTTP/1.1 200 OK\r\n", p)) != Str::npos; p++) n++; size_t need = body.size(); return n >= nth && g.size() >= need && g.compare(g.size() - need, need, body) == 0 && g.find("\r\n\r\n") != Str::npos; });
}
/* the peer's part of one session, up to a complete end.  between(i) is called between the steps */
struct Sess {
    std::function<void(Agent&)> gap = [](Agent &) {};
    bool target_first = false;     /* the far end closes first */
    void run(Agent &u, int kind) {
        auto g = [&]() { gap(u); };
        switch (kind) {
        case K_IP: case K_DOM: case K_SH_TUN: {
            o_connect(u, kind == K_SH_TUN ? P_HTTPS : P_TUN); g(); o_tls_client(u); g();
            o_tsend(u, auth_header("key1").substr(0, 20)); g(); o_tsend(u, auth_header("key1").substr(20)); g();
            o_tsend(u, greeting().substr(0, 1)); g(); o_tsend(u, greeting().substr(1)); o_expect(u, B({5, 0})); g();
            Str r = kind == K_DOM ? req_dom("a.bc", target_first ? 81 : 80) : req_ip(4,4,4,4,target_first ? 81 : 80);
            o_tsend(u, r.substr(0, 6)); g(); o_tsend(u, r.substr(6)); o_wait(u, "await the SOCKS5 reply", [](Agent &a) { return a.got().size() >= 12; }); o_call(u, [](Agent &a) { if (a.got()[2] != 5 || a.got()[3] != 0) mc_fail("wrong SOCKS5 reply"); a.mark = 12; }); g();
            o_tsend(u, "ping"); o_expect(u, "pong"); g();
            if (target_first) { o_waitclose(u); break; }
            o_tclose(u); o_close(u); break; }
        case K_CLIENT: o_connect(u, P_LOCAL); o_send(u, "pi"); g(); o_send(u, "ng"); o_expect(u, "pong"); g(); o_close(u); break;
        case K_HTTP: o_connect(u, P_HTTP); g(); o_send(u, "GET /a.t"); g(); o_send(u, "xt HTTP/1.1\r\nA: b\r\n"); g(); o_send(u, "\r\n"); http_wait(u, F1); o_waitclose(u); break;
        case K_HTTP2: o_connect(u, P_HTTP); o_send(u, "GET /b.bin HTTP/1.1\r\nConnection: keep-alive\r\n\r\n"); http_wait(u, F2()); g(); o_send(u, "POST /echo HTTP/1.1\r\nConnection: keep-alive\r\nContent-Length: 9\r\n\r\nhel"); g(); o_send(u, "lo you"); http_wait(u, "hello you", 2); g(); o_send(u, "GET /missing HTTP/1.1\r\nConnection: keep-alive\r\n\r\nGET /a.txt HTTP/1.1\r\n\r\n"); http_wait(u, F1, 3); o_waitclose(u); break;
        case K_HTTPS: o_connect(u, P_HTTPS); g(); o_tls_client(u); g(); o_tsend(u, "GET /b.bin HTTP/1.1\r\nConne"); g(); o_tsend(u, "ction: keep-alive\r\n\r\n"); http_wait(u, F2()); g(); o_tsend(u, "POST /echo HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"); http_wait(u, "abc", 2); o_waitclose(u); break;
        case K_SH_HTTP: o_connect(u, P_HTTPS); g(); o_tls_client(u); g(); o_tsend(u, "GE"); g(); o_tsend(u, "T /a.txt HTTP/1.1\r\nX-Long: 01234567890123456789\r\n\r\n"); http_wait(u, F1); o_waitclose(u); break;
        }
    }
};

/* ------------------------------------------------------------------ C04 */
struct Ends : Base {
    int kind; bool tf; int probes = 0; static const char *sets[];
    void setup() override {
        skip_drain = false; check_release = true;
        kind = arg & 15; tf = arg >> 4 & 1; const char *f = sets[arg >> 5 & 15]; bool two = arg >> 9 & 1;
        world(kind);
        Agent &u = add_agent("user"); o_call(u, [f](Agent &) { wd(W->f, f); });
        Sess s; s.target_first = tf; s.run(u, kind);
        if (two) { Agent &v = add_agent("second"); Sess s2; s2.target_first = !tf; s2.run(v, kind); }
    }
    void finished() override { mc_outcome(W->connects.size()); for (auto &a : W->agents) { mc_outcome(a.pc); if (a.sock >= 0) mc_outcome(a.s().tx.size()); } }
    bool more() override {
        if (probes++) return false;
        W->f = Faults(); W->injected = 0; waiting = 0;
        Agent &p = add_agent("probe"); Sess s; s.run(p, kind); return true;
    }
};
const char *Ends::sets[] = {"dtcrx", "ay", "dtcrxayq", "dtcseobw", "ayseo", "dse", ""};
REGISTER(C04) {
    bool t = mc_thorough();
    for (int k = 0; k < K_N; k++) for (int tf = 0; tf < 2; tf++) {
        if (tf && (k == K_CLIENT || k == K_HTTP || k == K_HTTP2 || k == K_HTTPS || k == K_SH_HTTP)) continue;
        for (int s = 0; s < 7; s++) { int d = s == 6 ? 0 : t || (s == 5 && k != K_HTTP2) ? 3 : 2; if (s == 0 || s == 1) { if (!t) continue; }
            mc_add(run_scn<Ends>, k | tf << 4 | s << 5, d, "%s%s faults '%s'", kname[k], tf ? " far end closes" : "", Ends::sets[s]); }
        mc_add(run_scn<Ends>, k | tf << 4 | 2 << 5 | 1 << 9, t ? 2 : 1, "two x %s%s faults '%s'", kname[k], tf ? " far end closes" : "", Ends::sets[2]);
        mc_add(run_scn<Ends>, k | tf << 4 | 5 << 5 | 1 << 9, 2, "two x %s%s faults '%s'", kname[k], tf ? " far end closes" : "", Ends::sets[5]);
    }
}

/* ------------------------------------------------------------------ C20 */
struct Accepts : Base {
    int n, kinds, probes = 0; int eintr0 = 0;
    void setup() override {
        n = arg & 7; kinds = arg >> 3 & 3; static const char *fl[] = {"q", "a", "y", "qay", "qayseo", ""}; const char *f = fl[arg >> 5 & 7];
        world(kinds == 2 ? K_SH_TUN : K_IP);
        std::vector<int> ks; for (int i = 0; i < n; i++) ks.push_back(kinds == 0 ? K_HTTP : kinds == 1 ? (i & 1 ? K_IP : K_HTTP) : kinds == 2 ? (i & 1 ? K_SH_TUN : K_SH_HTTP) : i == 2 ? K_HTTPS : i & 1 ? K_IP : K_HTTP);
        static char nm[8][8];
        for (int i = 0; i < n; i++) { sprintf(nm[i], "peer%d", i); Agent &a = add_agent(nm[i]); if (i == 0) o_call(a, [f](Agent &) { wd(W->f, f); for (auto &x : W->agents) if (&x != &W->agents[0] && x.sock < 0 && !x.done()) { x.ops[0].act(x); x.pc = 1; } }); Sess s; s.run(a, ks[i]); }
        /* peer0's own connect follows in the same batch or, with other schedules, later */
        std::swap(W->agents[0].ops[0], W->agents[0].ops[1]);
    }
    void finished() override {
        int lost = 0; for (auto &a : W->agents) { if (strncmp(a.name, "peer", 4)) continue; if (!a.dead) continue; lost++;
            if (a.s().open) mc_fail("%s was neither served nor closed", a.name); }
        if (lost > W->injected) mc_fail("%d connections lost by %d faults", lost, W->injected);
        mc_outcome(lost);
    }
    void stuck(Agent &a) override {
        if (!W->injected) { Scenario::stuck(a); return; }
        for (auto s : W->socks) if (s->kind == K_LISTEN && s->open && !s->acceptq.empty()) mc_fail("a pending connection is left waiting");
        Base::stuck(a);
    }
};
REGISTER(C20) {
    bool t = mc_thorough(); static const char *fn[] = {"accept faults", "allocation", "system calls", "all faults", "all faults and schedules", "no faults"}, *kn[] = {"one port", "two ports", "shared port", "three ports"};
    for (int n = 1; n <= 4; n++) for (int k = 0; k < 4; k++) for (int f = 0; f < 6; f++) { int d = f == 5 ? 0 : f == 0 ? (t ? 4 : 3) : f == 4 ? (n <= 2 && t ? 3 : 2) : f == 3 ? (n <= 3 || t ? 3 : 2) : t ? 4 : 3; mc_add(run_scn<Accepts>, n | k << 3 | f << 5, d, "%d arrivals on %s, %s", n, kn[k], fn[f]); }
}

/* ------------------------------------------------------------------ C21 */
struct Tls : Base {
    int kind, mode, failn = 0;
    void setup() override {
        kind = arg & 15; mode = arg >> 4 & 15; world(kind);
        static const char *fl[] = {"B", "w", "seobw", "", "", "", "seobw", "", ""}; const char *f = fl[mode];
        if (mode == 3) { W->trickle_in = 1; } if (mode == 4 || mode == 5) W->trickle_out = kind == K_HTTPS ? 13 : 1; if (mode == 5) W->trickle_in = 1;
        if (mode <= 5) { Agent &u = add_agent("user"); if (*f) o_call(u, [f](Agent &) { wd(W->f, f); }); Sess s; s.run(u, kind); }
        if (mode == 6 || mode == 7) { /* a failing handshake next to a good session */
            int v = mc_choose(kind == K_CLIENT ? 8 : 9, 0, "failure"); bool after = mc_choose(2, 0, "order");
            if (v == 8) W->cert_fail = 1 + mc_choose(3, 0, "times");
            auto bad = [&]() { Agent &b = add_agent("bad"); b.background = true; uint16_t port = kind == K_CLIENT ? P_LOCAL : kind == K_HTTPS || kind == K_SH_TUN || kind == K_SH_HTTP ? P_HTTPS : P_TUN;
                o_connect(b, port);
                Str ch = tls_record(0x16, Str("CH") + Str(38, 'x')); 
                if (v == 0) o_send(b, Str("\x16\x03\x03\x00\x01z", 6)); if (v == 1) o_send(b, "GET / HTTP/1.1\r\n\r\n"); if (v == 2) { o_send(b, ch); o_send(b, Str(30, '\xff')); } if (v == 3) { o_send(b, ch); o_close(b); } if (v == 4) o_close(b); if (v == 5) o_rst(b); if (v == 6) { o_tls_client(b); o_send(b, Str(40, '\x17')); } if (v == 7) { o_tls_client(b); o_tsend(b, "x"); o_rst(b); } if (v == 8) o_tls_client(b); };
            if (kind == K_CLIENT) { /* the far server misbehaves for one of two connections */
                
                auto g = W->targets[2].script; int *cnt = &failn; auto sc = [g, cnt, v, after](Agent &a) { bool first = (*cnt)++ == 0; if (first == after) { g(a); return; } a.background = true; if (v == 0) o_send(a, Str(10, '\xff')); if (v == 1) o_send(a, "HTTP/1.1 400 x\r\n\r\n"); if (v == 2) { o_wait(a, "hello", [](Agent &a) { return a.s().tx.size() > 10; }); o_send(a, Str(30, '\xff')); } if (v == 3) { o_wait(a, "hello", [](Agent &a) { return a.s().tx.size() > 10; }); o_close(a); } if (v == 4) o_close(a); if (v == 5) o_rst(a); if (v == 6) { o_tls_server(a); o_send(a, Str(40, '\x17')); } if (v == 7) { o_tls_server(a); o_rst(a); } };
                W->targets[2].script = sc; W->targets[3].script = sc;
                for (int i = 0; i < 2; i++) { Agent &u = add_agent(i ? "local2" : "local1"); if (i == 0) o_call(u, [f](Agent &) { if (*f) wd(W->f, f); }); o_connect(u, P_LOCAL); o_send(u, "ping"); o_wait(u, "served or closed", [](Agent &u) { return u.got().size() >= 4 || u.s().tx_fin || !u.s().open; }); o_call(u, [](Agent &u) { if (u.got().size()) o_close(u); }); }
                return;
            }
            if (v == 8) { /* certificate problems: first comers are turned away, a later one is served */
                for (int i = 0, n = W->cert_fail; i < n; i++) { static char nm[4][8]; sprintf(nm[i], "early%d", i); Agent &b = add_agent(nm[i]); b.background = true; uint16_t port = kind == K_IP || kind == K_DOM ? P_TUN : P_HTTPS; if (i) o_wait(b, "turn", [i](Agent &) { return W->agents[i - 1].done() || W->agents[i - 1].sock >= 0 && W->agents[i - 1].s().tx_fin || W->agents[i - 1].sock >= 0 && !W->agents[i - 1].s().open; }); o_connect(b, port); o_send(b, tls_record(0x16, Str("CH") + Str(38, 0x78))); o_wait(b, "turned away", [](Agent &b) { return b.s().tx_fin || !b.s().open; }); }
                Agent &g = add_agent("good"); o_wait(g, "certificate is fine again", [](Agent &) { return W->cert_fail == 0; }); o_call(g, [f](Agent &) { if (*f) wd(W->f, f); }); Sess s; s.run(g, kind); return; }
            if (!after) bad();
            Agent &g = add_agent("good"); o_call(g, [f](Agent &) { if (*f) wd(W->f, f); }); Sess s; s.run(g, kind);
            if (after) bad();
        }
    }
    void step() override { for (auto &a : W->agents) { if (a.tls.on) { tls_poll(a); if (a.tls.bad && strcmp(a.name, "bad")) mc_fail("%s: %s", a.name, a.tls.badwhy.c_str()); } } }
    void finished() override {
if (mode >= 6 && kind == K_CLIENT) { int served = 0; for (auto &a : W->agents) if (!strncmp(a.name, "local", 5)) { if (a.got() == "pong") served++; else if (!a.got().empty()) mc_fail("wrong bytes"); } if (served != 1) mc_fail("%d of two connections served although exactly one far end works", served); }
        mc_outcome(W->socks.size()); for (auto &a : W->agents) if (a.sock >= 0) mc_outcome(a.s().tx.size());
    }
};
/* a connection whose TLS objects cannot be set up leaves errors behind in the library: at whatever point of another session that happens, the other session does not notice */
struct TlsLeft : Base {
    void setup() override {
        int kind = arg & 15; const char *f = arg >> 4 & 1 ? "B" : arg >> 5 & 1 ? "w" : ""; world(kind);
        int how = kind == K_CLIENT ? 1 : mc_choose(2, 0, "certificate or memory"); int at = mc_choose(26, 0, "moment");
        if (at > 9) { W->trickle_out = kind == K_HTTPS ? 700 : 9; }
        uint16_t port = kind == K_CLIENT ? P_LOCAL : kind == K_HTTPS || kind == K_SH_TUN || kind == K_SH_HTTP ? P_HTTPS : P_TUN;
        auto trip = [how]() { if (how == 0) W->cert_fail = 1; else W->ssl_new_fail = 1; }; auto reached = std::make_shared<bool>(false);
        auto gone = [](Agent &) { Agent &b = W->agent("bad"); return b.sock >= 0 && (b.s().tx_fin || !b.s().open); };
        auto stop = [=](Agent &a) { o_call(a, [=](Agent &) { *reached = true; }); o_wait(a, "the other one is turned away", gone); };
        { Agent &b = add_agent("bad"); b.background = true; 
          if (at <= 9) o_wait(b, "the moment", [=](Agent &) { return *reached; }); else { size_t n = (at - 10) * (kind == K_HTTPS ? 1400 : 12); o_wait(b, "the moment", [n](Agent &) { Agent &g = W->agent("good"); return g.sock >= 0 && g.s().tx.size() > n; }); }
          o_call(b, [=](Agent &) { trip(); }); o_connect(b, port); o_send(b, kind == K_CLIENT ? Str("x") : tls_record(0x16, Str("CH") + Str(38, 0x78))); o_wait(b, "turned away", [](Agent &b) { return b.s().tx_fin || !b.s().open; }); }
        if (at == 9) { for (int i : {0, 1}) W->targets[i].script = [=](Agent &a) { o_expect(a, "ping"); stop(a); o_send(a, "pong"); o_waitclose(a); }; }
        if (kind == K_CLIENT) for (int i : {2, 3}) { W->targets[i].script = [=](Agent &a) { if (W->cert_fail || W->ssl_new_fail || *reached) { a.background = true; return; } far_server(a, "key1"); o_expect(a, "ping"); if (at == 9) stop(a); o_tsend(a, "pong"); o_waitclose(a); }; }
        Agent &g = add_agent("good"); o_call(g, [f](Agent &) { if (*f) wd(W->f, f); }); Sess s; int n = 0; s.gap = [&](Agent &u) { if (n++ == at) stop(u); }; s.run(g, kind); if (at < 9 && at >= n || at == 9 && (kind == K_HTTPS || kind == K_SH_HTTP)) mc_prune();
    }
    void step() override { Agent &a = W->agent("good"); if (a.tls.on) { tls_poll(a); if (a.tls.bad) mc_fail("good: %s", a.tls.badwhy.c_str()); } }
    void finished() override { mc_outcome(W->cert_fail + W->ssl_new_fail); mc_outcome(W->now_ms); }
};
/* the peer asks for new keys at any point of a session; the answer may have to wait like any other bytes */
struct TlsKey : Base {
    void setup() override {
        int kind = arg & 15; const char *f = arg >> 4 & 1 ? "seobw" : "B"; world(kind); int at = mc_choose(12, 0, "moment"), times = 1 + mc_choose(2, 0, "times");
        auto ask = [=](Agent &a) { for (int i = 0; i < times; i++) o_tkey(a); };
        if (kind == K_CLIENT) { if (at > 3) mc_prune(); for (int i : {2, 3}) W->targets[i].script = [=](Agent &a) { far_server(a, "key1"); if (at == 0) ask(a); o_expect(a, at == 1 ? "pi" : "ping"); if (at == 1) { ask(a); o_expect(a, "ng"); } if (at == 2) ask(a); o_tsend(a, "pong"); if (at == 3) ask(a); o_waitclose(a); }; }
        Agent &u = add_agent("user"); o_call(u, [f](Agent &) { wd(W->f, f); }); Sess s; s.target_first = true; int n = 0; if (kind != K_CLIENT) s.gap = [&](Agent &u) { if (n++ == at && at) ask(u); }; s.run(u, kind); if (kind != K_CLIENT && (!at || at >= n)) mc_prune();
    }
    void step() override { for (auto &a : W->agents) if (a.tls.on) { tls_poll(a); if (a.tls.bad) mc_fail("%s: %s", a.name, a.tls.badwhy.c_str()); } }
    void finished() override { for (auto &a : W->agents) if (a.tls.on) mc_outcome(a.tls.kus); mc_outcome(W->now_ms); }
};
/* a handshake that stalls or breaks at any step is given up and both legs are closed */
struct TlsStall : Base {
    long long t0 = 0; bool cut_done = false;
    void setup() override {
        skip_drain = false; check_release = true; int kind = arg & 15; world(kind);
        int mode = mc_choose(3, 0, "silence, garbage or end");
        auto spoil = [mode](Agent &a) { if (mode == 1) o_send(a, Str(50, '\xee')); if (mode == 2) o_shutwr(a); };
        if (kind == K_CLIENT) { int cut = mc_choose(5, 0, "handshake step"); int part = mc_choose(2, 0, "part"); auto sc = [cut, part, spoil](Agent &a) { a.background = true; o_tls_server(a); a.ops.resize(cut > 4 ? 4 : cut); if (part) o_send(a, Str("\x16\x03\x03", 3)); spoil(a); }; W->targets[2].script = sc; W->targets[3].script = sc; Agent &u = add_agent("user"); o_connect(u, P_LOCAL); o_send(u, "ping"); if (mode || cut < 4 || part) o_wait(u, "given up", [](Agent &u) { return u.s().tx_fin || !u.s().open; }); }
        else { Agent &u = add_agent("user"); Sess s; s.run(u, kind); int at = mc_choose(4, 0, "handshake step"); int part = mc_choose(2, 0, "part"); u.ops.resize(1 + at); if (part) o_send(u, Str("\x16\x03\x03", 3)); spoil(u); o_wait(u, "given up", [](Agent &u) { return u.s().tx_fin || !u.s().open; }); }
    }
    void stuck(Agent &a) override { if (!t0) t0 = W->now_ms; if (W->now_ms - t0 > 60000) mc_fail("a stalled handshake is not given up within a minute"); }
    void finished() override { mc_outcome(W->now_ms - t0); }
};
REGISTER(C21) {
    bool t = mc_thorough(); static const char *mn[] = {"blocked writes", "cut reads", "all schedules", "one byte per read", "one byte per write", "one byte both", "next to a failing handshake", "next to a failing handshake, default schedule"};
    for (int k : {K_IP, K_CLIENT, K_HTTPS, K_SH_TUN, K_SH_HTTP, K_DOM}) {
        for (int m = 0; m < 8; m++) { int d = m == 0 ? (k == K_HTTPS ? 2 : 3) + t : m == 1 ? 3 + t : m == 2 ? (k == K_HTTPS ? 2 : 3) : m == 6 ? 1 + t : 0; mc_add(run_scn<Tls>, k | m << 4, d, "%s, %s", kname[k], mn[m]); }
        mc_add(run_scn<TlsLeft>, k, 0, "%s, an error left behind", kname[k]); mc_add(run_scn<TlsLeft>, k | 16, 1 + t, "%s, an error left behind, blocked writes", kname[k]); mc_add(run_scn<TlsLeft>, k | 32, 1 + t, "%s, an error left behind, cut reads", kname[k]);
        mc_add(run_scn<TlsStall>, k, 0, "%s, stalled handshake", kname[k]);
        mc_add(run_scn<TlsKey>, k, 2 + t, "%s, new keys, blocked writes", kname[k]); mc_add(run_scn<TlsKey>, k | 16, 1 + t, "%s, new keys, all schedules", kname[k]);
    }
}

/* ------------------------------------------------------------------ C25 */
struct Silence : Base {
    /* one side stops after any of its steps (or its window closes for good) and stays silent */
    long long t0 = 0; int kind, mode;
    static void cut_ops(Agent &a, size_t n) { if (n < a.ops.size()) a.ops.resize(n); o_wait(a, "dropped", [](Agent &a) { if (!a.var["t0"]) a.var["t0"] = W->now_ms; if (a.sock < 0 || a.s().tx_fin || !a.s().open) return true; if (W->now_ms - a.var["t0"] > 61000) mc_fail("a silent peer's connection is still open after a minute"); return false; }); }
    void setup() override {
        skip_drain = false; check_release = true; kind = arg & 15; mode = arg >> 4 & 7; world(kind);
        static const char *fl[] = {"", "se", "seo"}; const char *f = fl[arg >> 8 & 3];
        if (arg >> 7 & 1) neighbour();
        Agent &u = add_agent("user"); Sess s; s.run(u, kind);
        if (*f) { o_call(u, [f](Agent &) { wd(W->f, f); }); auto op = u.ops.back(); u.ops.pop_back(); u.ops.insert(u.ops.begin(), op); }
        if (mode == 6) { for (auto &t : W->targets) { auto g = t.script; int at = mc_choose(6, 0, "far end stops after"); t.script = [g, at](Agent &a) { g(a); if (strncmp(a.name, "active", 6)) cut_ops(a, at); }; break; } auto g = W->targets[2].script; int at = kind == K_CLIENT ? mc_choose(6, 0, "far end stops after") : 9; W->targets[2].script = W->targets[3].script = [g, at](Agent &a) { g(a); if (strncmp(a.name, "active", 6)) cut_ops(a, at); }; int ua = mc_choose(u.ops.size() - 1, 0, "user stops after"); cut_ops(u, ua + 1); }
        if (mode == 0) { int at = mc_choose(u.ops.size() - 1, 0, "user stops after"); int part = mc_choose(2, 0, "partial"); u.ops.resize(at + 1); if (part && at && kind != K_CLIENT) o_call(u, [](Agent &u) { ag_deliver(u, u.tls.on ? Str("\x17\x03\x03\x00", 4) : Str("G")); }); cut_ops(u, 1000); }
        if (mode == 1) { int at = mc_choose(8, 0, "far end stops after"); for (auto &t : W->targets) { auto g = t.script; t.script = [g, at](Agent &a) { g(a); if (strncmp(a.name, "active", 6)) cut_ops(a, at); }; } }
        if (mode == 2) { W->targets[0].mode = W->targets[1].mode = W->targets[2].mode = W->targets[3].mode = 2; }   /* connect never answered */
        if (mode == 3) W->dns_reply = [](DnsQuery &, Dgram &) { return false; };
        if (mode == 4) { W->nodrain = true; o_call(u, [](Agent &) {}); auto op = u.ops.back(); u.ops.pop_back(); u.ops.insert(u.ops.begin(), op); u.ops[0].act = [](Agent &) { wd(W->f, "b"); }; }
        if (mode == 5) W->targets[0].script = [](Agent &a) { o_expect(a, "ping"); o_send(a, pattern(40000, 3)); o_waitclose(a); };   /* more than fits, the user never reads */
        if (mode == 5) { W->nodrain = true; while (strcmp(u.ops.back().name, "tls-send")) u.ops.pop_back(); cut_ops(u, 1000); wdn(u); }
    }
    void wdn(Agent &u) { o_call(u, [](Agent &) { wd(W->f, "b"); }); auto op = u.ops.back(); u.ops.pop_back(); u.ops.insert(u.ops.begin(), op); }
    void neighbour() {     /* an active session whose traffic must not keep the silent one alive, nor be disturbed by it */
        Agent &n = add_agent("active"); 
        if (kind == K_CLIENT) { o_connect(n, P_LOCAL); o_send(n, "z"); for (int i = 0; i < 25; i++) { o_sleep(n, 3000); o_send(n, "z"); } auto g = W->targets[2].script; int *c = &nfar; W->targets[2].script = W->targets[3].script = [g, c](Agent &a) { if ((*c)++ == 0) { far_server(a, "key1"); o_expect(a, Str(26, 'z')); a.name = "active far"; } else g(a); }; return; }
        W->targets.push_back({IP(4,4,4,4), 90, 0, [](Agent &a) { a.name = "active far"; o_expect(a, Str(25, 'z')); }});
        if (kind == K_HTTP || kind == K_HTTP2 || kind == K_HTTPS || kind == K_SH_HTTP) { bool tls = kind == K_HTTPS || kind == K_SH_HTTP; o_connect(n, tls ? P_HTTPS : P_HTTP); if (tls) o_tls_client(n); for (int i = 0; i < 25; i++) { o_sleep(n, 3000); o_asend(n, "GET /a.txt HTTP/1.1\r\nConnection: keep-alive\r\n\r\n"); http_wait(n, F1, i + 1); } return; }
        tunnel_open(n, kind == K_SH_TUN ? P_HTTPS : P_TUN, "key1", req_ip(4,4,4,4,90)); for (int i = 0; i < 25; i++) { o_sleep(n, 3000); o_tsend(n, "z"); }
    }
    int nfar = 0;
    void stuck(Agent &a) override {
        if (!strncmp(a.name, "active", 6)) { bool others = false; for (auto s : W->socks) if (s->open && s->fd >= 0 && s->kind == K_TCP && s->agent >= 0 && strncmp(W->agents[s->agent].name, "active", 6)) others = true; if (!others) Scenario::stuck(a); }
        if (!t0) t0 = W->now_ms;
        bool open = false; for (auto s : W->socks) if (s->open && s->fd >= 0 && (s->kind == K_TCP || s->kind == K_UDP)) open = true;
        if (!open) for (auto &a : W->agents) { if (!a.done() && !strncmp(a.name, "active", 6)) mc_fail("an active peer was dropped"); a.dead = true; }
        for (auto &a : W->agents) if (!a.done() && a.sock >= 0 && !a.s().open) { if (!strncmp(a.name, "active", 6)) mc_fail("an active peer was dropped"); a.dead = true; }
        if (open && W->now_ms - t0 > 60000) mc_fail("a silent peer's connection is still open after a minute");
    }
    void finished() override { mc_outcome(t0 ? W->now_ms - t0 : 0); mc_outcome(W->connects.size()); }
};
struct Slow : Base {
    /* every step is preceded by a pause just under the limit; everything must still work */
    int kind, mode; int msgs = 0;
    static void slow_ops(Agent &a, bool choose = false) { std::vector<Op> v; for (auto &o : a.ops) { static const char *act[] = {"send", "tls-send", "client-hello", "client-finished", "send-server-hello", "close-notify", "close"}; bool s = false; if (choose) { int p = 0; for (auto x : act) if (!strcmp(o.name, x)) p = mc_choose(3, 1, "pause"); if (p) { Agent t; o_sleep(t, p == 1 ? 4000 : 1500); for (auto &x : t.ops) v.push_back(x); } } else for (auto x : act) if (!strcmp(o.name, x)) s = true; if (s) { Agent t; o_sleep(t, 4000); for (auto &x : t.ops) v.push_back(x); } v.push_back(o); } a.ops = v; }
    void setup() override {
        kind = arg & 15; mode = arg >> 4 & 15; world(kind); Sess s;
        if (mode == 0 || mode == 1) { s.target_first = mode == 1; Agent &u = add_agent("user"); s.run(u, kind); slow_ops(u); W->env_delay = 4000; for (auto &t : W->targets) { auto g = t.script; t.script = [g](Agent &a) { g(a); slow_ops(a); }; } }
        if (mode == 11) { Agent &u = add_agent("user"); s.run(u, kind); slow_ops(u, true); int d = mc_choose(2, 1, "answers"); if (d) W->env_delay = 4000; for (auto &t : W->targets) { auto g = t.script; t.script = [g](Agent &a) { g(a); slow_ops(a, true); }; } }
        if (mode == 2) { Agent &u = add_agent("user"); s.run(u, kind); W->trickle_in = 1; W->trickle_delay = 4000; }
        if (mode == 3) { Agent &u = add_agent("user"); s.run(u, kind); W->trickle_out = kind == K_HTTP2 || kind == K_HTTPS ? 500 : 5; W->drain_delay = 4000; }
        if (mode == 4 || mode == 5 || mode == 6) { /* long one-way and alternating streams */
            int m = mode; Agent &u = add_agent("user"); bool cl = kind == K_CLIENT;
            auto talk = [](Agent &a, int n, bool me, bool other) { for (int i = 0; i < n; i++) { if (me) { o_sleep(a, 4000); o_asend(a, "<msg>"); } } if (other) o_wait(a, "await the whole stream", [n](Agent &a) { return a.got().size() >= a.mark + 5 * n; }); };
            auto far = [talk, m, cl](Agent &a) { if (cl) { far_server(a, "key1"); o_call(a, [](Agent &a) { a.mark = 36; }); } talk(a, 40, m != 4, m != 5); };
            W->targets[0].script = far; W->targets[2].script = far; W->targets[3].script = far;
            if (cl) { o_connect(u, P_LOCAL); if (m == 5) { o_send(u, "z"); auto g = far; auto f2 = [talk](Agent &a) { far_server(a, "key1"); o_expect(a, "z"); talk(a, 40, true, false); }; W->targets[2].script = f2; W->targets[3].script = f2; } }
            else { Agent t; Sess s2; s2.run(t, kind); size_t k = t.ops.size(); for (size_t i = 0; i < k; i++) if (!strcmp(t.ops[i].name, "call")) { k = i + 1; break; } for (size_t i = 0; i < k; i++) u.ops.push_back(t.ops[i]); }
            talk(u, 40, m != 5, m != 4);
        }
        if (mode == 7) { /* many slow requests on one connection */
            Agent &u = add_agent("user"); bool tls = kind == K_HTTPS || kind == K_SH_HTTP; o_connect(u, tls ? P_HTTPS : P_HTTP); if (tls) o_tls_client(u);
            for (int i = 0; i < 20; i++) { o_sleep(u, 4000); o_asend(u, "GET /a.txt HTTP/1.1\r\nConnection: keep-alive\r\n"); o_sleep(u, 4000); o_asend(u, "\r\n"); http_wait(u, F1, i + 1); }
        }
        if (mode == 9 || mode == 10) { /* much data against a receiver that takes a little every few seconds */
            bool up = mode == 9, cl = kind == K_CLIENT; Str d = pattern(30000, 8); Agent &u = add_agent("user"); Agent t; Sess s2; s2.run(t, kind); size_t k = t.ops.size(); for (size_t i = 0; i < k; i++) if (!strcmp(t.ops[i].name, "call")) { k = i + 1; break; }
            auto far = [cl, up, d](Agent &a) { if (cl) { far_server(a, "key1"); o_call(a, [](Agent &a) { a.mark = 36; }); if (!up) o_expect(a, "z"); } if (up) o_expect(a, d); else o_asend(a, d); };
            W->targets[0].script = far; W->targets[2].script = far; W->targets[3].script = far;
            if (cl) { o_connect(u, P_LOCAL); if (!up) o_send(u, "z"); } else for (size_t i = 0; i < k; i++) u.ops.push_back(t.ops[i]);
            if (up) o_asend(u, d); else o_expect(u, d);
            W->trickle_out = 1000; W->drain_delay = 4000;
        }
        if (mode == 12) { /* an opening in pieces with pauses, the lookup and the connect being slow too */
            Agent &u = add_agent("user"); o_connect(u, kind == K_SH_TUN ? P_HTTPS : P_TUN); o_tls_client(u); Str o = auth_header("key1") + greeting(), q = kind == K_DOM ? req_dom("a.bc", 80) : req_ip(4,4,4,4,80); int p = mc_choose(o.size(), 0, "cut"), r = mc_choose(q.size(), 0, "cut"); W->env_delay = 4000;
            o_sleep(u, 4000); if (p) { o_tsend(u, o.substr(0, p)); o_sleep(u, 4000); } o_tsend(u, o.substr(p)); o_expect(u, B({5, 0})); if (r) { o_tsend(u, q.substr(0, r)); o_sleep(u, 4000); } o_tsend(u, q.substr(r)); o_wait(u, "await the SOCKS5 reply", [](Agent &a) { return a.got().size() >= 12; }); o_call(u, [](Agent &a) { if (a.got()[2] != 5 || a.got()[3] != 0) mc_fail("wrong SOCKS5 reply"); a.mark = 12; }); o_sleep(u, 4000); o_tsend(u, "ping"); o_expect(u, "pong"); o_tclose(u); o_close(u);
        }
        if (mode == 8) { /* slow sender: head and body byte by byte */
            Agent &u = add_agent("user"); bool tls = kind == K_HTTPS || kind == K_SH_HTTP; o_connect(u, tls ? P_HTTPS : P_HTTP); if (tls) o_tls_client(u);
            for (char c : Str("POST /echo HTTP/1.1\r\nContent-Length: 12\r\n\r\nslow request")) { o_sleep(u, 4000); o_asend(u, Str(1, c)); } http_wait(u, "slow request");
        }
    }
    void finished() override { mc_outcome(W->now_ms - 1000000000000ll); }
};
REGISTER(C25) {
    static const char *mn[] = {"user falls silent", "far end falls silent", "connect never answered", "name server silent", "windows close for good", "unread stream", "both ends fall silent"}; bool t = mc_thorough();
    for (int k = 0; k < K_N; k++) for (int m = 0; m < 7; m++) {
        bool tun = k == K_IP || k == K_DOM || k == K_SH_TUN || k == K_CLIENT; if ((m == 1 || m == 2 || m == 5 || m == 6) && !tun) continue; if (m == 3 && k != K_DOM) continue; if (m == 5 && k == K_CLIENT) continue;
        mc_add(run_scn<Silence>, k | m << 4, m < 4 || m == 6 ? 0 : t ? 4 : 3, "%s, %s", kname[k], mn[m]);
        if (m == 4 || m == 5) continue;
        mc_add(run_scn<Silence>, k | m << 4 | 2 << 8, t ? 3 : 2, "%s, %s, schedules", kname[k], mn[m]);
        mc_add(run_scn<Silence>, k | m << 4 | 1 << 7, 0, "%s, %s, active neighbour", kname[k], mn[m]);
        mc_add(run_scn<Silence>, k | m << 4 | 1 << 7 | 1 << 8, 1, "%s, %s, active neighbour, schedules", kname[k], mn[m]);
    }
    static const char *sn[] = {"pauses everywhere", "pauses everywhere, far end closes", "one byte every 4 s", "window opens every 4 s", "slow upload", "slow download", "slow both ways", "slow requests", "slow bytes of a request", "slow receiver of an upload", "slow receiver of a download", "pauses at some steps", "opening in pieces"};
    for (int k = 0; k < K_N; k++) for (int m = 0; m < 13; m++) {
        bool tun = k == K_IP || k == K_DOM || k == K_SH_TUN || k == K_CLIENT; if (((m >= 4 && m <= 6) || m == 9 || m == 10) && !tun) continue; if (m == 1 && (!tun || k == K_CLIENT)) continue; if ((m == 7 || m == 8) && tun) continue; if (m == 12 && (!tun || k == K_CLIENT)) continue;
        mc_add(run_scn<Slow>, k | m << 4, m == 11 ? (t ? 5 : 4) : 0, "%s, %s", kname[k], sn[m]);
    }
}

/* ------------------------------------------------------------------ C26 */
struct Hostile : Base {
    int port, len, good, how; bool gate; Str sent;
    static bool hostile_done(Agent &)  { bool seen = false; for (auto &a : W->agents) if ((!strcmp(a.name, "hostile") || !strcmp(a.name, "victim")) && a.sock >= 0) seen = true; if (!seen) return false; for (auto &a : W->agents) if (a.background && !a.done() && a.sock >= 0 && a.s().open && !strncmp(a.name, "hostile", 7)) { Op &o = a.ops[a.pc]; if (o.en(a)) return false; } for (auto &a : W->agents) if (!strcmp(a.name, "victim") && !a.done()) return false; return true; }
    static std::vector<Str> tokens(int p) {
        Str L(300, '\xff'), M(1000, 'A'), X(4096, 'A');
        switch (p) {
        case 0: /* before TLS, any TLS port */ return {Str("\x16", 1), Str("\x16\x03\x03", 3), Str("\x16\x03\x03\x00\x01z", 6), Str("\x16\x03\x03\x40\x70", 5), Str("\x17\x03\x03\xff\xff", 5), tls_record(0x16, Str("CH") + Str(38, 'x')), tls_record(0x16, Str("CF") + Str(18, 'x')), tls_record(0x17, "data"), tls_record(0x15, Str("\x02\x28", 2)), "GET / HTTP/1.1\r\n\r\n", Str(1, '\0'), L, X, Str(20000, '\x16')};
        case 1: /* inside TLS, before authorization */ return {auth_header("key1"), auth_header("key2"), auth_header("key1", 0xdeadbeef), auth_header("key1").substr(0, 35), auth_header("key1").substr(0, 4), Str(1, '\xa0'), Str(1, '\0'), Str(36, '\0'), greeting(), B({5}), B({4, 1}), L, X, Str(13000, 'b'), req_ip(1,2,3,4,80), "GET /"};
        case 2: /* after authorization */ return {B({5, 1, 0}), B({5}), B({4}), B({0}), B({5, 0}), B({5, 255}), B({255}), B({1}), Str(255, '\2'), L, Str(13000, '\5'), req_ip(4,4,4,4,80), req_dom("a.bc", 80), B({3}), "\r\n"};
        case 3: /* after the greeting */ return {B({5, 1, 0, 1}), B({5, 1, 0, 3}), B({5, 1, 0, 4}), B({5, 2, 0, 1}), B({5, 3, 0, 3}), B({0}), B({1}), B({255}), B({4, 4, 4, 4}), B({0, 80}), "a.bc", Str(255, 'a'), Str(127, 'a') + "." + Str(127, 'b'), "....", L, Str(13000, 'q'), B({5})};
        case 4: case 5: case 6: /* HTTP */ return {"GET ", "POST ", "HEAD ", "/", "/echo", "/a.txt", "http", "://", "h:80", " ", " HTTP/1.1", "\r", "\n", "\r\n", "\r\n\r\n", "Content-Length:", "Connection: keep-alive\r\n", "0", "-1", "5", "99999999999", "2147483647", "..", ":", Str(1, '\0'), "\xff", "\t", M, X, Str(17, 'B')};
        case 7: /* client mode, the far server */ return {Str("\x16\x03\x03\x00\x01z", 6), Str(1, '\x16'), tls_record(0x16, Str("SH") + Str(58, 'x')), tls_record(0x16, Str("NT") + Str(28, 'x')), tls_record(0x17, "data"), tls_record(0x17, Str()), tls_record(0x15, Str("\x01\x00", 2)), tls_record(0x15, Str("\x02\x28", 2)), "HTTP/1.1 400\r\n\r\n", L, Str(20000, '\x17'), Str(1, '\0')};
        case 8: /* client mode, the local side */ return {Str(1, '\0'), greeting(), L, X, Str(12288, 'x'), Str(30000, 'y'), auth_header("key1")};
        case 9: /* relay phase */ return {Str(1, '\0'), "x", L, Str(12288, 'x'), Str(40000, 'y'), auth_header("key1"), greeting()};
        }
        return {};
    }
    void setup() override {
        port = arg & 15; len = arg >> 4 & 15; good = arg >> 8 & 15; how = arg >> 12 & 7; const char *f = arg >> 15 & 1 ? "seo" : arg >> 16 & 1 ? "dse" : ""; gate = arg >> 17 & 1;
        world(good); tolerant_targets();
        { Agent &g = add_agent("good"); if (*f) o_call(g, [f](Agent &) { wd(W->f, f); W->f.peerdie = false; }); Sess s; s.run(g, good); }
        if (gate) { auto &g = W->agents[0]; int n = g.ops.size(), lo = port == 7 ? 2 : 1; int k = len <= 1 ? lo + mc_choose(n - lo, 0, "gate") : n / 2; Agent t; o_wait(t, "the hostile peer has finished", hostile_done); g.ops.insert(g.ops.begin() + k, t.ops[0]); }
        auto tk = tokens(port); std::vector<Str> seq; for (int i = 0; i < len; i++) seq.push_back(tk[mc_choose(tk.size(), 0, "token")]);
        int end = mc_choose(3, 0, "end"); 
        auto put = [seq, end, this](Agent &a, bool tls) { Str all; if (how == 0) { for (auto &x : seq) all += x; if (tls) o_tsend(a, all); else o_send(a, all); } else for (auto &x : seq) { if (tls) o_tsend(a, x); else o_send(a, x); } if (end == 1) o_close(a); if (end == 2) o_rst(a); };
        static const uint16_t ports0[] = {P_TUN, P_HTTPS};
        if (port == 7) { auto g = W->targets[2].script; int *c = &nfar; W->targets[2].script = W->targets[3].script = [g, put, c](Agent &a) { if ((*c)++ != 1) { g(a); return; } a.name = "hostile far"; a.background = true; put(a, false); }; Agent &x = add_agent("victim"); x.background = true; o_connect(x, P_LOCAL); o_send(x, "ping"); }
        else { Agent &x = add_agent("hostile"); x.background = true;
            uint16_t p = port == 0 ? (good == K_HTTPS || good == K_SH_TUN || good == K_SH_HTTP ? P_HTTPS : P_TUN) : port <= 3 || port == 9 ? (good == K_SH_TUN || good == K_SH_HTTP ? P_HTTPS : P_TUN) : port == 4 ? P_HTTP : port == 5 || port == 6 ? P_HTTPS : P_LOCAL;
            o_connect(x, p); bool tls = port == 1 || port == 2 || port == 3 || port == 5 || port == 6 || port == 9; if (tls) o_tls_client(x);
            if (port == 2 || port == 3 || port == 9) o_tsend(x, auth_header("key1")); if (port == 3 || port == 9) { o_tsend(x, greeting()); o_wait_n(x, 2); } if (port == 9) { o_tsend(x, req_ip(4,4,4,4,80)); o_wait_n(x, 12); }
            put(x, tls); x.var["n"] = x.ops.size(); }
        if (good != K_CLIENT || true) { Agent &l = add_agent("later"); o_wait(l, "the hostile peer has finished", hostile_done); Sess s; s.run(l, good); }
    }
    int nfar = 0;
    /* the good sessions talk ping/pong, the hostile one may send anything */
    static void tolerant_targets() { for (auto &t : W->targets) { bool tls = t.port == 12345; t.script = [tls](Agent &a) { a.background = true; size_t m = 0; if (tls) { far_server(a, "key1"); m = 36; } o_wait(a, "bytes", [m](Agent &a) { return a.got().size() >= m + 4; }); o_call(a, [m, tls](Agent &a) { if (a.got().substr(m) == "ping") { if (tls) o_tsend(a, "pong"); else o_send(a, "pong"); } }); }; } }
    void step() override { for (auto &a : W->agents) if (a.tls.on && (!strcmp(a.name, "good") || !strcmp(a.name, "later"))) { tls_poll(a); if (a.tls.bad) mc_fail("%s: %s", a.name, a.tls.badwhy.c_str()); } }
    void finished() override { for (auto &a : W->agents) if (a.sock >= 0) mc_outcome(a.s().tx.size() * 4 + a.s().open); }
};
/* a valid message with one place changed: every byte to every value, bytes left out, repeated many times, or the end missing */
struct Changed : Base {
    int base, kind; Str m; size_t split = 0;
    void setup() override {
        base = arg & 15; int op = arg >> 4 & 15; static const int kd[] = {K_IP, K_DOM, K_SH_TUN, K_HTTP, K_HTTP, K_HTTPS, K_HTTP2, K_SH_HTTP, K_HTTP, K_HTTPS, K_DOM}; kind = kd[base]; world(kind); Hostile::tolerant_targets();
        bool tun = base <= 2 || base == 10;
        if (tun) { m = auth_header("key1") + greeting(); split = m.size(); m += base == 1 || base == 10 ? req_dom("n.bc", 80) : req_ip(4,4,4,4,80); }
        if (base == 3) m = "GET /a.txt HTTP/1.1\r\nHost: h:8\r\nConnection: keep-alive\r\nA:\r\n\r\n";
        if (base == 4 || base == 7) m = "POST /echo HTTP/1.1\r\nContent-Length: 11\r\nConnection: keep-alive\r\n\r\nhello world";
        if (base == 5) m = "GET /b.bin HTTP/1.1\r\nContent-Length: 4\r\n\r\nbody"; if (base == 6) m = "GET http://host.a:80/a.txt HTTP/1.1\r\nConnection: keep-alive\r\n\r\nGET / HTTP/1.1\r\n\r\n";
        size_t pos = 0; int end = 0; bool cut = false;
        if (base == 10) {     /* the changed message is the name server's answer */
            op = mc_choose(4, 0, "what"); int pl = mc_choose(56, 0, "place"), v = op == 0 ? mc_choose(256, 0, "value") : op == 1 ? mc_choose(4, 0, "left out") : op == 2 ? mc_choose(4, 0, "repeated") : 0;
            W->dns_reply = [op, pl, v](DnsQuery &q, Dgram &d) { d.data = dns_answer(q, IP(4,4,4,4), 2); if (q.name != "n.bc") return true; if (pl >= (int)d.data.size()) return true; static const int rep[] = {1, 16, 300, 1400}; if (op == 0) d.data[pl] = v; if (op == 1) d.data.erase(pl, v + 1); if (op == 2) d.data.insert(pl, rep[v], d.data[pl]); if (op == 3) d.data.resize(pl); return true; };
            op = 15; }
        if (op == 0) { pos = mc_choose(m.size(), 0, "place"); int v = mc_choose(256, 0, "value"); if ((char)v == m[pos]) mc_prune(); m[pos] = v; cut = mc_thorough() && mc_choose(2, 0, "cut there"); }
        if (op == 1) { pos = mc_choose(m.size(), 0, "place"); int k = 1 + mc_choose(4, 0, "left out"); m.erase(pos, k); if (pos < split) split = split < pos + k ? pos : split - k; cut = mc_choose(2, 0, "cut there"); end = mc_choose(3, 0, "end"); }
        if (op == 2) { pos = mc_choose(m.size(), 0, "place"); static const int rep[] = {1, 2, 255, 4096, 8170, 12288, 16384, 30000}; int k = rep[mc_choose(8, 0, "repeated")]; m.insert(pos, k, m[pos]); if (pos < split) split += k; end = mc_choose(2, 0, "end"); }
        if (op == 3) { pos = mc_choose(m.size() + 1, 0, "place"); m.resize(pos); if (split > pos) split = pos; end = mc_choose(3, 0, "end"); }
        if (base == 8 || base == 9) {     /* odd heads: many fields, odd lengths, long lines */
            int w = mc_choose(5, 0, "what"); m = mc_choose(2, 0, "method") ? "POST /echo HTTP/1.1\r\n" : "GET /a.txt HTTP/1.1\r\n";
            if (w == 0) { int n = mc_choose(70, 0, "fields"); int l = mc_choose(3, 0, "length"); for (int i = 0; i < n; i++) m += (l == 0 ? Str("A") : l == 1 ? "X-" + std::to_string(i) : Str(50, 'h')) + (l == 1 ? ": v\r\n" : ":\r\n"); m += "\r\n"; }
            if (w == 1) { static const char *cl[] = {"-1", "-2", "-2147483648", "-2147483649", "-4294967295", "-9223372036854775808", "0", "00", "000005", "16384", "16385", "16000", "10485760", "10485761", "2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551621", "99999999999999999999999999", "", " ", "+5", "5x", "x5", "0x5", "5 5", "5,5", "1e1", "."}; int n = mc_choose(34, 0, "length"); m += Str("Content-Length: ") + cl[n] + "\r\n"; if (mc_choose(2, 0, "twice")) m += "content-length: 5\r\n"; m += "\r\n"; static const int bl[] = {0, 5, 6, 16384, 20000}; m += Str(bl[mc_choose(5, 0, "body")], 'b'); }
            if (w == 2) { static const int ln[] = {100, 255, 256, 1023, 1024, 2048, 4000, 4096, 8100, 8150, 8160, 8170, 8180, 8190, 8192, 8193, 9000, 16384, 30000}; int n = ln[mc_choose(19, 0, "length")]; int k = mc_choose(3, 0, "where"); m += k == 0 ? Str(n, 'k') + ": v\r\n\r\n" : k == 1 ? "k: " + Str(n, 'v') + "\r\n\r\n" : "k:" + Str(n, ' ') + "v\r\n\r\n"; }
            if (w == 3) { static const int ln[] = {1, 15, 16, 17, 64, 255, 256, 1023, 1024, 1025, 4000, 4095, 4096, 4097, 8150, 8170, 8192, 9000, 16384, 30000}; int n = ln[mc_choose(20, 0, "length")]; int k = mc_choose(6, 0, "where"); Str x(n, 'x'); m = k == 0 ? x + " / HTTP/1.1\r\n\r\n" : k == 1 ? "GET /" + x + " HTTP/1.1\r\n\r\n" : k == 2 ? "GET / " + x + "\r\n\r\n" : k == 3 ? "GET http://" + x + "/ HTTP/1.1\r\n\r\n" : k == 4 ? "GET http://h:" + Str(n, '8') + "/ HTTP/1.1\r\n\r\n" : "GET " + Str(n, '/') + "a.txt HTTP/1.1\r\n\r\n"; }
            if (w == 4) {     /* a line or the whole head ends just there */
                int T = mc_choose(2, 0, "at") ? 8176 + mc_choose(30, 0, "size") : 4080 + mc_choose(30, 0, "size"), k = mc_choose(5, 0, "where"); auto pad = [&](const Str &a, char c, const Str &b) { return a + Str(T - a.size() - b.size(), c) + b; };
                if (k == 0) m = pad("GET /", 'x', " HTTP/1.1\r\n"); if (k == 1) m = pad("GET /a.txt HTTP/1.1", '1', "\r\n"); if (k == 2) m = pad(m + "k: ", 'v', "\r\n"); if (k == 3) m = pad(m + "k: ", 'v', "\r\n\r\n"); if (k == 4) m = pad(m + "Content-Length: 5\r\nk: ", 'v', "\r\n\r\n");
                pos = T - 1; cut = mc_choose(2, 0, "cut there"); m += k < 3 ? "\r\n" : k == 3 ? "GET / HTTP/1.1\r\n\r\n" : "hello"; }
            end = mc_choose(2, 0, "end"); }
        Agent &x = add_agent("hostile"); x.background = true; o_connect(x, kind == K_HTTP || kind == K_HTTP2 ? P_HTTP : kind == K_IP || kind == K_DOM ? P_TUN : P_HTTPS); bool tls = kind != K_HTTP && kind != K_HTTP2; if (tls) o_tls_client(x);
        auto put = [&](const Str &b) { if (b.size()) { if (tls) o_tsend(x, b); else o_send(x, b); } };
        auto part = [&](size_t a, size_t b) { if (cut && pos + 1 > a && pos + 1 < b) { put(m.substr(a, pos + 1 - a)); put(m.substr(pos + 1, b - pos - 1)); } else put(m.substr(a, b - a)); };
        if (tun) { part(0, split); if (split < m.size()) { o_wait(x, "the method", [](Agent &a) { return a.got().size() >= 2 || a.s().tx_fin || !a.s().open; }); part(split, m.size()); } } else part(0, m.size());
        if (end == 1) o_close(x); if (end == 2) o_rst(x);
        Agent &g = add_agent("good"); Sess s; int n = 0; s.gap = [&](Agent &u) { if (n++ == 1) o_wait(u, "the hostile peer has finished", Hostile::hostile_done); }; s.run(g, kind);
        Agent &l = add_agent("later"); o_wait(l, "the hostile peer has finished", Hostile::hostile_done); Sess s2; s2.run(l, kind);
    }
    void step() override { for (auto &a : W->agents) if (a.tls.on && (!strcmp(a.name, "good") || !strcmp(a.name, "later"))) { tls_poll(a); if (a.tls.bad) mc_fail("%s: %s", a.name, a.tls.badwhy.c_str()); } }
    void finished() override { for (auto &a : W->agents) if (a.sock >= 0) mc_outcome(a.s().tx.size() * 4 + a.s().open); }
};
/* one authorised peer asks for very many names, whose answers may be kept for hours; then many others come at once */
struct Names : Base {
    static const int MANY = 1000, GOOD = 40; int n = 0, kind, up = 0;
    void next(Agent &d) {
        if (n >= MANY) return; Str nm = "n" + std::to_string(n++) + (arg & 1 ? "." + Str(60, 'x') + "." + Str(60, 'y') + "." + Str(60, 'z') : Str()) + ".bc";
        o_call(d, [](Agent &d) { d.mark = 0; d.tls = TlsEnd(); d.sent.clear(); d.closed = false; d.wrshut = false; });
        tunnel_open(d, P_TUN, "key1", req_dom(nm, 80), false); o_wait(d, "await the outcome", [](Agent &u) { return u.got().size() >= 12 || u.s().tx_fin || u.tls.close_notify; }); o_close(d);
        o_wait(d, "await the end of the session", [](Agent &d) { for (auto s : W->socks) if (s->kind == K_TCP && s->open) return false; return true; });
        o_call(d, [this](Agent &d) { W->retire(); next(d); });
    }
    void setup() override {
        kind = arg >> 1 & 15; world(kind); W->dns_reply = [](DnsQuery &q, Dgram &d) { d.data = dns_answer(q, q.name == "a.bc" ? IP(4,4,4,4) : IP(6,6,6,6), 10800); return true; }; W->targets.insert(W->targets.begin(), {IP(6,6,6,6), 80, 4, nullptr}); for (auto &t : W->targets) if (!t.mode) t.script = [](Agent &a) { a.background = true; o_wait(a, "bytes", [](Agent &a) { return a.got().size() >= 4; }); o_send(a, "pong"); };
        Agent &d = add_agent("hostile"); o_call(d, [this](Agent &d) { next(d); });
        for (int i = 0; i < GOOD; i++) { Agent &g = add_agent("good"); o_wait(g, "the names have been asked for", [this](Agent &) { return n >= MANY && W->agents[0].done(); }); Sess s; bool first = true; s.gap = [this, &first](Agent &u) { if (first) { o_call(u, [this](Agent &) { up++; }); o_wait(u, "the others to connect", [this](Agent &) { return up == GOOD; }); } first = false; }; s.run(g, kind); }
    }
    void finished() override { mc_outcome(W->connects.size()); }
};
REGISTER(C26) {
    for (int l = 0; l < 2; l++) for (int k : {K_IP, K_DOM, K_HTTP, K_HTTPS}) mc_add(run_scn<Names>, l | k << 1, 0, "a thousand names%s, then many of %s", l ? " of 190 letters" : "", kname[k]);
    static const char *bn[] = {"tunnel opening", "tunnel opening by name", "shared port opening", "GET", "POST", "GET over TLS", "two requests", "shared port POST", "head", "head over TLS", "answer of the name server"}, *on[] = {"one byte changed", "bytes left out", "bytes repeated", "end missing"};
    for (int b = 0; b < 11; b++) for (int o = 0; o < 4; o++) if ((b < 8 || o == 0) && (o || (b != 5 && b != 7) || mc_thorough())) mc_add(run_scn<Changed>, b | (b < 8 ? o : 15) << 4, 0, b < 8 ? "%s, %s" : "odd %s", bn[b], on[o]);
    bool t = mc_thorough(); static const char *pn[] = {"before TLS", "before authorization", "before the greeting", "before the request", "HTTP", "HTTPS", "shared port", "far server", "local side", "relay"};
    auto add = [](int port, int len, int good, int how, int f, int d) { for (int gate = 0; gate < 2; gate++) if (gate ? !f : (len < 2 || f)) mc_add(run_scn<Hostile>, port | len << 4 | good << 8 | how << 12 | (f ? 1 << (14 + f) : 0) | gate << 17, d, "%s: %d tokens %s %s %s%s", pn[port], len, how ? "apart" : "together", gate ? "in the middle of" : "after", kname[good], f ? ", schedules" : ""); };
    for (int how = 0; how < 2; how++) {
        for (int len = 0; len <= (t ? 4 : 3); len++) {
            for (int g : {K_IP, K_HTTPS, K_SH_TUN}) if (len < 3 || g == K_IP) add(0, len, g, how, 0, 0);
            for (int p : {1, 2, 3}) for (int g : {K_IP, K_DOM, K_SH_TUN}) if (len < 3 || g == K_DOM) add(p, len, g, how, 0, 0);
            for (int g : {K_HTTP, K_HTTP2}) if (len < 3 || (g == K_HTTP && (how == 0 || t))) add(4, len, g, how, 0, 0);
            if (len < 3 || t) { add(5, len, K_HTTPS, how, 0, 0); add(6, len, K_SH_HTTP, how, 0, 0); }
            add(7, len, K_CLIENT, how, 0, 0); add(8, len, K_CLIENT, how, 0, 0);
            add(9, len, K_IP, how, 0, 0);
        }
        int d = t ? 2 : 1;
        for (int g : {K_IP, K_HTTPS, K_SH_TUN}) add(0, 1, g, how, 1, d);
        for (int p : {1, 2, 3}) add(p, 1, K_DOM, how, 1, d);
        add(4, 1, K_HTTP2, how, 1, d); add(5, 1, K_HTTPS, how, 1, d); add(6, 1, K_SH_HTTP, how, 1, d); add(7, 1, K_CLIENT, how, 1, d); add(8, 1, K_CLIENT, how, 1, d); add(9, 1, K_IP, how, 1, d);
    }
}
