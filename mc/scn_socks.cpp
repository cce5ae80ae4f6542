/* C02 authorization, C03 SOCKS5 CONNECT, C05 client mode, C09 name lookup, C10 name cache */
#include "scn.h"
#include <algorithm>

static bool connected_to(uint32_t ip, int port) { for (auto &c : W->connects) if (c.first == ip && (port < 0 || c.second == port)) return true; return false; }
static Str head(const Str &s, size_t n) { return s.substr(0, n); }

/* ------------------------------------------------------------------ C02 */
struct KeySet { const char *json; std::vector<Str> keys; };
static std::vector<KeySet> keysets() {
    return {
        {"[\"key1\",\"auth_for_tanx\"]", {"key1", "auth_for_tanx"}},
        {"[\"ab\",\"abc\",\"bcd\",\"0123456789abcdef\"]", {"ab", "abc", "bcd", "0123456789abcdef"}},
        {"[\"k\",\"\xc3\xa9t\xc3\xa9\",\"kk\",\"aab\",\"aaab\"]", {"k", "\xc3\xa9t\xc3\xa9", "kk", "aab", "aaab"}},
        {"[\"0123456789abcdefXYZ\",\"0123456789abcde\", 17, null, \"zz\"]", {"0123456789abcdefXYZ", "0123456789abcde", "zz"}},
    };
}
struct Attempt { Str hdr; bool good; Str what; };
static Attempt mk(const KeySet &ks, const Str &key, uint32_t magic = 0xa001beef, int fill = 0) {
    Str h = auth_header(head(key, 16), magic); for (int i = 20; i < 36; i++) h[i] = fill;
    bool ok = magic == 0xa001beef && key.size() <= 16 && std::find(ks.keys.begin(), ks.keys.end(), key) != ks.keys.end();
    if (key.size() > 16) ok = std::find(ks.keys.begin(), ks.keys.end(), head(key, 16)) != ks.keys.end();
    return {h, ok, key};
}
static std::vector<Attempt> attempts(const KeySet &ks) {
    std::vector<Attempt> v; std::set<Str> seen;
    auto add = [&](const Str &k, uint32_t m = 0xa001beef, int fill = 0) { if (k.find('\0') != Str::npos) return; Attempt a = mk(ks, k, m, fill); if (seen.insert(a.hdr).second) v.push_back(a); };
    for (auto &k : ks.keys) {
        add(k); add(k, 0xa001beef, 'x'); add(k, 0xa001beef, k[0]);
        for (size_t n = 1; n < k.size() && n <= 8; n++) { add(k.substr(0, n)); add(k.substr(n)); }
        if (k.size() > 3) add(k.substr(1, k.size() - 2));
        add(k + "x"); add("x" + k); add(k + k); add(k + k.substr(0, 1)); add(k.substr(0, 1) + k);
        Str c = k; c.back() ^= 1; add(c); c = k; c[0] ^= 0x20; add(c); c = k; c.back() ^= 0x80; add(c); c = k; c[0] ^= 0x80; add(c); c = k; c.back() = '\xff'; add(c);
        add(k, 0xa001beee); add(k, 0xefbe01a0); add(k, 0x2001beef);
    }
    add(""); add("", 0); add("\x01"); add("\xff\xff"); add("zzzzzzzzzzzzzzzz");
    return v;
}
struct Auth : Base {
    int ksi = 0, n = 1, mode = 0; std::vector<Attempt> at; std::vector<Attempt> use;
    /* mode 0: n successive attempts; 1: one attempt cut once or twice; 2: two interleaved attempts */
    void tail(Agent &u, int i) {
        Attempt a = use[i]; int ip = i + 1;
        o_tsend(u, greeting());
        o_wait(u, "await the answer to the greeting or a close", [](Agent &u) { return u.got().size() >= 2 || u.s().tx_fin || u.tls.close_notify; });
        o_call(u, [a, ip](Agent &u) {
            bool granted = u.got().size() >= 2;
            if (granted && !a.good) mc_fail("an unregistered key was accepted: \"%s\" (%zu bytes)", a.what.c_str(), a.what.size());
            if (!granted && a.good) mc_fail("a registered key was refused: \"%s\"", a.what.c_str());
            if (granted) { o_tsend(u, req_ip(7, 7, 7, ip, 99)); o_wait_n(u, 12); }
            else { o_tsend(u, req_ip(7, 7, 7, ip, 99)); }
            o_tclose(u); o_close(u);
        });
    }
    void setup() override {
        ksi = arg & 15; mode = arg >> 4 & 15; n = arg >> 8 & 15;
        auto ks = keysets()[ksi]; at = attempts(ks);
        W->authfile = ks.json; set_config_server();
        W->targets.push_back({0, 99, 0, nullptr});
        if (mode == 0) {
            Agent *prev = nullptr;
            static const char *names[] = {"first", "second", "third", "fourth"};
            for (int i = 0; i < n; i++) {
                use.push_back(at[mc_choose(at.size(), 0, "attempt")]);
                Agent &u = add_agent(names[i]); int pi = i - 1;
                if (i) o_wait(u, "await the end of the previous attempt", [pi](Agent &) { return W->agents[pi].done(); });
                o_connect(u, P_TUN); o_tls_client(u); o_tsend(u, use[i].hdr); tail(u, i); (void)prev;
            }
        } else if (mode == 1) {
            use.push_back(at[mc_choose(at.size(), 0, "attempt")]); Str h = use[0].hdr;
            int c1 = 1 + mc_choose(35, 0, "cut1"); int c2 = n > 1 ? c1 + mc_choose(36 - c1, 0, "cut2") : c1; bool gap = mc_choose(2, 0, "pause");
            Agent &u = add_agent("peer"); o_connect(u, P_TUN); o_tls_client(u);
            o_tsend(u, h.substr(0, c1)); if (gap) o_sleep(u, 50); if (c2 > c1) o_tsend(u, h.substr(c1, c2 - c1)); o_tsend(u, h.substr(c2)); tail(u, 0);
        } else if (mode == 2) {
            for (int i = 0; i < 2; i++) use.push_back(at[mc_choose(at.size(), 0, "attempt")]);
            int c1 = mc_choose(5, 0, "cut") * 4 + 4, c2 = mc_choose(5, 0, "cut") * 4 + 4;
            for (int i = 0; i < 2; i++) {
                Agent &u = add_agent(i ? "second" : "first"); o_connect(u, P_TUN); o_tls_client(u);
                int c = i ? c2 : c1; int other = 1 - i;
                if (i == 1) o_wait(u, "turn", [](Agent &) { return W->agents[0].var["turn"] >= 1; });
                o_tsend(u, use[i].hdr.substr(0, c)); o_call(u, [](Agent &u) { u.var["turn"]++; });
                if (i == 0) o_wait(u, "turn", [other](Agent &) { return W->agents[other].var["turn"] >= 1; }); else o_wait(u, "turn", [other](Agent &) { return W->agents[other].var["turn"] >= 2; });
                o_tsend(u, use[i].hdr.substr(c)); o_call(u, [](Agent &u) { u.var["turn"]++; });
                tail(u, i);
            }
        } else if (mode == 3) {   /* header, greeting in one record or one arrival; wire cuts */
            use.push_back(at[mc_choose(at.size(), 0, "attempt")]);
            Agent &u = add_agent("peer"); o_connect(u, P_TUN); o_tls_client(u);
            int how = mc_choose(3, 0, "packing"); Attempt a = use[0];
            o_call(u, [](Agent &) { wd(W->f, "w"); });
            if (how == 0) o_tsend(u, a.hdr);
            else if (how == 1) { o_call(u, [a](Agent &u) { ag_deliver(u, tls_record(0x17, a.hdr + greeting())); }); }
            else o_call(u, [a](Agent &u) { ag_deliver(u, tls_record(0x17, a.hdr) + tls_record(0x17, greeting())); });
            if (how == 0) tail(u, 0);
            else {
                o_wait(u, "await the answer to the greeting or a close", [](Agent &u) { return u.got().size() >= 2 || u.s().tx_fin || u.tls.close_notify; });
                o_call(u, [a](Agent &u) { bool g = u.got().size() >= 2; if (g != a.good) mc_fail("key \"%s\" %s", a.what.c_str(), g ? "accepted although unregistered" : "refused although registered"); });
            }
        }
    }
    void stuck(Agent &a) override {   /* a refused peer may also be left to time out */
        if (W->now_ms < 1000000000000ll + 100000) { int i = -1; for (size_t k = 0; k < W->agents.size(); k++) if (&W->agents[k] == &a) i = k; if (i >= 0 && i < (int)use.size() && !use[i].good) return; if (i > 0 && !W->agents[i-1].done()) return; }
        Scenario::stuck(a);
    }
    void step() override {
        for (size_t i = 0; i < use.size(); i++) if (!use[i].good && connected_to(IP(7,7,7,i+1), -1)) mc_fail("outbound connection made for a peer with an unregistered key \"%s\"", use[i].what.c_str());
        if (!W->dns.empty()) mc_fail("unexpected name lookup");
    }
    void finished() override { for (size_t i = 0; i < use.size(); i++) { bool c = connected_to(IP(7,7,7,i+1), 99); if (mode != 3 && c != use[i].good) mc_fail("no connection for a registered key"); mc_outcome(c); } }
};
REGISTER(C02) {
    for (int k = 0; k < 4; k++) {
        mc_add(run_scn<Auth>, k | 0 << 4 | 1 << 8, 0, "keyset%d single", k);
        mc_add(run_scn<Auth>, k | 0 << 4 | 2 << 8, 0, "keyset%d pairs", k);
        mc_add(run_scn<Auth>, k | 1 << 4 | 1 << 8, 0, "keyset%d one cut", k);
        if (mc_thorough()) mc_add(run_scn<Auth>, k | 1 << 4 | 2 << 8, 0, "keyset%d two cuts", k);
        if (mc_thorough()) mc_add(run_scn<Auth>, k | 2 << 4, 0, "keyset%d interleaved", k);
        mc_add(run_scn<Auth>, k | 3 << 4, mc_thorough() ? 2 : 1, "keyset%d coalesced", k);
    }
    if (!mc_thorough()) mc_add(run_scn<Auth>, 0 | 2 << 4, 0, "keyset0 interleaved");
    if (mc_thorough()) mc_add(run_scn<Auth>, 0 | 0 << 4 | 3 << 8, 0, "keyset0 triples");
}

/* ------------------------------------------------------------------ C03 */
struct S5Case { Str greet; bool greet_ok; Str req; bool req_ok; bool dom; Str name; uint32_t ip; int port; Str what; bool maybe = false; };
static Str greet(int ver, int n, int fill) { Str s = B({ver, n}); for (int i = 0; i < n; i++) s += (char)(i == 0 ? 0 : fill); return s; }
static std::vector<S5Case> greet_cases() {
    std::vector<S5Case> v;
    for (int ver : {5, 4, 0, 6, 255}) for (int n : {0, 1, 2, 3, 127, 128, 254, 255}) {
        S5Case c{greet(ver, n, 2), ver == 5 && n > 0, req_ip(1,2,3,4,80), true, false, "", IP(1,2,3,4), 80, "greeting version " + std::to_string(ver) + " with " + std::to_string(n) + " methods"};
        v.push_back(c);
    }
    return v;
}
static Str mkname(size_t n) { Str s; while (s.size() < n) { size_t l = std::min<size_t>(60, n - s.size()); if (n - s.size() - l == 1) l--; s += Str(l, 'a' + s.size() % 26); if (s.size() < n) s += '.'; } return s; }
static std::vector<S5Case> req_cases() {
    std::vector<S5Case> v; Str g = greeting();
    for (int p : {0, 1, 80, 255}) for (int q : {0, 1, 80, 255}) { int port = p << 8 | q; v.push_back({g, true, req_ip(1,2,3,4,port), true, false, "", IP(1,2,3,4), port, "port " + std::to_string(port)}); v.push_back({g, true, req_dom("www.x.yz", port), true, true, "www.x.yz", 0, port, "name, port " + std::to_string(port)}); }
    for (auto &a : std::vector<std::vector<int>>{{0,0,0,0},{255,255,255,255},{1,0,0,0},{0,0,0,1},{127,128,129,130},{10,200,30,5},{200,0,0,1}}) { v.push_back({g, true, req_ip(a[0],a[1],a[2],a[3],8080), true, false, "", IP(a[0],a[1],a[2],a[3]), 8080, "address"}); }
    for (int ver : {5, 4, 0, 1, 255}) for (int cmd : {1, 0, 2, 3, 255}) for (int at : {1, 3, 4, 0, 2, 5, 255}) {
        Str r = B({ver, cmd, 0, at}); if (at == 3) r += B({4}) + "a.bc"; else if (at == 4) r += Str(16, 1); else r += B({1,2,3,4}); r += B({0, 80});
        bool ok = ver == 5 && cmd == 1 && (at == 1 || at == 3); if (ok) continue;
        v.push_back({g, true, r, false, false, "", 0, 80, "version " + std::to_string(ver) + " command " + std::to_string(cmd) + " type " + std::to_string(at)});
    }
    for (size_t n : {1, 2, 3, 61, 62, 63, 126, 127, 128, 129, 200, 252, 253}) { Str nm = mkname(n); v.push_back({g, true, req_dom(nm, 443), true, true, nm, 0, 443, "name of " + std::to_string(n)}); }
    /* names that no query can carry exactly: refused, never looked up as something else */
    auto bad = [&](const Str &nm, const char *what) { v.push_back({g, true, req_dom(nm, 443), false, true, nm, 0, 443, what, true}); };
    bad("", "empty name"); bad(mkname(254), "name of 254"); bad(mkname(255), "name of 255"); bad(Str(64, 'a'), "label of 64"); bad(Str(255, 'a'), "label of 255"); bad(Str(100, 'a') + ".b", "label of 100");
    bad(".a", "leading dot"); bad("a..b", "double dot"); bad(Str("ab\0cd", 5), "zero byte inside"); bad(Str("\0", 1), "zero byte"); bad(".", "single dot"); bad("a.b\0", "x");
    v.back().maybe = true; v.pop_back();
    /* refused requests followed by more bytes: nothing in them may be taken for an address */
    for (size_t n : {2, 8, 255, 256, 257, 258, 259, 300, 514, 600}) for (int z = 0; z < 3; z++) {
        Str t = z == 0 ? Str(n, 'a') : Str("a.bc\0", 5) + Str(n, z == 1 ? '\0' : 'a'); t.resize(n);
        for (auto &h : std::vector<Str>{B({5,1,0,3,0}), B({5,1,0,4}), B({5,1,0,0}), B({5,2,0,3,0}), B({5,1,0,3,255}) + Str(255, 'a')}) v.push_back({g, true, h + t + req_ip(1,2,3,4,80) + req_dom("a.bc", 80), false, true, "", 0, 443, "refused, then " + std::to_string(n) + " more bytes"});
    }
    return v;
}
struct S5 : Base {
    std::vector<S5Case> cs; S5Case c; int mode = 0; bool reply_seen = false;
    static const size_t RELAY = 5;
    void setup() override {
        mode = arg & 15; int conn = arg >> 4 & 15; int nc = arg >> 8 & 15;
        cs = mode == 0 ? greet_cases() : req_cases();
        if (mode == 2) { /* segmentation: a few representative requests */
            cs = {{greeting(), true, req_ip(1,2,3,4,8080), true, false, "", IP(1,2,3,4), 8080, "ip"}, {greet(5, 3, 2), true, req_dom("ab.cd.ef", 4660), true, true, "ab.cd.ef", 0, 4660, "name"}, {greeting(), true, B({5,2,0,1,1,2,3,4,0,80}), false, false, "", 0, 80, "bind"}, {greeting(), true, B({5,1,0,4}) + Str(16, 1) + B({0, 80}), false, false, "", 0, 80, "ipv6"}, {greet(4, 1, 0), false, req_ip(1,2,3,4,80), true, false, "", IP(1,2,3,4), 80, "v4 greeting"}, {greeting(), true, req_dom("", 80), false, true, "", 0, 80, "empty name", true}};
        }
        c = cs[mc_choose(cs.size(), 0, "case")];
        set_config_server();
        dns_ok(IP(209,158,247,136), 1);
        W->targets.push_back({0, 0, conn, [](Agent &a) { o_send(a, "hello"); o_expect(a, "world"); }});
        Agent &u = add_agent("user"); o_connect(u, P_TUN); o_tls_client(u);
        Str h = auth_header("key1");
        if (mode == 2) {
            /* everything before the request in one stream, cut anywhere; the request cut anywhere */
            Str s1 = h + c.greet; 
            if (nc == 0) { int p = mc_choose(s1.size(), 0, "cut"); if (p) o_tsend(u, s1.substr(0, p)); o_tsend(u, s1.substr(p)); }
            else if (nc == 1) o_tsend(u, s1, 1);
            else { o_tsend(u, h); o_tsend(u, c.greet); }
        } else { o_tsend(u, h); o_tsend(u, c.greet); }
        o_wait(u, "await the answer to the greeting or a close", [](Agent &u) { return u.got().size() >= 2 || u.s().tx_fin || u.tls.close_notify; });
        bool ok = conn == 0 || conn == 3; S5Case cc = c; int md = mode;
        /* cuts of the request are chosen here so that they are part of the path */
        std::vector<Str> pieces;
        if (mode == 2 && nc >= 2) { int p1 = mc_choose(c.req.size(), 0, "cut1"), p2 = nc > 2 ? p1 + mc_choose(c.req.size() - p1, 0, "cut2") : p1; if (p1) pieces.push_back(c.req.substr(0, p1)); if (p2 > p1) pieces.push_back(c.req.substr(p1, p2 - p1)); pieces.push_back(c.req.substr(p2)); }
        else if (mode == 2 && nc == 1) for (char x : c.req) pieces.push_back(Str(1, x));
        else pieces.push_back(c.req);
        o_call(u, [cc, ok, md, pieces](Agent &u) {
            if (u.got().size() < 2) { if (cc.greet_ok && !W->injected) mc_fail("a correct greeting was refused (%s)", cc.what.c_str()); return; }
            if (!cc.greet_ok) mc_fail("accepted: %s", cc.what.c_str());
            if (u.got()[0] != 5 || u.got()[1] != 0) mc_fail("wrong answer to the greeting (%s)", cc.what.c_str());
            u.mark = 2;
            for (auto &p : pieces) o_tsend(u, p);
            if (cc.req_ok && ok) {
                o_wait(u, "await the SOCKS5 reply", [](Agent &u) { return u.got().size() >= 12 || u.s().tx_fin || u.tls.close_notify; });
                o_call(u, [cc](Agent &u) { const Str &g = u.got(); if (g.size() < 12 && W->injected) { u.dead = true; return; } if (g.size() < 12) mc_fail("a correct request was refused (%s)", cc.what.c_str()); if (g[2] != 5 || g[3] != 0 || g[4] != 0 || g[5] != 1) mc_fail("malformed reply"); u.mark = 12; });
                o_expect(u, "hello"); o_tsend(u, "world");
            } else { o_waitclose(u); o_call(u, [cc](Agent &u) { if (u.got().size() > 2) mc_fail("reply sent although the request failed (%s)", cc.what.c_str()); }); }
        });
    }
    void stuck(Agent &a) override { if (W->now_ms < 1000000000000ll + 61000 && (!c.req_ok || !c.greet_ok || W->injected || (arg >> 4 & 15) == 2)) return; if (W->injected) { a.dead = true; return; } Scenario::stuck(a); }
    void step() override {
        Agent &u = W->agent("user"); const Str &g = u.sock >= 0 ? u.got() : c.what;
        if (u.sock >= 0 && g.size() > 2) {
            bool est = false; for (auto s : W->socks) if (s->kind == K_TCP && !s->inbound && s->st == T_EST) est = true;
            if (!est) mc_fail("reply sent before the outbound connection was established");
        }
        if (W->connects.size() > 1) mc_fail("more than one outbound connection");
        if (W->dns.size() > 1) mc_fail("more than one query");
        for (auto &k : W->connects) {
            if (!c.greet_ok || !c.req_ok) mc_fail("outbound connection for a request that must be refused (%s)", c.what.c_str());
            if (k.second != c.port) mc_fail("connects to port %d instead of %d", k.second, c.port);
            if (!c.dom && k.first != c.ip) mc_fail("connects to another address (%s)", c.what.c_str());
            if (c.dom) { if (W->dns.empty()) mc_fail("connects without a lookup"); if (k.first != IP(209,158,247,136)) mc_fail("connects to another address than the resolved one"); }
        }
        for (auto &q : W->dns) if (q.name != c.name || !c.dom || !c.req_ok) mc_fail("looks up \"%s\" (%s)", q.name.c_str(), c.what.c_str());
        for (auto &q : W->dns) if (!q.wellformed || q.qtype != 1 || q.qclass != 1) mc_fail("malformed query (%s)", c.what.c_str());
    }
    void finished() override { Agent &u = W->agent("user"); mc_outcome(W->connects.size()); mc_outcome(u.got().size()); mc_outcome(W->dns.size()); }
};
struct S5Sched : S5 {   /* the same with every order of events, blocked sends and connect outcomes */
    void setup() override { S5::setup(); Agent &u = W->agent("user"); u.ops.insert(u.ops.begin(), {"arm", [](Agent&) { return true; }, [](Agent &) { wd(W->f, "seobwc"); }}); }
};
REGISTER(C03) {
    for (int conn = 0; conn < 5; conn++) {
        static const char *cn[] = {"", " refused", " unanswered", " at once", " refused at once"};
        mc_add(run_scn<S5>, 0 | conn << 4, 0, "greetings%s", cn[conn]);
        mc_add(run_scn<S5>, 1 | conn << 4, 0, "requests%s", cn[conn]);
        for (int nc = 0; nc < 4; nc++) mc_add(run_scn<S5>, 2 | conn << 4 | nc << 8, 0, "segments%d%s", nc, cn[conn]);
    }
    mc_add(run_scn<S5Sched>, 2 | 0 << 4 | 4 << 8, mc_thorough() ? 3 : 2, "schedules");
}

/* ------------------------------------------------------------------ C05 */
struct Client : Base {
    struct Cfg { int keylen; size_t n1, n2; int early; int far; const char *f; int dq, dt; };
    static std::vector<Cfg> cfgs; Cfg c; Str data, key, down;
    void setup() override {
        c = cfgs[arg]; data = pattern(c.n1 + c.n2, 3); down = "answer from the far end";
        for (int i = 0; i < c.keylen; i++) key += 'A' + i % 26;
        set_config_client(key);
        Agent &u = add_agent("local"); o_connect(u, P_LOCAL);
        const char *f = c.f; o_call(u, [f](Agent &) { wd(W->f, f); });
        o_send(u, data.substr(0, c.n1));
        if (c.n2) { if (!c.early) o_wait(u, "await establishment", [](Agent &) { for (auto &t : W->agents) if (!strcmp(t.name, "target") && t.got().size() >= 36) return true; return false; }); o_send(u, data.substr(c.n1)); }
        int far = c.far; Str hdr = auth_header(head(key, 16)); size_t total = data.size(); Str dn = down;
        if (far == 0) o_expect(u, down); else o_waitclose(u);
        /* far: 0 ok, 1 refused, 2 never, 3 closes at once, 4 resets at once, 5 garbage instead of a hello, 6 close after the hello, 7 stops answering, 8 closes after the handshake, 9 half a hello then silence, 10 plain text */
        W->targets.push_back({IP(5,6,7,8), 12345, far == 1 ? 1 : far == 2 ? 2 : far == 11 ? 4 : 0, [far, hdr, total, dn](Agent &a) {
            if (far == 3) { o_close(a); return; } if (far == 4) { o_rst(a); return; }
            if (far == 5 || far == 10) { o_wait(a, "hello", [](Agent &a) { return a.s().tx.size() > 5; }); o_send(a, far == 5 ? Str("\x16\x03\x03\xff\xff garbage") : Str("HTTP/1.0 400 Bad\r\n\r\n")); return; }
            if (far == 6) { o_wait(a, "hello", [](Agent &a) { return a.s().tx.size() > 5; }); o_close(a); return; }
            if (far == 7) return;
            if (far == 9) { o_wait(a, "hello", [](Agent &a) { return a.s().tx.size() > 5; }); o_send(a, Str("\x16\x03\x03\x00", 4)); return; }
            o_tls_server(a);
            if (far == 8) { o_tclose(a); o_close(a); return; }
            o_expect(a, hdr);
            o_wait(a, "await the local bytes", [total](Agent &a) { return a.got().size() >= 36 + total; });
            o_tsend(a, dn);
        }});
    }
    void step() override {
        for (auto &a : W->agents) if (!strcmp(a.name, "target")) {
            a.tls.on = true; a.got();
            if (a.tls.bad) mc_fail("to the tunnel server: %s", a.tls.badwhy.c_str());
            const Str &g = a.tls.plain; Str want = auth_header(head(key, 16)) + data;
            check_prefix(g, want, "tunnel server receives");
        }
        if (W->connects.size() > 1) mc_fail("more than one connection to the tunnel server");
        for (auto &k : W->connects) if (k.first != IP(5,6,7,8) || k.second != 12345) mc_fail("connects somewhere else");
        Agent &u = W->agent("local"); if (u.sock >= 0) check_prefix(u.got(), down, "local application receives");
    }
    void stuck(Agent &a) override {
        Agent &u = W->agent("local"); bool over = u.sock >= 0 && u.s().tx_fin;
        if (W->injected && over) { a.dead = true; return; }                                /* the set-up failed and the local side was closed, as it must be */
        if ((c.far || W->injected) && W->now_ms - 1000000000000ll < 61000) return;
        Scenario::stuck(a);
    }
    void finished() override { step(); mc_outcome(W->connects.size()); mc_outcome(W->agents.size()); }
};
std::vector<Client::Cfg> Client::cfgs;
REGISTER(C05) {
    auto &v = Client::cfgs; v.clear();
    for (int k = 0; k <= 32; k++) v.push_back({k, 10, 0, 0, 0, "", 0, 0});
    v.push_back({4, 5, 0, 0, 0, "seobwc", 3, 4}); v.push_back({4, 5, 7, 1, 0, "seobwc", 3, 3}); v.push_back({4, 5, 7, 0, 0, "seobw", 2, 3});
    for (size_t n : {12251, 12252, 12253, 12288, 12289, 24577, 40000}) { v.push_back({4, n, 0, 1, 0, "seobw", 2, 2}); v.push_back({4, 1, n, 1, 0, "seobw", 2, 2}); }
    for (int far = 1; far <= 11; far++) { v.push_back({4, 5, 0, 0, far, "seob", 2, 3}); v.push_back({4, 5, 20000, 1, far, "seob", 1, 2}); }
    v.push_back({4, 5, 7, 1, 0, "sewd", 2, 3}); v.push_back({4, 5, 7, 1, 0, "xrbd", 2, 3}); v.push_back({4, 5, 7, 1, 0, "Bi", 2, 3});
    for (size_t i = 0; i < v.size(); i++) { auto &c = v[i]; mc_add(run_scn<Client>, i, mc_thorough() ? c.dt : c.dq, "key%d data %zu+%zu%s far%d [%s]", c.keylen, c.n1, c.n2, c.early ? " early" : "", c.far, c.f); }
}

/* ------------------------------------------------------------------ C09 */
static Str be16(int v) { return B({v >> 8 & 255, v & 255}); }
static Str be32(uint32_t v) { return B({(int)(v >> 24), (int)(v >> 16 & 255), (int)(v >> 8 & 255), (int)(v & 255)}); }
static Str labels(const Str &n) { Str o, cur; for (char ch : n + ".") { if (ch == '.') { if (!cur.empty()) o += (char)cur.size() + cur; cur.clear(); } else cur += ch; } return o; }
/* a record: type x name form; A records carry 20.20.20.<k> */
enum { R_A, R_CNAME, R_AAAA, R_NS, R_ABAD3, R_ABAD16, R_AZERO, R_ZERO, R_TXT, R_FOUR, R_N };
enum { N_PTR, N_LABELS, N_LABPTR, N_ROOT, N_BIGLABEL, N_N };
static Str rec(int type, int nm, int k) {
    Str r;
    if (nm == N_PTR) r = B({0xc0, 12}); else if (nm == N_LABELS) r = labels("www.example.org") + B({0}); else if (nm == N_LABPTR) r = labels("cdn") + B({0xc0, 12}); else if (nm == N_ROOT) r = B({0}); else r = labels(Str(63, 'q')) + B({0});
    int ty = 1; Str d;
    switch (type) {
    case R_A: d = B({20, 20, 20, k}); break; case R_CNAME: ty = 5; d = labels("cdn.example.org") + B({0}); break; case R_AAAA: ty = 28; d = Str(16, 0x20); break; case R_NS: ty = 2; d = labels("ns1") + B({0xc0, 12}); break;
    case R_ABAD3: d = B({66, 66, 66}); break; case R_ABAD16: d = Str(16, 66); break; case R_AZERO: d = ""; break; case R_FOUR: ty = 5; d = B({2, 66, 66, 0}); break; case R_ZERO: ty = 10; d = ""; break; case R_TXT: ty = 16; d = B({0xc0, 0x0c, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 66, 66, 66, 66}); break;
    }
    return r + be16(ty) + be16(1) + be32(1) + be16(d.size()) + d;
}
struct Lookup : Base {
    int mode; Str resp; std::vector<Str> resps; std::set<int> ok_ips; bool may_close = true, must_close = false; int first = 0; Str nm = "www.example.org"; bool reply = true; Str what;
    bool answered = false, exact = false, noquery = false; uint32_t addr = 0;
    void setup() override {
        mode = arg & 15; int nrec = arg >> 4 & 15;
        set_config_server();
        std::vector<int> ty, nf; int hdr_an = -1, section = 0; int flags = 0x8180; int qd = 1;
        if (mode == 0 || mode == 1 || mode == 6) {
            for (int i = 0; i < nrec; i++) { ty.push_back(mc_choose(R_N, 0, "type")); nf.push_back(mc_choose(nrec > 2 ? 3 : N_N, 0, "name")); }
            if (nrec && mode == 0) section = mc_choose(4, 0, "section");   /* 0 all answers, 1 last in authority, 2 last in additional, 3 count too big */
        } else { ty = {R_CNAME, R_A}; nf = {N_PTR, N_LABPTR}; }
        if (mode == 3) flags = 0x8180 | mc_choose(16, 0, "rcode");
        std::vector<Str> rs; for (size_t i = 0; i < ty.size(); i++) rs.push_back(rec(ty[i], nf[i], 1 + i));
        int an = rs.size(), ns = 0, ad = 0; if (section == 1) { an--; ns++; } if (section == 2) { an--; ad++; } if (section == 3) an++;
        if (mode == 4) { qd = mc_choose(3, 0, "qdcount"); }
        int cut = -1, qmut = 0; 
        /* acceptable addresses */
        for (int i = 0; i < an && i < (int)rs.size(); i++) { if (ty[i] == R_A) { first = 1 + i; break; } }
        bool badA = false; for (int i = 0; i < an && i < (int)rs.size(); i++) { if (ty[i] == R_ABAD3 || ty[i] == R_ABAD16 || ty[i] == R_AZERO) badA = true; if (ty[i] == R_A) break; }
        if (first) ok_ips.insert(first); else must_close = true;
        may_close = !first || badA || section == 3;
        if ((flags & 15) || qd != 1) { must_close = may_close = true; ok_ips.clear(); }
        /* a qname is needed to build the bytes: known in advance */
        Str q = labels(nm) + B({0}) + be16(1) + be16(1);
        Str body; for (auto &r : rs) body += r;
        resp = be16(0xbeef) + be16(flags) + be16(qd) + be16(an) + be16(ns) + be16(ad);
        if (qd == 0) resp += body; else if (qd == 2) resp += q + q + body; else resp += q + body;
        if (mode == 1) { cut = mc_choose(resp.size(), 0, "cut"); resp = resp.substr(0, cut); may_close = true; }
        if (mode == 6) { /* trailing bytes after the last record */ resp += Str(mc_choose(20, 0, "tail"), 66); }
        if (mode == 2) { int k = mc_choose(9 + nm.size(), 0, "question");  /* another question in the response */
            Str q2 = q; if (k >= 9) { char &c = q2[k - 8]; if (c < 'a') mc_prune(); c = c == 'z' ? 'y' : c + 1; } if (k == 0) q2 = labels("ww.example.org") + B({0}) + be16(1) + be16(1); if (k == 1) q2 = labels("www.example.orgx") + B({0}) + be16(1) + be16(1); if (k == 2) q2 = B({0}) + be16(1) + be16(1); if (k == 3) q2 = labels(Str(63, 'a') + "." + Str(63, 'b')) + B({0}) + be16(1) + be16(1); if (k == 4) q2 = labels("wwx.example.org") + B({0}) + be16(1) + be16(1); if (k == 5) q2 = labels("www.example.org") + B({0}) + be16(28) + be16(1); if (k == 6) q2 = B({0xc0, 12}) + be16(1) + be16(1); if (k == 7) q2 = q; if (k == 8) q2 = labels("wWw.EXAMPLE.Org") + B({0}) + be16(1) + be16(1);
            resp = be16(0xbeef) + be16(flags) + be16(1) + be16(an) + be16(0) + be16(0) + q2 + body; may_close = k < 7 || k >= 9; if (k <= 4 || k >= 9) { must_close = true; ok_ips.clear(); } }
        resps = {resp};
        if (mode == 5) { int k = mc_choose(7, 0, "datagrams"); Str good = resp; 
            if (k == 0) resps = {good, good}; if (k == 1) resps = {Str(), good}; if (k == 2) resps = {good.substr(0, 10), good}; if (k == 3) resps = {good.substr(0, 20), good.substr(20)}; if (k == 4) resps = {Str(40, 66), good}; if (k == 5) { reply = false; must_close = true; } if (k == 6) resps = {good + Str(1600, 66)};
            if (k >= 1 && k != 6) may_close = true; if (k == 6) may_close = true; }
        if (mode == 7) { /* long response */ int n = 70; Str b2; for (int i = 0; i < n; i++) b2 += rec(R_CNAME, N_PTR, 0); b2 += rec(R_A, N_PTR, 1); resp = be16(0xbeef) + be16(flags) + be16(1) + be16(n + 1) + be32(0) + q + b2; ok_ips = {1}; must_close = false; may_close = resp.size() > 1500; resps = {resp}; }
        if (mode == 8) { /* raw junk after the question, every pair of bytes from a menu at the start */ static const int by[] = {0, 1, 0x3f, 0x40, 0x80, 0xbf, 0xc0, 0xc1, 0xff, 5}; Str j; for (int i = 0; i < nrec; i++) j += (char)by[mc_choose(10, 0, "byte")]; resp = be16(0xbeef) + be16(flags) + be16(1) + be16(1) + be32(0) + q + j; ok_ips.clear(); must_close = true; may_close = true; resps = {resp}; }
        if (mode == 10) { /* an address after any number of aliases that fits the usual size of a response */ int n = mc_choose(15, 0, "aliases"); Str b2; for (int i = 0; i < n; i++) b2 += rec(R_CNAME, N_PTR, 0); b2 += rec(R_A, N_PTR, 1); for (int i = mc_choose(3, 0, "more"); i > 0; i--) b2 += rec(R_A, N_PTR, 1 + i), n++; resp = be16(0xbeef) + be16(flags) + be16(1) + be16(n + 1) + be32(0) + q + b2; ok_ips = {1}; must_close = may_close = false; resps = {resp}; }
        if (mode == 11) { /* names: every number and length of labels near the limits */
            static const int len[] = {1, 2, 3, 9, 61, 62, 63, 64, 65}; Str n; int k = mc_choose(5, 0, "labels") + 1; bool bad = false;
            if (k < 5) for (int i = 0; i < k; i++) { int l = len[k == 4 ? 3 + mc_choose(5, 0, "length") : mc_choose(9, 0, "length")]; if (l > 63) bad = true; n += (i ? "." : "") + Str(l, 'a' + i); }
            else { int t = 240 + mc_choose(16, 0, "total"); while ((int)n.size() < t) n += n.size() % 50 == 49 ? '.' : 'm'; if (n.back() == '.') n.back() = 'm'; }
            if (n.size() > 255) mc_prune(); nm = n; must_close = bad || n.size() > 253; may_close = must_close; if (must_close) ok_ips.clear(); else { Str b2 = rec(R_CNAME, N_PTR, 0) + rec(R_A, N_PTR, 1); Str qq = labels(nm) + B({0}) + be16(1) + be16(1); resps = {be16(0xbeef) + be16(flags) + be16(1) + be16(2) + be32(0) + qq + b2}; ok_ips = {1}; } noquery = must_close; }
        if (mode == 12) { /* the last record ends, or its pieces lie, around the sizes buffers may have */
            static const int sz[] = {512, 1024, 1232, 1472, 1500, 2048, 4096}; int E = sz[mc_choose(7, 0, "around")] - 20 + mc_choose(60, 0, "end"), nf2 = mc_choose(N_N, 0, "name"), kind = mc_choose(3, 0, "kind"); Str last = kind == 0 ? rec(R_A, nf2, 1) : kind == 1 ? rec(R_ABAD16, nf2, 1) : rec(R_TXT, nf2, 1); Str hd = be16(0xbeef) + be16(flags) + be16(1) + be16(2) + be32(0) + q;
            int pad = E - (int)(hd.size() + last.size()) - 12; if (pad < 0) mc_prune(); Str t = B({0xc0, 12}) + be16(16) + be16(1) + be32(1) + be16(pad) + Str(pad, 66);
            resps = {hd + t + last}; ok_ips.clear(); if (kind == 0) { ok_ips.insert(1); must_close = false; may_close = E > 512; } else must_close = may_close = true; }
        if (mode == 9) { /* every kind of value in every octet of the address */ static const int by[] = {0, 1, 9, 10, 99, 127, 128, 200, 255}; int o[4]; for (int &x : o) x = by[mc_choose(9, 0, "octet")]; resp = be16(0xbeef) + be16(flags) + be16(1) + be16(1) + be32(0) + q + B({0xc0, 12}) + be16(1) + be16(1) + be32(1) + be16(4) + B({o[0], o[1], o[2], o[3]}); resps = {resp}; exact = true; addr = IP(o[0], o[1], o[2], o[3]); must_close = may_close = false; }
        auto rsv = resps; bool rp = reply;
        W->dns_reply = [rsv, rp](DnsQuery &q, Dgram &d) { if (!rp) return false; Sock &s = W->S(q.sock); for (size_t i = 0; i + 1 < rsv.size(); i++) { Dgram e = d; e.data = rsv[i]; s.dq.push_back(e); } d.data = rsv.back(); return true; };
        W->targets.push_back({0, 0, 0, [](Agent &a) { }});
        Agent &u = add_agent("user"); tunnel_open(u, P_TUN, "key1", req_dom(nm, 80), false);
        if (arg >> 8 & 1) { u.ops.insert(u.ops.begin(), {"arm", [](Agent&) { return true; }, [](Agent &) { wd(W->f, "sebixr"); }}); }
        if (arg >> 9 & 1) { u.ops.insert(u.ops.begin(), {"arm", [](Agent&) { return true; }, [](Agent &) { wd(W->f, "secat"); }}); }
        o_wait(u, "await the outcome of the lookup", [](Agent &u) { return u.got().size() >= 12 || u.s().tx_fin || u.tls.close_notify; });
    }
    void stuck(Agent &a) override { if (W->now_ms - 1000000000000ll < 61000) return; if (W->injected) { a.dead = true; return; } Scenario::stuck(a); }
    void step() override {
        if (W->dns.size() > 1) mc_fail("more than one query for one request");
        if (noquery && W->dns.size()) mc_fail("a query for something that cannot be a name");
        for (auto &q : W->dns) { if (q.name != nm || !q.wellformed || q.qtype != 1 || q.qclass != 1) mc_fail("wrong query"); if (q.ip != IP(9,9,9,9) || q.port != 53) mc_fail("query sent to the wrong server"); }
        if (W->connects.size() > 1) mc_fail("more than one connection for one lookup");
        for (auto &k : W->connects) { uint32_t h = ntohl(k.first); bool ok = exact ? k.first == addr : (h >> 8) == 0x141414 && ok_ips.count(h & 255); if (!ok) mc_fail("connects to %d.%d.%d.%d, which is not the first address record of the answer", h >> 24, h >> 16 & 255, h >> 8 & 255, h & 255); }
    }
    void finished() override {
        if (W->connects.empty() && !W->injected) { if (!may_close) mc_fail("the lookup was answered but the client was refused"); }
        if (must_close && !W->connects.empty()) mc_fail("connects although the answer has no address");
        mc_outcome(W->connects.size()); mc_outcome(W->connects.empty() ? 0 : W->connects[0].first);
    }
};
REGISTER(C09) {
    for (int n = 0; n <= (mc_thorough() ? 3 : 2); n++) mc_add(run_scn<Lookup>, 0 | n << 4, 0, "records %d", n);
    if (!mc_thorough()) mc_add(run_scn<Lookup>, 6 | 2 << 4, 0, "records with trailing bytes");
    for (int n = 1; n <= (mc_thorough() ? 2 : 1); n++) mc_add(run_scn<Lookup>, 1 | n << 4, 0, "truncated %d", n);
    if (!mc_thorough()) mc_add(run_scn<Lookup>, 1 | 2 << 4, 0, "truncated 2");
    mc_add(run_scn<Lookup>, 2, 0, "other question"); mc_add(run_scn<Lookup>, 3, 0, "response codes"); mc_add(run_scn<Lookup>, 4, 0, "question counts"); mc_add(run_scn<Lookup>, 5, 0, "datagrams"); mc_add(run_scn<Lookup>, 12, 0, "sizes of responses"); mc_add(run_scn<Lookup>, 7, 0, "long response"); mc_add(run_scn<Lookup>, 9, 0, "addresses"); mc_add(run_scn<Lookup>, 10, 0, "aliases"); mc_add(run_scn<Lookup>, 11, 0, "names");
    for (int n = 1; n <= 4; n++) mc_add(run_scn<Lookup>, 8 | n << 4, 0, "junk %d", n);
    mc_add(run_scn<Lookup>, 5 | 1 << 8, 2, "datagrams with faults"); mc_add(run_scn<Lookup>, 5 | 1 << 9, 2, "datagrams with time and connect faults");
}

/* ------------------------------------------------------------------ C10 */
struct Cache : Base {
    uint32_t lastttl = 0; struct Ent { long long t0 = -1; long long ttl = 0; uint32_t ip = 0; }; std::map<Str, Ent> ent; int seq = 0, steps = 0, depth; uint32_t ttl; size_t nd = 0, ncn = 0; Str cur; int nm = 2;
    std::vector<Str> names{"a.example", "bb.example", "c.test"}; bool many = false, cname = false; int round = 0, at = 0;
    static std::vector<Str> set(int k) {
        Str w(60, 'w'), l = w + "." + w + "." + w;
        switch (k) {
        case 1: return {l + ".ab", l + ".ac", l + ".abc"};                    /* long, with a long common part */
        case 2: return {"aaaa", "aaaab", "aaa"}; case 3: return {"a.b", "a.bb", "a.b.b"}; case 4: return {Str(31, 'q') + ".x", Str(31, 'q') + ".y", Str(31, 'q')};
        case 5: return {"ab.cd", "ba.dc", "cd.ab"}; case 6: return {"x", "y", "z"};
        }
        std::vector<Str> v; for (int i = 63; i >= 1; i--) v.push_back(Str(i, 'k')); for (int i = 0; i < 130; i++) v.push_back("n" + std::to_string(i) + ".org"); return v;    /* 7: many, many of them prefixes of others */
    }
    void next(Agent &d) {
        if (many) { if (at >= (int)names.size()) { at = 0; if (++round == 3) return; if (round == 2) o_sleep(d, ttl * 1000ll); } } else if (steps++ >= depth) return;
        cur = names[many ? at : mc_choose(nm, 0, "name")];
        long long life = std::min<long long>(ttl, 10800) * 1000;
        std::vector<long long> adv{0, 1, 29999, 30000, 30001};
        if (life > 1) adv.push_back(life - 1); if (life) { adv.push_back(life); adv.push_back(life + 1); } if (life > 31000) adv.push_back(life - 30000);
        if (depth > 3) { adv = {0, 30000}; if (life) { adv.push_back(life - 1); adv.push_back(life); } }
        std::sort(adv.begin(), adv.end()); adv.erase(std::unique(adv.begin(), adv.end()), adv.end());
        long long a = many || steps == 1 ? 0 : adv[mc_choose(adv.size(), 0, "advance")];
        if (a) o_sleep(d, a);
        o_call(d, [this](Agent &d) { d.mark = 0; d.tls = TlsEnd(); d.sent.clear(); d.closed = false; d.wrshut = false; nd = W->dns.size(); ncn = W->connects.size(); });
        tunnel_open(d, P_TUN, "key1", req_dom(cur, 80));
        o_call(d, [this](Agent &d) { judge(); });
        o_tclose(d); o_close(d);
        o_wait(d, "await the end of the session", [](Agent &d) { for (auto s : W->socks) if (s->kind == K_TCP && s->open) return false; return true; });
        o_call(d, [this](Agent &d) { at++; if (many) W->retire(); next(d); });
    }
    void judge() {
        Ent &e = ent[cur]; long long now = W->now_ms; bool fresh = e.t0 >= 0 && now - e.t0 < std::min<long long>(e.ttl, 10800) * 1000;
        size_t q = W->dns.size() - nd; if (W->connects.size() != ncn + 1) mc_fail("expected exactly one connection");
        uint32_t ip = W->connects.back().first;
        if (fresh) { if (q) mc_fail("a new query for %s although it was resolved %lld ms ago with a time-to-live of %lld s", cur.c_str(), now - e.t0, e.ttl); if (ip != e.ip) mc_fail("cached name %s gives another address", cur.c_str()); }
        else {
            if (!q) mc_fail("no new query for %s: last resolved %lld ms ago with a time-to-live of %lld s", cur.c_str(), e.t0 < 0 ? -1 : now - e.t0, e.ttl);
            if (q != 1 || W->dns.back().name != cur) mc_fail("wrong queries");
            uint32_t want = IP(230, 150, seq >> 8, seq & 255); if (ip != want) mc_fail("connects to an address other than the new answer");
            e.t0 = now; e.ttl = lastttl; e.ip = ip;
        }
        mc_outcome(fresh);
    }
    void setup() override {
        static const uint32_t ttls[] = {0, 1, 29, 30, 31, 60, 90, 10799, 10800, 10801, 2147483u, 2147484u, 4294967u, 4294968u, 0x7fffffffu, 0x80000000u, 0xffffffffu};
        ttl = ttls[arg & 31]; depth = arg >> 5 & 7; nm = arg >> 8 & 3; if (arg >> 10 & 7) names = set(arg >> 10 & 7); many = (arg >> 10 & 7) == 7; cname = arg >> 13 & 1;
        set_config_server(); 
        W->targets.push_back({0, 0, 0, nullptr});
        W->dns_reply = [this](DnsQuery &q, Dgram &d) { seq++; lastttl = many && seq % 2 ? ttl * 10 : ttl; d.data = dns_answer(q, IP(230, 150, seq >> 8, seq & 255), lastttl); if (cname) { /* an alias with another time-to-live comes first, an address with yet another one last */ size_t e = q.data.size(); d.data = d.data.substr(0, 6) + be16(3) + d.data.substr(8, e - 8) + B({0xc0, 12}) + be16(5) + be16(1) + be32(ttl == 60 ? 3600 : 60) + be16(4) + B({2, 'x', 'y', 0}) + d.data.substr(e) + B({0xc0, 12}) + be16(1) + be16(1) + be32(ttl == 1 ? 90 : 1) + be16(4) + B({9, 9, 9, 9}); } return true; };
        Agent &d = add_agent("driver"); o_call(d, [this](Agent &d) { next(d); });
    }
};
/* the same name asked for by several peers at the same time, hundreds of times: later names are still kept as long as they may be */
struct Together : Base {
    int round = 0, N = 300, busy = 0; long long pause; size_t nd = 0;
    void one(Agent &d, const Str &name) { o_call(d, [](Agent &d) { d.mark = 0; d.tls = TlsEnd(); d.sent.clear(); d.closed = false; d.wrshut = false; }); tunnel_open(d, P_TUN, "key1", req_dom(name, 80)); o_tclose(d); o_close(d); o_wait(d, "await the end of the session", [](Agent &d) { return !d.s().open || d.s().tx_fin; }); }
    void next(Agent &d, int me) {
        if (round >= N) { if (me) return; o_wait(d, "the other one is done", [](Agent &) { return W->agents[1].done(); }); o_sleep(d, 1); one(d, "z.bc"); o_call(d, [this](Agent &) { nd = W->dns.size(); }); o_sleep(d, 50000); one(d, "z.bc"); o_call(d, [this](Agent &) { if (W->dns.size() != nd) mc_fail("a new query although the name was resolved 50 seconds ago with a time-to-live of 60 s"); }); return; }
        one(d, "p.bc"); o_call(d, [this](Agent &) { if (++busy == 2) { busy = 0; round++; } }); int r = round; o_wait(d, "the other one", [this, r](Agent &) { return round > r; }); o_sleep(d, pause); o_call(d, [this, me](Agent &d) { bool q = true; for (auto s : W->socks) if (s->kind == K_TCP && s->open) q = false; if (q) W->retire(); next(d, me); });
    }
    void setup() override {
        pause = mc_choose(2, 0, "pause") ? 31000 : 2000; set_config_server(); W->targets.push_back({0, 0, 0, nullptr}); W->env_delay = 50;
        W->dns_reply = [](DnsQuery &q, Dgram &d) { d.data = dns_answer(q, IP(230, 150, 1, 1), q.name == "z.bc" ? 60 : 1); return true; };
        for (int i = 0; i < 2; i++) { Agent &d = add_agent(i ? "second" : "first"); o_call(d, [this, i](Agent &d) { next(d, i); }); }
    }
    void finished() override { mc_outcome(W->dns.size()); }
};
REGISTER(C10) {
    mc_add(run_scn<Together>, 0, 0, "one name asked for by two at once, 300 times");
    for (int i : {2, 4, 5, 7}) mc_add(run_scn<Cache>, i | 7 << 10, 0, "ttl#%d 193 names", i);
    for (int i : {1, 3, 5, 8, 10}) mc_add(run_scn<Cache>, i | 3 << 5 | 2 << 8 | 1 << 13, 0, "ttl#%d aliases", i);
    for (int k = 1; k < 7; k++) for (int i : {1, 5}) mc_add(run_scn<Cache>, i | 3 << 5 | 3 << 8 | k << 10, 0, "ttl#%d three lookups, name set %d", i, k);
    for (int i = 0; i < 17; i++) { mc_add(run_scn<Cache>, i | 3 << 5 | 2 << 8, 0, "ttl#%d three lookups, two names", i); if (i < 7 || mc_thorough()) mc_add(run_scn<Cache>, i | 4 << 5 | 1 << 8, 0, "ttl#%d four lookups", i); if (i < 7 && i > 0) mc_add(run_scn<Cache>, i | 4 << 5 | 2 << 8, 0, "ttl#%d four lookups, two names", i); if (mc_thorough() && i < 7) mc_add(run_scn<Cache>, i | 4 << 5 | 3 << 8, 0, "ttl#%d four lookups, three names", i); }
}
