/* C01 relay integrity and progress */
#include "scn.h"

/* one tunnel session: `up` bytes in nu sends from the user side, `down` bytes in nd sends from the far side */
struct Relay : Base {
    enum End { BOTH, UP_CLOSE, DOWN_CLOSE, UP_SHUT, DOWN_SHUT };
    struct Cfg { const char *name; bool client; size_t up; int nu; size_t down; int nd; int end; const char *f; int dq, dt; int keys = 0; };
    static std::vector<Cfg> cfgs;
    Str up, down; Cfg c;
    static void sends(Agent &a, const Str &d, int n) { size_t k = (d.size() + n - 1) / n; for (size_t i = 0; i < d.size(); i += k) o_asend(a, d.substr(i, k)); }
    /* the TLS end asks for new keys before any of its sends or after the last */
    void tsends(Agent &a, const Str &d, int n) { if (!c.keys) { sends(a, d, n); return; } if (c.keys == 2) { size_t h = d.size() / 2; o_call(a, [=](Agent &a) { Str k = tls_record(0x16, "KU"), all = keys & 1 ? k : Str(); all += tls_record(0x17, d.substr(0, h)); if (keys & 2) all += k; all += tls_record(0x17, d.substr(h)); if (keys & 4) all += k; ag_deliver(a, all); }); return; } size_t k = (d.size() + n - 1) / n; for (size_t i = 0; ; i += k) { if (keys >> (i / (k ? k : 1)) & 1) o_tkey(a); if (i >= d.size()) break; o_asend(a, d.substr(i, k)); } }
    int keys = 0;
    /* the user's end */
    void user_ops(Agent &a) {
        if (c.client) sends(a, up, c.nu); else tsends(a, up, c.nu);
        if (c.client && (c.end == UP_CLOSE || c.end == UP_SHUT)) o_wait(a, "await establishment", [](Agent &) { for (auto &t : W->agents) if (!strcmp(t.name, "target") && t.got().size() >= 36) return true; return false; });
        if (c.end == UP_CLOSE || c.end == UP_SHUT) { if (!c.client) o_tclose(a); }
        if (c.end == UP_CLOSE) { o_close(a); return; }
        if (c.end == UP_SHUT) o_shutwr(a);
        if (c.end != UP_SHUT) o_wait(a, "await all bytes from the far end", [this](Agent &a) { return a.got().size() >= a.mark + down.size(); });
        if (c.end == DOWN_CLOSE || c.end == DOWN_SHUT || c.end == UP_SHUT) o_waitclose(a);
    }
    void far_ops(Agent &a) {
        if (c.end == DOWN_CLOSE) o_wait(a, "await all bytes from the user", [this](Agent &a) { return a.got().size() >= a.mark + up.size(); });
        if (c.client) tsends(a, down, c.nd); else sends(a, down, c.nd);
        if (c.end == DOWN_CLOSE || c.end == DOWN_SHUT) { if (c.client) o_tclose(a); }
        if (c.end == DOWN_CLOSE) { o_close(a); return; }
        if (c.end == DOWN_SHUT) o_shutwr(a);
        if (c.end != DOWN_SHUT) o_wait(a, "await all bytes from the user", [this](Agent &a) { return a.got().size() >= a.mark + up.size(); });
        if (c.end == UP_CLOSE || c.end == UP_SHUT || c.end == DOWN_SHUT) o_waitclose(a);
    }
    void setup() override {
        c = cfgs[arg]; if (c.keys) keys = 1 + mc_choose(c.keys == 2 ? 7 : (2 << (c.client ? c.nd : c.nu)) - 1, 0, "new keys");
        up = pattern(c.up, 1); down = pattern(c.down, 2);
        Agent &u = add_agent("user");
        if (!c.client) {
            set_config_server();
            tunnel_open(u, P_TUN, "key1", req_ip(1, 2, 3, 4, 8080));
            o_call(u, [this](Agent &) { wd(W->f, c.f); });
            user_ops(u);
            W->targets.push_back({IP(1,2,3,4), 8080, 0, [this](Agent &a) { far_ops(a); }});
            /* the target starts talking only after the session is established */
        } else {
            set_config_client();
            o_connect(u, P_LOCAL);
            o_call(u, [this](Agent &) { wd(W->f, c.f); });
            user_ops(u);
            W->targets.push_back({IP(5,6,7,8), 12345, 0, [this](Agent &a) { far_server(a, "key1"); far_ops(a); }});
        }
    }
    void check() {
        Agent &u = W->agent("user");
        size_t hs = c.client ? 0 : 12;
        if (u.got().size() > hs) check_prefix(u.got().substr(hs), down, "user receives");
        if (u.tls.bad) mc_fail("user side: %s", u.tls.badwhy.c_str());
        for (auto &a : W->agents) if (!strcmp(a.name, "target")) { a.got(); if (a.tls.bad) mc_fail("far side: %s", a.tls.badwhy.c_str()); size_t m = c.client ? 36 : 0; if (a.got().size() > m) check_prefix(a.got().substr(m), up, "far end receives"); }
    }
    void step() override { check(); }
    void finished() override {
        check();
        Agent &u = W->agent("user"); mc_outcome(u.got().size()); mc_outcome(W->connects.size());
    }
    void drained() override { mc_outcome(W->socks.size()); }
};
std::vector<Relay::Cfg> Relay::cfgs;
REGISTER(C01) {
    typedef Relay R; 
    R::cfgs.clear();
    for (int cl = 0; cl < 2; cl++) {
        R::cfgs.push_back({"small", (bool)cl, 7, 1, 9, 1, R::BOTH, "seobw", 4, 5});
        R::cfgs.push_back({"small2", (bool)cl, 20, 2, 22, 2, R::BOTH, "seobw", 3, 4});
        R::cfgs.push_back({"up-close", (bool)cl, 30, 2, 0, 1, R::UP_CLOSE, "seobw", 4, 5});
        R::cfgs.push_back({"down-close", (bool)cl, 3, 1, 30, 2, R::DOWN_CLOSE, "seobw", 4, 5});
        R::cfgs.push_back({"up-shut", (bool)cl, 30, 2, 11, 1, R::UP_SHUT, "seobw", 3, 4});
        R::cfgs.push_back({"down-shut", (bool)cl, 12, 1, 31, 2, R::DOWN_SHUT, "seobw", 3, 4});
        for (size_t n : {12287, 12288, 12289, 16384, 16385, 30000}) {
            R::cfgs.push_back({"big", (bool)cl, n, 1, n + 7, 1, R::BOTH, "seobw", 2, 3});
            R::cfgs.push_back({"big-down-close", (bool)cl, 10, 1, n, 1, R::DOWN_CLOSE, "seobw", 2, 3});
            R::cfgs.push_back({"big-up-close", (bool)cl, n, 1, 0, 1, R::UP_CLOSE, "seobw", 2, 3});
        }
    }
    for (size_t i = 0; i < R::cfgs.size(); i++) { auto &c = R::cfgs[i]; mc_add(run_scn<Relay>, i, mc_thorough() ? c.dt : c.dq, "%s-%s-%zu/%d-%zu/%d", c.client ? "client" : "server", c.name, c.up, c.nu, c.down, c.nd); }
}

/* C21: both directions of a TLS connection at once, each of which may have to wait */
REGISTER(C21) {
    typedef Relay R; R::cfgs.clear();
    for (int cl = 0; cl < 2; cl++) {
        R::cfgs.push_back({"small both ways", (bool)cl, 20, 2, 22, 2, R::BOTH, "sebw", 3, 4});
        for (size_t n : {12289, 30000}) {
            R::cfgs.push_back({"both ways", (bool)cl, n, 1, n + 7, 1, R::BOTH, "sebw", 2, 3});
            R::cfgs.push_back({"down, then closed", (bool)cl, 10, 1, n, 1, R::DOWN_CLOSE, "sebw", 2, 3});
            R::cfgs.push_back({"up, then closed", (bool)cl, n, 1, 0, 1, R::UP_CLOSE, "sebw", 2, 3});
        }
    }
    for (int cl = 0; cl < 2; cl++) {
        R::cfgs.push_back({"both ways and new keys", (bool)cl, 20, 2, 22, 2, R::BOTH, "sebw", 2, 3, 1});
        R::cfgs.push_back({"both ways and new keys", (bool)cl, 20000, 1, 20007, 1, R::BOTH, "seb", 2, 3, 1});
        R::cfgs.push_back({"both ways and new keys in one arrival", (bool)cl, 20, 1, 22, 1, R::BOTH, "seb", 3, 4, 2});
        /* whoever asks has to stay for the answer */
        R::cfgs.push_back({"down, then ended, and new keys", (bool)cl, 10, 1, 30, 2, cl ? R::DOWN_SHUT : R::DOWN_CLOSE, "seb", 2, 3, 1});
        R::cfgs.push_back({"up, then ended, and new keys", (bool)cl, 30, 2, 0, 1, cl ? R::UP_CLOSE : R::UP_SHUT, "seb", 2, 3, 1});
    }
    for (size_t i = 0; i < R::cfgs.size(); i++) { auto &c = R::cfgs[i]; mc_add(run_scn<Relay>, i, mc_thorough() ? c.dt : c.dq, "%s, data %s, %zu and %zu bytes", c.client ? "client" : "server", c.name, c.up, c.down); }
}
