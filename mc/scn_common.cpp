#include "scn.h"
static std::map<Str, std::vector<reg_fn>> &regs() { static std::map<Str, std::vector<reg_fn>> r; return r; }
Reg::Reg(const char *p, reg_fn f) { regs()[p].push_back(f); }
extern "C" void mod_reg(const char *p, reg_fn f) { regs()[p].push_back(f); }
extern "C" void mod_faults(const char *l) { if (!*l) W->f = Faults(); else wd(W->f, l); }
extern "C" void mc_register(const char *property) { for (auto f : regs()[property]) f(); }

Str req_ip(int a, int b, int c, int d, int port) { return B({5, 1, 0, 1, a, b, c, d, port >> 8, port & 255}); }
Str req_dom(const Str &n, int port) { return B({5, 1, 0, 3, (int)n.size()}) + n + B({port >> 8, port & 255}); }
static Str be16(int v) { return B({v >> 8 & 255, v & 255}); }
static Str be32(uint32_t v) { return B({(int)(v >> 24), (int)(v >> 16 & 255), (int)(v >> 8 & 255), (int)(v & 255)}); }
Str dns_answer(const DnsQuery &q, uint32_t ip, uint32_t ttl) {
    Str r = be16(q.id) + be16(0x8180) + be16(1) + be16(1) + be16(0) + be16(0);
    size_t qe = 12; while (qe < q.data.size() && q.data[qe]) qe += (unsigned char)q.data[qe] + 1; qe += 5;
    r += q.data.substr(12, qe - 12);
    return r + B({0xc0, 12}) + be16(1) + be16(1) + be32(ttl) + be16(4) + Str((char*)&ip, 4);
}
void dns_ok(uint32_t ip, uint32_t ttl) { W->dns_reply = [ip, ttl](DnsQuery &q, Dgram &d) { d.data = dns_answer(q, ip, ttl); return true; }; }

void tunnel_open(Agent &a, uint16_t port, const Str &key, const Str &req, bool expect_reply) {
    o_connect(a, port);
    o_tls_client(a);
    o_tsend(a, auth_header(key));
    o_tsend(a, greeting());
    o_expect(a, B({5, 0}));
    o_tsend(a, req);
    o_call(a, [](Agent &a) { a.sent.clear(); });
    if (!expect_reply) return;
    o_wait(a, "await the SOCKS5 reply", [](Agent &a) { return a.got().size() >= 12; });
    o_call(a, [](Agent &a) { const Str &g = a.got(); if (g[2] != 5 || g[3] != 0 || g[5] != 1) mc_fail("%s: wrong SOCKS5 reply", a.name); a.mark = 12; });
}
void far_server(Agent &a, const Str &key) {
    o_tls_server(a);
    o_expect(a, auth_header(key));
}
/* s schedule, e early, o order, b blocked sends, B three cut points, w wire cuts, d peer dies, t time, a alloc, y system calls, i EINTR, c connect, x send errors, r recv errors, q accept, f short file reads */
void wd(Faults &f, const char *p) {
    f.armed = true;
    for (; *p; p++) switch (*p) {
        case 's': f.sched = true; break; case 'e': f.early = true; break; case 'o': f.order = true; break; case 'b': f.block = true; break; case 'B': f.block = f.cuts3 = true; break;
        case 'w': f.wire = true; break; case 'd': f.peerdie = true; break; case 't': f.time = true; break; case 'a': f.alloc = true; break; case 'y': f.sys = true; break; case 'i': f.eintr = true; break;
        case 'c': f.conn = true; break; case 'x': f.senderr = true; break; case 'r': f.recverr = true; break; case 'q': f.acc = true; break; case 'f': f.shortread = true; break;
    }
}
