/* shared pieces of the scenarios */
#pragma once
#include "sim.h"
#include <string.h>
#include <stdio.h>

static const uint16_t P_TUN = 12345, P_LOCAL = 1080, P_HTTP = 80, P_HTTPS = 443;
static inline Str B(std::initializer_list<int> l) { Str s; for (int c : l) s += (char)c; return s; }
static inline Str greeting() { return B({5, 1, 0}); }
Str req_ip(int a, int b, int c, int d, int port);
Str req_dom(const Str &name, int port);
Str dns_answer(const DnsQuery &q, uint32_t ip, uint32_t ttl);     /* one compressed A record */
void dns_ok(uint32_t ip, uint32_t ttl = 60);                       /* answer every query with ip */

/* script pieces, server mode: everything up to the success reply */
void tunnel_open(Agent &a, uint16_t port, const Str &key, const Str &req, bool expect_reply = true);
/* client-mode pieces: the far tunnel server (agent made by the connect) */
void far_server(Agent &a, const Str &key);

/* Drains and checks like Scenario, with common switches */
struct Base : Scenario {
    long arg = 0;
    bool tolerant() { return W->injected > 0; }
    void stuck(Agent &a) override { if (tolerant()) { if (!waiting++) t_wait = W->now_ms; if (W->now_ms - t_wait > 65000) { if (late_ok) { a.dead = true; return; } Scenario::stuck(a); } return; } Scenario::stuck(a); }
    int waiting = 0; long long t_wait = 0; bool late_ok = true;
    Base() { skip_drain = true; check_release = false; }     /* the end of sessions is judged by C04 and C25 only */
};
void wd(Faults &f, const char *what);     /* enable fault classes by letter list, see scn_common.cpp */

typedef void (*reg_fn)();
struct Reg { Reg(const char *prop, reg_fn f); };
#define REGISTER(prop) static void reg_##prop(); static Reg r_##prop(#prop, reg_##prop); static void reg_##prop()
template <class T> static void run_scn(long arg) { static T *t; delete t; t = new T; t->arg = arg; sim_run(*t); }
