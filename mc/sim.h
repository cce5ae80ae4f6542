/* World simulator: kernel, peers, TLS library and clock around the real program.  See DESIGN.md. */
#pragma once
#include "explore.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <stdint.h>

typedef std::string Str;

/* ---------------- kernel objects ---------------- */
enum { K_LISTEN = 1, K_TCP, K_UDP, K_EPOLL, K_FILE, K_SINK, K_NEWTCP };
enum { T_NEW, T_SYN, T_EST, T_FAIL };

struct Dgram { Str data; uint32_t ip; uint16_t port; };

struct Sock {
    int id, fd = -1, kind = 0;
    bool open = true;            /* program still holds it */
    bool nonblock = false;
    /* tcp */
    int st = T_NEW;
    uint32_t ip = 0; uint16_t port = 0;      /* remote for outbound, local port for listeners/inbound */
    bool inbound = false;
    Str rx; size_t rxpos = 0; bool rx_fin = false, rst = false, fin_read = false;
    Str tx; bool tx_fin = false;             /* everything the kernel accepted from the program */
    bool blocked = false;                    /* peer window closed: send would block until drained */
    int nblock = 0;
    int so_err = 0;
    bool peer_closed = false;                /* agent closed both directions */
    std::deque<int> acceptq;
    int backlog_extra = 0;
    int agent = -1;                          /* agent index owning the far end */
    /* udp */
    std::deque<Dgram> dq;
    /* epoll registration */
    bool inep = false; uint32_t interest = 0; uint64_t epdata = 0; bool rdy = false;
    /* file */
    Str path; size_t fpos = 0, huge = 0; const Str *content = nullptr;
    std::function<bool(const char*, size_t)> tap;   /* takes what the program sends instead of tx; false: the peer resets */ long ntap = 0;
    long long t_open = 0, t_close = -1, t_block = 0;
};

struct VFile { Str data; int type = 0; /*0 file,1 dir,2 unreadable(mode 0),3 open fails,4 size lies,5 statsize bytes of huge content*/ size_t statsize = 0; int mode = -1; /* permission bits, if not the usual ones */ };
extern "C" const char *huge_at(size_t pos);    /* at least 65521 bytes of a huge file's content from pos on */

/* ---------------- agents ---------------- */
struct Agent;
struct Op {
    const char *name;
    std::function<bool(Agent&)> en;      /* enabled */
    std::function<void(Agent&)> act;
};
struct TlsEnd {                      /* agent-side TLS endpoint */
    bool on = false; bool server = false;
    size_t parsed = 0;               /* bytes of the socket's tx already parsed */
    int hs = 0;                      /* handshake messages received */
    bool hs_done = false;
    Str plain;                       /* decrypted application bytes received */
    bool close_notify = false, bad = false; Str badwhy;
    int tickets = 0; int nrec = 0; int kus = 0;
};
struct Agent {
    int id = 0; const char *name = "";
    int sock = -1;                   /* kernel socket id of the program side */
    std::vector<Op> ops; size_t pc = 0;
    TlsEnd tls;
    Str sent;                        /* application bytes this agent has sent */
    bool closed = false, wrshut = false;
    size_t mark = 0;
    long long t_ready = 0, t_pend = 0;   /* for sleeps, for the rest of an arrival */
    bool background = false;         /* not required to finish */
    bool dead = false;               /* aborted by a fault: remaining ops dropped */
    std::map<Str, long> var;
    Sock &s();
    bool done() const { return dead || pc >= ops.size(); }
    /* application bytes received so far */
    const Str &got();
};

struct Target {                      /* who answers a connect() */
    uint32_t ip; uint16_t port;      /* 0 = any */
    int mode = 0;                    /* 0 ok after a step, 1 refused after a step, 2 never answers, 3 immediate ok, 4 immediate refusal */
    std::function<void(Agent&)> script;
};

struct DnsQuery { int sock; Str data; uint32_t ip; uint16_t port; Str name; uint16_t qtype, qclass, id, flags; bool answered = false; bool wellformed = false; long long t = 0; };

/* choice categories that may deviate */
struct Faults {
    bool armed = false;
    bool sched = false;      /* order of environment steps */
    bool early = false;      /* environment steps before pending events are delivered */
    bool order = false;      /* order inside an event batch */
    bool block = false;      /* send would block / partial */
    bool cuts3 = false;      /* partial sends also at 1 and n-1 bytes */
    bool senderr = false, recverr = false, eintr = false;
    bool alloc = false;
    bool sys = false;        /* socket/fcntl/setsockopt/epoll_ctl/open/stat/read errors */
    bool acc = false;        /* accept faults */
    bool conn = false;       /* connect outcomes */
    bool time = false;       /* time may pass early */
    bool wire = false;       /* TLS records / chunks arrive in two pieces */
    bool peerdie = false;    /* a peer may reset / close instead of its next step */
    bool shortread = false;  /* file reads */
    int  maxblock = 1000;    /* blocked sends per socket */
};

struct World;
struct Scenario {
    virtual ~Scenario() {}
    virtual void setup() = 0;                 /* configure world, agents */
    virtual void step() {}                    /* at every wait */
    virtual void stuck(Agent &a);             /* nothing can happen and a is not done */
    virtual void finished() {}                /* all agents done, quiescent */
    virtual void drained() {}                 /* after everything closed */
    virtual void ended(int r);                /* main returned */
    virtual void exited(int code);            /* exit() was called; must not return */
    virtual bool more() { return false; }     /* after the drain: add agents for a probe, return true to run again */
    bool check_release = true;                /* compare resources with the baseline after draining */
    bool skip_drain = false;
};

struct World {
    /* kernel */
    std::vector<Sock*> all, socks; std::map<int,int> fdt;    /* by id; those not retired; fd -> id */
    void retire() { size_t k = 0; for (auto s : socks) if (s->open || s->fd >= 0) socks[k++] = s; socks.resize(k); }   /* forget what is closed, for scenarios with very many connections */
    std::vector<int> rdyq;
    long long now_ms = 1000000000000ll;
    Faults f;
    std::map<Str, VFile> vfs; std::set<Str> openedset; std::vector<Str> opened; std::map<Str, Str> sinks; std::vector<Str> unlinked;
    std::vector<std::pair<int, Str>> stdouts;
    bool keep_sinks = false, lenient_close = false;
    /* peers */
    std::deque<Agent> agents;
    std::vector<Target> targets;
    std::vector<std::pair<uint32_t,uint16_t>> connects;     /* every connect() issued */
    std::vector<DnsQuery> dns; bool dns_auto = true;
    std::function<bool(DnsQuery&, Dgram&)> dns_reply;       /* false: never answers */
    Scenario *scn = nullptr;
    /* bookkeeping */
    int phase = 0; long waits = 0, syscalls = 0, since_wait = 0; bool baselined = false;
    long long t_drain = 0;
    int injected = 0;          /* faults (not mere schedule deviations) injected so far */
    int nprobe = 0;
    std::map<int, void(*)(int)> sigh;
    Str config, authfile; std::vector<Str> args;
    int ssl_live = 0, ssl_ctx_live = 0; bool cert_bad_once = false; int cert_fail = 0, ssl_new_fail = 0;
    std::vector<unsigned long> errq;
    Str lastenv;
    bool mem_shim = true;
    int max_con = 0;
    size_t trickle_in = 0, trickle_out = 0;   /* >0: arrivals in pieces of so many bytes / sends accept so many bytes and then block */
    bool nodrain = false;      /* a window that closed never opens again */
    long trickle_delay = 0, drain_delay = 0;   /* ms between the pieces of an arrival / before a full window opens */
    long env_delay = 0;        /* connects and name servers answer after so many ms */

    Sock &S(int id) { return *all[id]; }
    Sock *byfd(int fd) { auto it = fdt.find(fd); return it == fdt.end() ? nullptr : all[it->second]; }
    int newsock(int kind);
    int allocfd(int id);
    void notify(Sock &s, uint32_t bits);
    uint32_t mask(Sock &s);
    Agent &agent(const char *name);
    int nconn_open();
};
extern World *W;

/* ---- op builders (act on the agent's connection) ---- */
void o_connect(Agent &a, uint16_t port);
void o_send(Agent &a, const Str &bytes);                 /* raw bytes in one arrival */
void o_expect_raw(Agent &a, const Str &bytes);           /* appended exact bytes */
void o_wait_n(Agent &a, size_t n);                       /* at least n application bytes received in total */
void o_expect(Agent &a, const Str &bytes);               /* application bytes from mark on begin with these; mark advances */
void o_tls_client(Agent &a);                             /* whole client handshake */
void o_tls_server(Agent &a);                             /* whole server handshake (after accept) */
void o_tsend(Agent &a, const Str &plain, size_t rec = 16384);  /* application bytes as TLS records */
void o_asend(Agent &a, const Str &b);                    /* o_send or o_tsend according to a.tls.on at run time */
void o_tkey(Agent &a);                                  /* ask for new keys (TLS 1.3 key update) */
void o_tclose(Agent &a);                                 /* close_notify */
void o_shutwr(Agent &a);
void o_close(Agent &a);
void o_rst(Agent &a);
void o_waitclose(Agent &a);                              /* program has closed the connection */
void o_call(Agent &a, std::function<void(Agent&)> f);
void o_wait(Agent &a, const char *name, std::function<bool(Agent&)> en);
void o_sleep(Agent &a, long ms);
/* immediate actions */
void ag_deliver(Agent &a, const Str &bytes);
void ag_fin(Agent &a); void ag_rst(Agent &a); void ag_close(Agent &a);
Str  tls_record(int type, const Str &payload);
void tls_poll(Agent &a);

/* ---- scenario helpers ---- */
uint64_t sim_memhash();
void sim_run(Scenario &s);                               /* executes one path */
Str  auth_header(const Str &key, uint32_t magic = 0xa001beef);
Str  pattern(size_t n, int seed);
void set_config_server(int mode = 2, const Str &extra = "");
void set_config_client(const Str &key = "key1");
Agent &add_agent(const char *name);
void check_prefix(const Str &got, const Str &sent, const char *what);
extern "C" int s5_main(int, char **);
static inline uint32_t IP(int a, int b, int c, int d) { return htonl((a<<24)|(b<<16)|(c<<8)|d); }
