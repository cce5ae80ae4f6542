/* C11 request framing, C12 document root, C13 responses, C14 shared TLS port */
#include "scn.h"
#include <algorithm>
#include <strings.h>
#include <time.h>

struct Resp { int code = 0; std::vector<std::pair<Str, Str>> h; Str body; bool ok = false; Str why;
    Str get(const char *n) const { for (auto &x : h) if (!strcasecmp(x.first.c_str(), n)) return x.second; return ""; } };
/* parses one response at pos; 1 complete, 0 incomplete, -1 malformed */
static int parse(const Str &s, size_t &pos, Resp &r) {
    size_t e = s.find("\r\n\r\n", pos); size_t first = s.find("\r\n", pos);
    Str line = s.substr(pos, first == Str::npos ? Str::npos : first - pos);
    static const char pre[] = "HTTP/1.";
    if (memcmp(line.data(), pre, std::min(line.size(), sizeof pre - 1))) { r.why = "bad status line"; return -1; }
    if (e == Str::npos) return 0;
    if (line.size() < 12 || line[8] != ' ' || !isdigit(line[9]) || !isdigit(line[10]) || !isdigit(line[11]) || (line.size() > 12 && line[12] != ' ')) { r.why = "bad status line: " + line; return -1; }
    if (line.find(':') != Str::npos) { r.why = "status line runs into a header line: " + line; return -1; }
    for (char c : line) if ((unsigned char)c < 32) { r.why = "control character in status line"; return -1; }
    r.code = atoi(line.c_str() + 9);
    size_t p = first + 2; long cl = -1;
    while (p < e + 2) { size_t q = s.find("\r\n", p); Str l = s.substr(p, q - p); p = q + 2; size_t c = l.find(':'); if (c == Str::npos || c == 0) { r.why = "bad header line: " + l; return -1; }
        for (char ch : l.substr(0, c)) if (!(isalnum(ch) || ch == '-' || ch == '_')) { r.why = "bad header name: " + l; return -1; }
        Str v = l.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); for (char ch : v) if ((unsigned char)ch < 32) { r.why = "control character in header"; return -1; }
        Str n = l.substr(0, c); r.h.push_back({n, v}); if (!strcasecmp(n.c_str(), "Content-Length")) { if (cl >= 0 || v.empty() || v.find_first_not_of("0123456789") != Str::npos) { r.why = "bad Content-Length"; return -1; } cl = atol(v.c_str()); } }
    if (cl < 0) { r.why = "no Content-Length"; return -1; }
    if (s.size() < e + 4 + cl) return 0;
    r.body = s.substr(e + 4, cl); r.ok = true; pos = e + 4 + cl; return 1;
}
static std::vector<Resp> parse_all(const Str &s, size_t &pos, Str &bad) { std::vector<Resp> v; pos = 0; while (pos < s.size()) { Resp r; int k = parse(s, pos, r); if (k < 0) { bad = r.why; break; } if (k == 0) break; v.push_back(r); } return v; }

/* what a request must be answered with */
struct Req { Str bytes; bool keep; int kind; Str body; Str ctype; const char *name; };   /* kind 0 content equals body, 1 date, 2 error status without file content */
static bool is_date(const Str &b) { return b.size() >= 20 && b.size() < 40 && b.find("GMT") != Str::npos && b.find(':') != Str::npos; }
static void judge(const Resp &r, const Req &q) {
    if (q.kind == 0) { if (r.code != 200) mc_fail("%s: status %d", q.name, r.code); if (r.body != q.body) mc_fail("%s: wrong body (%zu bytes instead of %zu)", q.name, r.body.size(), q.body.size()); if (!q.ctype.empty() && r.get("Content-Type") != q.ctype) mc_fail("%s: content type '%s' instead of '%s'", q.name, r.get("Content-Type").c_str(), q.ctype.c_str()); }
    if (q.kind == 1) { if (r.code != 200 || !is_date(r.body)) mc_fail("%s: wrong answer", q.name); }
    if (q.kind == 2) { if (r.code < 400 || r.code > 599) mc_fail("%s: status %d instead of an error", q.name, r.code); if (r.body.find("SECRET") != Str::npos || r.body.find("file-") != Str::npos) mc_fail("%s: error response carries file content", q.name); }
    bool ka = !strcasecmp(r.get("Connection").c_str(), "keep-alive");
    if (r.get("Connection") != "" && ka != q.keep) mc_fail("%s: announces Connection: %s", q.name, r.get("Connection").c_str());
}
static Str filler(const Str &name, size_t n) { Str s = "file-" + name + ":"; Str p = pattern(n, name.size()); s += p; s.resize(n); return s; }
static void site() {
    auto f = [](const char *p, size_t n) { W->vfs[p].data = filler(p, n); };
    W->vfs["/www"].type = 1; W->vfs["/www/dir"].type = 1; W->vfs["/www/dir.d"].type = 1; W->vfs["/"].type = 1; W->vfs["/etc"].type = 1; W->vfs["/usr"].type = 1;
    f("/www/index.html", 30); f("/www/a.txt", 11); f("/www/noext", 9); f("/www/dir/index.html", 12); f("/www/dir.d/plain", 14);
    W->vfs["/etc/passwd"].data = "SECRET root"; W->vfs["/secret.txt"].data = "SECRET a"; W->vfs["/wwwx"].type = 1; W->vfs["/wwwx/s.txt"].data = "SECRET b"; W->vfs["/s.txt"].data = "SECRET c"; W->vfs["/index.html"].data = "SECRET d"; W->vfs["/wwws.txt"].data = "SECRET e"; W->vfs["/a.txt"].data = "SECRET f"; W->vfs["/etc/index.html"].data = "SECRET g"; W->vfs["/dir/index.html"].data = "SECRET h"; W->vfs["/dir"].type = 1;
}
static void web_open(Agent &u, bool tls, uint16_t port) { o_connect(u, port); if (tls) o_tls_client(u); }
static void web_send(Agent &u, const Str &b) { o_asend(u, b); }

static std::vector<Req> menu() {
    Str A = filler("/www/a.txt", 11), KA = "Connection: keep-alive\r\n"; std::vector<Req> m;
    auto g = [&](const char *name, const Str &hdrs, bool keep) { m.push_back({"GET /a.txt HTTP/1.1\r\n" + hdrs + "\r\n", keep, 0, A, "text/plain", name}); };
    auto po = [&](const char *name, const Str &hdrs, const Str &body, bool keep) { m.push_back({"POST /echo HTTP/1.1\r\n" + hdrs + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body, keep, 0, body, "", name}); };
    g("GET keep-alive", "Host: x\r\n" + KA, true);
    g("GET without headers", "", false);
    m.push_back({"GET /echo HTTP/1.1\r\n" + KA + "\r\n", true, 1, "", "", "GET /echo"});
    po("POST", "Host: x\r\n" + KA, "hello", true);
    po("POST of a request", KA, "GET /a.txt HTTP/1.1\r\n\r\n", true);
    po("POST empty", KA, "", true);
    g("GET after an empty header", "X-Empty:\r\n" + KA, true);
    g("GET lower case header", "connection:keep-alive\r\nhost:a\r\n", true);
    g("GET near-miss names", "Connectio: keep-alive\r\nC: keep-alive\r\nCon: 3\r\nContent: 4\r\nContent-Len: 5\r\nX-Connection: keep-alive\r\nConnectionX: keep-alive\r\nX-Content-Length: 6\r\nContent-LengthX: 9\r\n", false);
    { Str h; for (int i = 0; i < 40; i++) h += "X-" + std::to_string(i) + ": v\r\n"; g("GET many headers", h + "CONNECTION: KEEP-ALIVE\r\n", true); po("POST many headers", h + KA, "abc", true); }
    m.push_back({"GET /a.txt HTTP/1.1\r\n" + KA + "Content-Length: 3\r\n\r\nGET", true, 0, A, "text/plain", "GET with body"});
    po("POST binary", "A:\r\nB: \r\n" + KA, Str("\0\xff\r\n\r\n\x80", 7), true);
    g("GET near-miss values", "Connection: keep-alive2\r\n", false); g("GET short value", "Connection: keep\r\n", false); g("GET Connection: close", "Connection: close\r\n", false);
    g("GET empty Connection", "Connection:\r\nKeep-Alive: 5\r\n", false);
    m.push_back({"GET http://h.x:80/a.txt HTTP/1.1\r\n" + KA + "\r\n", true, 0, A, "text/plain", "GET absolute form"});
    m.push_back({"GET http://h/ HTTP/1.1\r\n" + KA + "\r\n", true, 0, filler("/www/index.html", 30), "text/html", "GET absolute root"});
    m.push_back({"GET /nothing HTTP/1.1\r\n" + KA + "\r\n", true, 2, "", "", "GET missing"});
    po("POST without keep-alive", "", "bye", false);
    m.push_back({"POST /echo HTTP/1.1\r\nContent-Length:\r\nX: 5\r\n" + KA + "\r\n", true, 0, "", "", "POST empty length field"}); m.pop_back();
    po("POST 5000", KA, pattern(5000, 9), true); po("POST 16000", KA, pattern(16000, 10), true);
    m.push_back({"GET /" + Str(900, 'x') + " HTTP/1.1\r\n" + KA + "\r\n", true, 2, "", "", "GET long name"});
    g("GET large head", "X: " + Str(3900, 'y') + "\r\n" + KA, true);
    g("GET spaces before a value", "Host:     x\r\nConnection:   keep-alive\r\n", true); m.push_back({"POST /echo HTTP/1.1\r\n" + KA + "Content-Length:   4\r\n\r\nfour", true, 0, "four", "", "POST spaces before the length"});
    return m;
}
static const int MENU_SMALL = 8;

struct Frame : Base {
    /* arg: bits 0..3 mode, 4..5 sequence length, 6 tls, 7 small menu */
    std::vector<Req> seq; int mode; size_t expect = 0; bool open_after = false; bool tls = false; const char *faults = "";
    void setup() override {
        mode = arg & 15; int n = arg >> 4 & 3; tls = arg >> 6 & 1; bool small = arg >> 7 & 1; uint16_t port = tls ? P_HTTPS : P_HTTP; if (arg >> 8 & 1) faults = "seobw";
        if (arg >> 9 & 1) { port = P_HTTPS; tls = true; set_config_server(3); } else set_config_server();
        site(); auto m = menu();
        if (mode == 6) { for (int i = 0; i < 150; i++) seq.push_back(m[mc_choose(1, 0, "x") + i % 8 == 1 ? 0 : i % 8]); }
        else if (mode == 7) { static const int K[] = {0, 2, 3, 5, 17}; int k = mc_choose(6, 0, "request"); for (int i = 0; i < 3000; i++) seq.push_back(k < 5 ? m[K[k]] : m[K[i % 5]]); }
        else for (int i = 0; i < n; i++) seq.push_back(m[mc_choose(small ? MENU_SMALL : (int)m.size(), 0, "request")]);
        expect = seq.size(); open_after = true; for (size_t i = 0; i < seq.size(); i++) if (!seq[i].keep) { expect = i + 1; open_after = false; break; }
        Str all; for (auto &q : seq) all += q.bytes;
        Agent &u = add_agent("browser"); web_open(u, tls, port);
        const char *f = faults; o_call(u, [f](Agent &) { if (*f) wd(W->f, f); });
        if (mode == 0 || mode == 7) web_send(u, all);                                      /* everything in one arrival */
        if (mode == 1 || mode == 6) for (size_t i = 0; i < seq.size(); i++) { web_send(u, seq[i].bytes); size_t want = std::min(i + 1, expect); o_wait(u, "await the response", [this, want](Agent &u) { return count(u) >= want || u.s().tx_fin; }); }
        if (mode == 2) { for (char c : all) web_send(u, Str(1, c)); }          /* byte by byte */
        if (mode == 3) { int p = mc_choose(all.size() - 1, 0, "cut") + 1; web_send(u, all.substr(0, p)); web_send(u, all.substr(p)); }
        if (mode == 4) { int p = mc_choose(all.size() - 1, 0, "cut") + 1; int q = p + mc_choose(all.size() - p, 0, "cut"); web_send(u, all.substr(0, p)); if (q > p) web_send(u, all.substr(p, q - p)); web_send(u, all.substr(q)); }
        if (mode == 5) { for (size_t i = 0; i < seq.size(); i++) web_send(u, seq[i].bytes); }   /* one arrival each, not waiting */
        o_wait(u, "await all responses", [this](Agent &u) { return count(u) >= expect || u.s().tx_fin; });
        if (!open_after) o_waitclose(u);
    }
    size_t memo_n = 0, memo_c = 0, memo_p = 0;
    size_t count(Agent &u) { const Str &g = u.got(); if (g.size() == memo_n) return memo_c; memo_n = g.size(); for (Resp r; memo_p < memo_n && parse(g, memo_p, r) == 1; r = Resp()) memo_c++; return memo_c; }
    void finished() override {
        Agent &u = W->agent("browser"); size_t p; Str bad; auto v = parse_all(u.got(), p, bad);
        if (!bad.empty()) mc_fail("malformed response: %s", bad.c_str());
        for (size_t i = 0; i < v.size() && i < expect; i++) judge(v[i], seq[i]);
        if (v.size() < expect) mc_fail("%s: not answered (%zu of %zu responses, connection closed)", seq[v.size()].name, v.size(), expect);
        if (v.size() > expect || p != u.got().size()) mc_fail("more than one response per request");
        if (open_after && (u.s().tx_fin || u.tls.close_notify)) mc_fail("%s: connection closed although the request asked to keep it", seq.back().name);
        mc_outcome(v.size()); mc_outcome(open_after);
    }
};
/* every character a name can have, every size of a head */
struct Odd : Base {
    std::vector<Req> seq; bool tls;
    void setup() override {
        tls = arg & 1; set_config_server(); site(); Str KA = "Connection: keep-alive\r\n", A = filler("/www/a.txt", 11);
        if (arg & 2) {
            int c = 33 + mc_choose(94, 0, "character"); static const char *pre[] = {"/www/", "/www/b"}; Str nm = pre[mc_choose(2, 0, "place")] + Str(1, c) + "c.txt"; if (c == '/' || c == '.' || c == '?' || c == '#' || c == '%') mc_prune();
            W->vfs[nm].data = filler(nm, 20); seq.push_back({"GET " + nm.substr(4) + " HTTP/1.1\r\n" + KA + "\r\n", true, 0, W->vfs[nm].data, "text/plain", "GET of a name"});
            seq.push_back({"GET /a.txt HTTP/1.1\r\nX: " + Str(1, c) + "\r\nY:" + Str(3, c) + "\r\n" + KA + "\r\n", true, 0, A, "text/plain", "GET with a character in a field"});
            if (c != ':') seq.push_back({"GET /a.txt HTTP/1.1\r\nX" + Str(1, c) + "Z: v\r\n" + KA + "\r\n", true, 0, A, "text/plain", "GET with a character in a field name"});
        } else {
            size_t T = 3990 + mc_choose(107, 0, "size"); int k = mc_choose(3, 0, "where"); auto pad = [&](const Str &a, char c, const Str &b) { return a + Str(T - a.size() - b.size(), c) + b; };
            if (k == 0) seq.push_back({pad("GET /a.txt HTTP/1.1\r\n" + KA + "X: ", 'v', "\r\n\r\n"), true, 0, A, "text/plain", "GET with a head of up to 4 KB"});
            if (k == 1) seq.push_back({pad("POST /echo HTTP/1.1\r\nX: ", 'v', "\r\n" + KA + "Content-Length: 5\r\n\r\n") + "hello", true, 0, "hello", "", "POST with a head of up to 4 KB"});
            if (k == 2) seq.push_back({pad("POST /echo HTTP/1.1\r\n" + KA + "Content-Length: 9\r\nX", 'x', ":\r\n\r\n") + "hell0 you", true, 0, "hell0 you", "", "POST with a head of up to 4 KB"});
        }
        seq.push_back({"GET /a.txt HTTP/1.1\r\n" + KA + "\r\n", true, 0, A, "text/plain", "GET afterwards"});
        Agent &u = add_agent("browser"); web_open(u, tls, tls ? P_HTTPS : P_HTTP); Str all; for (auto &q : seq) all += q.bytes;
        int how = mc_choose(3, 0, "arrivals"); if (how == 0) web_send(u, all); if (how == 1) for (auto &q : seq) web_send(u, q.bytes); if (how == 2) { web_send(u, all.substr(0, seq[0].bytes.size() - 1)); web_send(u, all.substr(seq[0].bytes.size() - 1)); }
        o_wait(u, "await all responses", [this](Agent &u) { size_t p; Str bad; return parse_all(u.got(), p, bad).size() >= seq.size() || u.s().tx_fin; });
    }
    void finished() override {
        Agent &u = W->agent("browser"); size_t p; Str bad; auto v = parse_all(u.got(), p, bad); if (!bad.empty()) mc_fail("malformed response: %s", bad.c_str());
        for (size_t i = 0; i < v.size() && i < seq.size(); i++) judge(v[i], seq[i]);
        if (v.size() < seq.size()) mc_fail("%s: not answered", seq[v.size()].name);
        if (v.size() > seq.size() || p != u.got().size()) mc_fail("more than one response per request");
        mc_outcome(u.got().size());
    }
};
enum { SMALL = 1 << 7, TLS = 1 << 6, FAULTS = 1 << 8, SHARED = 1 << 9 };
REGISTER(C11) {
    auto add = [](const char *name, int mode, int n, int flags, int d) { mc_add(run_scn<Frame>, mode | n << 4 | flags, d, "%s x%d%s%s%s", name, n, flags & TLS ? " TLS" : "", flags & SMALL ? " small menu" : "", flags & FAULTS ? " with schedules" : ""); };
    for (int tls = 0; tls < 2; tls++) { int t = tls ? TLS : 0;
        for (int n = 1; n <= 2; n++) { add("one arrival", 0, n, t, 0); add("waiting", 1, n, t, 0); add("separate arrivals", 5, n, t, 0); add("byte by byte", 2, n, t | (n == 2 ? SMALL : 0), 0); }
        add("one cut", 3, 1, t, 0); add("one cut", 3, 2, t | SMALL, 0);
        add("two cuts", 4, 1, t | SMALL, 0);
        add("one arrival", 0, 3, t | SMALL, 0); add("waiting", 1, 3, t | SMALL, 0); add("byte by byte", 2, 3, t | SMALL, 0);
        if (mc_thorough()) { add("one arrival", 0, 3, t, 0); add("one cut", 3, 2, t, 0); if (!tls) add("two cuts", 4, 2, t | SMALL, 0); add("one cut", 3, 3, t | SMALL, 0); }
        add("one arrival", 0, 2, t | SMALL | FAULTS, mc_thorough() ? 3 : 2); add("waiting", 1, 2, t | SMALL | FAULTS, mc_thorough() ? 3 : 2); add("separate arrivals", 5, 2, t | SMALL | FAULTS, 2);
        mc_add(run_scn<Frame>, 7 | t, 0, "3000 requests in one arrival%s", tls ? " TLS" : "");
        mc_add(run_scn<Frame>, 6 | t, 0, "150 requests%s", tls ? " TLS" : "");
        mc_add(run_scn<Odd>, tls, 0, "sizes of heads%s", tls ? " TLS" : ""); mc_add(run_scn<Odd>, tls | 2, 0, "characters%s", tls ? " TLS" : "");
    }
}

/* ------------------------------------------------------------------ C13 */
struct Content : Base {
    struct F { const char *name; size_t n; const char *type; int vt; int want; };       /* vt as in VFile */
    static std::vector<F> files() { return {
        {"/e.html", 0, "text/html", 0, 200}, {"/one.js", 1, "application/x-javascript", 0, 200}, {"/b.css", 4095, "text/css", 0, 200}, {"/c.png", 4096, "image/png", 0, 200}, {"/d.jpg", 4097, "image/jpeg", 0, 200},
        {"/f.gif", 16343, "image/gif", 0, 200}, {"/g.ico", 16344, "image/x-icon", 0, 200}, {"/h.htm", 16345, "text/html", 0, 200}, {"/i.mp3", 32688, "audio/mpeg", 0, 200}, {"/j.json", 32689, "application/json", 0, 200}, {"/k.ts", 40000, "video/MP2T", 0, 200}, {"/l.m3u8", 5, "application/x-mpegURL", 0, 200}, {"/m.jpeg", 5, "image/jpeg", 0, 200}, {"/n.unknown", 5, "text/plain", 0, 200}, {"/noextension", 10, "text/plain", 0, 200}, {"/dir.d/plain", 14, "text/plain", 0, 200}, {"/x.tar.html", 6, "text/html", 0, 200},
        {"/", 30, "text/html", -1, 200}, {"/dir/", 12, "text/html", -1, 200}, {"/dir", 0, "", -1, 400}, {"/dir.d", 0, "", -1, 400}, {"/missing", 0, "", -1, 400}, {"/missing.html", 0, "", -1, 400}, {"/empty/", 0, "", -1, 400}, {"/unread.html", 7, "", 2, 400}, {"/noopen.html", 7, "", 3, 400}, {"/noopen", 7, "", 3, 400}, {"/pipe", 7, "", 6, 400}, {"/pipe.html", 7, "", 6, 400}, {"/locked.html", 7, "", 7, 400}, {"/echX", 9, "text/plain", 0, 200}, {"/ech", 3, "text/plain", 0, 200}, {"/echoes", 4, "text/plain", 0, 200}, {"/ECHO", 0, "", -1, 400}, {"/echo/", 0, "", -1, 400}, {"/a.txt/", 0, "", -1, 400}, {"/a.txt/b", 0, "", -1, 400}}; }
    F f; Req q; bool tls; const char *fl; bool twice;
    void setup() override {
        tls = arg & 1; twice = arg >> 1 & 1; static const char *fls[] = {"", "B", "f", "bf", "seob"}; fl = fls[arg >> 2 & 7]; int home = arg >> 7 & 1;
        set_config_server(); site(); W->vfs["/www/empty"].type = 1; (void)home;
        auto fs = files();
        if ((arg >> 5 & 3) == 1) { std::vector<F> v; for (auto &x : fs) if (x.n >= 16343 || x.n == 0 || x.n == 4096) v.push_back(x); fs = v; }
        if ((arg >> 5 & 3) == 2) fs = {{"/g.ico", 16344, "image/x-icon", 0, 200}, {"/k.ts", 40000, "video/MP2T", 0, 200}};
        int k = mc_choose(fs.size() + 3, 0, "file"); bool keep = mc_choose(2, 0, "keep");
        Str H = keep ? "Connection: keep-alive\r\n" : "";
        if (k < (int)fs.size()) {
            f = fs[k]; Str path = Str("/www") + f.name;
            if (f.vt >= 0) { W->vfs[path].data = f.vt == 0 ? filler(f.name, f.n) : Str("SECRET!"); W->vfs[path].type = f.vt; }
            Str body = f.vt == 0 ? filler(f.name, f.n) : f.want == 200 ? W->vfs[path + "index.html"].data : Str(); if (!strcmp(f.name, "/dir.d/plain")) body = W->vfs[path].data;
            q = {Str("GET ") + f.name + " HTTP/1.1\r\n" + H + "\r\n", keep, f.want == 200 ? 0 : 2, body, f.type, f.name};
        } else if (k == (int)fs.size()) q = {"GET /echo HTTP/1.1\r\n" + H + "\r\n", keep, 1, "", "", "GET /echo"};
        else { Str b = k == (int)fs.size() + 1 ? pattern(10, 1) : pattern(16000, 2); q = {"POST /echo HTTP/1.1\r\n" + H + "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b, keep, 0, b, "", "POST /echo"}; }
        Agent &u = add_agent("browser"); web_open(u, tls, tls ? P_HTTPS : P_HTTP);
        const char *x = fl; o_call(u, [x](Agent &) { if (*x) wd(W->f, x); });
        for (int i = 0; i < (twice && keep ? 2 : 1); i++) {
            web_send(u, q.bytes);
            o_wait(u, "await the response", [this, i](Agent &u) { size_t p; Str bad; return (int)parse_all(u.got(), p, bad).size() > i || !bad.empty() || u.s().tx_fin; });
        }
        if (!keep) o_waitclose(u);
    }
    void finished() override {
        Agent &u = W->agent("browser"); size_t p; Str bad; auto v = parse_all(u.got(), p, bad); size_t n = twice && q.keep ? 2 : 1;
        if (!bad.empty()) mc_fail("%s: malformed response: %s", q.name, bad.c_str());
        if (v.size() < n) mc_fail("%s: response incomplete: %zu bytes then the connection was closed", q.name, u.got().size());
        for (auto &r : v) judge(r, q);
        if (v.size() != n || p != u.got().size()) mc_fail("%s: extra bytes after the response", q.name);
        mc_outcome(v[0].code); mc_outcome(v[0].body.size());
    }
};
/* files too large for a 31 or 32 bit count: what is sent is compared as it comes and not kept */
struct Huge : Base {
    size_t size = 0, got = 0, limit = 0; Str head; bool bad = false;
    void setup() override {
        static const size_t sz[] = {0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001, 0x280000007, 0x7fff0000, 0x10000ffff};
        set_config_server(); site();
        if (arg == 0) { size = sz[mc_choose(9, 0, "size")]; limit = 200000; }              /* the visitor leaves after the first bytes */
        else { size = arg == 1 ? 0x80000000 + 20011 : 0x100000000 + 20011; limit = (size_t)-1; }
        W->vfs["/www/huge.bin"].type = 5; W->vfs["/www/huge.bin"].statsize = size;
        Agent &u = add_agent("browser"); web_open(u, false, P_HTTP);
        o_call(u, [this](Agent &u) { u.s().tap = [this](const char *p, size_t n) { return take(p, n); }; });
        web_send(u, "GET /huge.bin HTTP/1.1\r\n\r\n"); o_waitclose(u);
    }
    bool take(const char *p, size_t n) {
        size_t e = head.find("\r\n\r\n");
        if (e == Str::npos) { head.append(p, n); if ((e = head.find("\r\n\r\n")) == Str::npos) return true; Str rest = head.substr(e + 4); head.resize(e + 4); return body(rest.data(), rest.size()); }
        return body(p, n);
    }
    bool body(const char *p, size_t n) {
        for (; n && !bad; ) { size_t k = std::min(n, (size_t)65521); if (memcmp(p, huge_at(got), k)) bad = true; got += k; p += k; n -= k; }
        return got < limit;
    }
    void finished() override {
        if (head.compare(0, 12, "HTTP/1.1 200")) mc_fail("a file of %zu bytes: answered %s", size, head.substr(0, 12).c_str());
        size_t p = head.find("Content-Length: "); if (p == Str::npos) mc_fail("a file of %zu bytes: no length", size);
        Str v = head.substr(p + 16, head.find("\r\n", p) - p - 16); if (v != std::to_string(size)) mc_fail("a file of %zu bytes is announced with length %s", size, v.c_str());
        if (bad) mc_fail("a file of %zu bytes: wrong content before offset %zu", size, got);
        if (limit == (size_t)-1 ? got != size : got < limit) mc_fail("a file of %zu bytes: %zu bytes sent", size, got);
        mc_outcome(size);
    }
};
/* the time told by the echo service and by the Date header */
struct Clock : Base {
    long long t0 = 0, t[2] = {0, 0}; long wait = 0;
    void setup() override {
        static const long long sp[] = {951782399, 951782400, 1078012800, 1709164799, 1709164800, 1709251199, 1709251200, 1735689599, 1735689600, 2147483646, 2147483647, 2147483648ll, 4102444799ll, 4107542399ll, 4107542400ll, 1000000000};
        static const long ws[] = {0, 1, 998, 999, 1000, 1001, 1999, 3600};
        set_config_server(); site();
        if (arg == 0) t0 = 1704067200000ll + mc_choose(366, 0, "day") * 86400000ll + 43261007;       /* every day of a leap year */
        else if (arg == 1) t0 = 1767225600000ll + mc_choose(24, 0, "hour") * 3600000ll + mc_choose(60, 0, "minute") * 60000ll + 59999;
        else { t0 = sp[mc_choose(16, 0, "moment")] * 1000 + (mc_choose(2, 0, "ms") ? 999 : 0); wait = ws[mc_choose(8, 0, "wait")]; }
        W->now_ms = t0; int tls = arg == 2 && mc_choose(2, 0, "tls");
        Agent &u = add_agent("browser"); web_open(u, tls, tls ? P_HTTPS : P_HTTP);
        web_send(u, "GET /echo HTTP/1.1\r\nConnection: keep-alive\r\n\r\n");
        o_wait(u, "answer", [](Agent &a) { size_t p = 0; Str bad; return parse_all(a.got(), p, bad).size() >= 1 || !bad.empty(); });
        o_call(u, [this](Agent &) { t[0] = W->now_ms; });
        if (wait) o_sleep(u, wait);
        o_call(u, [this](Agent &) { t[1] = W->now_ms; });
        web_send(u, "GET /echo HTTP/1.1\r\n\r\n"); o_waitclose(u);
    }
    static Str gmt(long long ms) { time_t v = ms / 1000; struct tm g; gmtime_r(&v, &g); char b[64]; strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &g); return b; }
    static Str trim(const Str &s) { size_t a = s.find_first_not_of(" \r\n\t"), b = s.find_last_not_of(" \r\n\t"); return a == Str::npos ? "" : s.substr(a, b - a + 1); }
    void finished() override {
        size_t p = 0; Str bad; auto v = parse_all(W->agents[0].got(), p, bad);
        if (!bad.empty() || v.size() != 2) mc_fail("echo: %zu answers %s", v.size(), bad.c_str());
        for (int i = 0; i < 2; i++) {
            /* to the second; one second of lag is accepted */
            Str b = trim(v[i].body), d = trim(v[i].get("Date")), w = gmt(t[i]), w1 = gmt(t[i] - 1000);
            if (v[i].code != 200 || (b != w && b != w1)) mc_fail("echo tells '%s' at '%s'", b.c_str(), w.c_str());
            if (!d.empty() && d != w && d != w1) mc_fail("Date header '%s' at '%s'", d.c_str(), w.c_str());
        }
        mc_outcome(t[1] - t[0]);
    }
};
/* every combination of permission bits */
struct Modes : Base {
    Req q;
    void setup() override {
        int m = mc_choose(512, 0, "mode"); set_config_server(); site(); VFile &f = W->vfs["/www/m.html"]; bool ok = m & 0400; f.mode = m; f.data = ok ? filler("m", 50) : Str("SECRET!"); if (!ok) f.type = mc_choose(2, 0, "as root") ? 7 : 2;
        q = {"GET /m.html HTTP/1.1\r\n\r\n", false, ok ? 0 : 2, ok ? f.data : Str(), ok ? "text/html" : "", "GET of a file with these permissions"};
        Agent &u = add_agent("browser"); web_open(u, false, P_HTTP); web_send(u, q.bytes); o_waitclose(u);
    }
    void finished() override { size_t p; Str bad; auto v = parse_all(W->agent("browser").got(), p, bad); if (!bad.empty()) mc_fail("malformed response: %s", bad.c_str()); if (v.size() != 1) mc_fail("%zu responses", v.size()); judge(v[0], q); mc_outcome(v[0].code); }
};
REGISTER(C13) {
    mc_add(run_scn<Modes>, 0, 0, "permissions");
    static const char *cn[] = {"every day of a leap year", "every minute of a day", "special moments"};
    for (int i = 0; i < 3; i++) mc_add(run_scn<Clock>, i, 0, "time of day: %s", cn[i]);
    mc_add(run_scn<Huge>, 0, 0, "huge files, first bytes"); mc_add(run_scn<Huge>, 1, 0, "a file above 2 GiB"); mc_add(run_scn<Huge>, 2, 0, "a file above 4 GiB");
    static const char *fn[] = {"", " blocked sends", " short reads", " blocked and short", " schedules"}, *mn[] = {"all files", "large files", "two files"};
    auto add = [](int tls, int twice, int fl, int m, int d) { mc_add(run_scn<Content>, tls | twice << 1 | fl << 2 | m << 5, d, "%s%s%s%s", mn[m], tls ? " TLS" : "", twice ? " twice" : "", fn[fl]); };
    bool t = mc_thorough();
    for (int tls = 0; tls < 2; tls++) { add(tls, 0, 0, 0, 0); add(tls, 1, 0, 0, 0); add(tls, 0, 1, 0, t ? 3 : 2); add(tls, 1, 1, 0, t ? 3 : 2); add(tls, 0, 2, 0, t ? 4 : 2); add(tls, 0, 3, 1, t ? 4 : 3); add(tls, 1, 3, 2, t ? 4 : 3); add(tls, 1, 4, 2, t ? 4 : 3); add(tls, 0, 1, 2, t ? 5 : 4); }
}

/* ------------------------------------------------------------------ C12 */
struct Root : Base {
    Str target; int mode;
    bool parent_step() { Str p = target; if (p.compare(0, 7, "http://") == 0) { size_t s = p.find('/', 7); p = s == Str::npos ? "" : p.substr(s); } size_t q = p.find('?'); (void)q; Str cur; for (char c : p + "/") { if (c == '/') { if (cur == "..") return true; cur.clear(); } else cur += c; } return false; }
    void setup() override {
        mode = arg & 15; int n = arg >> 4 & 15; bool tls = arg >> 8 & 1; set_config_server(); site();
        static const char *toks[] = {"/", "..", ".", "dir", "etc", "passwd", "index.html", "s.txt", "wwwx", "www", "%2e%2e", "\\", "...", "..x", "x..", ":", "?", "#"};
        static const char *few[] = {"/", "..", ".", "dir", "etc", "index.html", "s.txt", "..x"};
        if (mode == 0 || mode == 1) { target = "/"; for (int i = 0; i < n; i++) target += toks[mc_choose(18, 0, "token")]; }
        if (mode == 1) target = "http://h" + target;
        if (mode == 2) { target = "/"; for (int i = 0; i < n; i++) target += few[mc_choose(8, 0, "token")]; }
        if (mode == 6) { target = ""; for (int i = 0; i < n; i++) target += toks[mc_choose(18, 0, "token")]; }       /* anything after the method */
        if (mode == 3 || mode == 4) { /* a parent step behind filler of every length */
            static const char *tails[] = {"../etc/passwd", "../s.txt", "dir/../../s.txt", "..", "../", "../wwwx/s.txt", "a.txt", "index.html/../../s.txt"};
            int len = mc_choose(4060, 0, "length"); int tl = mc_choose(mode == 3 ? 8 : 8, 0, "tail");
            if (mode == 3) target = "/" + Str(len, '/') + tails[tl]; else { for (int i = 0; i < len / 2; i++) target += "/."; if (len & 1) target += "/"; target += "/"; target += tails[tl]; } }
        if (mode == 5) { static const char *tails[] = {"../etc/passwd", "../s.txt", "../wwwx/s.txt"}; int len = mc_choose(1400, 0, "length"); int tl = mc_choose(3, 0, "tail"); for (int i = 0; i < len / 3; i++) target += "/dir/.."; target = "/" + Str(len * 2, 'a') + "/../" + tails[tl]; }
        Agent &u = add_agent("browser"); web_open(u, tls, tls ? P_HTTPS : P_HTTP);
        web_send(u, "GET " + target + " HTTP/1.1\r\n\r\n");
        o_wait(u, "await an answer or a close", [](Agent &u) { return u.s().tx_fin || u.tls.close_notify; });
    }
    void stuck(Agent &a) override { if (W->now_ms - 1000000000000ll < 61000) return; Scenario::stuck(a); }
    void finished() override {
        Agent &u = W->agent("browser"); const Str &g = u.got();
        if (g.find("SECRET") != Str::npos) mc_fail("a file outside the document root was served for %s", target.substr(0, 200).c_str());
for (auto &o : W->opened) { if (o.compare(0, 5, "/usr/") == 0 || o.compare(0, 5, "/www/") == 0) continue; auto it = W->vfs.find(o); if (it != W->vfs.end() && it->second.type != 1) mc_fail("opened %s for %s", o.c_str(), target.substr(0, 200).c_str()); }
        bool ok200 = g.compare(0, 12, "HTTP/1.1 200") == 0;
        if (ok200) { size_t p; Str bad; auto v = parse_all(g, p, bad); bool inside = false; if (v.size()) for (auto &x : W->vfs) if (x.second.type == 0 && x.first.compare(0, 5, "/www/") == 0 && x.second.data == v[0].body) inside = true; if (!inside) mc_fail("served something that is not a file in the document root for %s", target.substr(0, 200).c_str()); }
        if (parent_step() && (ok200 || g.find("file-") != Str::npos)) mc_fail("a target with a parent-directory step was served: %s", target.substr(0, 200).c_str());
        mc_outcome(g.size() > 12 ? atoi(g.c_str() + 9) : 0);
    }
};
REGISTER(C12) {
    bool t = mc_thorough();
    for (int n = 0; n <= (t ? 5 : 4); n++) mc_add(run_scn<Root>, 0 | n << 4, 0, "%d tokens", n);
    for (int n = 0; n <= (t ? 4 : 3); n++) mc_add(run_scn<Root>, 1 | n << 4, 0, "%d tokens, absolute form", n);
    for (int n = 1; n <= (t ? 4 : 3); n++) mc_add(run_scn<Root>, 6 | n << 4, 0, "%d tokens, no leading slash", n);
    mc_add(run_scn<Root>, 2 | (t ? 7 : 6) << 4, 0, "%d tokens, small alphabet", t ? 7 : 6);
    mc_add(run_scn<Root>, 2 | 3 << 4 | 1 << 8, 0, "3 tokens, TLS");
    mc_add(run_scn<Root>, 3, 0, "slash filler"); mc_add(run_scn<Root>, 4, 0, "dot filler"); mc_add(run_scn<Root>, 5, 0, "name filler");
}

/* ------------------------------------------------------------------ C14 */
struct Shared : Base {
    int mode; Req q; bool tunnel = false; Str stream; bool expect_ok = false;
    void deliver(Agent &u, const Str &s, int how) {
        if (how == 0) o_tsend(u, s);
        else if (how == 1) { int lim = std::min<int>(s.size() - 1, 44); int p = mc_choose(lim, 0, "cut") + 1; o_tsend(u, s.substr(0, p)); o_tsend(u, s.substr(p)); }
        else if (how == 2) { int lim = std::min<int>(s.size() - 1, 44); int p = mc_choose(lim, 0, "cut") + 1; int r = p + mc_choose(lim - p + 1, 0, "cut"); o_tsend(u, s.substr(0, p)); if (r > p) o_tsend(u, s.substr(p, r - p)); o_tsend(u, s.substr(r)); }
        else o_tsend(u, s, 1);
    }
    void setup() override {
        mode = arg & 15; int how = arg >> 4 & 15; bool faults = arg >> 8 & 1;
        site(); W->targets.push_back({IP(7,7,7,7), 99, 0, [](Agent &a) { o_expect(a, "ping"); o_send(a, "pong"); }});
        if (mode == 0) { /* HTTP on the shared port */
            set_config_server(3); auto m = menu(); std::vector<Req> v; for (auto &x : m) if (x.bytes.size() < 1200) v.push_back(x);
            v.push_back({"GET / HTTP/1.1\r\n\r\n", false, 0, filler("/www/index.html", 30), "text/html", "shortest GET"}); v.push_back({"GET /a.txt x\r\n\r\n", false, 0, filler("/www/a.txt", 11), "text/plain", "GET odd version"}); 
            q = v[mc_choose(v.size(), 0, "request")];
            Agent &u = add_agent("browser"); o_connect(u, P_HTTPS); o_tls_client(u); if (faults) o_call(u, [](Agent &) { wd(W->f, "sebw"); });
            deliver(u, q.bytes, how);
            o_wait(u, "await the response", [](Agent &u) { size_t p; Str bad; return parse_all(u.got(), p, bad).size() > 0 || !bad.empty() || u.s().tx_fin; });
            if (q.keep) { o_tsend(u, q.bytes); o_wait(u, "await the second response", [](Agent &u) { size_t p; Str bad; return parse_all(u.got(), p, bad).size() > 1 || !bad.empty() || u.s().tx_fin; }); } else o_waitclose(u);
        } else if (mode == 1) { /* tunnel on the shared port */
            set_config_server(3); tunnel = true; bool good = mc_choose(2, 0, "key") == 0; expect_ok = good; int pack = mc_choose(2, 0, "packing");
            Agent &u = add_agent("user"); o_connect(u, P_HTTPS); o_tls_client(u); if (faults) o_call(u, [](Agent &) { wd(W->f, "sebw"); });
            deliver(u, auth_header(good ? "key1" : "key2") + (pack ? greeting() : Str()), how); if (!pack) o_tsend(u, greeting());
            if (good) { o_expect(u, B({5, 0})); o_tsend(u, req_ip(7,7,7,7,99)); o_wait_n(u, 12); o_call(u, [](Agent &u) { u.mark = 12; }); o_tsend(u, "ping"); o_expect(u, "pong"); }
            else o_waitclose(u);
        } else if (mode == 2 || mode == 3) { /* tunnel bytes on ordinary ports / near-miss magic on the shared port */
            set_config_server(mode == 2 ? 2 : 3); tunnel = true; static const uint32_t near[] = {0xa001beee, 0xa001bfef, 0xa000beef, 0x2001beef, 0xefbe01a0, 0x0101beef, 0x47455420};
            uint32_t mg = mode == 2 ? 0xa001beef : near[mc_choose(7, 0, "magic")]; int port = mode == 2 ? mc_choose(2, 0, "port") : 1;
            Agent &u = add_agent("user"); o_connect(u, port ? P_HTTPS : P_HTTP); if (port) o_tls_client(u);
            Str s = auth_header("key1", mg) + greeting() + req_ip(7,7,7,7,99); int p = mc_choose(s.size() - 1, 0, "cut") + 1;
            o_asend(u, s.substr(0, p)); o_asend(u, s.substr(p)); o_waitclose(u);
        } else if (mode == 4) { /* dedicated port: the same tunnel openings */
            set_config_server(2); tunnel = true; expect_ok = true; Agent &u = add_agent("user"); o_connect(u, P_TUN); o_tls_client(u);
            deliver(u, auth_header("key1") + greeting(), how); o_expect(u, B({5, 0})); o_tsend(u, req_ip(7,7,7,7,99)); o_wait_n(u, 12); o_call(u, [](Agent &u) { u.mark = 12; }); o_tsend(u, "ping"); o_expect(u, "pong");
        } else if (mode == 5) { /* fewer than four bytes equal to the start of the magic, then silence or end */
            set_config_server(3); tunnel = true; int n = mc_choose(36, 0, "bytes"); Agent &u = add_agent("user"); o_connect(u, P_HTTPS); o_tls_client(u); o_tsend(u, auth_header("key1").substr(0, n + 1 > 35 ? 35 : n + 1)); o_waitclose(u);
        } else if (mode == 6) { /* a short first message that begins like the magic and goes on differently: refused at once, on the shared port as on the ordinary one */
            set_config_server(2 + mc_choose(2, 0, "sharing")); tunnel = true; prompt = true; int k = 1 + mc_choose(3, 0, "bytes of the magic"); static const char *rest[] = {"GET / HTTP/1.1\r\n\r\n", " / HTTP/1.1\r\n\r\n"}; int r = mc_choose(2, 0, "rest");

            Str s = auth_header("key1").substr(0, k) + rest[r]; int c = mc_choose(s.size(), 0, "cut"); Agent &u = add_agent("user"); o_connect(u, P_HTTPS); o_tls_client(u); if (c) o_asend(u, s.substr(0, c)); o_asend(u, s.substr(c)); o_waitclose(u);
        }
    }
    bool prompt = false;
    void stuck(Agent &a) override { if (prompt) mc_fail("not refused at once"); if (W->now_ms - 1000000000000ll < 61000 && tunnel && !expect_ok) return; Scenario::stuck(a); }
    void step() override { if (!expect_ok && !W->connects.empty()) mc_fail("an outbound connection was opened for something that is not a tunnel client"); }
    void finished() override {
        if (tunnel) { mc_outcome(W->connects.size()); return; }
        Agent &u = W->agent("browser"); size_t p; Str bad; auto v = parse_all(u.got(), p, bad); size_t n = q.keep ? 2 : 1;
        if (!bad.empty()) mc_fail("malformed response: %s", bad.c_str());
        if (v.size() < n) mc_fail("%s: not answered on the shared port", q.name);
        for (auto &r : v) judge(r, q);
        if (v.size() != n || p != u.got().size()) mc_fail("extra bytes after the response");
        mc_outcome(v[0].code);
    }
};
REGISTER(C14) {
    for (int how = 0; how < 4; how++) for (int m : {0, 1, 4}) { static const char *hn[] = {"whole", "one cut", "two cuts", "byte by byte"}, *mn[] = {"HTTP shared", "tunnel shared", "", "", "tunnel dedicated"}; mc_add(run_scn<Shared>, m | how << 4, 0, "%s, %s", mn[m], hn[how]); }
    mc_add(run_scn<Shared>, 2, 0, "tunnel bytes on ordinary ports"); mc_add(run_scn<Shared>, 3, 0, "near-miss magic"); mc_add(run_scn<Shared>, 5, 0, "incomplete header"); mc_add(run_scn<Shared>, 6, 0, "begins like the magic");
    int d = mc_thorough() ? 3 : 2; mc_add(run_scn<Shared>, 0 | 1 << 8, d, "HTTP shared, schedules"); mc_add(run_scn<Shared>, 1 | 1 << 8, d, "tunnel shared, schedules");
}

/* ------------------------------------------------------------------ C04: every kind of answer leaves nothing behind */
struct WebEnds : Base {
    int probes = 0; std::vector<Req> seq; uint16_t port; bool tls; size_t expect;
    static std::vector<Req> answers() {
        Str KA = "Connection: keep-alive\r\n"; auto v = menu();
        auto g = [&](const char *n, int kind) { for (int k = 0; k < 2; k++) v.push_back({Str("GET ") + n + " HTTP/1.1\r\n" + (k ? KA : Str()) + "\r\n", k == 1, kind, Str(), "", n}); };
        for (auto n : {"/e.html", "/big.bin", "/block.bin", "/", "/dir/"}) g(n, 0);
        for (auto n : {"/dir", "/missing.html", "/unread.html", "/noopen.html", "/a.txt/b", "/../s.txt", "/short.bin"}) g(n, 2);
        v.push_back({"GET /x y z\r\n\r\n", false, 3, "", "", "odd line"}); v.push_back({"BREW / HTTP/1.1\r\n\r\n", false, 3, "", "", "unknown method"}); v.push_back({"POST /a.txt HTTP/1.1\r\nContent-Length: 4\r\n" + KA + "\r\nabcd", true, 3, "", "", "POST to a file"});
        v.push_back({"POST /echo HTTP/1.1\r\nContent-Length: 99999\r\n\r\nabcd", false, 3, "", "", "too long a body"}); v.push_back({"GET /a.txt HTTP/1.1\r\nbroken\r\n\r\n", false, 3, "", "", "broken header"}); v.push_back({"HEAD /a.txt HTTP/1.1\r\n" + KA + "\r\n", true, 3, "", "", "HEAD"}); v.push_back({"HEAD /e.html HTTP/1.1\r\n\r\n", false, 3, "", "", "HEAD of an empty file"});
        return v;
    }
    void setup() override {
        skip_drain = false; check_release = true; int n = arg & 3, where = arg >> 2 & 3, how = arg >> 4 & 3; static const char *fls[] = {"", "dt", "ay", "seob", "dtayxr"}; const char *f = fls[arg >> 6 & 7];
        set_config_server(where == 2 ? 3 : 2); site(); tls = where > 0; port = tls ? P_HTTPS : P_HTTP;
        W->vfs["/www/e.html"]; W->vfs["/www/big.bin"].data = pattern(40000, 4); W->vfs["/www/block.bin"].data = pattern(16344, 4); W->vfs["/www/unread.html"].type = 2; W->vfs["/www/noopen.html"].type = 3; W->vfs["/www/short.bin"].type = 4; W->vfs["/www/short.bin"].data = pattern(100, 2); W->vfs["/www/short.bin"].statsize = 20000;
        auto m = answers(); for (int i = 0; i < n; i++) seq.push_back(m[mc_choose(m.size(), 0, "request")]);
        int end = mc_choose(3, 0, "end");
        Agent &u = add_agent("browser"); u.background = true; web_open(u, tls, port); o_call(u, [f](Agent &) { if (*f) wd(W->f, f); });
        if (how == 0) { Str all; for (auto &q : seq) all += q.bytes; web_send(u, all); }
        else for (size_t i = 0; i < seq.size(); i++) { if (how == 2) { size_t c = seq[i].bytes.size() / 2; web_send(u, seq[i].bytes.substr(0, c)); web_send(u, seq[i].bytes.substr(c)); } else web_send(u, seq[i].bytes); if (i + 1 < seq.size()) o_wait(u, "await the response", [i](Agent &u) { size_t p; Str bad; return parse_all(u.got(), p, bad).size() > i || u.s().tx_fin; }); }
        if (end == 1) o_close(u); if (end == 2) o_rst(u);
    }
    void finished() override { for (auto &a : W->agents) if (a.sock >= 0) mc_outcome(a.s().tx.size()); }
    bool more() override {
        if (probes++) return false;
        W->f = Faults(); W->injected = 0; waiting = 0; Agent &p = add_agent("probe"); web_open(p, tls, port); web_send(p, "GET /a.txt HTTP/1.1\r\n\r\n"); o_waitclose(p); return true;
    }
    void drained() override { if (probes < 2) return; Agent &p = W->agent("probe"); size_t q; Str bad; auto v = parse_all(p.got(), q, bad); if (v.size() != 1 || v[0].body != filler("/www/a.txt", 11)) mc_fail("a later visitor is not served"); }
};
REGISTER(C04) {
    bool t = mc_thorough(); static const char *wn[] = {"HTTP", "HTTPS", "shared port"}, *hn[] = {"together", "one after the other", "in halves"}, *fn[] = {"", ", peers die, time passes", ", allocation and system calls fail", ", schedules", ", all failures"};
    for (int w = 0; w < 3; w++) for (int h = 0; h < 3; h++) for (int f = 0; f < 5; f++) for (int n = 1; n <= 3; n++) {
        if (f == 0 ? n == 3 && !t : n > 1 + (t && f < 3)) continue; if (f && h == 0) continue; if (n == 1 && h == 0) continue; if (n == 3 && w) continue;
        mc_add(run_scn<WebEnds>, n | w << 2 | h << 4 | f << 6, f == 0 ? 0 : n == 2 ? 1 : f == 4 ? 1 + t : f == 3 ? 2 + t : 2, "%s, %d requests %s%s", wn[w], n, hn[h], fn[f]);
    }
}
