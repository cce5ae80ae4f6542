/* C23: the configuration file */
#include "common.h"
#include "mod.h"
#include "modules.h"
#define PATH S5_PATH_CFG
#define OFF(f) offsetof(config_t, f), sizeof(((config_t *)0)->f)
enum { I, U, S_, L };
static const struct { const char *name; int t; size_t off, size; } F[] = {{"sys_daemon", I, OFF(sys_daemon)}, {"sys_process", I, OFF(sys_process_num)}, {"sys_log_level", I, OFF(sys_log_level)}, {"ssl_crt_path", S_, OFF(ssl_crt_path)}, {"ssl_key_path", S_, OFF(ssl_key_path)}, {"s5_mode", I, OFF(s5_mode)}, {"s5_serv_port", U, OFF(s5_serv_port)}, {"s5_serv_auth_path", S_, OFF(s5_serv_auth_path)}, {"s5_serv_gw", S_, OFF(s5_serv_gw)}, {"s5_local_port", U, OFF(s5_local_port)}, {"s5_local_serv_port", U, OFF(s5_local_serv_port)}, {"s5_local_serv_ip", S_, OFF(s5_local_serv_ip)}, {"s5_local_auth", S_, OFF(s5_local_auth)}, {"http_arr", L, OFF(http_arr)}, {"https_arr", L, OFF(https_arr)}, {"http_home", S_, OFF(http_home)}, {"http_index", S_, OFF(http_index)}};
#define NF ((int)(sizeof F / sizeof *F))
static config_t E; static char T[20000]; static int tn;
static void begin(void) { mod_begin(); memset(config_get(), 0x5a, sizeof(config_t)); memset(&E, 0, sizeof E); E.sys_log_level = 0xff; tn = 0; T[0] = 0; }
static void add(const char *fmt, ...) { va_list a; va_start(a, fmt); tn += vsnprintf(T + tn, sizeof T - tn, fmt, a); va_end(a); }
static void load(void) { mod_file(PATH, T, tn); config_init(); mc_trans(1); }
static void compare(void) {
    config_t *c = config_get();
    for (int i = 0; i < NF; i++) { const char *x = (char *)c + F[i].off, *y = (char *)&E + F[i].off; int d; if (F[i].t == S_) { if (!memchr(x, 0, F[i].size)) mc_fail("%s is not terminated", F[i].name); d = strcmp(x, y); } else if (F[i].t == L) { int n = F[i].name[4] == 's' ? c->https_num : c->http_num, m = F[i].name[4] == 's' ? E.https_num : E.http_num; if (n != m) mc_fail("%s has %d entries, not %d", F[i].name, n, m); d = memcmp(x, y, n * sizeof(unsigned short)); } else d = memcmp(x, y, F[i].size); if (d) mc_fail("%s is not what the file says (or its default)", F[i].name); }
    mc_state(mc_hash(7, T, tn)); mc_outcome(mc_hash(7, &E, 400)); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks());
}
static void seti(int f, int v) { void *p = (char *)&E + F[f].off; if (F[f].t == U) *(unsigned short *)p = v; else *(int *)p = v; }
static void sets(int f, const char *s) { char *p = (char *)&E + F[f].off; memset(p, 0, F[f].size); strncpy(p, s, F[f].size - 1); }
static void setl(int f, int n, int first) { int m = n > L_OPEN_PORT_MAX ? L_OPEN_PORT_MAX : n; unsigned short *p = (void *)((char *)&E + F[f].off); for (int i = 0; i < m; i++) p[i] = first + i; if (F[f].name[4] == 's') E.https_num = m; else E.http_num = m; }
static const int IV[] = {0, 1, 2, 7, 255, 1080, 65535, 127, 128, 256, 32767, 32768, 40000}, IV2[] = {-1, 2147483647, -2147483647 - 1};
/* one member with field f; variant v: -1.. returns number of variants */
static int member(int f, int v) {
    const char *n = F[f].name;
    if (v == 0) { add("\"%s\":null", n); return 0; } if (v == 1) { add("\"%s\":{\"a\":1}", n); return 0; }
    if (v == 2) { if (F[f].t == S_) { add("\"%s\":\"\"", n); sets(f, ""); } else if (F[f].t == L) { add("\"%s\":[]", n); setl(f, 0, 0); } else { add("\"%s\":\"17\"", n); } return 0; }
    if (v == 3) { if (F[f].t == S_) { add("\"%s\":42", n); } else if (F[f].t == L) { add("\"%s\":80", n); } else { add("\"%s\":[5]", n); } return 0; }
    if (v == 4) { if (F[f].t == S_) { add("\"%s\":[\"x\"]", n); } else if (F[f].t == L) { add("\"%s\":\"80\"", n); } else { add("\"%s\":\"\"", n); } return 0; }
    v -= 5;
    if (F[f].t == S_) { static const int D[] = {-2, -1, 0, 1, 2, 300}; char b[1200]; int len = v == 0 ? 1 : v == 1 ? 5 : (int)F[f].size - 1 + D[v - 2]; for (int i = 0; i < len; i++) b[i] = 'a' + i % 26; b[len] = 0; add("\"%s\":\"%s\"", n, b); sets(f, b); }
    else if (F[f].t == L) { static const int D[] = {1, 2, 8, 63, 64, 65, 70, 200}; int k = D[v]; add("\"%s\":[", n); for (int i = 0; i < k; i++) add("%s%d", i ? "," : "", 1000 + i); add("]"); setl(f, k, 1000); }
    else if (v < 2) { add("\"%s\":%s", n, v ? "true" : "false"); seti(f, v); }
    else { v -= 2; int x = v < 13 ? IV[v] : IV2[v - 13]; add("\"%s\":%d", n, x); seti(f, x); }
    return 0;
}
static int variants(int f) { return 5 + (F[f].t == S_ ? 8 : F[f].t == L ? 8 : F[f].t == U ? 15 : 18); }
static void single(long a) { begin(); int f = mc_choose(NF, 0, "setting"), v = mc_choose(variants(f), 0, "value"), junk = mc_choose(3, 0, "around"); add(junk == 1 ? "\n { \"unknown\" : [ { } ] , " : "{"); member(f, v); add(junk == 2 ? " , \"other\":\"x\" } \n" : "}"); load(); compare(); }
static void pair(long a) { begin(); int f = a, v = mc_choose(variants(f), 0, "value"), g = mc_choose(NF, 0, "second setting"); if (g == f) mc_prune(); int w = mc_choose(variants(g), 0, "second value"); add("{"); member(f, v); add(","); member(g, w); add("}"); load(); compare(); }
static void fullcfg(void) { static const int V[NF] = {8, 9, 8, 6, 6, 9, 12, 6, 6, 12, 12, 6, 6, 6, 7, 6, 6}; add("{\n"); for (int f = 0; f < NF; f++) { member(f, V[f]); add(f < NF - 1 ? ",\n" : "\n}"); } }
static void cutoff(long a) { begin(); fullcfg(); int n = mc_choose(tn + 1, 0, "length"); if (n < tn) { memset(&E, 0, sizeof E); E.sys_log_level = 0xff; tn = n; } T[tn] = 0; load(); compare(); }
static void repl(long a) { begin(); fullcfg(); int at = a * 64 + mc_choose(64, 0, "position"), i = mc_choose(13, 0, "byte"); if (at >= tn) mc_prune(); T[at] = "\"\\{}[]:,0-x \xff"[i]; load(); mc_state(mc_hash(7, T, tn)); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks()); for (int f = 0; f < NF; f++) if (F[f].t == S_ && !memchr((char *)config_get() + F[f].off, 0, F[f].size)) mc_fail("%s is not terminated", F[f].name); if (config_get()->http_num > L_OPEN_PORT_MAX || config_get()->https_num > L_OPEN_PORT_MAX) mc_fail("too many ports"); }
static void ports(long a) { begin(); int n = mc_choose(140, 0, "ports"), m = mc_choose(3, 0, "second list"); add("{\"%s\":[", a ? "https_arr" : "http_arr"); for (int i = 0; i < n; i++) add("%s%d", i ? "," : "", 1000 + i); add("],\"%s\":[", a ? "http_arr" : "https_arr"); int k = m == 0 ? 0 : m == 1 ? 3 : 64; for (int i = 0; i < k; i++) add("%s%d", i ? "," : "", 3000 + i); add("],\"http_home\":\"/www\"}"); setl(a ? 14 : 13, n, 1000); setl(a ? 13 : 14, k, 3000); sets(15, "/www"); load(); compare(); }
static void strs(long a) { begin(); int f = a, n = mc_choose((int)F[f].size + 40, 0, "length"); char b[700]; for (int i = 0; i < n; i++) b[i] = 'A' + i % 50; b[n] = 0; for (int i = 0; i < n; i++) if (b[i] == '\\' || b[i] == '"') b[i] = '_'; add("{\"%s\":\"%s\"}", F[f].name, b); sets(f, b); load(); compare(); }
static void odd(long a) { static const char *D[] = {"", " ", "[]", "[1,2]", "5", "\"x\"", "null", "{}", "{", "}", "{\"http_arr\":[\"x\",80,null]}", "{\"http_arr\":[70000,-1,1.5]}", "{\"s5_mode\":1e300}", "{\"s5_mode\":-1e300,\"sys_process\":1e999}", "{\"http_arr\":[[1],[2]]}", "[{\"s5_mode\":3}]", "{\"SYS_DAEMON\":1}", "{\"s5_mode\":2,\"s5_mode\":3}", "\xef\xbb\xbf{}", "{\"a\":\"\\u0000\"}"}; begin(); int i = mc_choose(sizeof D / sizeof *D, 0, "text"); add("%s", D[i]); load(); mc_state(mc_hash(7, T, tn)); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks()); if (i < 10) { if (tn) E = E; compare(); } }
static void nofile(long a) { begin(); config_init(); compare(); }
static void faults(long a) { begin(); fullcfg(); config_t full = E; mod_faults("ayf"); load(); mod_faults(""); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks()); mc_state(mod_injected()); config_t *c = config_get(); if (!mod_injected()) { compare(); return; } for (int f = 0; f < NF; f++) if (F[f].t == S_) { const char *x = (char *)c + F[f].off; if (*x && strcmp(x, (char *)&full + F[f].off)) mc_fail("%s is something that is not in the file", F[f].name); } }
static void lies(long a) { static const char *M = "{\"s5_mode\":3,\"http_home\":\"/h\"}"; begin(); add("%s%*s", M, 20, ""); mod_file(PATH, T, tn); int n = 1 + mc_choose(tn + 8, 0, "size reported"); mod_statsize(PATH, n); config_init(); mc_trans(1); mc_state(n); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks()); if (n == (int)tn || config_get()->s5_mode == 3) { seti(5, 3); sets(15, "/h"); } compare(); } /* all of it or nothing */
/* every configured port is listened on, once per entry */
static void listens(long mode) { static const int NP[] = {0, 1, 2, 3, 6, 7, 8, 9, 20, 63, 64, 65}; begin(); int n = NP[mc_choose(12, 0, "http ports")], m = NP[mc_choose(12, 0, "https ports")]; add("{\"s5_mode\":%ld,\"s5_serv_port\":12345,\"s5_local_port\":1080,\"http_arr\":[", mode); for (int i = 0; i < n; i++) add("%s%d", i ? "," : "", 2000 + i); add("],\"https_arr\":["); for (int i = 0; i < m; i++) add("%s%d", i ? "," : "", 4000 + i); add("]}"); load(); if (listen_init()) mc_fail("the ports cannot be listened on"); mc_state(mc_hash(11, T, tn)); mc_trans(n + m); mc_outcome(n * 100 + m);
    for (int i = 0; i < 70; i++) { if (mod_listens(2000 + i) != (i < n && i < L_OPEN_PORT_MAX)) mc_fail("HTTP port %d of %d has %d listeners", i + 1, n, mod_listens(2000 + i)); if (mod_listens(4000 + i) != (i < m && i < L_OPEN_PORT_MAX)) mc_fail("HTTPS port %d of %d has %d listeners", i + 1, m, mod_listens(4000 + i)); }
    if (mod_listens(12345) != (mode == 2) || mod_listens(1080) != (mode == 1)) mc_fail("the tunnel port has %d listeners, the local one %d", mod_listens(12345), mod_listens(1080)); listen_end(); for (int i = 0; i < 70; i++) if (mod_listens(2000 + i) || mod_listens(4000 + i)) mc_fail("a listener is left"); }
/* the key file: contents of every length around the limit, cut off, odd */
static void keyload(void) { mod_begin(); memset(config_get(), 0, sizeof(config_t)); config_get()->s5_mode = 2; strcpy(config_get()->s5_serv_auth_path, "/k/auth.json"); mod_file("/k/auth.json", T, tn); }
static void keyrun(void) { int r = tls_tunnel_s_init(); mc_trans(1); mc_outcome(r); mc_state(mc_hash(9, T, tn)); tls_tunnel_s_exit(); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks()); }
static void keys(long a) { begin(); int n = 4060 + mc_choose(60, 0, "length"), kind = mc_choose(4, 0, "kind"); memset(T, ' ', n); if (kind == 0) { T[0] = '['; for (int i = 1; i + 8 < n; i += 8) memcpy(T + i, i == 1 ? " \"abcd\"" : ",\"abcde\"", 8); T[n - 1] = ']'; } else if (kind == 1) { memset(T, 'k', n); memcpy(T, "[\"", 2); memcpy(T + n - 2, "\"]", 2); } else if (kind == 2) memset(T, '[', n); else memset(T, '"', n); tn = n; keyload(); keyrun(); }
static void keyodd(long a) { static const char *D[] = {"", "[", "]", "{}", "null", "5", "\"k\"", "[1,2,null,[],{}]", "[\"\"]", "[\"a\",\"a\",\"ab\"]", "{\"x\":\"y\"}", "[\"a\"", "[\"\\u00ff\\n\"]", "[[\"a\"]]"}; begin(); add("%s", D[mc_choose(sizeof D / sizeof *D, 0, "content")]); tn = mc_choose(tn + 1, 0, "length"); T[tn] = 0; keyload(); keyrun(); }
static void keyfault(long a) { begin(); add("[\"one\",\"two\",\"another\"]"); keyload(); mod_faults("ayf"); keyrun(); }
MOD_REGISTER(C23) {
    for (int m = 0; m <= 3; m++) mc_add(listens, m, 0, "ports listened on, mode %d", m);
    mc_add(keys, 0, 0, "key files around the limit"); mc_add(keyodd, 0, 0, "odd key files"); mc_add(keyfault, 0, 2, "key files, failing reads");
    mc_add(single, 0, 0, "one setting"); for (int f = 0; f < NF; f++) mc_add(pair, f, 0, "%s and another setting", F[f].name);
    mc_add(cutoff, 0, 0, "cut off"); for (int i = 0; i < 40; i++) mc_add(repl, i, 0, "one byte replaced from %d", i * 64); mc_add(ports, 0, 0, "http ports"); mc_add(ports, 1, 0, "https ports");
    for (int f = 0; f < NF; f++) if (F[f].t == S_) mc_add(strs, f, 0, "%s of every length", F[f].name);
    mc_add(odd, 0, 0, "odd files"); mc_add(nofile, 0, 0, "no file"); mc_add(faults, 0, mc_thorough() ? 3 : 2, "failing reads"); mc_add(lies, 0, 0, "the file changes its size");
}
