/* C24: JSON texts */
#include "common.h"
#include "mod.h"
#include <math.h>
/* ---- a plain tree ---- */
typedef struct node { int t; double d; char s[24]; struct node *kid[4]; char key[4][16]; int n; } node; /* t: 0 null 1 true 2 false 3 number 4 string 5 array 6 object */
static node pool_[64]; static int np_; static char txt[4096]; static int tn; static int wsb;
static node *nn(int t) { if (np_ >= 60) mc_prune(); node *x = &pool_[np_++]; memset(x, 0, sizeof *x); x->t = t; return x; }
static void put(const char *s) { int l = strlen(s); memcpy(txt + tn, s, l); tn += l; }
static void ws(void) { static const char *WS[] = {"", " ", "\t\r\n ", "\n\n"}; put(WS[mc_choose(4, 1, "white space")]); }
static const struct { const char *t; double d; } NUM[] = {{"0", 0}, {"-1", -1}, {"1.5", 1.5}, {"1e3", 1000}, {"-2.5E-3", -0.0025}, {"2147483648", 2147483648.0}, {"0.1", 0.1}, {"123456789012345678", 123456789012345678.0}, {"1.7976931348623157e308", 1.7976931348623157e308}, {"-0", -0.0}, {"5e-324", 5e-324}, {"0.30000000000000004", 0.30000000000000004}, {"-2147483649", -2147483649.0}};
static const struct { const char *t, *s; } STR[] = {{"\"\"", ""}, {"\"a\"", "a"}, {"\"\\\"\\\\\\/\"", "\"\\/"}, {"\"\\b\\f\\n\\r\\t\"", "\b\f\n\r\t"}, {"\"\\u0041\\u00e9\"", "A\xc3\xa9"}, {"\"\\u20ac\"", "\xe2\x82\xac"}, {"\"\\ud83d\\ude00\"", "\xf0\x9f\x98\x80"}, {"\"\xc3\xbc\"", "\xc3\xbc"}, {"\"\\u001f\\u007F\"", "\x1f\x7f"}, {"\"x]}:,{[\"", "x]}:,{["}, {"\"\\uD800\\uDC00\"", "\xf0\x90\x80\x80"}, {"\"\\udbff\\udfff\"", "\xf4\x8f\xbf\xbf"}, {"\"\\u07ff\\u0800\"", "\xdf\xbf\xe0\xa0\x80"}};
static const char *KEYS[][2] = {{"\"a\"", "a"}, {"\"b\"", "b"}, {"\"\"", ""}, {"\"\\u0041\\\"\"", "A\""}};
#define N(a) ((int)(sizeof a / sizeof *a))
static int thin;
static node *gen(int depth, int rich) {
    int kinds = depth ? 7 : 5, k; node *x; ws();
    if (!rich) { k = mc_choose(depth ? 4 : 2, 0, "value"); k = k == 0 ? 3 : k == 1 ? 4 : k == 2 ? 5 : 6; } else k = mc_choose(kinds, 0, "value");
    x = nn(k);
    if (k < 3) put(k == 0 ? "null" : k == 1 ? "true" : "false");
    else if (k == 3) { int i = mc_choose(rich ? N(NUM) : 2, 0, "number"); put(NUM[i].t); x->d = NUM[i].d; }
    else if (k == 4) { int i = mc_choose(rich ? N(STR) : 2, 0, "string"); put(STR[i].t); strcpy(x->s, STR[i].s); }
    else { x->n = mc_choose(thin && np_ > 1 ? 2 : 3, 0, "members"); put(k == 5 ? "[" : "{"); if (!x->n) ws(); for (int i = 0; i < x->n; i++) { if (i) put(","); if (k == 6) { ws(); int q = mc_choose(rich ? 4 : 2, 0, "name"); put(KEYS[q][0]); strcpy(x->key[i], KEYS[q][1]); ws(); put(":"); } x->kid[i] = gen(depth - 1, rich); } put(k == 5 ? "]" : "}"); }
    ws(); return x;
}
static int same(const node *x, const cJSON *j) {
    if (!j) return 0;
    switch (x->t) {
    case 0: return cJSON_IsNull(j); case 1: return cJSON_IsTrue(j); case 2: return cJSON_IsFalse(j);
    case 3: return cJSON_IsNumber(j) && j->valuedouble == x->d && cJSON_GetNumberValue(j) == x->d && j->valueint == (x->d >= 2147483647.0 ? 2147483647 : x->d <= -2147483648.0 ? -2147483647 - 1 : (int)x->d);
    case 4: return cJSON_IsString(j) && j->valuestring && !strcmp(j->valuestring, x->s);
    }
    if (x->t == 5 ? !cJSON_IsArray(j) : !cJSON_IsObject(j)) return 0;
    if (cJSON_GetArraySize(j) != x->n) return 0;
    for (int i = 0; i < x->n; i++) { cJSON *k = cJSON_GetArrayItem(j, i); if (!same(x->kid[i], k)) return 0; if (x->t == 6) { if (!k->string || strcmp(k->string, x->key[i])) return 0; int first = i; for (int q = 0; q < i; q++) if (!strcmp(x->key[q], x->key[i])) first = first == i ? q : first; if (cJSON_GetObjectItemCaseSensitive(j, x->key[i]) != cJSON_GetArrayItem(j, first)) return 0; if (*x->key[i] != 'A' && (cJSON_GetObjectItem(j, x->key[i]) != cJSON_GetArrayItem(j, first) || (*x->key[i] == 'a' && cJSON_GetObjectItem(j, "A") != cJSON_GetArrayItem(j, first)))) return 0; } }
    return 1;
}
static int eq(const cJSON *a, const cJSON *b) { /* as written, in order */
    if (a && b && cJSON_IsNumber(a) && isinf(a->valuedouble)) return 1; /* beyond what a double holds: outside the property */
    if (!a || !b || (a->type & 255) != (b->type & 255)) return 0;
    if (cJSON_IsNumber(a)) return fabs(a->valuedouble - b->valuedouble) <= fmax(fabs(a->valuedouble), fabs(b->valuedouble)) * 2.3e-16; /* to one unit in the last place */
    if (cJSON_IsString(a)) return !strcmp(a->valuestring, b->valuestring);
    cJSON *p = a->child, *q = b->child; while (p && q) { if (cJSON_IsObject(a) && strcmp(p->string, q->string)) return 0; if (!eq(p, q)) return 0; p = p->next; q = q->next; } return !p && !q;
}
static void begin(void) { mod_begin(); cJSON_InitHooks(NULL); np_ = tn = 0; }
static cJSON *parse(const char *s, int n, int way) { /* the text ends where its memory ends */
    cJSON *j; char *b;
    if (way == 0) { b = malloc(n + 1); memcpy(b, s, n); b[n] = 0; j = cJSON_Parse(b); } else { b = malloc(n ? n : 1); memcpy(b, s, n); j = cJSON_ParseWithLength(b, n); }
    free(b); mc_trans(1); return j;
}
static int uniq(const cJSON *j) { if (cJSON_IsNumber(j) && isinf(j->valuedouble)) return 0; for (cJSON *a = j->child; a; a = a->next) { if (cJSON_IsObject(j)) for (cJSON *b = a->next; b; b = b->next) if (!strcmp(a->string, b->string)) return 0; if (!uniq(a)) return 0; } return 1; }
static void roundtrip(cJSON *j, const char *what) {
    int u = uniq(j); cJSON *c = cJSON_Duplicate(j, 1); if (!eq(j, c)) mc_fail("a copy of %s is another value", what); if (u && !cJSON_Compare(j, c, 1)) mc_fail("a copy of %s does not compare equal", what); cJSON_Delete(c);
    for (int f = 0; f < 4; f++) {
        char *p = f == 0 ? cJSON_Print(j) : f == 1 ? cJSON_PrintUnformatted(j) : f == 2 ? cJSON_PrintBuffered(j, 1, 0) : cJSON_PrintBuffered(j, 300, 1);
        if (!p) mc_fail("%s cannot be printed", what);
        cJSON *k = cJSON_Parse(p); int e = eq(j, k); if (!e) { mc_note("   printed: %.300s", p); mc_fail("printing %s and parsing it again gives another value", what); }
        if (u && !cJSON_Compare(j, k, 1) && !strstr(p, "null")) mc_fail("%s, printed and parsed, does not compare equal", what); cJSON_Delete(k); cJSON_free(p); mc_trans(2);
    }
    char buf[6000]; if (!cJSON_PrintPreallocated(j, buf, sizeof buf, 1)) mc_fail("%s cannot be printed into a buffer", what); cJSON *k = cJSON_Parse(buf); if (!eq(j, k)) mc_fail("printing %s and parsing it again gives another value", what); cJSON_Delete(k);
}
static void end(void) { if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks()); }
static void docs(long a) { /* all documents of the grammar */
    begin(); thin = a >> 3 & 1; node *x = gen(a & 3, a >> 2 & 1); txt[tn] = 0; mc_note("   %s", txt); int way = mc_choose(2, 0, "interface"); cJSON *j = parse(txt, tn, way); if (!j) mc_fail("a document is refused: %.200s", txt);
    if (!same(x, j)) mc_fail("a document is parsed to something else: %.200s", txt);
    mc_state(mc_mix(mc_hash(7, txt, tn), way)); mc_outcome(mc_hash(7, txt, tn)); roundtrip(j, "it"); cJSON_Delete(j); end();
}
/* ---- a lenient reader, for texts that are not documents: where does the first value end, or -1 ---- */
static const unsigned char *q, *qe; static int rd(int depth);
static void sk(void) { while (q < qe && *q <= 32) q++; }
static int hex4(const unsigned char *p) { int v = 0; for (int i = 0; i < 4; i++) { int c = p[i]; v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -99999999); if (v < 0) return -1; } return v; }
static int rstr(void) { if (q >= qe || *q != '"') return 0; q++; for (;;) { if (q >= qe) return 0; if (*q == '"') { q++; return 1; } if (*q == '\\') { q++; if (q >= qe) return 0; if (strchr("\"\\/bfnrt", *q) && *q) q++; else if (*q == 'u') { if (qe - q < 5) return 0; int v = hex4(q + 1); if (v < 0) return 0; q += 5; if (v >= 0xdc00 && v <= 0xdfff) return 0; if (v >= 0xd800 && v <= 0xdbff) { if (qe - q < 6 || q[0] != '\\' || q[1] != 'u') return 0; int w = hex4(q + 2); if (w < 0xdc00 || w > 0xdfff) return 0; q += 6; } } else return 0; } else q++; } }
static int lit(const char *s) { int n = strlen(s); if (qe - q >= n && !memcmp(q, s, n)) { q += n; return 1; } return 0; }
static int rd(int depth) {
    sk(); if (q >= qe) return 0;
    if (*q == '"') return rstr();
    if (*q == '-' || (*q >= '0' && *q <= '9')) { char b[300]; int n = 0; while (q + n < qe && n < 299 && strchr("0123456789+-eE.", q[n]) && q[n]) { b[n] = q[n]; n++; } b[n] = 0; char *e; strtod(b, &e); if (e == b) return 0; q += e - b; return 1; }
    if (*q == '[' || *q == '{') { int o = *q == '{', cl = o ? '}' : ']'; q++; sk(); if (q < qe && *q == cl) { q++; return 1; } for (;;) { if (o) { sk(); if (!rstr()) return 0; sk(); if (q >= qe || *q != ':') return 0; q++; } if (!rd(depth + 1)) return 0; sk(); if (q >= qe) return 0; if (*q == ',') { q++; continue; } if (*q == cl) { q++; return 1; } return 0; } }
    return lit("null") || lit("true") || lit("false");
}
static int ok(const char *s, int n) { q = (const unsigned char *)s; qe = q + n; if (n >= 3 && !memcmp(q, "\xef\xbb\xbf", 3)) q += 3; return rd(0); }
static const char *BASE[] = {"{\"a\":[1,-2.5e3,true,null],\"b\\u00e9\\n\":{\"c\":\"x\\ud83d\\ude00y\"},\"\":false}", "[[[]],[{}],{\"k\":[{}]},\"s\"]", " [ 1 , \"a\" ] ", "\"\\ud83d\\ude00\\u20ac\\\"\"", "-123.456e-7", "{\"a\":{\"b\":{\"c\":[0,1,2]}}}", "true", "[false,null,1e5]", "\xef\xbb\xbf[1]"};
static void bad(const char *s, int n) {
    int zero = memchr(s, 0, n) != NULL, way = mc_choose(2, 0, "interface"), len = way == 0 && zero ? (int)strlen(s) : n; mc_note("   %.*s", n, s);
    int want = ok(s, len); cJSON *j = parse(s, n, way); mc_outcome(!!j); mc_state(mc_mix(mc_hash(7, s, n), way));
    if (!j && want) mc_fail("a document is refused: %.*s", n, s);
    if (j && !want) mc_fail("a malformed document is accepted: %.*s", n, s);
    if (j) { roundtrip(j, "the parsed value"); cJSON_Delete(j); }
    end();
}
static void cutoff(long i) { begin(); int n = strlen(BASE[i]); bad(BASE[i], mc_choose(n + 1, 0, "length")); }
static void repl(long a) { begin(); int i = a & 15, step = a >> 4 & 1, n = strlen(BASE[i]), at = mc_choose(n, 0, "position"); static const char M[] = "\"\\{}[]:,0-+.eEtfnu /\x01\x7f\x80\xff\0aAdD8"; int c = step ? mc_choose(256, 0, "byte") : (unsigned char)M[mc_choose(sizeof M, 0, "byte")]; char b[256]; memcpy(b, BASE[i], n + 1); if (c == b[at]) mc_prune(); b[at] = c; if (strstr(b, "\\u0000")) mc_prune(); bad(b, n); }
static void dele(long i) { begin(); int n = strlen(BASE[i]), at = mc_choose(n, 0, "position"), w = mc_choose(2, 0, "twice or not at all"); char b[256]; if (w) { memcpy(b, BASE[i], at); memcpy(b + at, BASE[i] + at + 1, n - at); n--; } else { memcpy(b, BASE[i], at + 1); memcpy(b + at + 1, BASE[i] + at, n - at + 1); n++; } bad(b, n); }
static void nomem(long i) { begin(); mod_faults("a"); cJSON *j = parse(BASE[i], strlen(BASE[i]), 0); mc_outcome(!!j); mc_state(!!j); if (!j && !mod_injected()) mc_fail("a document is refused"); if (j) { char *p = cJSON_Print(j); if (p) cJSON_free(p); else if (!mod_injected()) mc_fail("a value cannot be printed"); cJSON_Delete(j); } mod_faults(""); end(); }
static void deep(long a) { begin(); int d = 998 + mc_choose(5, 0, "depth"), o = mc_choose(2, 0, "kind"); char *b = malloc(d * 8 + 1); int n = 0; for (int i = 0; i < d; i++) n += sprintf(b + n, o ? "{\"a\":" : "["); n += sprintf(b + n, o ? "1" : ""); for (int i = 0; i < d; i++) n += sprintf(b + n, o ? "}" : "]"); cJSON *j = parse(b, n, 0); free(b); mc_outcome(!!j); mc_state(d * 2 + o); if (d <= 1000 && !j) mc_fail("%d levels are refused", d); if (d > 1001 && j) mc_fail("%d levels are accepted", d); if (j && d < 1000) { char *p = cJSON_PrintUnformatted(j); if (!p) mc_fail("it cannot be printed"); cJSON *k = cJSON_Parse(p); if (!eq(j, k)) mc_fail("it is printed as something else"); cJSON_Delete(k); cJSON_free(p); } if (j) cJSON_Delete(j); end(); }
/* every code point written as an escape, and strings of every length */
static void wide(long a) { /* many members next to each other: every length around the limits */
    static const char *E[] = {"[]", "{}", "1", "\"s\"", "[1]", "{\"a\":[]}", "null"}; static const int L[] = {1, 2, 255, 256, 257, 999, 1000, 1001, 1002, 3000};
    begin(); int n = L[mc_choose(N(L), 0, "members")], e = mc_choose(N(E), 0, "member"), k = 0; char *b = malloc(n * 24 + 8);
    b[k++] = a ? '{' : '['; for (int i = 0; i < n; i++) k += a ? sprintf(b + k, "%s\"k%d\":%s", i ? "," : "", i, E[e]) : sprintf(b + k, "%s%s", i ? "," : "", E[e]); b[k++] = a ? '}' : ']';
    cJSON *j = parse(b, k, 1); mc_state(n * 16 + e * 2 + a); mc_outcome(n); if (!j) mc_fail("a document of %d members %s is refused", n, E[e]); if (cJSON_GetArraySize(j) != n) mc_fail("%d members become %d", n, cJSON_GetArraySize(j));
    b[k] = 0; char *p = cJSON_PrintUnformatted(j); if (!p || strcmp(p, b)) mc_fail("a document of %d members %s is printed as something else", n, E[e]); cJSON_free(p); free(b);
    int i = 0; for (cJSON *c = j->child; c; c = c->next, i++) if (i && (!c->prev || c->prev->next != c)) mc_fail("the members are not linked both ways");
    cJSON_Delete(j); end();
}
static void uni(long a) { begin(); for (int cp = a * 0x2000; cp < (a + 1) * 0x2000; cp++) { if (!cp || (cp >= 0xd800 && cp < 0xe000)) continue; char t[40], e[8]; int n = 0; if (cp < 0x10000) sprintf(t, "\"\\u%04x\"", cp); else sprintf(t, "\"\\u%04X\\u%04x\"", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff)); if (cp < 0x80) e[n++] = cp; else if (cp < 0x800) { e[n++] = 0xc0 | cp >> 6; e[n++] = 0x80 | (cp & 63); } else if (cp < 0x10000) { e[n++] = 0xe0 | cp >> 12; e[n++] = 0x80 | (cp >> 6 & 63); e[n++] = 0x80 | (cp & 63); } else { e[n++] = 0xf0 | cp >> 18; e[n++] = 0x80 | (cp >> 12 & 63); e[n++] = 0x80 | (cp >> 6 & 63); e[n++] = 0x80 | (cp & 63); } e[n] = 0; cJSON *j = cJSON_Parse(t); if (!j || !cJSON_IsString(j) || strcmp(j->valuestring, e)) mc_fail("code point U+%04X is parsed to something else", cp); char *p = cJSON_PrintUnformatted(j); cJSON *k = cJSON_Parse(p); if (!eq(j, k)) mc_fail("code point U+%04X does not survive printing", cp); cJSON_Delete(j); cJSON_Delete(k); cJSON_free(p); mc_trans(3); } mc_state(a); end(); }
static void slen(long a) { begin(); static char b[3000], e[3000]; for (int n = a * 50; n < (a + 1) * 50; n++) for (int c = 0; c < 3; c++) { int k = 0; b[k++] = '['; b[k++] = '"'; for (int i = 0; i < n; i++) { if (c == 1 && i % 7 == 3) { b[k++] = '\\'; b[k++] = 'n'; e[i] = '\n'; } else if (c == 2 && i % 5 == 0) { memcpy(b + k, "\\u0001", 6); k += 6; e[i] = 1; } else e[i] = b[k++] = 'a' + i % 26; if (k > 2900) break; } if (k > 2900) continue; b[k++] = '"'; b[k++] = ']'; e[n] = 0; cJSON *j = parse(b, k, 1); if (!j || strcmp(cJSON_GetArrayItem(j, 0)->valuestring, e)) mc_fail("a string of %d characters is parsed to something else", n); char *p = cJSON_Print(j); cJSON *r = cJSON_Parse(p); if (!eq(j, r)) mc_fail("a string of %d characters does not survive printing", n); cJSON_free(p); cJSON_Delete(r); p = cJSON_PrintBuffered(j, 8, 0); r = cJSON_Parse(p); if (!eq(j, r)) mc_fail("a string of %d characters does not survive printing", n); cJSON_free(p); cJSON_Delete(r); cJSON_Delete(j); mc_trans(5); mc_state(n * 3 + c); } end(); }
/* numbers of every length, alone and inside an array */
static void nlen(long a) {
    begin(); static char b[700], t[720];
    for (int n = a * 40 + 1; n <= a * 40 + 40; n++) for (int f = 0; f < 6; f++) {
        for (int i = 0; i < n; i++) b[i] = f == 3 && i < n - 1 ? '0' : '1' + i % 9;
        b[n] = 0; if (f == 1) { if (n < 3) continue; b[0] = '-'; b[n / 2] = '.'; if (n / 2 == 1 || n / 2 == n - 1) continue; } else if (f == 2) { if (n < 6) continue; memcpy(b + n - 4, "e-20", 4); } else if (f == 3) { if (n < 3) continue; b[1] = '.'; } else if (f == 4) { if (n < 8) continue; b[1] = '.'; memcpy(b + n - 5, "E+017", 5); if (b[n - 6] == '.') continue; } else if (f == 5) { if (n < 5) continue; memset(b + 2, '0', n - 3); memcpy(b, "1e", 2); }
        double d = strtod(b, NULL); if (isinf(d)) continue;
        for (int w = 0; w < 3; w++) { sprintf(t, w == 0 ? "%s" : w == 1 ? "[%s]" : "{\"a\":%s,\"b\":[]}", b); cJSON *j = parse(t, strlen(t), w & 1), *k = w == 0 ? j : w == 1 ? cJSON_GetArrayItem(j, 0) : cJSON_GetObjectItem(j, "a"); if (!j) mc_fail("a number of %d characters is refused: %s", n, t); if (!cJSON_IsNumber(k) || k->valuedouble != d) mc_fail("a number of %d characters is parsed to something else: %s", n, t); if (n % 10 == 3) roundtrip(j, "a long number"); cJSON_Delete(j); }
        mc_state(n * 8 + f);
    }
    end();
}
MOD_REGISTER(C24) {
    int t = mc_thorough();
    mc_add(docs, 1 | 4, t ? 1 : 0, "documents of two levels, all values"); mc_add(docs, 1, 2, "documents of two levels"); mc_add(docs, 2, t ? 1 : 0, "documents of three levels"); mc_add(docs, 3 | 8, t ? 2 : 1, "documents of four levels, thin"); mc_add(docs, 0 | 4, 2, "single values"); mc_add(docs, 2 | 4 | 8, t ? 1 : 0, "documents of three levels, thin, all values");
    for (int i = 0; i < N(BASE); i++) { mc_add(cutoff, i, 0, "text %d cut off", i); mc_add(repl, i | 1 << 4, 0, "text %d, one byte replaced", i); mc_add(dele, i, 0, "text %d, one byte missing or doubled", i); mc_add(nomem, i, 2, "text %d, no memory", i); }
    mc_add(deep, 0, 0, "nesting limit"); mc_add(wide, 0, 0, "long arrays"); mc_add(wide, 1, 0, "long objects"); for (int i = 0; i < (t ? 16 : 8); i++) mc_add(nlen, i, 0, "numbers from %d characters", i * 40 + 1); for (int i = 0; i < 0x110000 / 0x2000; i++) mc_add(uni, i, 0, "code points from U+%04X", i * 0x2000); for (int i = 0; i < 12; i++) mc_add(slen, i, 0, "strings from %d characters", i * 50);
}
