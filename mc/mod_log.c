/* C18: log records */
#include "common.h"
#include "mod.h"
#include <time.h>
#define MAIN S5_PATH_LOG_FILE_MAIN
#define ACCESS S5_PATH_LOG_FILE_ACCESS
static int failat, nwrite, which;
static ssize_t h_write(int fd, const void *b, size_t n) { if (n > 1 << 20) mc_fail("%zu bytes are written for one record", n); int k = nwrite++; mc_trans(1); if (failat && (k + 1) & failat) { errno = EBADF; return -1; } return -2; }
static long long tms = 123456;
static void begin(int level) { mod_begin(); tms = 123456; mod_set_ms(123456); memset(config_get(), 0, sizeof(config_t)); if (log_init()) mc_fail("cannot open the log"); systime_update(); config_get()->sys_log_level = level; failat = nwrite = 0; mod_write_hook = h_write; }
static const char *label(int level) { return level == LOG_LEVEL_ERROR ? "[error]" : level == LOG_LEVEL_INFO ? "[info]" : "[debug]"; }
static char full[8192];
static int expect(int level, const char *func, int line, const char *msg) { time_t s = (1000000000000ll + tms) / 1000; struct tm t; localtime_r(&s, &t); return snprintf(full, sizeof full, "%s %04d/%02d/%02d %02d:%02d:%02d.%03d <%s:%d> %s", label(level), t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, (int)((1000000000000ll + tms) % 1000), func, line, msg); }
static void one(const char *what, const char *got, size_t n, int fulln, int want) {
    if (!want) { if (n) mc_fail("a record that is not wanted is written to %s", what); return; }
    if (n > LOG_TEXT_LENGTH) mc_fail("%s gets %zu bytes, more than a record may have", what, n);
    if (n > (size_t)fulln || memcmp(got, full, n)) { int d = 0; while (d < (int)n && d < fulln && got[d] == full[d]) d++; mc_fail("%s gets something else from byte %d of %zu on (the record has %d)", what, d, n, fulln); }
    if (n < (size_t)fulln && n < LOG_TEXT_LENGTH - 16) mc_fail("%s gets only %zu of the record's %d bytes", what, n, fulln);
    mc_outcome(n);
}
static void check(int id, int fulln, int want) {
    size_t so, sm, sa; static char o[8192], m[8192]; const char *p = mod_sink("", &so); if (so > sizeof o) so = sizeof o; memcpy(o, p, so); p = mod_sink(MAIN, &sm); if (sm > sizeof m) sm = sizeof m; memcpy(m, p, sm); const char *a = mod_sink(ACCESS, &sa);
    one("the standard output", o, so, fulln, want && !(failat & 1)); one("the main log", m, sm, fulln, want && id == LOG_ID_MAIN && !(failat & 2)); one("the access log", a, sa, fulln, want && id == LOG_ID_ACCESS && !(failat & 2));
    if (want && !failat && (so != (id == LOG_ID_MAIN ? sm : sa) || memcmp(o, id == LOG_ID_MAIN ? m : a, so))) mc_fail("the standard output and the log differ");
}
static void end(void) { log_end(); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks()); }
/* every length, plain and with arguments */
static void lengths(long a) {
    int kind = a & 7, lo = (a >> 3) * 100;
    int n = lo + mc_choose(100, 0, "length"), nl = mc_choose(2, 0, "newline"); begin(2);
    char *s = malloc(n + 2), *msg = malloc(n + 64); for (int i = 0; i < n; i++) s[i] = 'a' + i % 26; if (nl && n) s[n - 1] = '\n'; s[n] = 0;
    int id = kind & 1 ? LOG_ID_ACCESS : LOG_ID_MAIN, level = kind & 1 ? LOG_LEVEL_INFO : LOG_LEVEL_ERROR;
    switch (kind >> 1) {
    case 0: strcpy(msg, s); log_print(id, level, "func", 12, s); break;
    case 1: sprintf(msg, "<%s>", s); log_print(id, level, "func", 12, "<%s>", s); break;
    case 2: sprintf(msg, "%d %s %s:%x", -5, s, "tail", 0xbeef); log_print(id, level, "func", 12, "%d %s %s:%x", -5, s, "tail", 0xbeef); break;
    default: sprintf(msg, "%.*s|%5d", n / 2, s, 42); log_print(id, level, "func", 12, "%.*s|%5d", n / 2, s, 42); break;
    }
    int f = expect(level, "func", 12, msg); free(s); free(msg); mc_state(mc_mix(kind, n * 2 + nl)); check(id, f, 1); end();
}
/* a function name of every length, short and long message */
static void names(long a) {
    int n = a * 50 + mc_choose(50, 0, "length"), m = mc_choose(3, 0, "message"); begin(2); char *fn = malloc(n + 1), msg[700]; memset(fn, 'f', n); fn[n] = 0; int ml = m == 0 ? 0 : m == 1 ? 10 : 600; memset(msg, 'm', ml); msg[ml] = 0;
    log_print(LOG_ID_MAIN, LOG_LEVEL_ERROR, fn, 2147483647, "%s", msg); int f = expect(LOG_LEVEL_ERROR, fn, 2147483647, msg); free(fn); mc_state(mc_mix(91 + m, n)); check(LOG_ID_MAIN, f, 1); end();
}
/* levels, targets, failing descriptors; two records in a row do not disturb one another */
static void levels(long a) {
    static const int CL[] = {0, 1, 2, 255, -1}; int cl = CL[mc_choose(5, 0, "configured level")], id = mc_choose(2, 0, "target"), level = mc_choose(3, 0, "level"), fl = mc_choose(4, 0, "failing"); begin(cl); failat = fl;
    log_print(id, level, "f", 1, "x%dy\n", 7); int f = expect(level, "f", 1, "x7y\n"); if (!(level <= cl) && nwrite) mc_fail("a record above the configured level is written"); check(id, f, level <= cl); mc_state(mc_mix(cl * 4 + fl, id * 4 + level)); end();
}
static void two(long a) {
    begin(2); static const int L[] = {0, 5, 400, 460, 600, 1500}; char b[1600]; int ends[3] = {0}; size_t n;
    for (int i = 0; i < 3; i++) { int l = L[mc_choose(6, 0, "length")]; memset(b, 'A' + i, l); b[l] = 0; log_print(LOG_ID_MAIN, LOG_LEVEL_ERROR, "f", 1, "%s", b); int f = expect(LOG_LEVEL_ERROR, "f", 1, b); const char *p = mod_sink(MAIN, &n); int from = i ? ends[i - 1] : 0; one("the main log", p + from, n - from, f, 1); ends[i] = n; mc_state(mc_mix(1000 + i, l)); }
    size_t so; mod_sink("", &so); if (so != n) mc_fail("the standard output and the log differ"); end();
}
/* no log files: records still go to the standard output */
static void nolog(long a) { mod_begin(); tms = 123456; mod_set_ms(123456); systime_update(); memset(config_get(), 0, sizeof(config_t)); config_get()->sys_log_level = 2; failat = nwrite = 0; mod_write_hook = h_write; log_print(mc_choose(2, 0, "target"), 0, "f", 3, "hello %s\n", "you"); int f = expect(0, "f", 3, "hello you\n"); size_t n; const char *o = mod_sink("", &n); one("the standard output", o, n, f, 1); mc_state(4444); }
static void initfail(long a) { mod_begin(); mod_faults("ay"); int r = log_init(); mc_outcome(r); mc_state(r + 50); mc_trans(1); if (r && !mod_injected()) mc_fail("cannot open the log"); if (!r) log_end(); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks()); }
/* the time of a record, at the turns of seconds, days, months and years */
static void times(long a) {
    static const long long D[] = {946684800, 951782400, 951868799, 978307199, 978307200, 1009843199, 1078012800, 1072915199, 1230767999, 1356998399, 1583020799, 1609459199, 1709251199, 1735689600, 2147483647, 2147483648ll, 4102444799ll}; static const int M[] = {0, 1, 9, 10, 99, 100, 999};
    int i = mc_choose(17, 0, "moment"), k = mc_choose(7, 0, "milliseconds"), later = mc_choose(3, 0, "later"); begin(2); tms = D[i] * 1000 + M[k] - 1000000000000ll + (later == 1 ? 1 : later == 2 ? 1000 : 0); mod_set_ms(tms); systime_update();
    log_print(LOG_ID_ACCESS, LOG_LEVEL_INFO, "f", 9, "x"); int f = expect(LOG_LEVEL_INFO, "f", 9, "x"); mc_state(mc_mix(i * 8 + k, later + 7)); check(LOG_ID_ACCESS, f, 1); end();
}
MOD_REGISTER(C18) {
    mc_add(times, 0, 0, "moments");
    for (int k = 0; k < 8; k++) for (int i = 0; i < 22; i++) mc_add(lengths, k | i << 3, 0, "messages of kind %d from %d bytes", k, i * 100);
    for (int i = 0; i < 15; i++) mc_add(names, i, 0, "function names from %d bytes", i * 50);
    mc_add(levels, 0, 0, "levels and failing descriptors"); mc_add(two, 0, 0, "three records"); mc_add(nolog, 0, 0, "no log files"); mc_add(initfail, 0, 2, "log files cannot be opened");
}
