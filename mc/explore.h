/* Stateless exhaustive explorer: depth-first enumeration of every choice sequence of a scenario
 * whose deviation cost stays within a bound.  See explore.cpp. */
#ifndef MC_EXPLORE_H
#define MC_EXPLORE_H
#include <stdint.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*mc_fn)(long arg);
/* register a scenario */
void mc_add(mc_fn fn, long arg, int maxdev, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
/* choose one of 0..n-1; option 0 is free, any other option costs `cost` deviations (0: plain enumeration) */
int  mc_choose(int n, int cost, const char *tag);
/* remaining deviation budget on the current path */
int  mc_budget(void);
/* the property is violated on this path */
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
/* end this path without a verdict (not counted) */
void mc_prune(void) __attribute__((noreturn));
/* end this path normally from inside deep code */
void mc_done(void) __attribute__((noreturn));
/* the program and the environment are in a state with this key: ends the path if the same state was reached before
 * (in this scenario, with the same remaining budget): everything that can follow is explored from there */
void mc_seen(uint64_t key);
void mc_state(uint64_t h);
void mc_trans(long n);
void mc_outcome(uint64_t h);
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* trace line, kept only in replays */
extern int mc_verbose;       /* replaying */
int  mc_thorough(void);
uint64_t mc_hash(uint64_t h, const void *p, size_t n);
static inline uint64_t mc_mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
/* program supplied */
void mc_register(const char *property);        /* registers the scenarios of a property */
void mc_cleanup(void);                          /* called after every path, also aborted ones */
#ifdef __cplusplus
}
#endif
#endif
