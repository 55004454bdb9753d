/* Common harness runtime: deterministic per-case PRNG, event counters, distinct-case hashing, violation reports. */
#ifndef VH_H
#define VH_H
#ifndef MSTDLIB_INTERNAL_HARNESS
#define MSTDLIB_INTERNAL_HARNESS
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <limits.h>

#ifdef __cplusplus
extern "C" {
#endif
extern int      vh_tier;            /* 0 quick, 1 thorough */
extern uint64_t vh_seed;
extern uint64_t vh_case;
extern const char *vh_mode;

uint64_t vh_rnd(void);              /* thread-unsafe; per case deterministic */
uint64_t vh_rndn(uint64_t n);       /* [0,n) ; 0 if n==0 */
int64_t  vh_range(int64_t lo, int64_t hi); /* inclusive */
int      vh_chance(int pct);
typedef struct { uint64_t s; } vh_trng; /* splitmix per thread */
static inline uint64_t vh_tr(vh_trng *t) { uint64_t z=(t->s+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
uint64_t vh_hash(const void *p, size_t n, uint64_t h);
static inline uint64_t vh_hstr(const char *s, uint64_t h) { return vh_hash(s, strlen(s), h); }
static inline uint64_t vh_hu(uint64_t v, uint64_t h) { return vh_hash(&v, sizeof v, h); }

void vh_distinct(uint64_t h);       /* this case was non-trivial, identified by h */
void vh_count(const char *name, uint64_t n);   /* thread-safe */
void vh_max(const char *name, uint64_t v);
void vh_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
void vh_viol(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3)));  /* record, continue; thread-safe */
void vh_fail(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3),noreturn)); /* record, end case */
void vh_known(const char *key,const char *fmt,...) __attribute__((format(printf,2,3))); /* a deviation that matches a recorded finding exactly: reported once per process, must be listed in known-findings.txt */
void vh_skip_case(void) __attribute__((noreturn));
void vh_inconclusive(const char *why);
void vh_log(const char *fmt, ...) __attribute__((format(printf,1,2)));     /* one line in the event log for the offline checker */
void vh_log_raw(const void *p, size_t n);
#define VH_CHECK(c, key, ...) do { if (!(c)) vh_fail(key, __VA_ARGS__); } while (0)
const char *vh_esc(const void *p, size_t n); /* printable rendering, static ring */
const char *vh_hexs(const void *p, size_t n);
uint64_t vh_now_us(void);           /* CLOCK_MONOTONIC */
char *vh_tmpdir(void);              /* per-process scratch dir (removed by the runner) */

typedef struct { const char *name; void (*fn)(void); void (*setup)(void); void (*teardown)(void); } vh_mode_t;
extern const vh_mode_t vh_modes[];   /* defined by the harness, NULL terminated */
#ifdef __cplusplus
}
#endif
#endif
