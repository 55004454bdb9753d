/* Schedule perturbation for threaded harnesses: delays at every lock, unlock, wait, signal and thread start (link with
 * --wrap for CHAOS_WRAP), optional spurious wakeups (POSIX allows them), and a watchdog that reports a case in which no
 * thread made progress. All of it is harness-side; the library's own code runs unmodified. */
#ifndef CHAOS_HPP
#define CHAOS_HPP
#include "vh.hpp"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <atomic>
static std::atomic<int> ch_pct{0};        /* chance in 1000 of a delay at a sync operation */
static std::atomic<int> ch_maxus{50};     /* longest delay */
static std::atomic<int> ch_spurious{0};   /* chance in 1000 of a spurious wakeup */
static std::atomic<uint64_t> ch_epoch{1}, ch_ord{0}, ch_n_delay{0}, ch_n_spur{0};
static std::atomic<uint64_t> ch_progress{0};
static thread_local uint64_t ch_te = 0; static thread_local vh_trng ch_t;
static inline vh_trng *ch_rng() { uint64_t e = ch_epoch.load(std::memory_order_relaxed); if (ch_te != e) { ch_te = e; ch_t.s = vh_seed * 0x9E3779B97F4A7C15ULL ^ (e << 20) ^ ch_ord.fetch_add(1, std::memory_order_relaxed) * 0xD1B54A32D192ED03ULL; } return &ch_t; }
static inline uint64_t ch_rnd(uint64_t n) { return n ? vh_tr(ch_rng()) % n : 0; }
static void ch_sleep_us(uint64_t us) { struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; nanosleep(&ts, NULL); }
static void ch_point() { int p = ch_pct.load(std::memory_order_relaxed); if (!p) return; if ((int)ch_rnd(1000) >= p) return; ch_n_delay.fetch_add(1, std::memory_order_relaxed);
	switch (ch_rnd(4)) { case 0: sched_yield(); break; case 1: for (volatile int i = 0; i < (int)(50 + ch_rnd(400)); i = i + 1) ; break; default: ch_sleep_us(1 + ch_rnd((uint64_t)ch_maxus.load(std::memory_order_relaxed))); } }
static inline void ch_tick() { ch_progress.fetch_add(1, std::memory_order_relaxed); }
/* new case: choose how rough this schedule is */
static void ch_case(int level = -1) { ch_epoch.store(vh_case + 2); ch_ord.store(0); ch_te = 0; ch_progress.fetch_add(1);
	int l = level >= 0 ? level : (int)vh_rndn(4); static const int P[4] = { 0, 30, 150, 400 }; static const int U[4] = { 1, 20, 200, 1000 }; ch_pct.store(P[l]); ch_maxus.store(U[vh_rndn(4)]); ch_spurious.store(0); }
static void ch_flush() { vh_count("delays_injected", ch_n_delay.exchange(0)); vh_count("spurious_wakeups", ch_n_spur.exchange(0)); }
static int ch_wd_secs = 25;
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) __attribute__((weak));
static void *ch_wd(void *) { uint64_t last = 0, lc = 0, t0 = vh_now_us(); while (1) { struct timespec ts = { 0, 200000000 }; nanosleep(&ts, NULL); uint64_t p = ch_progress.load(); if (p != last || lc != vh_case) { last = p; lc = vh_case; t0 = vh_now_us(); }
	if (vh_now_us() - t0 > (uint64_t)ch_wd_secs * 1000000) { char k[64]; snprintf(k, sizeof k, "stuck:%s", vh_mode); vh_viol(k, "no thread made progress for %d s (lost wakeup or deadlock)", ch_wd_secs); _exit(98); } } return NULL; }
static void ch_watch() { pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); (__real_pthread_create ? __real_pthread_create : pthread_create)(&t, &a, ch_wd, NULL); pthread_attr_destroy(&a); }
#ifdef CHAOS_WRAP
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *); int __real_pthread_cond_broadcast(pthread_cond_t *); int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { ch_point(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); int e = errno; ch_point(); errno = e; return r; }
static int ch_spur(pthread_mutex_t *m) { int s = ch_spurious.load(std::memory_order_relaxed); if (!s || (int)ch_rnd(1000) >= s) return 0; ch_n_spur.fetch_add(1, std::memory_order_relaxed); __real_pthread_mutex_unlock(m); if (ch_rnd(2)) sched_yield(); else ch_sleep_us(1 + ch_rnd(200)); __real_pthread_mutex_lock(m); return 1; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (ch_spur(m)) return 0; return __real_pthread_cond_wait(c, m); }
static int (*ch_timedwait_hook)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *) = NULL;
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (ch_timedwait_hook) return ch_timedwait_hook(c, m, t); if (ch_spur(m)) return 0; return __real_pthread_cond_timedwait(c, m, t); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { ch_point(); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { ch_point(); return __real_pthread_cond_broadcast(c); }
struct ch_start { void *(*f)(void *); void *a; };
static void *ch_tramp(void *p) { ch_start s = *(ch_start *)p; free(p); ch_point(); void *r = s.f(s.a); ch_point(); return r; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) { ch_start *s = (ch_start *)malloc(sizeof *s); s->f = f; s->a = a; int r = __real_pthread_create(t, at, ch_tramp, s); if (r) free(s); ch_point(); return r; }
}
#endif
#endif
