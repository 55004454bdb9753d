/* I02: event timers against a model, in virtual time (the clock only moves while the loop waits or a callback takes its time); a second mode
 * drives timers from other threads in real time. */
#include "vh.hpp"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_io.h>
#include <mstdlib/mstdlib_thread.h>
#include <sys/time.h>
#include <sys/epoll.h>
#include <poll.h>
#include <time.h>
#include <pthread.h>
#include <atomic>
#include <mutex>
static bool virt = false; static int64_t now_us = 0; static const int64_t MONO = 5000LL * 1000000, REAL = 1700000000LL * 1000000; static uint64_t waits = 0, jitter_pct = 0; static bool wait_inf = false;
extern "C" {
int __real_clock_gettime(clockid_t c, struct timespec *ts); int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!virt) return __real_clock_gettime(c, ts); int64_t t = now_us + (c == CLOCK_REALTIME ? REAL : MONO); ts->tv_sec = t / 1000000; ts->tv_nsec = t % 1000000 * 1000; return 0; }
int __real_gettimeofday(struct timeval *tv, void *z); int __wrap_gettimeofday(struct timeval *tv, void *z) { if (!virt) return __real_gettimeofday(tv, z); int64_t t = now_us + REAL; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
static void advance(int timeout) { waits++; if (timeout < 0) { wait_inf = true; now_us += 1000000; return; } int64_t d = (int64_t)timeout * 1000; if (vh_chance(jitter_pct)) d += (int64_t)vh_rndn(vh_chance(20) ? 60000 : 1500); else if (d && vh_chance(20)) d -= (int64_t)vh_rndn((uint64_t)d); now_us += d; }
int __real_epoll_wait(int fd, struct epoll_event *e, int n, int timeout); int __wrap_epoll_wait(int fd, struct epoll_event *e, int n, int timeout) { if (!virt) return __real_epoll_wait(fd, e, n, timeout); int r = __real_epoll_wait(fd, e, n, 0); if (r == 0) advance(timeout); return r; }
int __real_poll(struct pollfd *f, nfds_t n, int timeout); int __wrap_poll(struct pollfd *f, nfds_t n, int timeout) { if (!virt) return __real_poll(f, n, timeout); int r = __real_poll(f, n, 0); if (r == 0) advance(timeout); return r; }
}
struct T { M_event_timer_t *t; int id; bool removed, started, autorm, mono, exec, restarted, stale; size_t fc, cnt; uint64_t iv; int64_t due, start, end; int cb, cb_next; uint64_t fired; };
struct Arg { T *t; int cb; };
static M_event_t *ev; static std::vector<T *> ts; static std::vector<Arg *> args; static int next_cb, depth; static uint64_t fires; static bool quiet; static S hist;
static int64_t ms(int64_t us) { return us / 1000; }
static const uint64_t IMAX = 30ULL * 86400 * 1000;
static Arg *mkarg(T *t, int cb) { Arg *a = new Arg{ t, cb }; args.push_back(a); return a; }
static bool m_sched(T *t) { if (t->iv == 0 && t->fc != 1) return false; if (!t->due || !t->mono) t->due = now_us + MONO; int64_t add = (int64_t)t->iv; if (t->start) { add = ms(t->start) - ms(now_us + REAL); if (add < 0) add = 0; if ((uint64_t)add > IMAX) return false; t->start = 0; } t->due += add * 1000; return true; }
static bool m_start(T *t, uint64_t iv) { if (iv > IMAX) return false; t->iv = iv; t->cnt = 0; t->stale = false; t->due = 0; bool ok = m_sched(t); t->started = ok; t->restarted = t->exec; return ok; }
static uint64_t m_rem(T *t) { if (!t->started) return 0; int64_t d = ms(t->due) - ms(now_us + MONO); return d < 0 ? 0 : (uint64_t)d; }
static void note(T *t, const char *what, long long x = 0) { hist += vh_fmt(" %d%s%s(%lld)@%lld", t->id, t->exec ? "*" : ".", what, x, (long long)now_us); if (hist.size() > 3000) hist.erase(0, hist.size() - 1500); }
static void cb(M_event_t *e, M_event_type_t type, M_io_t *io, void *arg);
static void mk(void)
{
	T *t = new T(); t->id = (int)ts.size(); ts.push_back(t); t->cb = ++next_cb;
	if (vh_chance(20)) { uint64_t iv = vh_rndn(40); bool ar = vh_chance(50); t->fc = 1; t->autorm = ar; t->t = M_event_timer_oneshot(ev, iv, ar ? M_TRUE : M_FALSE, cb, mkarg(t, t->cb)); VH_CHECK(t->t, "oneshot", "not created"); m_start(t, iv); note(t, "oneshot", (long long)iv); return; }
	t->t = M_event_timer_add(ev, cb, mkarg(t, t->cb)); VH_CHECK(t->t, "add", "not created"); VH_CHECK(!M_event_timer_get_status(t->t), "add:state", "started without being asked to");
}
static uint64_t iv(void) { return vh_chance(5) ? 0 : vh_chance(3) ? IMAX + 1 : vh_chance(70) ? 1 + vh_rndn(30) : 1 + vh_rndn(300); }
static bool ended(T *t) { return t->end && ms(t->end) <= ms(now_us + REAL); }
static bool is_due(T *t) { return !t->removed && t->started && !t->exec && ms(t->due) <= ms(now_us + MONO); }
static void act(T *t)
{
	if (t->removed) return; if (is_due(t) && ended(t)) { /* the loop may have stopped it by now */ if (t->autorm) return; if (!M_event_timer_get_status(t->t)) t->started = false; } size_t k = vh_rndn(14); M_timeval_t tv; 
	switch (k) {
		case 0: case 1: case 2: { uint64_t i = iv(); note(t, "start", (long long)i); bool r = M_event_timer_start(t->t, i) == M_TRUE; bool m = m_start(t, i); VH_CHECK(r == m, "start", "start(%llu) gives %d,%s", (unsigned long long)i, r, hist.c_str()); break; }
		case 3: note(t, "stop"); VH_CHECK(M_event_timer_stop(t->t), "stop", "refused"); t->started = false; if (t->autorm) t->removed = true; break;
		case 4: { uint64_t i = vh_chance(40) ? 0 : iv(); note(t, "reset", (long long)i); bool r = M_event_timer_reset(t->t, i) == M_TRUE; uint64_t u = i ? i : t->iv; bool m; if (u > IMAX) { t->started = false; m = false; } else m = m_start(t, u); VH_CHECK(r == m, "reset", "reset(%llu) gives %d,%s", (unsigned long long)i, r, hist.c_str()); break; }
		case 5: case 6: { uint64_t i = iv(); note(t, "adjust", (long long)i); bool r = M_event_timer_adjust(t->t, i) == M_TRUE, m; if (!i || i > IMAX || t->mono) m = false; else if (t->started && m_rem(t) > i) m = m_start(t, i); else { t->iv = i; m = true; } VH_CHECK(r == m, "adjust", "adjust(%llu) gives %d,%s", (unsigned long long)i, r, hist.c_str()); break; }
		case 7: { if (vh_chance(25)) { bool r = M_event_timer_set_starttv(t->t, NULL); VH_CHECK(r == (t->start != 0), "set_start", "%d", r); t->start = 0; break; } int64_t at = now_us + REAL + (int64_t)vh_rndn(120000) - 20000; if (vh_chance(3)) at += 40LL * 86400 * 1000000; tv.tv_sec = at / 1000000; tv.tv_usec = at % 1000000; note(t, "starttv", ms(at - REAL)); VH_CHECK(M_event_timer_set_starttv(t->t, &tv), "set_start", "refused"); t->start = at; break; }
		case 8: { if (vh_chance(40)) { bool r = M_event_timer_set_endtv(t->t, NULL); VH_CHECK(r == (t->end != 0), "set_end", "%d", r); t->end = 0; break; } int64_t at = now_us + REAL + (int64_t)vh_rndn(300000) - 10000; tv.tv_sec = at / 1000000; tv.tv_usec = at % 1000000; note(t, "endtv", ms(at - REAL)); VH_CHECK(M_event_timer_set_endtv(t->t, &tv), "set_end", "refused"); t->end = at; break; }
		case 9: t->fc = vh_chance(30) ? 0 : vh_chance(40) ? 1 : 1 + vh_rndn(6); note(t, "count", (long long)t->fc); t->stale = !t->exec && t->started && t->fc && t->cnt >= t->fc; /* fires once more */ VH_CHECK(M_event_timer_set_firecount(t->t, t->fc), "set_count", "refused"); break;
		case 10: t->autorm = vh_chance(30); note(t, "auto", t->autorm); VH_CHECK(M_event_timer_set_autoremove(t->t, t->autorm ? M_TRUE : M_FALSE), "set_auto", "refused"); break;
		case 11: t->mono = vh_chance(50); note(t, "mono", t->mono); VH_CHECK(M_event_timer_set_mode(t->t, t->mono ? M_EVENT_TIMER_MODE_MONOTONIC : M_EVENT_TIMER_MODE_RELATIVE), "set_mode", "refused"); break;
		case 12: { int c = ++next_cb; note(t, "edit"); VH_CHECK(M_event_timer_edit_cb(t->t, cb, mkarg(t, c)), "edit", "refused"); if (t->exec) t->cb_next = c; else t->cb = c; break; }
		default: if (vh_chance(25)) { note(t, "remove"); VH_CHECK(M_event_timer_remove(t->t), "remove", "refused"); t->removed = true; t->started = false; return; } }
	if (t->removed) return;
	VH_CHECK((M_event_timer_get_status(t->t) == M_TRUE) == t->started, "status", "timer %d is %s,%s", t->id, t->started ? "stopped" : "running", hist.c_str()); VH_CHECK(M_event_timer_get_interval_ms(t->t) == t->iv, "interval", "%llu for %llu", (unsigned long long)M_event_timer_get_interval_ms(t->t), (unsigned long long)t->iv);
	if (!t->exec || t->restarted) { uint64_t rem = M_event_timer_get_remaining_ms(t->t); VH_CHECK(rem == m_rem(t), "remaining", "timer %d: %llu ms remaining, %llu expected,%s", t->id, (unsigned long long)rem, (unsigned long long)m_rem(t), hist.c_str()); }
}
static void cb(M_event_t *e, M_event_type_t type, M_io_t *io, void *arg)
{
	Arg *a = (Arg *)arg; T *t = a->t; note(t, "FIRE", (long long)t->cnt); vh_count("fired", 1); fires++; t->fired++;
	VH_CHECK(e == ev && type == M_EVENT_TYPE_OTHER && !io, "args", "wrong callback arguments"); VH_CHECK(!t->removed, "fire:removed", "timer %d fired after its removal,%s", t->id, hist.c_str()); VH_CHECK(t->started, "fire:stopped", "timer %d fired while stopped,%s", t->id, hist.c_str());
	VH_CHECK(ms(t->due) <= ms(now_us + MONO), "fire:early", "timer %d fired %lld ms early,%s", t->id, (long long)(ms(t->due) - ms(now_us + MONO)), hist.c_str()); VH_CHECK(!t->fc || t->cnt < t->fc || t->stale, "fire:count", "timer %d fired %zu times of %zu,%s", t->id, t->cnt + 1, t->fc, hist.c_str()); VH_CHECK(!ended(t), "fire:end", "timer %d fired after its end,%s", t->id, hist.c_str()); VH_CHECK(a->cb == t->cb, "fire:callback", "timer %d fired callback %d for %d", t->id, a->cb, t->cb);
	for (auto o : ts) if (o != t && !o->removed && o->started && !o->exec && ms(o->due) < ms(t->due) && !(ended(o))) VH_CHECK(false, "fire:order", "timer %d due at %lld fired before timer %d due at %lld,%s", t->id, (long long)t->due, o->id, (long long)o->due, hist.c_str());
	t->cnt++; t->exec = true; t->restarted = false;
	if (!quiet) { if (vh_chance(30)) now_us += (int64_t)vh_rndn(vh_chance(20) ? 50000 : 3000); int n = vh_chance(40) ? (int)vh_rndn(4) : 0; for (int i = 0; i < n; i++) { act(vh_chance(60) ? t : ts[vh_rndn(ts.size())]); } if (ts.size() < 14 && vh_chance(5)) mk(); if (vh_chance(30)) now_us += (int64_t)vh_rndn(3000); }
	t->exec = false; if (t->cb_next) { t->cb = t->cb_next; t->cb_next = 0; } if (t->fc && t->cnt >= t->fc) t->started = false; bool rm = t->removed; if (t->started && !t->restarted && !rm && !m_sched(t)) t->started = false; if (!t->started && t->autorm) t->removed = true;
}
/* a timer due past its end was stopped by the loop */
static void settle(void) { for (auto t : ts) if (is_due(t) && ended(t)) { t->started = false; if (t->autorm) t->removed = true; note(t, "ended"); vh_count("ended", 1); } }
static void model(void)
{
	virt = true; now_us = (int64_t)vh_rndn(5000000); jitter_pct = vh_chance(50) ? 0 : 30; ts.clear(); next_cb = 0; hist = ""; fires = 0; waits = 0; quiet = false; ev = M_event_create(vh_chance(50) ? M_EVENT_FLAG_NON_SCALABLE : M_EVENT_FLAG_NONE); VH_CHECK(ev, "create", "no event loop");
	int n = 1 + (int)vh_rndn(7); for (int i = 0; i < n; i++) mk(); int rounds = 3 + (int)vh_rndn(20);
	for (int r = 0; r < rounds; r++) {
		int k = (int)vh_rndn(6); for (int i = 0; i < k; i++) act(ts[vh_rndn(ts.size())]);
		quiet = false; uint64_t to = vh_chance(20) ? 0 : vh_rndn(150); int64_t t0 = now_us; wait_inf = false; M_event_err_t e = M_event_loop(ev, to); VH_CHECK(e == M_EVENT_ERR_TIMEOUT, "loop", "loop ended with %d", (int)e); VH_CHECK(!wait_inf, "loop:forever", "the loop waits forever with a time-out of %llu ms", (unsigned long long)to); VH_CHECK(ms(now_us) - ms(t0) >= (int64_t)to, "loop:early", "loop returned after %lld of %llu ms", (long long)(now_us - t0), (unsigned long long)to);
		/* everything due has to fire now */
		quiet = true; uint64_t sj = jitter_pct; jitter_pct = 0; for (int i = 0; i < 4000; i++) { bool any = false; for (auto t : ts) any |= is_due(t) && !ended(t); if (!any && i) break; int64_t c = now_us; M_event_loop(ev, 0); VH_CHECK(now_us == c, "loop:busy", "clock moved"); } jitter_pct = sj;
		for (auto t : ts) VH_CHECK(!(is_due(t) && !ended(t)), "missed", "timer %d due at %lld has not fired by %lld,%s", t->id, (long long)t->due, (long long)(now_us + MONO), hist.c_str()); settle();
		for (auto t : ts) if (!t->removed) { VH_CHECK((M_event_timer_get_status(t->t) == M_TRUE) == t->started, "status", "timer %d is %s after the loop,%s", t->id, t->started ? "stopped" : "running", hist.c_str()); VH_CHECK(M_event_timer_get_remaining_ms(t->t) == m_rem(t), "remaining", "timer %d: %llu ms remaining, %llu expected,%s", t->id, (unsigned long long)M_event_timer_get_remaining_ms(t->t), (unsigned long long)m_rem(t), hist.c_str()); }
	}
	VH_CHECK(M_event_get_statistic(ev, M_EVENT_STATISTIC_TIMER_COUNT) >= fires, "statistic", "%llu events counted, %llu fired", (unsigned long long)M_event_get_statistic(ev, M_EVENT_STATISTIC_TIMER_COUNT), (unsigned long long)fires);
	VH_CHECK(waits < 4000 + 40 * fires, "busy", "%llu waits for %llu events", (unsigned long long)waits, (unsigned long long)fires);
	M_event_destroy(ev); ev = NULL; for (auto t : ts) delete t; ts.clear(); for (auto a : args) delete a; args.clear(); vh_count("waits", waits); vh_distinct(vh_hash(hist.data(), hist.size(), 0)); if (vh_chance(1)) vh_sample("%s", hist.substr(0, 200).c_str()); virt = false;
}
static void mteardown(void) { virt = false; if (ev) M_event_destroy(ev); ev = NULL; for (auto t : ts) delete t; ts.clear(); for (auto a : args) delete a; args.clear(); }
/* ---- other threads starting, stopping and removing timers of a running loop ---- */
struct X { M_event_timer_t *t; std::atomic<M_event_t *> ev{nullptr}; std::atomic<uint64_t> fired{0}; std::atomic<int> stopped{0}, in{0}; std::atomic<int64_t> due{0}; std::atomic<int> late{0}; };
static void bar(M_event_t *, M_event_type_t, M_io_t *, void *arg) { ((std::atomic<int> *)arg)->store(1); }
static bool xpool;
/* a callback already on its way may still run: wait until the loop has processed a task queued now */
static bool settled(X *x) { M_event_t *e = xpool ? x->ev.load() : ev; if (!e) return false; auto *f = new std::atomic<int>(0); M_event_queue_task(e, bar, f); int64_t t0 = (int64_t)vh_now_us(); while (!f->load()) { usleep(100); if ((int64_t)vh_now_us() - t0 > 30000000) { vh_viol("thread:task", "queued task has not run"); return false; } } delete f; return true; }
static void xcb(M_event_t *e, M_event_type_t, M_io_t *, void *arg) { X *x = (X *)arg; x->ev = e; x->in++; if (x->stopped.load()) x->late++; if ((int64_t)vh_now_us() / 1000 + 1 < x->due.load() / 1000) vh_viol("thread:early", "timer fired %lld us early", (long long)(x->due.load() - (int64_t)vh_now_us())); x->fired++; x->in--; }
static std::atomic<uint64_t> tstop, tfire; static uint64_t tseed; static std::atomic<int> tid;
static std::mutex kmu; static std::vector<X *> keep;
static void *xthread(void *)
{
	vh_trng r; r.s = tseed ^ (uint64_t)(++tid) * 0x9E3779B97F4A7C15ULL; auto rn = [&](uint64_t n) { return vh_tr(&r) % n; };
	for (int i = 0; i < 12; i++) {
		X *x = new X(); uint64_t iv = 1 + rn(8); size_t fc = rn(2) ? 1 : 1 + rn(3); x->t = M_event_timer_add(ev, xcb, x); M_event_timer_set_firecount(x->t, fc); x->due = (int64_t)vh_now_us() + (int64_t)iv * 1000; M_event_timer_start(x->t, iv);
		if (rn(3)) { /* has to fire fc times */ int64_t t0 = (int64_t)vh_now_us(); while (x->fired < fc && (int64_t)vh_now_us() - t0 < 20000000) usleep(300); if (x->fired != fc) vh_viol("thread:missed", "timer of %llu ms fired %llu of %zu times", (unsigned long long)iv, (unsigned long long)x->fired.load(), fc); usleep((unsigned)rn(3000)); if (x->fired > fc) vh_viol("thread:count", "timer fired %llu of %zu times", (unsigned long long)x->fired.load(), fc); tfire += fc; }
		else usleep((unsigned)rn(9000));
		if (rn(2)) { M_event_timer_stop(x->t); bool ok = settled(x); uint64_t f = x->fired.load(); usleep((unsigned)rn(6000)); if (ok && x->fired.load() > f) vh_viol("thread:stopped", "timer fired after it was stopped"); tstop++; if (rn(2)) { x->due = (int64_t)vh_now_us() + (int64_t)iv * 1000; uint64_t b = x->fired.load(); M_event_timer_start(x->t, iv); int64_t t0 = (int64_t)vh_now_us(); while (x->fired < b + fc && (int64_t)vh_now_us() - t0 < 20000000) usleep(300); if (x->fired != b + fc) vh_viol("thread:missed", "restarted timer fired %llu of %zu times", (unsigned long long)(x->fired.load() - b), fc); } }
		M_event_timer_remove(x->t); bool ok = settled(x); uint64_t f = x->fired.load(); usleep((unsigned)rn(4000)); if (ok && x->fired.load() != f) vh_viol("thread:removed", "timer fired after it was removed"); { std::lock_guard<std::mutex> l(kmu); keep.push_back(x); }
	}
	return NULL;
}
static void *xloop(void *) { M_event_loop(ev, M_TIMEOUT_INF); return NULL; }
static void threads(void)
{
	virt = false; xpool = vh_chance(30); ev = xpool ? M_event_pool_create(3) : M_event_create(vh_chance(50) ? M_EVENT_FLAG_NON_SCALABLE : M_EVENT_FLAG_NONE); tseed = vh_rnd(); tid = 0; pthread_t l, t[4]; pthread_create(&l, NULL, xloop, NULL); int n = 1 + (int)vh_rndn(4); for (int i = 0; i < n; i++) pthread_create(&t[i], NULL, xthread, NULL); for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
	M_event_done(ev); pthread_join(l, NULL); M_event_destroy(ev); ev = NULL; for (auto x : keep) delete x; keep.clear(); vh_count("stops", tstop.exchange(0)); vh_count("completed", tfire.exchange(0)); vh_distinct(vh_hash(&tseed, sizeof tseed, 0));
}
const vh_mode_t vh_modes[] = { { "model", model, NULL, mteardown }, { "threads", threads, NULL, mteardown }, {} };
