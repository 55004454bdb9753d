/* T02: thread pools under injected delays. */
#define CHAOS_WRAP
#include "chaos.hpp"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_thread.h>
static void init() { M_thread_init(M_THREAD_MODEL_NATIVE); ch_watch(); }
static void fini() { ch_pct = 0; ch_flush(); M_library_cleanup(); }
struct Task { std::atomic<int> runs{0}, fins{0}; int us; int parent; struct P *p; std::atomic<int> state{0}; void (*child)(struct P *, int); };
struct Par { M_threadpool_parent_t *h; std::vector<Task *> t; std::atomic<size_t> given{0}; };
struct P { M_threadpool_t *pool; size_t maxt; std::atomic<int> running{0}, maxrun{0}; std::atomic<uint64_t> order{0}; std::vector<Par *> par; std::atomic<bool> blocked{false}; std::atomic<uint64_t> n_run{0}; };
static void work(int us) { if (us > 0) { if (us < 20) sched_yield(); else ch_sleep_us((uint64_t)us); } }
static void task(void *a) { Task *t = (Task *)a; P *p = t->p; int n = p->running.fetch_add(1) + 1; int m = p->maxrun.load(); while (n > m && !p->maxrun.compare_exchange_weak(m, n)) ; if ((size_t)n > p->maxt) vh_viol("pool:over", "%d tasks run at once in a pool of %zu", n, p->maxt);
	p->order.store(vh_hu((uint64_t)(uintptr_t)t->us + (uint64_t)t->parent * 100000, p->order.load(std::memory_order_relaxed)), std::memory_order_relaxed);
	if (t->runs.fetch_add(1)) vh_viol("task:twice", "a task ran more than once"); work(t->us); t->state = 1; p->n_run++; ch_tick(); p->running.fetch_sub(1); }
static void fin(void *a) { Task *t = (Task *)a; if (t->state != 1) vh_viol("task:finish", "the finished callback came before the task's end"); if (t->fins.fetch_add(1)) vh_viol("task:finish", "the finished callback came twice"); t->state = 2; }
struct User { P *p; size_t par; uint64_t seed; bool notify; int rounds; };
static void *user(void *a) {
	User *u = (User *)a; P *p = u->p; Par *pr = p->par[u->par]; vh_trng r; r.s = u->seed; size_t at = 0; size_t total = pr->t.size();
	for (int i = 0; i < u->rounds; i++) { size_t left = total - at; size_t n = i == u->rounds - 1 ? left : vh_tr(&r) % (left + 1); std::vector<void *> args; for (size_t k = 0; k < n; k++) args.push_back(pr->t[at + k]); 
		size_t done = 0; while (done < n) { size_t c = 1 + vh_tr(&r) % (n - done); if (u->notify) M_threadpool_dispatch_notify(pr->h, task, args.data() + done, c, fin); else M_threadpool_dispatch(pr->h, task, args.data() + done, c); done += c; ch_tick(); if (vh_tr(&r) % 3 == 0) work((int)(vh_tr(&r) % 2000)); if (vh_tr(&r) % 8 == 0) { M_threadpool_wait_available_thread(pr->h); } if (M_threadpool_num_threads(p->pool) > p->maxt) vh_viol("pool:threads", "more threads than the maximum"); (void)M_threadpool_available_slots(p->pool); }
		at += n; if (vh_tr(&r) % 2 || i == u->rounds - 1) { M_threadpool_parent_wait(pr->h); ch_tick(); for (size_t k = 0; k < at; k++) { Task *t = pr->t[k]; if (t->runs != 1 || t->state.load() != (u->notify ? 2 : 1)) { vh_viol("wait:early", "M_threadpool_parent_wait returned with task %zu of %zu at %d runs, state %d", k, at, t->runs.load(), t->state.load()); break; } } vh_count("waits", 1); }
		if (vh_tr(&r) % 4 == 0) work((int)(vh_tr(&r) % 3000)); }
	return NULL; }
static void run() {
	ch_case(); if (vh_chance(40)) ch_spurious = 150; P p; size_t mint = (size_t)vh_range(0, 3), maxt = (size_t)vh_range(1, 5); if (maxt < mint && vh_chance(50)) maxt = mint; p.maxt = maxt < mint ? mint : maxt; static const M_uint64 IDLE[] = { 0, 0, 1, 1, 2, 5, M_UINT64_MAX }; M_uint64 idle = IDLE[vh_rndn(7)]; static const size_t QS[] = { 0, 0, 1, 5, 8, SIZE_MAX }; size_t qs = QS[vh_rndn(6)];
	p.pool = M_threadpool_create(mint, maxt, idle, qs); VH_CHECK(p.pool, "create", "no pool"); if (M_threadpool_num_threads(p.pool) != mint) vh_viol("pool:min", "a new pool has %zu threads, asked for %zu", M_threadpool_num_threads(p.pool), mint);
	size_t np = (size_t)vh_range(1, 3); std::vector<User> us(np); std::vector<M_threadid_t> ids; uint64_t total = 0; bool heavy = vh_chance(15);
	for (size_t i = 0; i < np; i++) { Par *pr = new Par; pr->h = M_threadpool_parent_create(p.pool); int n = (int)vh_range(1, heavy ? 80 : 15); bool sl = vh_chance(50); for (int k = 0; k < n; k++) { Task *t = new Task; t->p = &p; t->us = sl ? (int)vh_rndn(1500) : 0; t->parent = (int)i; pr->t.push_back(t); } total += (uint64_t)n; p.par.push_back(pr); us[i] = User{ &p, i, vh_rnd(), (bool)vh_chance(50), (int)vh_range(1, 4) }; }
	M_thread_attr_t *at = M_thread_attr_create(); M_thread_attr_set_create_joinable(at, M_TRUE); M_thread_attr_set_stack_size(at, 1 << 20); for (size_t i = 0; i < np; i++) ids.push_back(M_thread_create(at, user, &us[i])); M_thread_attr_destroy(at);
	for (M_threadid_t t : ids) M_thread_join(t, NULL);
	if (idle != M_UINT64_MAX && vh_chance(50)) { uint64_t t0 = vh_now_us(); while (M_threadpool_num_threads(p.pool) > mint) { if (vh_now_us() - t0 > 10000000) { vh_viol("pool:idle", "%zu threads stay 10 s after the idle time of %llu ms, minimum %zu", M_threadpool_num_threads(p.pool), (unsigned long long)idle, mint); break; } ch_sleep_us(200); } if (M_threadpool_num_threads(p.pool) < mint) vh_viol("pool:min", "fewer threads than the minimum"); vh_count("shrunk", 1); }
	for (Par *pr : p.par) { if (!M_threadpool_parent_destroy(pr->h)) vh_viol("parent:destroy", "a parent without tasks can't be destroyed"); }
	if (M_threadpool_available_slots(p.pool) == 0) vh_viol("pool:slots", "no slots in an empty queue");
	M_threadpool_destroy(p.pool); if (p.running.load()) vh_viol("pool:destroy", "tasks run after the pool is gone");
	for (Par *pr : p.par) { for (Task *t : pr->t) { if (t->runs != 1) vh_viol("task:runs", "a dispatched task ran %d times", t->runs.load()); delete t; } delete pr; }
	vh_count("tasks", total); vh_count("pools", 1); if ((size_t)p.maxrun.load() == p.maxt) vh_count("full_pools", 1); vh_distinct(p.order.load()); ch_flush(); }
/* a parent's wait must not depend on another parent's tasks */
static std::atomic<int> gate;
static void blocker(void *) { gate++; while (gate.load() < 1000) { ch_sleep_us(50); } }
static void quick(void *a) { ((std::atomic<int> *)a)->fetch_add(1); ch_tick(); }
static void run_other() {
	ch_case(); gate = 0; size_t n = (size_t)vh_range(2, 4); M_threadpool_t *pool = M_threadpool_create(vh_chance(50) ? n : 0, n, vh_chance(50) ? 0 : 1000, SIZE_MAX); M_threadpool_parent_t *a = M_threadpool_parent_create(pool), *b = M_threadpool_parent_create(pool); std::atomic<int> cnt{0};
	size_t nb = (size_t)vh_range(1, (int64_t)n - 1); M_threadpool_dispatch(a, blocker, NULL, nb); int q = (int)vh_range(1, 20); for (int i = 0; i < q; i++) { void *x = &cnt; M_threadpool_dispatch(b, quick, &x, 1); }
	M_threadpool_parent_wait(b); if (cnt.load() != q) vh_viol("wait:early", "%d of %d tasks done when the wait ended", cnt.load(), q); if (M_threadpool_parent_destroy(a)) { vh_viol("parent:destroy", "a parent with running tasks was destroyed"); _exit(98); }
	gate = 1000; if (vh_chance(50)) { M_threadpool_parent_wait(a); } else { while (!M_threadpool_parent_destroy(a)) ch_sleep_us(50); a = NULL; }
	if (a && !M_threadpool_parent_destroy(a)) vh_viol("parent:destroy", "can't destroy a parent that has nothing left"); M_threadpool_parent_destroy(b); M_threadpool_destroy(pool); vh_count("independent_waits", 1); vh_distinct(vh_case); ch_flush(); }
/* the last idle thread gives up while new work arrives */
static void run_idle() {
	ch_case(); ch_pct = 300; ch_maxus = (int)vh_range(20, 800); size_t maxt = (size_t)vh_range(1, 2); M_uint64 idle = (M_uint64)vh_range(0, 2); M_threadpool_t *pool = M_threadpool_create(0, maxt, idle, 0); M_threadpool_parent_t *a = M_threadpool_parent_create(pool); std::atomic<int> cnt{0}; int n = (int)vh_range(5, 25);
	for (int i = 0; i < n; i++) { void *x = &cnt; M_threadpool_dispatch(a, quick, &x, 1); if (vh_chance(70)) M_threadpool_parent_wait(a); uint64_t us = idle * 1000 + (uint64_t)vh_rndn(300); if (us > 150) us -= 150; ch_sleep_us(us); }
	M_threadpool_parent_wait(a); if (cnt.load() != n) vh_viol("task:runs", "%d tasks dispatched, %d ran", n, cnt.load()); M_threadpool_parent_destroy(a); M_threadpool_destroy(pool); vh_count("idle_dispatches", (uint64_t)n); vh_distinct(vh_case); ch_flush(); }
const vh_mode_t vh_modes[] = { {"pool",run,init,fini},{"other",run_other,init,fini},{"idle",run_idle,init,fini},{0} };
