/* T03: thread pipelines under injected delays. */
#define CHAOS_WRAP
#include "chaos.hpp"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_thread.h>
static void init() { M_thread_init(M_THREAD_MODEL_NATIVE); ch_watch(); }
static void fini() { ch_pct = 0; ch_flush(); M_library_cleanup(); }
#define MAXS 5
struct PL;
struct M_thread_pipeline_task { PL *p; int id, fail_at, us[MAXS]; std::atomic<int> at{0}, in{0}, fin{0}; int result = 0; bool accepted = false; };
struct PL { M_thread_pipeline_t *h; int steps; bool noabort; std::vector<M_thread_pipeline_task *> t; std::atomic<int> last[MAXS], busy[MAXS], left[MAXS]; std::atomic<int> finished{0}, first_fail{-1}, firstdestroy{0}; std::atomic<uint64_t> order{0}; int last_success = -1; std::atomic<bool> failed{false}; };
static void zz(int us) { if (us > 0) { if (us < 20) sched_yield(); else ch_sleep_us((uint64_t)us); } }
static M_bool step(M_thread_pipeline_task_t *t, int s) {
	PL *p = t->p; if (t->in.fetch_add(1)) vh_viol("task:parallel", "a task is in two steps at once"); if (p->busy[s].fetch_add(1)) vh_viol("step:parallel", "step %d runs two tasks at once", s);
	if (t->at.load() != s) vh_viol("task:steps", "task %d is at step %d, step %d runs", t->id, t->at.load(), s); if (t->fin.load()) vh_viol("task:after", "step %d runs on a finished task", s);
	if (p->last[s].load() >= t->id) vh_viol("step:order", "step %d processes task %d after task %d", s, t->id, p->last[s].load()); p->last[s] = t->id;
	p->order.store(vh_hu((uint64_t)(t->id * 8 + s), p->order.load(std::memory_order_relaxed)), std::memory_order_relaxed);
	zz(t->us[s]); ch_tick(); t->at = s + 1; M_bool r = t->fail_at == s ? M_FALSE : M_TRUE; if (!r) { p->failed = true; } p->busy[s].fetch_sub(1); t->in.fetch_sub(1); return r; }
template <int N> static M_bool stp(M_thread_pipeline_task_t *t) { return step(t, N); }
static const M_thread_pipeline_task_cb CB[MAXS] = { stp<0>, stp<1>, stp<2>, stp<3>, stp<4> };
static void finish(M_thread_pipeline_task_t *t, M_thread_pipeline_result_t r) {
	PL *p = t->p; if (t->fin.fetch_add(1)) { vh_viol("task:finish", "task %d is finished twice", t->id); return; } if (t->in.load()) vh_viol("task:finish", "task %d is finished inside a step", t->id); t->result = r; p->finished++; ch_tick();
	bool own = t->fail_at >= 0 && t->at.load() == t->fail_at + 1;
	switch (r) { case M_THREAD_PIPELINE_RESULT_SUCCESS: if (own || t->at.load() != p->steps) vh_viol("result:success", "task %d is reported successful after %d of %d steps%s", t->id, t->at.load(), p->steps, own ? ", the last of which failed" : ""); if (p->last_success > t->id) vh_viol("finish:order", "task %d completes after task %d", t->id, p->last_success); p->last_success = t->id; break;
	case M_THREAD_PIPELINE_RESULT_FAIL: if (!own) vh_viol("result:fail", "task %d, none of whose steps failed, is reported failed", t->id); break;
	case M_THREAD_PIPELINE_RESULT_ABORT: if (own) vh_viol("result:abort", "task %d failed in step %d of %d and is reported aborted", t->id, t->fail_at, p->steps); if (p->noabort ? !p->firstdestroy.load() : !(p->firstdestroy.load() || p->failed.load())) vh_viol("result:abort", "task %d is aborted without reason", t->id); break;
	default: vh_viol("result", "result %d", (int)r); } }
static void run() {
	ch_case(); if (vh_chance(40)) ch_spurious = 150; PL p; p.steps = (int)vh_range(1, MAXS); p.noabort = vh_chance(30); for (int i = 0; i < MAXS; i++) { p.last[i] = -1; p.busy[i] = 0; }
	M_thread_pipeline_steps_t *st = M_thread_pipeline_steps_create(); for (int i = 0; i < p.steps; i++) M_thread_pipeline_steps_insert(st, CB[i]); p.h = M_thread_pipeline_create(st, p.noabort ? M_THREAD_PIPELINE_FLAG_NOABORT : M_THREAD_PIPELINE_FLAG_NONE, finish); VH_CHECK(p.h, "create", "no pipeline"); M_thread_pipeline_steps_destroy(st);
	int n = (int)vh_range(1, 20), fails = vh_chance(60) ? (int)vh_range(1, 2) : 0; int slow = (int)vh_rndn(3); bool wait = vh_chance(70); int accepted = 0, refused = 0;
	for (int i = 0; i < n; i++) { M_thread_pipeline_task *t = new M_thread_pipeline_task; t->p = &p; t->id = i; t->fail_at = -1; for (int s = 0; s < MAXS; s++) t->us[s] = slow == 0 ? 0 : (int)vh_rndn(slow == 1 ? 200 : 1500) * (int)vh_rndn(2); p.t.push_back(t); }
	for (int f = 0; f < fails; f++) { p.t[vh_rndn((uint64_t)n)]->fail_at = (int)vh_rndn((uint64_t)p.steps); }
	bool down = false;
	for (int i = 0; i < n; i++) { M_bool ok = M_thread_pipeline_task_insert(p.h, p.t[(size_t)i]); if (ok) { p.t[(size_t)i]->accepted = true; accepted++; if (down) vh_viol("insert:down", "a task was accepted after the pipeline had failed"); } else { refused++; down = true; if (p.noabort || !p.failed.load()) vh_viol("insert:refused", "a task was refused by a working pipeline"); }
		if (!M_thread_pipeline_status(p.h)) { down = true; if (!p.failed.load() || p.noabort) vh_viol("status", "the pipeline is down though no step failed"); }
		if (vh_chance(20)) { size_t lim = (size_t)vh_rndn(4); M_thread_pipeline_wait(p.h, lim); if (M_thread_pipeline_queue_count(p.h) > lim) vh_viol("wait:early", "the wait ended above its limit"); vh_count("waits", 1); } zz((int)vh_rndn(slow == 2 ? 500 : 30)); }
	if (wait) { M_thread_pipeline_wait(p.h, 0); if (p.finished.load() != accepted) vh_viol("wait:early", "%d of %d tasks finished when the wait ended", p.finished.load(), accepted); if (M_thread_pipeline_queue_count(p.h) != 0) vh_viol("count", "tasks are counted after the last one finished"); M_bool s = M_thread_pipeline_status(p.h); bool anyfail = false; for (auto t : p.t) if (t->result == M_THREAD_PIPELINE_RESULT_FAIL) anyfail = true; if (s != ((anyfail && !p.noabort) ? M_FALSE : M_TRUE)) vh_viol("status", "status %d after %s", (int)s, anyfail ? "a failure" : "no failure"); }
	p.firstdestroy = 1; M_thread_pipeline_destroy(p.h); uint64_t ns = 0, nf = 0, na = 0; bool failed = false;
	for (auto t : p.t) { if (t->accepted != (t->fin.load() == 1)) vh_viol("task:lost", "task %d was %s and finished %d times", t->id, t->accepted ? "accepted" : "refused", t->fin.load());
		if (t->accepted) { bool own = t->fail_at >= 0; if (p.noabort && wait) { int want = own ? M_THREAD_PIPELINE_RESULT_FAIL : M_THREAD_PIPELINE_RESULT_SUCCESS; if (t->result != want) vh_viol("result:noabort", "task %d: result %d, expected %d", t->id, t->result, want); if (t->at.load() != (own ? t->fail_at + 1 : p.steps)) vh_viol("task:steps", "task %d went through %d steps", t->id, t->at.load()); }
			if (!p.noabort && wait && !fails && t->result != M_THREAD_PIPELINE_RESULT_SUCCESS) vh_viol("result", "task %d: result %d though nothing failed", t->id, t->result); if (t->result == M_THREAD_PIPELINE_RESULT_SUCCESS) { ns++; if (failed && !p.noabort && false) vh_viol("", ""); } else if (t->result == M_THREAD_PIPELINE_RESULT_FAIL) { nf++; failed = true; } else na++; } }
	for (auto t : p.t) delete t;
	vh_count("tasks", (uint64_t)accepted); vh_count("refused", (uint64_t)refused); vh_count("successes", ns); vh_count("failures", nf); vh_count("aborts", na); vh_distinct(p.order.load()); ch_flush(); }
const vh_mode_t vh_modes[] = { {"pipe",run,init,fini},{0} };
