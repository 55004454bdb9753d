// event loops: tasks, triggers, timers and pipes on loops and pools of both polling backends, driven from several threads at once with delays
// injected at every lock and wake-up; a log of signals, runs, removals and barriers decides delivery, silence after removal and placement
#define CHAOS_WRAP
#include "chaos.hpp"
#include <mstdlib/mstdlib_io.h>
#include <mstdlib/mstdlib_thread.h>
#include <thread>
#include <mutex>
#include <deque>
#include <signal.h>
#include <dirent.h>
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void setup(void) { signal(SIGPIPE, SIG_IGN); ch_watch(); }
static void teardown(void) { ch_flush(); M_library_cleanup(); }
static M_event_t *newloop() { return M_event_create(vh_chance(50) ? M_EVENT_FLAG_NONE : M_EVENT_FLAG_NON_SCALABLE); }
static uint64_t self() { return (uint64_t)pthread_self(); }
template <class F> static bool until(F f, int secs = 15) { uint64_t t0 = vh_now_us(); while (!f()) { if (vh_now_us() - t0 > (uint64_t)secs * 1000000) return false; ch_sleep_us(200); ch_tick(); } return true; }
struct Trig { int id = 0; M_event_trigger_t *t = NULL; std::atomic<uint64_t> sig{0}, seen{0}, runs{0}, sigs{0}; std::atomic<int> cbno{0}; std::atomic<bool> removed{false}; std::atomic<uint64_t> thread{0}; std::atomic<M_event_t *> ev{NULL}; bool self_remove = false, spawn = false, away = false; int budget = 0; };
struct W { M_event_t *el = NULL; bool pool = false; std::deque<Trig> tr; std::mutex m; std::vector<std::pair<uint64_t, uint64_t>> seen; std::atomic<uint64_t> queued{0}, ran{0}, looptid{0}; std::atomic<int> removes{0}, inspawn{0}; std::atomic<bool> closing{false}; };
static W *w;
struct Task { uint64_t id; bool again; std::atomic<int> runs{0}; M_event_t *ev = NULL; };
static std::mutex tm_; static std::deque<Task> *tasks;
static void where(M_event_t *el, std::atomic<uint64_t> &th, std::atomic<M_event_t *> &ev, const char *what, int id) { uint64_t z = 0; if (!th.compare_exchange_strong(z, self()) && z != self()) vh_viol("pool:thread", "%s %d ran in two threads", what, id); M_event_t *e = NULL; if (!ev.compare_exchange_strong(e, el) && e != el) vh_viol("pool:loop", "%s %d was given two loops", what, id); if (M_event_get_pool(el) != w->el) vh_viol("pool:get_pool", "M_event_get_pool() of the loop of %s %d is not the pool", what, id); }
static void queue(M_event_t *el, bool again);
static void taskcb(M_event_t *el, M_event_type_t ty, M_io_t *io, void *a) { Task *t = (Task *)a; ch_point(); if (ty != M_EVENT_TYPE_OTHER || io) vh_viol("task:args", "a task was given event %d and an object", (int)ty); if (t->runs.fetch_add(1)) vh_viol("task:twice", "a task ran twice"); if (!w->pool) { uint64_t z = 0; if (!w->looptid.compare_exchange_strong(z, self()) && z != self()) vh_viol("task:thread", "a task ran outside the thread of the loop"); } if (t->ev && t->ev != el) vh_viol("task:loop", "a task ran on another loop"); if (t->again) queue(el, false); w->ran.fetch_add(1); ch_tick(); }
static void queue(M_event_t *el, bool again) { Task *t; { std::lock_guard<std::mutex> l(tm_); tasks->emplace_back(); t = &tasks->back(); } t->again = again; if (el != w->el || !w->pool) t->ev = el; w->queued.fetch_add(1 + again); if (!M_event_queue_task(el, taskcb, t)) { vh_viol("task:refused", "a task was refused"); } if (again) w->queued.fetch_sub(1); }
static void trigcb2(M_event_t *el, M_event_type_t ty, M_io_t *io, void *a);
static void trig_common(M_event_t *el, M_event_type_t ty, Trig *t) { ch_point(); if (ty != M_EVENT_TYPE_OTHER) vh_viol("trigger:type", "a trigger ran with event %d", (int)ty); if (t->removed.load()) vh_viol("trigger:after_remove", "trigger %d ran after its removal", t->id); where(el, t->thread, t->ev, "trigger", t->id); uint64_t s = t->sig.load(); uint64_t r = t->runs.fetch_add(1) + 1; if (r > t->sigs.load()) vh_viol("trigger:unsignalled", "trigger %d ran %d times for %d signals", t->id, (int)r, (int)t->sigs.load()); ch_tick();
	if (t->spawn && t->budget > 0) { t->budget--; w->inspawn++; if (!w->closing.load()) queue(el, t->budget % 3 == 0); w->inspawn--; }
	if (t->self_remove && r >= 2) { t->removed.store(true); w->removes++; t->self_remove = false; M_event_trigger_remove(t->t); s = ~0ull; }
	uint64_t o = t->seen.load(); while (o < s && !t->seen.compare_exchange_weak(o, s)) ; }
static void trigcb(M_event_t *el, M_event_type_t ty, M_io_t *, void *a) { trig_common(el, ty, (Trig *)a); }
static void trigcb2(M_event_t *el, M_event_type_t ty, M_io_t *, void *a) { Trig *t = (Trig *)a; t->cbno.store(2); trig_common(el, ty, t); }
static void signal_(Trig &t) { t.sig.fetch_add(1); t.sigs.fetch_add(1); M_event_trigger_signal(t.t); }
// tasks and triggers from several threads
static void body(bool pool) {
	ch_case(); static W x; x.~W(); new (&x) W; w = &x; std::deque<Task> tk; tasks = &tk; int f0 = nfds();
	x.pool = pool; x.el = pool ? M_event_pool_create(2 + vh_rndn(4)) : newloop(); int nth = 1 + (int)vh_rndn(4), per = 1 + (int)vh_rndn(3), ops = 5 + (int)vh_rndn(60); bool timers = vh_chance(30); VH_CHECK(M_event_get_pool(x.el) == x.el, "pool:get_pool", "M_event_get_pool() of a loop is another");
	vh_sample("%s, %d threads, %d triggers each, %d operations", pool ? "pool" : "loop", nth, per, ops); vh_distinct(vh_hash(&ops, 4, nth * 10 + per + pool * 100 + vh_rndn(1000) * 1000)); (void)timers;
	for (int i = 0; i < nth * per + 1; i++) { x.tr.emplace_back(); Trig &t = x.tr.back(); t.id = i; t.spawn = vh_chance(30); t.budget = 10; }
	std::atomic<bool> started{false}; std::atomic<int> rv{-1}; bool late = vh_chance(30); std::atomic<int> live{nth};
	std::vector<std::thread> th; std::atomic<int> ops_done{0};
	for (int i = 0; i < nth; i++) { uint64_t seed = vh_u64(); th.emplace_back([&, i, seed] { vh_trng r; r.s = seed; auto rn = [&](uint64_t n) { return vh_tr(&r) % n; }; std::vector<Trig *> mine; for (int k = 0; k < per; k++) mine.push_back(&x.tr[i * per + k]); for (Trig *t : mine) { t->t = M_event_trigger_add(x.el, trigcb, t); if (!t->t) vh_viol("trigger:add", "no trigger"); }
		for (int k = 0; k < ops && !mine.empty(); k++) { Trig *t = mine[rn(mine.size())]; switch (rn(10)) { case 0: case 1: case 2: case 3: signal_(*t); break; case 4: case 5: case 6: queue(x.el, rn(5) == 0); break; case 7: M_event_trigger_edit_cb(t->t, trigcb2, t); signal_(*t); break; case 8: if (rn(3) == 0) ch_sleep_us(rn(400)); break; case 9: if (!t->spawn && rn(8) == 0) { /* removal from another thread takes effect on the loop; the last signals may or may not be seen */ M_event_trigger_t *q = t->t; t->seen.store(~0ull); t->sig.store(~0ull); t->away = true; M_event_trigger_remove(q); w->removes++; for (size_t z = 0; z < mine.size(); z++) if (mine[z] == t) { mine.erase(mine.begin() + (long)z); break; } vh_count("removed_elsewhere", 1); } break; } ops_done++; ch_tick(); }
		live--; }); }
	// a trigger that removes itself: signalled until it is gone
	Trig &own = x.tr.back(); own.self_remove = true; own.spawn = false; own.t = M_event_trigger_add(x.el, trigcb, &own); signal_(own);
	std::thread loop([&] { if (late) ch_sleep_us(ch_rnd(3000)); started = true; M_event_err_t e = M_event_loop(x.el, M_TIMEOUT_INF); rv = (int)e; });
	// the second signal makes it remove itself
	bool ok1 = until([&] { return own.runs.load() >= 1; }); if (!ok1) vh_viol("trigger:lost", "a trigger signalled before the loop started never ran"); else { own.sig.fetch_add(1); own.sigs.fetch_add(1); M_event_trigger_signal(own.t); }
	for (auto &t : th) t.join(); bool ok = until([&] { for (Trig &t : x.tr) if (t.seen.load() < t.sig.load()) return false; if (!own.removed.load()) return false; x.closing.store(true); if (x.inspawn.load()) return false; uint64_t r = x.ran.load(); return r == x.queued.load(); });
	if (!ok) { if (x.ran.load() != x.queued.load()) vh_viol("task:lost", "%d of %d tasks ran", (int)x.ran.load(), (int)x.queued.load()); for (Trig &t : x.tr) if (t.seen.load() < t.sig.load()) vh_viol("trigger:lost", "trigger %d: %d runs, the last of %d signals was not delivered", t.id, (int)t.runs.load(), (int)t.sig.load()); if (!own.removed.load()) vh_viol("trigger:lost", "the second signal of a trigger was not delivered"); }
	size_t left = x.tr.size() - (size_t)x.removes.load(); bool okn = until([&] { return M_event_num_objects(x.el) == left; }, 10); if (!okn) vh_viol("objects", "%d objects on the loop, %d expected", (int)M_event_num_objects(x.el), (int)left);
	uint64_t c = x.ran.load(); bool ret = vh_chance(40); M_event_t *tgt = x.el; if (pool && vh_chance(50)) for (Trig &t : x.tr) if (t.ev.load()) tgt = t.ev.load(); if (ret) M_event_return(tgt); else M_event_done(tgt); bool okd = until([&] { return rv.load() != -1; }); if (!okd) { vh_viol("stop:ignored", "the loop did not stop"); _exit(98); } loop.join(); VH_CHECK(rv.load() == (int)(ret ? M_EVENT_ERR_RETURN : M_EVENT_ERR_DONE), "stop:code", "M_event_loop() returned %d after %s of a %s", rv.load(), ret ? "M_event_return()" : "M_event_done()", pool ? (tgt == x.el ? "pool" : "pool member") : "loop"); VH_CHECK(x.ran.load() == c, "task:after", "tasks after the end");
	for (Task &t : tk) VH_CHECK(t.runs.load() == 1, "task:count", "a task ran %d times", t.runs.load()); uint64_t nr = 0, ns = 0; for (Trig &t : x.tr) { nr += t.runs.load(); ns += t.sigs.load(); if (!t.removed.load() && !t.away) M_event_trigger_remove(t.t); } M_event_destroy(x.el); VH_CHECK(nfds() == f0, "fds", "%d descriptors before, %d after", f0, nfds()); vh_count("tasks", tk.size()); vh_count("signals", ns); vh_count("runs", nr); vh_count("returns", ret); }
static void m_loop() { body(false); }
static void m_pool() { body(true); }
// pipes moved between loops, each in its thread; the writer writes from its own thread; every byte arrives in order on the loop the pipe is on
struct Pipe { int id; M_io_t *r = NULL, *wr = NULL; S tx, rx; std::atomic<M_event_t *> on{NULL}; std::atomic<bool> done{false}; std::atomic<int> epoch{0}; std::atomic<uint64_t> moves{0}; vh_trng rng; std::atomic<bool> parked{false}; std::atomic<bool> silent{false}; };
static std::vector<M_event_t *> *loops; static std::vector<std::atomic<uint64_t> *> *ltid;
static void pcb(M_event_t *el, M_event_type_t ty, M_io_t *io, void *a) { Pipe *p = (Pipe *)a; ch_point(); ch_tick(); if (p->silent.load()) vh_viol("io:after_remove", "pipe %d: event %d after its removal", p->id, (int)ty); if (p->on.load() != el) vh_viol("io:loop", "pipe %d: event %d from a loop it is not on", p->id, (int)ty); for (size_t i = 0; i < loops->size(); i++) if ((*loops)[i] == el && (*ltid)[i]->load() != self()) vh_viol("io:thread", "pipe %d: event outside the thread of its loop", p->id);
	if (ty == M_EVENT_TYPE_READ || ty == M_EVENT_TYPE_DISCONNECTED || ty == M_EVENT_TYPE_ERROR) { unsigned char b[600]; size_t n; bool part = ty == M_EVENT_TYPE_READ && vh_tr(&p->rng) % 3 == 0; M_io_error_t e; while (n = 0, (e = M_io_read(io, b, 1 + vh_tr(&p->rng) % sizeof b, &n)) == M_IO_ERROR_SUCCESS) { p->rx.append((char *)b, n); if (part) break; }
		if (ty == M_EVENT_TYPE_READ && e != M_IO_ERROR_SUCCESS && e != M_IO_ERROR_WOULDBLOCK) return; // the end has been read: it stays where its end will be reported
		if (ty != M_EVENT_TYPE_READ) { M_io_destroy(io); p->silent = true; p->done = true; return; }
		if (part || vh_tr(&p->rng) % 4 == 0) { M_event_t *to = (*loops)[vh_tr(&p->rng) % loops->size()]; if (vh_tr(&p->rng) % 4 == 0) { M_event_remove(io); p->silent = true; p->moves++; p->parked = true; return; } p->moves++; M_event_remove(io); p->on = to; if (!M_event_add(to, io, pcb, p)) vh_viol("io:add", "the move of pipe %d was refused", p->id); return; } } }
static void m_move() { ch_case(); int f0 = nfds(); size_t nl = 2 + vh_rndn(2), np = 1 + vh_rndn(4); std::vector<M_event_t *> L; std::deque<std::atomic<uint64_t>> T; std::vector<std::atomic<uint64_t> *> TP; for (size_t i = 0; i < nl; i++) { L.push_back(newloop()); T.emplace_back(0); TP.push_back(&T.back()); } loops = &L; ltid = &TP; std::deque<Pipe> P; std::vector<std::thread> lt, wt; for (size_t i = 0; i < nl; i++) lt.emplace_back([&, i] { T[i] = self(); M_event_err_t e = M_event_loop(L[i], M_TIMEOUT_INF); if (e != M_EVENT_ERR_DONE) vh_viol("stop:code", "M_event_loop() returned %d after M_event_done()", (int)e); }); for (size_t i = 0; i < nl; i++) until([&] { return T[i].load() != 0; });
	for (size_t i = 0; i < np; i++) { P.emplace_back(); Pipe &p = P.back(); p.id = (int)i; p.rng.s = vh_u64(); p.tx = vh_bytes(1 + vh_rndn(vh_chance(70) ? 4000 : 150000)); if (M_io_pipe_create(M_IO_PIPE_NONE, &p.r, &p.wr) != M_IO_ERROR_SUCCESS) vh_fail("harness", "no pipe"); p.on = L[vh_rndn(nl)]; vh_distinct(vh_hash(&p.rng.s, 8, p.tx.size())); }
	vh_sample("%zu pipes on %zu loops, the first with %zu bytes", np, nl, P[0].tx.size());
	for (Pipe &p : P) { if (!M_event_add(p.on.load(), p.r, pcb, &p)) vh_viol("io:add", "pipe refused"); uint64_t seed = vh_u64(); wt.emplace_back([&p, seed] { vh_trng r; r.s = seed; size_t o = 0; while (o < p.tx.size()) { size_t n = 1 + vh_tr(&r) % 2000, k = 0; if (n > p.tx.size() - o) n = p.tx.size() - o; M_io_error_t e = M_io_block_write(p.wr, (const unsigned char *)p.tx.data() + o, n, &k, 100); o += k; if (e != M_IO_ERROR_SUCCESS && e != M_IO_ERROR_WOULDBLOCK) { vh_viol("io:write", "blocking write: %s", M_io_error_string(e)); break; } if (vh_tr(&r) % 4 == 0) ch_sleep_us(vh_tr(&r) % 300); if (p.done.load()) break; } M_io_destroy(p.wr); }); }
	// parked pipes are put on a loop from this thread; some are also pulled off their loop from here
	uint64_t pulls = 0; bool ok = until([&] { bool all = true; for (Pipe &p : P) { if (p.parked.load()) { p.parked = false; if (vh_chance(50)) ch_sleep_us(vh_rndn(400)); p.silent = false; M_event_t *to = L[vh_rndn(nl)]; p.on = to; if (!M_event_add(to, p.r, pcb, &p)) vh_viol("io:add", "the return of pipe %d was refused", p.id); } if (!p.done.load()) all = false; } return all; }); if (!ok) for (Pipe &p : P) if (!p.done.load()) vh_viol("io:lost", "pipe %d stopped after %zu of %zu bytes and %d moves", p.id, p.rx.size(), p.tx.size(), (int)p.moves.load());
	if (!ok) _exit(98); for (auto &t : wt) t.join(); (void)pulls; for (size_t i = 0; i < nl; i++) M_event_done(L[i]); for (auto &t : lt) t.join(); uint64_t mv = 0; for (Pipe &p : P) { VH_CHECK(p.rx == p.tx, "io:bytes", "pipe %d: %zu of %zu bytes arrived, or in another order", p.id, p.rx.size(), p.tx.size()); mv += p.moves.load(); } for (M_event_t *e : L) { VH_CHECK(M_event_num_objects(e) == 0, "objects", "objects left on a loop"); M_event_destroy(e); } VH_CHECK(nfds() == f0, "fds", "%d descriptors before, %d after", f0, nfds()); vh_count("moves", mv); vh_count("pipes", np); }
// a pipe is removed from its running loop by another thread: after a barrier task there is silence, and after it is added again everything arrives
struct Pull { M_io_t *r = NULL, *wr = NULL; std::mutex m; S rx; bool silent = false; uint64_t n = 0; };
static void pullcb(M_event_t *, M_event_type_t ty, M_io_t *io, void *a) { Pull *p = (Pull *)a; ch_point(); ch_tick(); std::lock_guard<std::mutex> l(p->m); if (p->silent) { vh_viol("io:after_remove", "event %d after the removal", (int)ty); return; } p->n++; unsigned char b[500]; size_t n; if (ty == M_EVENT_TYPE_READ) while (n = 0, M_io_read(io, b, sizeof b, &n) == M_IO_ERROR_SUCCESS) p->rx.append((char *)b, n); }
static void barcb(M_event_t *, M_event_type_t, M_io_t *, void *a) { ((std::atomic<bool> *)a)->store(true); }
static void m_pull() { ch_case(); int f0 = nfds(); M_event_t *el = newloop(); std::thread lt([&] { M_event_loop(el, M_TIMEOUT_INF); }); Pull p; if (M_io_pipe_create(M_IO_PIPE_NONE, &p.r, &p.wr) != M_IO_ERROR_SUCCESS) vh_fail("harness", "no pipe"); M_event_add(el, p.r, pullcb, &p); S tx; int rounds = 2 + (int)vh_rndn(6); for (int i = 0; i < rounds; i++) { S d = vh_bytes(1 + vh_rndn(3000)); size_t k = 0, o = 0; bool before = vh_chance(50); auto wr = [&] { while (o < d.size()) { M_io_error_t e = M_io_block_write(p.wr, (const unsigned char *)d.data() + o, d.size() - o, &k, 1000); o += k; if (e != M_IO_ERROR_SUCCESS) { vh_viol("io:write", "blocking write: %s", M_io_error_string(e)); break; } } }; if (before) wr(); if (vh_chance(40)) ch_sleep_us(vh_rndn(300)); M_event_remove(p.r); std::atomic<bool> bar{false}; M_event_queue_task(el, barcb, &bar); if (!until([&] { return bar.load(); })) { vh_viol("task:lost", "a barrier task never ran"); _exit(98); } { std::lock_guard<std::mutex> l(p.m); p.silent = true; } if (!before) wr(); if (vh_chance(50)) ch_sleep_us(vh_rndn(500)); { std::lock_guard<std::mutex> l(p.m); p.silent = false; } tx += d; if (!M_event_add(el, p.r, pullcb, &p)) vh_viol("io:add", "refused"); if (!until([&] { std::lock_guard<std::mutex> l(p.m); return p.rx.size() >= tx.size(); })) { vh_viol("io:lost", "%zu of %zu bytes after round %d (%s the removal)", p.rx.size(), tx.size(), i, before ? "written before" : "written after"); _exit(98); } vh_count("pulls", 1); }
	vh_distinct(vh_hash(tx.data(), tx.size(), rounds)); vh_sample("%d removals, %zu bytes", rounds, tx.size()); bool elsewhere = vh_chance(50); if (elsewhere) { M_io_destroy(p.r); if (!until([&] { return M_event_num_objects(el) == 0; })) vh_viol("objects", "an object destroyed by another thread stays on the loop"); } M_event_done(el); lt.join(); if (!elsewhere) M_io_destroy(p.r); M_io_destroy(p.wr); M_event_destroy(el); VH_CHECK(p.rx == tx, "io:bytes", "%zu of %zu bytes arrived, or in another order", p.rx.size(), tx.size()); VH_CHECK(nfds() == f0, "fds", "%d descriptors before, %d after", f0, nfds()); }
// how loops end
struct St { M_event_t *el; int what; int n = 0; M_event_trigger_t *t = NULL; M_io_t *a = NULL, *b = NULL; int disc = 0; };
static void stopcb(M_event_t *el, M_event_type_t, M_io_t *, void *a) { St *s = (St *)a; s->n++; switch (s->what) { case 0: M_event_done(el); break; case 1: M_event_return(el); break; case 2: M_event_trigger_remove(s->t); s->t = NULL; break; case 3: if (M_event_loop(el, 0) != M_EVENT_ERR_MISUSE) vh_viol("loop:nested", "a running loop was run again"); if (M_event_get_status(el) != M_EVENT_STATUS_RUNNING) vh_viol("loop:status", "status %d in a callback", (int)M_event_get_status(el)); M_event_destroy(el); M_event_done(el); break; } }
static void dcb(M_event_t *, M_event_type_t ty, M_io_t *io, void *a) { St *s = (St *)a; if (ty == M_EVENT_TYPE_DISCONNECTED || ty == M_EVENT_TYPE_ERROR) { s->disc++; if (io == s->a) s->a = NULL; else s->b = NULL; M_io_destroy(io); } }
static void m_stop() { ch_case(0); int f0 = nfds(); int what = (int)vh_rndn(8), fl = vh_chance(50) ? M_EVENT_FLAG_NONE : M_EVENT_FLAG_NON_SCALABLE; if (what == 2) fl |= M_EVENT_FLAG_EXITONEMPTY; St s; s.el = M_event_create((M_uint32)fl); s.what = what; int reps = 1 + (int)vh_rndn(3); vh_sample("scenario %d, %d times", what, reps); vh_distinct(vh_hash(&what, 4, reps * 10 + (fl & 3)));
	for (int i = 0; i < reps; i++) { uint64_t t0 = vh_now_us(); M_event_err_t e; M_uint64 lim = vh_rndn(12); switch (what) {
		case 0: case 1: case 3: s.n = 0; if (vh_chance(50)) { s.t = M_event_trigger_add(s.el, stopcb, &s); M_event_trigger_signal(s.t); } else { s.t = NULL; M_event_queue_task(s.el, stopcb, &s); } e = M_event_loop(s.el, 8000); VH_CHECK(s.n == 1, "stop:runs", "%d runs", s.n); VH_CHECK(e == (what == 1 ? M_EVENT_ERR_RETURN : M_EVENT_ERR_DONE), "stop:code", "M_event_loop() returned %d", (int)e); VH_CHECK(M_event_get_status(s.el) == (what == 1 ? M_EVENT_STATUS_RETURN : M_EVENT_STATUS_DONE), "loop:status", "status %d after the loop", (int)M_event_get_status(s.el)); if (s.t) M_event_trigger_remove(s.t); break;
		case 2: s.t = M_event_trigger_add(s.el, stopcb, &s); M_event_trigger_signal(s.t); e = M_event_loop(s.el, 8000); VH_CHECK(e == M_EVENT_ERR_DONE && !s.t, "stop:empty", "M_event_loop() of an empty loop returned %d", (int)e); break;
		case 4: s.t = vh_chance(50) ? M_event_trigger_add(s.el, stopcb, &s) : NULL; e = M_event_loop(s.el, lim); { uint64_t d = vh_now_us() - t0; VH_CHECK(e == M_EVENT_ERR_TIMEOUT, "stop:code", "M_event_loop() with a limit returned %d", (int)e); VH_CHECK(d + 1100 >= lim * 1000, "stop:early", "limit %d ms, returned after %d us", (int)lim, (int)d); VH_CHECK(d < 6000000, "stop:late", "limit %d ms, returned after %d us", (int)lim, (int)d); } if (s.t) M_event_trigger_remove(s.t); break;
		case 5: M_event_done(s.el); e = M_event_loop(s.el, 8000); VH_CHECK(e == M_EVENT_ERR_DONE, "stop:before", "a loop told to stop before it ran returned %d", (int)e); break;
		case 6: { std::thread th([&] { ch_sleep_us(ch_rnd(2000)); M_event_done(s.el); }); e = M_event_loop(s.el, 15000); th.join(); VH_CHECK(e == M_EVENT_ERR_DONE, "stop:code", "M_event_loop() returned %d", (int)e); break; }
		default: { s.disc = 0; if (M_io_pipe_create(M_IO_PIPE_NONE, &s.a, &s.b) != M_IO_ERROR_SUCCESS) vh_fail("harness", "no pipe"); M_event_add(s.el, s.a, dcb, &s); M_event_add(s.el, s.b, dcb, &s); M_uint64 bef = vh_rndn(5); M_event_done_with_disconnect(s.el, bef, 3000); e = M_event_loop(s.el, M_TIMEOUT_INF); VH_CHECK(e == M_EVENT_ERR_DONE, "stop:code", "M_event_loop() returned %d", (int)e); uint64_t d = vh_now_us() - t0; VH_CHECK(s.disc == 2, "stop:disconnects", "%d of 2 ends of a pipe were told", s.disc); VH_CHECK(d + 1100 >= bef * 1000, "stop:early", "disconnected after %d us, not %d ms", (int)d, (int)bef); i = reps; break; } }
		VH_CHECK(vh_now_us() - t0 < 7000000, "stop:slow", "scenario %d took %d ms", what, (int)((vh_now_us() - t0) / 1000)); vh_count("loops", 1); }
	M_event_destroy(s.el); VH_CHECK(nfds() == f0, "fds", "%d descriptors before, %d after", f0, nfds()); }
const vh_mode_t vh_modes[] = { { "loop", m_loop, setup, teardown }, { "pool", m_pool, setup, teardown }, { "move", m_move, setup, teardown }, { "pull", m_pull, setup, teardown }, { "stop", m_stop, setup, teardown }, {} };
