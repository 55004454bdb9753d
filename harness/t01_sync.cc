/* T01: mutexes, rwlocks (native and emulated), spinlocks, conditionals, timed waits, sleep and poll on the native and coop models. */
#define CHAOS_WRAP
#include "chaos.hpp"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/thread/m_thread_system.h>
#include <poll.h>
extern "C" {
M_thread_rwlock_t *M_thread_rwlock_emu_create(void); void M_thread_rwlock_emu_destroy(M_thread_rwlock_t *);
M_bool M_thread_rwlock_emu_lock(M_thread_rwlock_t *, M_thread_rwlock_type_t); M_bool M_thread_rwlock_emu_unlock(M_thread_rwlock_t *);
}
#if __has_feature(thread_sanitizer)
#define NKIND 4 /* spinlocks use relaxed atomics: correct on this processor, outside what the race detector can follow */
#else
#define NKIND 5
#endif
static bool coop;
static void init_native() { coop = false; M_thread_init(M_THREAD_MODEL_NATIVE); ch_watch(); }
static void init_coop() { coop = true; ch_pct = 0; M_thread_init(M_THREAD_MODEL_COOP); M_thread_model_t m; M_thread_active_model(&m, NULL); if (m != M_THREAD_MODEL_COOP) { fprintf(stderr, "coop not active\n"); _exit(99); } ch_watch(); }
static void fini() { ch_pct = 0; ch_flush(); M_library_cleanup(); }
static void start() { ch_case(coop ? 0 : -1); }
static M_threadid_t spawn(void *(*f)(void *), void *a) { M_thread_attr_t *at = M_thread_attr_create(); M_thread_attr_set_create_joinable(at, M_TRUE); M_thread_attr_set_stack_size(at, 1024 * 1024); M_threadid_t id = M_thread_create(at, f, a); M_thread_attr_destroy(at); if (!id) { vh_viol("create", "M_thread_create returned 0"); ch_flush(); _exit(98); } return id; }
static void joinall(std::vector<M_threadid_t> &v) { for (M_threadid_t t : v) { if (!M_thread_join(t, NULL)) vh_viol("join", "a joinable thread could not be joined"); ch_tick(); } v.clear(); }
/* give others a chance to run */
static void breathe(vh_trng *r) { switch (vh_tr(r) % 6) { case 0: M_thread_yield(M_TRUE); break; case 1: if (coop) M_thread_yield(M_TRUE); else ch_sleep_us(vh_tr(r) % 60); break; case 2: if (!coop) for (volatile int i = 0; i < 200; i = i + 1) ; break; default: break; } ch_tick(); }

/* ---- exclusion ---- */
enum { K_MUTEX, K_REC, K_RW, K_EMU, K_SPIN };
struct Obj { int kind; void *h; M_thread_spinlock_t sp; std::atomic<int> w{0}, r{0}, users{0}, maxr{0}; std::atomic<uint64_t> gen{0}; long data = 0, shadow = 0; std::atomic<long> expect{0}; };
struct Prog { std::vector<Obj *> o; int ops; uint64_t seed; std::atomic<uint64_t> seq{0}, order{0}, n_lock{0}, n_try{0}, n_busy{0}, n_rd{0}; };
struct Thr { Prog *p; int id; };
static const char *kn(int k) { static const char *N[] = { "mutex", "recursive mutex", "rwlock", "rwlock emulation", "spinlock" }; return N[k]; }
static void wr_body(Prog *p, Obj *o, vh_trng *r, int id) {
	if (o->w.fetch_add(1) != 0 || o->r.load() != 0) vh_viol(S("exclusion:").append(kn(o->kind)).c_str(), "thread %d is in a %s's exclusive section with another", id, kn(o->kind));
	p->order.store(vh_hu((uint64_t)id * 16 + (uint64_t)o->kind, p->order.load(std::memory_order_relaxed)), std::memory_order_relaxed);
	long v = 0; if (o->kind != K_SPIN) { v = o->data; } breathe(r); if (o->kind != K_SPIN) { if (o->data != v) vh_viol("exclusion:data", "data guarded by a %s changed under its holder", kn(o->kind)); o->data = v + 1; o->shadow += 1; } o->expect.fetch_add(1);
	if (o->w.fetch_sub(1) != 1 || o->r.load() != 0) vh_viol(S("exclusion:").append(kn(o->kind)).c_str(), "another thread entered a %s's exclusive section", kn(o->kind)); }
static void rd_body(Prog *p, Obj *o, vh_trng *r, int id) {
	int n = o->r.fetch_add(1) + 1; if (o->w.load() != 0) vh_viol(S("exclusion:").append(kn(o->kind)).c_str(), "reader %d is in with a writer of a %s", id, kn(o->kind)); int m = o->maxr.load(); while (n > m && !o->maxr.compare_exchange_weak(m, n)) ;
	p->order.store(vh_hu((uint64_t)id * 16 + 8 + (uint64_t)o->kind, p->order.load(std::memory_order_relaxed)), std::memory_order_relaxed);
	long v = o->data; breathe(r); if (o->data != v) vh_viol("exclusion:data", "data guarded by a %s changed under a reader", kn(o->kind)); if (o->data != o->shadow) vh_viol("exclusion:data", "a reader of a %s sees half a write", kn(o->kind));
	if (o->w.load() != 0) vh_viol(S("exclusion:").append(kn(o->kind)).c_str(), "a writer of a %s entered with a reader in", kn(o->kind)); o->r.fetch_sub(1); p->n_rd.fetch_add(1); }
static void locked(Prog *p, size_t i, vh_trng *r, int id, int depth) {
	Obj *o = p->o[i]; bool rd = vh_tr(r) % 3 != 0; bool tr = (o->kind == K_MUTEX || o->kind == K_REC) && vh_tr(r) % 3 == 0; M_bool ok = M_TRUE;
	int u0 = o->users.fetch_add(1); uint64_t g0 = o->gen.fetch_add(1); 
	switch (o->kind) {
	case K_MUTEX: case K_REC: if (tr) ok = M_thread_mutex_trylock((M_thread_mutex_t *)o->h); else ok = M_thread_mutex_lock((M_thread_mutex_t *)o->h); break;
	case K_RW: ok = M_thread_rwlock_lock((M_thread_rwlock_t *)o->h, rd ? M_THREAD_RWLOCK_TYPE_READ : M_THREAD_RWLOCK_TYPE_WRITE); break;
	case K_EMU: ok = M_thread_rwlock_emu_lock((M_thread_rwlock_t *)o->h, rd ? M_THREAD_RWLOCK_TYPE_READ : M_THREAD_RWLOCK_TYPE_WRITE); break;
	case K_SPIN: M_thread_spinlock_lock(&o->sp); break; }
	ch_tick();
	if (!ok) { if (!tr) vh_viol("lock:failed", "locking a %s failed", kn(o->kind)); else { p->n_busy.fetch_add(1); if (u0 == 0 && o->users.load() == 1 && o->gen.load() == g0 + 1) vh_viol("trylock:free", "trylock of a %s nobody used failed", kn(o->kind)); } o->gen.fetch_add(1); o->users.fetch_sub(1); return; }
	if (tr) p->n_try.fetch_add(1); p->n_lock.fetch_add(1);
	if (o->kind == K_RW || o->kind == K_EMU) { if (rd) rd_body(p, o, r, id); else wr_body(p, o, r, id); } else { wr_body(p, o, r, id);
		if (o->kind == K_REC && vh_tr(r) % 2) { M_bool again = (vh_tr(r) % 2) ? M_thread_mutex_trylock((M_thread_mutex_t *)o->h) : M_thread_mutex_lock((M_thread_mutex_t *)o->h); if (!again) vh_viol("recursive", "the holder can't lock a recursive mutex again"); else { wr_body(p, o, r, id); M_thread_mutex_unlock((M_thread_mutex_t *)o->h); wr_body(p, o, r, id); } } }
	if (depth < 2 && i + 1 < p->o.size() && o->kind != K_SPIN && vh_tr(r) % 4 == 0) locked(p, i + 1 + vh_tr(r) % (p->o.size() - i - 1), r, id, depth + 1);
	switch (o->kind) { case K_MUTEX: case K_REC: ok = M_thread_mutex_unlock((M_thread_mutex_t *)o->h); break; case K_RW: ok = M_thread_rwlock_unlock((M_thread_rwlock_t *)o->h); break; case K_EMU: ok = M_thread_rwlock_emu_unlock((M_thread_rwlock_t *)o->h); break; case K_SPIN: M_thread_spinlock_unlock(&o->sp); break; }
	if (!ok) vh_viol("unlock:failed", "unlocking a held %s failed", kn(o->kind)); o->gen.fetch_add(1); o->users.fetch_sub(1); }
static void *excl_thread(void *a) { Thr *t = (Thr *)a; vh_trng r; r.s = t->p->seed + (uint64_t)t->id * 7919; for (int i = 0; i < t->p->ops; i++) { locked(t->p, vh_tr(&r) % t->p->o.size(), &r, t->id, 0); breathe(&r); } return NULL; }
static void run_excl() {
	start(); if (!coop && vh_chance(30)) ch_spurious = 200; Prog p; p.seed = vh_rnd(); p.ops = (int)vh_range(5, coop ? 60 : 40); size_t no = (size_t)vh_range(1, 4);
	for (size_t i = 0; i < no; i++) { Obj *o = new Obj; o->kind = (int)vh_rndn(NKIND); M_mem_set(&o->sp, 0, sizeof o->sp); switch (o->kind) { case K_MUTEX: o->h = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE); break; case K_REC: o->h = M_thread_mutex_create(M_THREAD_MUTEXATTR_RECURSIVE); break; case K_RW: o->h = M_thread_rwlock_create(); break; case K_EMU: o->h = M_thread_rwlock_emu_create(); break; default: o->h = NULL; } p.o.push_back(o); }
	int nt = (int)vh_range(2, 6); std::vector<Thr> th((size_t)nt); std::vector<M_threadid_t> ids; for (int i = 0; i < nt; i++) { th[(size_t)i] = Thr{ &p, i }; ids.push_back(spawn(excl_thread, &th[(size_t)i])); } joinall(ids);
	for (Obj *o : p.o) { if (o->kind != K_SPIN) { if (o->data != o->expect.load()) vh_viol("exclusion:lost", "%ld updates made under a %s, %ld remain", o->expect.load(), kn(o->kind), o->data); }
		if (o->maxr.load() > 1) vh_count("parallel_readers", 1);
		switch (o->kind) { case K_MUTEX: case K_REC: if (!M_thread_mutex_trylock((M_thread_mutex_t *)o->h)) vh_viol("trylock:free", "a mutex everyone unlocked is still locked"); else M_thread_mutex_unlock((M_thread_mutex_t *)o->h); M_thread_mutex_destroy((M_thread_mutex_t *)o->h); break; case K_RW: M_thread_rwlock_destroy((M_thread_rwlock_t *)o->h); break; case K_EMU: M_thread_rwlock_emu_destroy((M_thread_rwlock_t *)o->h); break; } delete o; }
	vh_count("locks", p.n_lock.load()); vh_count("trylocks", p.n_try.load()); vh_count("busy", p.n_busy.load()); vh_count("reads", p.n_rd.load()); vh_distinct(p.order.load()); ch_flush(); }

/* ---- scenarios with a known outcome ---- */
struct W { M_thread_mutex_t *m; M_thread_cond_t *c; int waiting, woken, timedout, go; bool released; };
struct WT { W *w; int ms; bool timed; std::atomic<int> state{0}; bool ret; uint64_t us; };
static void *wake_thread(void *a) { WT *t = (WT *)a; W *w = t->w; M_thread_mutex_lock(w->m); w->waiting++; uint64_t t0 = vh_now_us(); M_bool r = t->timed ? M_thread_cond_timedwait(w->c, w->m, (M_uint64)t->ms) : M_thread_cond_wait(w->c, w->m); t->us = vh_now_us() - t0; w->woken++; t->ret = r; w->waiting--; M_thread_mutex_unlock(w->m); ch_tick(); return NULL; }
static void run_wake() {
	start(); W w; memset(&w, 0, sizeof w); w.m = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE); w.c = M_thread_cond_create(M_THREAD_CONDATTR_NONE);
	int n = (int)vh_range(1, 6), k = (int)vh_range(1, n); std::vector<WT> t((size_t)n); std::vector<M_threadid_t> ids; bool bc = vh_chance(30), hold = vh_chance(50); uint64_t h = vh_hu((uint64_t)(n * 16 + k), vh_hu(bc, vh_hu(hold, 5)));
	for (int i = 0; i < n; i++) { t[(size_t)i].w = &w; t[(size_t)i].timed = vh_chance(50); t[(size_t)i].ms = (int)vh_range(100000, 200000); h = vh_hu(t[(size_t)i].timed, h); ids.push_back(spawn(wake_thread, &t[(size_t)i])); }
	for (;;) { M_thread_mutex_lock(w.m); int c = w.waiting; M_thread_mutex_unlock(w.m); if (c == n) break; M_thread_yield(M_TRUE); if (!coop) ch_sleep_us(20); ch_tick(); }
	ch_progress++;
	if (hold) M_thread_mutex_lock(w.m);
	if (bc) { M_thread_cond_broadcast(w.c); k = n; } else for (int i = 0; i < k; i++) M_thread_cond_signal(w.c);
	if (hold) M_thread_mutex_unlock(w.m);
	uint64_t t0 = vh_now_us(); for (;;) { M_thread_mutex_lock(w.m); int c = w.woken; M_thread_mutex_unlock(w.m); if (c >= k) { if (coop && c > k) vh_viol("wake:too-many", "%d signals woke %d of %d waiters", k, c, n); break; } if (vh_now_us() - t0 > 20000000) { vh_viol("wake:lost", "%d of %d waiters woke 20 s after %s of %d", c, n, bc ? "a broadcast" : "signals", k); _exit(98); } M_thread_yield(M_TRUE); if (!coop) ch_sleep_us(20); }
	M_thread_mutex_lock(w.m); M_thread_cond_broadcast(w.c); M_thread_mutex_unlock(w.m); joinall(ids);
	for (int i = 0; i < n; i++) if (!t[(size_t)i].ret) vh_viol("wake:result", "a %swait that was signalled after %llu us (limit %d ms) reports a timeout", t[(size_t)i].timed ? "timed " : "", (unsigned long long)t[(size_t)i].us, t[(size_t)i].ms);
	if (w.woken != n) vh_viol("wake:count", "%d of %d woke", w.woken, n);
	M_thread_cond_destroy(w.c); M_thread_mutex_destroy(w.m); vh_count("wakeups", (uint64_t)n); vh_count(bc ? "broadcasts" : "signals", (uint64_t)(bc ? 1 : k)); vh_distinct(h); ch_flush(); }

/* bounded buffer with conditionals only: nothing lost, nothing twice, nobody stuck */
struct Q { M_thread_mutex_t *m; M_thread_cond_t *ne, *nf; std::vector<int> q; size_t cap; int produced, consumed, total, np; std::vector<int> seen; uint64_t seed; uint64_t order; bool bc; };
struct QT { Q *q; int id; };
static M_bool qwait(Q *q, M_thread_cond_t *c, vh_trng *r) { if (vh_tr(r) % 3 == 0) return M_thread_cond_timedwait(c, q->m, 1 + vh_tr(r) % 20); return M_thread_cond_wait(c, q->m); }
static void *prod(void *a) { QT *t = (QT *)a; Q *q = t->q; vh_trng r; r.s = q->seed + (uint64_t)t->id; for (;;) { M_thread_mutex_lock(q->m); while (q->produced < q->total && q->q.size() >= q->cap) qwait(q, q->nf, &r); if (q->produced >= q->total) { M_thread_cond_broadcast(q->nf); M_thread_cond_broadcast(q->ne); M_thread_mutex_unlock(q->m); break; } q->q.push_back(q->produced++); q->order = vh_hu((uint64_t)t->id, q->order); bool in = vh_tr(&r) % 2; if (in) { if (q->bc) M_thread_cond_broadcast(q->ne); else M_thread_cond_signal(q->ne); } M_thread_mutex_unlock(q->m); if (!in) { if (q->bc) M_thread_cond_broadcast(q->ne); else M_thread_cond_signal(q->ne); } breathe(&r); } return NULL; }
static void *cons(void *a) { QT *t = (QT *)a; Q *q = t->q; vh_trng r; r.s = q->seed + 1000 + (uint64_t)t->id; for (;;) { M_thread_mutex_lock(q->m); while (q->q.empty() && q->consumed < q->total) qwait(q, q->ne, &r); if (q->q.empty()) { M_thread_cond_broadcast(q->ne); M_thread_cond_broadcast(q->nf); M_thread_mutex_unlock(q->m); break; } int v = q->q.front(); q->q.erase(q->q.begin()); q->seen[(size_t)v]++; q->consumed++; q->order = vh_hu(100 + (uint64_t)t->id, q->order); bool last = q->consumed == q->total; if (last) M_thread_cond_broadcast(q->ne); if (q->bc) M_thread_cond_broadcast(q->nf); else M_thread_cond_signal(q->nf); M_thread_mutex_unlock(q->m); breathe(&r); } return NULL; }
static void run_queue() {
	start(); if (!coop && vh_chance(50)) ch_spurious = 150; Q q; q.m = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE); q.ne = M_thread_cond_create(0); q.nf = M_thread_cond_create(0); q.cap = (size_t)vh_range(1, 4); q.produced = q.consumed = 0; q.total = (int)vh_range(5, 60); q.seen.assign((size_t)q.total, 0); q.seed = vh_rnd(); q.order = 3; q.bc = vh_chance(30);
	int np = (int)vh_range(1, 3), nc = (int)vh_range(1, 3); q.np = np; std::vector<QT> t((size_t)(np + nc)); std::vector<M_threadid_t> ids; for (int i = 0; i < np + nc; i++) { t[(size_t)i] = QT{ &q, i }; ids.push_back(spawn(i < np ? prod : cons, &t[(size_t)i])); } joinall(ids);
	for (int i = 0; i < q.total; i++) if (q.seen[(size_t)i] != 1) vh_viol("queue:items", "item %d was taken %d times", i, q.seen[(size_t)i]);
	M_thread_cond_destroy(q.ne); M_thread_cond_destroy(q.nf); M_thread_mutex_destroy(q.m); vh_count("items", (uint64_t)q.total); vh_distinct(q.order); ch_flush(); }

/* readers get in together, writers first, try-locks return while the lock is held, unlock by the holder lets the waiter in */
static char tstate(pid_t tid) { char p[64], b[512]; snprintf(p, sizeof p, "/proc/self/task/%d/stat", (int)tid); FILE *f = fopen(p, "r"); if (!f) return '?'; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0; char *c = strrchr(b, ')'); return c && c[1] ? c[2] : '?'; }
struct RW { bool emu; M_thread_rwlock_t *l; std::atomic<int> in{0}, want{0}, wgot{0}, rgot{0}, order{0}; std::atomic<pid_t> wtid{0}, rtid{0}; int wat = 0, rat = 0; };
static M_bool rwl(RW *r, bool rd) { return (r->emu ? M_thread_rwlock_emu_lock : M_thread_rwlock_lock)(r->l, rd ? M_THREAD_RWLOCK_TYPE_READ : M_THREAD_RWLOCK_TYPE_WRITE); }
static M_bool rwu(RW *r) { return (r->emu ? M_thread_rwlock_emu_unlock : M_thread_rwlock_unlock)(r->l); }
static void *rw_together(void *a) { RW *r = (RW *)a; rwl(r, true); r->in++; uint64_t t0 = vh_now_us(); while (r->in.load() < r->want.load()) { M_thread_yield(M_TRUE); if (!coop) ch_sleep_us(20); if (vh_now_us() - t0 > 20000000) { vh_viol("rwlock:readers", "%d of %d readers got in together", r->in.load(), r->want.load()); _exit(98); } } rwu(r); ch_tick(); return NULL; }
static void *rw_writer(void *a) { RW *r = (RW *)a; r->wtid = (pid_t)M_thread_self(); rwl(r, false); r->wat = r->order++; breathe(ch_rng()); rwu(r); ch_tick(); return NULL; }
static void *rw_reader(void *a) { RW *r = (RW *)a; r->rtid = (pid_t)M_thread_self(); rwl(r, true); r->rat = r->order++; rwu(r); ch_tick(); return NULL; }
static bool asleep(std::atomic<pid_t> &t) { if (coop) { for (int i = 0; i < 10; i++) M_thread_yield(M_TRUE); return true; } int s = 0; for (int i = 0; i < 4000; i++) { pid_t x = t.load(); if (x && tstate(x) == 'S') { if (++s >= 3) return true; } else s = 0; ch_sleep_us(50); } return false; }
static bool asleep2(RW &r) { uint64_t t0 = vh_now_us(); while (!coop && !r.wtid.load() && !r.rtid.load() && vh_now_us() - t0 < 5000000) ch_sleep_us(20); return asleep(r.wtid.load() ? r.wtid : r.rtid); }
static void *mx_holder(void *a) { W *w = (W *)a; M_thread_mutex_lock(w->m); __atomic_store_n(&w->go, 1, __ATOMIC_SEQ_CST); while (__atomic_load_n(&w->go, __ATOMIC_SEQ_CST) != 2) { M_thread_yield(M_TRUE); if (!coop) ch_sleep_us(20); } M_thread_mutex_unlock(w->m); ch_tick(); return NULL; }
static void run_scenes() {
	start(); ch_pct = 0; std::vector<M_threadid_t> ids; RW r; r.emu = coop || vh_chance(50); r.l = r.emu ? M_thread_rwlock_emu_create() : M_thread_rwlock_create(); int sc = (int)vh_rndn(4); vh_distinct(vh_hu((uint64_t)sc, vh_hu(r.emu, vh_case)));
	if (sc == 0) { int n = (int)vh_range(2, 6); r.want = n; for (int i = 0; i < n; i++) ids.push_back(spawn(rw_together, &r)); joinall(ids); vh_count("reader_meetings", 1); }
	else if (sc == 1) { rwl(&r, true); ids.push_back(spawn(rw_writer, &r)); bool b1 = asleep(r.wtid); if (r.order.load() != 0) vh_viol("rwlock:writer", "a writer got in with a reader"); ids.push_back(spawn(rw_reader, &r)); bool b2 = asleep(r.rtid); if (b1 && b2 && r.order.load() != 0) vh_viol("rwlock:preference", "a new reader got in before the waiting writer"); rwu(&r); joinall(ids); if (b1 && b2) { vh_count("writer_preferences", 1); if (r.wat > r.rat) vh_viol("rwlock:preference", "the reader that came after the waiting writer got in first"); } }
	else if (sc == 2) { rwl(&r, false); int n = (int)vh_range(1, 4); std::vector<RW *> rr; for (int i = 0; i < n; i++) ids.push_back(spawn(vh_chance(50) ? rw_reader : rw_writer, &r)); asleep2(r); if (r.order.load()) vh_viol("rwlock:writer", "someone got in with a writer"); rwu(&r); joinall(ids); if (r.order.load() != n) vh_viol("rwlock:lost", "%d of %d waiters got in", r.order.load(), n); vh_count("writer_releases", 1); }
	else { W w; memset(&w, 0, sizeof w); w.m = M_thread_mutex_create(vh_chance(50) ? M_THREAD_MUTEXATTR_NONE : M_THREAD_MUTEXATTR_RECURSIVE); ids.push_back(spawn(mx_holder, &w)); while (__atomic_load_n(&w.go, __ATOMIC_SEQ_CST) != 1) { M_thread_yield(M_TRUE); if (!coop) ch_sleep_us(20); } for (int i = 0; i < 5; i++) if (M_thread_mutex_trylock(w.m)) vh_viol("trylock:held", "trylock of a mutex held by another thread succeeded"); __atomic_store_n(&w.go, 2, __ATOMIC_SEQ_CST); joinall(ids); if (!M_thread_mutex_trylock(w.m)) vh_viol("trylock:free", "trylock of a released mutex failed"); else M_thread_mutex_unlock(w.m); M_thread_mutex_destroy(w.m); vh_count("trylocks_held", 1); }
	if (r.emu) M_thread_rwlock_emu_destroy(r.l); else M_thread_rwlock_destroy(r.l); ch_tick(); }

/* ---- time ---- */
static uint64_t wall_us() { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return (uint64_t)ts.tv_sec * 1000000 + (uint64_t)ts.tv_nsec / 1000; }
static struct timespec hk_abs; static int hk_n;
static int hk(pthread_cond_t *, pthread_mutex_t *, const struct timespec *t) { hk_abs = *t; hk_n++; return ETIMEDOUT; }
struct PT { int fd; int ms; };
static void *poke(void *a) { PT *p = (PT *)a; M_thread_sleep((M_uint64)p->ms * 1000); if (write(p->fd, "x", 1) != 1) vh_viol("harness", "write"); ch_tick(); return NULL; }
static void *spin_along(void *a) { int *n = (int *)a; for (int i = 0; i < *n; i++) { M_thread_yield(M_TRUE); ch_tick(); } return NULL; }
static void run_time() {
	start(); ch_pct = 0; M_thread_mutex_t *m = M_thread_mutex_create(0); M_thread_cond_t *c = M_thread_cond_create(0); std::vector<M_threadid_t> ids; int ny = (int)vh_range(0, 20), nb = (int)vh_range(0, 3); for (int i = 0; i < nb; i++) ids.push_back(spawn(spin_along, &ny));
	switch (vh_rndn(6)) {
	case 0: { int ms = (int)vh_range(0, 30); M_thread_mutex_lock(m); uint64_t t0 = wall_us(); M_bool r = M_thread_cond_timedwait(c, m, (M_uint64)ms); uint64_t d = wall_us() - t0; M_thread_mutex_unlock(m); if (r) vh_viol("timed:result", "a timed wait nobody signalled reports it was"); if (d + 2 < (uint64_t)ms * 1000) vh_viol("timed:early", "a wait of %d ms ended after %llu us", ms, (unsigned long long)d); vh_count("timed_waits", 1); break; }
	case 1: { M_timeval_t tv; M_time_gettimeofday(&tv); uint64_t t0 = (uint64_t)tv.tv_sec * 1000000 + (uint64_t)tv.tv_usec; int us = (int)vh_range(0, 25000); tv.tv_usec += us; if (vh_chance(50)) while (tv.tv_usec >= 1000000) { tv.tv_usec -= 1000000; tv.tv_sec++; } else if (vh_chance(30) && !coop) { } M_thread_mutex_lock(m); M_bool r = M_thread_cond_timedwait_abs(c, m, &tv); uint64_t d = wall_us() - t0; M_thread_mutex_unlock(m); if (r) vh_viol("timed:result", "a timed wait nobody signalled reports it was"); if (d + 2 < (uint64_t)us) vh_viol("timed:early", "a wait of %d us ended after %llu us", us, (unsigned long long)d); vh_count("timed_waits", 1); break; }
	case 2: { uint64_t us = (uint64_t)vh_range(0, 30000); uint64_t t0 = vh_now_us(); M_thread_sleep(us); uint64_t d = vh_now_us() - t0; if (d + 2 < us / 1000 * 1000) vh_viol("sleep:early", "a sleep of %llu us took %llu us", (unsigned long long)us, (unsigned long long)d); vh_count("sleeps", 1); break; }
	case 3: { int fd[2]; if (pipe(fd)) break; struct pollfd pf = { fd[0], POLLIN, 0 }; int ms = (int)vh_range(0, 25); uint64_t t0 = vh_now_us(); int r = M_thread_poll(&pf, 1, ms); uint64_t d = vh_now_us() - t0; if (r != 0) vh_viol("poll:idle", "poll of an empty pipe returned %d", r); if (d + 2000 < (uint64_t)ms * 1000) vh_viol("poll:early", "a poll of %d ms ended after %llu us", ms, (unsigned long long)d); close(fd[0]); close(fd[1]); vh_count("polls", 1); break; }
	case 4: { int fd[2]; if (pipe(fd)) break; struct pollfd pf = { fd[0], POLLIN, 0 }; PT p = { fd[1], (int)vh_range(0, 15) }; static const int T[] = { -1, 1000000, 2000000, 2147483, 2147484, 3000000, 4294967, 4294968, 10000000, 2147483647 }; int ms = T[vh_rndn(10)]; ids.push_back(spawn(poke, &p)); int r = M_thread_poll(&pf, 1, ms); if (r != 1 || !(pf.revents & POLLIN)) vh_viol("poll:data", "poll with timeout %d returned %d before data came", ms, r); joinall(ids); close(fd[0]); close(fd[1]); vh_count("polls_data", 1); break; }
	case 5: if (!coop) { static const M_uint64 T[] = { 0, 1, 999, 1000, 1001, 60000, 4294966, 4294967, 4294968, 4295000, 5000000, 86400000, 10000000000ULL }; M_uint64 ms = vh_chance(60) ? T[vh_rndn(13)] : (M_uint64)(vh_rnd() >> (24 + vh_rndn(38))); ch_timedwait_hook = hk; hk_n = 0; uint64_t t0 = wall_us(); M_thread_mutex_lock(m); M_bool r = M_thread_cond_timedwait(c, m, ms); M_thread_mutex_unlock(m); uint64_t t1 = wall_us(); ch_timedwait_hook = NULL; if (r) vh_viol("timed:result", "a wait that timed out reports a signal");
			if (hk_n != 1 || hk_abs.tv_nsec < 0 || hk_abs.tv_nsec > 999999999) vh_viol("timed:deadline", "%llu ms: %d system waits, nsec %ld", (unsigned long long)ms, hk_n, hk_abs.tv_nsec); else { uint64_t dl = (uint64_t)hk_abs.tv_sec * 1000000 + (uint64_t)hk_abs.tv_nsec / 1000; if (dl + 1 < t0 + ms * 1000) vh_viol("timed:early", "a wait of %llu ms was given a deadline %lld us from now", (unsigned long long)ms, (long long)(dl - t0)); if (dl > t1 + ms * 1000 + 1000) vh_viol("timed:late", "a wait of %llu ms was given a deadline %lld us from now", (unsigned long long)ms, (long long)(dl - t0)); } vh_count("deadlines", 1); }
		else { static const M_uint64 T[] = { 4294968, 5000000, 86400000 }; (void)T; } break; }
	joinall(ids); M_thread_cond_destroy(c); M_thread_mutex_destroy(m); vh_distinct(vh_case); ch_tick(); }

const vh_mode_t vh_modes[] = { {"excl",run_excl,init_native,fini},{"wake",run_wake,init_native,fini},{"queue",run_queue,init_native,fini},{"scenes",run_scenes,init_native,fini},{"time",run_time,init_native,fini},
 {"excl_coop",run_excl,init_coop,fini},{"wake_coop",run_wake,init_coop,fini},{"queue_coop",run_queue,init_coop,fini},{"scenes_coop",run_scenes,init_coop,fini},{"time_coop",run_time,init_coop,fini},{0} };
