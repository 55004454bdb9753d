/* T05: thread lifecycle, once, thread-local storage, exit destructors, library cleanup, on both models. */
#define CHAOS_WRAP
#include "chaos.hpp"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/thread/m_thread_system.h>
#include <map>
#include <mutex>
static bool coop;
static void init_native() { coop = false; M_thread_init(M_THREAD_MODEL_NATIVE); ch_watch(); }
static void init_coop() { coop = true; ch_pct = 0; M_thread_init(M_THREAD_MODEL_COOP); M_thread_model_t m; M_thread_active_model(&m, NULL); if (m != M_THREAD_MODEL_COOP) { fprintf(stderr, "coop not active\n"); _exit(99); } ch_watch(); }
static void init_cycle() { coop = false; ch_watch(); }
static void fini() { ch_pct = 0; ch_flush(); M_library_cleanup(); }
static void start() { ch_case(coop ? 0 : -1); if (!coop && vh_chance(60)) ch_spurious = 300; }
static void breathe(vh_trng *r) { switch (vh_tr(r) % 5) { case 0: M_thread_yield(M_TRUE); break; case 1: if (coop) M_thread_yield(M_TRUE); else ch_sleep_us(vh_tr(r) % 80); break; default: break; } ch_tick(); }

/* one entry per thread made in the case */
struct Val { int owner, key; std::atomic<int> dead{0}; };
struct Node { int id; bool join; std::atomic<int> runs{0}, exits{0}, ended{0}; std::atomic<uint64_t> tid{0}; std::vector<Val *> vals; int kids, depth; M_thread_attr_t *at; };
static std::atomic<Node *> nodes[64]; static std::atomic<int> n_nodes; static M_thread_tls_key_t K[4]; static bool Kd[4]; static std::atomic<uint64_t> cnt_tls, cnt_d, cnt_join, cnt_made, cnt_det, cnt_null, ordr; static uint64_t case_seed; static int tls_null_dtor; static thread_local int here_native = -1;
static M_thread_tls_key_t KID; /* which node am I (also in coop) */
static int me() { void *p = M_thread_tls_getspecific(KID); return p ? ((Node *)p)->id : -1; }
static void dtor_common(void *p, int key) {
	if (p == NULL) { vh_viol("tls:null", "a destructor was called with no value"); return; } Val *v = (Val *)p; cnt_d++; if (v->dead.fetch_add(1) != 0) vh_viol("tls:twice", "the destructor of key %d ran twice for one value", key); if (v->key != key) vh_viol("tls:key", "the destructor of key %d got a value of key %d", key, v->key);
	Node *n = nodes[v->owner].load(); if (n->tid.load() != M_thread_self()) vh_viol("tls:thread", "the destructor of thread %d's value ran on another thread", v->owner); if (n->exits.load() > 1) vh_viol("tls:late", "late"); ordr.store(vh_hu((uint64_t)(v->owner * 8 + key), ordr.load())); }
static void d0(void *p) { dtor_common(p, 0); } static void d1(void *p) { dtor_common(p, 1); M_thread_tls_getspecific(K[0]); } static void d2(void *p) { dtor_common(p, 2); M_thread_tls_getspecific(K[2]); }
static void *body(void *a);
static M_threadid_t launch(Node *n) { n_nodes.load(); cnt_made++; M_threadid_t t = M_thread_create(n->at, body, n); M_thread_attr_destroy(n->at); n->at = NULL; if (!t) { vh_viol("create", "M_thread_create returned 0"); ch_flush(); _exit(98); } return t; }
static Node *mknode(vh_trng *r, int depth) { int id = n_nodes++; if (id >= 60) { n_nodes--; return NULL; } Node *n = new Node; n->id = id; n->join = vh_tr(r) % 3 != 0; n->kids = depth < 2 ? (int)(vh_tr(r) % 3) : 0; n->depth = depth; n->at = M_thread_attr_create(); M_thread_attr_set_create_joinable(n->at, n->join ? M_TRUE : M_FALSE); M_thread_attr_set_stack_size(n->at, 1024 * 1024); if (!coop && vh_tr(r) % 4 == 0) M_thread_attr_set_priority(n->at, (M_uint8)(M_THREAD_PRIORITY_MIN + vh_tr(r) % (M_THREAD_PRIORITY_NORMAL - M_THREAD_PRIORITY_MIN + 1))); if (!coop && vh_tr(r) % 4 == 0) M_thread_attr_set_processor(n->at, (int)(vh_tr(r) % M_thread_num_cpu_cores())); nodes[id] = n; return n; }
static void check_vals(Node *n, Val **cur) { for (int k = 0; k < 4; k++) { void *g = M_thread_tls_getspecific(K[k]); cnt_tls++; if (g != (void *)cur[k]) { Val *o = (Val *)g; int own = -2; if (o) for (int i = 0; i < n_nodes.load(); i++) if (nodes[i].load()) for (Val *v : nodes[i].load()->vals) if (v == o) own = i; vh_viol("tls:value", "thread %d key %d: found %s (of thread %d), set %s", n->id, k, g ? "a value" : "none", own, cur[k] ? "another" : "none"); } } }
static void kids(Node *n, vh_trng *r, std::vector<std::pair<Node *, M_threadid_t>> &js) { for (int i = 0; i < n->kids; i++) { Node *c = mknode(r, n->depth + 1); if (!c) break; M_threadid_t t = launch(c); if (c->join) js.push_back({ c, t }); breathe(r); } }
static void joinall(std::vector<std::pair<Node *, M_threadid_t>> &js, vh_trng *r) { while (!js.empty()) { size_t i = vh_tr(r) % js.size(); void *rv = (void *)1; if (!M_thread_join(js[i].second, vh_tr(r) % 8 ? &rv : NULL)) vh_viol("join:failed", "a joinable thread can't be joined"); Node *c = js[i].first; if (rv != (void *)1 && rv != (void *)(c->vals.empty() ? (void *)c : (void *)c->vals[0])) vh_viol("join:value", "thread %d: joined with %p, it returned %p", c->id, rv, (void *)c); if (c->runs.load() != 1 || !c->ended.load()) vh_viol("join:early", "thread %d was joined before it ended (runs %d)", c->id, c->runs.load()); if (c->exits.load() != 1) vh_viol("exit:destructor", "the exit destructor ran %d times for joined thread %d", c->exits.load(), c->id); cnt_join++; js.erase(js.begin() + (long)i); ch_tick(); } }
static void *body(void *a) {
	Node *n = (Node *)a; vh_trng r; r.s = case_seed + (uint64_t)n->id * 999983; if (n->runs.fetch_add(1) != 0) vh_viol("run:twice", "thread %d ran twice", n->id); n->tid = M_thread_self(); Val *cur[4] = { 0, 0, 0, 0 };
	if (me() != -1) vh_viol("tls:inherited", "a new thread starts with a value of thread %d", me()); check_vals(n, cur); if (!M_thread_tls_setspecific(KID, n)) vh_viol("tls:set", "can't set"); std::vector<std::pair<Node *, M_threadid_t>> js; kids(n, &r, js);
	int steps = (int)(vh_tr(&r) % 8); for (int i = 0; i < steps; i++) { int k = (int)(vh_tr(&r) % 4); if (vh_tr(&r) % 6 == 0) { cnt_null++; if (!M_thread_tls_setspecific(K[k], NULL)) vh_viol("tls:set", "can't unset"); cur[k] = NULL; } else { Val *v = new Val; v->owner = n->id; v->key = k; n->vals.push_back(v); if (!M_thread_tls_setspecific(K[k], v)) vh_viol("tls:set", "can't set key %d", k); cur[k] = v; } breathe(&r); check_vals(n, cur); if (me() != n->id) vh_viol("tls:value", "thread %d is told it is %d", n->id, me()); }
	for (Val *v : n->vals) { bool live = false; for (int k = 0; k < 4; k++) live |= cur[k] == v; if (live && v->dead.load()) vh_viol("tls:early", "a value was destroyed while its thread holds it"); }
	joinall(js, &r); check_vals(n, cur); n->ended = 1; return n->vals.empty() ? (void *)n : (void *)n->vals[0]; }
static void on_exit_cb() { int i = me(); (void)i; M_threadid_t t = M_thread_self(); for (int k = 0; k < n_nodes.load() && k < 64; k++) { Node *q = nodes[k]; if (q && q->tid.load() == t && !q->exits.load()) { q->exits++; return; } } vh_viol("exit:destructor", "the exit destructor ran twice for a thread, or for none of ours"); }
static bool removed; static void never_cb() { vh_viol("exit:removed", "a removed exit destructor ran"); }
static void run_life() {
	start(); case_seed = vh_rnd(); n_nodes = 0; for (auto &q : nodes) q = NULL; ordr = 1; static int once; if (!once) { once = 1; KID = M_thread_tls_key_create(NULL); K[0] = M_thread_tls_key_create(d0); K[1] = M_thread_tls_key_create(d1); K[2] = M_thread_tls_key_create(d2); K[3] = M_thread_tls_key_create(NULL); Kd[0] = Kd[1] = Kd[2] = true; M_thread_destructor_insert(on_exit_cb); M_thread_destructor_insert(never_cb); M_thread_destructor_remove(never_cb); }
	size_t base = M_thread_count(); vh_trng r; r.s = vh_rnd(); std::vector<std::pair<Node *, M_threadid_t>> js; int top = (int)vh_range(1, 5); for (int i = 0; i < top; i++) { Node *c = mknode(&r, 0); if (!c) break; M_threadid_t t = launch(c); if (c->join) js.push_back({ c, t }); if (vh_chance(50)) breathe(&r); } joinall(js, &r);
	uint64_t t0 = vh_now_us(); while (M_thread_count() != base) { M_thread_yield(M_TRUE); if (!coop) ch_sleep_us(50); ch_tick(); if (vh_now_us() - t0 > 10000000) { vh_viol("count", "the thread count is %zu 10 s after the last thread, it was %zu", M_thread_count(), base); break; } }
	if (M_thread_tls_getspecific(KID) != NULL) vh_viol("tls:value", "the main thread has a value it never set");
	int n = n_nodes.load(); for (int i = 0; i < n; i++) { Node *c = nodes[i].load(); if (c->runs.load() != 1) vh_viol("run:count", "thread %d ran %d times", i, c->runs.load()); if (c->exits.load() != 1) vh_viol("exit:destructor", "the exit destructor ran %d times for thread %d", c->exits.load(), i); if (!c->join) cnt_det++; for (Val *v : c->vals) { int want = Kd[v->key] ? 1 : 0; if (v->dead.load() != want) vh_viol("tls:destructor", "thread %d key %d: the destructor ran %d times for a value, not %d", i, v->key, v->dead.load(), want); } }
	if (!coop) ch_sleep_us(200); /* detached threads leave their last lines */
	for (int i = 0; i < n; i++) { for (Val *v : nodes[i].load()->vals) delete v; delete nodes[i].load(); nodes[i] = NULL; }
	if (M_thread_join((M_threadid_t)0x7ffffff0, NULL)) vh_viol("join:unknown", "a thread that never was could be joined"); if (M_thread_tls_setspecific(987654321, (void *)1) || M_thread_tls_getspecific(987654321)) vh_viol("tls:unknown", "an unknown key holds a value");
	vh_count("threads", (uint64_t)n); vh_count("joins", cnt_join.exchange(0)); vh_count("detached", cnt_det.exchange(0)); vh_count("tls_reads", cnt_tls.exchange(0)); vh_count("tls_destructors", cnt_d.exchange(0)); vh_count("tls_unset", cnt_null.exchange(0)); vh_distinct(vh_hu(ordr.load(), case_seed)); ch_flush(); }

/* ---- once ---- */
struct On { M_thread_once_t c; std::atomic<int> in{0}, done{0}, wins{0}, ready{0}, gen{0}; int nt, rounds; long data = 0; uint64_t seed; std::atomic<int> bar{0}; }; static On *cur_on;
static void once_init(M_uint64 flags) { On *o = cur_on; if (o->in.fetch_add(1) != 0) vh_viol("once:twice", "two initialisers at once"); for (int i = 0; i < 3; i++) { if (coop) M_thread_yield(M_TRUE); else ch_sleep_us(flags % 100); } o->data = (long)flags; o->done++; o->in--; }
struct OT { On *o; int id; };
static void *once_thread(void *a) { OT *t = (OT *)a; On *o = t->o; vh_trng r; r.s = o->seed + (uint64_t)t->id * 31337; for (int k = 0; k < o->rounds; k++) { o->bar++; while (o->bar.load() < o->nt * (2 * k + 1)) { M_thread_yield(M_TRUE); } if (vh_tr(&r) % 3 == 0) breathe(&r); int d0 = k; M_bool w = M_thread_once(&o->c, once_init, (M_uint64)(1000 + k)); if (w) o->wins++; if (o->done.load() != d0 + 1) vh_viol("once:before", "M_thread_once returned %s with %d of %d initialisations done", w ? "TRUE" : "FALSE", o->done.load(), d0 + 1); if (o->data != 1000 + k) vh_viol("once:data", "the initialised data is not there"); if (M_thread_once(&o->c, once_init, 5)) vh_viol("once:again", "once ran again");
		int b = ++o->bar; if (b == o->nt * (2 * k + 2)) { if (o->wins.load() != k + 1) vh_viol("once:winners", "%d calls returned TRUE in %d rounds", o->wins.load(), k + 1); if (!M_thread_once_reset(&o->c)) vh_viol("once:reset", "can't reset"); if (M_thread_once_reset(&o->c)) vh_viol("once:reset", "reset twice"); o->gen++; } while (o->gen.load() < k + 1) M_thread_yield(M_TRUE); ch_tick(); } return NULL; }
static void run_once() {
	start(); On o; memset(&o.c, 0, sizeof o.c); o.nt = (int)vh_range(2, 6); o.rounds = (int)vh_range(1, 5); o.seed = vh_rnd(); cur_on = &o; std::vector<OT> t((size_t)o.nt); std::vector<M_threadid_t> ids; M_thread_attr_t *at = M_thread_attr_create(); M_thread_attr_set_create_joinable(at, M_TRUE); M_thread_attr_set_stack_size(at, 1024 * 1024); for (int i = 0; i < o.nt; i++) { t[(size_t)i] = OT{ &o, i }; ids.push_back(M_thread_create(at, once_thread, &t[(size_t)i])); } M_thread_attr_destroy(at); for (auto i : ids) M_thread_join(i, NULL); VH_CHECK(o.done.load() == o.rounds && o.wins.load() == o.rounds, "once:count", "%d initialisations and %d winners in %d rounds", o.done.load(), o.wins.load(), o.rounds); VH_CHECK(!M_thread_once(NULL, once_init, 0) && !M_thread_once(&o.c, NULL, 0), "once:args", "once accepted NULL"); vh_count("once_rounds", (uint64_t)o.rounds); vh_distinct(o.seed); ch_flush(); }

/* ---- the library started and cleaned up again and again ---- */
static std::vector<int> clog; static void cl_cb(void *a) { clog.push_back((int)(intptr_t)a); }
static std::atomic<int> cy_runs; static std::atomic<int> cy_dead; static void cy_d(void *p) { if (p) cy_dead++; } static M_thread_tls_key_t cyk; static void *cy_thread(void *a) { M_thread_tls_setspecific(cyk, a); cy_runs++; return a; }
static void run_cycle() {
	ch_case(-1); bool co = vh_chance(30); if (co) ch_pct = 0; M_bool ok = M_thread_init(co ? M_THREAD_MODEL_COOP : M_THREAD_MODEL_NATIVE); VH_CHECK(ok, "cycle:init", "the thread system can't be started again"); VH_CHECK(!M_thread_init(M_THREAD_MODEL_NATIVE), "cycle:init", "it was started twice"); M_thread_model_t m = M_THREAD_MODEL_INVALID; M_thread_active_model(&m, NULL); VH_CHECK(m == (co ? M_THREAD_MODEL_COOP : M_THREAD_MODEL_NATIVE), "cycle:model", "another model is active");
	int nc = (int)vh_rndn(6); clog.clear(); for (int i = 0; i < nc; i++) M_library_cleanup_register(cl_cb, (void *)(intptr_t)(i + 1)); cy_runs = 0; cy_dead = 0; cyk = M_thread_tls_key_create(cy_d); int nt = (int)vh_rndn(4); M_thread_attr_t *at = M_thread_attr_create(); M_thread_attr_set_create_joinable(at, M_TRUE); M_thread_attr_set_stack_size(at, 1024 * 1024); std::vector<M_threadid_t> ids; for (int i = 0; i < nt; i++) ids.push_back(M_thread_create(at, cy_thread, (void *)(intptr_t)(i + 1))); M_thread_attr_destroy(at);
	for (size_t i = 0; i < ids.size(); i++) { void *rv = NULL; VH_CHECK(M_thread_join(ids[i], &rv) && rv == (void *)(intptr_t)(i + 1), "cycle:join", "thread %zu joined with %p", i, rv); VH_CHECK(!M_thread_join(ids[i], &rv), "cycle:join", "a thread was joined twice"); }
	VH_CHECK(cy_runs.load() == nt && cy_dead.load() == nt, "cycle:threads", "%d of %d threads ran, %d values were destroyed", cy_runs.load(), nt, cy_dead.load()); VH_CHECK(M_thread_count() == 0, "cycle:count", "the count is %zu", M_thread_count()); bool mainv = vh_chance(50); if (mainv) M_thread_tls_setspecific(cyk, (void *)5);
	M_library_cleanup(); VH_CHECK(cy_dead.load() == nt + mainv, "cycle:main", "%d values destroyed, %d set", cy_dead.load(), nt + mainv); VH_CHECK((int)clog.size() == nc, "cycle:cleanup", "%zu of %d cleanup callbacks ran", clog.size(), nc); for (int i = 0; i < nc; i++) VH_CHECK(clog[(size_t)i] == nc - i, "cycle:cleanup", "cleanup callback %d ran in place %d", clog[(size_t)i], i); M_library_cleanup(); VH_CHECK((int)clog.size() == nc, "cycle:cleanup", "cleanup ran callbacks twice");
	vh_count("cycles", 1); vh_count("callbacks", (uint64_t)nc); vh_count("cycle_threads", (uint64_t)nt); vh_distinct(vh_hu((uint64_t)(nc * 100 + nt * 10 + mainv * 2 + co), vh_case)); ch_flush(); }
const vh_mode_t vh_modes[] = { { "life", run_life, init_native, fini }, { "life_coop", run_life, init_coop, fini }, { "once", run_once, init_native, fini }, { "once_coop", run_once, init_coop, fini }, { "cycle", run_cycle, init_cycle, fini }, { 0 } };
