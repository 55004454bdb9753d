/* T04: atomics: single-thread meaning, and concurrent histories that must form one chain consistent with program order and time. */
#include "chaos.hpp"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_thread.h>
#include <time.h>
#include <unordered_map>
static void init() { M_thread_init(M_THREAD_MODEL_NATIVE); ch_watch(); }
static void fini() { ch_flush(); M_library_cleanup(); }
static uint64_t mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000u + (uint64_t)t.tv_nsec; }

/* ---- one thread ---- */
static uint64_t edge(int bits) { static const uint64_t E64[] = { 0, 1, 2, 0x7fffffffull, 0x80000000ull, 0xfffffffeull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, 0xffffffffffffffffull }; uint64_t v = vh_chance(60) ? E64[vh_rndn(12)] : vh_rnd() >> vh_rndn(64); return bits == 32 ? (uint32_t)v : v; }
template <typename T> struct Ops;
template <> struct Ops<uint32_t> { static uint32_t add(volatile uint32_t *p, uint32_t v) { return M_atomic_add_u32(p, v); } static uint32_t sub(volatile uint32_t *p, uint32_t v) { return M_atomic_sub_u32(p, v); } static uint32_t inc(volatile uint32_t *p) { return M_atomic_inc_u32(p); } static uint32_t dec(volatile uint32_t *p) { return M_atomic_dec_u32(p); } static bool cas(volatile uint32_t *p, uint32_t e, uint32_t n) { return M_atomic_cas32(p, e, n) == M_TRUE; } };
template <> struct Ops<uint64_t> { typedef M_uint64 U; static uint64_t add(volatile uint64_t *p, uint64_t v) { return M_atomic_add_u64((volatile U *)p, v); } static uint64_t sub(volatile uint64_t *p, uint64_t v) { return M_atomic_sub_u64((volatile U *)p, v); } static uint64_t inc(volatile uint64_t *p) { return M_atomic_inc_u64((volatile U *)p); } static uint64_t dec(volatile uint64_t *p) { return M_atomic_dec_u64((volatile U *)p); } static bool cas(volatile uint64_t *p, uint64_t e, uint64_t n) { return M_atomic_cas64((volatile U *)p, e, n) == M_TRUE; } };
template <typename T> static void seq() {
	const int B = (int)sizeof(T) * 8; struct { T g0, v, g1; } o; o.g0 = (T)vh_rnd(); o.g1 = (T)vh_rnd(); T a = o.g0, b = o.g1; o.v = (T)edge(B); T m = o.v; uint64_t h = m;
	for (int i = 0; i < 12; i++) { T d = (T)edge(B), r = 0, want = m; int op = (int)vh_rndn(6); bool ok;
		switch (op) { case 0: r = Ops<T>::add(&o.v, d); m = (T)(m + d); break; case 1: r = Ops<T>::sub(&o.v, d); m = (T)(m - d); break; case 2: r = Ops<T>::inc(&o.v); m = (T)(m + 1); break; case 3: r = Ops<T>::dec(&o.v); m = (T)(m - 1); break;
		case 4: ok = Ops<T>::cas(&o.v, m, d); VH_CHECK(ok, "cas:equal", "%d bit compare and set from the current value %llu failed", B, (unsigned long long)m); r = m; m = d; break;
		default: { T e = vh_chance(40) ? (T)(m ^ (T)((T)1 << vh_rndn((uint64_t)B))) : (T)edge(B); if (e == m) e = (T)(e + 1); ok = Ops<T>::cas(&o.v, e, d); VH_CHECK(!ok, "cas:differs", "%d bit compare and set expecting %llu succeeded on %llu", B, (unsigned long long)e, (unsigned long long)m); r = m; } }
		VH_CHECK(r == want, "seq:old", "operation %d of a %d bit value %llu by %llu returned %llu", op, B, (unsigned long long)want, (unsigned long long)d, (unsigned long long)r);
		VH_CHECK(o.v == m, "seq:value", "operation %d of a %d bit value %llu by %llu left %llu, not %llu", op, B, (unsigned long long)want, (unsigned long long)d, (unsigned long long)o.v, (unsigned long long)m);
		VH_CHECK(o.g0 == a && o.g1 == b, "seq:neighbour", "operation %d of a %d bit value changed its neighbour", op, B); o.v = m; h = vh_hu(d + (uint64_t)op, h); }
	vh_count("steps", 12); vh_distinct(h); }
static void run_seq() { if (vh_case & 1) seq<uint32_t>(); else seq<uint64_t>(); }

/* ---- histories ---- */
enum { A_ADD, A_SUB, A_INC, A_DEC, A_CAS, A_RETRY };
struct Ev { int op, th; uint64_t d, oldv, newv, s, e; bool ok; };
struct Hist { volatile uint64_t pad0[8]; volatile uint64_t v64; volatile uint64_t pad1[8]; volatile uint32_t l32, v32, r32; std::atomic<int> ready{0}; int nt, ops, kind; bool w64; uint64_t seed; std::vector<std::vector<Ev>> ev; };
struct HT { Hist *h; int id; };
template <typename T> static void body(Hist *h, int id, volatile T *p) {
	vh_trng r; r.s = h->seed + (uint64_t)id * 104729; auto &ev = h->ev[(size_t)id]; h->ready++; for (int n = 0; h->ready.load() < h->nt; n++) if (n > 2000) sched_yield();
	for (int i = 0; i < h->ops; i++) { Ev x; x.th = id; x.ok = true; uint64_t d = vh_tr(&r); x.d = (T)d; x.op = h->kind == 0 ? (int)(vh_tr(&r) % 2) : h->kind == 1 ? A_INC + (int)(vh_tr(&r) % 2) : h->kind == 2 ? A_CAS : (vh_tr(&r) % 4 ? (int)(vh_tr(&r) % 2) : A_CAS);
		T o = 0, n = 0; x.s = mono();
		switch (x.op) { case A_ADD: o = Ops<T>::add(p, (T)d); n = (T)(o + (T)d); break; case A_SUB: o = Ops<T>::sub(p, (T)d); n = (T)(o - (T)d); break; case A_INC: o = Ops<T>::inc(p); n = (T)(o + 1); break; case A_DEC: o = Ops<T>::dec(p); n = (T)(o - 1); break; default: o = __atomic_load_n(p, __ATOMIC_RELAXED); n = (T)d; x.s = mono(); x.ok = Ops<T>::cas(p, o, n); }
		x.e = mono(); x.oldv = o; x.newv = n; ev.push_back(x); if (vh_tr(&r) % 16 == 0) for (volatile int k = 0; k < 50; k = k + 1) ; } }
static void *hist_thread(void *a) { HT *t = (HT *)a; if (t->h->w64) body<uint64_t>(t->h, t->id, &t->h->v64); else body<uint32_t>(t->h, t->id, &t->h->v32); return NULL; }
static M_threadid_t spawn(void *(*f)(void *), void *a) { M_thread_attr_t *at = M_thread_attr_create(); M_thread_attr_set_create_joinable(at, M_TRUE); M_threadid_t id = M_thread_create(at, f, a); M_thread_attr_destroy(at); if (!id) { vh_viol("create", "M_thread_create returned 0"); _exit(98); } return id; }
static void run_hist() {
	ch_tick(); Hist h; memset((void *)h.pad0, 0x5a, sizeof h.pad0); memset((void *)h.pad1, 0x5a, sizeof h.pad1); h.l32 = h.r32 = 0x5a5a5a5a; h.seed = vh_rnd(); h.nt = (int)vh_range(2, 6); h.ops = (int)vh_range(20, 120); h.w64 = vh_chance(50); h.kind = (int)vh_rndn(4); h.ev.resize((size_t)h.nt); for (auto &e : h.ev) e.reserve((size_t)h.ops);
	uint64_t v0 = vh_rnd(); h.v64 = v0; h.v32 = (uint32_t)v0; if (!h.w64) v0 = (uint32_t)v0; const char *kinds[] = { "add/sub", "inc/dec", "compare and set", "mixed" };
	std::vector<HT> t((size_t)h.nt); std::vector<M_threadid_t> ids; for (int i = 0; i < h.nt; i++) { t[(size_t)i] = HT{ &h, i }; ids.push_back(spawn(hist_thread, &t[(size_t)i])); } for (auto i : ids) M_thread_join(i, NULL);
	uint64_t vf = h.w64 ? h.v64 : h.v32; for (int i = 0; i < 8; i++) VH_CHECK(h.pad0[i] == 0x5a5a5a5a5a5a5a5aull && h.pad1[i] == 0x5a5a5a5a5a5a5a5aull, "hist:neighbour", "memory beside the value changed"); VH_CHECK(h.l32 == 0x5a5a5a5a && h.r32 == 0x5a5a5a5a, "hist:neighbour", "memory beside the value changed");
	std::vector<Ev> all, failed; for (auto &e : h.ev) for (auto &x : e) (x.ok ? all : failed).push_back(x);
	const char *K = kinds[h.kind]; int B = h.w64 ? 64 : 32; vh_count("ops", all.size()); vh_count("failed_cas", failed.size());
	if (h.kind == 1) { /* values repeat: net balance per value, every visited value reached */
		std::unordered_map<uint64_t, long> bal; uint64_t net = v0; for (auto &x : all) { bal[x.oldv]++; bal[x.newv]--; net += x.op == A_INC ? 1 : ~(uint64_t)0; } if (!h.w64) net = (uint32_t)net; VH_CHECK(net == vf, "hist:lost", "%zu concurrent %d bit %s from %llu end at %llu, not %llu", all.size(), B, K, (unsigned long long)v0, (unsigned long long)vf, (unsigned long long)net);
		bal[v0]--; bal[vf]++; for (auto &b : bal) VH_CHECK(b.second == 0, "hist:chain", "%d bit %s: the value %llu was left %ld more times than reached", B, K, (unsigned long long)b.first, b.second);
		vh_distinct(h.seed); vh_count("balanced", 1); return; }
	std::unordered_map<uint64_t, size_t> from; for (size_t i = 0; i < all.size(); i++) { if (all[i].op != A_CAS && all[i].d == 0) return; if (from.count(all[i].oldv)) { if (h.w64) vh_fail("hist:twice", "two %d bit %s both replaced %llu", B, K, (unsigned long long)all[i].oldv); else { /* a 32 bit value may come back by chance: then it is produced twice too */ size_t made = all[i].oldv == v0; for (auto &x : all) made += x.newv == all[i].oldv; VH_CHECK(made >= 2, "hist:twice", "two %d bit %s both replaced %llu", B, K, (unsigned long long)all[i].oldv); vh_count("ambiguous", 1); return; } } from[all[i].oldv] = i; }
	std::vector<size_t> chain; uint64_t v = v0; for (size_t i = 0; i < all.size(); i++) { auto it = from.find(v); if (it == from.end()) { vh_fail("hist:chain", "%d bit %s: nobody continues from %llu, step %zu of %zu", B, K, (unsigned long long)v, i, all.size()); return; } chain.push_back(it->second); v = all[it->second].newv; from.erase(it); }
	VH_CHECK(v == vf, "hist:final", "%d bit %s: the chain of operations ends at %llu, the value is %llu", B, K, (unsigned long long)v, (unsigned long long)vf);
	std::vector<uint64_t> last((size_t)h.nt, 0); uint64_t maxs = 0, hh = 1, switches = 0; int lt = -1; std::unordered_map<uint64_t, size_t> made; for (size_t i = 0; i < chain.size(); i++) { Ev &x = all[chain[i]]; VH_CHECK(x.e >= maxs, "hist:time", "%d bit %s: an operation took effect after one that began when it had returned", B, K); VH_CHECK(x.s >= last[(size_t)x.th], "hist:program", "%d bit %s: a thread's operations took effect out of order", B, K); last[(size_t)x.th] = x.s; if (x.s > maxs) maxs = x.s; if (x.th != lt) switches++; lt = x.th; hh = vh_hu((uint64_t)x.th, hh); made[x.newv] = i; }
	for (auto &x : failed) { /* was the expected value in place during the whole call? */ size_t nexti; uint64_t since; auto it = made.find(x.oldv); if (it != made.end()) { nexti = it->second + 1; since = all[chain[it->second]].e; } else if (x.oldv == v0) { nexti = 0; since = 0; } else { if (h.w64) vh_fail("hist:phantom", "a %d bit read saw %llu, which nobody stored", B, (unsigned long long)x.oldv); continue; } if (!h.w64) continue; uint64_t until = nexti < chain.size() ? all[chain[nexti]].s : UINT64_MAX; VH_CHECK(!(since < x.s && x.e < until), "cas:spurious", "a %d bit compare and set from the current value %llu failed", B, (unsigned long long)x.oldv); }
	vh_count("switches", switches); vh_count("chains", 1); vh_distinct(hh); }

/* ---- one winner per round ---- */
struct Rn { volatile uint32_t v32; volatile uint64_t v64; bool w64; int nt, rounds; std::atomic<int> bar{0}; std::vector<std::atomic<int>> won; uint64_t base; std::atomic<int> bad{0}; Rn() : won(64) {} };
struct RT { Rn *r; int id; };
static void *race_thread(void *a) { RT *t = (RT *)a; Rn *r = t->r; for (int k = 0; k < r->rounds; k++) { r->bar++; for (int n = 0; r->bar.load() < r->nt * (2 * k + 1); n++) if (n > 2000) sched_yield(); uint64_t e = r->base + (uint64_t)k; bool ok = r->w64 ? Ops<uint64_t>::cas(&r->v64, e, e + 1) : Ops<uint32_t>::cas(&r->v32, (uint32_t)e, (uint32_t)(e + 1)); if (ok) r->won[(size_t)k]++; r->bar++; for (int n = 0; r->bar.load() < r->nt * (2 * k + 2); n++) if (n > 2000) sched_yield(); } return NULL; }
static void run_race() {
	ch_tick(); Rn r; r.w64 = vh_chance(50); r.nt = (int)vh_range(2, 5); r.rounds = (int)vh_range(5, 30); r.base = vh_chance(50) ? 0xfffffffaull : edge(64) ; r.v64 = r.base; r.v32 = (uint32_t)r.base; std::vector<RT> t((size_t)r.nt); std::vector<M_threadid_t> ids; for (int i = 0; i < r.nt; i++) { t[(size_t)i] = RT{ &r, i }; ids.push_back(spawn(race_thread, &t[(size_t)i])); } for (auto i : ids) M_thread_join(i, NULL);
	for (int k = 0; k < r.rounds; k++) VH_CHECK(r.won[(size_t)k].load() == 1, "race:winners", "%d of %d threads won a %d bit compare and set from the same value", r.won[(size_t)k].load(), r.nt, r.w64 ? 64 : 32); vh_count("rounds", (uint64_t)r.rounds); vh_distinct(vh_hu(r.base, vh_hu((uint64_t)(r.nt * 100 + r.rounds), r.w64))); }
const vh_mode_t vh_modes[] = { { "seq", run_seq, init, fini }, { "hist", run_hist, init, fini }, { "race", run_race, init, fini }, { 0 } };
