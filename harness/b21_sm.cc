/* B21: state machines. A reference interpreter written from the documentation steps alongside the real machine; every
 * callback of both is logged (who, with what reason / sub status / proposed next) and the logs and statuses must agree. */
#include "vh.hpp"
#include <vector>
#include <map>
#include <set>
#include <algorithm>
typedef M_state_machine_status_t St;
enum { NFN = 48 };
#define SMST(x) M_STATE_MACHINE_STATUS_##x
static std::vector<S> *cur_log;
static std::map<int, int> calls_real, calls_model, *calls_;
static uint64_t script_seed; static int budget;
static std::map<int, std::vector<uint64_t>> ids_of; /* uid -> ids in its machine */
static uint64_t mixh(uint64_t a, uint64_t b) { return vh_hash(&a, sizeof(a), b * 0x9e3779b97f4a7c15ULL + 1); }
/* what callback `uid` does on its n-th call: a pure function of the case */
static int profile; static bool is_err(St s) { return s != SMST(DONE) && s != SMST(WAIT) && s != SMST(PAUSE); }
static St decide(int uid, int n, char kind, uint64_t *next, bool can_wait)
{
	uint64_t h = mixh(mixh(script_seed, (uint64_t)uid), (uint64_t)n); unsigned p = h % 100; h >>= 8;
	if (budget-- <= 0) return SMST(DONE);
	static const unsigned w[3][7] = { /* next prev continue pause wait done error(rest) */ { 55, 5, 7, 6, 14, 6, 7 }, { 72, 2, 3, 3, 12, 5, 3 }, { 35, 10, 15, 10, 15, 5, 10 } };
	St s = SMST(ERROR_STATE); unsigned acc = 0; static const St o[] = { SMST(NEXT), SMST(PREV), SMST(CONTINUE), SMST(PAUSE), SMST(WAIT), SMST(DONE), SMST(ERROR_STATE) };
	for (int i = 0; i < 7; i++) { acc += w[profile][i]; if (p < acc) { s = o[i]; break; } }
	if (s == SMST(WAIT) && !can_wait) s = SMST(NEXT);
	(void)kind;
	unsigned q = h % 100; h >>= 8;
	auto &v = ids_of[uid];
	if (q < 22 && !v.empty()) *next = v[h % v.size()]; else if (q < 24) *next = 9999; else if (q < 26) *next = 0;
	return s;
}
static M_bool real_pre_ret(int uid, int n) { return mixh(mixh(script_seed + 77, (uint64_t)uid), (uint64_t)n) % 100 < 85 ? M_TRUE : M_FALSE; }
static St do_func(int uid, uint64_t *next) { int n = (*calls_)[uid]++; uint64_t in = *next; St s = decide(uid, n, 'f', next, true); cur_log->push_back(vh_fmt("f%d(%llu)->%d,%llu", uid, (unsigned long long)in, s, (unsigned long long)*next)); return s; }
static St do_clean(int uid, int reason, uint64_t *next) { int n = (*calls_)[uid]++; uint64_t in = *next; St s = decide(uid, n, 'c', next, true); cur_log->push_back(vh_fmt("c%d(reason %d,%llu)->%d,%llu", uid, reason, (unsigned long long)in, s, (unsigned long long)*next)); return s; }
static bool do_pre(int uid, St *st, uint64_t *next) { int n = (*calls_)[uid + 1000]++; uint64_t in = *next; bool r = real_pre_ret(uid, n); St s = decide(uid + 1000, n, 'p', next, true); if (!r) *st = s; cur_log->push_back(vh_fmt("pre%d(%llu)->%d,%d,%llu", uid, (unsigned long long)in, (int)r, (int)s, (unsigned long long)*next)); return r; }
static St do_post(int uid, St sub, uint64_t *next)
{
	int n = (*calls_)[uid + 2000]++; uint64_t in = *next; St s = decide(uid + 2000, n, 'q', next, false);
	if (sub != SMST(DONE) && (mixh(script_seed + 5, (uint64_t)n) & 1)) s = sub;
	cur_log->push_back(vh_fmt("post%d(sub %d,%llu)->%d,%llu", uid, sub, (unsigned long long)in, s, (unsigned long long)*next)); return s;
}
static int data_tag;
template <int N> static St f_cb(void *d, M_uint64 *next) { VH_CHECK(d == &data_tag, "data", "wrong data pointer"); uint64_t x = *next; St s = do_func(N, &x); *next = x; return s; }
template <int N> static St c_cb(void *d, M_state_machine_cleanup_reason_t r, M_uint64 *next) { VH_CHECK(d == &data_tag, "data", "wrong data pointer"); uint64_t x = *next; St s = do_clean(N, r, &x); *next = x; return s; }
template <int N> static M_bool p_cb(void *d, St *st, M_uint64 *next) { VH_CHECK(d == &data_tag, "data", "wrong data pointer"); uint64_t x = *next; bool b = do_pre(N, st, &x); *next = x; return MB(b); }
template <int N> static St q_cb(void *d, St sub, M_uint64 *next) { VH_CHECK(d == &data_tag, "data", "wrong data pointer"); uint64_t x = *next; St s = do_post(N, sub, &x); *next = x; return s; }
static M_state_machine_state_cb ftab[NFN]; static M_state_machine_cleanup_cb ctab[NFN]; static M_state_machine_pre_cb ptab[NFN]; static M_state_machine_post_cb qtab[NFN];
template <int N> struct Fill { static void go() { ftab[N] = f_cb<N>; ctab[N] = c_cb<N>; ptab[N] = p_cb<N>; qtab[N] = q_cb<N>; Fill<N - 1>::go(); } };
template <> struct Fill<-1> { static void go() {} };

/* ---- definition shared by both */
struct MDef; struct SDef { uint64_t id; int kind; /* 0 func 1 sub 2 interleaved */ int uid; bool pre, post; MDef *sub; std::vector<MDef *> subs; MDef *cleanup; bool restrict_; std::vector<uint64_t> nexts; };
struct MDef { bool clean; unsigned flags; std::vector<SDef> st; };
static std::vector<MDef *> all_; static int uids_; static int nstates_;
static MDef *gen(bool clean, int depth)
{
	MDef *m = new MDef; all_.push_back(m); m->clean = clean; m->flags = 0;
	static const unsigned fl[] = { M_STATE_MACHINE_SINGLE_PREV, M_STATE_MACHINE_CONTINUE_LOOP, M_STATE_MACHINE_SELF_CALL, M_STATE_MACHINE_DONE_CLEANUP, M_STATE_MACHINE_ONE_CLEANUP, M_STATE_MACHINE_INTERNOABORT };
	for (unsigned f : fl) if (vh_chance(35)) m->flags |= f;
	if (vh_chance(85)) m->flags |= M_STATE_MACHINE_LINEAR_END;
	if (vh_chance(6)) m->flags |= M_STATE_MACHINE_EXPLICIT_NEXT;
	int n = vh_chance(2) ? 0 : (int)vh_range(1, depth ? 3 : 5); std::vector<uint64_t> ids; std::vector<int> us;
	for (int i = 0; i < n && uids_ < NFN; i++) {
		SDef s; s.uid = uids_++; do s.id = vh_range(1, 12); while (std::find(ids.begin(), ids.end(), s.id) != ids.end());
		ids.push_back(s.id); us.push_back(s.uid); s.kind = 0; s.pre = vh_chance(50); s.post = vh_chance(50); s.sub = s.cleanup = NULL; s.restrict_ = vh_chance(8); nstates_++;
		int k = (int)vh_rndn(100);
		if (depth < 3 && k < 22) { s.kind = 1; s.sub = gen(clean && vh_chance(70), depth + 1); }
		else if (depth < 2 && !clean && k < 38) { s.kind = 2; int c = vh_chance(4) ? 0 : (int)vh_range(1, 3); for (int j = 0; j < c; j++) s.subs.push_back(gen(false, depth + 1)); }
		if (depth < 3 && vh_chance(clean ? 15 : 50)) s.cleanup = gen(true, depth + 1);
		m->st.push_back(s);
	}
	for (auto &s : m->st) for (uint64_t id : ids) if (vh_chance(60)) s.nexts.push_back(id);
	for (auto &s : m->st) { ids_of[s.uid] = ids; ids_of[s.uid + 1000] = ids; ids_of[s.uid + 2000] = ids; }
	return m;
}
static S show(const MDef *m)
{
	S o = vh_fmt("%s{flags %u", m->clean ? "C" : "M", m->flags);
	for (auto &s : m->st) {
		o += vh_fmt(" %llu:%d", (unsigned long long)s.id, s.uid);
		if (s.kind == 1) o += "sub" + S(s.pre ? "<" : "") + S(s.post ? ">" : "") + show(s.sub);
		if (s.kind == 2) { o += "inter" + S(s.pre ? "<" : "") + S(s.post ? ">" : "") + "["; for (auto p : s.subs) o += show(p); o += "]"; }
		if (s.restrict_) { o += "(only"; for (auto i : s.nexts) o += vh_fmt(" %llu", (unsigned long long)i); o += ")"; }
		if (s.cleanup) o += "~" + show(s.cleanup);
	}
	return o + "}";
}
static M_state_machine_t *real(const MDef *d)
{
	M_state_machine_t *m = d->clean ? (M_state_machine_t *)M_state_machine_cleanup_create(7, "c", d->flags) : M_state_machine_create(7, "m", d->flags);
	for (auto &s : d->st) {
		M_state_machine_cleanup_t *c = s.cleanup ? (M_state_machine_cleanup_t *)real(s.cleanup) : NULL; M_list_u64_t *nx = NULL; M_bool ok;
		if (s.restrict_) { nx = M_list_u64_create(M_LIST_U64_NONE); for (auto i : s.nexts) M_list_u64_insert(nx, i); }
		if (s.kind == 0) ok = d->clean ? M_state_machine_cleanup_insert_state((M_state_machine_cleanup_t *)m, s.id, (M_uint64)s.uid, "s", ctab[s.uid], c, nx) : M_state_machine_insert_state(m, s.id, (M_uint64)s.uid, "s", ftab[s.uid], c, nx);
		else if (s.kind == 1) {
			M_state_machine_t *sm = real(s.sub); M_state_machine_pre_cb p = s.pre ? ptab[s.uid] : NULL; M_state_machine_post_cb q = s.post ? qtab[s.uid] : NULL;
			if (!d->clean) ok = M_state_machine_insert_sub_state_machine(m, s.id, (M_uint64)s.uid, NULL, sm, p, q, c, nx);
			else if (s.sub->clean) ok = M_state_machine_cleanup_insert_cleanup_sub_state_machine((M_state_machine_cleanup_t *)m, s.id, (M_uint64)s.uid, NULL, (M_state_machine_cleanup_t *)sm, p, q, c, nx);
			else ok = M_state_machine_cleanup_insert_sub_state_machine((M_state_machine_cleanup_t *)m, s.id, (M_uint64)s.uid, NULL, sm, p, q, c, nx);
			M_state_machine_destroy(sm);
		} else {
			ok = M_state_machine_insert_state_interleaved(m, s.id, (M_uint64)s.uid, "i", s.pre ? ptab[s.uid] : NULL, s.post ? qtab[s.uid] : NULL, c, nx);
			for (auto p : s.subs) { M_state_machine_t *sm = real(p); VH_CHECK(M_state_machine_insert_sub_state_machine_interleaved(m, s.id, sm), "insert", "interleaved insert refused"); M_state_machine_destroy(sm); }
		}
		VH_CHECK(ok, "insert", "state %llu refused", (unsigned long long)s.id);
		if (c) M_state_machine_cleanup_destroy(c);
	}
	return m;
}
/* ---- reference interpreter */
struct MM; struct MS { const SDef *d; MM *sub, *cleanup; std::vector<MM *> subs; std::vector<St> done; bool irun; };
struct MM {
	const MDef *d; std::vector<MS> st; bool running; uint64_t cur; int reason, outer; St ret; std::vector<uint64_t> cl, prev; std::set<uint64_t> seen, cont;
	MM(const MDef *def) : d(def), running(false), cur(0), reason(0), outer(0), ret(SMST(NONE)) { for (auto &s : def->st) { MS m; m.d = &s; m.irun = false; m.sub = s.sub ? new MM(s.sub) : NULL; m.cleanup = s.cleanup ? new MM(s.cleanup) : NULL; for (auto p : s.subs) { m.subs.push_back(new MM(p)); m.done.push_back(SMST(NONE)); } st.push_back(m); } }
	~MM() { for (auto &s : st) { delete s.sub; delete s.cleanup; for (auto p : s.subs) delete p; } }
	MS *find(uint64_t id) { for (auto &s : st) if (s.d->id == id) return &s; return NULL; }
	bool fl(unsigned f) { return (d->flags & f) != 0; }
	static bool held(St s) { return s == SMST(WAIT) || s == SMST(PAUSE); }
	St run_cleanups()
	{
		while (!cl.empty()) {
			uint64_t id = cl.back(); MS *s = find(id); cl.pop_back();
			if (!s || !s->cleanup || (fl(M_STATE_MACHINE_ONE_CLEANUP) && seen.count(id))) continue;
			s->cleanup->outer = reason; vh_count("cleanups", 1);
			St r = s->cleanup->run();
			if (held(r)) { cl.push_back(id); vh_count("cleanup_waits", 1); return r; }
			if (is_err(r)) vh_count("cleanup_errors", 1);
			seen.insert(id);
		}
		return SMST(DONE);
	}
	St finish(St why, int rsn) { reason = rsn; ret = why; return wind(); }
	St wind()
	{
		MS *s = find(cur);
		if (s && s->sub && s->sub->running) { St r = s->sub->run(); if (held(r)) return r; }
		if (s && s->irun) { for (auto p : s->subs) if (p->running) { St r = p->run(); if (held(r)) return r; } s->irun = false; for (auto &x : s->done) x = SMST(NONE); }
		St r = run_cleanups(); if (held(r)) return r;
		cl.clear(); seen.clear(); running = false; return ret;
	}
	St run()
	{
		if (st.empty()) { running = false; cur = 0; return SMST(DONE); }
		if (!running) { cont.clear(); cl.clear(); seen.clear(); prev.clear(); cur = st[0].d->id; reason = 0; ret = SMST(NONE); running = true; }
		for (;;) {
			if (reason) return wind();
			MS *s = find(cur); if (!s) return finish(SMST(ERROR_BAD_ID), M_STATE_MACHINE_CLEANUP_REASON_ERROR);
			uint64_t next = 0; St r; bool stay = false;
			if (!fl(M_STATE_MACHINE_EXPLICIT_NEXT)) { size_t i = (size_t)(s - &st[0]); if (i + 1 < st.size()) next = st[i + 1].d->id; }
			if (s->d->kind == 0) {
				r = d->clean ? do_clean(s->d->uid, outer, &next) : do_func(s->d->uid, &next);
				if (r != SMST(WAIT) && r != SMST(CONTINUE)) cl.push_back(cur);
			} else if (s->d->kind == 1) {
				bool enter = true; r = SMST(NEXT); vh_count("subs", 1);
				if (s->d->pre && !s->sub->running) enter = do_pre(s->d->uid, &r, &next);
				if (enter) {
					if (!s->sub->running) cl.push_back(cur);
					s->sub->outer = outer; r = s->sub->run();
					if (held(r)) stay = true;
					else if (s->d->post) r = do_post(s->d->uid, r, &next);
					else if (r == SMST(DONE)) r = SMST(NEXT);
				}
			} else {
				bool enter = true; r = SMST(NEXT); vh_count("interleaves", 1);
				if (s->d->pre && !s->irun) enter = do_pre(s->d->uid, &r, &next);
				if (enter) {
					if (!s->irun) cl.push_back(cur);
					s->irun = true; bool all = true; St first = SMST(DONE);
					for (size_t i = 0; i < s->subs.size(); i++) {
						if (s->done[i] != SMST(NONE) && !held(s->done[i])) continue;
						s->done[i] = s->subs[i]->run(); vh_count("interleaved_turns", 1);
						if (held(s->done[i])) all = false;
						else if (s->done[i] != SMST(DONE) && !fl(M_STATE_MACHINE_INTERNOABORT)) { first = s->done[i]; all = true; for (size_t j = 0; j < s->subs.size(); j++) if (s->subs[j]->running) { s->subs[j]->reset(0); vh_count("aborted_subs", 1); } break; }
					}
					if (!all) { r = SMST(WAIT); }
					else {
						if (first == SMST(DONE)) for (auto x : s->done) if (x != SMST(DONE)) { first = x; break; }
						for (auto &x : s->done) x = SMST(NONE);
						s->irun = false; r = first;
						if (s->d->post) r = do_post(s->d->uid, r, &next); else if (r == SMST(DONE)) r = SMST(NEXT);
					}
				}
			}
			if (r == SMST(WAIT)) { cont.clear(); return r; }
			if (r == SMST(PAUSE) && stay) { cont.clear(); return r; }
			if (r == SMST(NEXT) || r == SMST(CONTINUE) || r == SMST(PAUSE)) {
				if (next == 0) {
					if (fl(M_STATE_MACHINE_EXPLICIT_NEXT) || !fl(M_STATE_MACHINE_LINEAR_END)) return finish(SMST(ERROR_NO_NEXT), M_STATE_MACHINE_CLEANUP_REASON_ERROR);
					if (fl(M_STATE_MACHINE_DONE_CLEANUP)) return finish(SMST(DONE), M_STATE_MACHINE_CLEANUP_REASON_DONE);
					cl.clear(); seen.clear(); running = false; return SMST(DONE);
				}
				if (s->d->restrict_ && std::find(s->d->nexts.begin(), s->d->nexts.end(), next) == s->d->nexts.end()) return finish(SMST(ERROR_BAD_NEXT), M_STATE_MACHINE_CLEANUP_REASON_ERROR);
				if (r == SMST(CONTINUE)) { if (!fl(M_STATE_MACHINE_CONTINUE_LOOP) && cont.count(next)) return finish(SMST(ERROR_INF_CONT), M_STATE_MACHINE_CLEANUP_REASON_ERROR); cont.insert(next); }
				else { if (fl(M_STATE_MACHINE_SINGLE_PREV)) prev.clear(); prev.push_back(cur); cont.clear(); }
				if (next == cur && !fl(M_STATE_MACHINE_SELF_CALL)) return finish(SMST(ERROR_SELF_NEXT), M_STATE_MACHINE_CLEANUP_REASON_ERROR);
				cur = next; if (r == SMST(PAUSE)) return r;
				continue;
			}
			if (r == SMST(PREV)) { if (prev.empty()) { cur = 0; return finish(SMST(ERROR_NO_PREV), M_STATE_MACHINE_CLEANUP_REASON_ERROR); } cur = prev.back(); prev.pop_back(); continue; }
			cont.clear();
			if (r == SMST(DONE)) { if (fl(M_STATE_MACHINE_DONE_CLEANUP)) return finish(r, M_STATE_MACHINE_CLEANUP_REASON_DONE); cl.clear(); seen.clear(); running = false; return r; }
			return finish(r, M_STATE_MACHINE_CLEANUP_REASON_ERROR);
		}
	}
	void reset(int rsn)
	{
		if (!running) return;
		MS *s = find(cur);
		if (s && s->sub) s->sub->reset(rsn);
		if (s && s->d->kind == 2) { for (auto p : s->subs) p->reset(rsn); for (auto &x : s->done) x = SMST(NONE); if (!rsn) s->irun = false; }
		if (!cl.empty()) { MS *c = find(cl.back()); if (c && c->cleanup) c->cleanup->reset(rsn); }
		if (!rsn) { cl.clear(); seen.clear(); prev.clear(); cont.clear(); cur = 0; running = false; }
		reason = rsn; ret = SMST(DONE);
	}
};
static void trace(M_state_machine_trace_t t, M_uint64, const char *, M_uint64, const char *, const char *f, M_uint64, St, M_bool, M_uint64, void *thunk) { VH_CHECK(thunk == &data_tag, "trace", "trace thunk"); VH_CHECK(f != NULL, "trace", "trace %d without description", t); vh_count("traces", 1); }
static S joinl(const std::vector<S> &v) { S o; for (size_t i = 0; i < v.size() && i < 60; i++) o += v[i] + " "; return o; }
static void run(void)
{
	all_.clear(); uids_ = 0; nstates_ = 0; ids_of.clear(); calls_real.clear(); calls_model.clear(); script_seed = vh_rnd(); profile = (int)vh_rndn(3);
	MDef *d = gen(false, 0); M_state_machine_t *m = real(d); MM *mm = new MM(d);
	vh_log("machine %s", E(show(d)));
	if (vh_chance(15)) { M_state_machine_t *x = M_state_machine_duplicate(m); VH_CHECK(x != NULL, "dup", "duplicate failed"); M_state_machine_destroy(m); m = x; vh_count("dups", 1); }
	if (vh_chance(25)) M_state_machine_enable_trace(m, trace, &data_tag);
	int rounds = (int)vh_range(2, 30); uint64_t hh = 0; bool interesting = false;
	for (int k = 0; k < rounds; k++) {
		std::vector<S> lr, lm; int b0 = (int)vh_range(20, 120);
		budget = b0; cur_log = &lm; calls_ = &calls_model; St sm = mm->run();
		budget = b0; cur_log = &lr; calls_ = &calls_real; St sr = M_state_machine_run(m, &data_tag);
		if (lr != lm) { size_t i = 0; while (i < lr.size() && i < lm.size() && lr[i] == lm[i]) i++; vh_fail("trace", "run %d callback %zu is %s, expected %s (before: %s) in %s", k, i, i < lr.size() ? lr[i].c_str() : "none", i < lm.size() ? lm[i].c_str() : "none", i ? lr[i - 1].c_str() : "-", E(show(d))); }
		VH_CHECK(sr == sm, "status", "run %d returned %d, expected %d after %s in %s", k, sr, sm, E(joinl(lr)), E(show(d)));
		M_uint64 id = 77; M_bool act = M_state_machine_active_state(m, &id);
		VH_CHECK(act == MB(mm->running), "active", "after run %d the machine is %srunning, expected the opposite", k, act ? "" : "not ");
		if (mm->running) VH_CHECK(id == mm->cur, "active", "after run %d the active state is %llu, expected %llu", k, (unsigned long long)id, (unsigned long long)mm->cur);
		vh_count("runs", 1); vh_count("callbacks", lr.size()); vh_count(vh_fmt("status_%d", sr).c_str(), 1);
		for (auto &x : lr) hh = vh_hstr(x.c_str(), hh);
		hh = mixh(hh, (uint64_t)sr); if (lr.size() > 2) interesting = true;
		vh_log("run %d -> %d: %s", k, sr, E(joinl(lr)));
		if (vh_chance(10)) {
			int rsn = (int)vh_rndn(3); rsn = rsn == 0 ? 0 : rsn == 1 ? M_STATE_MACHINE_CLEANUP_REASON_RESET : M_STATE_MACHINE_CLEANUP_REASON_CANCEL;
			if (mm->running) vh_count(rsn ? "resets_cleanup" : "resets", 1);
			vh_log("reset %d", rsn); mm->reset(rsn); M_state_machine_reset(m, (M_state_machine_cleanup_reason_t)rsn);
		}
		if (vh_chance(5)) { char *f = M_state_machine_descr_full(m, M_TRUE); VH_CHECK(f != NULL, "descr", "no description"); M_free(f); M_state_machine_active_state_descr(m, M_TRUE); M_state_machine_ndescr(m, M_TRUE); }
	}
	if (interesting) vh_distinct(hh);
	M_state_machine_destroy(m); delete mm; for (auto p : all_) delete p;
}
static void setup(void) { Fill<NFN - 1>::go(); }
static void registry(void)
{
	M_state_machine_t *m = M_state_machine_create(1, "x", 0); std::vector<uint64_t> ids; Fill<NFN - 1>::go();
	M_state_machine_t *e = M_state_machine_create(2, NULL, 0);
	for (int k = 0; k < 40; k++) {
		uint64_t id = vh_rndn(8); bool has = std::find(ids.begin(), ids.end(), id) != ids.end(); M_bool r; bool want;
		switch (vh_rndn(5)) {
			case 0: case 1: r = M_state_machine_insert_state(m, id, 0, NULL, vh_chance(90) ? ftab[0] : NULL, NULL, NULL); want = id != 0 && !has; if (!r && want) { r = M_state_machine_insert_state(m, id, 0, NULL, ftab[0], NULL, NULL); } if (want) ids.push_back(id); break;
			case 2: r = M_state_machine_insert_sub_state_machine(m, id, 0, "s", e, NULL, NULL, NULL, NULL); want = id != 0 && !has; if (want) ids.push_back(id); break;
			case 3: r = M_state_machine_remove_state(m, id); want = has; if (has) ids.erase(std::find(ids.begin(), ids.end(), id)); break;
			default: r = M_state_machine_has_state(m, id); want = has;
		}
		VH_CHECK(r == MB(want), "registry", "answer %d for id %llu, expected %d", r, (unsigned long long)id, want);
		const M_list_u64_t *l = M_state_machine_list_states(m); bool same = M_list_u64_len(l) == ids.size(); for (size_t i = 0; same && i < ids.size(); i++) same = M_list_u64_at(l, i) == ids[i];
		VH_CHECK(same, "registry", "state list differs after op %d", k); vh_count("ops", 1);
	}
	M_state_machine_destroy(m); M_state_machine_destroy(e);
}
const vh_mode_t vh_modes[] = { { "run", run, setup, NULL }, { "registry", registry, NULL, NULL }, { 0 } };
