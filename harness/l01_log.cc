/* L01: log routing against an exact model, delivery under concurrency, overflow and suspension. */
#include "vh.hpp"
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/mstdlib_log.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <map>
#include <atomic>

/* ---- the syslog of the system, recorded ---- */
static pthread_mutex_t g_lk = PTHREAD_MUTEX_INITIALIZER;
static std::map<int, VS> g_sys;                       /* facility -> messages, first character the priority */
static int g_badprio; static unsigned g_slow_us;
static void sys_add(int pri, const S &m) { pthread_mutex_lock(&g_lk); int fac = pri & ~7; if (pri < 0 || (pri & ~0x3ff)) g_badprio = pri ? pri : -1; else g_sys[fac].push_back(S(1, (char)('0' + (pri & 7))) + m); pthread_mutex_unlock(&g_lk); }
extern "C" {
void __wrap_syslog(int pri, const char *fmt, ...) { va_list ap; va_start(ap, fmt); char b[8192]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (g_slow_us) usleep(g_slow_us); sys_add(pri, b); }
void __wrap_openlog(const char *, int, int) { }
void __wrap_closelog(void) { }
}
static VS sys_take(int fac) { pthread_mutex_lock(&g_lk); VS v = g_sys[fac]; g_sys.erase(fac); pthread_mutex_unlock(&g_lk); return v; }

static S slurp(const S &p) { S o; FILE *f = fopen(p.c_str(), "r"); if (!f) return "<missing>"; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }

/* ---- model ---- */
struct Mod { int kind; /* 0 membuf 1 file 2 syslog */ M_log_module_t *h; M_uint64 tags; int filt; bool live; size_t max; S exp; VS sys; S path; int fac; bool reuse; };
static std::atomic<int> g_thunks;
struct FT { int kind; M_uint64 t; };
static void ft_free(void *p) { delete (FT *)p; g_thunks--; }
static bool filt_ok(int kind, M_uint64 t, M_uint64 tag, void *msg_thunk) { switch (kind) { case 0: return true; case 1: return tag != t; case 2: return msg_thunk != NULL && (*(unsigned *)msg_thunk & 1); default: return false; } }
static M_bool filt_cb(M_uint64 tag, void *ft, void *mt) { FT *f = (FT *)ft; return filt_ok(f->kind, f->t, tag, mt) ? M_TRUE : M_FALSE; }
static S prefix_s(int style, M_uint64 tag, void *mt) { char b[64]; if (style == 1) snprintf(b, sizeof b, " <%llx> ", (unsigned long long)tag); else snprintf(b, sizeof b, "|%u|", mt ? *(unsigned *)mt : 0); return b; }
static void prefix_cb(M_buf_t *buf, M_uint64 tag, void *pt, void *mt) { S s = prefix_s(((FT *)pt)->kind, tag, mt); M_buf_add_bytes(buf, s.data(), s.size()); }
static S rtrim(S s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return s; }
static VS lines_of(const S &m) { VS v; size_t p = 0; while (p < m.size()) { size_t e = m.find_first_of("\r\n", p); if (e == S::npos) { v.push_back(m.substr(p)); break; } v.push_back(m.substr(p, e - p)); p = m.find_first_not_of("\r\n", e); if (p == S::npos) break; } return v; }

static const M_uint64 TAGS[] = { 1, 2, 4, 8, 1ull << 20, 1ull << 40, 1ull << 63 };
static M_uint64 any_tag(void) { return TAGS[vh_rndn(7)]; }
static S gen_msg(void)
{
	static const VS parts = { "hello", "a b", "\n", "\r\n", "\n\n", "\t", "  ", "%s %n", "x", "", "\xc3\xa9", "[tag]", ": " };
	if (vh_chance(3)) return S(900 + vh_rndn(300), 'L') + (vh_chance(30) ? "\tend" : "");
	S s; for (size_t n = 1 + vh_rndn(6); n-- > 0;) s += vh_pick(parts); return s;
}
static void unlink_all(const VS &p) { for (auto &x : p) unlink(x.c_str()); }

static void route(void)
{
	bool win = vh_chance(20); S eol = win ? "\r\n" : "\n";
	M_log_t *log = M_log_create(win ? M_LOG_LINE_END_WINDOWS : M_LOG_LINE_END_UNIX, M_TRUE, NULL); g_thunks = 0;
	std::vector<Mod> mods; std::map<M_uint64, S> names; bool pad = false, susp = false; S tf = "T"; int pstyle = 0; VS paths; unsigned nsys = 0;
	M_log_set_time_format(log, "T");
	size_t nops = 4 + vh_rndn(60); unsigned msgs = 0; S hist;
	for (size_t op = 0; op < nops; op++) {
		unsigned k = (unsigned)vh_rndn(100);
		if (op < 2 || (k < 8 && mods.size() < 8)) {
			Mod m; m.kind = (int)vh_rndn(3); m.tags = 0; m.filt = 0; m.live = true; m.max = 0; m.h = NULL; m.fac = 0; m.reuse = false; M_log_error_t e;
			if (m.kind == 2 && nsys >= 6) m.kind = 0;
			if (m.kind == 0) { m.max = vh_chance(40) ? vh_rndn(200) : 100000; e = M_log_module_add_membuf(log, m.max, 3600, NULL, NULL, &m.h); VH_CHECK(e == M_LOG_SUCCESS, "add", "membuf: %d", (int)e); }
			else if (m.kind == 1) {
				m.path = S(vh_tmpdir()) + "/f" + std::to_string(vh_case) + "_" + std::to_string(mods.size()); unlink(m.path.c_str()); if (vh_chance(20)) { FILE *f = fopen(m.path.c_str(), "w"); fputs("old\n", f); fclose(f); m.exp = "old\n"; } paths.push_back(m.path);
				e = M_log_module_add_file(log, m.path.c_str(), 3, 0, 0, 1000000, NULL, NULL, &m.h);
				VH_CHECK(e == (susp ? M_LOG_SUSPENDED : M_LOG_SUCCESS), "add", "file: %d suspended %d", (int)e, susp); if (e) { VH_CHECK(m.h == NULL, "add", "module given although the call failed"); continue; }
			} else {
				m.fac = (16 + (int)nsys++) << 3; e = M_log_module_add_syslog(log, "prod", (M_syslog_facility_t)m.fac, 1000000, &m.h);
				VH_CHECK(e == (susp ? M_LOG_SUSPENDED : M_LOG_SUCCESS), "add", "syslog: %d", (int)e); if (e) continue;
				if (vh_chance(60)) { m.reuse = true; M_log_module_syslog_set_tag_priority(log, m.h, 1 | 8, M_SYSLOG_ERR); M_log_module_syslog_set_tag_priority(log, m.h, 1ull << 63, M_SYSLOG_DEBUG); }
			}
			if (vh_chance(90)) { for (size_t n = 1 + vh_rndn(6); n-- > 0;) m.tags |= any_tag(); if (vh_chance(20)) m.tags = M_log_all_tags_gte(4); VH_CHECK(M_log_module_set_accepted_tags(log, m.h, m.tags) == M_LOG_SUCCESS, "tags", "set"); M_uint64 o = 0; VH_CHECK(M_log_module_get_accepted_tags(log, m.h, &o) == M_LOG_SUCCESS && o == m.tags, "tags", "got %llx set %llx", (unsigned long long)o, (unsigned long long)m.tags); }
			mods.push_back(m); continue;
		}
		Mod *m = mods.empty() ? NULL : &mods[vh_rndn(mods.size())];
		if (k < 62) { /* message */
			M_uint64 tag = any_tag(); S msg = gen_msg(); unsigned id = msgs++; void *mt = vh_chance(70) ? &id : NULL; 
			if (vh_chance(4)) { M_uint64 bad = vh_chance(50) ? 0 : 5; VH_CHECK(M_log_write(log, bad, NULL, "bad") == M_LOG_INVALID_TAG, "tag:invalid", "tag %llu accepted", (unsigned long long)bad); continue; }
			M_log_error_t e = vh_chance(30) ? M_log_printf(log, tag, mt, "%s", msg.c_str()) : M_log_write(log, tag, mt, msg.c_str());
			VH_CHECK(e == M_LOG_SUCCESS || (msg.empty() && e == M_LOG_INVALID_PARAMS), "write", "%d", (int)e); hist += S(" ") + E(msg); vh_count("messages", 1);
			size_t w = 0; for (auto &n : names) w = std::max(w, n.second.size());
			for (auto &l : lines_of(msg)) {
				S o = tf; auto n = names.find(tag); if (n != names.end()) { o += " [" + n->second + "]"; if (pad) o += S(w - n->second.size(), ' '); }
				o += pstyle ? prefix_s(pstyle, tag, mt) : S(": "); o = rtrim(o + l) + eol; vh_count("lines", 1);
				for (auto &d : mods) {
					if (!d.live || !(d.tags & tag) || !filt_ok(d.filt, 4, tag, mt)) continue;
					vh_count("deliveries", 1);
					if (d.kind == 0) { if (d.exp.size() <= d.max) d.exp += o; }
					else if (d.kind == 1) d.exp += o;
					else { S t; for (char c : o) if (c == '\t') t += "    "; else t += c; if (t.size() > 1024) { t = t.substr(0, 1024 - eol.size()) + eol; vh_count("truncated", 1); } int pr = !d.reuse ? 6 : (tag == 1 || tag == 8) ? 3 : tag == 1ull << 63 ? 7 : 6; d.sys.push_back(S(1, (char)('0' + pr)) + t); }
				}
			}
		} else if (k < 68 && m && m->live) { m->tags = 0; for (size_t n = vh_rndn(5); n-- > 0;) m->tags |= any_tag(); M_log_module_set_accepted_tags(log, m->h, m->tags);
		} else if (k < 74 && m && m->live) { m->filt = (int)vh_rndn(4); g_thunks++; VH_CHECK(M_log_module_set_filter(log, m->h, filt_cb, new FT{ m->filt, 4 }, ft_free) == M_LOG_SUCCESS, "filter", "set"); vh_count("filters", 1);
		} else if (k < 80) {
			M_uint64 t = any_tag(); static const VS nm = { "A", "Bb", "Long name", "err", "", "bB" }; S n = vh_pick(nm); bool dup = false; for (auto &x : names) if (x.first != t && !n.empty() && !strcasecmp(x.second.c_str(), n.c_str())) dup = true;
			M_log_error_t e = M_log_set_tag_name(log, t, n.c_str()); VH_CHECK(e == (dup ? M_LOG_DUPLICATE_TAG_NAME : M_LOG_SUCCESS), "name", "naming %llx %s: %d", (unsigned long long)t, E(n), (int)e);
			if (!dup) { if (n.empty()) names.erase(t); else names[t] = n; }
			for (M_uint64 x : TAGS) { const char *g = M_log_get_tag_name(log, x); auto i = names.find(x); VH_CHECK((g ? S(g) : S()) == (i == names.end() ? S() : i->second), "name", "name of %llx is %s", (unsigned long long)x, g ? g : "none"); }
			for (auto &x : nm) { M_uint64 want = 0; for (auto &y : names) if (!strcasecmp(y.second.c_str(), x.c_str())) want = y.first; VH_CHECK(M_log_get_tag(log, x.c_str()) == want, "name", "tag of %s", E(x)); }
		} else if (k < 82) { pad = vh_chance(50); M_log_set_tag_names_padded(log, pad ? M_TRUE : M_FALSE);
		} else if (k < 84) { pstyle = (int)vh_rndn(3); if (pstyle) { g_thunks++; M_log_set_prefix(log, prefix_cb, new FT{ pstyle, 0 }, ft_free); } else M_log_set_prefix(log, NULL, NULL, NULL);
		} else if (k < 86) { static const VS tfs = { "T", "100%%", "at", "[%q]" }; S f = vh_pick(tfs); VH_CHECK(M_log_set_time_format(log, f.c_str()) == M_LOG_SUCCESS, "time", "format"); tf = f == "100%%" ? "100%" : f;
		} else if (k < 88) { if (!susp) { M_log_suspend(log); susp = true; vh_count("suspends", 1); }
		} else if (k < 92) { if (susp) { M_log_resume(log, NULL); susp = false; }
		} else if (k < 95 && m) { if (m->live) VH_CHECK(M_log_module_reopen(log, m->h) == M_LOG_SUCCESS, "reopen", "kind %d", m->kind); else M_log_reopen_all(log);
		} else if (k < 97 && m && m->live && m->kind == 0) {
			M_buf_t *b = NULL; VH_CHECK(M_log_module_take_membuf(log, m->h, &b) == M_LOG_SUCCESS && b, "take", "failed"); S got(M_buf_peek(b) ? M_buf_peek(b) : "", M_buf_len(b)); VH_CHECK(got == m->exp, "membuf", "holds %s instead of %s", E(got), E(m->exp)); M_buf_cancel(b); m->live = false; vh_count("taken", 1);
			VH_CHECK(M_log_module_take_membuf(log, m->h, &b) == M_LOG_MODULE_NOT_FOUND && M_log_module_set_accepted_tags(log, m->h, 1) == M_LOG_MODULE_NOT_FOUND && M_log_module_reopen(log, m->h) == M_LOG_MODULE_NOT_FOUND && M_log_module_file_rotate(log, m->h) == M_LOG_MODULE_NOT_FOUND && M_log_module_syslog_set_tag_priority(log, m->h, 1, M_SYSLOG_ERR) == M_LOG_MODULE_NOT_FOUND && !M_log_module_present(log, m->h), "removed", "operations on a removed module");
		} else if (k < 98 && m && m->live && !susp) { VH_CHECK(M_log_module_remove(log, m->h) == M_LOG_SUCCESS, "remove", "failed"); m->live = false; vh_count("removed", 1);
		} else if (m && m->live) { M_log_error_t e = M_log_module_take_membuf(log, m->kind == 0 ? NULL : m->h, NULL); VH_CHECK(e == (m->kind == 0 ? M_LOG_INVALID_PARAMS : M_LOG_WRONG_MODULE), "wrong", "take on kind %d: %d", m->kind, (int)e); }
	}
	if (susp) M_log_resume(log, NULL);
	for (auto &m : mods) if (m.live && m.kind == 0) { M_buf_t *b = NULL; VH_CHECK(M_log_module_take_membuf(log, m.h, &b) == M_LOG_SUCCESS && b, "take", "failed"); S got(M_buf_peek(b) ? M_buf_peek(b) : "", M_buf_len(b)); VH_CHECK(got == m.exp, "membuf", "holds %s instead of %s", E(got), E(m.exp)); M_buf_cancel(b); m.live = false; }
	M_list_t *all = M_log_all_modules(log); size_t live = 0; for (auto &m : mods) live += m.live; VH_CHECK(M_list_len(all) == live, "modules", "%zu listed, %zu exist", M_list_len(all), live); M_list_destroy(all, M_FALSE);
	M_log_destroy_blocking(log, 0);
	VH_CHECK(g_thunks == 0, "thunk", "%d callback arguments not freed", (int)g_thunks);
	S h;
	for (auto &m : mods) {
		if (m.kind == 1) { S got; for (int i = 0; i < 3000; i++) { got = slurp(m.path); if (m.live || got == m.exp) break; usleep(1000); } VH_CHECK(got == m.exp, "file", "%zu bytes %s of %zu bytes %s live %d after%s", got.size(), E(got), m.exp.size(), E(m.exp), m.live, hist.c_str()); h += got; }
		if (m.kind == 2) { VS got; for (int i = 0; i < 3000; i++) { VS n = sys_take(m.fac); got.insert(got.end(), n.begin(), n.end()); if (m.live || got.size() >= m.sys.size()) break; usleep(1000); } VH_CHECK(got.size() == m.sys.size(), "syslog", "%zu messages instead of %zu after%s", got.size(), m.sys.size(), hist.c_str()); for (size_t i = 0; i < got.size() && i < m.sys.size(); i++) VH_CHECK(got[i] == m.sys[i], "syslog", "message %zu is %s instead of %s", i, E(got[i]), E(m.sys[i])); }
		h += m.exp;
	}
	VH_CHECK(!g_badprio, "syslog:priority", "%d", g_badprio); vh_distinct(vh_hash(h.data(), h.size(), 0)); unlink_all(paths);
}

/* ---- several threads log while another one suspends, resumes, reopens, adds and removes ---- */
struct TCtx { M_log_t *log; unsigned id, n; };
static void *logger(void *a) { TCtx *c = (TCtx *)a; unsigned s = c->id * 977 + 1; for (unsigned i = 0; i < c->n; i++) { M_log_error_t e = i % 7 == 3 ? M_log_printf(c->log, 2, NULL, "<%u:%ua\nb%u:%u>", c->id, i, c->id, i) : M_log_printf(c->log, 2, NULL, "<%u:%u>", c->id, i); if (e) vh_viol("write", "error %d", (int)e); s = s * 1103515245 + 12345; if ((s >> 16) % 8 == 0) usleep((s >> 20) % 300); } return NULL; }
static void verify(const char *what, const S &got, unsigned nth, unsigned n, bool all)
{
	std::vector<unsigned> next(nth, 0); std::vector<bool> half(nth, false); size_t p = 0; unsigned cnt = 0; S rest = got;
	while (p < got.size()) {
		size_t e = got.find('\n', p); VH_CHECK(e != S::npos, "threads:partial", "%s ends in the middle of a line", what); if (e == S::npos) return; S l = got.substr(p, e - p); p = e + 1; unsigned t, i; char c = 0;
		if (sscanf(l.c_str(), "T: b%u:%u>", &t, &i) == 2) { VH_CHECK(t < nth && ((half[t] && next[t] == i + 1) || (!all && next[t] == 0)), "threads:second", "%s: %s without its first line", what, E(l)); half[t] = false; continue; }
		if (sscanf(l.c_str(), "T: <%u:%u%c", &t, &i, &c) < 2 || t >= nth) { VH_CHECK(0, "threads:garbled", "%s has %s", what, E(l)); return; }
		VH_CHECK(all ? i == next[t] : i >= next[t], "threads:order", "%s: thread %u wrote %u, expected %u", what, t, i, next[t]); VH_CHECK(!half[t], "threads:second", "%s: second line missing before %s", what, E(l)); next[t] = i + 1; half[t] = c == 'a'; cnt++;
	}
	if (all) for (unsigned t = 0; t < nth; t++) VH_CHECK(next[t] == n, "threads:lost", "%s: %u of %u messages of thread %u", what, next[t], n, t);
	vh_count("lines_seen", cnt);
}
static void threads(void)
{
	M_log_t *log = M_log_create(M_LOG_LINE_END_UNIX, M_TRUE, NULL); M_log_set_time_format(log, "T"); unsigned nth = 2 + (unsigned)vh_rndn(4), n = 30 + (unsigned)vh_rndn(60);
	S path = S(vh_tmpdir()) + "/t" + std::to_string(vh_case); unlink(path.c_str()); (void)sys_take(8);
	M_log_module_t *mb, *fl, *sy; M_log_module_add_membuf(log, 10000000, 3600, NULL, NULL, &mb); M_log_module_add_file(log, path.c_str(), 3, 0, 0, 10000000, NULL, NULL, &fl); M_log_module_add_syslog(log, "p", M_SYSLOG_FACILITY_USER, 10000000, &sy);
	M_log_module_set_accepted_tags(log, mb, 6); M_log_module_set_accepted_tags(log, fl, 2); M_log_module_set_accepted_tags(log, sy, 3);
	g_slow_us = vh_chance(30) ? 20 : 0;
	std::vector<TCtx> c(nth); std::vector<pthread_t> th(nth);
	for (unsigned i = 0; i < nth; i++) { c[i] = { log, i, n }; pthread_create(&th[i], NULL, logger, &c[i]); }
	VS extra; std::vector<M_log_module_t *> xm;
	for (unsigned k = 0; k < 12; k++) {
		usleep((unsigned)vh_rndn(600));
		switch (vh_rndn(8)) {
			case 0: if (vh_chance(40)) { M_log_suspend(log); usleep((unsigned)vh_rndn(500)); M_log_resume(log, NULL); vh_count("suspends", 1); } break;
			case 1: M_log_reopen_all(log); vh_count("reopens", 1); break;
			case 2: M_log_module_reopen(log, fl); break;
			case 3: { M_log_module_t *x = NULL; M_log_module_add_membuf(log, 1000000, 3600, NULL, NULL, &x); M_log_module_set_accepted_tags(log, x, 2); xm.push_back(x); break; }
			case 4: if (!xm.empty()) { M_buf_t *b = NULL; M_log_module_take_membuf(log, xm.back(), &b); xm.pop_back(); S g(M_buf_peek(b) ? M_buf_peek(b) : "", M_buf_len(b)); size_t q = g.find("T: <"); if (q != S::npos) { if (q) g = g.substr(q); verify("a buffer added in between", g, nth, n, false); } M_buf_cancel(b); vh_count("taken", 1); } break;
			case 5: M_log_set_tag_name(log, 4, vh_chance(50) ? "four" : ""); break;
			case 6: M_log_module_set_filter(log, sy, NULL, NULL, NULL); M_log_module_syslog_set_tag_priority(log, sy, 1, M_SYSLOG_ERR); break;
			default: { M_list_t *l = M_log_all_modules(log); M_list_destroy(l, M_FALSE); M_uint64 t; M_log_module_get_accepted_tags(log, fl, &t); }
		}
	}
	for (auto &t : th) pthread_join(t, NULL);
	M_buf_t *b = NULL; M_log_module_take_membuf(log, mb, &b); S mbs(M_buf_peek(b), M_buf_len(b)); M_buf_cancel(b);
	if (vh_chance(30)) { M_log_module_remove(log, fl); for (int i = 0; i < 5000 && slurp(path).size() < mbs.size(); i++) usleep(1000); }
	M_log_destroy_blocking(log, 0);
	verify("the buffer", mbs, nth, n, true); verify("the file", slurp(path), nth, n, true);
	S sys; for (auto &x : sys_take(8)) { VH_CHECK(x[0] == '6', "threads:priority", "%s", E(x)); sys += x.substr(1); } verify("syslog", sys, nth, n, true);
	vh_distinct(vh_hash(mbs.data(), mbs.size(), 0)); unlink(path.c_str());
}

/* ---- small queues: what isn't delivered is announced, and suspension survives an overflow ---- */
static void overflow(void)
{
	M_log_t *log = M_log_create(M_LOG_LINE_END_UNIX, M_TRUE, NULL); M_log_set_time_format(log, "T"); S path = S(vh_tmpdir()) + "/o" + std::to_string(vh_case); unlink(path.c_str()); (void)sys_take(8);
	bool usesys = vh_chance(60); size_t q = 40 + vh_rndn(300); M_log_module_t *m = NULL;
	if (usesys) M_log_module_add_syslog(log, "p", M_SYSLOG_FACILITY_USER, q, &m); else M_log_module_add_file(log, path.c_str(), 3, 0, 0, q, NULL, NULL, &m);
	M_log_module_set_accepted_tags(log, m, 1); g_slow_us = vh_chance(50) ? 100 : 0;
	unsigned n = 20 + (unsigned)vh_rndn(200), i = 0, big = 0; bool susp = false; size_t period = 1 + vh_rndn(40);
	while (i < n) {
		if (vh_rndn(n) < 2) { if (!susp) { M_log_suspend(log); susp = true; vh_count("suspends", 1); } else { M_log_resume(log, NULL); susp = false; } }
		if (vh_chance(2)) { M_log_printf(log, 1, NULL, "%s", S(q + 10, 'B').c_str()); big++; continue; }
		M_log_printf(log, 1, NULL, "<%u>", i++); if (i % period == 0) usleep((unsigned)vh_rndn(400));
	}
	if (susp) M_log_resume(log, NULL);
	/* afterwards the module still has to work */
	for (int w = 0; w < 400; w++) { S g; if (usesys) { pthread_mutex_lock(&g_lk); for (auto &x : g_sys[8]) g += x; pthread_mutex_unlock(&g_lk); } else g = slurp(path); if (g.find("<" + std::to_string(n - 1) + ">") != S::npos) break; usleep(5000); }
	M_log_printf(log, 1, NULL, "<%u>", n); M_log_destroy_blocking(log, 0);
	VS ls; if (usesys) for (auto &x : sys_take(8)) { VH_CHECK(x[0] == '6', "overflow:priority", "%s", E(x)); S y = x.substr(1); VH_CHECK(!y.empty() && y.back() == '\n', "overflow:line", "%s", E(y)); ls.push_back(y.substr(0, y.size() - 1)); } else ls = lines_of(slurp(path));
	unsigned long seen = 0, dropped = 0, next = 0; unsigned long d; S ctx;
	for (auto &l : ls) { unsigned long v; if (sscanf(l.c_str(), "T: <%lu>", &v) == 1) { VH_CHECK(v >= next, "overflow:order", "%lu after %lu", v, next); unsigned long gap = v - next; VH_CHECK(gap <= dropped + seen * 0 + big + n, "overflow:gap", "x"); next = v + 1; seen++; } else if (sscanf(l.c_str(), "%lu messages were dropped", &d) == 1) { VH_CHECK(d > 0, "overflow:zero", "%s", E(l)); dropped += d; vh_count("notices", 1); } else VH_CHECK(0, "overflow:garbled", "%s", E(l)); }
	VH_CHECK(!g_badprio, "overflow:priority", "syslog priority %d", g_badprio);
	VH_CHECK(seen + dropped == n + 1ul + big, "overflow:account", "%lu written, %lu announced as dropped, %u logged", seen, dropped, n + 1 + big);
	VH_CHECK(next == n + 1ul, "overflow:stuck", "the last message was not written (%lu)", next); vh_count("dropped", dropped); vh_count("written", seen); vh_distinct(seen * 1000 + dropped); unlink(path.c_str());
}
static void notimeout(void) { alarm(120); }
const vh_mode_t vh_modes[] = { {"route", route, notimeout, NULL}, {"threads", threads, notimeout, NULL}, {"overflow", overflow, notimeout, NULL}, {} };
