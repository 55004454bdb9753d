/* F09: configuration registrations against a reference that parses each value from the text written into the file. */
#include "vh.hpp"
#include <mstdlib/mstdlib_formats.h>
#include <mstdlib/mstdlib_text.h>
#include <map>
#include <set>
typedef __int128 I;
enum { T_BUF, T_DUP, T_I8, T_I16, T_I32, T_I64, T_U8, T_U16, T_U32, T_U64, T_SZ, T_BOOL, T_CUSTOM, T_N };
static VS g_err, g_dbg; static S g_path;
static void on_err(const char *p, const char *m) { VH_CHECK(g_path == p, "log:path", "%s", p); g_err.push_back(m); }
static void on_dbg(const char *p, const char *m) { VH_CHECK(g_path == p, "log:path", "%s", p); g_dbg.push_back(m); }
/* converters record what they were given */
static S g_cv; static S g_cd; static bool g_cnull; static int g_ccalls; static M_bool g_cret; static I g_cdef;
struct Call { S val; bool null; S sdef; bool dnull; I def; void *mem; };
static std::map<void *, Call> g_calls; static std::map<void *, bool> g_ret;
#define CALL(m, v, sd, d) do { VH_CHECK(!g_calls.count((void *)(m)), "converter:twice", "called twice"); Call c; c.val = (v) ? (v) : ""; c.null = !(v); c.sdef = (sd) ? (sd) : ""; c.dnull = !(sd); c.def = (d); c.mem = (void *)(m); g_calls[(void *)(m)] = c; } while (0)
static M_bool cbuf(char *b, size_t n, const char *v, const char *d) { CALL(b, v, d, (I)n); if (n > 2) { b[0] = 'C'; b[1] = 0; } return g_ret[b] ? M_TRUE : M_FALSE; }
static M_bool cdup(char **m, const char *v, const char *d) { CALL(m, v, d, 0); *m = M_strdup("conv"); return g_ret[m] ? M_TRUE : M_FALSE; }
template<class T> static M_bool cint(T *m, const char *v, T d) { CALL(m, v, (const char *)NULL, (I)d); *m = 77; return g_ret[m] ? M_TRUE : M_FALSE; }
static M_bool cbool(M_bool *m, const char *v, M_bool d) { CALL(m, v, (const char *)NULL, (I)d); *m = M_TRUE; return g_ret[m] ? M_TRUE : M_FALSE; }
static M_bool ccustom(void *m, const char *v) { CALL(m, v, (const char *)NULL, 0); return g_ret[m] ? M_TRUE : M_FALSE; }
static std::vector<std::pair<void *, bool>> g_val; static std::vector<void *> g_vorder;
static M_bool validator(void *d) { g_vorder.push_back(d); for (auto &v : g_val) if (v.first == d) return v.second ? M_TRUE : M_FALSE; vh_viol("validator", "unknown data"); return M_FALSE; }

static I lim(int t, bool max) { switch (t) { case T_I8: return max ? 127 : -128; case T_I16: return max ? 32767 : -32768; case T_I32: return max ? 2147483647 : -(I)2147483648LL; case T_I64: return max ? (I)9223372036854775807LL : -(I)9223372036854775807LL - 1; case T_U8: return max ? 255 : 0; case T_U16: return max ? 65535 : 0; case T_U32: return max ? (I)4294967295U : 0; default: return max ? (I)18446744073709551615ULL : 0; } }
static S istr(I v) { bool n = v < 0; if (n) v = -v; S s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return n ? "-" + s : s; }
static I pick_int(int t) { I lo = lim(t, false), hi = lim(t, true); switch (vh_rndn(5)) { case 0: return lo + (I)vh_rndn(3); case 1: return hi - (I)vh_rndn(3); case 2: return (I)vh_rndn(100); case 3: return lo < 0 ? -(I)vh_rndn(100) : (I)vh_rndn(200); default: { I span = hi - lo; return lo + (I)(((unsigned __int128)vh_u64() << 1) % (unsigned __int128)(span + 1)); } } }
struct Reg { int t; S key; bool conv, ret; bool hasdef; S sdef; I idef, lo, hi; S regex; size_t blen; char *buf; char *dup; void *mem; size_t guard; };
static bool re_ok(const S &re, const S &v) { /* the three expressions used, by hand */
	auto al = [](char c) { return isalpha((unsigned char)c) != 0; }; auto dg = [](char c) { return c >= '0' && c <= '9'; };
	if (re == "^[a-z]+$") { for (char c : v) if (!al(c)) return false; return !v.empty(); }
	if (re == "[0-9]{2,4}") { for (char c : v) if (!dg(c)) return false; return v.size() >= 2 && v.size() <= 4; }
	if (re == "(on|OFF) ?x*") { size_t p = 0; S l; for (char c : v) l += (char)tolower((unsigned char)c); if (l.compare(0, 2, "on") == 0) p = 2; else if (l.compare(0, 3, "off") == 0) p = 3; else return false; if (p < l.size() && l[p] == ' ') p++; while (p < l.size() && l[p] == 'x') p++; return p == l.size(); }
	return false; /* invalid expression */
}
static void conf(void)
{
	static const VS keys = { "alpha", "Beta", "sec/one", "sec/two", "Other/alpha", "num1", "num2", "flag", "text value", "z9" };
	static const VS res = { "", "^[a-z]+$", "[0-9]{2,4}", "(on|OFF) ?x*", "([" };
	g_err.clear(); g_dbg.clear(); g_calls.clear(); g_ret.clear(); g_val.clear(); g_vorder.clear();
	std::vector<Reg> rs; std::map<S, VS> file; std::vector<S> order; bool multi = vh_chance(30);
	/* which keys are registered */
	std::vector<S> pool(keys.begin(), keys.end());
	for (size_t n = 1 + vh_rndn(8); n-- > 0 && !pool.empty();) {
		Reg r; r.t = (int)vh_rndn(T_N); size_t ki = vh_rndn(pool.size()); r.key = pool[ki]; pool.erase(pool.begin() + (long)ki); r.conv = r.t == T_CUSTOM || vh_chance(15); r.ret = vh_chance(80); r.hasdef = vh_chance(70); r.sdef = r.hasdef ? vh_fmt("def%u", (unsigned)vh_rndn(9)) : S(); r.regex = vh_chance(40) ? vh_pick(res) : S(); r.blen = 1 + vh_rndn(12); r.buf = NULL; r.dup = NULL; r.mem = NULL; r.idef = r.lo = r.hi = 0;
		if (r.t >= T_I8 && r.t <= T_SZ) { r.idef = pick_int(r.t); r.lo = lim(r.t, false); r.hi = lim(r.t, true); if (vh_chance(60)) { I a = pick_int(r.t), b = pick_int(r.t); r.lo = std::min(a, b); r.hi = std::max(a, b); } }
		if (r.t == T_BOOL) r.idef = vh_rndn(2);
		S v; bool has = vh_chance(85);
		if (r.t >= T_I8 && r.t <= T_SZ) switch (vh_rndn(10)) { case 0: v = istr(r.lo - 1); break; case 1: v = istr(r.hi + 1); break; case 2: v = istr(r.lo); break; case 3: v = istr(r.hi); break; case 4: v = istr(lim(r.t, true) + 1 + (I)vh_rndn(3)); break; case 5: v = istr(lim(r.t, false) - 1 - (I)vh_rndn(3)); break; case 6: { static const VS bad = { "+5", "0x10", "-", "--1", "1.5", "abc", "12abc", "1 2", "1e3", "-0", "007", "99999999999999999999", "-99999999999999999999", "18446744073709551616", "36893488147419103233", "4294967296", "-4294967295", "65536", "256", "\xd9\xa1" }; v = vh_pick(bad); break; } default: v = istr(pick_int(r.t)); }
		else if (r.t == T_BOOL) { static const VS b = { "true", "yes", "1", "on", "TRUE", "y", "t", "false", "no", "0", "off", "n" }; v = vh_pick(b); }
		else { static const VS tx = { "abc", "ABC", "12", "12345", "on xx", "Off", "offx", "a b", "", "x", "abcdefghijkl", "abcdefghijk", "say \"hi\"", "# no comment", "k=v", "0", " padded ", "back\\slash", "\xc3\xa9\xc3\xa9" }; v = vh_chance(80) ? vh_pick(tx) : vh_from("abcXYZ019", vh_rndn(14)); }
		if (has) { file[r.key].push_back(v); order.push_back(r.key); if (multi) while (vh_chance(25)) { file[r.key].push_back(vh_fmt("extra%u", (unsigned)vh_rndn(9))); } }
		rs.push_back(r);
	}
	std::set<S> unreg; for (auto &k : pool) if (vh_chance(30)) { file[k].push_back("unregistered"); order.push_back(k); unreg.insert(k); }
	bool dup = !multi && vh_chance(10) && !order.empty(); if (dup) file[order[0]].push_back("again");
	/* the file */
	S txt, sect; auto quote = [](const S &v) { S o = "\""; for (char c : v) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; };
	for (int pass = 0; pass < 3; pass++) { static const char *secs[] = { "", "sec", "Other" }; bool open = pass == 0; for (auto &k : order) { S s, n = k; size_t sl = k.find('/'); if (sl != S::npos) { s = k.substr(0, sl); n = k.substr(sl + 1); } if (s != secs[pass]) continue; if (!open) { txt += "[" + s + "]\n"; open = true; } for (auto &v : file[k]) { bool need = v.find_first_of("\"#=\\ ") != S::npos || v.empty() || vh_chance(20); txt += n + (vh_chance(30) ? " = " : "=") + (need ? quote(v) : v) + "\n"; } if (vh_chance(10)) txt += "# comment\n\n"; } }
	if (txt.empty()) txt = "# nothing\n";
	g_path = S(vh_tmpdir()) + "/c" + std::to_string(vh_case) + ".ini"; FILE *f = fopen(g_path.c_str(), "w"); fwrite(txt.data(), 1, txt.size(), f); fclose(f);
	char eb[200]; memset(eb, 'x', sizeof eb); M_conf_t *c = M_conf_create(g_path.c_str(), multi ? M_TRUE : M_FALSE, eb, sizeof eb);
	if (dup) { VH_CHECK(c == NULL && strstr(eb, "times") != NULL, "duplicate", "two values for %s: %s", E(order[0]), c ? "accepted" : E(S(eb))); unlink(g_path.c_str()); vh_count("duplicates", 1); return; }
	VH_CHECK(c != NULL, "create", "%s for %s", E(S(eb)), E(txt)); unlink(g_path.c_str());
	M_conf_add_error_logger(c, on_err); M_conf_add_debug_logger(c, on_dbg);
	std::map<S, VS> left = file; auto use = [&](const S &k) { auto i = left.find(k); if (i != left.end() && !i->second.empty()) { i->second.pop_back(); if (i->second.empty()) left.erase(i); } };
	std::vector<S> blocks; size_t i = 0;
	for (auto &r : rs) {
		bool ok = false; size_t sz = r.t == T_BUF ? r.blen : 8; r.mem = malloc(sz); memset(r.mem, 0x5a, sz); const char *d = r.hasdef ? r.sdef.c_str() : NULL, *re = r.regex.empty() ? NULL : r.regex.c_str(); const char *k = r.key.c_str();
		g_ret[r.mem] = r.ret;
		#define RI(T, n) ok = M_conf_register_##n(c, k, (T *)r.mem, (T)r.idef, (T)r.lo, (T)r.hi, r.conv ? cint<T> : NULL)
		switch (r.t) { case T_BUF: ok = M_conf_register_buf(c, k, (char *)r.mem, r.blen, d, re, r.conv ? cbuf : NULL); break; case T_DUP: *(char **)r.mem = NULL; ok = M_conf_register_strdup(c, k, (char **)r.mem, d, re, r.conv ? cdup : NULL); break;
			case T_I8: RI(M_int8, int8); break; case T_I16: RI(M_int16, int16); break; case T_I32: RI(M_int32, int32); break; case T_I64: RI(M_int64, int64); break; case T_U8: RI(M_uint8, uint8); break; case T_U16: RI(M_uint16, uint16); break; case T_U32: RI(M_uint32, uint32); break; case T_U64: RI(M_uint64, uint64); break; case T_SZ: RI(size_t, sizet); break;
			case T_BOOL: ok = M_conf_register_bool(c, k, (M_bool *)r.mem, r.idef ? M_TRUE : M_FALSE, r.conv ? cbool : NULL); break; default: ok = M_conf_register_custom(c, k, r.mem, ccustom); }
		VH_CHECK(ok, "register", "%s", k); i++;
	}
	static int vd[4]; for (size_t n = vh_rndn(4), q = 0; q < n; q++) { g_val.push_back({ &vd[q], vh_chance(80) }); VH_CHECK(M_conf_register_validator(c, validator, &vd[q]), "register", "validator"); }
	/* expectations */
	bool want = true; std::set<S> failing; struct X { bool isint; I v; S s; bool null; }; std::vector<X> ex;
	for (auto &r : rs) {
		bool has = file.count(r.key) != 0; S v = has ? file[r.key][0] : S(); bool empty = !has || v.empty(); X x = { r.t >= T_I8 && r.t <= T_BOOL, r.idef, r.sdef, !r.hasdef }; bool good = true;
		if (r.conv) { good = r.ret; x.v = r.t == T_BOOL ? 1 : 77; x.s = r.t == T_BUF ? "C" : "conv"; x.null = false; }
		else if (!empty) {
			if (r.t <= T_DUP) { good = r.regex.empty() || re_ok(r.regex, v); if (good) { x.s = v; x.null = false; } }
			else if (r.t == T_BOOL) { static const std::set<S> tr = { "true", "yes", "1", "on", "TRUE", "y", "t" }; x.v = tr.count(v) ? 1 : 0; }
			else { bool neg = v[0] == '-'; S dg = neg ? v.substr(1) : v; good = !dg.empty() && dg.size() < 30; for (char ch : dg) if (ch < '0' || ch > '9') good = false; if (neg && r.t >= T_U8) good = false; if (good) { I n = 0; for (char ch : dg) n = n * 10 + (ch - '0'); if (neg) n = -n; good = n >= r.lo && n <= r.hi && n >= lim(r.t, false) && n <= lim(r.t, true); if (good) x.v = n; } }
		}
		if (!good) { failing.insert(r.key); want = false; vh_count(r.conv ? "converter_failures" : "rejected", 1); } else vh_count(empty ? "defaults" : "accepted", 1);
		ex.push_back(x); use(r.key);
	}
	for (auto &v : g_val) if (!v.second) want = false;
	bool got = M_conf_parse(c) ? true : false;
	for (size_t q = 0; q < rs.size(); q++) {
		Reg &r = rs[q]; X &x = ex[q]; bool has = file.count(r.key) != 0; S v = has ? file[r.key][0] : S(); S what = vh_fmt("%s type %d value ", r.key.c_str(), r.t) + (has ? E(v) : "none");
		if (r.conv) { VH_CHECK(g_calls.count(r.mem), "converter:missed", "%s", what.c_str()); Call &cl = g_calls[r.mem]; VH_CHECK(cl.val == v && cl.null == !has, "converter:value", "%s: got %s", what.c_str(), cl.null ? "NULL" : E(cl.val)); if (r.t == T_BUF || r.t == T_DUP) VH_CHECK(cl.dnull == !r.hasdef && cl.sdef == r.sdef, "converter:default", "%s", what.c_str()); else if (r.t != T_CUSTOM) VH_CHECK(cl.def == r.idef, "converter:default", "%s", what.c_str()); }
		I g = 0; switch (r.t) { case T_I8: g = *(M_int8 *)r.mem; break; case T_I16: g = *(M_int16 *)r.mem; break; case T_I32: g = *(M_int32 *)r.mem; break; case T_I64: g = *(M_int64 *)r.mem; break; case T_U8: g = *(M_uint8 *)r.mem; break; case T_U16: g = *(M_uint16 *)r.mem; break; case T_U32: g = *(M_uint32 *)r.mem; break; case T_U64: g = *(M_uint64 *)r.mem; break; case T_SZ: g = *(size_t *)r.mem; break; case T_BOOL: g = *(M_bool *)r.mem ? 1 : 0; break; }
		if (x.isint) { VH_CHECK(g == x.v, "value", "%s in %s..%s default %s: stored %s instead of %s", what.c_str(), istr(r.lo).c_str(), istr(r.hi).c_str(), istr(r.idef).c_str(), istr(g).c_str(), istr(x.v).c_str()); size_t w = r.t == T_BOOL ? sizeof(M_bool) : (r.t == T_I8 || r.t == T_U8) ? 1 : (r.t == T_I16 || r.t == T_U16) ? 2 : (r.t == T_I32 || r.t == T_U32) ? 4 : 8; for (size_t z = w; z < 8; z++) VH_CHECK(((unsigned char *)r.mem)[z] == 0x5a, "neighbour", "%s changed the byte after its variable", what.c_str()); }
		else if (r.t == T_BUF) { if (!(r.conv && r.blen <= 2)) { S w = x.null ? S() : x.s.substr(0, r.blen - 1); VH_CHECK(memchr(r.mem, 0, r.blen), "buf:end", "%s: no terminator in %zu bytes", what.c_str(), r.blen); VH_CHECK(w == (char *)r.mem, "value", "%s in %zu bytes regex %s: stored %s instead of %s", what.c_str(), r.blen, E(r.regex), E(S((char *)r.mem)), E(w)); } }
		else if (r.t == T_DUP) { char *p = *(char **)r.mem; VH_CHECK((p ? S(p) : S()) == (x.null ? S() : x.s), "value", "%s regex %s: stored %s instead of %s", what.c_str(), E(r.regex), p ? E(S(p)) : "NULL", x.null ? "NULL" : E(x.s)); M_free(p); }
		bool said = false; for (auto &m : g_err) if (m.find("'" + r.key + "'") != S::npos) said = true;
		VH_CHECK(said == (failing.count(r.key) != 0), "error", "%s: %s", what.c_str(), said ? "an error although the value is fine" : "no error message");
	}
	VH_CHECK(got == want, "parse", "returned %d with %zu bad values", got, failing.size()); VH_CHECK(g_err.size() == failing.size(), "error:count", "%zu messages for %zu bad values", g_err.size(), failing.size());
	VH_CHECK(g_vorder.size() == g_val.size(), "validator", "%zu of %zu called", g_vorder.size(), g_val.size()); for (size_t q = 0; q < g_val.size(); q++) VH_CHECK(g_vorder[q] == g_val[q].first, "validator", "order");
	if (vh_chance(50) && !order.empty()) { S k = vh_pick(order); const char *v = M_conf_get_value(c, k.c_str()); VH_CHECK(v ? file[k][0] == v : file[k][0].empty(), "get", "%s", E(k)); use(k); }
	if (vh_chance(50) && !order.empty()) { S k = vh_pick(order); M_list_str_t *l = M_conf_get_values(c, k.c_str()); VH_CHECK(M_list_str_len(l) == file[k].size(), "get:values", "%zu of %zu", M_list_str_len(l), file[k].size()); for (size_t q = 0; q < file[k].size(); q++) { const char *v = M_list_str_at(l, q); VH_CHECK((v ? S(v) : S()) == file[k][q], "get:values", "value %zu of %s", q, E(k)); } M_list_str_destroy(l); left.erase(k); }
	M_list_str_t *u = M_conf_unused_keys(c); std::map<S, size_t> un; for (size_t q = 0; q < M_list_str_len(u); q++) un[M_list_str_at(u, q)]++; size_t nu = 0; for (auto &x : left) { nu++; VH_CHECK(un[x.first] == x.second.size(), "unused", "%s is listed %zu times with %zu unused values", E(x.first), un[x.first], x.second.size()); } size_t nz = 0; for (auto &x : un) nz += x.second != 0; VH_CHECK(nz == nu, "unused", "%zu keys listed of %zu", nz, nu); M_list_str_destroy(u);
	g_dbg.clear(); M_conf_destroy(c); size_t logged = 0; for (auto &m : g_dbg) logged += m.compare(0, 11, "Unused key:") == 0; size_t tot = 0; for (auto &x : left) tot += x.second.size(); VH_CHECK(logged == tot, "unused:log", "%zu of %zu logged", logged, tot);
	for (auto &r : rs) free(r.mem); vh_distinct(vh_hash(txt.data(), txt.size(), rs.size()));
}
const vh_mode_t vh_modes[] = { {"conf", conf, NULL, NULL}, {} };
