/* F08: INI editing, writing, reading and merging against a model; settings stores round-tripped through files. */
#include "vh.hpp"
#include <mstdlib/mstdlib_formats.h>
#include <map>
#include <set>
#include <unistd.h>
typedef std::map<S, VS> KV;

static S low(S s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }
static S strip(const S &s) { S o; for (char c : s) if (c != ' ' && c != '_' && c != '-' && c != '\t') o += c; return o; }
struct Cfg { char quote, esc, com, kvd; unsigned pad; bool nows; M_ini_settings_t *st;
	Cfg() { quote = '"'; esc = vh_chance(50) ? '"' : '\\'; com = vh_chance(70) ? '#' : ';'; kvd = vh_chance(80) ? '=' : ':'; pad = (unsigned)vh_rndn(16); nows = vh_chance(40);
		st = M_ini_settings_create(); M_ini_settings_set_quote_char(st, (unsigned char)quote); M_ini_settings_set_escape_char(st, (unsigned char)esc); M_ini_settings_set_comment_char(st, (unsigned char)com); M_ini_settings_set_kv_delim_char(st, (unsigned char)kvd); M_ini_settings_set_element_delim_char(st, '\n'); M_ini_settings_set_padding(st, pad); }
	~Cfg() { M_ini_settings_destroy(st); } };
struct Ini { M_ini_t *i; Ini(M_ini_t *x) : i(x) {} ~Ini() { M_ini_destroy(i); } Ini(const Ini &) = delete; };
struct Str { char *s; Str(char *x) : s(x) {} ~Str() { M_free(s); } Str(const Str &) = delete; };

static S word(void) { static const char al[] = "abcdefgh"; S s; for (size_t n = 1 + vh_rndn(4); n-- > 0;) s += al[vh_rndn(8)]; return s; }
static S keyname(void) { S s = word(); if (vh_chance(20)) s += (vh_chance(50) ? "_" : vh_chance(50) ? "-" : " ") + word(); if (vh_chance(10)) s += "." + word(); if (vh_chance(15)) s += std::to_string(vh_rndn(100)); return s; }
static S value(const Cfg &c)
{
	static const char *sp[] = { "a", "b", " ", "x y", "=", ":", "#", ";", "\"", "'", "\\", "[", "]", "/", "\n", "\t", "\r", "\xc3\xa9", ",", "0", "\\\"", "\\n", "\"\"" };
	(void)c; S s; for (size_t n = vh_rndn(vh_chance(20) ? 20 : 6); n-- > 0;) s += sp[vh_rndn(sizeof sp / sizeof *sp)];
	return s;
}
static S mk(const S &key, bool nows) { return low(nows ? strip(key) : key); }
static S vary(const S &key, bool nows) { S o; for (char ch : key) { o += vh_chance(20) ? (char)toupper((unsigned char)ch) : ch; if (nows && vh_chance(5) && ch != '/') o += vh_chance(50) ? ' ' : '_'; } return o; }
static S dump(const KV &m) { S o; for (auto &e : m) { o += e.first + ":"; for (auto &v : e.second) o += "{" + v + "}"; o += " "; } return o; }
static void same(const char *what, M_ini_t *i, const KV &m, bool nows, const S &ctx, const KV *opt = NULL)
{
	M_list_str_t *k = M_ini_kv_keys(i); std::set<S> got; for (size_t x = 0; x < M_list_str_len(k); x++) { S n = mk(M_list_str_at(k, x), nows); if (n.size() && n.back() == '/') continue; got.insert(n); } M_list_str_destroy(k);
	for (auto &e : m) {
		VH_CHECK(M_ini_kv_has_key(i, vary(e.first, nows).c_str()), vh_fmt("%s:missing", what).c_str(), "key %s is missing; model %s; %s", E(e.first), E(dump(m)), E(ctx));
		VH_CHECK(got.count(e.first), vh_fmt("%s:keys", what).c_str(), "key %s is not listed; model %s; %s", E(e.first), E(dump(m)), E(ctx));
		size_t n = M_ini_kv_len(i, e.first.c_str());
		VH_CHECK(n == e.second.size(), vh_fmt("%s:len", what).c_str(), "key %s has %zu values, model %s; %s", E(e.first), n, E(dump(m)), E(ctx));
		for (size_t x = 0; x < n; x++) { const char *v = NULL; VH_CHECK(M_ini_kv_get(i, vary(e.first, nows).c_str(), x, &v) && v && e.second[x] == v, vh_fmt("%s:value", what).c_str(), "key %s value %zu is %s, model %s; %s", E(e.first), x, E(v ? S(v) : S("NULL")), E(dump(m)), E(ctx)); }
		VH_CHECK(!M_ini_kv_get(i, e.first.c_str(), n, NULL), vh_fmt("%s:past", what).c_str(), "key %s has a value past the last", E(e.first));
	}
	for (auto &g : got) if (!opt || !opt->count(g) || opt->at(g).size()) VH_CHECK(m.count(g), vh_fmt("%s:extra", what).c_str(), "key %s is listed but not in the model %s; %s", E(g), E(dump(m)), E(ctx));
}
/* what a reader has to find after a write */
static KV written(const KV &m, M_ini_multivals_t mv) { KV o; for (auto &e : m) { if (e.second.empty()) continue; if (mv == M_INI_MULTIVALS_USE_LAST) o[e.first] = { e.second.back() }; else if (mv == M_INI_MULTIVALS_USE_FIRST) o[e.first] = { e.second.front() }; else o[e.first] = e.second; } return o; }
static void write_read(const char *what, M_ini_t *i, const KV &m, Cfg &c, M_ini_multivals_t mv, S *text)
{
	M_ini_settings_writer_set_multivals_handling(c.st, mv); M_ini_settings_reader_set_dupkvs_handling(c.st, M_INI_DUPKVS_COLLECT);
	bool crlf = vh_chance(15); if (crlf) M_ini_settings_writer_set_line_ending(c.st, "\r\n");
	Str o(M_ini_write(i, c.st)); M_ini_settings_writer_set_line_ending(c.st, NULL);
	KV w = written(m, mv); size_t el = 0; S out = o.s ? o.s : ""; if (text) *text = out;
	if (out.empty()) { VH_CHECK(w.empty(), vh_fmt("%s:empty", what).c_str(), "nothing written for %s", E(dump(m))); return; }
	Ini r(M_ini_read(o.s, c.st, c.nows ? M_TRUE : M_FALSE, &el));
	VH_CHECK(r.i != NULL, vh_fmt("%s:refused", what).c_str(), "line %zu of what was written is refused: %s", el, E(out));
	if (mv == M_INI_MULTIVALS_KEEP_EXISTING) { /* new values follow existing ones: same values, any order */
		KV g = w; for (auto &e : g) { std::multiset<S> a(e.second.begin(), e.second.end()), b; VS vs; for (size_t x = 0; x < M_ini_kv_len(r.i, e.first.c_str()); x++) { vs.push_back(M_ini_kv_get_direct(r.i, e.first.c_str(), x)); b.insert(vs.back()); } VH_CHECK(a == b, vh_fmt("%s:values", what).c_str(), "key %s reads back %s of %s; text %s", E(e.first), E(dump(KV{{ e.first, vs }})), E(dump(w)), E(out)); e.second = vs; }
		same(what, r.i, g, c.nows, "text " + out, &m);
	} else same(what, r.i, w, c.nows, "text " + out, &m);
	vh_count("roundtrips", 1);
}
/* ---- set, write, read ---- */
static void roundtrip(void)
{
	Cfg c; Ini i(M_ini_create(c.nows ? M_TRUE : M_FALSE)); KV m; S ctx;
	for (size_t n = 1 + vh_rndn(10); n-- > 0;) {
		S k = (vh_chance(70) ? keyname() + "/" : S()) + keyname() + (vh_chance(8) ? "/" + keyname() : S()), v = value(c); bool ins = vh_chance(25);
		if (mk(k, c.nows).empty()) continue;
		VH_CHECK(ins ? M_ini_kv_insert(i.i, k.c_str(), v.c_str()) : M_ini_kv_set(i.i, k.c_str(), v.c_str()), "set:result", "%s refused", E(k)); if (!ins) m[mk(k, c.nows)].clear(); m[mk(k, c.nows)].push_back(v); ctx += k + "=" + v + "\n";
	}
	same("set", i.i, m, c.nows, ctx); { Ini d(M_ini_duplicate(i.i)); same("dup", d.i, m, c.nows, ctx); }
	S t1; write_read("write", i.i, m, c, (M_ini_multivals_t)vh_rndn(4), &t1);
	vh_distinct(vh_hash(t1.data(), t1.size(), 0)); vh_count("keys", m.size()); if (m.size() > 3 && t1.find('"') != S::npos) vh_sample("%s", E(t1));
}
/* ---- read text with comments, edit, write ---- */
static S q(const Cfg &c, const S &v) { S o(1, c.quote); for (char ch : v) { if (ch == c.quote || ch == c.esc) o += c.esc; o += ch; } return o + c.quote; }
static void edit(void)
{
	Cfg c; S t; KV m; std::map<S, S> inl; std::vector<std::pair<S, S>> comments; std::map<S, std::vector<S>> order; S sect; std::set<S> sects; int nc = 0; M_ini_dupkvs_t dk = (M_ini_dupkvs_t)vh_rndn(5); bool dups = false; std::set<S> commented; std::map<S, S> lastv;
	for (size_t n = 3 + vh_rndn(25); n-- > 0;) {
		switch (vh_rndn(8)) {
			case 0: { S x = vh_fmt("comment %d.%s", nc++, vh_chance(30) ? " with = and [x] and \" quote" : ""); t += S(1, c.com) + (vh_chance(50) ? " " : "") + x + "\n"; comments.push_back({ x, mk(sect, c.nows) }); break; }
			case 1: t += "\n"; break;
			case 2: { S s = keyname(); if (sects.count(mk(s, c.nows)) && !vh_chance(30)) break; sects.insert(mk(s, c.nows)); t += "[" + s + "]" + (vh_chance(20) ? S(" ") + c.com + " sc" : S()) + "\n"; sect = s; break; }
			default: {
				S k = keyname(); if (m.size() && vh_chance(12)) { auto it = m.begin(); std::advance(it, (long)vh_rndn(m.size())); size_t p = it->first.find('/'); if ((p == S::npos) == sect.empty() && (p == S::npos || it->first.substr(0, p) == mk(sect, c.nows))) k = vary(p == S::npos ? it->first : it->first.substr(p + 1), c.nows); } S full = mk(sect.empty() ? k : sect + "/" + k, c.nows), v; bool quoted = vh_chance(40);
				
				if (quoted) v = value(c); else { v = word(); if (vh_chance(30)) v += " " + word(); }
				S line = k + (vh_chance(50) ? " " : "") + c.kvd + (vh_chance(50) ? "  " : "") + (quoted ? q(c, v) : v); S cm;
				if (vh_chance(25)) { cm = vh_fmt("inline %d", nc++); line += S(" ") + c.com + " " + cm; }
				t += (vh_chance(10) ? "  " : "") + line + "\n";
				if (m.count(full)) { dups = true; if (dk == M_INI_DUPKVS_COLLECT) m[full].push_back(v); else if (dk == M_INI_DUPKVS_COMMENT_PREV || dk == M_INI_DUPKVS_REMOVE_PREV) m[full] = { v }; inl.erase(full); commented.insert(full); if (dk == M_INI_DUPKVS_COMMENT || dk == M_INI_DUPKVS_REMOVE) lastv[full] = v; }
				else { m[full] = { v }; if (cm.size()) inl[full] = cm; order[mk(sect, c.nows)].push_back(full); }
			}
		}
	}
	if (t.empty()) return;
	M_ini_settings_reader_set_dupkvs_handling(c.st, dk); size_t el = 0;
	Ini i(M_ini_read(t.c_str(), c.st, c.nows ? M_TRUE : M_FALSE, &el)); VH_CHECK(i.i != NULL, "read:refused", "line %zu of %s refused", el, E(t));
	for (auto &e : lastv) { const char *g = M_ini_kv_get_direct(i.i, e.first.c_str(), 0); if (g && e.second == g && m[e.first][0] != g) { vh_known("dup:first-wins", "key %s has the value %s of the last of its duplicates", E(e.first), g); m[e.first] = { e.second }; } }
	same("read", i.i, m, c.nows, vh_fmt("dup handling %d, text %s", (int)dk, t.c_str())); vh_count(dups ? "with-duplicates" : "no-duplicates", 1);
	std::set<S> touched; S ops;
	for (size_t n = vh_rndn(8); n-- > 0;) {
		S k; if (m.size() && vh_chance(65)) { auto it = m.begin(); std::advance(it, (long)vh_rndn(m.size())); k = it->first; } else k = mk((vh_chance(60) ? (sects.size() && vh_chance(60) ? *sects.begin() : keyname()) + "/" : S()) + keyname(), c.nows);
		if (k.empty() || k == "/") continue;
		S kk = vary(k, c.nows), v = value(c); bool has = m.count(k); touched.insert(k); int op = (int)vh_rndn(8);
		ops += vh_fmt("op%d(%s,%s) ", op, kk.c_str(), v.c_str());
		switch (op) {
			case 0: case 1: VH_CHECK(M_ini_kv_set(i.i, kk.c_str(), v.c_str()), "op:set", "%s refused", E(kk)); m[k] = { v }; break;
			case 2: VH_CHECK(M_ini_kv_insert(i.i, kk.c_str(), v.c_str()), "op:insert", "%s refused", E(kk)); m[k].push_back(v); break;
			case 3: VH_CHECK((bool)M_ini_kv_remove(i.i, kk.c_str()) == has, "op:remove", "%s: wrong result, existed %d", E(kk), has); m.erase(k); break;
			case 4: { bool r = M_ini_kv_remove_vals(i.i, kk.c_str()); if (has) { VH_CHECK(r, "op:remove-vals", "%s refused", E(kk)); m[k].clear(); } break; }
			case 5: { size_t x = vh_rndn(3); bool ok = has && x < m[k].size(); VH_CHECK((bool)M_ini_kv_remove_val_at(i.i, kk.c_str(), x) == ok, "op:remove-at", "%s at %zu: wrong result; %s; %s", E(kk), x, E(ops), E(t)); if (ok) m[k].erase(m[k].begin() + (long)x); break; }
			case 6: { S nk = mk((vh_chance(60) ? keyname() + "/" : S()) + keyname(), c.nows); if (nk.empty() || nk == k || nk.back() == '/' || nk[0] == '/') break; touched.insert(nk); bool ok = has && !m.count(nk); bool r = M_ini_kv_rename(i.i, kk.c_str(), nk.c_str()); ops += nk + (r ? "+" : "-"); VH_CHECK(r == ok, "op:rename", "%s to %s: result %d, expected %d; %s", E(kk), E(nk), r, ok, E(dump(m))); if (ok) { m[nk] = m[k]; m.erase(k); } break; }
			default: VH_CHECK(M_ini_kv_add_key(i.i, kk.c_str()), "op:add", "%s refused", E(kk)); if (!has) m[k] = {}; break;
		}
		same("op", i.i, m, c.nows, ops + "text " + t);
	}
	S ctx = vh_fmt("\n ops %s\n dup %d text %s", ops.c_str(), (int)dk, t.c_str()), o;
	M_ini_multivals_t mv = (M_ini_multivals_t)vh_rndn(4); write_read("edit", i.i, m, c, mv, &o);
	/* a section without keys isn't written, nor what is in it */
	size_t pos = 0; for (auto &x : comments) { if (!x.second.empty()) { bool live = false; for (auto &e : m) live |= e.second.size() && e.first.compare(0, x.second.size() + 1, x.second + "/") == 0; if (!live) continue; } size_t p = o.find(x.first); VH_CHECK(p != S::npos, "edit:comment", "the comment %s was lost, output %s%s", E(x.first), E(o), E(ctx)); vh_count("comments", 1); if (x.second.empty()) { VH_CHECK(p >= pos, "edit:comment-order", "the comment %s moved, output %s%s", E(x.first), E(o), E(ctx)); pos = p; } }
	for (auto &e : inl) { if (touched.count(e.first) || commented.count(e.first) || !m.count(e.first)) continue; VH_CHECK(o.find(e.second) != S::npos, "edit:inline", "the comment %s of the untouched key %s was lost, output %s%s", E(e.second), E(e.first), E(o), E(ctx)); vh_count("inline", 1); }
	bool multi = false; for (auto &e : m) multi |= e.second.size() != 1;
	if (!multi) { Str o2(M_ini_write(i.i, c.st)); S a = o; for (size_t p; (p = a.find("\r\n")) != S::npos;) a.erase(p, 1); S b = o2.s ? o2.s : ""; for (size_t p; (p = b.find("\r\n")) != S::npos;) b.erase(p, 1); VH_CHECK(a == b, "write:twice", "writing again gives %s after %s%s", E(b), E(a), E(ctx)); vh_count("rewrites", 1); }
	/* untouched keys keep their order inside of their section */
	{ M_ini_settings_reader_set_dupkvs_handling(c.st, M_INI_DUPKVS_COLLECT); Ini r(M_ini_read(o.c_str(), c.st, c.nows ? M_TRUE : M_FALSE, NULL)); if (r.i) { M_list_str_t *k = M_ini_kv_keys(r.i); std::map<S, size_t> at; for (size_t x = 0; x < M_list_str_len(k); x++) at[mk(M_list_str_at(k, x), c.nows)] = x; M_list_str_destroy(k);
		for (auto &s : order) { size_t lastp = 0; S lastk; for (auto &f : s.second) { if (touched.count(f) || commented.count(f) || !at.count(f)) continue; VH_CHECK(lastk.empty() || at[f] > lastp, "edit:order", "%s now precedes %s, output %s%s", E(f), E(lastk), E(o), E(ctx)); lastp = at[f]; lastk = f; vh_count("ordered", 1); } } } }
	vh_distinct(vh_hstr(o.c_str(), 0));
}
/* ---- three-way merge ---- */
static bool g_use_cur; static int g_calls;
static M_bool resolver(const char *, const char *, const char *) { g_calls++; return g_use_cur ? M_TRUE : M_FALSE; }
static void merge(void)
{
	Cfg c; c.nows = false; KV cur, nw, org; VS keys; for (size_t n = 1 + vh_rndn(8); n-- > 0;) keys.push_back((vh_chance(60) ? S(1, "stu"[vh_rndn(3)]) + "/" : S()) + word());
	auto rv = [&]() { return vh_chance(80) ? S(1, "vwxyz"[vh_rndn(5)]) : value(c); };
	for (auto &k : keys) { bool multi = vh_chance(30); VS o; for (size_t n = multi ? 1 + vh_rndn(4) : 1; n-- > 0;) { S v = rv(); bool dupv = false; for (auto &p : o) dupv |= p == v; if (!dupv) o.push_back(v); }
		auto ch = [&](VS v) { if (vh_chance(45)) { if (!multi) v = { rv() }; else { if (v.size() && vh_chance(50)) v.erase(v.begin() + (long)vh_rndn(v.size())); if (vh_chance(60) || v.empty()) { S x = rv(); bool d = false; for (auto &p : v) d |= p == x; if (!d) v.push_back(x); } if (v.empty()) v.push_back("q"); } } return v; };
		if (vh_chance(80)) org[k] = o; if (vh_chance(80)) cur[k] = ch(o); if (vh_chance(80)) nw[k] = ch(o); }
	auto build = [&](const KV &m) { M_ini_t *i; if (vh_chance(50)) { i = M_ini_create(M_FALSE); for (auto &e : m) for (auto &v : e.second) M_ini_kv_insert(i, e.first.c_str(), v.c_str()); } else { S t, s; for (auto &e : m) if (e.first.find('/') == S::npos) for (auto &v : e.second) t += e.first + c.kvd + q(c, v) + "\n"; for (auto &e : m) { size_t p = e.first.find('/'); if (p == S::npos) continue; if (e.first.substr(0, p) != s) { s = e.first.substr(0, p); t += "[" + s + "]\n"; } for (auto &v : e.second) t += e.first.substr(p + 1) + c.kvd + q(c, v) + "\n"; } M_ini_settings_reader_set_dupkvs_handling(c.st, M_INI_DUPKVS_COLLECT); if (t.empty()) i = M_ini_create(M_FALSE); else i = M_ini_read(t.c_str(), c.st, M_FALSE, NULL); } return i; };
	Ini a(build(cur)), b(build(nw)), o(build(org)); VH_CHECK(a.i && b.i && o.i, "merge:build", "refused"); same("build", a.i, cur, false, ""); same("build", b.i, nw, false, ""); same("build", o.i, org, false, "");
	M_uint32 fl = 0; bool cb = vh_chance(40); g_use_cur = vh_chance(50); g_calls = 0; if (vh_chance(60)) { if (vh_chance(50)) fl |= M_INI_MERGE_NEW_REMOVED_KEEP; if (vh_chance(50)) fl |= M_INI_MERGE_NEW_CHANGED_USE_CUR; if (vh_chance(50)) fl |= M_INI_MERGE_MULTI_NEW_REMOVED_KEEP; }
	M_ini_settings_merger_set_conflict_flags(c.st, fl); if (cb) M_ini_settings_merger_set_resolver(c.st, resolver); bool rs = cb && fl == 0 && g_use_cur;
	KV want; std::set<S> all; for (auto &e : cur) all.insert(e.first); for (auto &e : nw) all.insert(e.first);
	for (auto &k : all) { bool ic = cur.count(k), in = nw.count(k), io = org.count(k);
		if (!ic) { if (!io) want[k] = nw[k]; continue; }
		if (!io) { want[k] = cur[k]; continue; }
		if (!in) { if (rs || (fl & M_INI_MERGE_NEW_REMOVED_KEEP)) want[k] = cur[k]; continue; }
		if (cur[k].size() <= 1 && nw[k].size() <= 1) { if (org[k].size() != 1) { want[k] = { cur[k][0] == org[k][0] && cur[k][0] != nw[k][0] && !(rs || (fl & M_INI_MERGE_NEW_CHANGED_USE_CUR)) ? nw[k][0] : cur[k][0] }; continue; } want[k] = { cur[k] == org[k] && cur[k] != nw[k] && !(rs || (fl & M_INI_MERGE_NEW_CHANGED_USE_CUR)) ? nw[k][0] : cur[k][0] }; continue; }
		auto in_ = [](const VS &v, const S &x) { for (auto &y : v) if (y == x) return true; return false; };
		VS r; for (auto &v : cur[k]) if (in_(nw[k], v) || !in_(org[k], v) || rs || (fl & M_INI_MERGE_MULTI_NEW_REMOVED_KEEP)) r.push_back(v); for (auto &v : nw[k]) if (!in_(cur[k], v) && !in_(org[k], v)) r.push_back(v); want[k] = r; }
	S ctx = vh_fmt("flags %u resolver %d/%d cur %s new %s orig %s", fl, cb, g_use_cur, dump(cur).c_str(), dump(nw).c_str(), dump(org).c_str());
	Ini g(M_ini_merge(a.i, b.i, o.i, c.st)); VH_CHECK(g.i != NULL, "merge:null", "%s", E(ctx)); same("merge", g.i, want, false, ctx); same("merge-cur", a.i, cur, false, ctx); same("merge-new", b.i, nw, false, ctx); same("merge-orig", o.i, org, false, ctx);
	write_read("merge-write", g.i, want, c, vh_chance(50) ? M_INI_MULTIVALS_MAINTAIN_ORDER : M_INI_MULTIVALS_KEEP_EXISTING, NULL);
	vh_count("merged-keys", want.size()); if (g_calls) vh_count("resolver-calls", (uint64_t)g_calls); vh_distinct(vh_hstr(ctx.c_str(), 0));
}
/* ---- settings ---- */
static void settings(void)
{
	bool json = vh_chance(50); S dir = vh_tmpdir(), p = dir + (vh_chance(20) ? "/sub/dir" : "") + vh_fmt("/s%u.%s", (unsigned)vh_rndn(3), json ? "json" : "ini"); unlink(p.c_str()); Cfg c;
	M_uint32 fl = vh_chance(30) ? M_SETTINGS_READER_CASECMP : 0; M_settings_t *s = M_settings_create_file(p.c_str(), json ? M_SETTINGS_TYPE_JSON : M_SETTINGS_TYPE_INI, fl);
	struct D { M_settings_t *s; M_hash_dict_t *d = NULL, *r = NULL; ~D() { M_settings_destroy(s); M_hash_dict_destroy(d); M_hash_dict_destroy(r); } } D{s};
	VH_CHECK(s != NULL && p == M_settings_filename(s), "settings:create", "%s gives %s", E(p), s ? M_settings_filename(s) : "NULL");
	VH_CHECK(M_settings_read(s, &D.r) && M_hash_dict_num_keys(D.r) == 0, "settings:nofile", "reading a file that doesn't exist"); M_hash_dict_destroy(D.r); D.r = NULL;
	std::map<S, S> m; for (int round = 0; round < 2; round++) {
		if (!D.d) D.d = M_settings_create_dict(s); S ops;
		for (size_t n = vh_rndn(10); n-- > 0;) { S g = vh_chance(30) ? S() : keyname() + (vh_chance(30) ? "/" + keyname() : S()), k = keyname(), v = value(c); if (v.find('\r') != S::npos && !json) continue;
			S full = g.empty() ? k : g + "/" + k; bool bad = false; for (auto &e : m) { S ef = e.first, a = ef + "/", b = full + "/"; if (a == b) continue; if (low(ef) == low(full) || a.compare(0, b.size(), b) == 0 || b.compare(0, a.size(), a) == 0) bad = true; } if (bad) continue; /* a key can't be a group as well */
			M_settings_set_value(D.d, g.c_str(), k.c_str(), v.c_str()); if (v.empty()) m.erase(full); else m[full] = v; ops += full + "=" + v + "; ";
			const char *x = M_settings_value(D.d, g.c_str(), k.c_str()); VH_CHECK(v.empty() ? x == NULL : x && v == x, "settings:value", "%s set to %s gives %s", E(full), E(v), x ? x : "NULL"); }
		VH_CHECK(M_settings_write(s, D.d), "settings:write", "%s refused; %s", json ? "json" : "ini", E(ops)); VH_CHECK(M_settings_read(s, &D.r) && D.r, "settings:read", "what was written to %s can't be read; %zu keys %s", json ? "json" : "ini", m.size(), E(ops));
		VH_CHECK(M_hash_dict_num_keys(D.r) == m.size(), "settings:count", "%s: %zu keys read, %zu written: %s", json ? "json" : "ini", M_hash_dict_num_keys(D.r), m.size(), E(ops));
		for (auto &e : m) { const char *v = M_hash_dict_get_direct(D.r, e.first.c_str()); VH_CHECK(v && e.second == v, "settings:roundtrip", "%s: %s is %s, was %s", json ? "json" : "ini", E(e.first), E(v ? S(v) : S("NULL")), E(e.second)); vh_count("settings", 1); }
		/* groups and keys */
		std::set<S> gs{""}; for (auto &e : m) for (size_t x = 0; (x = e.first.find('/', x)) != S::npos; x++) gs.insert(e.first.substr(0, x));
		if (gs.size() > 1) gs.insert(gs.rbegin()->substr(0, 1));
		for (auto &g : gs) { std::set<S> sub; std::multiset<S> ks; for (auto &e : m) { if (!g.empty() && e.first.compare(0, g.size() + 1, g + "/")) continue; S r = g.empty() ? e.first : e.first.substr(g.size() + 1); size_t x = r.find('/'); if (x == S::npos) ks.insert(r); else sub.insert(r.substr(0, x)); }
			bool sl = !g.empty() && vh_chance(30); M_list_str_t *l = M_settings_groups(D.r, (g + (sl ? "/" : "")).c_str()); std::set<S> got; for (size_t x = 0; x < M_list_str_len(l); x++) got.insert(M_list_str_at(l, x)); M_list_str_destroy(l);
			if (got != sub) { S gg, ww; for (auto &x : got) gg += x + ","; for (auto &x : sub) ww += x + ","; VH_CHECK(false, "settings:groups", "groups of '%s' are %s, expected %s", E(g), E(gg), E(ww)); }
			l = M_settings_group_keys(D.r, (g + (sl ? "/" : "")).c_str()); std::multiset<S> gk; for (size_t x = 0; x < M_list_str_len(l); x++) gk.insert(M_list_str_at(l, x)); M_list_str_destroy(l); VH_CHECK(gk == ks, "settings:group-keys", "%zu keys of group '%s', expected %zu", gk.size(), E(g), ks.size()); vh_count("groups", 1); }
		vh_distinct(vh_hstr(ops.c_str(), (uint64_t)json)); M_hash_dict_destroy(D.d); D.d = D.r; D.r = NULL;
	}
	VH_CHECK(M_settings_clear(s, &D.d), "settings:clear", "refused"); VH_CHECK(D.d && M_hash_dict_num_keys(D.d) == 0, "settings:clear-dict", "the dict isn't empty"); VH_CHECK(M_settings_read(s, &D.r) && M_hash_dict_num_keys(D.r) == 0, "settings:clear-read", "%s: reading cleared settings fails", json ? "json" : "ini");
	unlink(p.c_str());
}
const vh_mode_t vh_modes[] = { { "roundtrip", roundtrip }, { "edit", edit }, { "merge", merge }, { "settings", settings }, {} };
