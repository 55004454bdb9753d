// String helpers against plain definitions over std::string; every C string handed over is an exact-size heap block.
#include "vh.hpp"
#include <inttypes.h>
static S gen_alpha;
static S gs() { // random NUL-free string from a per-case alphabet
	static const char *al[] = {"ab", "abc ,", "aA bB\t\n", "\"\\,a ", "()[]\"\\ax", "aZz09.-_ \r\n\v\f\t", "\xC3\xA9\x80\xFF" "a", "'a'b,"};
	if (gen_alpha.empty()) gen_alpha = al[vh_rndn(8)];
	size_t n = vh_len() % 200;
	if (vh_chance(15)) return vh_cbytes(n);
	return vh_from(gen_alpha.c_str(), n);
}
static char gc() { if (gen_alpha.empty()) gs(); return vh_chance(85) ? gen_alpha[vh_rndn(gen_alpha.size())] : (char)vh_range(1, 255); }
static bool isp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static char lo(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static char up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
static S slo(S s) { for (auto &c : s) c = lo(c); return s; }
static S sup(S s) { for (auto &c : s) c = up(c); return s; }
static S trim(const S &s) { size_t a = 0, b = s.size(); while (a < b && isp(s[a])) a++; while (b > a && isp(s[b - 1])) b--; return s.substr(a, b - a); }
static S title(S s) { bool w = true; for (auto &c : s) { c = w ? up(c) : lo(c); w = isp(c); } return s; }
static S unq(const S &in, char q, char e) {
	S s = trim(in);
	if (s.size() < 2 || s[0] != q || s.back() != q) return s;
	S t = s.substr(1, s.size() - 2), o;
	for (size_t i = 0; i < t.size(); i++) { if (t[i] == e && i + 1 < t.size() && (t[i + 1] == e || t[i + 1] == q)) i++; o += t[i]; }
	return o;
}
static S repl(const S &s, const S &b, const S &a) { if (b.empty()) return s; S o; for (size_t i = 0; i < s.size();) { if (s.compare(i, b.size(), b) == 0) { o += a; i += b.size(); } else o += s[i++]; } return o; }
// sections of text outside/inside quotes; false if unbalanced
static bool esc_at(const S &s, size_t i, char e) { size_t n = 0; while (i > 0 && s[i - 1] == e) { n++; i--; } return n & 1; }
#define STREQ(p, want, key, ...) do { char *pp_ = (p); S w_ = (want); VH_CHECK(pp_ != NULL, key, "NULL: " __VA_ARGS__); size_t l_ = strlen(pp_); bool eq_ = S(pp_, l_) == w_; if (!eq_) vh_fail(key, "got '%s' want '%s' " , vh_esc(pp_, l_), E(w_)); } while (0)
struct Own { char *p; ~Own() { M_free(p); } };
static void dup_eq(char *p, const S &want, const char *key, const S &in, const S &extra = "") {
	VH_CHECK(p != NULL, key, "NULL for '%s' %s", E(in), E(extra));
	S g(p); M_free(p);
	VH_CHECK(g == want, key, "'%s' %s: got '%s' want '%s'", E(in), E(extra), E(g), E(want));
}
static void inplace(const S &in, const char *key, std::function<char *(char *)> f, const S &want, const S &extra = "") {
	Heap h(in, true); char *r = f(h.p);
	VH_CHECK(r == h.p, key, "did not return its argument");
	VH_CHECK(S(h.p) == want, key, "'%s' %s: got '%s' want '%s'", E(in), E(extra), vh_esc(h.p, strlen(h.p)), E(want));
}
static int sgn(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static size_t mx(const S &s) { return vh_chance(10) ? SIZE_MAX : vh_rndn(s.size() + 4); }
typedef bool (*pr)(char);
static bool p_al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool p_dg(char c) { return c >= '0' && c <= '9'; }
static void one() {
	S s = gs(), t = gs(); char c = gc(), q = gc(), e = gc(), d = gc();
	Heap h(s, true), ht(t, true); vh_count("calls", 1);
	switch (vh_rndn(32)) {
	case 0: { // compare
		S u = vh_chance(40) ? s : vh_chance(50) ? t : slo(s); if (vh_chance(30) && !u.empty()) u[vh_rndn(u.size())] = gc(); if (vh_chance(20)) u = u.substr(0, vh_rndn(u.size() + 1));
		Heap hu(u, true); size_t m = mx(s);
		int w = s.compare(u); S a = s.substr(0, std::min(m, s.size())), b = u.substr(0, std::min(m, u.size()));
		auto ucmp = [](const S &x, const S &y) { return sgn(strcmp(x.c_str(), y.c_str())); };
		(void)w;
		VH_CHECK(sgn(M_str_cmpsort(h.p, hu.p)) == ucmp(s, u), "str:cmpsort", "'%s' '%s'", E(s), E(u));
		VH_CHECK(sgn(M_str_cmpsort_max(h.p, hu.p, m)) == ucmp(a, b), "str:cmpsort_max", "'%s' '%s' %zu", E(s), E(u), m);
		VH_CHECK(sgn(M_str_casecmpsort(h.p, hu.p)) == ucmp(slo(s), slo(u)), "str:casecmpsort", "'%s' '%s'", E(s), E(u));
		VH_CHECK(sgn(M_str_casecmpsort_max(h.p, hu.p, m)) == ucmp(slo(a), slo(b)), "str:casecmpsort_max", "'%s' '%s' %zu", E(s), E(u), m);
		VH_CHECK(M_str_eq(h.p, hu.p) == MB(s == u), "str:eq", "'%s' '%s'", E(s), E(u));
		VH_CHECK(M_str_caseeq(h.p, hu.p) == MB(slo(s) == slo(u)), "str:caseeq", "'%s' '%s'", E(s), E(u));
		VH_CHECK(M_str_eq_max(h.p, hu.p, m) == MB(a == b), "str:eq_max", "'%s' '%s' %zu", E(s), E(u), m);
		VH_CHECK(M_str_caseeq_max(h.p, hu.p, m) == MB(slo(a) == slo(b)), "str:caseeq_max", "'%s' '%s' %zu", E(s), E(u), m);
		break; }
	case 1: { // start / end
		S u = vh_chance(30) ? t : s.substr(vh_chance(50) ? 0 : vh_rndn(s.size() + 1)); if (vh_chance(50)) u = u.substr(0, vh_rndn(u.size() + 1)); if (vh_chance(30)) u = sup(u); if (vh_chance(15)) u += gc();
		Heap hu(u, true); bool st = s.compare(0, u.size(), u) == 0 && s.size() >= u.size(); bool en = s.size() >= u.size() && s.substr(s.size() - u.size()) == u;
		S ls = slo(s), lu = slo(u); bool cst = ls.size() >= lu.size() && ls.compare(0, lu.size(), lu) == 0, cen = ls.size() >= lu.size() && ls.substr(ls.size() - lu.size()) == lu;
		VH_CHECK(M_str_eq_start(h.p, hu.p) == MB(st), "str:eq_start", "'%s' '%s'", E(s), E(u));
		VH_CHECK(M_str_eq_end(h.p, hu.p) == MB(en), "str:eq_end", "'%s' '%s'", E(s), E(u));
		VH_CHECK(M_str_caseeq_start(h.p, hu.p) == MB(cst), "str:caseeq_start", "'%s' '%s'", E(s), E(u));
		VH_CHECK(M_str_caseeq_end(h.p, hu.p) == MB(cen), "str:caseeq_end", "'%s' '%s'", E(s), E(u));
		break; }
	case 2: { // find
		S u = vh_chance(40) && !s.empty() ? s.substr(vh_rndn(s.size()), 1 + vh_rndn(4)) : t.substr(0, vh_rndn(4)); if (vh_chance(30)) u = sup(u);
		Heap hu(u, true); size_t p = s.find(u), cp = slo(s).find(slo(u));
		char *r = M_str_str(h.p, hu.p);
		VH_CHECK(p == S::npos ? r == NULL : r == h.p + p, "str:str", "'%s' '%s'", E(s), E(u));
		if (!(s.empty() && u.empty())) {
			r = M_str_casestr(h.p, hu.p);
			VH_CHECK(cp == S::npos ? r == NULL : r == h.p + cp, "str:casestr", "'%s' '%s'", E(s), E(u));
			VH_CHECK(M_str_casestr_pos(h.p, hu.p) == (cp == S::npos ? -1 : (ssize_t)cp), "str:casestr_pos", "'%s' '%s'", E(s), E(u));
		}
		break; }
	case 3: { // chr
		size_t p = s.find(c), rp = s.rfind(c); char *a = M_str_chr(h.p, c), *b = M_str_rchr(h.p, c);
		VH_CHECK(p == S::npos ? a == NULL : a == h.p + p, "str:chr", "'%s' %d", E(s), c);
		VH_CHECK(rp == S::npos ? b == NULL : b == h.p + rp, "str:rchr", "'%s' %d", E(s), c);
		S cs = t.substr(0, vh_rndn(4)); Heap hc(cs, true); p = s.find_first_of(cs); rp = s.find_first_not_of(cs);
		a = M_str_find_first_from_charset(h.p, hc.p); b = M_str_find_first_not_from_charset(h.p, hc.p);
		VH_CHECK(p == S::npos ? a == NULL : a == h.p + p, "str:find_first_from_charset", "'%s' '%s'", E(s), E(cs));
		VH_CHECK(rp == S::npos ? b == NULL : b == h.p + rp, "str:find_first_not_from_charset", "'%s' '%s'", E(s), E(cs));
		if (!s.empty() && !cs.empty()) {
			VH_CHECK(M_str_ischarset(h.p, hc.p) == MB(rp == S::npos), "str:ischarset", "'%s' '%s'", E(s), E(cs));
		}
		VH_CHECK(M_str_isnotcharset(h.p, hc.p) == MB(p == S::npos), "str:isnotcharset", "'%s' '%s'", E(s), E(cs));
		VH_CHECK(M_str_len(h.p) == s.size(), "str:len", "%zu", s.size()); size_t m = mx(s);
		VH_CHECK(M_str_len_max(h.p, m) == std::min(m, s.size()), "str:len_max", "%zu %zu", s.size(), m);
		if (!s.empty()) { Heap hn(s); m = vh_rndn(s.size() + 1); VH_CHECK(M_str_len_max(hn.p, m) == m, "str:len_max", "unterminated %zu", m); }
		VH_CHECK(M_str_isempty(h.p) == MB(s.empty()), "str:isempty", "'%s'", E(s));
		break; }
	case 4: dup_eq(M_strdup(h.p), s, "str:dup", s); { size_t m = mx(s); S a = s.substr(0, std::min(m, s.size()));
		dup_eq(M_strdup_max(h.p, m), a, "str:dup_max", s); dup_eq(M_strdup_lower(h.p), slo(s), "str:dup_lower", s); dup_eq(M_strdup_upper(h.p), sup(s), "str:dup_upper", s); dup_eq(M_strdup_title(h.p), title(s), "str:dup_title", s);
		dup_eq(M_strdup_trim(h.p), trim(s), "str:dup_trim", s); dup_eq(M_strdup_lower_max(h.p, m), slo(a), "str:dup_lower_max", s); dup_eq(M_strdup_upper_max(h.p, m), sup(a), "str:dup_upper_max", s);
		dup_eq(M_strdup_title_max(h.p, m), title(a), "str:dup_title_max", s); dup_eq(M_strdup_trim_max(h.p, m), trim(a), "str:dup_trim_max", s); } break;
	case 5: inplace(s, "str:lower", M_str_lower, slo(s)); inplace(s, "str:upper", M_str_upper, sup(s)); inplace(s, "str:title", M_str_title, title(s)); inplace(s, "str:trim", M_str_trim, trim(s));
		{ size_t m = mx(s); size_t k = std::min(m, s.size()); S a = s.substr(0, k), b = s.substr(k);
		inplace(s, "str:lower_max", [m](char *p) { return M_str_lower_max(p, m); }, slo(a) + b); inplace(s, "str:upper_max", [m](char *p) { return M_str_upper_max(p, m); }, sup(a) + b); inplace(s, "str:title_max", [m](char *p) { return M_str_title_max(p, m); }, title(a) + b);
		if (m) inplace(s, "str:trim_max", [m](char *p) { return M_str_trim_max(p, m); }, trim(a)); } break;
	case 6: { S o; for (char x : s) if (!isp(x)) o += x; inplace(s, "str:delete_spaces", M_str_delete_spaces, o); o = ""; for (char x : s) if (x != '\n' && x != '\r') o += x; inplace(s, "str:delete_newlines", M_str_delete_newlines, o);
		o = s; for (auto &x : o) if (x == c) x = q; inplace(s, "str:replace_chr", [c, q](char *p) { return M_str_replace_chr(p, c, q); }, o); break; }
	case 7: { S b = vh_chance(50) && !s.empty() ? s.substr(vh_rndn(s.size()), 1 + vh_rndn(3)) : t.substr(0, vh_rndn(3)); if (vh_chance(20) && !s.empty()) b = s.substr(s.size() - 1 - vh_rndn(std::min<size_t>(s.size(), 3))); S a = gs().substr(0, vh_rndn(5)); Heap hb(b, true), ha(a, true);
		char *rs = M_strdup_replace_str(h.p, hb.p, vh_chance(10) && a.empty() ? NULL : ha.p); S rw = repl(s, b, a); if (rs || !rw.empty()) dup_eq(rs, rw, "str:replace_str", s, b + " -> " + a); // an empty result is NULL
		S o; for (char x : s) if (b.find(x) != S::npos) o += a; else o += x; Heap hbb(b);
		dup_eq(M_strdup_replace_charset(h.p, (const unsigned char *)hbb.p, b.size(), ha.p), o, "str:replace_charset", s, b + " -> " + a); break; }
	case 8: { // cpy / cat
		size_t n = vh_rndn(s.size() + 6); Heap dst(S(n, '#')); M_bool r = M_str_cpy(dst.p, n, h.p);
		VH_CHECK(r == MB(n > 0), "str:cpy-ret", "n=%zu len=%zu", n, s.size()); if (n) { size_t k = std::min(n - 1, s.size()); VH_CHECK(S(dst.p) == s.substr(0, k), "str:cpy", "n=%zu '%s' got '%s'", n, E(s), vh_esc(dst.p, strnlen(dst.p, n)));
			for (size_t i = k + 1; i < n; i++) VH_CHECK(dst.p[i] == '#', "str:cpy-touch", "byte %zu of %zu changed", i, n); }
		size_t m = vh_rndn(s.size() + 1); Heap d2(S(n, '#')), src(s.substr(0, m)); r = M_str_cpy_max(d2.p, n, src.p, m);
		VH_CHECK(r == MB(n > 0), "str:cpy-ret", "n=%zu", n); if (n) { size_t k = std::min(n - 1, m); VH_CHECK(memcmp(d2.p, s.data(), k) == 0 && d2.p[k] == 0, "str:cpy_max", "n=%zu m=%zu", n, m); for (size_t i = k + 1; i < n; i++) VH_CHECK(d2.p[i] == '#', "str:cpy-touch", "byte %zu of %zu changed", i, n); }
		size_t cap = s.size() + 1 + vh_rndn(t.size() + 3); Heap d3(s + S(cap - s.size(), '\0')); r = M_str_cat(d3.p, cap, ht.p); bool fit = s.size() + t.size() < cap;
		VH_CHECK(r == MB(fit), "str:cat-ret", "cap %zu %zu+%zu", cap, s.size(), t.size()); VH_CHECK(S(d3.p) == (fit ? s + t : s), "str:cat", "'%s' + '%s' got '%s'", E(s), E(t), vh_esc(d3.p, strlen(d3.p)));
		break; }
	case 9: { // justify
		int ty = (int)vh_rndn(12); size_t jl = vh_rndn(s.size() + 8), dl = vh_chance(70) ? jl + 1 : vh_rndn(jl + 6); unsigned char jc = (unsigned char)c; size_t sl = vh_chance(70) ? s.size() : vh_rndn(s.size() + 1); Heap src(s.substr(0, sl), sl == s.size()), dst(S(dl, '#'));
		size_t n = sl == s.size() && vh_chance(50) ? M_str_justify(dst.p, dl, src.p, (M_str_justify_type_t)ty, jc, jl) : M_str_justify_max(dst.p, dl, src.p, sl, (M_str_justify_type_t)ty, jc, jl);
		S in = s.substr(0, sl), w; bool ok = jl < dl && ty < 11;
		bool notr = ty == 4 || ty == 5 || ty == 10, tr = ty == 2 || ty == 3 || ty == 6 || ty == 9;
		if (sl > jl && notr) ok = false;
		if (ok) { if (sl > jl) w = tr ? in.substr(0, jl) : in.substr(sl - jl); else if (ty == 6 || ty == 7) w = in; else { size_t pad = jl - sl, l = 0; if (ty == 0 || ty == 2 || ty == 4) l = pad; else if (ty >= 8) l = (pad + 1) / 2; w = S(l, (char)jc) + in + S(pad - l, (char)jc); } }
		VH_CHECK(n == w.size(), "str:justify-len", "type %d jl %zu dl %zu sl %zu: %zu want %zu", ty, jl, dl, sl, n, w.size());
		if (ok) { VH_CHECK(memcmp(dst.p, w.data(), n) == 0 && dst.p[n] == 0, "str:justify", "type %d '%s' jl %zu", ty, E(in), jl); for (size_t i = n + 1; i < dl; i++) VH_CHECK(dst.p[i] == '#', "str:justify-touch", "byte %zu", i); }
		if (sl == s.size() && !s.empty() && jl && ty < 11) { // overlapping and allocating forms
			char *p = M_strdup_justify(src.p, (M_str_justify_type_t)ty, jc, jl); bool ok2 = !(sl > jl && notr);
			if (!ok2) VH_CHECK(p == NULL, "str:dup_justify", "type %d not NULL", ty); else { S w2 = (sl <= jl && (ty == 6 || ty == 7)) ? in : S(); if (jl < dl) w2 = w; if (jl < dl || !w2.empty()) dup_eq(p, w2, "str:dup_justify", s); else M_free(p); }
			if (ok2 && jl < dl) { size_t cap = std::max(jl, sl) + 1; Heap o(s + S(cap - sl, '\0')); size_t n2 = M_str_justify(o.p, cap, o.p, (M_str_justify_type_t)ty, jc, jl); VH_CHECK(n2 == w.size() && memcmp(o.p, w.data(), n2) == 0 && o.p[n2] == 0, "str:justify-overlap", "type %d '%s' jl %zu", ty, E(in), jl); }
		}
		break; }
	case 10: { // quote / unquote
		S w; if (!s.empty()) { w += q; for (char x : s) { if (x == q || x == e) w += e; w += x; } w += q; }
		dup_eq(M_str_quote(h.p, (unsigned char)q, (unsigned char)e), w, "str:quote", s, S(1, q) + e);
		{ size_t m = mx(s); S a = s.substr(0, std::min(m, s.size())), w2; if (!s.empty()) { w2 += q; for (char x : a) { if (x == q || x == e) w2 += e; w2 += x; } w2 += q; } dup_eq(M_str_quote_max(h.p, (unsigned char)q, (unsigned char)e, m), w2, "str:quote_max", s); }
		if (!s.empty() && !isp(q)) { Heap hq(w, true); dup_eq(M_strdup_unquote(hq.p, (unsigned char)q, (unsigned char)e), s, "str:quote-roundtrip", s, S(1, q) + e); }
		S u = vh_chance(70) ? S(1, q) + s + S(1, q) : s; if (vh_chance(30)) u = " " + u + "\n";
		if (q != e || 1) { S x = unq(u, q, e); inplace(u, "str:unquote", [q, e](char *p) { return M_str_unquote(p, (unsigned char)q, (unsigned char)e); }, x, S(1, q) + e);
			size_t m = 1 + vh_rndn(u.size() + 3); x = unq(u.substr(0, std::min(m, u.size())), q, e); Heap hu(u, true); dup_eq(M_strdup_unquote_max(hu.p, (unsigned char)q, (unsigned char)e, m), x, "str:unquote_max", u); }
		char *o = (char *)1; M_bool r = M_str_quote_if_necessary(&o, h.p, (unsigned char)q, (unsigned char)e, (unsigned char)d);
		bool need = !s.empty() && (s[0] == ' ' || s.back() == ' ' || s.find(q) != S::npos || s.find(d) != S::npos);
		VH_CHECK(r == MB(need), "str:quote_if_necessary", "'%s' q %d d %d", E(s), q, d); if (need) dup_eq(o, w, "str:quote_if_necessary", s); else if (!s.empty()) VH_CHECK(o == NULL, "str:quote_if_necessary", "out not NULL");
		break; }
	case 11: { // explode
		size_t n = 99, *la = NULL; S in = vh_chance(70) ? s : s.substr(0, vh_rndn(s.size() + 1)); if (vh_chance(20) && !in.empty()) in[in.size() / 2] = in.size() > 1 ? 0 : 'x'; Heap hi(in); if (in.empty()) break;
		char **r = M_str_explode((unsigned char)d, hi.p, in.size(), &n, vh_chance(70) ? &la : NULL);
		VS w(1); for (char x : in) if (x == d) w.push_back(""); else w.back() += x;
		VH_CHECK(r != NULL && n == w.size(), "str:explode-count", "'%s' by %d: %zu want %zu", E(in), d, n, w.size());
		for (size_t i = 0; i < n; i++) { VH_CHECK(memcmp(r[i], w[i].data(), w[i].size()) == 0 && r[i][w[i].size()] == 0, "str:explode", "part %zu of '%s'", i, E(in)); if (la) VH_CHECK(la[i] == w[i].size(), "str:explode-len", "part %zu", i); }
		M_str_explode_free(r, n); M_free(la);
		if (!s.empty()) { r = M_str_explode_str((unsigned char)d, h.p, &n); VS w2(1); for (char x : s) if (x == d) w2.push_back(""); else w2.back() += x; VH_CHECK(n == w2.size(), "str:explode-count", "str"); for (size_t i = 0; i < n; i++) VH_CHECK(w2[i] == r[i], "str:explode", "part %zu", i); M_str_explode_free(r, n); }
		break; }
	case 12: case 13: { // implode, explode_quoted round trip and model
		VS v; for (int k = 1 + (int)vh_rndn(6); k > 0; k--) v.push_back(gs().substr(0, vh_rndn(12)));
		if (d == q || d == e) d = (q != ';' && e != ';') ? ';' : '|';
		std::vector<char *> pv; std::vector<std::unique_ptr<Heap>> hh; for (auto &x : v) { hh.emplace_back(new Heap(x, true)); pv.push_back(x.empty() && vh_chance(30) ? NULL : hh.back()->p); }
		bool always = vh_chance(30); char *p = M_str_implode((unsigned char)d, (unsigned char)q, (unsigned char)e, pv.data(), pv.size(), MB(always));
		S w; for (size_t i = 0; i < v.size(); i++) { if (i) w += d; bool restr = v[i].find(d) != S::npos || v[i].find(q) != S::npos || v[i].find(e) != S::npos; if (always || restr) { w += q; for (char x : v[i]) { if (x == q || x == e) w += e; w += x; } w += q; } else w += v[i]; }
		if (p == NULL) VH_CHECK(w.empty(), "str:implode", "NULL"); else dup_eq(p, w, "str:implode", w);
		if (!w.empty()) { Heap hw(w); size_t n = 0, *la = NULL; char **r = M_str_explode_quoted((unsigned char)d, hw.p, w.size(), (unsigned char)q, (unsigned char)e, 0, &n, &la);
			VH_CHECK(r && n == v.size(), "str:explode_quoted-count", "'%s' d %d q %d e %d: %zu want %zu", E(w), d, q, e, n, v.size());
			for (size_t i = 0; i < n; i++) { VH_CHECK(la[i] == strlen(r[i]), "str:explode_quoted-len", "part %zu", i); bool quoted = r[i][0] == q; if (quoted && !isp(q) && v[i].size()) { M_str_unquote(r[i], (unsigned char)q, (unsigned char)e); VH_CHECK(v[i] == r[i], "str:explode_quoted", "part %zu of '%s' got '%s' want '%s' d %d q %d e %d", i, E(w), vh_esc(r[i], strlen(r[i])), E(v[i]), d, q, e); } else if (!quoted) VH_CHECK(v[i] == r[i], "str:explode_quoted", "part %zu of '%s'", i, E(w)); }
			M_str_explode_free(r, n); M_free(la);
			size_t ms = 1 + vh_rndn(v.size() + 2); r = M_str_explode_quoted((unsigned char)d, hw.p, w.size(), (unsigned char)q, (unsigned char)e, ms, &n, NULL); if (ms > 1) { VH_CHECK(n == std::min(ms, v.size()), "str:explode_quoted-max", "max %zu of %zu: %zu", ms, v.size(), n);
				S tail; S all; for (size_t i = 0; i < n; i++) { if (i) all += d; all += r[i]; } VH_CHECK(all == w, "str:explode_quoted-max", "parts do not add up: '%s' vs '%s'", E(all), E(w)); } M_str_explode_free(r, n); }
		break; }
	case 14: { // arbitrary text through explode_quoted: parts joined by the delimiter give the text back
		if (s.empty()) break; size_t n = 0, *la = NULL; size_t ms = vh_rndn(4); char **r = M_str_explode_quoted((unsigned char)d, h.p, s.size(), (unsigned char)(vh_chance(20) ? 0 : q), (unsigned char)(vh_chance(20) ? 0 : e), ms, &n, &la); S all; VH_CHECK(r != NULL, "str:explode_quoted-join", "NULL"); if (ms) VH_CHECK(ms == 1 || n <= ms, "str:explode_quoted-max", "%zu parts", n); for (size_t i = 0; i < n; i++) { if (i) all += d; all += S(r[i], la[i]); } VH_CHECK(all == s, "str:explode_quoted-join", "'%s' -> '%s'", E(s), E(all)); M_str_explode_free(r, n); M_free(la); break; }
	case 15: { // explode_int / implode_int
		VS parts; S in; std::vector<int> want; for (int k = 1 + (int)vh_rndn(8); k > 0; k--) { int x = (int)vh_i64(); S p = vh_chance(15) ? S() : vh_fmt("%d", x); if (!p.empty()) want.push_back(x); if (vh_chance(30)) p = " " + p + "\t"; in += (in.empty() && parts.empty() ? "" : ",") + p; parts.push_back(p); }
		if (in.empty()) break; Heap hi(in, true); size_t n = 77; int *r = M_str_explode_int(',', hi.p, &n); VH_CHECK(n == want.size() && (n == 0) == (r == NULL), "str:explode_int", "'%s' %zu", E(in), n); for (size_t i = 0; i < n; i++) VH_CHECK(r[i] == want[i], "str:explode_int", "'%s' %zu: %d want %d", E(in), i, r[i], want[i]);
		M_free(r); S w; for (size_t i = 0; i < want.size(); i++) w += (i ? "," : "") + vh_fmt("%d", want[i]); char *p = M_str_implode_int(',', want.data(), want.size()); if (want.empty()) VH_CHECK(p == NULL, "str:implode_int", "not NULL"); else dup_eq(p, w, "str:implode_int", w); break; }
	case 16: { // explode_lines
		S in = vh_from("abcdefg hij  \n", vh_rndn(80)); Heap hi(in, true); size_t ml = 1 + vh_rndn(8), mc = 1 + vh_rndn(20); bool tr = vh_chance(50); size_t n = 99; char **r = M_str_explode_lines(ml, mc, hi.p, MB(tr), &n);
		VS w; size_t i = 0; while (w.size() < ml) { while (i < in.size() && isp(in[i])) i++; size_t rem = in.size() - i, ck; if (!rem) break; if (rem <= mc) ck = rem; else { ck = mc; while (ck > 0 && !isp(in[i + ck])) ck--; if (!ck) ck = mc; } S l = in.substr(i, ck); while (!l.empty() && isp(l.back())) l.pop_back(); w.push_back(l); i += ck; }
		while (i < in.size() && isp(in[i])) i++; bool left = i < in.size();
		if (w.empty() || (!tr && left)) VH_CHECK(r == NULL && n == 0, "str:explode_lines-null", "'%s' %zux%zu", E(in), ml, mc);
		else { VH_CHECK(r && n == w.size(), "str:explode_lines-count", "'%s' %zux%zu: %zu want %zu", E(in), ml, mc, n, w.size()); for (size_t k = 0; k < n; k++) VH_CHECK(w[k] == r[k], "str:explode_lines", "'%s' %zux%zu line %zu '%s'", E(in), ml, mc, k, r[k]); }
		M_str_explode_free(r, n); break; }
	case 17: { // split_on_char
		S in = s; Heap hi(in, true); char *r = M_str_split_on_char(hi.p, c); size_t p = in.find(c); VH_CHECK(r == hi.p + (p == S::npos ? in.size() : p + 1), "str:split_on_char", "'%s' %d", E(in), c); VH_CHECK(S(hi.p) == in.substr(0, p), "str:split_on_char", "'%s'", E(in)); if (p != S::npos) VH_CHECK(S(r) == in.substr(p + 1), "str:split_on_char", "'%s'", E(in)); break; }
	case 18: case 19: { // brackets
		char op = vh_chance(70) ? '(' : c, cl = vh_chance(70) ? ')' : q, qu = vh_chance(50) ? 0 : '"', es = vh_chance(50) ? 0 : '\\'; S in; for (int k = (int)vh_rndn(14); k > 0; k--) in += vh_chance(30) ? S(1, op) : vh_chance(40) ? S(1, cl) : vh_chance(30) ? S("\"") : vh_chance(20) ? S("\\") : vh_from("abc ", 1 + vh_rndn(3)); if (vh_chance(50)) { in = ""; int dep = 0; for (int k = (int)vh_rndn(12); k > 0; k--) { if (vh_chance(35)) { in += op; dep++; } else if (dep && vh_chance(50)) { in += cl; dep--; } else in += vh_from("xyz", 1); } while (dep--) in += cl; }
		if ((qu && (op == qu || cl == qu || op == es || cl == es)) || (es && (op == es || cl == es))) break;
		Heap hi(in, true); bool plain = !qu && !es && vh_chance(50);
		char *r = plain ? M_str_remove_bracketed(hi.p, op, cl) : M_str_remove_bracketed_quoted(hi.p, op, cl, qu, es), *k = plain ? M_str_keep_bracketed(hi.p, op, cl) : M_str_keep_bracketed_quoted(hi.p, op, cl, qu, es);
		S wr, wk; int dep = 0; bool bad = op == cl || in.empty(), inq = false; for (size_t i = 0; i < in.size() && !bad; i++) { char x = in[i]; if (qu && x == qu && !(es && esc_at(in, i, es))) inq = !inq; bool o = x == op && !inq, l = x == cl && !inq; if (l && !dep) { bad = true; break; } if (l) dep--; if (dep) wk += x; if (o) dep++; if (!dep && !l) wr += x; }
		if (dep || inq) bad = true;
		if (bad) VH_CHECK(!r && !k, "str:bracketed-unbalanced", "'%s'", E(in)); else { dup_eq(r, wr, "str:remove_bracketed", in); dup_eq(k, wk, "str:keep_bracketed", in); vh_count("bracketed", 1); break; } M_free(r); M_free(k); break; }
	case 20: case 21: { // quoted sections
		char qu = '"', es = vh_chance(30) ? 0 : vh_chance(85) ? '\\' : '"'; S in; for (int k = (int)vh_rndn(16); k > 0; k--) in += vh_chance(30) ? S("\"") : vh_chance(20) ? S("\\") : vh_chance(15) ? S("\\\"") : vh_from("abc ", 1 + vh_rndn(3)); Heap hi(in, true);
		char *r = M_str_remove_quoted(hi.p, qu, es), *k = M_str_keep_quoted(hi.p, qu, es);
		if (es == qu) { M_free(r); M_free(k); break; } // same character: memory safety only
		// tokens: an escaped quote or escape stands for itself
		S wr, wk; bool inq = false; for (size_t i = 0; i < in.size(); i++) { char x = in[i]; if (es && x == es && i + 1 < in.size() && (in[i + 1] == es || in[i + 1] == qu)) { (inq ? wk : wr) += in[++i]; continue; } if (x == qu) inq = !inq; else (inq ? wk : wr) += x; }
		if (inq || in.empty()) { VH_CHECK(!r && !k, "str:quoted-unbalanced", "'%s'", E(in)); M_free(r); M_free(k); } else { dup_eq(r, wr, "str:remove_quoted", in); dup_eq(k, wk, "str:keep_quoted", in); vh_count("quoted", 1); } break; }
	case 22: { // predicates
		static const struct { M_bool (*f)(const char *); M_bool (*fm)(const char *, size_t); bool (*p)(char); const char *n; } P[] = {
			{M_str_isalnum, M_str_isalnum_max, [](char x) { return p_al(x) || p_dg(x); }, "alnum"}, {M_str_isalnumsp, M_str_isalnumsp_max, [](char x) { return p_al(x) || p_dg(x) || x == ' '; }, "alnumsp"}, {M_str_isalpha, M_str_isalpha_max, p_al, "alpha"}, {M_str_isalphasp, M_str_isalphasp_max, [](char x) { return p_al(x) || x == ' '; }, "alphasp"},
			{M_str_isspace, M_str_isspace_max, isp, "space"}, {M_str_isgraph, M_str_isgraph_max, [](char x) { return x > 32 && x < 127; }, "graph"}, {M_str_isprint, M_str_isprint_max, [](char x) { return (x >= 32 && x < 127) || isp(x); }, "print"}, {M_str_ishex, M_str_ishex_max, [](char x) { return p_dg(x) || (lo(x) >= 'a' && lo(x) <= 'f'); }, "hex"},
			{M_str_isnum, M_str_isnum_max, p_dg, "num"}, {M_str_isdec, M_str_isdec_max, [](char x) { return p_dg(x) || x == '.'; }, "dec"}, {M_str_isascii, NULL, [](char x) { return (unsigned char)x < 128; }, "ascii"}};
		auto &x = P[vh_rndn(11)]; S in = s; if (vh_chance(70)) { in = ""; for (int k = (int)vh_rndn(10); k > 0; k--) { char y; do y = (char)vh_range(1, 127); while (!x.p(y)); in += y; } if (vh_chance(40) && !in.empty()) in[vh_rndn(in.size())] = (char)vh_range(1, 255); }
		Heap hi(in, true); bool all = true; for (char y : in) all = all && x.p(y); VH_CHECK(x.f(hi.p) == MB(all), "str:predicate", "%s '%s'", x.n, E(in));
		if (x.fm) { size_t m = mx(in); all = true; for (size_t i = 0; i < m && i < in.size(); i++) all = all && x.p(in[i]); VH_CHECK(x.fm(hi.p, m) == MB(all), "str:predicate-max", "%s '%s' %zu", x.n, E(in), m); }
		break; }
	case 23: { // money, true, isstr
		S in = vh_from("0123.5", vh_rndn(8)); if (vh_chance(10)) in += gc(); Heap hi(in, true); size_t dots = 0, after = 0; bool ok = !in.empty(); for (char x : in) { if (x == '.') dots++; else if (!p_dg(x)) ok = false; else if (dots) after++; } ok = ok && dots <= 1 && after <= 2;
		VH_CHECK(M_str_ismoney(hi.p) == MB(ok), "str:ismoney", "'%s'", E(in));
		static const char *tv[] = {"yes", "y", "true", "t", "1", "on", "YES", "oN", "no", "tru", "truee", "0", "", "onn", "2", "ye", " y"}; S u = tv[vh_rndn(17)]; S l = slo(u); bool w = l == "yes" || l == "y" || l == "true" || l == "t" || l == "1" || l == "on"; Heap hu(u, true); VH_CHECK(M_str_istrue(hu.p) == MB(w), "str:istrue", "'%s'", E(u));
		S b = vh_ascii(vh_rndn(6)); if (vh_chance(30) && !b.empty()) b[vh_rndn(b.size())] = (char)vh_rnd(); if (vh_chance(80)) b += '\0'; bool st = !b.empty() && b.find('\0') == b.size() - 1; for (char x : b) if (x && !((x >= 32 && x < 127) || isp(x))) st = false; Heap hb(b); VH_CHECK(M_str_isstr((unsigned char *)hb.p, b.size()) == MB(st), "str:isstr", "'%s'", E(b)); break; }
	case 24: { // hexdump
		int fl = (int)vh_rndn(128); size_t bpl = vh_chance(40) ? 0 : 1 + vh_rndn(40); S data = vh_bytes(vh_chance(95) ? vh_rndn(70) : vh_rndn(5000)), pfx = vh_chance(50) ? "" : "> "; Heap hd(data); char *p = M_str_hexdump(fl, bpl, vh_chance(50) && pfx.empty() ? NULL : pfx.c_str(), (unsigned char *)hd.p, data.size()); VH_CHECK(p != NULL || (data.empty() && (fl & 8)), "str:hexdump", "NULL"); S g = p ? p : ""; M_free(p);
		size_t n = bpl ? bpl : 16; const char *nl = fl & 16 ? "\r\n" : "\n"; size_t sep = fl & 64 ? 1 : 2; size_t ls = 0; bool dec = fl & 1, upc = fl & 32; if (!(fl & 8)) ls = std::max<size_t>(4, vh_fmt(dec ? "%zu" : "%zX", data.size()).size());
		S w; if (fl & 4) { size_t a = g.find(nl); VH_CHECK(a != S::npos, "str:hexdump-header", "no line"); a = g.find(nl, a + strlen(nl)); VH_CHECK(a != S::npos, "str:hexdump-header", "one line"); S hdr = g.substr(0, a + strlen(nl)); VH_CHECK(hdr.find("HEX") != S::npos && (hdr.find("ASCII") != S::npos) == !(fl & 2) && hdr.compare(0, pfx.size(), pfx) == 0, "str:hexdump-header", "'%s'", E(hdr)); g = g.substr(hdr.size()); }
		auto num = [&](size_t v) { return dec ? vh_fmt("%0*zu", (int)ls, v) : vh_fmt(upc ? "%0*zX" : "%0*zx", (int)ls, v); };
		for (size_t o = 0; o < data.size(); o += n) { w += pfx; if (!(fl & 8)) w += num(o) + S(sep, ' '); for (size_t i = 0; i < n; i++) { if (i) w += S(i % 8 == 0 ? sep : 1, ' '); w += o + i < data.size() ? vh_fmt(upc ? "%02X" : "%02x", (unsigned char)data[o + i]) : S("  "); } if (!(fl & 2)) { w += S(sep, ' ') + "|"; for (size_t i = 0; i < n; i++) { unsigned char x = o + i < data.size() ? (unsigned char)data[o + i] : ' '; w += x >= 32 && x < 127 ? (char)x : '.'; } w += "|"; } w += nl; }
		if (!(fl & 8)) w += pfx + num(data.size());
		VH_CHECK(g == w, "str:hexdump", "flags %d bpl %zu len %zu: got '%s' want '%s'", fl, bpl, data.size(), E(g.substr(0, 300)), E(w.substr(0, 300))); break; }
	case 25: { // NULL handling
		size_t n; VH_CHECK(M_str_eq(NULL, "") && M_str_eq("", NULL) && M_str_eq(NULL, NULL) && !M_str_eq(NULL, "a") && !M_str_caseeq("a", NULL) && M_str_caseeq_max(NULL, "", 4) && M_str_cmpsort(NULL, "") == 0 && M_str_cmpsort(NULL, "a") < 0 && M_str_casecmpsort("a", NULL) > 0, "str:null", "comparison");
		VH_CHECK(!M_strdup(NULL) && !M_strdup_max(NULL, 3) && !M_strdup_trim(NULL) && !M_strdup_lower(NULL) && !M_strdup_title(NULL) && !M_strdup_unquote(NULL, '"', '"') && !M_str_trim(NULL) && !M_str_lower(NULL) && !M_str_delete_spaces(NULL) && !M_str_delete_newlines(NULL) && !M_str_replace_chr(NULL, 'a', 'b') && !M_str_quote(NULL, 'a', 'b') && !M_str_unquote(NULL, 'a', 'b') && !M_strdup_replace_str(NULL, "a", "b") && !M_strdup_replace_charset(NULL, (const unsigned char *)"a", 1, "b"), "str:null", "dup");
		VH_CHECK(M_str_len(NULL) == 0 && M_str_len_max(NULL, 5) == 0 && M_str_isempty(NULL) && !M_str_istrue(NULL) && !M_str_chr(NULL, 'a') && !M_str_rchr(NULL, 'a') && !M_str_str(NULL, "a") && !M_str_casestr(NULL, "a") && M_str_casestr_pos("a", NULL) == -1 && !M_str_eq_end(NULL, "a") && M_str_eq_start("x", NULL), "str:null", "search");
		VH_CHECK(!M_str_explode(',', NULL, 0, &n, NULL) && n == 0 && !M_str_explode_str(',', NULL, &n) && !M_str_explode_int(',', NULL, &n) && !M_str_explode_quoted(',', NULL, 0, '"', '"', 0, &n, NULL) && n == 0 && !M_str_implode(',', '"', '"', NULL, 0, M_FALSE) && !M_str_split_on_char(NULL, 'a'), "str:null", "split");
		char b[3] = "xy"; VH_CHECK(!M_str_cpy(NULL, 3, "a") && !M_str_cpy(b, 0, "a") && b[0] == 'x' && M_str_cpy(b, 3, NULL) && b[0] == 0 && !M_str_cat(b, 3, NULL) && !M_str_cat(NULL, 3, "a"), "str:null", "copy");
		VH_CHECK(!strcmp(M_str_safe(NULL), "") && !strcmp(M_str_safe(h.p), s.c_str()) && !M_str_pattern_match(NULL, "a") && !M_str_pattern_match("a", NULL) && !M_strdup_justify(NULL, M_STR_JUSTIFY_LEFT, ' ', 4), "str:null", "misc"); break; }
	case 26: { // dot money: exactly two digits, refused when more are significant
		S in = vh_from("0123456789", vh_rndn(6)), fr; bool dot = vh_chance(60); if (dot) { fr = vh_from("0123456789", vh_rndn(4)); } S full = in + (dot ? "." + fr : ""); if (in.empty()) break; Heap hi(full, true); char *r = M_str_dot_money_out(hi.p);
		uint64_t v = strtoull((in + (fr + "000").substr(0, 3)).c_str(), NULL, 10); if (v % 10) { VH_CHECK(r == NULL, "str:dot_money", "%s accepted", E(full)); break; } v /= 10;
		dup_eq(r, vh_fmt("%" PRIu64 ".%02" PRIu64, v / 100, v % 100), "str:dot_money", full); break; }
	default: { // pattern
		struct Tok { int k; char c; bool neg; S set; std::vector<std::pair<char, char>> rg; }; std::vector<Tok> v; S pat; const char *lit = vh_chance(50) ? "abAB" : "abcxyz01-!._";
		for (int k = (int)vh_rndn(7); k > 0; k--) { Tok x; x.neg = false; x.c = 0; switch (vh_rndn(7)) { case 0: x.k = 2; pat += '*'; break; case 1: x.k = 1; pat += '?'; break;
			case 2: case 3: { x.k = 3; x.neg = vh_chance(35); pat += '['; if (x.neg) pat += '!'; bool first = true; if (vh_chance(12)) { pat += ']'; x.set += ']'; first = false; } else if (vh_chance(12)) { pat += '-'; x.set += '-'; first = false; }
				for (int m = (int)vh_rndn(3) + (first ? 1 : 0); m > 0; m--) { if (vh_chance(40)) { static const char *cl[] = {"abcdxyz", "ABCDXYZ", "0123789"}; const char *z = cl[vh_rndn(3)]; char a = z[vh_rndn(7)], b = z[vh_rndn(7)]; if (a > b) std::swap(a, b); pat += a; pat += '-'; pat += b; x.rg.push_back({a, b}); } else if (vh_chance(20)) { char a = "[]?*\\"[vh_rndn(5)]; pat += '\\'; pat += a; x.set += a; } else { char a = first && !x.neg ? "abAB_c"[vh_rndn(6)] : "abAB!_?*"[vh_rndn(8)]; pat += a; x.set += a; } first = false; }
				if (x.set.find('-') == S::npos && vh_chance(10)) { pat += '-'; x.set += '-'; } pat += ']'; break; }
			case 4: x.k = 0; x.c = "[]?*\\"[vh_rndn(5)]; pat += '\\'; pat += x.c; break;
			default: x.k = 0; x.c = lit[vh_rndn(strlen(lit))]; pat += x.c; } v.push_back(x); }
		bool cs = vh_chance(50);
		auto m1 = [&](const Tok &x, char y) { if (x.k == 1) return true; if (x.k == 0) return cs ? lo(x.c) == lo(y) : x.c == y; bool in = false; for (char z : x.set) in = in || (cs ? lo(z) == lo(y) : z == y); for (auto &r : x.rg) { auto f = [&](char w) { return w >= r.first && w <= r.second; }; in = in || f(y) || (cs && (f(lo(y)) || f(up(y)))); } return in != x.neg; };
		// build a subject that often matches
		S sub; for (auto &x : v) { if (x.k == 2) sub += vh_from("abAB01-]", vh_rndn(4)); else { char y = 'a'; for (int tr = 0; tr < 60; tr++) { y = (char)vh_range(33, 126); if (m1(x, y)) break; } sub += y; } } if (vh_chance(35) && !sub.empty()) { size_t i = vh_rndn(sub.size()); if (vh_chance(50)) sub[i] = (char)vh_range(33, 126); else if (vh_chance(50)) sub.erase(i, 1); else sub.insert(i, 1, 'a'); }
		std::vector<std::vector<char>> dp(v.size() + 1, std::vector<char>(sub.size() + 1, 0)); dp[0][0] = 1; for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j <= sub.size(); j++) if (dp[i][j]) { if (v[i].k == 2) { for (size_t z = j; z <= sub.size(); z++) dp[i + 1][z] = 1; } else if (j < sub.size() && m1(v[i], sub[j])) dp[i + 1][j + 1] = 1; }
		bool w = dp[v.size()][sub.size()]; Heap hp(pat, true), hsub(sub, true); M_bool g = cs ? M_str_case_pattern_match(hp.p, hsub.p) : M_str_pattern_match(hp.p, hsub.p); vh_count(w ? "pat_match" : "pat_nomatch", 1);
		VH_CHECK(g == MB(w), cs ? "str:case_pattern" : "str:pattern", "pattern '%s' text '%s': %d want %d", E(pat), E(sub), g, w);
		if (vh_chance(20)) { S junk = vh_from("[]!-\\*?ab", vh_rndn(9)); Heap hj(junk, true); (void)M_str_pattern_match(hj.p, hsub.p); (void)M_str_case_pattern_match(hj.p, hsub.p); } }
	}
	vh_distinct(vh_hash(s.data(), s.size(), vh_hash(t.data(), t.size(), 1)));
}
static void ops() { gen_alpha = ""; for (int i = 0; i < 12; i++) one(); }
static void chr() {
	int i = (int)(vh_case & 255); char c = (char)i; unsigned char u = (unsigned char)i; vh_distinct(vh_hu((uint64_t)i, 3)); vh_count("chars", 1);
	bool up_ = u >= 'A' && u <= 'Z', lo_ = u >= 'a' && u <= 'z', dg = u >= '0' && u <= '9', gr = u > 32 && u < 127, spc = u == 32 || (u >= 9 && u <= 13);
#define P(f, w) VH_CHECK((M_bool)!!f(c) == MB(w), "chr:" #f, "char %d", i)
	P(M_chr_isalnum, up_ || lo_ || dg); P(M_chr_isalnumsp, up_ || lo_ || dg || u == 32); P(M_chr_isalpha, up_ || lo_); P(M_chr_isalphasp, up_ || lo_ || u == 32); P(M_chr_isascii, u < 128); P(M_chr_isblank, u == 32 || u == 9); P(M_chr_iscntrl, u < 32 || u == 127); P(M_chr_isdigit, dg); P(M_chr_isdec, dg || u == '.'); P(M_chr_isgraph, gr); P(M_chr_islower, lo_); P(M_chr_isupper, up_); P(M_chr_isprint, gr || spc); P(M_chr_ispunct, gr && !(up_ || lo_ || dg)); P(M_chr_isspace, spc);
	bool hx = dg || (u >= 'a' && u <= 'f') || (u >= 'A' && u <= 'F'); P(M_chr_ishex, hx);
	VH_CHECK(M_chr_tolower(c) == (up_ ? (char)(c + 32) : c) && M_chr_toupper(c) == (lo_ ? (char)(c - 32) : c), "chr:case", "char %d", i);
	VH_CHECK(M_chr_digit(c) == (dg ? u - '0' : -1), "chr:digit", "char %d", i); VH_CHECK(M_chr_xdigit(c) == (dg ? u - '0' : hx ? (u | 32) - 'a' + 10 : -1), "chr:xdigit", "char %d", i);
}
const vh_mode_t vh_modes[] = {{"ops", ops}, {"chr", chr}, {0}};
