// B22: command line parsing against a direct model of the documented grammar.
#include "vh.hpp"
#include <vector>
#include <map>
#include <string>
#include <algorithm>

struct Opt { char sh; bool has_lo; S lo; int type; bool req; bool has_desc; S desc; };
struct Ev { int kind; char sh; bool has_lo; S lo; bool has_val; S val; size_t idx; };
static std::vector<Ev> log_;
static int reject_at; // index of the callback that answers M_FALSE (-1: none)
static int thunk_tag;

static M_bool verdict(void *thunk)
{
	VH_CHECK(thunk == &thunk_tag, "thunk", "callback got a thunk that is not the one given to M_getopt_parse");
	return (int)log_.size() - 1 == reject_at ? M_FALSE : M_TRUE;
}
static Ev ev(int kind, char sh, const char *lo, bool hv, const S &v) { Ev e; e.kind = kind; e.sh = sh; e.has_lo = lo != NULL; e.lo = lo ? lo : ""; e.has_val = hv; e.val = v; e.idx = 0; return e; }
static M_bool cb_int(char sh, const char *lo, M_int64 *v, void *t) { log_.push_back(ev(1, sh, lo, v != NULL, v ? vh_fmt("%lld", (long long)*v) : S())); return verdict(t); }
static M_bool cb_dec(char sh, const char *lo, M_decimal_t *v, void *t)
{
	S s; char b[128];
	if (v) { VH_CHECK(M_decimal_to_str(v, b, sizeof(b)) == M_DECIMAL_SUCCESS, "dec", "decimal given to the callback cannot be rendered"); s = b; }
	log_.push_back(ev(2, sh, lo, v != NULL, s)); return verdict(t);
}
static M_bool cb_str(char sh, const char *lo, const char *v, void *t) { log_.push_back(ev(3, sh, lo, v != NULL, v ? v : "")); return verdict(t); }
static M_bool cb_bool(char sh, const char *lo, M_bool v, void *t) { log_.push_back(ev(4, sh, lo, true, v ? "1" : "0")); return verdict(t); }
static M_bool cb_non(size_t idx, const char *o, void *t) { Ev e = ev(5, 0, NULL, true, o ? o : "(null)"); e.idx = idx; log_.push_back(e); return verdict(t); }

static S show(const std::vector<Ev> &l)
{
	S s;
	for (auto &e : l) s += vh_fmt("[%d '%c' %s %s %zu]", e.kind, e.sh ? e.sh : '0', e.has_lo ? e.lo.c_str() : "-", e.has_val ? ("=" + e.val).c_str() : "NULL", e.idx);
	return s;
}
static S lower(S s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool okchar(unsigned char c) { return c > 0x20 && c < 0x7f && c != '=' && c != '"' && c != '\''; }

static S gen_long()
{
	static const char *w[] = { "a", "b", "name", "Name", "NAME", "file", "dry-run", "x", "long.opt", "v", "verbose", "out+put", "i1", "d2", "no" };
	if (vh_chance(70)) return w[vh_rndn(15)];
	S s; size_t n = vh_range(1, 12);
	for (size_t i = 0; i < n; i++) s += (char)vh_range(0x1e, 0x80);
	for (auto &c : s) if (c == 0) c = 'z';
	return s;
}
static char gen_short() { static const char p[] = "abcxyzABIids0179?@+."; return vh_chance(85) ? p[vh_rndn(sizeof(p) - 1)] : (char)vh_range(1, 255); }

static M_bool add(M_getopt_t *g, const Opt &o)
{
	const char *lo = o.has_lo ? o.lo.c_str() : NULL, *d = o.has_desc ? o.desc.c_str() : NULL;
	switch (o.type) {
		case 1: return M_getopt_addinteger(g, o.sh, lo, MB(o.req), d, cb_int);
		case 2: return M_getopt_adddecimal(g, o.sh, lo, MB(o.req), d, cb_dec);
		case 3: return M_getopt_addstring(g, o.sh, lo, MB(o.req), d, cb_str);
	}
	return M_getopt_addboolean(g, o.sh, lo, MB(o.req), d, cb_bool);
}
static const char *tname(int t) { return t == 1 ? "integer" : t == 2 ? "decimal" : t == 3 ? "string" : "boolean"; }

static M_getopt_t *g_;
static std::vector<Opt> opts_;
static void build(bool nonopt)
{
	g_ = M_getopt_create(nonopt ? cb_non : NULL);
	opts_.clear();
	size_t n = vh_range(0, 9);
	for (size_t i = 0; i < n; i++) {
		Opt o; o.sh = vh_chance(75) ? gen_short() : 0; o.has_lo = vh_chance(65); if (o.has_lo) o.lo = vh_chance(3) ? S() : gen_long();
		o.type = 1 + vh_rndn(4); o.req = vh_chance(50); o.has_desc = vh_chance(60); if (o.has_desc) o.desc = vh_ascii(vh_range(0, 20));
		for (auto &c : o.desc) if (c == '\n' || c == 0) c = '.';
		bool ok = o.sh != 0 || o.has_lo;
		if (o.sh && (!okchar((unsigned char)o.sh) || o.sh == '-')) ok = false;
		if (o.has_lo) {
			if (o.lo.empty() || o.lo[0] == '-' || o.lo[o.lo.size() - 1] == '-') ok = false;
			for (auto c : o.lo) if (!okchar((unsigned char)c)) ok = false;
		}
		bool dup = false;
		for (auto &p : opts_) { if (o.sh && p.sh == o.sh) dup = true; if (o.has_lo && p.has_lo && lower(p.lo) == lower(o.lo)) dup = true; }
		M_bool got = add(g_, o);
		VH_CHECK(got == MB(ok && !dup), "register", "registering -%d / %s returned %d, expected %d", o.sh, o.has_lo ? E(o.lo) : "(none)", got, ok && !dup);
		vh_count(ok ? dup ? "dups" : "added" : "refused", 1);
		if (ok && !dup) opts_.push_back(o);
	}
}
static const Opt *find_sh(char c) { for (auto &o : opts_) if (o.sh && o.sh == c) return &o; return NULL; }
static const Opt *find_lo(const S &s) { for (auto &o : opts_) if (o.has_lo && lower(o.lo) == lower(s)) return &o; return NULL; }

static S gen_value()
{
	static const char *v[] = { "0", "1", "-1", "+7", "123", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1.5", "-2.25", "0.001", "3.14159", "abc", "12abc", "1.2.3", "yes", "no", "true", "FALSE", "on", "off", "y", "n", "", " ", "a b", "x=y", "=", "%s", "007", "0x10", "t", "path/to-file", "a-b" };
	if (vh_chance(85)) return v[vh_rndn(sizeof(v) / sizeof(*v))];
	S s = vh_ascii(vh_range(1, 8)); for (auto &c : s) if (c == 0) c = 'q'; return s;
}
static S gen_arg()
{
	int k = vh_rndn(100);
	if (k < 5) return "--";
	if (k < 7) return "-";
	if (k < 30) return gen_value();
	S s;
	if (k < 65 || opts_.empty()) {
		s = "-"; size_t n = vh_chance(55) ? 1 : vh_range(2, 5);
		for (size_t i = 0; i < n; i++) { char c = vh_chance(92) && !opts_.empty() ? opts_[vh_rndn(opts_.size())].sh : gen_short(); if (c == 0 || c == '=' || (i == 0 && c == '-')) c = 'q'; s += c; }
	} else {
		const Opt &o = opts_[vh_rndn(opts_.size())];
		S l = o.has_lo ? o.lo : gen_long();
		for (auto &c : l) if (vh_chance(15) && c >= 'a' && c <= 'z') c -= 32;
		if (vh_chance(4)) l += "x"; if (vh_chance(3) && l.size() > 1) l.resize(l.size() - 1); if (vh_chance(2)) l = "";
		s = "--" + l;
	}
	if (vh_chance(30)) s += "=" + gen_value();
	return s;
}

// the documented meaning ----------------------------------------------------------------------------------
struct Model {
	std::vector<Ev> l; M_getopt_error_t ret; int fail;
	bool call(const Ev &e) { l.push_back(e); return (int)l.size() - 1 != reject_at; }
	M_getopt_error_t one(const Opt *o, bool has, const S &v, bool attached, bool &used)
	{
		used = false;
		if (!o) return M_GETOPT_ERROR_INVALIDOPT;
		if (o->req && !has) return M_GETOPT_ERROR_MISSINGVALUE;
		if (o->type == 4 && !o->req) {
			if (has && attached) return M_GETOPT_ERROR_INVALIDDATATYPE;
			has = false;
		}
		if (has) used = true;
		Ev e = ev(o->type, o->sh, o->has_lo ? o->lo.c_str() : NULL, has, v);
		if (o->type == 4) { e.val = has ? (M_str_istrue(v.c_str()) ? "1" : "0") : "1"; e.has_val = true; }
		if (o->type == 1 && has) {
			M_int64 x = 0; // the conversion itself is B09's subject
			if (M_str_to_int64_ex(v.c_str(), v.size(), 10, &x, NULL) != M_STR_INT_SUCCESS) return M_GETOPT_ERROR_INVALIDDATATYPE;
			e.val = vh_fmt("%lld", (long long)x);
		}
		if (o->type == 2 && has) {
			M_decimal_t d; char b[128];
			M_decimal_create(&d);
			if (M_decimal_from_str(v.c_str(), v.size(), &d, NULL) != M_DECIMAL_SUCCESS) return M_GETOPT_ERROR_INVALIDDATATYPE;
			M_decimal_to_str(&d, b, sizeof(b)); e.val = b;
		}
		if (!call(e)) return M_GETOPT_ERROR_INVALIDDATATYPE;
		return M_GETOPT_ERROR_SUCCESS;
	}
	void run(const std::vector<S> &a, bool nonopt)
	{
		bool opts = true, seen = false; fail = -1; ret = M_GETOPT_ERROR_SUCCESS;
		for (size_t i = 1; i < a.size(); i++) {
			bool isopt = opts && !a[i].empty() && a[i][0] == '-';
			if (isopt && a[i] == "--") { opts = false; continue; }
			if (!isopt) {
				seen = true;
				Ev e = ev(5, 0, NULL, true, a[i]); e.idx = i;
				if (!nonopt || !call(e)) { ret = M_GETOPT_ERROR_NONOPTION; fail = (int)i; return; }
				continue;
			}
			if (seen) { ret = M_GETOPT_ERROR_INVALIDORDER; fail = (int)i; return; }
			S name = a[i], val; bool has = false, att = false;
			if (name == "-") { ret = M_GETOPT_ERROR_INVALIDOPT; fail = (int)i; return; }
			size_t q = name.find('=');
			if (q != S::npos) {
				val = name.substr(q + 1); name.resize(q); has = att = true;
				if (val.empty() || val.find('=') != S::npos) { ret = M_GETOPT_ERROR_MISSINGVALUE; fail = (int)i; return; }
			} else if (i + 1 < a.size() && (a[i + 1].empty() || a[i + 1][0] != '-')) { has = true; val = a[i + 1]; }
			bool used = false;
			if (name.compare(0, 2, "--") == 0) ret = one(find_lo(name.substr(2)), has, val, att, used);
			else {
				if (name.size() == 1) ret = M_GETOPT_ERROR_INVALIDOPT;
				for (size_t k = 1; k < name.size() && ret == M_GETOPT_ERROR_SUCCESS; k++) { bool last = k + 1 == name.size(); ret = one(find_sh(name[k]), last && has, val, last && att, used); }
				if (name.size() > 2) vh_count("groups", 1);
			}
			if (ret != M_GETOPT_ERROR_SUCCESS) { fail = (int)i; return; }
			if (used && !att) { i++; vh_count("separate_values", 1); }
			if (used && att) vh_count("attached_values", 1);
		}
	}
};

static bool plain_ws(const S &s) { return !s.empty() && (s[0] == ' ' || (s[0] >= 9 && s[0] <= 13)); }
static void parse()
{
	bool nonopt = vh_chance(85);
	build(nonopt);
	size_t rounds = vh_range(1, 6);
	for (size_t r = 0; r < rounds; r++) {
		std::vector<S> a; a.push_back("prog");
		size_t n = vh_range(0, 10);
		for (size_t i = 0; i < n; i++) {
			S s = gen_arg(); if (plain_ws(s) && s[0] != ' ') s[0] = ' ';
			a.push_back(s);
		}
		// sort most vectors so that options come first: otherwise nearly all end in INVALIDORDER
		reject_at = vh_chance(12) ? (int)vh_rndn(5) : -1;
		S all; for (auto &s : a) all += " <" + s + ">";
		vh_log("args%s reject %d", E(all), reject_at);
		Model m; m.run(a, nonopt);
		std::vector<Heap *> h; std::vector<const char *> av;
		for (auto &s : a) { h.push_back(new Heap(s, true)); av.push_back((const char *)h.back()->p); }
		const char *fail = (const char *)1;
		log_.clear();
		M_getopt_error_t ret = M_getopt_parse(g_, av.data(), (int)av.size(), vh_chance(90) ? &fail : NULL, &thunk_tag);
		VH_CHECK(show(log_) == show(m.l), "delivery", "arguments%s: callbacks %s, expected %s", E(all), E(show(log_)), E(show(m.l)));
		VH_CHECK(ret == m.ret, "result", "arguments%s: result %d, expected %d", E(all), ret, m.ret);
		if (ret != M_GETOPT_ERROR_SUCCESS && fail != (const char *)1) { VH_CHECK(fail == av[m.fail], "opt_fail", "arguments%s: opt_fail is not argument %d", E(all), m.fail); }
		for (size_t i = 0; i < a.size(); i++) VH_CHECK(a[i] == av[i], "argv", "argument %zu modified", i);
		for (auto p : h) delete p;
		vh_count("parses", 1); vh_count("callbacks", log_.size()); vh_count(vh_fmt("ret_%d", ret).c_str(), 1);
		if (ret == M_GETOPT_ERROR_SUCCESS && log_.size() >= 3) vh_count("full", 1);
		vh_distinct(vh_hstr(show(log_).c_str(), ret));
	}
	M_getopt_destroy(g_);
	const char *x[] = { "p", "a" };
	VH_CHECK(M_getopt_parse(NULL, x, 2, NULL, NULL) != M_GETOPT_ERROR_SUCCESS, "null", "parsing without an object succeeded");
}

static void help()
{
	build(true);
	S want;
	for (auto &o : opts_) {
		want += "  ";
		if (o.sh) { want += '-'; want += o.sh; }
		if (o.has_lo) { if (o.sh) want += ", "; want += "--" + o.lo; }
		if (o.type != 4 || o.req) { want += o.req ? " <val> (" : " [val] ("; want += tname(o.type); want += ")"; }
		if (o.has_desc) want += " " + o.desc;
		want += "\n";
	}
	char *h = M_getopt_help(g_);
	VH_CHECK(S(h ? h : "") == want, "help", "help text %s, expected %s", E(S(h ? h : "(null)")), E(want));
	vh_count("texts", h != NULL); vh_count("lines", opts_.size());
	vh_distinct(vh_hstr(want.c_str(), 0));
	M_free(h);
	M_getopt_destroy(g_);
}

const vh_mode_t vh_modes[] = { { "parse", parse, NULL, NULL }, { "help", help, NULL, NULL }, { 0 } };
