// X01: regular expressions against a set-of-matches semantics
#include "vh.hpp"
#include <mstdlib/mstdlib_text.h>
#include <thread>
typedef uint32_t cp_t;
typedef std::vector<cp_t> U;
static S enc(cp_t c) { S s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
enum { LIT, DOT, CLS, BOL, EOL, BOW, EOW, GRP, CAT, ALT, REP, EMPTY };
enum { F_I = 1, F_M = 2, F_S = 4, F_U = 8 };
struct N { int t; cp_t c = 0; std::vector<std::pair<cp_t, cp_t>> rs; bool neg = false; int g = 0, mn = 0, mx = 0; bool lazy = false; std::vector<std::shared_ptr<N>> k; S txt; };
typedef std::shared_ptr<N> NP;
static bool SM; static int G, lazies, greedies, alts; static int fl;
static const cp_t ALPHA[] = { 'a', 'a', 'a', 'b', 'b', 'c', 'A', 'B', '_', ' ', '\n', '0', '7', '-', '.', '*', ']', 0xE9, 0xC9, 0x65E5, 0x1F600, '\t', '\v' };
static cp_t rch() { if (SM) return (cp_t)("ab\n"[vh_rndn(vh_chance(85) ? 2 : 3)]); return ALPHA[vh_rndn(vh_chance(60) ? 6 : sizeof ALPHA / sizeof *ALPHA)]; }
static cp_t lo(cp_t c) { if (c >= 'A' && c <= 'Z') return c + 32; if (c >= 0xC0 && c <= 0xDE && c != 0xD7) return c + 32; return c; }
static cp_t up(cp_t c) { if (c >= 'a' && c <= 'z') return c - 32; if (c >= 0xE0 && c <= 0xFE && c != 0xF7) return c - 32; return c; }
static bool word(cp_t c) { return c == '_' || (c >= '0' && c <= '9') || (lo(c) >= 'a' && lo(c) <= 'z') || (c >= 0xC0 && c <= 0xFF && c != 0xD7 && c != 0xF7) || (c >= 0x4E00 && c <= 0x9F00); }
static S litesc(cp_t c) {
	if (c == '\n') return vh_chance(60) ? "\\n" : "\n";
	if (c == '\t') return vh_chance(60) ? "\\t" : "\t";
	if (c == '\v') return vh_chance(60) ? "\\v" : "\v";
	if (strchr(".*+?()[]{}|^$\\", (int)(c < 128 ? c : 'a'))) return vh_chance(70) ? S("\\") + (char)c : c < 128 ? vh_fmt("\\x%02X", c) : enc(c);
	if (vh_chance(6)) return c < 256 ? vh_fmt(vh_chance(50) ? "\\x%02x" : "\\x{%x}", c) : vh_fmt("\\x{%X}", c);
	return enc(c);
}
static NP mk(int t) { auto n = std::make_shared<N>(); n->t = t; return n; }
struct NC { const char *n; std::vector<std::pair<cp_t, cp_t>> r; };
static const NC CLASSES[] = { { "alpha", { { 'a', 'z' }, { 'A', 'Z' } } }, { "alnum", { { 'a', 'z' }, { 'A', 'Z' }, { '0', '9' } } }, { "word", { { 'a', 'z' }, { 'A', 'Z' }, { '0', '9' }, { '_', '_' } } }, { "space", { { 9, 13 }, { 32, 32 } } }, { "digit", { { '0', '9' } } }, { "cntrl", { { 1, 31 }, { 127, 127 } } }, { "print", { { 32, 126 } } }, { "xdigit", { { '0', '9' }, { 'a', 'f' }, { 'A', 'F' } } }, { "lower", { { 'a', 'z' } } }, { "upper", { { 'A', 'Z' } } }, { "blank", { { 32, 32 }, { 9, 9 } } }, { "graph", { { 33, 126 } } }, { "punct", { { 33, 47 }, { 58, 64 }, { 91, 96 }, { 123, 126 } } } };
static NP gen(int d, bool inrep);
static NP atom(int d, bool inrep) {
	switch (vh_rndn(d > 0 ? 14 : 9)) {
	case 0: { auto n = mk(DOT); n->txt = "."; return n; }
	case 1: { auto n = mk(CLS); static const char *sh = "dDwWsS"; char c = sh[vh_rndn(6)]; n->txt = S("\\") + c; n->neg = c < 'a'; c |= 32; n->rs = c == 'd' ? CLASSES[4].r : c == 'w' ? CLASSES[2].r : CLASSES[3].r; return n; }
	case 2: case 3: { auto n = mk(CLS); n->neg = vh_chance(35); S t = n->neg ? "[^" : "["; int cnt = 1 + (int)vh_rndn(3); bool first = true;
		for (int i = 0; i < cnt; i++) { int w = (int)vh_rndn(6);
			if (w == 0) { const NC &q = CLASSES[vh_rndn(13)]; t += S("[:") + q.n + ":]"; for (auto &x : q.r) n->rs.push_back(x); }
			else if (w == 1) { cp_t a = (cp_t)vh_pick(std::vector<cp_t>{ 'a', 'A', '0', 0xC0, 0x4E00 }), b = a + (cp_t)vh_rndn(5); if (a == 0x4E00) b = 0x7000; if (a == 0xC0) b = 0xE0; n->rs.push_back({ a, b }); t += enc(a) + "-" + enc(b); }
			else { cp_t c = rch(); if (c == '-' || c == ']' ) { if (!first || c == '-') c = 'b'; } n->rs.push_back({ c, c }); t += enc(c); }
			first = false; }
		if (vh_chance(10)) { t += "-"; n->rs.push_back({ '-', '-' }); }
		t += "]"; n->txt = t; return n; }
	case 4: { int w = (int)vh_rndn(4); if (inrep || vh_chance(40)) break; auto n = mk(w == 0 ? BOL : w == 1 ? EOL : w == 2 ? BOW : EOW); n->txt = w == 0 ? "^" : w == 1 ? "$" : w == 2 ? "\\<" : "\\>"; return n; }
	case 9: case 10: case 11: case 12: if (G < 4) { auto n = mk(GRP); n->g = ++G; auto k = gen(d - 1, inrep); n->k.push_back(k); n->txt = "(" + k->txt + ")"; return n; } break;
	default: break;
	}
	auto n = mk(LIT); n->c = rch(); n->txt = litesc(n->c); return n;
}
static NP rep(int d, bool inrep) {
	bool r = vh_chance(inrep ? 25 : 38); auto a = atom(d, inrep || r);
	if (!r || a->t == BOL || a->t == EOL || a->t == BOW || a->t == EOW) return a;
	auto n = mk(REP); n->k.push_back(a); S q;
	switch (vh_rndn(7)) { case 0: case 1: n->mn = 0; n->mx = -1; q = "*"; break; case 2: case 3: n->mn = 1; n->mx = -1; q = "+"; break; case 4: n->mn = 0; n->mx = 1; q = "?"; break;
	case 5: n->mn = (int)vh_rndn(3); if (vh_chance(50)) { n->mx = -1; q = vh_fmt("{%d,}", n->mn); } else { n->mx = n->mn = n->mn + 1; q = vh_fmt("{%d}", n->mn); } break;
	default: n->mn = (int)vh_rndn(3); n->mx = n->mn + 1 + (int)vh_rndn(3); q = vh_fmt("{%d,%d}", n->mn, n->mx); }
	n->lazy = vh_chance(22); if (n->lazy) q += "?"; if (n->mn == n->mx) n->lazy = false; else if (n->lazy != ((fl & F_U) != 0)) lazies++; else greedies++;
	if (n->mn == n->mx && q.back() == '?') q.pop_back();
	n->txt = a->txt + q; return n;
}
static NP cat(int d, bool inrep) { int k = 1 + (int)vh_rndn(SM ? 3 : 4); if (k == 1) return rep(d, inrep); auto n = mk(CAT); for (int i = 0; i < k; i++) { auto x = rep(d, inrep); n->txt += x->txt; n->k.push_back(x); } return n; }
static NP gen(int d, bool inrep) { if (vh_chance(72)) return cat(d, inrep); int k = 2 + (int)vh_rndn(2); auto n = mk(ALT); alts++; for (int i = 0; i < k; i++) { auto x = cat(d, inrep); if (i) n->txt += "|"; n->txt += x->txt; n->k.push_back(x); } return n; }
// ---------------------------------------------------------------- semantics
static const U *sub; static bool budget_out; static long budget;
static bool in_cls(const N &n, cp_t c) { for (auto &r : n.rs) { if (c >= r.first && c <= r.second) return true; } return false; }
static bool one(const N &n, cp_t c) {
	switch (n.t) { case LIT: return n.c == c || ((fl & F_I) && lo(n.c) == lo(c)); case DOT: return (fl & F_S) || c != '\n';
	default: { bool m = in_cls(n, c) || ((fl & F_I) && (in_cls(n, lo(c)) || in_cls(n, up(c)))); return m != n.neg; } }
}
static bool asrt(int t, size_t p) { const U &u = *sub; cp_t pr = p ? u[p - 1] : 0, nx = p < u.size() ? u[p] : 0; bool m = fl & F_M;
	switch (t) { case BOL: return p == 0 || (m && pr == '\n'); case EOL: return p == u.size() || (m && nx == '\n'); case BOW: return !(p && word(pr)) && p < u.size() && word(nx); default: return p && word(pr) && !(p < u.size() && word(nx)); } }
typedef std::map<int, std::pair<size_t, size_t>> Caps;
typedef std::set<std::pair<size_t, Caps>> PS;
typedef std::set<size_t> ES;
static ES ends(const N &n, size_t p) {
	if (--budget < 0) { budget_out = true; return ES(); }
	ES r;
	switch (n.t) {
	case LIT: case DOT: case CLS: if (p < sub->size() && one(n, (*sub)[p])) r.insert(p + 1); return r;
	case BOL: case EOL: case BOW: case EOW: if (asrt(n.t, p)) r.insert(p); return r;
	case EMPTY: r.insert(p); return r;
	case GRP: return ends(*n.k[0], p);
	case ALT: for (auto &k : n.k) { ES x = ends(*k, p); r.insert(x.begin(), x.end()); } return r;
	case CAT: { r.insert(p); for (auto &k : n.k) { ES q; for (size_t e : r) { ES x = ends(*k, e); q.insert(x.begin(), x.end()); } r.swap(q); } return r; }
	case REP: { ES cur; cur.insert(p); if (n.mn == 0) r.insert(p); ES seen;
		for (int i = 1; n.mx < 0 || i <= n.mx; i++) { ES q; for (size_t e : cur) { ES x = ends(*n.k[0], e); q.insert(x.begin(), x.end()); } if (i >= n.mn) { size_t b = r.size(); r.insert(q.begin(), q.end()); if (n.mx < 0 && i > n.mn && r.size() == b) break; } cur.swap(q); if (cur.empty()) break; }
		return r; } }
	return r;
}
static PS parses(const N &n, size_t p, const Caps &c);
static void add(PS &q, const PS &x) { if ((budget -= (long)x.size()) < 0) budget_out = true; else q.insert(x.begin(), x.end()); }
static PS parses(const N &n, size_t p, const Caps &c) {
	PS r; if (budget_out) return r; if (--budget < 0) { budget_out = true; return r; }
	switch (n.t) {
	case GRP: for (auto &x : parses(*n.k[0], p, c)) { Caps d = x.second; d[n.g] = { p, x.first }; r.insert({ x.first, d }); } return r;
	case ALT: for (auto &k : n.k) { PS x = parses(*k, p, c); add(r, x); } return r;
	case CAT: { r.insert({ p, c }); for (auto &k : n.k) { PS q; for (auto &e : r) { PS x = parses(*k, e.first, e.second); add(q, x); } r.swap(q); if (budget_out) return r; } return r; }
	case REP: { PS cur; cur.insert({ p, c }); if (n.mn == 0) r.insert({ p, c });
		for (int i = 1; n.mx < 0 || i <= n.mx; i++) { PS q; for (auto &e : cur) { PS x = parses(*n.k[0], e.first, e.second); add(q, x); if (budget_out) return r; } if (i >= n.mn) { size_t b = r.size(); add(r, q); if (n.mx < 0 && i > n.mn && r.size() == b) break; } cur.swap(q); if (cur.empty()) break; }
		return r; }
	default: for (size_t e : ends(n, p)) r.insert({ e, c }); return r;
	}
}
static bool mandatory(const N &n, int g) { switch (n.t) { case GRP: return n.g == g || mandatory(*n.k[0], g); case CAT: for (auto &k : n.k) if (mandatory(*k, g)) return true; return false; case REP: return n.mn > 0 && mandatory(*n.k[0], g); case ALT: { for (auto &k : n.k) if (!mandatory(*k, g)) return false; return true; } default: return false; } }
static void inloop(const N &n, bool in, std::set<int> &o) { if (n.t == GRP && in) o.insert(n.g); bool loop = in || (n.t == REP && n.mx != 1); for (auto &k : n.k) inloop(*k, loop, o); }
// a group directly repeated is fine (last iteration), groups nested below one are not judged exactly
static void nested(const N &n, int depth, std::set<int> &o) { if (n.t == GRP) { if (depth >= 2) o.insert(n.g); if (depth == 1) depth = 2; } bool loop = n.t == REP && n.mx != 1; for (auto &k : n.k) nested(*k, loop ? std::max(depth, 1) : depth, o); }
// group g can only match the empty string, by way of assertions
static bool zonly(const N &n) { switch (n.t) { case LIT: case DOT: case CLS: return false; case BOL: case EOL: case BOW: case EOW: return true; default: for (auto &k : n.k) if (!zonly(*k)) return false; return true; } }
static const N *findg(const N &n, int g) { if (n.t == GRP && n.g == g) return &n; for (auto &k : n.k) if (const N *x = findg(*k, g)) return x; return nullptr; }
// can match the empty string: 0 no, 1 when assertions hold, 2 always
static int nul(const N &n) { int r; switch (n.t) { case LIT: case DOT: case CLS: return 0; case BOL: case EOL: case BOW: case EOW: return 1; case EMPTY: return 2; case GRP: return nul(*n.k[0]); case REP: return n.mn == 0 ? 2 : nul(*n.k[0]); case CAT: r = 2; for (auto &k : n.k) r = std::min(r, nul(*k)); return r; default: r = 0; for (auto &k : n.k) r = std::max(r, nul(*k)); return r; } }
// alternatives that are empty under different assertions: only the first is ever tried
static bool twoassert(const N &n) { if (n.t == ALT) { int one = 0, two = 0; for (auto &k : n.k) { int v = nul(*k); one += v == 1; two += v == 2; } if (one >= 2 && !two) return true; } for (auto &k : n.k) if (twoassert(*k)) return true; return false; }
static bool lazyloop(const N &n, bool in) { if (n.t == REP && in && n.lazy != ((fl & F_U) != 0) && n.mn != n.mx) return true; for (auto &k : n.k) if (lazyloop(*k, in || (n.t == REP && n.mx != 1))) return true; return false; }
struct Subj { U u; S s; std::vector<size_t> off; std::map<size_t, size_t> idx; };
static Subj mksub(const U &u) { Subj x; x.u = u; for (size_t i = 0; i < u.size(); i++) { x.off.push_back(x.s.size()); x.idx[x.s.size()] = i; x.s += enc(u[i]); } x.off.push_back(x.s.size()); x.idx[x.s.size()] = u.size(); return x; }
// a subject drawn from the language (roughly)
static void draw(const N &n, U &o, int depth) {
	if (o.size() > 30) return;
	switch (n.t) { case LIT: o.push_back((fl & F_I) && vh_chance(40) ? (vh_chance(50) ? up(n.c) : lo(n.c)) : n.c); return;
	case DOT: o.push_back(rch()); return;
	case CLS: if (n.neg) { for (int i = 0; i < 6; i++) { cp_t c = rch(); if (one(n, c)) { o.push_back(c); return; } } o.push_back(rch()); } else { auto &r = n.rs[vh_rndn(n.rs.size())]; o.push_back(r.first + (cp_t)vh_rndn(r.second - r.first + 1)); } return;
	case GRP: draw(*n.k[0], o, depth); return; case ALT: draw(*n.k[vh_rndn(n.k.size())], o, depth); return; case CAT: for (auto &k : n.k) draw(*k, o, depth); return;
	case REP: { int k = n.mn + (int)vh_rndn(n.mx < 0 ? 3 : (unsigned)(n.mx - n.mn + 1)); for (int i = 0; i < k; i++) draw(*n.k[0], o, depth + 1); return; } default: return; }
}
struct Pat { NP root; S txt; M_uint32 flags; int f; int nl, ng, na, groups; };
static Pat mkpat() {
	Pat p; G = lazies = greedies = alts = 0; fl = 0; p.flags = 0;
	static const M_uint32 mf[4] = { M_RE_CASECMP, M_RE_MULTILINE, M_RE_DOTALL, M_RE_UNGREEDY }; S on, off;
	bool inl = vh_chance(15);
	for (int i = 0; i < 4; i++) { bool b = vh_chance(i == 3 ? 10 : 22); if (b) p.flags |= mf[i]; if (inl) { int w = (int)vh_rndn(3); if (w == 1) { on += "imsU"[i]; b = true; } else if (w == 2) { off += "imsU"[i]; b = false; } } if (b) fl |= 1 << i; }
	p.root = gen(SM ? 2 : 3, false); p.txt = p.root->txt;
	if (inl && (on.size() || off.size())) p.txt = "(?" + on + (off.size() ? "-" + off : "") + ")" + p.txt;
	p.f = fl; p.nl = lazies; p.ng = greedies; p.na = alts; p.groups = G; return p;
}
static U randsub(const Pat &p) { U u; size_t pre = vh_rndn(4); fl = p.f; if (vh_chance(55)) { for (size_t i = 0; i < pre; i++) u.push_back(rch()); draw(*p.root, u, 0); pre = vh_rndn(4); for (size_t i = 0; i < pre; i++) u.push_back(rch()); if (vh_chance(30)) draw(*p.root, u, 0); if (vh_chance(25) && u.size()) u[vh_rndn(u.size())] = rch(); } else { size_t n = vh_rndn(SM ? 6 : 14); for (size_t i = 0; i < n; i++) u.push_back(rch()); } if (u.size() > 40) u.resize(40); return u; }
static const char *kx(const Pat &p, const char *k) { static char b[4][64]; static int i; i = (i + 1) & 3; snprintf(b[i], 64, "%s%s", k, p.nl ? (p.na ? ":lazyalt" : ":lazy") : ""); return b[i]; }
// judge one match object found when searching from character `from`
static bool judge(const Pat &p, const Subj &x, size_t from, const M_re_match_t *m, const char *what, std::vector<ES> &es, size_t *mb, size_t *me) {
	size_t o = 77777, l = 77777; S ctx = vh_fmt("/%s/ flags %d on \"%s\"", E(p.txt), p.f, E(x.s));
	bool has = M_re_match_idx(m, 0, &o, &l); VH_CHECK(has, "match:none", "%s %s: match 0 is not reported", what, ctx.c_str()); if (!has) return false;
	if (!x.idx.count(o) || !x.idx.count(o + l)) { vh_fail("match:charsplit", "%s %s: match [%zu,+%zu) not on character bounds", what, ctx.c_str(), o, l); return false; }
	size_t b = x.idx.at(o), e = x.idx.at(o + l); *mb = b; *me = e;
	size_t exp = from; while (exp < es.size() && es[exp].empty()) exp++;
	if (exp >= es.size()) { vh_fail(kx(p, "match:spurious"), "%s %s: matched [%zu,%zu) but nothing matches from %zu", what, ctx.c_str(), b, e, from); return false; }
	if (b != exp) { vh_fail(kx(p, "match:leftmost"), "%s %s: match starts at %zu, leftmost is %zu (from %zu)", what, ctx.c_str(), b, exp, from); return false; }
	if (!es[b].count(e)) { vh_fail(kx(p, "match:end"), "%s %s: match [%zu,%zu) is not in the language", what, ctx.c_str(), b, e); return false; }
	size_t mx = *es[b].rbegin(), mn = *es[b].begin();
	if (p.nl == 0) { vh_count("longest", 1); VH_CHECK(e == mx, kx(p, "match:greedy"), "%s %s: greedy match [%zu,%zu), longest ends %zu", what, ctx.c_str(), b, e, mx); }
	else if (p.ng == 0 && p.nl == 1 && p.na == 0) { vh_count("shortest", 1); if (e != mn && lazyloop(*p.root, false)) vh_known("lazy:repeated", "%s %s: lazy match [%zu,%zu), shortest ends %zu", what, ctx.c_str(), b, e, mn); else VH_CHECK(e == mn, kx(p, "match:lazy"), "%s %s: lazy match [%zu,%zu), shortest ends %zu", what, ctx.c_str(), b, e, mn); }
	// captures
	if (p.groups) {
		budget = 6000; budget_out = false; PS all = parses(*p.root, b, Caps());
		if (!budget_out) {
			std::vector<Caps> v; for (auto &q : all) if (q.first == e) v.push_back(q.second);
			std::set<int> nst; nested(*p.root, 0, nst); std::set<int> lp; inloop(*p.root, false, lp);
			for (int g = 1; g <= p.groups; g++) {
				size_t co = 0, cl = 0; bool h = M_re_match_idx(m, (size_t)g, &co, &cl);
				if (h && (!x.idx.count(co) || !x.idx.count(co + cl))) { vh_fail("cap:charsplit", "%s %s group %d [%zu,+%zu) bad bounds", what, ctx.c_str(), g, co, cl); continue; }
				if (!h && mandatory(*p.root, g) && !lp.count(g)) vh_fail(kx(p, "cap:missing"), "%s %s: group %d takes part in every match but is not reported", what, ctx.c_str(), g);
				if (nst.count(g)) continue;
				std::set<std::pair<size_t, size_t>> poss; bool absent = false; for (auto &q : v) { auto it = q.find(g); if (it == q.end()) absent = true; else poss.insert(it->second); }
				if (h) { std::pair<size_t, size_t> got(x.idx.at(co), x.idx.at(co + cl)); vh_count("captures", 1); if (poss.empty() && zonly(*findg(*p.root, g))) vh_known("cap:zerowidth", "%s %s: group %d is reported at [%zu,%zu) though it took no part", what, ctx.c_str(), g, got.first, got.second); else if (!poss.count(got)) vh_fail(kx(p, poss.empty() ? "cap:spurious" : lp.count(g) ? "cap:loop" : "cap:span"), "%s %s: match [%zu,%zu) group %d is [%zu,%zu), %zu possible spans e.g. [%zu,%zu)", what, ctx.c_str(), b, e, g, got.first, got.second, poss.size(), poss.empty() ? 0 : poss.begin()->first, poss.empty() ? 0 : poss.begin()->second); else if (poss.size() == 1 && !absent) vh_count("captures_forced", 1); }
				else if (!absent && !v.empty()) vh_fail(kx(p, "cap:absent"), "%s %s: match [%zu,%zu) group %d takes part in every way to match but is not reported", what, ctx.c_str(), b, e, g);
			}
		} else vh_count("cap_budget", 1);
	}
	return true;
}
static S mask(const S &s) { return s; }
static void ops(void) {
	Pat p = mkpat(); Heap hp(p.txt, true);
	M_re_t *re = M_re_compile(hp.p, p.flags); VH_CHECK(re != NULL, "compile:refused", "valid pattern /%s/ refused", E(p.txt)); if (!re) return;
	vh_count("patterns", 1); vh_distinct(vh_hstr(p.txt.c_str(), 7)); vh_sample("/%s/ flags %d", E(p.txt), p.f);
	for (int t = 0; t < 6; t++) {
		Subj x = mksub(randsub(p)); sub = &x.u; fl = p.f; budget = 60000; budget_out = false; Heap hs(x.s, true);
		std::vector<ES> es; for (size_t i = 0; i <= x.u.size(); i++) es.push_back(ends(*p.root, i)); if (budget_out) { vh_count("budget", 1); continue; }
		S ctx = vh_fmt("/%s/ flags %d on \"%s\"", E(p.txt), p.f, E(x.s)); vh_count("subjects", 1);
		bool ta = twoassert(*p.root); if (ta) { bool r0 = M_re_search(re, hs.p, NULL), e0 = false; for (auto &e : es) e0 |= !e.empty(); vh_count("twoassert", 1); if (r0 != e0) vh_known("alt:assertions", "search %s: %d expected %d", ctx.c_str(), r0, e0); continue; }
		bool any = false; for (auto &e : es) any |= !e.empty();
		M_re_match_t *m = NULL; bool r = M_re_search(re, hs.p, &m), r2 = M_re_search(re, hs.p, NULL);
		VH_CHECK(r == any, kx(p, any ? "search:miss" : "match:spurious"), "search %s: %d expected %d", ctx.c_str(), r, any); VH_CHECK(r2 == any, "search:nomatchobj", "search without match object %s: %d expected %d", ctx.c_str(), r2, any);
		size_t b, e; if (r && any) { vh_count("hits", 1); judge(p, x, 0, m, "search", es, &b, &e); } if (r) M_re_match_destroy(m);
		bool q = M_re_eq_start(re, hs.p); VH_CHECK(q == !es[0].empty(), kx(p, "eqstart"), "eq_start %s: %d expected %d", ctx.c_str(), q, !es[0].empty());
		q = M_re_eq(re, hs.p); VH_CHECK(q == (es[0].count(x.u.size()) > 0), kx(p, "eq"), "eq %s: %d expected %d", ctx.c_str(), q, es[0].count(x.u.size()) > 0); if (q) vh_count("eq_true", 1);
		M_list_t *ml = M_re_matches(re, hs.p); M_list_str_t *fa = M_re_find_all(re, hs.p); size_t n = ml ? M_list_len(ml) : 0, pos = 0; bool ok = true, done = false; std::vector<S> subs;
		S repl; int rt = (int)vh_rndn(4); int rg = (int)vh_rndn((unsigned)p.groups + 2); if (vh_chance(6)) rg = (int)vh_rndn(99);
		S gtxt; switch (rt) { case 0: repl = "<>"; break; case 1: repl = "[" + vh_fmt("\\%d", rg) + "]"; break; case 2: repl = "x" + vh_fmt("\\g<%d>", rg) + "1"; break; default: repl = vh_fmt("\\%02d7\\q", rg); }
		S want; size_t last = 0;
		VH_CHECK((ml != NULL) == any, "matches:null", "matches %s: %s, expected %d", ctx.c_str(), ml ? "list" : "NULL", any); VH_CHECK((fa ? M_list_str_len(fa) : 0) == n, "findall:count", "find_all %s: %zu, matches %zu", ctx.c_str(), fa ? M_list_str_len(fa) : 0, n); VH_CHECK(fa != NULL || !any, "findall:null", "find_all %s", ctx.c_str());
		for (size_t i = 0; i < n && ok; i++) {
			const M_re_match_t *mm = (const M_re_match_t *)M_list_at(ml, i);
			if (done) { vh_fail("matches:extra", "matches %s: %zu matches, more than repeated search finds", ctx.c_str(), n); ok = false; break; }
			ok = judge(p, x, pos, mm, "matches", es, &b, &e); if (!ok) break; vh_count("all_hits", 1); if (i > 0 && b == e) vh_count("empty_hits", 1);
			S txt = x.s.substr(x.off[b], x.off[e] - x.off[b]); if (fa) VH_CHECK(txt == M_list_str_at(fa, i), "findall:text", "find_all %s #%zu \"%s\" vs \"%s\"", ctx.c_str(), i, E(M_list_str_at(fa, i)), E(txt));
			S cap; size_t co, cl; if (rg < 99 && M_re_match_idx(mm, (size_t)rg, &co, &cl)) cap = x.s.substr(co, cl);
			want += x.s.substr(x.off[last], x.off[b] - x.off[last]); want += rt == 0 ? S("<>") : rt == 1 ? "[" + cap + "]" : rt == 2 ? "x" + cap + "1" : cap + "7\\q"; last = e;
			pos = e; if (b == e) { if (e == x.u.size()) done = true; pos = e + 1; } }
		if (ok && !done && n) { bool more = false; for (size_t i = pos; i < es.size(); i++) more |= !es[i].empty(); VH_CHECK(!more, kx(p, "matches:short"), "matches %s: only %zu matches, repeated search finds more from %zu", ctx.c_str(), n, pos); }
		want += x.s.substr(x.off[last]);
		char *o = M_re_sub(re, repl.c_str(), hs.p); if (ok) { vh_count("subs", 1); VH_CHECK(o && want == o, "sub", "sub %s repl \"%s\": \"%s\" expected \"%s\"", ctx.c_str(), E(repl), o ? E(S(o)) : "NULL", E(want)); }
		M_free(o); M_list_destroy(ml, M_TRUE); M_list_str_destroy(fa);
	}
	M_re_destroy(re); (void)mask;
}
// malformed and mutated patterns: refused or usable, never unsafe
static void bad(void) {
	static const char *B[] = { "(", ")", "a)", "(a", "[a", "[", "[]", "[^]", "a{2,1}", "[z-a]", "[[:foo:]]", "\\", "a\\", "(?z)a", "(?i", "a{1", "a{,3", "a{999999}", "\\x{110000}", "\\x{zz}", "[[.a.]]", "[[=a=]]", "[a", "(()", "a{-1}", "\xC3", "a\xFF" "b", "[\xE6\x97]" };
	if (vh_chance(30)) { static const std::set<S> must = { "(", "(a", "[a", "[", "a{2,1}", "[z-a]", "[[:foo:]]", "\\", "a\\", "(?z)a", "(?i", "[[.a.]]", "[[=a=]]", "(()" }; S pre = vh_chance(50) ? "" : "ab*"; S b = B[vh_rndn(sizeof B / sizeof *B)]; S t = (b[0] == '(' && b[1] == '?') ? b : pre + b; Heap h(t, true); M_re_t *re = M_re_compile(h.p, 0); if (must.count(b)) { vh_count("malformed", 1); VH_CHECK(!re, "compile:accepted", "malformed pattern /%s/ accepted", E(t)); } if (re) { M_re_search(re, "abcabc", NULL); M_re_destroy(re); } return; }
	Pat p = mkpat(); S t = p.txt; int k = 1 + (int)vh_rndn(4); static const char ins[] = "()[]{}*+?|\\^$.-,0129:=xg<>dws";
	while (k--) { size_t at = vh_rndn(t.size() + 1); switch (vh_rndn(4)) { case 0: if (at < t.size()) t.erase(at, 1); break; case 1: t.insert(at, 1, ins[vh_rndn(sizeof ins - 1)]); break; case 2: if (at < t.size()) t[at] = (char)vh_range(1, 255); break; default: t.insert(at, t.substr(vh_rndn(t.size() + 1), vh_rndn(6))); } }
	S big; for (size_t i = 0; i < t.size(); i++) { big += t[i]; if (t[i] == '{') { size_t j = i + 1; int dg = 0; while (j < t.size() && isdigit((unsigned char)t[j])) { if (++dg <= 2) big += t[j]; j++; } i = j - 1; } if (t[i] == ',') { size_t j = i + 1; int dg = 0; while (j < t.size() && isdigit((unsigned char)t[j])) { if (++dg <= 1) big += t[j]; j++; } i = j - 1; } }
	t = big; Heap h(t, true); M_re_t *re = M_re_compile(h.p, p.flags); vh_count(re ? "mut_accepted" : "mut_refused", 1); if (!re) return;
	for (int i = 0; i < 3; i++) { Subj x = mksub(randsub(p)); bool bu = vh_chance(20) && x.s.size(); if (bu) x.s[vh_rndn(x.s.size())] = (char)vh_range(1, 255); Heap hs(x.s, true); M_re_match_t *m = NULL;
		bool r = M_re_search(re, hs.p, &m); size_t o = 0, l = 0; if (r) { VH_CHECK(M_re_match_idx(m, 0, &o, &l) && o + l <= x.s.size(), "mut:bounds", "/%s/ on \"%s\": [%zu,+%zu)", E(t), E(x.s), o, l); M_list_u64_t *ix = M_re_match_idxs(m); for (size_t j = 0; j < M_list_u64_len(ix); j++) { size_t g = (size_t)M_list_u64_at(ix, j); bool h2 = M_re_match_idx(m, g, &o, &l); VH_CHECK(h2 && o + l <= x.s.size(), "mut:bounds", "/%s/ on \"%s\" group %zu: [%zu,+%zu)", E(t), E(x.s), g, o, l); } M_list_u64_destroy(ix); M_re_match_destroy(m); }
		bool r2 = M_re_search(re, hs.p, NULL); VH_CHECK(bu || r == r2, "mut:consistent", "/%s/ on \"%s\": with match %d without %d", E(t), E(x.s), r, r2); M_list_destroy(M_re_matches(re, hs.p), M_TRUE); char *s = M_re_sub(re, "<\\0>", hs.p); VH_CHECK(s != NULL, "mut:sub", "sub gave NULL"); M_free(s); M_re_eq(re, hs.p); M_re_eq_start(re, hs.p); }
	M_re_destroy(re);
}
// one compiled pattern used by several threads
static void thr(void) {
	Pat p = mkpat(); M_re_t *re = M_re_compile(p.txt.c_str(), p.flags); if (!re) return;
	std::vector<S> ss; std::vector<S> want; for (int i = 0; i < 8; i++) { ss.push_back(mksub(randsub(p)).s); char *o = M_re_sub(re, "<\\0|\\1>", ss.back().c_str()); want.push_back(o ? o : ""); M_free(o); }
	std::vector<std::thread> v; for (int t = 0; t < 4; t++) v.emplace_back([&, t] { for (int k = 0; k < 24; k++) { size_t i = (size_t)(k + t) % ss.size(); char *o = M_re_sub(re, "<\\0|\\1>", ss[i].c_str()); if (!o || want[i] != o) vh_viol("thread:differs", "/%s/ on \"%s\" differs between threads", E(p.txt), E(ss[i])); M_free(o); M_re_eq(re, ss[i].c_str()); vh_count("uses", 1); } });
	for (auto &t : v) t.join(); M_re_destroy(re); vh_distinct(vh_hstr(p.txt.c_str(), 7));
}
static void small(void) { SM = true; ops(); SM = false; }
const vh_mode_t vh_modes[] = { { "ops", ops }, { "small", small }, { "bad", bad }, { "thr", thr }, { 0 } };
