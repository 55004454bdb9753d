// F02: XML reading, writing and path queries against model trees.
#include "vh.hpp"
#include <mstdlib/mstdlib_formats.h>
#include "xml/m_xml_entities.h"
enum { DOC = M_XML_NODE_TYPE_DOC, EL = M_XML_NODE_TYPE_ELEMENT, PI = M_XML_NODE_TYPE_PROCESSING_INSTRUCTION, DECL = M_XML_NODE_TYPE_DECLARATION, TEXT = M_XML_NODE_TYPE_TEXT, COM = M_XML_NODE_TYPE_COMMENT };
struct N { int t; S name, text, raw; std::vector<std::pair<S, S>> at; VS rawat; std::vector<N *> kid; N *up; bool cdata; const M_xml_node_t *x; size_t open, close; int nsrc; };
static std::deque<N> *pool; // every node of the case
static N *mk(int t, N *up, size_t at = (size_t)-1)
{
	pool->emplace_back(); N *n = &pool->back(); n->t = t; n->up = up; n->cdata = false; n->x = NULL; n->open = n->close = 0; n->nsrc = 0;
	if (up) { if (at == (size_t)-1) at = up->kid.size(); up->kid.insert(up->kid.begin() + (long)at, n); }
	return n;
}
static bool lowtags; // small vocabulary, for queries
static S gname(void)
{
	if (lowtags) { static const char *v[] = { "a", "b", "c", "n:a", "n:b", "A", "m:a" }; return v[vh_rndn(7)]; }
	S s = vh_from("abcxyzABCXYZ_", 1) + vh_from("abcxyzABCXYZ_-.09", vh_rndn(6)); if (vh_chance(15)) s = S(1, (char)vh_range('a', 'z')) + ":" + s; if (vh_chance(5)) s += "\xc3\xa9"; return s;
}
static S lc(S s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static S gtext(bool edges)
{
	S s; size_t n = 1 + (vh_chance(10) ? vh_rndn(300) : vh_rndn(10));
	for (size_t i = 0; i < n; i++) switch (vh_rndn(8)) {
		case 0: case 1: s += "<>&'\""[vh_rndn(5)]; break; case 2: s += " \t\n\r ="[vh_rndn(6)]; break; case 3: s += (char)vh_range(1, 255); break;
		case 4: { static const char *e[] = { "&amp;", "&lt;", "&#xA;", "amp;", "]]", "-->", "/>", "]]>", "<!--", "<a>", "&#65;", "<![CDATA[" }; s += e[vh_rndn(12)]; break; }
		default: s += (char)vh_range('a', 'z'); }
	if (!edges) { while (!s.empty() && ws(s[0])) s.erase(0, 1); while (!s.empty() && ws(s.back())) s.pop_back(); if (s.empty()) s = "t"; }
	return s;
}
static void gattrs(N *n, int max)
{
	std::set<S> seen; int k = (int)vh_rndn((uint64_t)max + 1);
	for (int i = 0; i < k; i++) {
		S key = lowtags ? S(1, "pqr"[vh_rndn(3)]) : gname(); if (!lowtags && n->t == PI && vh_chance(50)) { static const char *v[] = { "version", "encoding", "standalone" }; key = v[vh_rndn(3)]; }
		if (!seen.insert(lc(key)).second) continue;
		S v = vh_chance(10) ? S() : gtext(true);
		if (lowtags) { static const char *w[] = { "1", "x y", "x=y", "", "=", "k==", "a&b", "2" }; v = w[vh_rndn(8)]; }
		n->at.push_back({ key, v });
	}
}
static S gcom(void) { S s; do { s = vh_chance(15) ? S() : gtext(false); } while (s.find("-->") != S::npos || (s.size() >= 1 && s[0] == '>') || s.substr(0, 2) == "->"); return s; }
static void gkids(N *n, int depth, bool plain)
{
	size_t k = vh_rndn(depth > 3 ? 2 : 5);
	for (size_t i = 0; i < k; i++) {
		int r = (int)vh_rndn(10);
		if (r < 5) { N *c = mk(EL, n); c->name = gname(); gattrs(c, 3); if (depth < 6) gkids(c, depth + 1, plain); }
		else if (r < 8) {
			bool adj = !n->kid.empty() && n->kid.back()->t == TEXT; if (adj && plain) continue;
			N *c = mk(TEXT, n); c->cdata = !plain && (adj || vh_chance(25)); c->text = c->cdata && vh_chance(8) ? S() : gtext(!plain); size_t p;
			if (c->cdata) while ((p = c->text.find("]]>")) != S::npos) c->text.erase(p, 1);
			bool bad = false; if (!c->cdata && !plain) for (int e = 0; e < 2; e++) { for (size_t j = 0; j < c->text.size(); j++) { char ch = c->text[e ? c->text.size() - 1 - j : j]; if (!ws(ch)) break; if (ch != '\n' && ch != '\r') bad = true; } } // blanks at the ends cannot be expressed
			if (bad) { c->text = "t" + c->text + "t"; }
		}
		else if (r == 8) { N *c = mk(COM, n); c->text = gcom(); }
		else { N *c = mk(PI, n); c->name = vh_chance(20) ? "xml" : gname(); gattrs(c, 3); }
	}
}
static N *gdoc(bool plain)
{
	N *d = mk(DOC, NULL); static const char *dd[] = { "html", "a [x]", "x PUBLIC \"a>b\" 'c'", "", "r SYSTEM \"it's\"" };
	if (vh_chance(40)) { N *c = mk(PI, d); c->name = "xml"; c->at.push_back({ "version", "1.0" }); if (vh_chance(50)) c->at.push_back({ "encoding", "UTF-8" }); }
	if (vh_chance(30)) { N *c = mk(DECL, d); c->name = vh_chance(80) ? "DOCTYPE" : gname(); c->text = dd[vh_rndn(5)]; }
	if (vh_chance(20)) { N *c = mk(COM, d); c->text = gcom(); }
	N *r = mk(EL, d); r->name = gname(); gattrs(r, 3); gkids(r, 0, plain);
	return d;
}
// ---- independent printer with random layout
static S sp(bool must = false) { S s; if (must) s = " "; if (vh_chance(15)) s += vh_from(" \t\r\n", 1 + vh_rndn(3)); return s; }
static S enc(const S &t, const char *must, bool edge)
{
	S o; for (size_t i = 0; i < t.size(); i++) { char c = t[i]; bool m = strchr(must, c) || (edge && ws(c)); if (edge && ws(c) && c != '\n' && c != '\r') m = false;
		if (m || vh_chance(30)) switch (c) { case '&': o += vh_chance(90) ? "&amp;" : "&AMP;"; continue; case '<': o += "&lt;"; continue; case '>': o += "&gt;"; continue; case '"': o += "&quot;"; continue; case '\'': o += "&apos;"; continue; case '\n': o += vh_chance(50) ? "&#xA;" : "&#xa;"; continue; case '\r': o += "&#xD;"; continue; }
		o += c; }
	return o;
}
static S xenc(const S &t) { S o; for (char c : t) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; case '\'': o += "&apos;"; break; default: o += c; } return o; }
static N *dupat, *badclose; static size_t badpos;
static void attrs(N *n, S &o)
{
	n->rawat.clear();
	for (auto &a : n->at) {
		char q = "\"'"[vh_rndn(2)]; S v = enc(a.second, q == '"' ? "&<\"" : "&<'", false); n->rawat.push_back(v);
		if (a.second.empty() && vh_chance(20)) { o += sp(true) + a.first; continue; } // no value
		o += sp(true) + a.first + sp() + "=" + sp() + q + v + q;
	}
	if (dupat == n) { S k = n->at.empty() ? S("dup") : n->at[0].first; o += sp(true) + k + "=\"1\""; if (n->at.empty()) o += " DUP='2'"; }
}
static void print(N *n, S &o)
{
	n->open = o.size();
	switch (n->t) {
		case DOC: for (auto *k : n->kid) { o += sp(); print(k, o); } o += sp(); break;
		case EL: { if (dupat == n) badpos = o.size(); o += "<" + (vh_chance(5) ? S(" ") : S()) + n->name; attrs(n, o); o += sp();
			if (n->kid.empty() && vh_chance(60) && badclose != n) { o += "/"; o += sp(); o += ">"; break; }
			o += ">";
			for (size_t i = 0; i < n->kid.size(); i++) { o += sp(); print(n->kid[i], o); }
			o += sp(); n->close = o.size(); S nm = n->name; if (badclose == n) { badpos = o.size(); nm += vh_chance(50) ? "x" : ""; if (nm == n->name) nm = "z" + nm; }
			o += "</" + (vh_chance(5) ? S(" ") : S()) + nm + sp() + ">"; break; }
		case PI: if (dupat == n) badpos = o.size(); o += "<?" + n->name; attrs(n, o); o += sp() + "?" + (vh_chance(5) ? " " : "") + ">"; break;
		case DECL: o += "<!" + n->name; if (!n->text.empty()) o += sp(true) + n->text; o += sp() + ">"; break;
		case COM: o += "<!--" + sp() + n->text + sp() + "-->"; break;
		case TEXT: if (n->cdata) { n->raw = xenc(n->text); o += "<![CDATA[" + n->text + "]]>"; }
			else { S r, t = n->text; size_t a = 0, b = t.size(); while (a < b && ws(t[a])) a++; while (b > a && ws(t[b - 1])) b--; r = enc(t.substr(0, a), "", true) + enc(t.substr(a, b - a), "&<", false) + enc(t.substr(b), "", true); n->raw = r; o += r; }
			break;
	}
}
static S nz(const char *p) { return p ? S(p) : S(); }
static void cmp(N *n, const M_xml_node_t *x, uint32_t fl, const S &doc)
{
	VH_CHECK((int)M_xml_node_type(x) == n->t, "tree:type", "node type %d, expected %d in %s", (int)M_xml_node_type(x), n->t, E(doc));
	n->x = x; vh_count("nodes", 1);
	if (n->t == EL || n->t == PI || n->t == DECL) VH_CHECK(nz(M_xml_node_name(x)) == n->name, "tree:name", "name %s, expected %s in %s", E(nz(M_xml_node_name(x))), E(n->name), E(doc));
	if (n->t == EL || n->t == PI) {
		M_list_str_t *ks = M_xml_node_attribute_keys(x); bool dec = fl & M_XML_READER_DONT_DECODE_ATTRS; vh_count("attributes", n->at.size());
		VH_CHECK(M_list_str_len(ks) == n->at.size(), "tree:attrs", "%zu attributes, expected %zu in %s", M_list_str_len(ks), n->at.size(), E(doc));
		for (size_t i = 0; i < n->at.size(); i++) { const char *v = M_xml_node_attribute(x, n->at[i].first.c_str()); const S &w = dec ? n->rawat[i] : n->at[i].second;
			VH_CHECK(v && w == v, "tree:attr", "attribute %s is %s, expected %s in %s", n->at[i].first.c_str(), v ? E(v) : "missing", E(w), E(doc));
			VH_CHECK(n->at[i].first == nz(M_list_str_at(ks, i)), "tree:order", "attribute %zu is %s, expected %s", i, nz(M_list_str_at(ks, i)).c_str(), n->at[i].first.c_str()); }
		M_list_str_destroy(ks);
	}
	if (n->t == TEXT) { const S &w = fl & M_XML_READER_DONT_DECODE_TEXT ? n->raw : n->text; VH_CHECK(nz(M_xml_node_text(x)) == w, "tree:text", "text %s, expected %s in %s", E(nz(M_xml_node_text(x))), E(w), E(doc)); vh_count("texts", 1); }
	if (n->t == DECL || n->t == COM) VH_CHECK(nz(M_xml_node_tag_data(x)) == n->text, "tree:data", "data %s, expected %s in %s", E(nz(M_xml_node_tag_data(x))), E(n->text), E(doc));
	size_t j = 0; const M_xml_node_t *prev = NULL;
	for (auto *k : n->kid) { if (k->t == COM && (fl & M_XML_READER_IGNORE_COMMENTS)) continue; M_xml_node_t *c = M_xml_node_child(x, j);
		VH_CHECK(c, "tree:kids", "child %zu of %s is missing in %s", j, E(n->name), E(doc)); VH_CHECK(M_xml_node_parent(c) == x, "tree:parent", "parent link of child %zu", j);
		VH_CHECK(M_xml_node_sibling(c, M_FALSE) == prev && (!prev || M_xml_node_sibling(prev, M_TRUE) == c), "tree:sibling", "sibling links of child %zu", j); prev = c; cmp(k, c, fl, doc); j++; }
	VH_CHECK(M_xml_node_num_children(x) == j, "tree:nkids", "%zu children, expected %zu in %s", M_xml_node_num_children(x), j, E(doc));
}
struct Pool { std::deque<N> p; Pool() { pool = &p; dupat = badclose = NULL; lowtags = false; } };
static void t_read(void)
{
	Pool pl; N *d = gdoc(false); S o; print(d, o); uint32_t fl = (uint32_t)vh_rndn(16); size_t used = 0, line = 7, pos = 7; M_xml_error_t er = M_XML_ERROR_GENERIC;
	size_t end = o.size(); while (end > 0 && ws(o[end - 1])) end--;
	S in = o; bool more = vh_chance(30); size_t want = in.size(); if (more) in += vh_chance(50) ? "<next/>" : vh_bytes(1 + vh_rndn(5)); if (more) { want = end; while (want < in.size() && ws(in[want])) want++; }
	Heap h(in); vh_distinct(vh_hash(in.data(), in.size(), fl));
	M_xml_node_t *x = M_xml_read(h.p, in.size(), fl, &used, &er, &line, &pos);
	VH_CHECK(x && er == M_XML_ERROR_SUCCESS, "read:rejected", "a well-formed document is rejected with %s at %zu:%zu: %s", M_xml_errcode_to_str(er), line, pos, E(in));
	VH_CHECK(used == want, "read:used", "%zu bytes used of %s, expected %zu", used, E(in), want);
	cmp(d, x, fl, in); M_xml_node_destroy(x); vh_count("documents", 1);
	// truncation
	for (int k = 0; k < 6; k++) { size_t n = end <= 40 && k < 5 ? vh_rndn(end) : k == 0 ? end - 1 : vh_rndn(end); Heap c(in.substr(0, n)); er = M_XML_ERROR_SUCCESS; x = M_xml_read(c.p, n, fl, vh_chance(50) ? &used : NULL, &er, NULL, &pos);
		VH_CHECK(!x, "read:truncated", "document cut at %zu of %zu is accepted: %s", n, end, E(in)); VH_CHECK(er != M_XML_ERROR_SUCCESS && pos <= n, "read:trunc-error", "cut at %zu: error %d at %zu", n, (int)er, pos); vh_count("truncated", 1); }
	// errors with a known place
	std::vector<N *> els; for (auto &n : pl.p) if (n.t == EL || n.t == PI) els.push_back(&n);
	N *v = els[vh_rndn(els.size())]; if (v->t == EL && vh_chance(50)) badclose = v; else dupat = v;
	S b; print(d, b); Heap hb(b); M_xml_error_t we = badclose ? M_XML_ERROR_UNEXPECTED_CLOSE : M_XML_ERROR_ATTR_EXISTS;
	bool wl = vh_chance(50); x = M_xml_read(hb.p, b.size(), fl, NULL, &er, wl ? &line : NULL, &pos);
	VH_CHECK(!x && er == we, "read:broken", "%s expected, got %s for %s", M_xml_errcode_to_str(we), x ? "success" : M_xml_errcode_to_str(er), E(b));
	size_t wline = 1, wcol = 1; for (size_t i = 0; i < badpos; i++) if (b[i] == '\n') { wline++; wcol = 1; } else wcol++;
	if (wl) VH_CHECK(line == wline && pos == wcol, "read:where", "error at %zu:%zu, reported at %zu:%zu in %s", wline, wcol, line, pos, E(b)); else VH_CHECK(pos == badpos, "read:offset", "error at offset %zu, reported at %zu in %s", badpos, pos, E(b));
	vh_count("placed", 1);
	// a second root
	S two = o + "<r/>"; Heap h2(two); x = M_xml_read(h2.p, two.size(), fl, NULL, &er, NULL, &pos); VH_CHECK(!x && er == M_XML_ERROR_EXPECTED_END && pos == o.size(), "read:second-root", "%s at %zu for %s", x ? "accepted" : M_xml_errcode_to_str(er), pos, E(two));
}
static S aenc(const S &t) { S o; for (char c : t) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '"': o += "&quot;"; break; default: o += c; } return o; }
static void wattr(const std::pair<S, S> &a, uint32_t f, bool low, S &o) { o += " " + (low && (f & M_XML_WRITER_LOWER_ATTRS) ? lc(a.first) : a.first) + "=\"" + (f & M_XML_WRITER_DONT_ENCODE_ATTRS ? a.second : aenc(a.second)) + "\""; }
static void mwrite(N *n, uint32_t f, S &o)
{
	S nm = f & M_XML_WRITER_LOWER_TAGS ? lc(n->name) : n->name; bool xml = n->t == PI && n->name == "xml";
	if (n->t == COM && (f & M_XML_WRITER_IGNORE_COMMENTS)) return;
	if (n->t == TEXT) { o += f & M_XML_WRITER_DONT_ENCODE_TEXT ? n->text : xenc(n->text); return; }
	if (n->t == COM) { o += "<!--" + (n->text.empty() ? S() : " " + n->text) + " -->"; return; }
	if (n->t == DECL) { o += "<!" + nm + (n->text.empty() ? S() : " " + n->text) + ">"; return; }
	if (n->t == EL || n->t == PI) {
		o += n->t == PI ? "<?" : "<"; o += nm; static const char *sp3[] = { "version", "encoding", "standalone" };
		if (xml) for (int i = 0; i < 3; i++) for (auto &a : n->at) if (lc(a.first) == sp3[i]) wattr({ sp3[i], a.second }, f, false, o);
		for (auto &a : n->at) if (!xml || (lc(a.first) != "version" && lc(a.first) != "encoding" && lc(a.first) != "standalone")) wattr(a, f, true, o);
		if (n->t == PI) { if (!n->text.empty()) o += " " + n->text; o += "?>"; return; }
		if (n->kid.empty()) { o += f & M_XML_WRITER_SELFCLOSE_SPACE ? " />" : "/>"; return; }
		o += ">";
	}
	for (auto *k : n->kid) mwrite(k, f, o);
	if (n->t == EL) o += "</" + nm + ">";
}
static M_xml_node_t *build(N *n, M_xml_node_t *up)
{
	M_xml_node_t *x = NULL; const char *nm = n->name.c_str();
	switch (n->t) {
		case DOC: x = M_xml_create_doc(); break; case EL: if (n->at.empty() && n->kid.size() == 1 && n->kid[0]->t == TEXT && vh_chance(50)) { x = M_xml_create_element_with_text(nm, n->kid[0]->text.c_str(), 0, up); VH_CHECK(x, "build:with-text", "element with text not created"); return x; } x = M_xml_create_element(nm, up); break;
		case PI: x = M_xml_create_processing_instruction(nm, up); if (x && vh_chance(20)) { n->text = "data " + vh_from("ab=", 3); M_xml_node_set_tag_data(x, "old"); VH_CHECK(M_xml_node_set_tag_data(x, n->text.c_str()), "build:pidata", "data of an instruction refused"); } break;
		case DECL: x = vh_chance(50) ? M_xml_create_declaration_with_tag_data(nm, n->text.c_str(), up) : M_xml_create_declaration(nm, up); if (x) M_xml_node_set_tag_data(x, n->text.c_str()); break;
		case COM: x = M_xml_create_comment(n->text.c_str(), up); break;
		case TEXT: { size_t el = xenc(n->text).size(), nk = M_xml_node_num_children(up); if (vh_chance(30)) { VH_CHECK(!M_xml_create_text(n->text.c_str(), el - 1 ? el - 1 : 1, up) || el == 1, "build:max", "text longer than the maximum accepted"); if (el == 1) { if (M_xml_node_num_children(up) == nk) x = M_xml_create_text(n->text.c_str(), 0, up); else x = M_xml_node_child(up, nk); } else VH_CHECK(M_xml_node_num_children(up) == nk, "build:max-left", "a refused text stayed in the tree"); if (!x) x = M_xml_create_text(n->text.c_str(), el, up); } else x = M_xml_create_text(n->text.c_str(), 0, up); break; }
	}
	VH_CHECK(x, "build:create", "node of type %d not created", n->t);
	for (auto &a : n->at) { if (vh_chance(20)) M_xml_node_insert_attribute(x, a.first.c_str(), "first", 0, M_FALSE); bool had = M_xml_node_attribute(x, a.first.c_str()) != NULL; VH_CHECK(M_xml_node_insert_attribute(x, a.first.c_str(), a.second.c_str(), 0, M_FALSE) == MB(!had), "build:attr-exists", "insertion without overwriting"); if (had) VH_CHECK(M_xml_node_insert_attribute(x, a.first.c_str(), a.second.c_str(), vh_chance(50) ? aenc(a.second).size() : 0, M_TRUE), "build:attr-over", "overwriting refused"); }
	for (auto *k : n->kid) build(k, x);
	return x;
}
static void link(N *n, M_xml_node_t *x) { n->x = x; for (size_t i = 0; i < n->kid.size(); i++) link(n->kid[i], M_xml_node_child(x, i)); }
static bool under(N *a, N *n) { for (; n; n = n->up) if (n == a) return true; return false; }
static bool adjacent(N *n) { for (size_t i = 0; i + 1 < n->kid.size(); i++) if (n->kid[i]->t == TEXT && n->kid[i + 1]->t == TEXT) return true; for (auto *k : n->kid) if (adjacent(k)) return true; return false; }
static void t_write(void)
{
	Pool pl; N *d = gdoc(true); M_xml_node_t *x = build(d, NULL); cmp(d, x, 0, "built"); link(d, x); std::vector<N *> all; for (auto &n : pl.p) if (n.t != DOC && n.up->t != DOC) all.push_back(&n);
	// edits
	if (!all.empty()) for (size_t k = vh_rndn(8); k > 0; k--) {
		N *n = all[vh_rndn(all.size())], *t = all[vh_rndn(all.size())]; if (!n->up || !t->up || t->t != EL || under(n, t)) continue; bool dead = false; for (N *q = t; q; q = q->up) if (q->up == NULL && q != d) dead = true; for (N *q = n; q; q = q->up) if (q->up == NULL && q != d) dead = true; if (dead) continue;
		if (vh_chance(15)) { M_xml_node_t *nx = M_CAST_OFF_CONST(M_xml_node_t *, n->x); N *u = n->up; u->kid.erase(std::find(u->kid.begin(), u->kid.end(), n)); n->up = NULL; M_xml_node_destroy(nx); vh_count("edits", 1); continue; }
		M_xml_node_t *nx = M_CAST_OFF_CONST(M_xml_node_t *, n->x), *tx = M_CAST_OFF_CONST(M_xml_node_t *, t->x);
		VH_CHECK(!M_xml_node_insert_node(tx, nx), "edit:owned", "a node with a parent was inserted elsewhere");
		M_xml_take_from_parent(nx); N *u = n->up; u->kid.erase(std::find(u->kid.begin(), u->kid.end(), n)); VH_CHECK(M_xml_node_parent(nx) == NULL, "edit:taken", "a taken node has a parent");
		size_t at = vh_rndn(t->kid.size() + 1); VH_CHECK(M_xml_node_insert_node_at(tx, nx, at), "edit:insert", "insertion at %zu of %zu refused", at, t->kid.size()); t->kid.insert(t->kid.begin() + (long)at, n); n->up = t;
		if ((n->t == EL || n->t == PI) && !n->at.empty() && vh_chance(50)) { size_t q = vh_rndn(n->at.size()); VH_CHECK(M_xml_node_remove_attribute(nx, n->at[q].first.c_str()) && !M_xml_node_remove_attribute(nx, n->at[q].first.c_str()), "edit:rmattr", "removal of an attribute"); n->at.erase(n->at.begin() + (long)q); }
		vh_count("edits", 1);
	}
	cmp(d, x, 0, "edited");
	uint32_t f = (uint32_t)vh_rndn(256), layout = M_XML_WRITER_PRETTYPRINT_SPACE | M_XML_WRITER_PRETTYPRINT_TAB; if (vh_chance(50)) f &= ~layout; if (vh_chance(40)) f &= layout | M_XML_WRITER_SELFCLOSE_SPACE; S w; mwrite(d, f, w); size_t len = 0;
	char *o = M_xml_write(x, f, &len); S got(o ? o : "", o ? len : 0); VH_CHECK(o, "write:null", "not written"); M_free(o); vh_distinct(vh_hash(got.data(), got.size(), f));
	M_buf_t *b = M_buf_create(); M_buf_add_str(b, "pre"); VH_CHECK(M_xml_write_buf(b, x, f) && S(M_buf_peek(b), M_buf_len(b)) == "pre" + got, "write:buf", "writing to a buffer differs from writing to a string"); M_buf_cancel(b);
	if (!(f & layout)) { // line ends follow top level nodes only with layout
		VH_CHECK(got == w, "write:bytes", "written %s, expected %s (flags %x)", E(got), E(w), f); vh_count("exact", 1); }
	bool pid = false; for (auto &n : pl.p) if (n.t == PI && !n.text.empty()) pid = true;
	if (!(f & (M_XML_WRITER_DONT_ENCODE_TEXT | M_XML_WRITER_DONT_ENCODE_ATTRS | M_XML_WRITER_LOWER_TAGS | M_XML_WRITER_LOWER_ATTRS | M_XML_WRITER_IGNORE_COMMENTS)) && !adjacent(d) && !pid) {
		Heap h(got); M_xml_error_t er; M_xml_node_t *y = M_xml_read(h.p, got.size(), 0, NULL, &er, NULL, NULL); VH_CHECK(y, "write:reread", "%s for %s", M_xml_errcode_to_str(er), E(got));
		for (auto &n : pl.p) if (n.t == PI && n.name == "xml") { std::stable_sort(n.at.begin(), n.at.end(), [](const std::pair<S, S> &p, const std::pair<S, S> &q) { auto r = [](const S &k) { return k == "version" ? 0 : k == "encoding" ? 1 : k == "standalone" ? 2 : 3; }; return r(p.first) < r(q.first); }); }
		cmp(d, y, 0, got); M_xml_node_destroy(y); vh_count("reread", 1);
	}
	M_xml_node_destroy(x);
}
// ---- queries
struct St { int k; S s; std::vector<std::pair<int, S>> pr; }; // step: 0 tag 1 text() 2 .. 3 . ; rec = "//" before
static bool tageq(N *n, const S &tag, bool ci) { S nm = n->name, t = tag; if (t.size() > 2 && t.substr(0, 2) == "*:") { t = t.substr(2); size_t p = nm.find(':'); if (p != S::npos) nm = nm.substr(p + 1); } return t == "*" || (ci ? lc(t) == lc(nm) : t == nm); }
static void desc(N *n, std::vector<N *> &o) { o.push_back(n); for (auto *k : n->kid) if (k->t == EL) desc(k, o); }
static void t_query(void)
{
	Pool pl; lowtags = true; N *d = gdoc(true); M_xml_node_t *x = build(d, NULL); link(d, x); std::vector<N *> els; for (auto &n : pl.p) if (n.t == EL) els.push_back(&n);
	for (auto *n : els) n->nsrc = 0; std::map<const M_xml_node_t *, N *> back; std::vector<N *> order; std::function<void(N *)> w = [&](N *n) { back[n->x] = n; order.push_back(n); for (auto *k : n->kid) w(k); }; w(d);
	for (int rep = 0; rep < 12; rep++) {
		bool ci = vh_chance(20), abs = vh_chance(50), up = false; N *start = vh_chance(50) ? d : els[vh_rndn(els.size())]; std::vector<N *> cur; cur.push_back(abs ? d : start); S q = abs ? "/" : ""; bool rec = false, simple = true; size_t ns = 1 + vh_rndn(4);
		for (size_t s = 0; s < ns; s++) {
			rec = vh_chance(25) && (s > 0 || abs); if (s) q += "/"; if (rec) { q += "/"; simple = false; } int k = (int)vh_rndn(10); if (rec && k >= 8) k = 0; if (k == 7 && s + 1 < ns) k = 0;
			std::vector<N *> nx; auto add = [&](N *n) { if (std::find(nx.begin(), nx.end(), n) == nx.end()) nx.push_back(n); };
			if (k == 8) { q += ".."; up = true; for (auto *n : cur) if (n->up) add(n->up); else add(n); cur = nx; continue; }
			if (k == 9) { q += "."; continue; }
			bool txt = k == 7; S tag; static const char *tg[] = { "a", "b", "c", "A", "n:a", "*:a", "*:b", "*", "*", "m:a" }; if (!txt) tag = tg[vh_rndn(10)]; q += txt ? S("text()") : tag;
			if (rec) { std::vector<N *> dd; for (auto *n : cur) { std::vector<N *> o; desc(n, o); for (auto *m : o) if (std::find(dd.begin(), dd.end(), m) == dd.end()) dd.push_back(m); } cur = dd; }
			int op = -1; int64_t val = 0; bool last = false;
			if (vh_chance(25)) { op = (int)vh_rndn(6); last = vh_chance(30); val = last ? -(int64_t)vh_rndn(3) : (int64_t)(1 + vh_rndn(4)); static const char *ops[] = { "=", "<=", ">=", "<", ">" }; S v = last ? "last()" + (val ? vh_fmt("%s%lld", vh_chance(50) ? " - " : "-", (long long)-val) : S()) : vh_fmt("%lld", (long long)val); if (last && val && v.find(" - ") != S::npos && vh_chance(50)) v = "last() -" + v.substr(9); q += op == 5 ? "[" + v + "]" : S("[position() ") + ops[op] + " " + v + "]"; }
			for (auto *n : cur) { std::vector<N *> m; for (auto *c : n->kid) if (txt ? c->t == TEXT : (c->t == EL && tageq(c, tag, ci))) m.push_back(c);
				int64_t L = (int64_t)m.size(), ref = last ? L + val : val; if (last && val && ref <= 0) continue; // no such position
				for (int64_t p = 1; p <= L; p++) { bool in = op < 0 || (op == 0 || op == 5 ? p == ref : op == 1 ? p <= ref : op == 2 ? p >= ref : op == 3 ? p < ref : p > ref); if (in) add(m[(size_t)p - 1]); } }
			cur = nx;
			while (!txt && vh_chance(30)) { int a = (int)vh_rndn(3); S key(1, "pqr"[vh_rndn(3)]), v; static const char *vs[] = { "1", "x y", "x=y", "", "=", "k==", "a&b", "2" }; v = vs[vh_rndn(8)]; int qt = v.empty() ? 1 : (int)vh_rndn(3); nx.clear();
				q += a == 0 ? S("[@*]") : a == 1 ? "[@" + key + "]" : "[@" + key + "=" + (qt == 0 ? v : qt == 1 ? "'" + v + "'" : "\"" + v + "\"") + "]";
				for (auto *n : cur) { bool ok = false; for (auto &at : n->at) if (a == 0 || (at.first == key && (a == 1 || at.second == v))) ok = true; if (ok) nx.push_back(n); } cur = nx; }
			if (txt) break;
		}
		if (q == "/") continue;
		size_t n = 99; M_xml_node_t **m = M_xml_xpath(M_CAST_OFF_CONST(M_xml_node_t *, start->x), q.c_str(), ci ? M_XML_READER_TAG_CASECMP : 0, &n); std::vector<N *> got; for (size_t i = 0; m && i < n; i++) { N *k = back.count(m[i]) ? back[m[i]] : NULL; VH_CHECK(k, "query:foreign", "%s returned an unknown node", q.c_str()); got.push_back(k); } M_free(m);
		S doc; mwrite(d, 0, doc); vh_count("queries", 1); vh_count("matches", got.size()); if (!got.empty()) vh_count("nonempty", 1); vh_distinct(vh_hstr(q.c_str(), vh_hash(doc.data(), doc.size(), 0)));
		std::set<N *> gs(got.begin(), got.end()), wsn(cur.begin(), cur.end()); VH_CHECK(gs.size() == got.size(), "query:twice", "%s returned a node twice in %s", q.c_str(), E(doc));
		VH_CHECK(gs == wsn, "query:nodes", "%s (from %s) matched %zu nodes, expected %zu in %s", q.c_str(), start->t == DOC ? "the document" : E(start->name), got.size(), wsn.size(), E(doc));
		if (simple && !up) for (size_t i = 1; i < got.size(); i++) VH_CHECK(std::find(order.begin(), order.end(), got[i - 1]) < std::find(order.begin(), order.end(), got[i]), "query:order", "%s returned nodes out of order", q.c_str());
		if (!ci) { const char *t = M_xml_xpath_text_first(M_CAST_OFF_CONST(M_xml_node_t *, start->x), q.c_str()); if (got.empty()) VH_CHECK(!t, "query:text-none", "text for a query without matches"); else { S wt; N *g = got[0]; if (g->t == TEXT) wt = g->text; else for (auto *k : g->kid) if (k->t == TEXT) { wt = k->text; break; } VH_CHECK(t && wt == t, "query:text", "%s: text %s, expected %s", q.c_str(), t ? E(t) : "none", E(wt)); } }
	}
	M_xml_node_destroy(x);
}
static void t_mangle(void)
{
	Pool pl; N *d = gdoc(false); S o; print(d, o); static const char *tok[] = { "<", ">", "/", "?", "!", "<!--", "-->", "<![CDATA[", "]]>", "'", "\"", "=", "&", "&amp;", " ", "<a>", "</a>", "<?", "?>", "<!" };
	for (size_t k = 1 + vh_rndn(4); k > 0; k--) { size_t p = vh_rndn(o.size() + 1); switch (vh_rndn(4)) { case 0: o.insert(p, tok[vh_rndn(20)]); break; case 1: o.erase(p, 1 + vh_rndn(3)); break; case 2: if (p < o.size()) o[p] = (char)vh_rnd(); break; default: { size_t q = vh_rndn(o.size() + 1); o.insert(p, o.substr(q, vh_rndn(12))); } } if (o.empty()) o = "<"; }
	uint32_t fl = (uint32_t)vh_rndn(16); size_t used = 0, line = 0, pos = 0; bool wu = vh_chance(50); M_xml_error_t er = M_XML_ERROR_GENERIC; Heap h(o); M_xml_node_t *x = M_xml_read(h.p, o.size(), fl, wu ? &used : NULL, &er, vh_chance(50) ? &line : NULL, &pos); vh_count("mangled", 1);
	if (!x) { VH_CHECK(er != M_XML_ERROR_SUCCESS, "mangle:error", "rejected without an error"); return; }
	VH_CHECK(er == M_XML_ERROR_SUCCESS && (!wu || used <= o.size()), "mangle:used", "used %zu of %zu", used, o.size()); vh_count("accepted", 1);
	// what was understood survives being written and read
	size_t l1 = 0, l2 = 0; char *a = M_xml_write(x, 0, &l1); M_xml_node_t *y = M_xml_read(a, l1, fl & M_XML_READER_TAG_CASECMP, NULL, &er, NULL, NULL); M_xml_node_destroy(x);
	bool quirk = false; std::function<void(const M_xml_node_t *)> nm = [&](const M_xml_node_t *n) { S s = nz(M_xml_node_name(n)); if (s.find_first_of("'\"=<>/?!&[]-") != S::npos) quirk = true; M_list_str_t *ks = M_xml_node_attribute_keys(n); for (size_t i = 0; i < M_list_str_len(ks); i++) if (strpbrk(M_list_str_at(ks, i), "'\"=<>/?!&[] \t\r\n\v\f")) quirk = true; M_list_str_destroy(ks); if (M_xml_node_type(n) == M_XML_NODE_TYPE_COMMENT && (nz(M_xml_node_tag_data(n)).substr(0, 1) == ">" || nz(M_xml_node_tag_data(n)).substr(0, 2) == "->")) quirk = true; for (size_t i = 0; i < M_xml_node_num_children(n); i++) nm(M_xml_node_child(n, i)); };
	if (y) nm(y);
	if (y && !quirk) { char *b = M_xml_write(y, 0, &l2); M_xml_node_t *z = M_xml_read(b, l2, fl & M_XML_READER_TAG_CASECMP, NULL, &er, NULL, NULL); char *c = M_xml_write(z, 0, NULL); VH_CHECK(z && M_str_eq(b, c), "mangle:stable", "%s is not stable: %s, then %s", E(o), E(b), c ? E(c) : M_xml_errcode_to_str(er)); M_free(b); M_free(c); M_xml_node_destroy(z); vh_count("stable", 1); }
	M_xml_node_destroy(y); M_free(a);
}
static void t_entity(void)
{
	S s = gtext(true); Heap h(s); char *e = M_xml_entities_encode(h.p, s.size()); S w = xenc(s); VH_CHECK(e && w == e, "entity:encode", "%s encoded as %s", E(s), E(nz(e))); char *d = M_xml_entities_decode(e, M_str_len(e)); VH_CHECK(d && s == d, "entity:decode", "%s came back as %s", E(s), E(nz(d))); M_free(e); M_free(d);
	e = M_xml_attribute_encode(h.p, s.size()); VH_CHECK(e && aenc(s) == e, "entity:aencode", "%s encoded as %s", E(s), E(nz(e))); d = M_xml_attribute_decode(e, M_str_len(e)); VH_CHECK(d && s == d, "entity:adecode", "%s came back as %s", E(s), E(nz(d))); M_free(e); M_free(d);
	// every entity in every case, expanded once
	S t, x; for (size_t i = 0; i < 8; i++) { static const char *en[] = { "&amp;", "&LT;", "&gt;", "&Quot;", "&apos;", "&#xa;", "&#xD;", "&am", "&", "amp;", "&#x", "&;" }; static const char *de[] = { "&", "<", ">", "\"", "'", "\n", "\r", "&am", "&", "amp;", "&#x", "&;" }; size_t k = vh_rndn(12); t += en[k]; x += de[k]; if (k >= 7) { t += " "; x += " "; } }
	Heap g(t); d = M_xml_entities_decode(g.p, t.size()); VH_CHECK(d && x == d, "entity:once", "%s decoded as %s", E(t), E(nz(d))); M_free(d); vh_count("entities", 1);
}
const vh_mode_t vh_modes[] = { { "read", t_read }, { "write", t_write }, { "query", t_query }, { "mangle", t_mangle }, { "entity", t_entity }, { 0 } };
