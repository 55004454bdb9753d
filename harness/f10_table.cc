/* F10: tables as a reference grid; CSV/JSON/markdown round trips. */
#include "vh.hpp"
#include <mstdlib/mstdlib_formats.h>
#include <map>
#include <algorithm>

struct Col { int id; bool named; S name; };
typedef std::map<int, S> Row;
struct Model { bool cc; std::vector<Col> cols; std::vector<Row> rows; };
static int g_id;

static S fold(const S &s) { S r = s; for (auto &c : r) c = (char)tolower((unsigned char)c); return r; }
static int m_find(const Model &m, const S &n)
{
	for (size_t i = 0; i < m.cols.size(); i++)
		if (m.cols[i].named && (m.cc ? fold(m.cols[i].name) == fold(n) : m.cols[i].name == n)) return (int)i;
	return -1;
}
static S gname(void)
{
	static const char *n[] = { "a", "b", "c", "A", "B", "name", "Name", "with space", "x,y", "q\"uote", "\xc3\xa9", "k1", "k2", "k3" };
	return n[vh_rndn(sizeof(n) / sizeof(*n))];
}
static S gval(void)
{
	switch (vh_rndn(8)) {
		case 0: return "";
		case 1: return vh_from("ab\",\r\n ;'|", vh_rndn(8));
		case 2: return vh_from("0123456789.-", 1 + vh_rndn(4));
		case 3: return vh_from("aAbB", 1 + vh_rndn(2));
		case 4: return "\xe2\x82\xac" + vh_from("xyz\t", vh_rndn(4));
		default: return vh_from("abcdefgXYZ 01", 1 + vh_rndn(6));
	}
}
static M_table_t *mk(Model &m)
{
	m.cc = vh_chance(30); m.cols.clear(); m.rows.clear();
	return M_table_create(m.cc ? M_TABLE_COLNAME_CASECMP : M_TABLE_NONE);
}
static void cmp(const M_table_t *t, const Model &m, const char *what)
{
	size_t i, j;
	VH_CHECK(M_table_column_count(t) == m.cols.size(), "grid:columns", "%s: %zu columns, expected %zu", what, M_table_column_count(t), m.cols.size());
	VH_CHECK(M_table_row_count(t) == m.rows.size(), "grid:rows", "%s: %zu rows, expected %zu", what, M_table_row_count(t), m.rows.size());
	for (j = 0; j < m.cols.size(); j++) {
		const char *n = M_table_column_name(t, j);
		if (m.cols[j].named) {
			size_t ix = 999;
			VH_CHECK(n && m.cols[j].name == n, "grid:name", "%s: column %zu is named \"%s\", expected \"%s\"", what, j, n ? n : "(none)", E(m.cols[j].name));
			VH_CHECK(M_table_column_idx(t, m.cols[j].name.c_str(), &ix) && ix == j, "grid:idx", "%s: lookup of column %zu \"%s\" gives %zu", what, j, E(m.cols[j].name), ix);
		} else
			VH_CHECK(n == NULL || *n == 0, "grid:name", "%s: column %zu is named \"%s\", expected none", what, j, n);
	}
	{ S n = gname(); size_t ix = 0; int e = m_find(m, n); bool g = M_table_column_idx(t, n.c_str(), &ix) == M_TRUE;
	  VH_CHECK(g == (e >= 0) && (!g || ix == (size_t)e), "grid:lookup", "%s: lookup of \"%s\" gives %d/%zu, expected %d", what, E(n), g, ix, e); }
	for (i = 0; i < m.rows.size(); i++)
		for (j = 0; j < m.cols.size(); j++) {
			const char *v = M_table_cell_at(t, i, j), *v2;
			auto it = m.rows[i].find(m.cols[j].id);
			if (it == m.rows[i].end()) VH_CHECK(v == NULL, "grid:cell", "%s: cell %zu,%zu is \"%s\", expected none", what, i, j, E(S(v ? v : "")));
			else VH_CHECK(v && it->second == v, "grid:cell", "%s: cell %zu,%zu is \"%s\", expected \"%s\"", what, i, j, v ? E(S(v)) : "(none)", E(it->second));
			if (m.cols[j].named) {
				v2 = M_table_cell(t, i, m.cols[j].name.c_str());
				VH_CHECK(v == v2 || (v && v2 && !strcmp(v, v2)), "grid:byname", "%s: cell %zu,%zu differs by name", what, i, j);
			}
			vh_count("cells", 1);
		}
	VH_CHECK(M_table_cell_at(t, m.rows.size(), 0) == NULL && M_table_cell_at(t, 0, m.cols.size()) == NULL, "grid:outside", "%s: cell outside of the table", what);
}
static void m_insert_col(Model &m, size_t at, const S &n, bool named) { m.cols.insert(m.cols.begin() + (long)at, Col{ ++g_id, named, n }); }
static void m_remove_col(Model &m, size_t at) { int id = m.cols[at].id; m.cols.erase(m.cols.begin() + (long)at); for (auto &r : m.rows) r.erase(id); }

static int cmpstr(const S &a, const S &b, bool ci) { return ci ? strcasecmp(a.c_str(), b.c_str()) : strcmp(a.c_str(), b.c_str()); }
static S cellof(const Model &m, const Row &r, size_t c) { auto it = r.find(m.cols[c].id); return it == r.end() ? S() : it->second; }

static void one_op(M_table_t *&t, Model &m)
{
	size_t nc = m.cols.size(), nr = m.rows.size();
	S n = gname(), v = gval(), w;
	switch (vh_rndn(22)) {
		case 0: case 1: {
			bool named = !vh_chance(15), exp = !named || m_find(m, n) < 0;
			bool g = M_table_column_insert(t, named ? n.c_str() : NULL) == M_TRUE;
			w = vh_fmt("column_insert(%s)", E(n));
			VH_CHECK(g == exp, "ret:column_insert", "%s returns %d", w.c_str(), g);
			if (g) m_insert_col(m, nc, n, named);
			break; }
		case 2: case 3: {
			bool named = !vh_chance(15); size_t at = vh_rndn(nc + 2);
			bool exp = at <= nc && (!named || m_find(m, n) < 0);
			bool g = M_table_column_insert_at(t, at, named ? n.c_str() : (vh_chance(50) ? "" : NULL)) == M_TRUE;
			w = vh_fmt("column_insert_at(%zu,%s)", at, E(n));
			VH_CHECK(g == exp, "ret:column_insert_at", "%s returns %d", w.c_str(), g);
			if (g) m_insert_col(m, at, n, named);
			break; }
		case 4: {
			bool named = !vh_chance(15); size_t at = vh_rndn(nc + 1); int f = m_find(m, n);
			bool exp = at < nc && (!named || f < 0 || (size_t)f == at);
			bool g = M_table_column_set_name(t, at, named ? n.c_str() : (vh_chance(50) ? "" : NULL)) == M_TRUE;
			w = vh_fmt("column_set_name(%zu,%s)", at, named ? E(n) : "none");
			VH_CHECK(g == exp, "ret:column_set_name", "%s returns %d, columns %zu, the name is column %d's", w.c_str(), g, nc, f);
			if (g) { m.cols[at].named = named; m.cols[at].name = n; }
			break; }
		case 5: {
			w = vh_fmt("column_remove(%s)", E(n)); int f = m_find(m, n);
			if (!vh_chance(40)) return;
			M_table_column_remove(t, n.c_str());
			if (f >= 0) m_remove_col(m, (size_t)f);
			break; }
		case 6: {
			size_t at = vh_rndn(nc + 1); if (!vh_chance(40)) return;
			w = vh_fmt("column_remove_at(%zu)", at);
			M_table_column_remove_at(t, at);
			if (at < nc) m_remove_col(m, at);
			break; }
		case 7: {
			if (!vh_chance(30)) return;
			w = "remove_empty_columns"; size_t exp = 0, g;
			for (size_t j = nc; j-- > 0;) { bool have = false; for (auto &r : m.rows) have |= r.count(m.cols[j].id) > 0; if (!have) { m_remove_col(m, j); exp++; } }
			g = M_table_column_remove_empty_columns(t);
			VH_CHECK(g == exp, "ret:remove_empty_columns", "returns %zu, expected %zu", g, exp);
			break; }
		case 8: {
			w = "column_order"; bool ci = vh_chance(50);
			std::vector<Col> nm, un;
			for (auto &c : m.cols) (c.named ? nm : un).push_back(c);
			if (ci) for (size_t a = 0; a < nm.size(); a++) for (size_t b = a + 1; b < nm.size(); b++) if (fold(nm[a].name) == fold(nm[b].name)) return;
			std::sort(nm.begin(), nm.end(), [&](const Col &a, const Col &b) { return cmpstr(a.name, b.name, ci) < 0; });
			M_table_column_order(t, ci ? M_sort_compar_str_casecmp : M_sort_compar_str, NULL);
			/* unnamed ones sort first, in any order among themselves */
			VH_CHECK(M_table_column_count(t) == nc, "order:count", "column_order changed the number of columns");
			std::vector<Col> res;
			for (size_t j = 0; j < un.size() + res.size() && un.size() > 0; j++) {
				size_t k;
				for (k = 0; k < un.size(); k++) {
					bool eq = true;
					for (size_t i = 0; i < nr && eq; i++) { const char *c = M_table_cell_at(t, i, j); auto it = m.rows[i].find(un[k].id); eq = (c == NULL) == (it == m.rows[i].end()) && (!c || it->second == c); }
					if (eq) break;
				}
				if (k == un.size()) vh_fail("order:unnamed", "column %zu after column_order isn't one of the unnamed columns", j);
				res.push_back(un[k]); un.erase(un.begin() + (long)k);
			}
			for (auto &c : nm) res.push_back(c);
			m.cols = res;
			vh_count("ordered", 1);
			break; }
		case 9: case 10: {
			size_t g = M_table_row_insert(t); w = "row_insert";
			VH_CHECK(g == nr, "ret:row_insert", "returns %zu with %zu rows", g, nr);
			m.rows.push_back(Row());
			break; }
		case 11: {
			size_t at = vh_rndn(nr + 2); w = vh_fmt("row_insert_at(%zu)", at);
			bool g = M_table_row_insert_at(t, at) == M_TRUE;
			VH_CHECK(g == (at <= nr), "ret:row_insert_at", "%s returns %d with %zu rows", w.c_str(), g, nr);
			if (g) m.rows.insert(m.rows.begin() + (long)at, Row());
			break; }
		case 12: case 13: case 14: { /* dict */
			std::map<S, S> kv; M_hash_dict_t *d = M_hash_dict_create(8, 75, M_HASH_DICT_KEYS_ORDERED);
			for (size_t k = vh_rndn(4); k-- > 0;) {
				S kn = gname(); bool dup = false;
				if (nc && vh_chance(60)) { auto &c = m.cols[vh_rndn(nc)]; if (c.named) kn = c.name; }
				for (auto &p : kv) dup |= fold(p.first) == fold(kn);
				if (!dup) kv[kn] = gval();
			}
			for (auto &p : kv) M_hash_dict_insert(d, p.first.c_str(), p.second.c_str());
			M_uint32 fl = vh_chance(40) ? M_TABLE_INSERT_COLADD : vh_chance(50) ? M_TABLE_INSERT_COLIGNORE : M_TABLE_INSERT_NONE;
			bool missing = false; for (auto &p : kv) missing |= m_find(m, p.first) < 0;
			int how = (int)vh_rndn(3); size_t at = vh_rndn(nr + 2), gi = 9999; bool g, exp;
			exp = !(missing && fl == M_TABLE_INSERT_NONE);
			if (how == 0) { g = M_table_row_insert_dict(t, d, fl, &gi) == M_TRUE; at = nr; w = "row_insert_dict"; VH_CHECK(!g || gi == nr, "ret:row_insert_dict:idx", "index %zu with %zu rows", gi, nr); }
			else if (how == 1) { g = M_table_row_insert_dict_at(t, at, d, fl) == M_TRUE; exp = exp && at <= nr; w = "row_insert_dict_at"; }
			else { g = M_table_cell_set_dict(t, at, d, fl) == M_TRUE; exp = exp && at < nr; w = "cell_set_dict"; }
			M_hash_dict_destroy(d);
			VH_CHECK(g == exp, how == 2 ? "ret:cell_set_dict" : "ret:row_insert_dict", "%s at %zu of %zu rows, flags %u, %zu keys%s, returns %d", w.c_str(), at, nr, fl, kv.size(), missing ? " with unknown ones" : "", g);
			if (g) {
				if (fl == M_TABLE_INSERT_COLADD) for (auto &p : kv) if (m_find(m, p.first) < 0) m_insert_col(m, m.cols.size(), p.first, true);
				/* the order in which new columns are added follows the dict's enumeration; take it from the table */
				if (M_table_column_count(t) == m.cols.size())
					for (size_t j = nc; j < m.cols.size(); j++) {
						const char *cn = M_table_column_name(t, j);
						for (size_t k = j; k < m.cols.size(); k++) if (cn && m.cols[k].name == cn) { std::swap(m.cols[j], m.cols[k]); break; }
					}
				if (how < 2) m.rows.insert(m.rows.begin() + (long)at, Row());
				for (auto &p : kv) { int f = m_find(m, p.first); if (f >= 0) m.rows[at][m.cols[(size_t)f].id] = p.second; }
			}
			break; }
		case 15: {
			size_t at = vh_rndn(nr + 1); if (!vh_chance(50)) return;
			w = vh_fmt("row_remove(%zu)", at);
			M_table_row_remove(t, at);
			if (at < nr) m.rows.erase(m.rows.begin() + (long)at);
			break; }
		case 16: {
			if (!vh_chance(30)) return;
			w = "remove_empty_rows"; size_t exp = 0, g;
			for (size_t i = nr; i-- > 0;) if (m.rows[i].empty()) { m.rows.erase(m.rows.begin() + (long)i); exp++; }
			g = M_table_row_remove_empty_rows(t);
			VH_CHECK(g == exp, "ret:remove_empty_rows", "returns %zu, expected %zu", g, exp);
			break; }
		case 17: { /* by name */
			size_t at = vh_rndn(nr + 1); bool clr = vh_chance(20);
			if (nc && vh_chance(60)) { auto &c = m.cols[vh_rndn(nc)]; if (c.named) n = c.name; }
			int f = m_find(m, n);
			M_uint32 fl = vh_chance(40) ? M_TABLE_INSERT_COLADD : vh_chance(50) ? M_TABLE_INSERT_COLIGNORE : M_TABLE_INSERT_NONE;
			bool g, exp = at < nr && (f >= 0 || fl != M_TABLE_INSERT_NONE);
			if (clr && vh_chance(50)) { g = M_table_cell_clear(t, at, n.c_str()) == M_TRUE; fl = M_TABLE_INSERT_COLIGNORE; exp = at < nr; w = "cell_clear"; }
			else { g = M_table_cell_set(t, at, n.c_str(), clr ? NULL : v.c_str(), fl) == M_TRUE; w = vh_fmt("cell_set(%zu,%s)", at, E(n)); }
			VH_CHECK(g == exp, "ret:cell_set", "%s returns %d", w.c_str(), g);
			if (g) {
				if (f < 0 && fl == M_TABLE_INSERT_COLADD) { m_insert_col(m, nc, n, true); f = (int)nc; }
				if (f >= 0) { if (clr) m.rows[at].erase(m.cols[(size_t)f].id); else m.rows[at][m.cols[(size_t)f].id] = v; }
			}
			break; }
		case 18: case 19: {
			size_t at = vh_rndn(nr + 1), c = vh_rndn(nc + 1); bool clr = vh_chance(15), g;
			if (clr && vh_chance(50)) g = M_table_cell_clear_at(t, at, c) == M_TRUE;
			else g = M_table_cell_set_at(t, at, c, clr ? NULL : v.c_str()) == M_TRUE;
			w = vh_fmt("cell_set_at(%zu,%zu)", at, c);
			VH_CHECK(g == (at < nr && c < nc), "ret:cell_set_at", "%s returns %d", w.c_str(), g);
			if (g) { if (clr) m.rows[at].erase(m.cols[c].id); else m.rows[at][m.cols[c].id] = v; }
			break; }
		case 20: { /* sort rows */
			if (!nc || nr < 2) return;
			size_t c1 = vh_rndn(nc), c2 = vh_rndn(nc); bool sec = vh_chance(50), ci1 = vh_chance(50), ci2 = vh_chance(50), byname = vh_chance(50);
			if (byname && (!m.cols[c1].named || !m.cols[c2].named)) byname = false;
			M_sort_compar_t p = ci1 ? M_sort_compar_str_casecmp : M_sort_compar_str, s = sec ? (ci2 ? M_sort_compar_str_casecmp : M_sort_compar_str) : NULL;
			if (byname) M_table_column_sort_data(t, m.cols[c1].name.c_str(), p, sec ? m.cols[c2].name.c_str() : NULL, s, NULL);
			else M_table_column_sort_data_at(t, c1, p, sec ? c2 : 0, s, NULL);
			w = vh_fmt("sort_data%s(%zu%s,%zu%s)", byname ? "" : "_at", c1, ci1 ? "i" : "", c2, sec ? "" : " unused");
			VH_CHECK(M_table_row_count(t) == nr, "sort:count", "%s changed the number of rows", w.c_str());
			std::vector<Row> rest = m.rows, res;
			for (size_t i = 0; i < nr; i++) {
				size_t k;
				for (k = 0; k < rest.size(); k++) {
					bool eq = true;
					for (size_t j = 0; j < nc && eq; j++) { const char *c = M_table_cell_at(t, i, j); auto it = rest[k].find(m.cols[j].id); eq = (c == NULL) == (it == rest[k].end()) && (!c || it->second == c); }
					if (eq) break;
				}
				if (k == rest.size()) vh_fail("sort:row", "%s: row %zu isn't one of the rows before", w.c_str(), i);
				res.push_back(rest[k]); rest.erase(rest.begin() + (long)k);
			}
			m.rows = res;
			for (size_t i = 1; i < nr; i++) {
				int r = cmpstr(cellof(m, m.rows[i - 1], c1), cellof(m, m.rows[i], c1), ci1);
				if (r == 0 && sec) r = cmpstr(cellof(m, m.rows[i - 1], c2), cellof(m, m.rows[i], c2), ci2);
				VH_CHECK(r <= 0, byname ? "sort:order" : "sort:order-at", "%s: row %zu sorts before row %zu", w.c_str(), i, i - 1);
			}
			vh_count("sorted", 1);
			break; }
		default: {
			M_table_t *d = M_table_duplicate(t); w = "duplicate";
			cmp(d, m, "duplicate");
			M_table_destroy(t); t = d;
			break; }
	}
	cmp(t, m, w.c_str());
	vh_distinct(vh_hstr(w.c_str(), vh_hu(nc * 100 + nr, 0)));
	vh_count("ops", 1);
}

static void ops(void)
{
	Model m; M_table_t *t = mk(m);
	for (size_t k = 20 + vh_rndn(60); k-- > 0;) one_op(t, m);
	M_table_destroy(t);
}

static void fill(M_table_t *t, Model &m, bool named, bool md)
{
	size_t nc = 1 + vh_rndn(4), nr = vh_rndn(5);
	for (size_t i = 0; i < nc; i++) {
		S n = gname(); if (md && n.find('|') != S::npos) n = "z";
		bool nm = named || !vh_chance(20);
		if (nm && m_find(m, n) >= 0) n = vh_fmt("col%d", g_id + 1);
		if (M_table_column_insert(t, nm ? n.c_str() : NULL)) m_insert_col(m, m.cols.size(), n, nm);
	}
	for (size_t i = 0; i < nr; i++) {
		M_table_row_insert(t); m.rows.push_back(Row());
		for (size_t j = 0; j < nc; j++) if (!vh_chance(15)) {
			S v = gval();
			if (md) { S x; for (char c : v) if (c != '|' && c != '\r' && c != '\n') x += c; while (!x.empty() && isspace((unsigned char)x.back())) x.pop_back(); while (!x.empty() && isspace((unsigned char)x[0])) x.erase(0, 1); v = x; if (v.empty() && md) v = "v"; }
			M_table_cell_set_at(t, i, j, v.c_str()); m.rows[i][m.cols[j].id] = v;
		}
	}
}

static void merge(void)
{
	Model a, b; M_table_t *ta = mk(a), *tb = mk(b);
	fill(ta, a, vh_chance(80), false); fill(tb, b, vh_chance(80), false);
	bool exp = true; for (auto &c : a.cols) exp &= c.named; for (auto &c : b.cols) exp &= c.named;
	bool g = M_table_merge(&ta, tb) == M_TRUE;
	VH_CHECK(g == exp, "merge:ret", "merge returns %d", g);
	if (g && b.rows.size() > 0) {
		std::vector<int> to;
		for (auto &c : b.cols) { int f = m_find(a, c.name); if (f < 0) { m_insert_col(a, a.cols.size(), c.name, true); f = (int)a.cols.size() - 1; } to.push_back(f); }
		for (auto &r : b.rows) {
			Row n; bool amb = false;
			for (size_t j = 0; j < b.cols.size(); j++) for (size_t k = 0; k < j; k++) amb |= to[j] == to[k];
			for (size_t j = 0; j < b.cols.size(); j++) { auto it = r.find(b.cols[j].id); if (it != r.end()) n[a.cols[(size_t)to[j]].id] = it->second; else if (amb) n.erase(a.cols[(size_t)to[j]].id); }
			a.rows.push_back(n);
		}
		vh_count("merged", 1);
	}
	if (g && b.rows.empty()) { M_table_destroy(ta); return; }
	cmp(ta, a, "merge");
	if (!g) { cmp(tb, b, "merge failed"); M_table_destroy(tb); }
	M_table_destroy(ta);
}

/* RFC 4180, written from the RFC */
static std::vector<VS> parse(const S &d, char delim, char q)
{
	std::vector<VS> out; VS row; S cell; size_t i = 0; bool open = true;
	while (1) {
		if (i < d.size() && d[i] == q && cell.empty()) {
			for (i++; i < d.size(); i++) { if (d[i] == q) { if (i + 1 < d.size() && d[i + 1] == q) { cell += q; i++; } else break; } else cell += d[i]; }
			i++;
			if (i < d.size() && d[i] != delim && d.compare(i, 2, "\r\n") != 0) { row.push_back("<garbage after quote>"); out.push_back(row); return out; }
		}
		if (i >= d.size()) { row.push_back(cell); out.push_back(row); return out; }
		if (d[i] == delim) { row.push_back(cell); cell.clear(); i++; continue; }
		if (d.compare(i, 2, "\r\n") == 0) { row.push_back(cell); cell.clear(); out.push_back(row); row.clear(); i += 2; continue; }
		cell += d[i++];
	}
	(void)open;
}
static void csv(void)
{
	Model m; M_table_t *t = mk(m); bool hdr = vh_chance(60);
	fill(t, m, vh_chance(70), false);
	char delim = vh_chance(70) ? ',' : vh_chance(50) ? ';' : '\t', q = vh_chance(80) ? '"' : '\'';
	char *out = M_table_write_csv(t, delim, q, hdr ? M_TRUE : M_FALSE);
	S d = out ? out : "";
	vh_log("csv %s", E(d));
	std::vector<VS> exp;
	if (hdr) { VS r; for (auto &c : m.cols) r.push_back(c.named ? c.name : ""); exp.push_back(r); }
	for (auto &r : m.rows) { VS x; for (size_t j = 0; j < m.cols.size(); j++) x.push_back(cellof(m, r, j)); exp.push_back(x); }
	if (exp.empty()) { VH_CHECK(d.empty(), "csv:empty", "an empty table is written as %s", E(d)); }
	else {
		std::vector<VS> got = parse(d, delim, q);
		VH_CHECK(got == exp, "csv:text", "%zu records of %zu columns written as %s", exp.size(), m.cols.size(), E(d));
		M_table_t *l = M_table_create(m.cc ? M_TABLE_COLNAME_CASECMP : M_TABLE_NONE);
		Heap h(d, true);
		VH_CHECK(M_table_load_csv(l, (const char *)h.p, d.size(), delim, q, M_CSV_FLAG_NONE, hdr ? M_TRUE : M_FALSE), "csv:load", "can't load %s", E(d));
		VH_CHECK(d.empty() || M_table_column_count(l) == m.cols.size(), hdr ? "csv:columns" : "csv:columns-nohdr", "%zu columns loaded from %s, %zu written", M_table_column_count(l), E(d), m.cols.size());
		if (!d.empty()) {
			VH_CHECK(M_table_row_count(l) == m.rows.size(), "csv:rows", "%zu rows loaded from %s, %zu written", M_table_row_count(l), E(d), m.rows.size());
			for (size_t j = 0; hdr && j < m.cols.size(); j++) { const char *c = M_table_column_name(l, j); VH_CHECK(S(c ? c : "") == (m.cols[j].named ? m.cols[j].name : S()), "csv:name", "column %zu loaded as %s from %s", j, c ? c : "(none)", E(d)); }
			for (size_t i = 0; i < m.rows.size(); i++) for (size_t j = 0; j < m.cols.size(); j++) {
				const char *c = M_table_cell_at(l, i, j);
				VH_CHECK(S(c ? c : "") == cellof(m, m.rows[i], j), "csv:cell", "cell %zu,%zu loaded as %s from %s", i, j, c ? E(S(c)) : "(none)", E(d));
				vh_count("cells", 1);
			}
		}
		M_table_destroy(l);
		/* appended to a table that has some columns already */
		if (hdr && !d.empty()) {
			Model b; b.cc = m.cc; M_table_t *tb = M_table_create(b.cc ? M_TABLE_COLNAME_CASECMP : M_TABLE_NONE);
			fill(tb, b, true, false);
			size_t base = b.rows.size();
			std::vector<int> to; size_t pos = b.cols.size();
			for (auto &c : m.cols) { int f = c.named ? m_find(b, c.name) : -1; if (f < 0) { m_insert_col(b, pos, c.name, c.named); f = (int)pos++; } to.push_back(f); }
			M_table_load_csv(tb, (const char *)h.p, d.size(), delim, q, M_CSV_FLAG_NONE, M_TRUE);
			VH_CHECK(M_table_column_count(tb) == b.cols.size() && M_table_row_count(tb) == base + m.rows.size(), "csv:append", "appending %s to a table gives %zu columns and %zu rows", E(d), M_table_column_count(tb), M_table_row_count(tb));
			for (size_t i = 0; i < m.rows.size(); i++) for (size_t j = 0; j < m.cols.size(); j++) {
				const char *c = M_table_cell_at(tb, base + i, (size_t)to[j]);
				VH_CHECK(S(c ? c : "") == cellof(m, m.rows[i], j), "csv:append", "cell %zu,%zu appended as %s from %s", i, j, c ? E(S(c)) : "(none)", E(d));
			}
			M_table_destroy(tb);
		}
	}
	vh_distinct(vh_hstr(d.c_str(), 0));
	vh_count("documents", 1);
	if (out) M_free(out);
	M_table_destroy(t);
}

static void json(void)
{
	Model m; M_table_t *t = mk(m); fill(t, m, vh_chance(90), false);
	bool named = true; for (auto &c : m.cols) named &= c.named;
	char *out = M_table_write_json(t, vh_chance(50) ? M_JSON_WRITER_NONE : M_JSON_WRITER_PRETTYPRINT_SPACE);
	if (!named) { VH_CHECK(out == NULL, "json:unnamed", "a table with unnamed columns is written as %s", E(S(out ? out : ""))); M_table_destroy(t); return; }
	VH_CHECK(out != NULL, "json:write", "table of %zu rows isn't written", m.rows.size());
	S d = out; M_free(out);
	vh_log("json %s", E(d));
	/* independent look at the document through the JSON module */
	M_json_node_t *js = M_json_read(d.c_str(), d.size(), M_JSON_READER_NONE, NULL, NULL, NULL, NULL);
	VH_CHECK(js && M_json_node_type(js) == M_JSON_TYPE_ARRAY && M_json_array_len(js) == m.rows.size(), "json:doc", "%zu rows written as %s", m.rows.size(), E(d));
	for (size_t i = 0; i < m.rows.size(); i++) {
		M_json_node_t *o = M_json_array_at(js, i); M_list_str_t *ks = M_json_object_keys(o); size_t nk = M_list_str_len(ks); M_list_str_destroy(ks);
		VH_CHECK(nk == m.rows[i].size(), "json:keys", "row %zu of %s has %zu keys, expected %zu", i, E(d), nk, m.rows[i].size());
		for (size_t j = 0; j < m.cols.size(); j++) {
			const char *s = M_json_object_value_string(o, m.cols[j].name.c_str()); auto it = m.rows[i].find(m.cols[j].id);
			VH_CHECK((s == NULL) == (it == m.rows[i].end()) && (!s || it->second == s), "json:value", "cell %zu,%zu in %s", i, j, E(d));
		}
	}
	M_json_node_destroy(js);
	M_table_t *l = M_table_create(m.cc ? M_TABLE_COLNAME_CASECMP : M_TABLE_NONE);
	if (vh_chance(20)) M_table_column_insert(l, "a");
	VH_CHECK(M_table_load_json(l, d.c_str(), d.size()), "json:load", "can't load %s", E(d));
	VH_CHECK(M_table_row_count(l) == m.rows.size(), "json:rows", "%zu rows loaded from %s", M_table_row_count(l), E(d));
	for (size_t i = 0; i < m.rows.size(); i++) for (size_t j = 0; j < m.cols.size(); j++) {
		const char *s = M_table_cell(l, i, m.cols[j].name.c_str()); auto it = m.rows[i].find(m.cols[j].id);
		VH_CHECK((s == NULL) == (it == m.rows[i].end()) && (!s || it->second == s), "json:cell", "cell %zu,%zu (\"%s\") loaded from %s as %s", i, j, E(m.cols[j].name), E(d), s ? E(S(s)) : "(none)");
		vh_count("cells", 1);
	}
	M_table_destroy(l);
	vh_distinct(vh_hstr(d.c_str(), 0));
	vh_count("documents", 1);
	M_table_destroy(t);
}

static void markdown(void)
{
	Model m; M_table_t *t = mk(m); fill(t, m, true, true);
	M_uint32 fl = (vh_chance(50) ? M_TABLE_MARKDOWN_PRETTYPRINT : 0) | (vh_chance(50) ? M_TABLE_MARKDOWN_OUTERPIPE : 0) | (vh_chance(50) ? M_TABLE_MARKDOWN_LINEEND_WIN : M_TABLE_MARKDOWN_LINEEND_UNX);
	char *out = M_table_write_markdown(t, fl);
	if (m.rows.empty()) { VH_CHECK(out == NULL, "md:empty", "a table without rows is written"); M_table_destroy(t); return; }
	VH_CHECK(out != NULL, "md:write", "table isn't written");
	S d = out; M_free(out);
	vh_log("md %s", E(d));
	/* rows of which every cell is absent can't be told from blank lines without outer pipes */
	bool blank = false; for (auto &r : m.rows) blank |= r.empty();
	if (blank && !(fl & M_TABLE_MARKDOWN_OUTERPIPE)) { M_table_destroy(t); return; }
	M_table_t *l = M_table_create(M_TABLE_NONE);
	Heap h(d);
	VH_CHECK(M_table_load_markdown(l, (const char *)h.p, d.size()), "md:load", "can't load %s", E(d));
	VH_CHECK(M_table_column_count(l) == m.cols.size() && M_table_row_count(l) == m.rows.size(), "md:size", "%zu columns and %zu rows loaded from %s", M_table_column_count(l), M_table_row_count(l), E(d));
	for (size_t j = 0; j < m.cols.size(); j++) VH_CHECK(M_str_eq(M_table_column_name(l, j), m.cols[j].name.c_str()), "md:name", "column %zu of %s", j, E(d));
	for (size_t i = 0; i < m.rows.size(); i++) for (size_t j = 0; j < m.cols.size(); j++) {
		const char *s = M_table_cell_at(l, i, j);
		VH_CHECK(S(s ? s : "") == cellof(m, m.rows[i], j), "md:cell", "cell %zu,%zu loaded from %s as %s", i, j, E(d), s ? E(S(s)) : "(none)");
		vh_count("cells", 1);
	}
	M_table_destroy(l);
	vh_distinct(vh_hstr(d.c_str(), 0));
	vh_count("documents", 1);
	M_table_destroy(t);
}

const vh_mode_t vh_modes[] = { { "ops", ops, NULL, NULL }, { "merge", merge, NULL, NULL }, { "csv", csv, NULL, NULL }, { "json", json, NULL, NULL }, { "markdown", markdown, NULL, NULL }, {} };
