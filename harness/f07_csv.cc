// F07: CSV reading, accessors and writing against a reference RFC 4180 reader and an independent writer.
#include "vh.hpp"
#include <mstdlib/mstdlib_formats.h>
#include <vector>
#include <string>
typedef std::vector<std::vector<S>> Grid;
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
struct Cell { bool null; S s; };
typedef std::vector<std::vector<Cell>> Ref;
static S unquote(const S &raw, char q)
{
	S o; size_t i = 0;
	if (!raw.empty() && raw[0] == q) i = 1;
	for (; i < raw.size(); i++) { if (raw[i] != q) o += raw[i]; else if (i + 1 < raw.size() && raw[i + 1] == q) { o += q; i++; } }
	return o;
}
static Cell finish(const S &raw, bool quoted, char q, bool trim)
{
	Cell c; c.null = false;
	if (quoted) { c.s = unquote(raw, q); return c; }
	c.s = raw;
	if (trim) { while (!c.s.empty() && sp(c.s[0])) c.s.erase(0, 1); while (!c.s.empty() && sp(c.s[c.s.size() - 1])) c.s.resize(c.s.size() - 1); }
	if (c.s.empty()) c.null = true;
	return c;
}
static Ref ref_parse(const S &t, char d, char q, bool trim)
{
	Ref r; std::vector<Cell> row; S raw; bool on = false, quoted = false, cut = false, any = false;
	for (size_t i = 0; i < t.size(); i++) {
		char c = t[i];
		if (on) { if (!cut) raw += c; if (c == q) { if (i + 1 < t.size() && t[i + 1] == q) { if (!cut) raw += q; i++; } else on = false; } continue; }
		if (c == q) { on = quoted = true; any = true; if (!cut) raw += c; continue; }
		if (c == d) { any = true; row.push_back(finish(raw, quoted, q, trim)); raw = ""; quoted = cut = false; continue; }
		if (c == '\n') { row.push_back(finish(raw, quoted, q, trim)); r.push_back(row); row.clear(); raw = ""; quoted = cut = any = false; continue; }
		if (c == '\r') { cut = true; continue; }
		any = true; if (!cut) raw += c;
	}
	if (any) { row.push_back(finish(raw, quoted, q, trim)); r.push_back(row); }
	if (!r.empty()) { size_t n = r[0].size(); for (auto &w : r) w.resize(n, Cell{true, S()}); }
	return r;
}
static char delim, quote; static bool trim;
static void control()
{
	static const char ds[] = ",,,,;\t|:x ", qs[] = "\"\"\"\"'`~";
	do { delim = ds[vh_rndn(10)]; quote = qs[vh_rndn(7)]; } while (delim == quote);
	trim = vh_chance(40);
}
static S ci(const S &s) { S o = s; for (auto &c : o) if (c >= 'A' && c <= 'Z') c += 32; return o; }
static S show(const Cell &c) { return c.null ? S("NULL") : "\"" + S(E(c.s)) + "\""; }
static S show(const char *p) { return p ? "\"" + S(E(S(p))) + "\"" : S("NULL"); }
static bool eq(const char *p, const Cell &c) { return c.null ? p == NULL : p != NULL && c.s == p; }

static void check_csv(M_csv_t *csv, const Ref &r, const S &t)
{
	if (r.empty()) { VH_CHECK(csv == NULL, "read:empty", "text without a row gives a table: \"%s\"", E(t)); return; }
	VH_CHECK(csv != NULL, "read:null", "\"%s\" is not parsed", E(t));
	VH_CHECK(M_csv_raw_num_rows(csv) == r.size() && M_csv_raw_num_cols(csv) == r[0].size(), "read:size", "\"%s\" has %zux%zu cells, expected %zux%zu", E(t), M_csv_raw_num_rows(csv), M_csv_raw_num_cols(csv), r.size(), r[0].size());
	VH_CHECK(M_csv_get_numrows(csv) == r.size() - 1 && M_csv_get_numcols(csv) == r[0].size(), "read:size", "with header: %zux%zu", M_csv_get_numrows(csv), M_csv_get_numcols(csv));
	for (size_t i = 0; i <= r.size(); i++) for (size_t j = 0; j <= r[0].size(); j++) {
		const char *c = M_csv_raw_cell(csv, i, j);
		if (i == r.size() || j == r[0].size()) { VH_CHECK(c == NULL, "read:outside", "cell %zu,%zu exists", i, j); continue; }
		VH_CHECK(eq(c, r[i][j]), "read:cell", "delimiter '%c' quote '%c' trim %d: cell %zu,%zu of \"%s\" is %s, expected %s", delim, quote, trim, i, j, E(t), show(c).c_str(), show(r[i][j]).c_str());
		vh_count("cells", 1);
		if (i) VH_CHECK(M_csv_get_cellbynum(csv, i - 1, j) == c, "read:bynum", "cell %zu,%zu by number", i, j); else VH_CHECK(M_csv_get_header(csv, j) == c, "read:header", "header %zu", j);
	}
	for (size_t j = 0; j < r[0].size(); j++) {
		if (r[0][j].null || r[0][j].s.empty()) continue;
		S n = r[0][j].s; bool dup = false;
		for (size_t k = 0; k < r[0].size(); k++) if (k != j && !r[0][k].null && ci(r[0][k].s) == ci(n)) dup = true;
		for (auto &c : n) if (vh_chance(30)) c = (c >= 'a' && c <= 'z') ? c - 32 : (c >= 'A' && c <= 'Z') ? c + 32 : c;
		ssize_t at = M_csv_get_cell_num(csv, n.c_str());
		VH_CHECK(dup ? at >= 0 && (size_t)at < r[0].size() && ci(r[0][(size_t)at].s) == ci(n) : at == (ssize_t)j, "read:name", "column \"%s\" is %zd, expected %zu", E(n), at, j);
		for (size_t i = 1; i <= r.size(); i++) { const char *c = M_csv_get_cell(csv, i - 1, n.c_str()); VH_CHECK(i == r.size() ? c == NULL : eq(c, r[i][(size_t)at]), "read:byname", "cell %zu of column \"%s\" is %s", i - 1, E(n), show(c).c_str()); }
		vh_count("named", 1);
	}
	VH_CHECK(M_csv_get_cell_num(csv, "no such column") == -1 && M_csv_get_cell(csv, 0, "no such column") == NULL && M_csv_get_cell_num(csv, "") == -1, "read:absent", "a column that is not there is found");
}
static M_csv_t *parse(const S &t, const VS *hdr)
{
	M_uint32 f = trim ? M_CSV_FLAG_TRIM_WHITESPACE : M_CSV_FLAG_NONE;
	Heap h(t, true);
	if (hdr) { M_list_str_t *l = M_list_str_create(M_LIST_STR_NONE); for (auto &s : *hdr) M_list_str_insert(l, s.c_str()); M_csv_t *c = M_csv_parse_add_headers((const char *)h.p, t.size(), delim, quote, f, l); M_list_str_destroy(l); return c; }
	if (vh_chance(50)) return M_csv_parse((const char *)h.p, t.size(), delim, quote, f);
	char *m = (char *)M_malloc(t.size() + 1); memcpy(m, t.c_str(), t.size() + 1);
	M_csv_t *c = M_csv_parse_inplace(m, t.size(), delim, quote, f);
	if (!c) M_free(m);
	return c;
}
static S gen_cell()
{
	S s; size_t n = vh_chance(15) ? 0 : vh_chance(5) ? vh_range(20, 80) : vh_range(1, 6); int st = (int)vh_rndn(5);
	for (size_t i = 0; i < n; i++) {
		int k = (int)vh_rndn(100);
		if (st == 0 || k < 12) s += quote; else if (k < 22) s += delim; else if (k < 27) s += '\n'; else if (k < 30) s += "\r\n"; else if (k < 33) s += '\r'; else if (k < 43) s += ' '; else if (k < 45) s += '\t'; else if (k < 50) s += (char)vh_range(128, 255); else s += (char)vh_range(33, 126);
	}
	return s;
}
static bool must_quote(const S &s) { for (char c : s) if (c == delim || c == quote || c == '\n' || c == '\r') return true; return !s.empty() && trim && (sp(s[0]) || sp(s[s.size() - 1])); }
static S put(const S &s) { if (!must_quote(s) && !vh_chance(20)) return s; S o(1, quote); for (char c : s) { o += c; if (c == quote) o += c; } return o + quote; }
static S row_text(const std::vector<S> &r) { S o; for (size_t i = 0; i < r.size(); i++) { if (i) o += delim; o += put(r[i]); } return o; }

static void run_grid(void)
{
	control();
	size_t cols = vh_range(1, 6), rows = vh_range(1, 6); Grid g;
	for (size_t i = 0; i < rows; i++) { std::vector<S> r; for (size_t j = 0; j < cols; j++) r.push_back(gen_cell()); g.push_back(r); }
	bool with_hdr = vh_chance(40); VS hdr;
	if (with_hdr) for (size_t j = 0; j < cols; j++) hdr.push_back(gen_cell());
	S t; bool lf = vh_chance(30);
	for (size_t i = 0; i < rows; i++) {
		S l = row_text(g[i]);
		if (i + 1 == rows && l.empty()) l = S(2, quote); // an empty line at the end is not a row
		t += l; if (i + 1 < rows || vh_chance(60)) t += lf ? "\n" : "\r\n";
	}
	M_csv_t *c = parse(t, with_hdr ? &hdr : NULL);
	VH_CHECK(c != NULL, "grid:null", "\"%s\" is not parsed", E(t));
	size_t off = with_hdr ? 1 : 0;
	VH_CHECK(M_csv_raw_num_rows(c) == rows + off && M_csv_raw_num_cols(c) == cols, "grid:size", "\"%s\" has %zux%zu cells, expected %zux%zu", E(t), M_csv_raw_num_rows(c), M_csv_raw_num_cols(c), rows + off, cols);
	for (size_t i = 0; i < rows + off; i++) for (size_t j = 0; j < cols; j++) {
		const char *p = M_csv_raw_cell(c, i, j); const S &w = i < off ? hdr[j] : g[i - off][j];
		VH_CHECK(w == (p ? p : ""), "grid:cell", "delimiter '%c' quote '%c': cell %zu,%zu of \"%s\" is %s, expected \"%s\"", delim, quote, i, j, E(t), show(p).c_str(), E(w));
		vh_count("cells", 1); if (must_quote(w)) vh_count("quoted", 1);
	}
	// write it out again, with other control characters, and read it back
	char od = delim, oq = quote; (void)od; (void)oq;
	if (vh_chance(40)) { control(); M_csv_output_set_control_chars(c, delim, quote); }
	M_buf_t *b = M_buf_create(); M_csv_output_headers_buf(b, c, NULL); M_csv_output_rows_buf(b, c, NULL, NULL, NULL, NULL, NULL);
	S o(M_buf_peek(b), M_buf_len(b)); M_buf_cancel(b);
	M_csv_t *c2 = parse(o, NULL);
	VH_CHECK(c2 != NULL && M_csv_raw_num_rows(c2) == rows + off && M_csv_raw_num_cols(c2) == cols, "write:size", "written \"%s\" has %zux%zu cells, expected %zux%zu", E(o), M_csv_raw_num_rows(c2), M_csv_raw_num_cols(c2), rows + off, cols);
	for (size_t i = 0; i < rows + off; i++) for (size_t j = 0; j < cols; j++) {
		const char *p = M_csv_raw_cell(c2, i, j); const S &w = i < off ? hdr[j] : g[i - off][j];
		VH_CHECK(w == (p ? p : ""), "write:cell", "delimiter '%c' quote '%c': cell %zu,%zu of written \"%s\" is %s, expected \"%s\"", delim, quote, i, j, E(o), show(p).c_str(), E(w));
	}
	Ref r = ref_parse(o, delim, quote, trim);
	VH_CHECK(r.size() == rows + off, "write:reference", "reference reader sees %zu rows in \"%s\"", r.size(), E(o));
	for (size_t i = 0; i < rows + off; i++) for (size_t j = 0; j < cols; j++) VH_CHECK(r[i][j].s == (i < off ? hdr[j] : g[i - off][j]), "write:reference", "reference reader sees \"%s\" in \"%s\"", E(r[i][j].s), E(o));
	M_csv_destroy(c); M_csv_destroy(c2);
	vh_distinct(vh_hash(t.data(), t.size(), (unsigned long long)delim * 256 + quote)); vh_count("grids", 1);
}
static void run_text(void)
{
	control();
	S t; size_t n = vh_chance(5) ? vh_range(50, 300) : vh_range(1, 30);
	for (size_t i = 0; i < n; i++) {
		int k = (int)vh_rndn(100);
		if (k < 20) t += quote; else if (k < 40) t += delim; else if (k < 50) t += '\n'; else if (k < 55) t += '\r'; else if (k < 58) t += "\r\n"; else if (k < 70) t += ' '; else t += "abcABC12_"[vh_rndn(9)];
	}
	Ref r = ref_parse(t, delim, quote, trim);
	M_csv_t *c = parse(t, NULL);
	check_csv(c, r, t);
	M_csv_destroy(c);
	vh_distinct(vh_hash(t.data(), t.size(), (unsigned long long)delim * 256 + quote)); vh_count(r.empty() ? "empty" : "texts", 1);
}

// ---- selection ----
static std::vector<bool> keep; static size_t fcalls; static int fthunk, wthunk; static size_t wcalls; static bool wseen_bad;
static const M_csv_t *cur;
static M_bool filter(const M_csv_t *csv, size_t row, void *th) { fcalls++; VH_CHECK(csv == cur && th == &fthunk && row < keep.size(), "select:filter", "filter called for row %zu", row); return MB(keep[row]); }
static S rewrite(const S &c, const S &h, bool *did) { unsigned long long x = vh_hstr(c.c_str(), vh_hstr(h.c_str(), 1)); *did = x % 3 == 0; return x % 2 ? S() : "<" + c + quote + delim + h + ">"; }
static M_bool writer(M_buf_t *b, const char *cell, const char *header, void *th)
{
	wcalls++; VH_CHECK(th == &wthunk && M_buf_len(b) == 0, "select:writer", "writer called with a buffer of %zu bytes", M_buf_len(b));
	bool did; S r = rewrite(cell ? cell : "", header ? header : "", &did); M_buf_add_bytes(b, r.data(), r.size());
	return MB(did);
}
static void run_select(void)
{
	control(); trim = false;
	size_t cols = vh_range(1, 5), rows = vh_range(0, 6); Grid g; VS h;
	for (size_t j = 0; j < cols; j++) h.push_back(vh_fmt("Col%c", (char)('A' + j)) + (vh_chance(30) ? gen_cell() : S()));
	for (size_t i = 0; i < rows; i++) { std::vector<S> r; for (size_t j = 0; j < cols; j++) r.push_back(gen_cell()); g.push_back(r); }
	S t = row_text(h) + "\n";
	for (auto &r : g) t += row_text(r) + "\r\n";
	M_csv_t *c = parse(t, NULL); cur = c;
	VH_CHECK(c && M_csv_get_numrows(c) == rows, "select:parse", "\"%s\"", E(t));
	VS sel; M_list_str_t *l = NULL; bool use = vh_chance(60);
	if (use) { l = M_list_str_create(M_LIST_STR_NONE); size_t n = vh_range(1, 5); for (size_t i = 0; i < n; i++) { S s = vh_chance(80) ? h[vh_rndn(cols)] : S("Missing"); if (vh_chance(20)) s = ci(s); sel.push_back(s); M_list_str_insert(l, s.c_str()); } }
	bool f = vh_chance(50), w = vh_chance(50); keep.clear(); for (size_t i = 0; i < rows; i++) keep.push_back(vh_chance(60));
	fcalls = wcalls = 0;
	M_buf_t *b = M_buf_create(); M_buf_add_str(b, "#");
	M_csv_output_headers_buf(b, c, l); M_csv_output_rows_buf(b, c, l, f ? filter : NULL, &fthunk, w ? writer : NULL, &wthunk);
	S o(M_buf_peek(b), M_buf_len(b)); M_buf_cancel(b);
	VH_CHECK(o[0] == '#', "select:prefix", "text before was changed"); o.erase(0, 1);
	Grid want; want.push_back(use ? sel : h); size_t kept = 0;
	for (size_t i = 0; i < rows; i++) {
		if (f && !keep[i]) continue;
		kept++; std::vector<S> r;
		for (size_t j = 0; j < want[0].size(); j++) {
			S v; for (size_t k = 0; k < cols; k++) if (ci(h[k]) == ci(want[0][j])) v = g[i][k];
			if (w) { bool did; S nv = rewrite(v, want[0][j], &did); if (did) v = nv; }
			r.push_back(v);
		}
		want.push_back(r);
	}
	if (f) VH_CHECK(fcalls == rows, "select:filter", "filter called %zu times for %zu rows", fcalls, rows);
	if (w) VH_CHECK(wcalls == kept * want[0].size(), "select:writer", "writer called %zu times for %zu cells", wcalls, kept * want[0].size());
	Ref r = ref_parse(o, delim, quote, false);
	VH_CHECK(r.size() == want.size() && r[0].size() == want[0].size(), "select:size", "\"%s\" has %zu rows, expected %zu", E(o), r.size(), want.size());
	for (size_t i = 0; i < want.size(); i++) for (size_t j = 0; j < want[0].size(); j++) { VH_CHECK(r[i][j].s == want[i][j], "select:cell", "cell %zu,%zu is \"%s\", expected \"%s\"", i, j, E(r[i][j].s), E(want[i][j])); vh_count("cells", 1); }
	M_list_str_destroy(l); M_csv_destroy(c); vh_count(use ? "selected" : "all", 1); if (f) vh_count("filtered", 1); if (w) vh_count("rewritten", 1);
	vh_distinct(vh_hash(o.data(), o.size(), 9));
}
const vh_mode_t vh_modes[] = { {"grid", run_grid}, {"text", run_text}, {"select", run_select}, {0} };
