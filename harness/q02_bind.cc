/* Q02: bound values against a model table, through the API and through SQLite's own interface */
#include "sqlutil.hpp"
static M_sql_connpool_t *pool; static sqlite3 *raw; static S path;
struct Cell { bool null = true; int64_t i = 0; S s; };
struct Row { int64_t id; Cell c[7]; };  /* b s i l t v x */
static const char *names[] = { "b", "s", "i", "l", "t", "v", "x" };
static const M_sql_data_type_t types[] = { M_SQL_DATA_TYPE_BOOL, M_SQL_DATA_TYPE_INT16, M_SQL_DATA_TYPE_INT32, M_SQL_DATA_TYPE_INT64, M_SQL_DATA_TYPE_TEXT, M_SQL_DATA_TYPE_TEXT, M_SQL_DATA_TYPE_BINARY };
static void exec(const char *q) { M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_stmt_prepare(s, q); M_sql_error_t e = M_sql_stmt_execute(pool, s); VH_CHECK(e == M_SQL_ERROR_SUCCESS, "exec", "%s: %s %s", q, M_sql_error_string(e), M_sql_stmt_get_error_string(s)); M_sql_stmt_destroy(s); }
static void setup(void)
{
	path = S(vh_tmpdir()) + "/q02.db"; unlink(path.c_str()); char err[256]; S cs = "path=" + path + ";journal_mode=MEMORY;analyze=no;shared_cache=no";
	M_sql_error_t e = M_sql_connpool_create(&pool, "sqlite", cs.c_str(), NULL, NULL, 1, M_SQL_CONNPOOL_FLAG_NONE, err, sizeof err); if (e != M_SQL_ERROR_SUCCESS) { fprintf(stderr, "pool %s\n", err); abort(); }
	e = M_sql_connpool_start(pool, err, sizeof err); if (e != M_SQL_ERROR_SUCCESS) { fprintf(stderr, "pool start %s\n", err); abort(); }
	exec("PRAGMA synchronous=OFF");
	exec("CREATE TABLE tt (id INTEGER PRIMARY KEY, b TINYINT, s SMALLINT, i INT, l INTEGER, t TEXT, v VARCHAR(20), x BLOB)");
	if (sqlite3_open(path.c_str(), &raw) != SQLITE_OK) abort();
}
static void teardown(void) { extern void drop(void); drop(); sqlite3_close(raw); M_sql_connpool_destroy(pool); unlink(path.c_str()); }
static S gen_text(void) {
	static const VS odd = { "", "'", "''; DROP TABLE tt; --", "?", "%s%n", "\"x\"", "NULL", "1", "0", "yes", "Off", "true", "-32768", "-32769", "32767", "32768", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "-40000", "99999999999999999999", "\xff\xfe", "a\nb\tc\r\n", "\x01\x7f", "\xe2\x82\xac", "0x10", "007", "+5", " 7", "-0" };
	return vh_chance(60) ? vh_pick(odd) : vh_chance(90) ? vh_cbytes(vh_len()) : vh_cbytes(4000 + vh_rndn(4000)); }
static Cell gen(int k, bool fit) {
	Cell c; if (vh_chance(15)) return c; c.null = false;
	switch (k) { case 0: c.i = (int64_t)vh_rndn(2); break; case 1: c.i = (int16_t)vh_i64(); break; case 2: c.i = (int32_t)vh_i64(); break; case 3: c.i = vh_i64(); break; case 4: c.s = gen_text(); break; case 5: c.s = gen_text(); break; default: c.s = vh_bytes(vh_len()); if (vh_chance(10)) c.s = ""; }
	(void)fit; return c; }
static std::vector<Heap *> keep; /* constant bindings have to stay until executed */
void drop(void) { for (auto h : keep) delete h; keep.clear(); }
static Cell bind(M_sql_stmt_t *st, int k, Cell c) {
	M_sql_error_t e = M_SQL_ERROR_SUCCESS;
	switch (k) {
		case 0: e = c.null ? M_sql_stmt_bind_bool_null(st) : M_sql_stmt_bind_bool(st, c.i ? M_TRUE : M_FALSE); break;
		case 1: e = c.null ? M_sql_stmt_bind_int16_null(st) : M_sql_stmt_bind_int16(st, (M_int16)c.i); break;
		case 2: e = c.null ? M_sql_stmt_bind_int32_null(st) : M_sql_stmt_bind_int32(st, (M_int32)c.i); break;
		case 3: e = c.null ? M_sql_stmt_bind_int64_null(st) : M_sql_stmt_bind_int64(st, c.i); break;
		case 4: case 5: { size_t max = vh_chance(70) ? 0 : c.s.size() ? 1 + vh_rndn(c.s.size() + 5) : 3; Heap *h = NULL; if (!c.null) h = new Heap(c.s, true);
			switch (vh_rndn(3)) { case 0: e = M_sql_stmt_bind_text_dup(st, h ? h->p : NULL, max); delete h; break; case 1: e = M_sql_stmt_bind_text_own(st, h ? M_strdup(h->p) : NULL, max); delete h; break; default: e = M_sql_stmt_bind_text_const(st, h ? h->p : NULL, max); if (h) keep.push_back(h); }
			if (max && c.s.size() > max) c.s.resize(max); break; }
		default: { Heap *h = NULL; if (!c.null) h = new Heap(c.s);
			switch (vh_rndn(3)) { case 0: e = M_sql_stmt_bind_binary_dup(st, h ? (M_uint8 *)h->p : NULL, h ? h->n : 0); delete h; break; case 1: { M_uint8 *m = NULL; if (h) { m = (M_uint8 *)M_malloc(h->n + 1); memcpy(m, h->p, h->n); } e = M_sql_stmt_bind_binary_own(st, m, h ? h->n : 0); delete h; break; } default: e = M_sql_stmt_bind_binary_const(st, h ? (M_uint8 *)h->p : NULL, h ? h->n : 0); if (h) keep.push_back(h); } }
	}
	VH_CHECK(e == M_SQL_ERROR_SUCCESS, "bind", "column %s: %s", names[k], M_sql_error_string(e)); return c; }
static bool same(const Cell &a, const Cell &b) { return a.null == b.null && (a.null || (a.i == b.i && a.s == b.s)); }
/* the reference of an integer conversion: digits at the start of the text, in range */
static bool ref_int(const S &t, __int128 &v) { size_t p = 0; while (p < t.size() && isspace((unsigned char)t[p])) p++; bool neg = false; if (p < t.size() && (t[p] == '-' || t[p] == '+')) neg = t[p++] == '-'; size_t d = p; v = 0; while (p < t.size() && isdigit((unsigned char)t[p]) && p - d < 30) v = v * 10 + (t[p++] - '0'); if (neg) v = -v; return p > d; }
static bool in_word(const S &t, const VS &w) { for (auto &x : w) if (!strcasecmp(x.c_str(), t.c_str())) return true; return false; }
static void check_cell(M_sql_stmt_t *st, size_t r, size_t col, const char *name, int k, const Cell &c, const char *how) {
	M_bool nu = M_FALSE; VH_CHECK(M_sql_stmt_result_isnull(st, r, col, &nu) == M_SQL_ERROR_SUCCESS && (nu == M_TRUE) == c.null, "null", "%s %s: %s, stored %s", how, name, nu ? "null" : "not null", c.null ? "null" : E(k < 4 ? std::to_string(c.i) : c.s));
	S nm = name; if (vh_chance(30)) for (auto &ch : nm) ch = (char)toupper(ch);
	VH_CHECK(M_sql_stmt_result_isnull_byname_direct(st, r, nm.c_str()) == (c.null ? M_TRUE : M_FALSE) && M_sql_stmt_result_isnull_direct(st, r, col) == (c.null ? M_TRUE : M_FALSE), "byname:null", "%s", name);
	const char *tx = "?"; M_sql_error_t e = M_sql_stmt_result_text(st, r, col, &tx); const M_uint8 *bp = NULL; size_t bn = 7; M_sql_error_t be = M_sql_stmt_result_binary(st, r, col, &bp, &bn);
	if (k == 6) {
		VH_CHECK(e == M_SQL_ERROR_INVALID_TYPE, "binary:text", "text of a binary column: %d", (int)e);
		VH_CHECK(be == M_SQL_ERROR_SUCCESS && (c.null ? bp == NULL && bn == 0 : bp != NULL && S((const char *)bp, bn) == c.s), "binary", "%s: %zu bytes %s, stored %zu bytes %s", how, bn, bp ? E(S((const char *)bp, bn)) : "NULL", c.s.size(), E(c.s));
		size_t n2 = 0; const M_uint8 *b2 = M_sql_stmt_result_binary_byname_direct(st, r, nm.c_str(), &n2); VH_CHECK(b2 == bp && n2 == bn, "byname:binary", "%s", name); vh_count("binary_cells", 1); return; }
	VH_CHECK(be == M_SQL_ERROR_INVALID_TYPE, "binary:type", "binary of %s: %d", name, (int)be);
	S want = k < 4 ? std::to_string(c.i) : c.s;
	VH_CHECK(e == M_SQL_ERROR_SUCCESS && (c.null ? tx == NULL : tx != NULL && want == tx), "text", "%s %s: %s, stored %s", how, name, tx ? E(S(tx)) : "NULL", c.null ? "NULL" : E(want));
	VH_CHECK(M_sql_stmt_result_text_byname_direct(st, r, nm.c_str()) == tx, "byname:text", "%s", name);
	__int128 v = 0; bool ok = c.null || ref_int(want, v);
	#define CONV(T, fn, lo, hi) { T o = 55; M_sql_error_t ie = fn(st, r, col, &o); bool wok = ok && v >= (__int128)(lo) && v <= (__int128)(hi); VH_CHECK((ie == M_SQL_ERROR_SUCCESS) == wok && (wok ? (__int128)o == v : ie == M_SQL_ERROR_INVALID_TYPE), "convert:" #T, "%s %s as " #T ": %s gives %lld (%s)", how, name, c.null ? "NULL" : E(want), (long long)o, M_sql_error_string(ie)); \
		T o2 = 55; VH_CHECK(fn##_byname(st, r, nm.c_str(), &o2) == ie && (ie != M_SQL_ERROR_SUCCESS || (o2 == o && fn##_direct(st, r, col) == o && fn##_byname_direct(st, r, nm.c_str()) == o)), "byname:" #T, "%s", name); vh_count(wok ? "conversions" : "refused_conversions", 1); }
	CONV(M_int16, M_sql_stmt_result_int16, -32768, 32767) CONV(M_int32, M_sql_stmt_result_int32, INT32_MIN, INT32_MAX) CONV(M_int64, M_sql_stmt_result_int64, INT64_MIN, INT64_MAX)
	static const VS tr = { "1", "y", "yes", "true", "on" }, fa = { "0", "n", "no", "false", "off" }; M_bool bv = M_FALSE; e = M_sql_stmt_result_bool(st, r, col, &bv);
	if (!c.null) { bool t = in_word(want, tr), f = in_word(want, fa); VH_CHECK((e == M_SQL_ERROR_SUCCESS) == (t || f) && (bv == M_TRUE) == t, "convert:bool", "%s as bool: %d %d", E(want), (int)e, (int)bv); } else VH_CHECK(bv == M_FALSE, "convert:boolnull", "NULL is true");
}
static void bindfetch(void)
{
	exec("DELETE FROM tt"); std::map<int64_t, Row> model; for (auto h : keep) delete h; keep.clear();
	for (int op = 0, nop = 1 + (int)vh_rndn(6); op < nop; op++) {
		M_sql_stmt_t *st = M_sql_stmt_create(); struct G { M_sql_stmt_t *s; ~G() { M_sql_stmt_destroy(s); } } g { st };
		unsigned what = (unsigned)vh_rndn(10);
		if (what < 5 || model.empty()) { /* insert */
			std::vector<int> cols; for (int k = 0; k < 7; k++) if (vh_chance(75)) cols.push_back(k); for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[vh_rndn(i)]);
			S q = "INSERT INTO tt (id", p; for (int k : cols) { q += vh_chance(30) ? ", " : ","; q += names[k]; p += vh_chance(30) ? ", ?" : ",?"; } q += vh_chance(50) ? ") VALUES (?" + p + ")" : ")  values  ( ?" + p + " )"; if (vh_chance(10)) q += ";";
			VH_CHECK(M_sql_stmt_prepare(st, q.c_str()) == M_SQL_ERROR_SUCCESS, "prepare", "%s", q.c_str());
			size_t nr = vh_chance(50) ? 1 : vh_chance(90) ? 1 + vh_rndn(40) : vh_chance(50) ? 490 + vh_rndn(40) : 1000 + vh_rndn(300);
			std::map<int64_t, Row> add; bool dup = false, wrongn = nr > 1 && vh_chance(5), wrongt = !cols.empty() && nr > 1 && vh_chance(5); size_t bad = 1 + vh_rndn(nr > 1 ? nr - 1 : 1); int64_t next = (int64_t)vh_rndn(100000);
			for (size_t r = 0; r < nr; r++) {
				if (vh_chance(3)) { M_sql_stmt_bind_new_row(st); M_sql_stmt_bind_int32(st, 5); M_sql_stmt_bind_text_dup(st, "discarded", 0); M_sql_stmt_bind_clear_row(st); }
				if (r || vh_chance(50)) M_sql_stmt_bind_new_row(st); if (vh_chance(5)) M_sql_stmt_bind_new_row(st);
				Row row; row.id = vh_chance(2) && !model.empty() ? model.begin()->first : next; next += 1 + (int64_t)vh_rndn(3); if (model.count(row.id) || add.count(row.id)) dup = true;
				M_sql_stmt_bind_int64(st, row.id); for (int k : cols) { Cell c = gen(k, true); if (wrongt && r == bad && k == cols[0]) { if (k == 2) M_sql_stmt_bind_text_dup(st, "7", 0); else M_sql_stmt_bind_int32(st, 7); } else row.c[k] = bind(st, k, c); }
				if (wrongn && r == bad) M_sql_stmt_bind_int32(st, 1); add.emplace(row.id, row);
			}
			if (vh_chance(20)) M_sql_stmt_bind_new_row(st); /* an unused row is dropped */
			M_sql_error_t e = M_sql_stmt_execute(pool, st);
			if (wrongn) { VH_CHECK(e == M_SQL_ERROR_QUERY_WRONGNUMPARAMS, "wrongnum", "%s", M_sql_error_string(e)); vh_count("refused", 1); }
			else if (wrongt) { VH_CHECK(e == M_SQL_ERROR_PREPARE_INVALID, "wrongtype", "%s", M_sql_error_string(e)); vh_count("refused", 1); }
			else if (dup) { VH_CHECK(e == M_SQL_ERROR_QUERY_CONSTRAINT, "constraint", "%s for %zu rows: %s", M_sql_error_string(e), nr, M_sql_stmt_get_error_string(st)); vh_count("constraints", 1); }
			else { VH_CHECK(e == M_SQL_ERROR_SUCCESS, "insert", "%zu rows of %zu: %s %s", nr, cols.size() + 1, M_sql_error_string(e), M_sql_stmt_get_error_string(st)); VH_CHECK(M_sql_stmt_result_affected_rows(st) == nr, "affected", "%zu for %zu rows", M_sql_stmt_result_affected_rows(st), nr); for (auto &a : add) model[a.first] = a.second; vh_count("rows", nr); if (nr > 400) vh_count("chunked_inserts", 1); }
		} else if (what < 7) { /* update */
			int k = (int)vh_rndn(7), w = (int)vh_rndn(7); auto it = model.begin(); std::advance(it, (long)vh_rndn(model.size())); Cell key = it->second.c[w]; S q = S("UPDATE tt SET ") + names[k] + " = ? WHERE " + names[w] + " = ?";
			M_sql_stmt_prepare(st, q.c_str()); Cell c = bind(st, k, gen(k, true)); Cell kk = w == 4 || w == 5 ? key : bind(st, w, key); if (w == 4 || w == 5) M_sql_stmt_bind_text_dup(st, key.null ? NULL : key.s.c_str(), 0);
			M_sql_error_t e = M_sql_stmt_execute(pool, st); VH_CHECK(e == M_SQL_ERROR_SUCCESS, "update", "%s %s", q.c_str(), M_sql_error_string(e));
			size_t n = 0; if (!kk.null) for (auto &m : model) if (same(m.second.c[w], kk)) { m.second.c[k] = c; n++; } VH_CHECK(M_sql_stmt_result_affected_rows(st) == n, "affected", "%s: %zu, expected %zu", q.c_str(), M_sql_stmt_result_affected_rows(st), n); vh_count("updates", 1);
		} else if (what == 7) { /* delete */
			int w = (int)vh_rndn(7); auto it = model.begin(); std::advance(it, (long)vh_rndn(model.size())); Cell key = it->second.c[w]; S q = S("DELETE FROM tt WHERE ") + names[w] + " = ?"; M_sql_stmt_prepare(st, q.c_str());
			if (w == 4 || w == 5) M_sql_stmt_bind_text_dup(st, key.null ? NULL : key.s.c_str(), 0); else bind(st, w, key);
			M_sql_error_t e = M_sql_stmt_execute(pool, st); VH_CHECK(e == M_SQL_ERROR_SUCCESS, "delete", "%s", M_sql_error_string(e)); size_t n = 0; if (!key.null) for (auto i = model.begin(); i != model.end();) if (same(i->second.c[w], key)) { i = model.erase(i); n++; } else ++i; VH_CHECK(M_sql_stmt_result_affected_rows(st) == n, "affected", "%s: %zu, expected %zu", q.c_str(), M_sql_stmt_result_affected_rows(st), n);
		} else { /* statements which have to be refused before anything is executed */
			static const struct { const char *q; M_sql_error_t e; } bad[] = { { "DELETE FROM tt WHERE t = 'x'", M_SQL_ERROR_PREPARE_STRNOTBOUND }, { "DELETE FROM tt; DELETE FROM tt", M_SQL_ERROR_PREPARE_NOMULITQUERY }, { "DELETE FROM tt WHERE i = \x01", M_SQL_ERROR_PREPARE_INVALID }, { "DELETE FROM tt WHERE i = ?", M_SQL_ERROR_QUERY_WRONGNUMPARAMS }, { "DELETE FROM nosuch", M_SQL_ERROR_QUERY_FAILURE } };
			auto &b = bad[vh_rndn(5)]; M_sql_error_t e = M_sql_stmt_prepare(st, b.q); if (e == M_SQL_ERROR_SUCCESS) e = M_sql_stmt_execute(pool, st); else VH_CHECK(M_sql_stmt_get_error(st) == e, "error", "%d", (int)M_sql_stmt_get_error(st));
			VH_CHECK(e == b.e, "refuse", "%s: %s", b.q, M_sql_error_string(e)); vh_count("refused", 1);
		}
		/* read back */
		if (op + 1 == nop || vh_chance(30)) {
			M_sql_stmt_t *rs = M_sql_stmt_create(); struct G g2 { rs }; std::vector<int> cols; for (int k = 0; k < 7; k++) if (vh_chance(80)) cols.push_back(k); for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[vh_rndn(i)]);
			S q = "SELECT id"; for (int k : cols) q += S(", ") + names[k]; int64_t from = vh_chance(70) || model.empty() ? -1 : (int64_t)vh_rndn((uint64_t)model.rbegin()->first + 2); q += " FROM tt WHERE id >= ? ORDER BY id"; bool desc = vh_chance(20); if (desc) q += " DESC";
			M_sql_stmt_prepare(rs, q.c_str()); M_sql_stmt_bind_int64(rs, from); size_t mf = vh_chance(50) ? 0 : 1 + vh_rndn(vh_chance(80) ? 10 : 400); M_sql_stmt_set_max_fetch_rows(rs, mf);
			std::vector<Row *> want; for (auto &m : model) if (m.first >= from) want.push_back(&m.second); if (desc) std::reverse(want.begin(), want.end());
			M_sql_error_t e = M_sql_stmt_execute(pool, rs); size_t got = 0; bool first = true; size_t stop = mf && vh_chance(10) ? vh_rndn(want.size() + 1) : SIZE_MAX;
			VH_CHECK(mf == 0 || want.empty() ? e == M_SQL_ERROR_SUCCESS : e == M_SQL_ERROR_SUCCESS_ROW, "select", "%s (%zu rows at most, %zu rows): %s %s", q.c_str(), mf, want.size(), M_sql_error_string(e), M_sql_stmt_get_error_string(rs));
			while (got < stop) {
				if (mf) { e = M_sql_stmt_fetch(rs); size_t nrow = M_sql_stmt_result_num_rows(rs); if (e == M_SQL_ERROR_SUCCESS) { VH_CHECK(nrow == 0, "fetch:end", "%zu rows with the end", nrow); break; } VH_CHECK(e == M_SQL_ERROR_SUCCESS_ROW && nrow > 0 && nrow <= mf, "fetch", "%s, %zu rows of at most %zu", M_sql_error_string(e), nrow, mf); VH_CHECK(nrow == mf || got + nrow == want.size(), "fetch:short", "%zu rows fetched of %zu requested with %zu left", nrow, mf, want.size() - got); }
				else if (!first) break;
				first = false; size_t nrow = M_sql_stmt_result_num_rows(rs); VH_CHECK(got + nrow <= want.size(), "rows", "%zu rows, expected %zu", got + nrow, want.size());
				VH_CHECK(M_sql_stmt_result_num_cols(rs) == cols.size() + 1, "cols", "%zu columns", M_sql_stmt_result_num_cols(rs)); VH_CHECK(M_sql_stmt_result_total_rows(rs) == got + nrow, "total", "%zu after %zu", M_sql_stmt_result_total_rows(rs), got + nrow);
				for (size_t i = 0; i < cols.size(); i++) { size_t ts = 9, ix = 99; VH_CHECK(!strcmp(M_sql_stmt_result_col_name(rs, i + 1), names[cols[i]]) && M_sql_stmt_result_col_type(rs, i + 1, &ts) == types[cols[i]] && ts == (cols[i] == 5 ? 20u : 0u), "column", "%s type %d size %zu", names[cols[i]], (int)M_sql_stmt_result_col_type(rs, i + 1, NULL), ts); VH_CHECK(M_sql_stmt_result_col_idx(rs, names[cols[i]], &ix) && ix == i + 1, "column:index", "%zu", ix); }
				for (size_t r = 0; r < nrow; r++) { VH_CHECK(M_sql_stmt_result_int64_direct(rs, r, 0) == want[got + r]->id, "order", "id %lld, expected %lld", (long long)M_sql_stmt_result_int64_direct(rs, r, 0), (long long)want[got + r]->id); for (size_t i = 0; i < cols.size(); i++) check_cell(rs, r, i + 1, names[cols[i]], cols[i], want[got + r]->c[cols[i]], mf ? "fetched" : "selected"); }
				M_bool dummy; VH_CHECK(M_sql_stmt_result_isnull(rs, nrow, 0, &dummy) == M_SQL_ERROR_INVALID_USE && M_sql_stmt_result_isnull(rs, 0, cols.size() + 1, &dummy) == M_SQL_ERROR_INVALID_USE, "range", "outside of the result"); VH_CHECK(M_sql_stmt_result_text_byname_direct(rs, 0, "nosuch") == NULL, "byname:unknown", "found");
				got += nrow; if (mf && nrow) vh_count("fetches", 1);
			}
			if (stop == SIZE_MAX) { VH_CHECK(got == want.size(), "missing", "%zu rows of %zu", got, want.size()); } else vh_count("abandoned", 1);
			vh_count("rows_read", got); vh_distinct(vh_hash(q.data(), q.size(), got));
		}
	}
	/* the database itself, through the library it belongs to */
	sqlite3_stmt *ss = NULL; VH_CHECK(sqlite3_prepare_v2(raw, "SELECT id,b,s,i,l,t,v,x FROM tt ORDER BY id", -1, &ss, NULL) == SQLITE_OK, "raw", "%s", sqlite3_errmsg(raw)); auto it = model.begin(); S bad;
	while (bad.empty() && sqlite3_step(ss) == SQLITE_ROW) {
		if (it == model.end() || it->first != sqlite3_column_int64(ss, 0)) { bad = "unexpected row " + std::to_string(sqlite3_column_int64(ss, 0)); break; }
		for (int k = 0; k < 7; k++) { const Cell &c = it->second.c[k]; int ty = sqlite3_column_type(ss, k + 1); S v((const char *)(ty == SQLITE_NULL || !sqlite3_column_blob(ss, k + 1) ? "" : sqlite3_column_blob(ss, k + 1)), ty == SQLITE_NULL ? 0 : (size_t)sqlite3_column_bytes(ss, k + 1)); int wt = c.null ? SQLITE_NULL : k < 4 ? SQLITE_INTEGER : k < 6 ? SQLITE_TEXT : SQLITE_BLOB; if (ty != wt || (!c.null && (k < 4 ? sqlite3_column_int64(ss, k + 1) != c.i : v != c.s))) bad = vh_fmt("row %lld column %s: type %d value %s, bound %s", (long long)it->first, names[k], ty, E(v), c.null ? "NULL" : E(k < 4 ? std::to_string(c.i) : c.s)); }
		++it;
	}
	if (bad.empty() && it != model.end()) bad = "row " + std::to_string(it->first) + " missing"; sqlite3_finalize(ss); VH_CHECK(bad.empty(), "stored", "%s", bad.c_str());
}
const vh_mode_t vh_modes[] = { { "bind", bindfetch, setup, teardown }, {} };
