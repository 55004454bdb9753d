/* Q01: concurrent transactions through the pool with failures injected at the driver calls; the driver calls are monitored and the database is
 * compared with what each caller was told. */
#include "sqlutil.hpp"
#include <pthread.h>
#include <atomic>
#include <mutex>
static M_sql_driver_t real; static thread_local int inner = 0;
struct Conn { bool trans = false, lost = false, ro = false; uint64_t owner = 0; int busy = 0; bool need_rb = false; };
static std::mutex mu; static std::map<void *, Conn> conns; static size_t max_rw, max_ro, n_rw, n_ro, peak; static std::atomic<int> inject{0}; static std::atomic<uint64_t> n_calls{0}, n_inj{0}, n_lost{0}, n_dead{0}, n_conn{0};
static thread_local vh_trng rng; static thread_local uint64_t me = 0; static uint64_t rn(uint64_t n) { return vh_tr(&rng) % n; }
static bool hit(int w) { int p = inject.load(); return p && me && (int)rn(1000) < p * w / 10; }
static M_sql_error_t pick(char *e, size_t n) { n_inj++; static const M_sql_error_t k[] = { M_SQL_ERROR_QUERY_DEADLOCK, M_SQL_ERROR_QUERY_DEADLOCK, M_SQL_ERROR_CONN_LOST, M_SQL_ERROR_QUERY_FAILURE, M_SQL_ERROR_QUERY_CONSTRAINT }; M_sql_error_t r = k[rn(5)]; if (e) M_snprintf(e, n, "injected"); if (r == M_SQL_ERROR_CONN_LOST) n_lost++; if (r == M_SQL_ERROR_QUERY_DEADLOCK) n_dead++; return r; }
struct Use { void *d; bool on; Use(M_sql_conn_t *c, const char *what) { d = M_sql_driver_conn_get_conn(c); on = !inner; if (!on) return; n_calls++; std::lock_guard<std::mutex> l(mu); auto i = conns.find(d); if (i == conns.end()) { vh_viol("conn:unknown", "%s on a connection that is not open", what); on = false; return; }
	if (i->second.busy++) vh_viol("conn:shared", "%s while another thread uses the connection", what); if (i->second.lost) vh_viol("conn:lost", "%s on a connection that was reported lost", what);
	if (i->second.trans && i->second.owner != me) vh_viol("conn:stolen", "%s by thread %llu on a connection in a transaction of thread %llu", what, (unsigned long long)me, (unsigned long long)i->second.owner); }
	void set(std::function<void(Conn &)> f) { if (!on) return; std::lock_guard<std::mutex> l(mu); auto i = conns.find(d); if (i != conns.end()) f(i->second); }
	~Use() { if (!on) return; std::lock_guard<std::mutex> l(mu); auto i = conns.find(d); if (i != conns.end()) i->second.busy--; } };
static void note(Use &u, M_sql_error_t e) { if (e == M_SQL_ERROR_CONN_LOST) u.set([](Conn &c) { c.lost = true; }); if (e == M_SQL_ERROR_QUERY_DEADLOCK) u.set([](Conn &c) { c.need_rb = c.trans; }); }
/* a failed statement holds no locks */
static void reset(M_sql_stmt_t *s) { sqlite3_stmt **d = (sqlite3_stmt **)M_sql_driver_stmt_get_stmt(s); if (d && *d) sqlite3_reset(*d); }
extern "C" {
static M_sql_error_t h_connect(M_sql_driver_conn_t **c, M_sql_connpool_t *p, M_bool ro, size_t h, char *e, size_t n) {
	if (hit(20)) { M_snprintf(e, n, "injected"); n_inj++; return M_SQL_ERROR_CONN_FAILED; }
	M_sql_error_t r = real.cb_connect(c, p, ro, h, e, n); if (r == M_SQL_ERROR_SUCCESS) { n_conn++; std::lock_guard<std::mutex> l(mu); Conn k; k.ro = ro == M_TRUE; conns[*c] = k; (ro ? n_ro : n_rw)++; if (n_rw > max_rw || n_ro > max_ro) vh_viol("pool:limit", "%zu connections open, %zu allowed (readonly %zu of %zu)", n_rw, max_rw, n_ro, max_ro); peak = std::max(peak, n_rw); } return r; }
static M_sql_error_t h_runonce(M_sql_conn_t *c, M_sql_driver_connpool_t *d, M_bool first, M_bool ro, char *e, size_t n) { inner++; M_sql_error_t r = real.cb_connect_runonce(c, d, first, ro, e, n); inner--; return r; }
static void h_disconnect(M_sql_driver_conn_t *c) { { std::lock_guard<std::mutex> l(mu); auto i = conns.find(c); if (i == conns.end()) vh_viol("conn:unknown", "disconnect of a connection that is not open"); else { if (i->second.busy) vh_viol("conn:shared", "disconnected while in use"); if (i->second.trans && !i->second.lost) vh_viol("trans:open", "disconnected with an open transaction"); (i->second.ro ? n_ro : n_rw)--; conns.erase(i); } } real.cb_disconnect(c); }
static M_sql_error_t h_prepare(M_sql_driver_stmt_t **ds, M_sql_conn_t *c, M_sql_stmt_t *s, char *e, size_t n) { Use u(c, "prepare"); if (u.on && hit(5)) { M_sql_error_t r = pick(e, n); note(u, r); return r; } M_sql_error_t r = real.cb_prepare(ds, c, s, e, n); if (u.on) note(u, r); return r; }
static M_sql_error_t h_execute(M_sql_conn_t *c, M_sql_stmt_t *s, size_t *rows, char *e, size_t n) {
	Use u(c, "execute"); bool nr = false, tr = false; u.set([&](Conn &k) { nr = k.need_rb; tr = k.trans; }); if (nr) vh_viol("trans:rollback-required", "statement executed in a transaction that has to be rolled back");
	if (u.on && hit(10)) { /* outside of a transaction the statement fails before it takes effect */ if (tr && rn(2)) { M_sql_error_t r = real.cb_execute(c, s, rows, e, n); (void)r; } M_sql_error_t r = pick(e, n); note(u, r); reset(s); return r; }
	M_sql_error_t r = real.cb_execute(c, s, rows, e, n); if (u.on) note(u, r); return r; }
static M_sql_error_t h_fetch(M_sql_conn_t *c, M_sql_stmt_t *s, char *e, size_t n) { Use u(c, "fetch"); if (u.on && hit(1)) { M_sql_error_t r = pick(e, n); note(u, r); reset(s); return r; } M_sql_error_t r = real.cb_fetch(c, s, e, n); if (u.on) note(u, r); return r; }
static M_sql_error_t h_begin(M_sql_conn_t *c, M_sql_isolation_t i, char *e, size_t n) { Use u(c, "begin"); { sqlite3 *db = *(sqlite3 **)M_sql_driver_conn_get_conn(c); for (sqlite3_stmt *q = sqlite3_next_stmt(db, NULL); q; q = sqlite3_next_stmt(db, q)) if (sqlite3_stmt_busy(q)) vh_viol("conn:active", "connection was returned with an active statement: %s", sqlite3_sql(q)); } u.set([&](Conn &k) { if (k.trans) vh_viol("trans:nested", "begin on a connection with an open transaction"); }); if (hit(10)) { M_sql_error_t r = pick(e, n); note(u, r); return r; } inner++; M_sql_error_t r = real.cb_begin(c, i, e, n); inner--; note(u, r); if (r == M_SQL_ERROR_SUCCESS) u.set([&](Conn &k) { k.trans = true; k.owner = me; k.need_rb = false; }); return r; }
static M_sql_error_t h_rollback(M_sql_conn_t *c) { Use u(c, "rollback"); u.set([&](Conn &k) { if (!k.trans) vh_viol("trans:none", "rollback without a transaction"); }); if (hit(10)) { n_inj++; note(u, M_SQL_ERROR_CONN_LOST); return M_SQL_ERROR_CONN_LOST; } inner++; M_sql_error_t r = real.cb_rollback(c); inner--; note(u, r); u.set([](Conn &k) { k.trans = false; k.need_rb = false; }); return r; }
static M_sql_error_t h_commit(M_sql_conn_t *c, char *e, size_t n) { Use u(c, "commit"); u.set([&](Conn &k) { if (!k.trans) vh_viol("trans:none", "commit without a transaction"); if (k.need_rb) vh_viol("trans:rollback-required", "commit of a transaction that has to be rolled back"); });
	if (hit(20)) { inner++; real.cb_rollback(c); inner--; u.set([](Conn &k) { k.trans = false; }); M_sql_error_t r = pick(e, n); note(u, r); return r; }
	inner++; M_sql_error_t r = real.cb_commit(c, e, n); inner--; note(u, r); u.set([](Conn &k) { k.trans = false; k.need_rb = false; }); return r; }
M_uint64 __real_M_sql_rollback_delay_ms(M_sql_connpool_t *); M_uint64 __wrap_M_sql_rollback_delay_ms(M_sql_connpool_t *p) { return __real_M_sql_rollback_delay_ms(p) / 25; }
void __real_M_thread_sleep(M_uint64); void __wrap_M_thread_sleep(M_uint64 us) { __real_M_thread_sleep(us > 5000 ? us / 50 : us); }
}
static void hook(M_sql_driver_t *d) { real = *d; d->cb_connect = h_connect; d->cb_connect_runonce = h_runonce; d->cb_disconnect = h_disconnect; d->cb_prepare = h_prepare; d->cb_execute = h_execute; d->cb_fetch = h_fetch; d->cb_begin = h_begin; d->cb_rollback = h_rollback; d->cb_commit = h_commit; }
static M_sql_connpool_t *pool; static uint64_t case_seed; static M_uint32 pflags; static const int64_t ACC = 5, START = 1000;
struct Exp { int64_t tx; int rows; bool ok; S how; };
struct Worker { pthread_t t; uint64_t id; int nops; std::vector<Exp> exp; };
static std::atomic<int64_t> next_tx{1};
static M_sql_error_t run1(M_sql_trans_t *tr, const char *q, std::vector<int64_t> p, S *err) { M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_stmt_prepare(s, q); for (auto v : p) M_sql_stmt_bind_int64(s, v); M_sql_error_t e = tr ? M_sql_trans_execute(tr, s) : M_sql_stmt_execute(pool, s); if (err) *err = M_sql_stmt_get_error_string(s); M_sql_stmt_destroy(s); return e; }
static M_sql_error_t get1(M_sql_trans_t *tr, const char *q, std::vector<int64_t> p, int64_t *out) { M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_stmt_prepare(s, q); for (auto v : p) M_sql_stmt_bind_int64(s, v); M_sql_error_t e = tr ? M_sql_trans_execute(tr, s) : M_sql_stmt_execute(pool, s); if (e == M_SQL_ERROR_SUCCESS) *out = M_sql_stmt_result_int64_direct(s, 0, 0); M_sql_stmt_destroy(s); return e; }
/* the commands of one transaction */
struct Cmd { int64_t tx; int rows; int retries; M_sql_error_t fin; int calls = 0; M_sql_error_t last = M_SQL_ERROR_SUCCESS; bool transfer = false; };
static M_sql_error_t cmd(M_sql_trans_t *tr, void *arg, char *, size_t) {
	Cmd *c = (Cmd *)arg; if (c->calls && !M_sql_error_is_rollback(c->last) && !M_sql_error_is_error(c->last) ) c->calls = c->calls; c->calls++; M_sql_error_t e = M_SQL_ERROR_SUCCESS;
	if (c->transfer) { int64_t a = (int64_t)rn(ACC), b = (int64_t)rn(ACC), x = 0, y = 0; if (a == b) b = (b + 1) % ACC; int64_t amt = 1 + (int64_t)rn(50);
		if (M_sql_error_is_error(e = get1(tr, "SELECT bal FROM acc WHERE id = ?", { a }, &x)) || M_sql_error_is_error(e = get1(tr, "SELECT bal FROM acc WHERE id = ?", { b }, &y))) return c->last = e;
		if (M_sql_error_is_error(e = run1(tr, "UPDATE acc SET bal = ? WHERE id = ?", { x - amt, a }, NULL)) || M_sql_error_is_error(e = run1(tr, "UPDATE acc SET bal = ? WHERE id = ?", { y + amt, b }, NULL))) return c->last = e; }
	for (int i = 0; i < c->rows; i++) if (M_sql_error_is_error(e = run1(tr, "INSERT INTO led (tx, n) VALUES (?, ?)", { c->tx, i }, NULL))) return c->last = e;
	if (c->retries > 0) { c->retries--; return c->last = M_SQL_ERROR_USER_RETRY; }
	return c->last = c->fin; }
static void *worker(void *arg)
{
	Worker *w = (Worker *)arg; me = w->id; rng.s = case_seed ^ w->id * 0x9E3779B97F4A7C15ULL; char err[300];
	for (int op = 0; op < w->nops; op++) {
		Exp x; x.tx = next_tx++; x.rows = 0; x.ok = false; err[0] = 0;
		switch (rn(8)) {
			case 0: case 1: case 2: { static const M_sql_error_t fins[] = { M_SQL_ERROR_SUCCESS, M_SQL_ERROR_SUCCESS, M_SQL_ERROR_SUCCESS, M_SQL_ERROR_USER_SUCCESS, M_SQL_ERROR_USER_BYPASS, M_SQL_ERROR_USER_FAILURE, M_SQL_ERROR_QUERY_FAILURE, M_SQL_ERROR_SUCCESS_ROW };
				Cmd c; c.tx = x.tx; c.rows = 1 + (int)rn(4); c.retries = rn(4) ? 0 : 1 + (int)rn(2); c.fin = fins[rn(8)]; c.transfer = rn(2) == 0; int planned = c.retries;
				M_sql_error_t e = M_sql_trans_process(pool, rn(2) ? M_SQL_ISOLATION_SERIALIZABLE : M_SQL_ISOLATION_READCOMMITTED, cmd, &c, err, sizeof err); x.rows = c.rows; x.ok = !M_sql_error_is_error(e); x.how = "process";
				if (x.ok && (e != c.fin || c.fin == M_SQL_ERROR_SUCCESS_ROW || M_sql_error_is_error(c.last))) vh_viol("process:result", "commands returned %d, the transaction %d", (int)c.last, (int)e);
				if (!x.ok && M_sql_error_is_rollback(e)) vh_viol("process:retry", "gave up with %s", M_sql_error_string(e));
				if (x.ok && c.calls < planned + 1) vh_viol("process:calls", "%d calls, %d retries were asked for", c.calls, planned); if (c.fin == M_SQL_ERROR_USER_FAILURE && e == M_SQL_ERROR_SUCCESS) vh_viol("process:userfail", "success"); vh_count(x.ok ? "committed" : "aborted", 1); vh_count("repeated", (uint64_t)(c.calls > 0 ? c.calls - 1 : 0)); break; }
			case 3: { int n = 2 + (int)rn(30); bool dup = rn(4) == 0; M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_stmt_prepare(s, "INSERT INTO led (tx, n) VALUES (?, ?)"); for (int i = 0; i < n; i++) { if (i) M_sql_stmt_bind_new_row(s); M_sql_stmt_bind_int64(s, x.tx); M_sql_stmt_bind_int64(s, dup && i == n - 1 ? 0 : i); } M_sql_error_t e = M_sql_stmt_execute(pool, s); x.rows = n; x.ok = e == M_SQL_ERROR_SUCCESS; x.how = "rows"; if (dup && x.ok) vh_viol("rows:constraint", "duplicate key accepted"); if (!x.ok && M_sql_error_is_rollback(e)) vh_viol("rows:retry", "gave up with %s", M_sql_error_string(e)); M_sql_stmt_destroy(s); vh_count("multirow", 1); break; }
			case 4: { M_sql_trans_t *tr = NULL; M_sql_error_t e = M_sql_trans_begin(&tr, pool, M_SQL_ISOLATION_SERIALIZABLE, err, sizeof err); x.rows = 3; x.how = "manual"; if (M_sql_error_is_error(e)) { if (tr) vh_viol("begin:handle", "failed begin returned a transaction"); break; }
				bool bad = false; for (int i = 0; i < 3; i++) { e = run1(tr, "INSERT INTO led (tx, n) VALUES (?, ?)", { x.tx, i }, NULL); if (M_sql_error_is_error(e)) { bad = true; if (M_sql_error_is_rollback(e) && rn(2)) { /* using it further has to be refused */ if (run1(tr, "INSERT INTO led (tx, n) VALUES (?, ?)", { x.tx, 77 }, NULL) != M_SQL_ERROR_QUERY_DEADLOCK) vh_viol("manual:use", "statement accepted after %s", M_sql_error_string(e)); } break; } }
				if (bad && !M_sql_error_is_rollback(e)) { M_sql_trans_rollback(tr); break; }
				if (rn(4) == 0) { M_sql_trans_rollback(tr); vh_count("rollbacks", 1); break; }
				M_sql_error_t ce = M_sql_trans_commit(tr, err, sizeof err); if (bad && !M_sql_error_is_error(ce)) vh_viol("manual:commit", "commit succeeded after %s", M_sql_error_string(e)); if (bad && M_sql_error_is_disconnect(e) != M_sql_error_is_disconnect(ce)) vh_viol("manual:error", "commit after %s gives %s", M_sql_error_string(e), M_sql_error_string(ce)); x.ok = ce == M_SQL_ERROR_SUCCESS; if (bad) vh_count("forced_rollbacks", 1); break; }
			case 5: { M_sql_stmt_t *s = M_sql_stmt_groupinsert_prepare(pool, "INSERT INTO led (tx, n) VALUES (?, ?)"); M_sql_stmt_bind_int64(s, x.tx); M_sql_stmt_bind_int64(s, 0); M_sql_error_t e = M_sql_stmt_execute(pool, s); x.rows = 1; x.ok = e == M_SQL_ERROR_SUCCESS; x.how = "group"; if (!x.ok && M_sql_error_is_rollback(e)) vh_viol("group:retry", "gave up with %s", M_sql_error_string(e)); M_sql_stmt_destroy(s); vh_count(x.ok ? "group_inserts" : "group_failures", 1); break; }
			case 6: { int64_t sum = 0; M_sql_error_t e = get1(NULL, "SELECT SUM(bal) FROM acc", {}, &sum); if (e == M_SQL_ERROR_SUCCESS) { if (sum != ACC * START) vh_viol("sum", "balances sum up to %lld", (long long)sum); vh_count("sums", 1); } break; }
			default: { M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_stmt_prepare(s, "SELECT tx, n FROM led ORDER BY tx, n"); M_sql_stmt_set_max_fetch_rows(s, 1 + rn(4)); if (rn(2)) M_sql_stmt_set_master_only(s); M_sql_error_t e = M_sql_stmt_execute(pool, s); int64_t lt = -1, ln = -1; int lim = (int)rn(30); while (e == M_SQL_ERROR_SUCCESS_ROW && lim-- > 0) { e = M_sql_stmt_fetch(s); for (size_t i = 0; i < M_sql_stmt_result_num_rows(s) && !M_sql_error_is_error(e); i++) { int64_t t = M_sql_stmt_result_int64_direct(s, i, 0), n = M_sql_stmt_result_int64_direct(s, i, 1); if (t < lt || (t == lt && n <= ln)) vh_viol("read:order", "row %lld/%lld after %lld/%lld", (long long)t, (long long)n, (long long)lt, (long long)ln); lt = t; ln = n; } } M_sql_stmt_destroy(s); vh_count("reads", 1); break; }
		}
		if (x.rows) w->exp.push_back(x);
	}
	return NULL;
}
static void trans(void)
{
	me = 0; inject = 0; S path = S(vh_tmpdir()) + "/q01_" + std::to_string(vh_case) + ".db"; for (auto x : { "", "-wal", "-shm", "-journal" }) unlink((path + x).c_str());
	{ std::lock_guard<std::mutex> l(mu); conns.clear(); n_rw = n_ro = peak = 0; }
	static const VS jm = { "WAL", "DELETE", "MEMORY" }; S cs = "path=" + path + ";journal_mode=" + vh_pick(jm) + ";analyze=no;shared_cache=" + (vh_chance(20) ? "yes" : "no"); char err[300];
	max_rw = 1 + vh_rndn(4); max_ro = vh_chance(40) ? 1 + vh_rndn(2) : 0; pflags = vh_chance(25) ? M_SQL_CONNPOOL_FLAG_PRESPAWN_ALL : 0;
	M_sql_error_t e = M_sql_connpool_create(&pool, "sqlite", cs.c_str(), NULL, NULL, max_rw, pflags, err, sizeof err); VH_CHECK(e == M_SQL_ERROR_SUCCESS, "create", "%s", err);
	if (max_ro) VH_CHECK(M_sql_connpool_add_readonly_pool(pool, cs.c_str(), max_ro, err, sizeof err) == M_SQL_ERROR_SUCCESS, "create", "%s", err);
	e = M_sql_connpool_start(pool, err, sizeof err); VH_CHECK(e == M_SQL_ERROR_SUCCESS, "start", "%s", err); VH_CHECK(M_sql_connpool_start(pool, err, sizeof err) == M_SQL_ERROR_INVALID_USE, "start:twice", "accepted");
	VH_CHECK(M_sql_connpool_active_conns(pool, M_FALSE) == (pflags ? max_rw : 1) && M_sql_connpool_active_conns(pool, M_TRUE) == (max_ro ? (pflags ? max_ro : 1) : 0), "start:conns", "%zu connections", M_sql_connpool_active_conns(pool, M_FALSE));
	run1(NULL, "CREATE TABLE acc (id INTEGER PRIMARY KEY, bal INTEGER)", {}, NULL); run1(NULL, "CREATE TABLE led (tx INTEGER, n INTEGER, PRIMARY KEY (tx, n))", {}, NULL); for (int64_t i = 0; i < ACC; i++) run1(NULL, "INSERT INTO acc (id, bal) VALUES (?, ?)", { i, START }, NULL);
	case_seed = vh_rnd(); next_tx = 1; inject = vh_chance(25) ? 0 : vh_chance(60) ? 20 : 80; int nt = 2 + (int)vh_rndn(5); std::vector<Worker> ws((size_t)nt); for (int i = 0; i < nt; i++) { ws[(size_t)i].id = (uint64_t)i + 1; ws[(size_t)i].nops = 3 + (int)vh_rndn(8); }
	for (auto &w : ws) pthread_create(&w.t, NULL, worker, &w); for (auto &w : ws) pthread_join(w.t, NULL); inject = 0;
	VH_CHECK(M_sql_connpool_active_conns(pool, M_FALSE) <= max_rw && M_sql_connpool_active_conns(pool, M_TRUE) <= max_ro, "pool:limit", "%zu connections", M_sql_connpool_active_conns(pool, M_FALSE));
	{ std::lock_guard<std::mutex> l(mu); for (auto &c : conns) VH_CHECK(!c.second.trans && !c.second.lost && !c.second.busy, "pool:returned", "connection left %s", c.second.trans ? "in a transaction" : "lost"); }
	e = M_sql_connpool_destroy(pool); VH_CHECK(e == M_SQL_ERROR_SUCCESS, "destroy", "%s", M_sql_error_string(e)); { std::lock_guard<std::mutex> l(mu); VH_CHECK(conns.empty(), "pool:leak", "%zu connections left open", conns.size()); }
	/* the database against what the callers were told */
	sqlite3 *raw; sqlite3_open(path.c_str(), &raw); std::map<int64_t, int> rows; sqlite3_stmt *ss = NULL; sqlite3_prepare_v2(raw, "SELECT tx, COUNT(*) FROM led GROUP BY tx", -1, &ss, NULL); while (sqlite3_step(ss) == SQLITE_ROW) rows[sqlite3_column_int64(ss, 0)] = sqlite3_column_int(ss, 1); sqlite3_finalize(ss);
	sqlite3_prepare_v2(raw, "SELECT SUM(bal) FROM acc", -1, &ss, NULL); int64_t sum = sqlite3_step(ss) == SQLITE_ROW ? sqlite3_column_int64(ss, 0) : -1; sqlite3_finalize(ss); sqlite3_close(raw); for (auto x : { "", "-wal", "-shm", "-journal" }) unlink((path + x).c_str());
	VH_CHECK(sum == ACC * START, "sum", "balances sum up to %lld at the end", (long long)sum); size_t nok = 0, nexp = 0;
	for (auto &w : ws) for (auto &x : w.exp) { int have = rows.count(x.tx) ? rows[x.tx] : 0; nexp++; nok += x.ok; VH_CHECK(have == (x.ok ? x.rows : 0), x.ok ? (S("lost:") + x.how).c_str() : (S("kept:") + x.how).c_str(), "transaction %lld (%s) reported %s has %d of %d rows", (long long)x.tx, x.how.c_str(), x.ok ? "success" : "failure", have, x.rows); rows.erase(x.tx); }
	VH_CHECK(rows.empty(), "extra", "%zu unknown transactions", rows.size()); vh_count("transactions", nexp); vh_count("succeeded", nok); vh_count("driver_calls", n_calls.exchange(0)); vh_count("injected", n_inj.exchange(0)); vh_count("lost_connections", n_lost.exchange(0)); vh_count("deadlocks", n_dead.exchange(0)); vh_count("connections", n_conn.exchange(0)); if (peak == max_rw) vh_count("full_pools", 1); vh_sample("%d threads, %zu connections, %zu transactions, %zu succeeded", nt, max_rw, nexp, nok); vh_distinct(vh_hash(&sum, sizeof sum, nok * 1000 + nexp));
}
static void setup(void) { sq_hook = hook; }
const vh_mode_t vh_modes[] = { { "trans", trans, setup, NULL }, {} };
