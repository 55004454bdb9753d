#include <poll.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <netinet/in.h>
/* I01/I04: byte streams between endpoints on event loops and pools; every byte and every lifecycle event is monitored. */
#define CHAOS_WRAP
#include "chaos.hpp"
#include "wrapnet.hpp"
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/mstdlib_io.h>
#include <dirent.h>
#include <sys/socket.h>
static void init() { signal(SIGPIPE, SIG_DFL); M_thread_init(M_THREAD_MODEL_NATIVE); ch_watch(); }
static void fini() { ch_pct = 0; ch_flush(); M_library_cleanup(); }
static std::atomic<uint64_t> N_bytes, N_ev[8], N_block, N_partial, N_rd, N_acc, N_disc, N_err, N_abort, N_trace, N_graceful, N_timer, N_ports, N_recon, N_late, N_held, N_reset;
static void flush_counts() { static const char *EN[8] = { "ev_connected", "ev_accept", "ev_read", "ev_disconnected", "ev_error", "ev_write", "ev_other", "" };
	for (int i = 0; i < 7; i++) vh_count(EN[i], N_ev[i].exchange(0));
if (N_held.load()) vh_known("held:disconnect", "data an inbound latency or throttle of a bandwidth shaping layer was still holding back when the peer disconnected is never delivered"); N_held = 0;
#define F(n, v) vh_count(n, v.exchange(0))
	F("bytes_checked", N_bytes); F("reset_by_holding_peer", N_reset); F("would_block", N_block); F("partial_writes", N_partial); F("reads", N_rd); F("accepted", N_acc); F("disconnected", N_disc); F("errors", N_err); F("aborted", N_abort); F("traced_bytes", N_trace); F("graceful_closes", N_graceful); F("delayed_reads", N_timer); F("ports_matched", N_ports); F("reconnects", N_recon); F("bytes_read_at_disconnect", N_late);
#undef F
}
static int count_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
enum { T_TCP, T_PIPE, T_LOOP, T_REFUSED };
enum { K_SAFE, K_EAGER, K_ABORT, K_EARLY, K_CLOSE };
enum { R_ONCE, R_ALL, R_BUF, R_PARSER, R_LATER };
enum { W_ALL, W_ONCE, W_BUF };
enum { ST_INIT, ST_UP, ST_TERM, ST_GONE };
struct Conn; struct World;
struct End { Conn *c = NULL; const char *nm = ""; std::atomic<M_io_t *> io{NULL}; S tx; const S *rx = NULL; S rxown; std::atomic<size_t> sent{0}, rcvd{0}; int rpol = 0, wpol = 0, st = ST_INIT; std::atomic<bool> closing{false}; bool pend_timer = false, holds = false, aborter = false, wrbuf = false; size_t abort_at = 0; End *peer = NULL; vh_trng rng; M_event_t *ev = NULL; M_threadid_t th = 0; uint64_t tr_r = 0, tr_w = 0; bool traced = false; bool rd_disc = false; int chunk = 1; int recon = 0; std::atomic<int> gone{0}; };
struct Conn { World *w; int n, type, kill; int rfd = -1; bool client_closes = false; End e[2]; int nends = 2; std::atomic<M_io_t *> listener{NULL}; std::atomic<int> left{0}; std::atomic<bool> listener_up{false}; unsigned short port = 0; S desc; bool finished = false; };
struct World { M_event_t *ev = NULL; M_dns_t *dns = NULL; bool pool = false; std::atomic<int> conns{0}; std::vector<Conn *> c; bool empty = false; std::atomic<bool> stop{false}; };
static S st_of(End *e) { return vh_fmt("%s[%s]: state %d sent %zu/%zu received %zu/%zu closing %d read policy %d write policy %d chunk %d%s", e->c->desc.c_str(), e->nm, e->st, e->sent.load(), e->tx.size(), e->rcvd.load(), e->rx ? e->rx->size() : 0, (int)e->closing, e->rpol, e->wpol, e->chunk, e->aborter ? " (aborts)" : ""); }
static void cb_end(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg);
static void conn_done(Conn *c) { World *w = c->w; if (!w->pool && c->listener) { M_io_t *l = c->listener.exchange(NULL); M_io_destroy(l); } if (--w->conns == 0) { w->stop = true; if (!w->empty) M_event_done(w->ev); } }
static void end_gone(End *e) { e->gone = 1; if (--e->c->left == 0) conn_done(e->c); }
static void destroy_end(End *e) { e->st = ST_GONE; M_io_t *io = e->io; e->io = NULL; M_io_destroy(io); end_gone(e); }
static bool all_rx(End *e) { return !e->rx || e->rcvd >= e->rx->size(); }
static bool all_tx(End *e) { return e->sent >= e->tx.size(); }
static void take(End *e, const unsigned char *p, size_t n) { if (!n) return; N_bytes += n; ch_tick();
	if (!e->rx || e->rcvd + n > e->rx->size()) { vh_viol("data:extra", "%s: %zu bytes more than were sent", st_of(e).c_str(), n); return; }
	if (memcmp(p, e->rx->data() + e->rcvd, n)) { size_t k = 0; while (p[k] == (unsigned char)(*e->rx)[e->rcvd + k]) k++; vh_viol("data:differ", "%s: byte %zu of the stream differs from what was sent (got %02x, sent %02x)", st_of(e).c_str(), e->rcvd + k, p[k], (unsigned char)(*e->rx)[e->rcvd + k]); }
	e->rcvd += n; if (e->peer && e->rcvd > e->peer->sent) { /* the writer publishes after the call returns */ if (e->rcvd > e->peer->tx.size()) vh_viol("data:extra", "%s: received beyond the sent data", st_of(e).c_str()); } }
static void rd_result(End *e, M_io_error_t r, size_t len) { if (r == M_IO_ERROR_WOULDBLOCK) { N_block++; if (len) vh_viol("read:count", "%s: would-block with %zu bytes", st_of(e).c_str(), len); }
	else if (r == M_IO_ERROR_DISCONNECT) { e->rd_disc = true; } }
static bool graceful(Conn *c) { return c->kill == K_SAFE || c->kill == K_EAGER; }
static M_io_error_t rd_one(End *e, size_t cap) { unsigned char *b = (unsigned char *)malloc(cap); size_t n = 12345; M_io_error_t r = M_io_read(e->io, b, cap, &n); N_rd++; if (r == M_IO_ERROR_SUCCESS) { if (n == 0 || n > cap) vh_viol("read:count", "%s: read of %zu returned success with length %zu", st_of(e).c_str(), cap, n); else take(e, b, n); } else rd_result(e, r, n); free(b); return r; }
static size_t rcap(End *e) { switch (vh_tr(&e->rng) % 4) { case 0: return 1 + vh_tr(&e->rng) % 16; case 1: return 1 + vh_tr(&e->rng) % 700; case 2: return 1 + vh_tr(&e->rng) % 5000; default: return 1 + vh_tr(&e->rng) % 40000; } }
static void do_read(End *e, int pol) { if (!e->io.load() || e->st != ST_UP) return;
	switch (pol) {
	case R_ONCE: { size_t n = e->rx && e->rx->size() > 20000 ? 500 + rcap(e) : rcap(e); rd_one(e, n); break; }
	case R_BUF: { M_buf_t *b = M_buf_create(); M_io_error_t r = M_io_read_into_buf(e->io, b); N_rd++; if (r == M_IO_ERROR_SUCCESS) { if (!M_buf_len(b)) vh_viol("read:count", "%s: read into a buffer succeeded with nothing", st_of(e).c_str()); take(e, (const unsigned char *)M_buf_peek(b), M_buf_len(b)); } else rd_result(e, r, M_buf_len(b)); M_buf_cancel(b); break; }
	case R_PARSER: { M_parser_t *b = M_parser_create(M_PARSER_FLAG_NONE); M_io_error_t r = M_io_read_into_parser(e->io, b); N_rd++; if (r == M_IO_ERROR_SUCCESS) { take(e, M_parser_peek(b), M_parser_len(b)); } else rd_result(e, r, M_parser_len(b)); M_parser_destroy(b); break; }
	default: { for (int i = 0; i < 100000; i++) if (rd_one(e, rcap(e)) != M_IO_ERROR_SUCCESS) break; } } }
static bool step(End *e);
static void later_cb(M_event_t *, M_event_type_t, M_io_t *, void *arg) { End *e = (End *)arg; e->pend_timer = false; if (e->st != ST_UP) return; N_timer++; do_read(e, R_ALL); step(e); }
static void close_now(End *e) { if (e->closing || e->st != ST_UP) return; e->closing = true; ch_tick();
	if (e->c->kill == K_CLOSE) { M_io_close(e->io); destroy_end(e); return; } N_graceful++; M_io_disconnect(e->io); }
/* returns false when the endpoint is gone */
static bool step(End *e) { Conn *c = e->c; if (e->st != ST_UP) return e->st != ST_GONE;
	bool closer = (e == &c->e[0]) == c->client_closes;
	if (e->aborter && e->sent + e->rcvd >= e->abort_at) { N_abort++; if (c->kill == K_ABORT) { destroy_end(e); return false; } close_now(e); return e->st != ST_GONE; }
	if (!closer || e->closing) return true;
	if (c->kill == K_SAFE || c->kill == K_CLOSE) { if (all_tx(e) && all_rx(e) && (!e->peer || all_rx(e->peer))) close_now(e); }
	else if (c->kill == K_EAGER && all_tx(e) && all_rx(e)) close_now(e);
	return e->st != ST_GONE; }
static void do_write(End *e, bool) { if (e->closing) return; for (int i = 0; i < 1000000 && e->st == ST_UP && e->sent < e->tx.size(); i++) { size_t left = e->tx.size() - e->sent; size_t n = e->chunk == 0 ? left : 1 + vh_tr(&e->rng) % (e->chunk == 1 ? 60 : e->chunk == 2 ? 3000 : 50000); if (e->tx.size() > 20000 && n < 64) n += 200; if (n > left) n = left; size_t w = 54321; M_io_error_t r;
		if (e->wpol == W_BUF) { M_buf_t *b = M_buf_create(); M_buf_add_bytes(b, e->tx.data() + e->sent, n); r = M_io_write_from_buf(e->io, b); w = n - M_buf_len(b); if (r != M_IO_ERROR_SUCCESS && w) vh_viol("write:count", "%s: a failed write took %zu bytes out of the buffer", st_of(e).c_str(), w); M_buf_cancel(b); }
		else { char *h = (char *)malloc(n); memcpy(h, e->tx.data() + e->sent, n); r = M_io_write(e->io, (unsigned char *)h, n, &w); memset(h, 0xEE, n); free(h); }
		if (r == M_IO_ERROR_SUCCESS) { if (w == 0 || w > n) { vh_viol("write:count", "%s: a write of %zu bytes returned success with %zu written", st_of(e).c_str(), n, w); return; } e->sent += w; ch_tick(); if (w < n) { N_partial++; break; } if (e->wpol == W_ONCE) break; }
		else { if (r == M_IO_ERROR_WOULDBLOCK) N_block++; if (e->wpol != W_BUF && w != 0) vh_viol("write:count", "%s: a write that returned error %d reports %zu bytes written", st_of(e).c_str(), (int)r, w); break; } } }
static void tick_cb(M_event_t *, M_event_type_t, M_io_t *, void *arg) { End *e = (End *)arg; e->pend_timer = false; if (e->st == ST_UP) step(e); if (e->st == ST_UP && !e->closing && !e->pend_timer && e->ev) { e->pend_timer = true; M_event_timer_oneshot(e->ev, 3, M_TRUE, tick_cb, e); } }
static void cb_end(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg) { End *e = (End *)arg; Conn *c = e->c; if ((int)type < 7) N_ev[(int)type]++; ch_tick(); M_io_t *mine = e->io;
	if (e->st == ST_GONE) { vh_viol("event:after_destroy", "%s: event %s after it was destroyed", st_of(e).c_str(), M_event_type_string(type)); return; }
	if (mine != NULL && io != mine) vh_viol("event:io", "%s: the callback was given another io object", st_of(e).c_str());
	if (M_io_get_event(io) != ev) vh_viol("event:loop", "%s: called from a loop that is not the object's", st_of(e).c_str());
	if (e->ev == NULL) { e->ev = ev; e->th = M_thread_self(); } else { if (e->ev != ev || (!c->w->pool && e->th != M_thread_self())) vh_viol("event:moved", "%s: the object moved to another loop or thread", st_of(e).c_str()); }
	if (e->st == ST_TERM) { vh_viol("event:after_terminal", "%s: event %s after the terminal event", st_of(e).c_str(), M_event_type_string(type)); return; }
	switch (type) {
	case M_EVENT_TYPE_CONNECTED: if (e->st != ST_INIT) { vh_viol("event:connected_twice", "%s: connected again", st_of(e).c_str()); return; } if (c->type == T_REFUSED) vh_viol("event:refused", "connected to a port nobody listens on"); e->st = ST_UP; if (M_io_get_state(io) != M_IO_STATE_CONNECTED) vh_viol("state", "%s: state %d in the connected event", st_of(e).c_str(), (int)M_io_get_state(io));
		do_write(e, true); if (!step(e)) return; if (!e->pend_timer && (e->aborter || c->kill == K_SAFE || c->kill == K_CLOSE)) { e->pend_timer = true; M_event_timer_oneshot(ev, 3, M_TRUE, tick_cb, e); } break;
	case M_EVENT_TYPE_READ: if (e->st != ST_UP) { vh_viol("event:before_connected", "%s: read event before connected", st_of(e).c_str()); return; } if (!e->rx && c->type == T_PIPE) { /* a writer has nothing to read */ break; }
		if (e->closing) break;
		if (e->rpol == R_LATER) { if (!e->pend_timer) { e->pend_timer = true; M_event_timer_oneshot(ev, vh_tr(&e->rng) % 3, M_TRUE, later_cb, e); } else { do_read(e, R_ALL); } } else do_read(e, e->rpol);
		if (!step(e)) return; break;
	case M_EVENT_TYPE_WRITE: if (e->st != ST_UP) { vh_viol("event:before_connected", "%s: write event before connected", st_of(e).c_str()); return; } do_write(e, false); if (!step(e)) return; break;
	case M_EVENT_TYPE_DISCONNECTED: case M_EVENT_TYPE_ERROR: { bool err = type == M_EVENT_TYPE_ERROR; if (err) N_err++; else N_disc++;
		if (c->type == T_REFUSED) { if (!err) vh_viol("event:refused", "a refused connect ended with %s", M_event_type_string(type)); else if (M_io_get_error(io) != M_IO_ERROR_CONNREFUSED) vh_viol("event:refused", "a refused connect reports error %d", (int)M_io_get_error(io)); e->st = ST_TERM; destroy_end(e); return; }
		if (e->st == ST_INIT && !(c->kill == K_ABORT || c->kill == K_EARLY)) vh_viol("event:before_connected", "%s: %s before connected", st_of(e).c_str(), M_event_type_string(type));
		if (!e->closing && e->rx && !all_rx(e) && !err) { size_t before = e->rcvd; for (int i = 0; i < 100000; i++) if (rd_one(e, rcap(e)) != M_IO_ERROR_SUCCESS) break; N_late += e->rcvd - before; }
		if (graceful(c)) { bool pipe_reader_closed = c->type == T_PIPE && !c->client_closes && e == &c->e[0]; if (err && e->peer && e->peer->holds) N_reset++; else if (err && !pipe_reader_closed) { char m[256] = { 0 }; M_io_get_error_string(io, m, sizeof m); vh_viol("event:error", "%s: error (%d %s) on a connection that was closed gracefully", st_of(e).c_str(), (int)M_io_get_error(io), m); }
			else if (!e->closing && e->rx && !all_rx(e) && e->holds) N_held++; else if (!e->closing && e->rx && !all_rx(e)) vh_viol("data:lost", "%s: disconnected before everything the peer sent was delivered", st_of(e).c_str()); if (!e->closing && e->peer && !e->peer->closing && c->type != T_PIPE) vh_viol("event:spurious", "%s: terminal event although nobody closed", st_of(e).c_str()); }
		M_io_state_t s = M_io_get_state(io); if (s == M_IO_STATE_CONNECTED && c->type != T_LOOP && c->type != T_PIPE) vh_viol("state", "%s: state is still connected in the terminal event", st_of(e).c_str());
		if (e->closing && !M_io_is_user_initiated_disconnect(io)) vh_viol("state", "%s: the disconnect was asked for but is not reported as user initiated", st_of(e).c_str());
		if (!e->closing && M_io_is_user_initiated_disconnect(io)) vh_viol("state", "%s: reported as user initiated although the peer closed", st_of(e).c_str());
		if (e->traced && !e->aborter && e->tr_r < e->rcvd) vh_viol("trace", "%s: the trace below saw %llu bytes, %zu were delivered", st_of(e).c_str(), (unsigned long long)e->tr_r, e->rcvd.load());
		e->st = ST_TERM; if (vh_tr(&e->rng) % 3 == 0) { unsigned char b[64]; size_t n = 0; if (M_io_read(io, b, sizeof b, &n) == M_IO_ERROR_SUCCESS && !e->closing && graceful(c)) take(e, b, n); size_t w = 0; if (c->type == T_TCP && M_io_write(io, b, 1, &w) == M_IO_ERROR_SUCCESS && c->type == T_TCP && !e->wrbuf) vh_viol("write:after_terminal", "%s: a write after the terminal event succeeded", st_of(e).c_str()); }
		destroy_end(e); return; }
	default: break; } }
static void trace_cb(void *arg, M_io_trace_type_t t, M_event_type_t, const unsigned char *, size_t n) { End *e = (End *)arg; if (t == M_IO_TRACE_TYPE_READ) e->tr_r += n; else if (t == M_IO_TRACE_TYPE_WRITE) e->tr_w += n; N_trace += n; }
static S add_layers(End *e, M_io_t *io, vh_trng *r, bool eager_ok) { S d; int n = (int)(vh_tr(r) % 4); for (int i = 0; i < n; i++) { size_t id = 999; size_t cnt = M_io_layer_count(io); M_io_error_t rc = M_IO_ERROR_SUCCESS; switch (vh_tr(r) % 3) {
		case 0: rc = M_io_add_trace(io, &id, trace_cb, e, NULL, NULL); d += "+trace"; e->traced = i == 0; break;
		case 1: { size_t rb = vh_tr(r) % 4 ? 1 + vh_tr(r) % 40000 : 0, wb = !eager_ok && vh_tr(r) % 4 ? 1 + vh_tr(r) % 40000 : 0; rc = M_io_add_buffer(io, &id, rb, wb); if (wb) e->wrbuf = true; d += vh_fmt("+buffer(%zu,%zu)", rb, wb); break; }
		default: rc = M_io_add_bwshaping(io, &id); d += "+shape"; if (vh_tr(r) % 2) { M_uint64 bps = 4000000 + vh_tr(r) % 8000000; M_io_bwshaping_direction_t dir = vh_tr(r) % 2 ? M_IO_BWSHAPING_DIRECTION_IN : M_IO_BWSHAPING_DIRECTION_OUT; if (dir == M_IO_BWSHAPING_DIRECTION_OUT && eager_ok) break; if (dir == M_IO_BWSHAPING_DIRECTION_IN) e->holds = true; M_io_bwshaping_set_throttle(io, id, dir, bps); if (vh_tr(r) % 2) M_io_bwshaping_set_throttle_mode(io, id, dir, M_IO_BWSHAPING_MODE_TRICKLE); d += vh_fmt("(%s %llu)", dir == M_IO_BWSHAPING_DIRECTION_IN ? "in" : "out", (unsigned long long)bps); } if (vh_tr(r) % 3 == 0) { M_io_bwshaping_direction_t dir = vh_tr(r) % 2 ? M_IO_BWSHAPING_DIRECTION_IN : M_IO_BWSHAPING_DIRECTION_OUT; if (dir == M_IO_BWSHAPING_DIRECTION_OUT && eager_ok) break; if (dir == M_IO_BWSHAPING_DIRECTION_IN) e->holds = true; M_io_bwshaping_set_latency(io, id, dir, 1 + vh_tr(r) % 8); d += dir == M_IO_BWSHAPING_DIRECTION_IN ? "(lat in)" : "(lat out)"; } break; }
		if (rc != M_IO_ERROR_SUCCESS || id != cnt || M_io_layer_count(io) != cnt + 1) vh_viol("layer", "adding a layer: result %d id %zu of %zu", (int)rc, id, cnt); } return d; }
static M_event_t *where(World *w, M_event_t *ev, vh_trng *r) { if (!w->pool) return ev; return vh_tr(r) % 2 ? w->ev : M_event_get_pool(ev); }
static void cb_listen(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg) { Conn *c = (Conn *)arg; if ((int)type < 7) N_ev[(int)type]++; ch_tick();
	if (type == M_EVENT_TYPE_CONNECTED || type == M_EVENT_TYPE_ERROR || type == M_EVENT_TYPE_READ || type == M_EVENT_TYPE_WRITE) { vh_viol("listener:event", "%s: a listener got event %s", c->desc.c_str(), M_event_type_string(type)); return; }
	if (type != M_EVENT_TYPE_ACCEPT) return; M_io_t *n = NULL; M_io_error_t r = M_io_accept(&n, io); if (r == M_IO_ERROR_WOULDBLOCK) { N_block++; if (n) vh_viol("accept", "would-block with an object"); return; } if (r != M_IO_ERROR_SUCCESS) { vh_viol("accept", "%s: accept failed with %d", c->desc.c_str(), (int)r); return; }
	End *e = &c->e[1]; N_acc++; if (e->io.load() != NULL || e->gone) { vh_viol("accept", "%s: a second connection was accepted, one client connected", c->desc.c_str()); M_io_destroy(n); return; } e->io = n; if (M_io_get_state(n) != M_IO_STATE_CONNECTED) vh_viol("accept", "an accepted stream is not connected");
	vh_trng lr = e->rng; if (M_io_layer_count(n) == 1) add_layers(e, n, &lr, c->kill == K_EAGER && !c->client_closes); if (M_io_net_get_port(n) != c->port) vh_viol("ports", "the accepted stream's port is %u, the listener's %u", M_io_net_get_port(n), c->port); const char *ip = M_io_net_get_ipaddr(n); if (!M_str_eq(ip, "127.0.0.1") && !M_str_eq(ip, "::1")) vh_viol("ports", "the accepted stream's peer address is %s", ip ? ip : "(null)");
	M_io_t *cl = c->e[0].io; if (!c->w->pool && cl && c->e[0].st == ST_UP) { unsigned short a = M_io_net_get_ephemeral_port(n), b = M_io_net_get_ephemeral_port(cl); N_ports++; if (a != b) vh_viol("ports", "the client's ephemeral port is %u, the server sees %u", b, a); }
	if (!M_event_add(where(c->w, ev, &lr), n, cb_end, e)) vh_viol("add", "could not add an accepted stream"); }
static M_io_t *add_io(World *w, M_io_t *io, M_event_callback_t cb, void *a) { if (!M_event_add(w->ev, io, cb, a)) vh_viol("add", "M_event_add failed"); return io; }
static bool g_life = false;
static void mk_conn(World *w, int n, size_t scale) { Conn *c = new Conn; c->w = w; c->n = n; w->c.push_back(c); c->e[0].c = c->e[1].c = c; int t = (int)vh_rndn(10); c->type = w->empty ? (t < 7 ? T_PIPE : T_LOOP) : t < 6 ? T_TCP : t < 8 ? T_PIPE : t < 9 ? T_LOOP : T_REFUSED; t = (int)vh_rndn(10); c->kill = g_life ? (t < 2 ? K_SAFE : t < 4 ? K_EAGER : t < 6 ? K_ABORT : t < 8 ? K_EARLY : K_CLOSE) : t < 5 ? K_SAFE : t < 7 ? K_EAGER : t < 8 ? K_ABORT : t < 9 ? K_EARLY : K_CLOSE; c->client_closes = vh_chance(50);
	if (c->type == T_LOOP) { c->nends = 1; c->client_closes = true; if (c->kill == K_EAGER) c->kill = K_SAFE; } if (c->type == T_PIPE) { c->client_closes = c->kill == K_EAGER ? true : vh_chance(60); }
	static const char *TN[] = { "tcp", "pipe", "loopback", "refused" }, *KN[] = { "safe", "eager", "abort", "early", "close" }; c->desc = vh_fmt("conn %d %s/%s by %s", n, TN[c->type], KN[c->kill], c->client_closes ? "client" : "server"); c->e[0].nm = "client"; c->e[1].nm = "server";
	for (int i = 0; i < c->nends; i++) { End *e = &c->e[i]; e->rng.s = vh_rnd(); e->peer = c->nends == 2 ? &c->e[1 - i] : NULL; e->rpol = (int)vh_rndn(5); e->wpol = (int)vh_rndn(3); e->chunk = (int)vh_rndn(4); size_t len = vh_chance(10) ? 0 : vh_chance(50) ? vh_rndn(2000) : vh_rndn(scale); bool tx = true; if (c->type == T_PIPE && i == 1) tx = false; if (c->type == T_REFUSED) len = 0; if (c->kill == K_EAGER && (i == 0) != c->client_closes) tx = false; if (tx) e->tx = vh_bytes(len); }
	if (c->kill == K_EAGER || c->type == T_REFUSED) for (int i = 0; i < 2; i++) if (c->e[i].rpol == R_LATER) c->e[i].rpol = R_ALL;
	for (int i = 0; i < c->nends; i++) { End *e = &c->e[i]; if (c->nends == 1) { e->rxown = e->tx; e->rx = &e->rxown; } else if (!(c->type == T_PIPE && i == 0)) e->rx = &c->e[1 - i].tx; }
	if (c->kill == K_ABORT || c->kill == K_EARLY) { End *e = &c->e[c->nends == 1 ? 0 : c->client_closes ? 0 : 1]; e->aborter = true; size_t tot = e->tx.size() + (e->rx ? e->rx->size() : 0); e->abort_at = vh_rndn(tot + 1); }
	c->left = c->type == T_REFUSED ? 1 : c->nends; w->conns++;
	M_io_t *a = NULL, *b = NULL; M_io_error_t rc; vh_trng lr; lr.s = vh_rnd(); bool eag = c->kill == K_EAGER;
	switch (c->type) {
	case T_TCP: case T_REFUSED: { bool v6 = vh_chance(30); static int no6 = -1; M_io_t *lis = NULL; if (no6 < 0) { M_io_t *x = NULL; no6 = M_io_net_server_create(&x, 0, "::1", M_IO_NET_IPV6) != M_IO_ERROR_SUCCESS; M_io_destroy(x); } if (no6) v6 = false;
		rc = M_io_net_server_create(&lis, 0, v6 ? "::1" : vh_chance(50) ? "127.0.0.1" : NULL, v6 ? M_IO_NET_IPV6 : vh_chance(50) ? M_IO_NET_IPV4 : M_IO_NET_ANY); if (rc != M_IO_ERROR_SUCCESS) { vh_viol("listen", "listening failed: %d", (int)rc); return; } c->listener = lis; c->port = M_io_net_get_port(lis); if (!c->port) { vh_viol("listen", "no port"); return; }
		if (c->type == T_REFUSED) { M_io_destroy(c->listener); c->listener = NULL; c->rfd = socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_storage sa; memset(&sa, 0, sizeof sa); socklen_t sl; if (v6) { struct sockaddr_in6 *a6 = (struct sockaddr_in6 *)&sa; a6->sin6_family = AF_INET6; a6->sin6_addr = in6addr_loopback; sl = sizeof *a6; } else { struct sockaddr_in *a4 = (struct sockaddr_in *)&sa; a4->sin_family = AF_INET; a4->sin_addr.s_addr = htonl(INADDR_LOOPBACK); sl = sizeof *a4; } if (bind(c->rfd, (struct sockaddr *)&sa, sl) == 0 && getsockname(c->rfd, (struct sockaddr *)&sa, &sl) == 0) c->port = ntohs(((struct sockaddr_in *)&sa)->sin_port); } else { if (vh_chance(30)) c->desc += " srv" + add_layers(&c->e[1], c->listener, &lr, eag && !c->client_closes); add_io(w, c->listener, cb_listen, c); }
		rc = M_io_net_client_create(&a, w->dns, v6 ? "::1" : "127.0.0.1", c->port, v6 && vh_chance(50) ? M_IO_NET_IPV6 : M_IO_NET_ANY); if (rc != M_IO_ERROR_SUCCESS) { vh_viol("client", "client creation failed: %d", (int)rc); return; } if (vh_chance(20)) M_io_net_set_nagle(a, M_FALSE); c->desc += " cli" + add_layers(&c->e[0], a, &lr, eag && c->client_closes); break; }
	case T_PIPE: rc = M_io_pipe_create(M_IO_PIPE_NONE, &b, &a); if (rc != M_IO_ERROR_SUCCESS) { vh_viol("pipe", "pipe creation failed: %d", (int)rc); return; } c->desc += " wr" + add_layers(&c->e[0], a, &lr, true); c->desc += " rd" + add_layers(&c->e[1], b, &lr, false); break;
	default: rc = M_io_loopback_create(&a); if (rc != M_IO_ERROR_SUCCESS) { vh_viol("loopback", "loopback creation failed: %d", (int)rc); return; } c->desc += add_layers(&c->e[0], a, &lr, false); }
	c->e[0].io = a; if (b) c->e[1].io = b; if (b && vh_chance(50)) { add_io(w, b, cb_end, &c->e[1]); b = NULL; } add_io(w, a, cb_end, &c->e[0]); if (b) add_io(w, b, cb_end, &c->e[1]); }
static S fd_list() { S l; for (int f = 0; f < 64; f++) { char nm[64], ln[256]; snprintf(nm, sizeof nm, "/proc/self/fd/%d", f); ssize_t z = readlink(nm, ln, sizeof ln - 1); if (z > 0) { ln[z] = 0; l += vh_fmt("%d=%s", f, ln); struct sockaddr_storage a, b; socklen_t al = sizeof a, bl = sizeof b; if (!getsockname(f, (struct sockaddr *)&a, &al)) l += vh_fmt("[local %d peer %d", (int)ntohs(((struct sockaddr_in *)&a)->sin_port), getpeername(f, (struct sockaddr *)&b, &bl) ? -errno : (int)ntohs(((struct sockaddr_in *)&b)->sin_port)) + "]"; l += " "; } }  return l; }
static void run_world(bool pool) {
	int fd0 = count_fds(); World w; w.pool = pool; wn_case(vh_rnd(), vh_chance(70)); size_t scale = wn_small ? (vh_chance(15) ? 60000 : 12000) : (vh_chance(20) ? 300000 : 30000); if (g_life) scale = vh_chance(70) ? 1500 : 8000;
	M_uint32 fl = (vh_chance(35) ? M_EVENT_FLAG_NON_SCALABLE : 0) | (vh_chance(20) ? M_EVENT_FLAG_NOWAKE : 0); if (!pool && vh_chance(20)) { w.empty = true; fl |= M_EVENT_FLAG_EXITONEMPTY; } if (pool) fl = 0; if (pool) w.empty = false; if (fl & M_EVENT_FLAG_NOWAKE) fl &= ~(M_uint32)M_EVENT_FLAG_NOWAKE; /* dns answers come from elsewhere */
	w.ev = pool ? M_event_pool_create((size_t)vh_range(1, 4)) : M_event_create(fl); w.dns = w.empty ? NULL : M_dns_create(w.ev); int nc = vh_chance(40) ? 1 : (int)vh_range(2, g_life ? 9 : pool ? 6 : 5); w.conns = 1;
	for (int i = 0; i < nc; i++) mk_conn(&w, i, scale); if (--w.conns == 0) w.stop = true;
	uint64_t t0 = vh_now_us(); bool stalled = false; M_event_err_t er = M_EVENT_ERR_TIMEOUT; int slices = vh_chance(60) ? 0 : (int)vh_range(1, 20); uint64_t lim = pool ? 14000000 : 9000000;
	if (w.stop && !w.empty) M_event_done(w.ev);
	uint64_t lp = 0, lt = t0; while (1) { er = M_event_loop(w.ev, slices ? (M_uint64)vh_range(1, slices) : 700); if (er == M_EVENT_ERR_DONE) break; if (er != M_EVENT_ERR_TIMEOUT) { vh_viol("loop:result", "the loop returned %d", (int)er); break; } uint64_t p = ch_progress; if (p != lp) { lp = p; lt = vh_now_us(); } if (vh_now_us() - lt > lim / 3 || vh_now_us() - t0 > lim * 3) { stalled = true; break; } }
	if (stalled) { S s; for (Conn *c : w.c) for (int i = 0; i < c->nends; i++) if (!c->e[i].gone && !(c->type == T_REFUSED && i)) s += st_of(&c->e[i]) + "; "; S which; for (Conn *c : w.c) if (c->left > 0) { which = S(c->type == T_TCP ? "tcp" : c->type == T_PIPE ? "pipe" : c->type == T_LOOP ? "loopback" : "refused"); break; } if (getenv("VDBG")) fprintf(stderr, "STALL %s\n", s.c_str()); vh_viol(("stall:" + which).c_str(), "no progress and no terminal event: %s", s.substr(0, 1500).c_str()); }
	else if (w.conns != 0) vh_viol("loop:early", "the loop ended with %d connections unfinished", w.conns.load());
	uint64_t h = 7; for (Conn *c : w.c) { if (c->rfd >= 0) close(c->rfd); if (c->listener) M_io_destroy(c->listener); for (int i = 0; i < c->nends; i++) { M_io_t *io = c->e[i].io; if (io) { c->e[i].st = ST_GONE; c->e[i].io = NULL; M_io_destroy(io); } h = vh_hstr(c->desc.c_str(), vh_hu(c->e[i].rcvd, h)); } }
	if (w.dns) M_dns_destroy(w.dns); M_event_destroy(w.ev); int fd1 = 0; for (int k = 0; k < 500; k++) { fd1 = count_fds(); if (fd1 <= fd0) break; ch_sleep_us(4000); } if (fd1 > fd0 && !stalled) { S l = fd_list(); vh_viol("fd:leak", "%d descriptors before, %d after everything was destroyed: %s(%s port %d)", fd0, fd1, l.c_str(), w.c[0]->desc.c_str(), (int)w.c[0]->port); }
	if (w.c.size()) vh_sample("%s: %zu sent %zu received", w.c[0]->desc.c_str(), w.c[0]->e[0].sent.load(), w.c[0]->e[0].rcvd.load());
	for (Conn *c : w.c) delete c; vh_distinct(h); vh_count("connections", (uint64_t)nc); flush_counts(); wn_flush(); }

/* blocking use of a client against a plain socket peer */
struct Raw { int lfd = -1; S tx; S rx; size_t want = 0; vh_trng rng; bool close_first = false; };
static void *raw_peer(void *a) { Raw *p = (Raw *)a; int fd = accept(p->lfd, NULL, NULL); if (fd < 0) return NULL; size_t off = 0; char b[9000];
	struct pollfd f; while (off < p->tx.size() || p->rx.size() < p->want) { f.fd = fd; f.events = (short)((off < p->tx.size() ? POLLOUT : 0) | (p->rx.size() < p->want ? POLLIN : 0)); f.revents = 0; if (poll(&f, 1, 8000) <= 0) break;
		if (f.revents & POLLIN) { ssize_t n = recv(fd, b, 1 + vh_tr(&p->rng) % sizeof b, MSG_DONTWAIT); if (n == 0) break; if (n > 0) p->rx.append(b, (size_t)n); else if (errno != EAGAIN) break; } else if (f.revents & (POLLERR | POLLHUP)) break;
		if (f.revents & POLLOUT) { size_t n = 1 + vh_tr(&p->rng) % (vh_tr(&p->rng) % 3 ? 4000 : 40); if (n > p->tx.size() - off) n = p->tx.size() - off; ssize_t k = send(fd, p->tx.data() + off, n, MSG_DONTWAIT | MSG_NOSIGNAL); if (k > 0) off += (size_t)k; else if (k < 0 && errno != EAGAIN) break; if (vh_tr(&p->rng) % 6 == 0) usleep((useconds_t)(vh_tr(&p->rng) % 900)); } }
	shutdown(fd, SHUT_WR); f.fd = fd; f.events = POLLIN; while (poll(&f, 1, 8000) > 0) { ssize_t n = recv(fd, b, sizeof b, 0); if (n <= 0) break; p->rx.append(b, (size_t)n); } close(fd); return NULL; }
static void m_block() { ch_case(0); int fd0 = count_fds(); wn_case(vh_rnd(), vh_chance(60)); Raw p; p.rng.s = vh_rnd(); p.tx = vh_bytes(vh_rndn(vh_chance(30) ? 60000 : 3000)); S out = vh_bytes(vh_rndn(vh_chance(30) ? 60000 : 3000)); p.want = out.size();
	p.lfd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t sl = sizeof sa; if (bind(p.lfd, (struct sockaddr *)&sa, sizeof sa) || getsockname(p.lfd, (struct sockaddr *)&sa, &sl)) { close(p.lfd); return; }
	bool refused = vh_chance(10); pthread_t th; if (!refused && listen(p.lfd, 4)) { close(p.lfd); return; } if (!refused && pthread_create(&th, NULL, raw_peer, &p)) { close(p.lfd); return; }
	M_dns_t *dns = M_dns_create(NULL); M_io_t *io = NULL; M_io_error_t r = M_io_net_client_create(&io, dns, "127.0.0.1", ntohs(sa.sin_port), M_IO_NET_IPV4); VH_CHECK(r == M_IO_ERROR_SUCCESS, "block:create", "creation returned %d", (int)r); End e; vh_trng lr; lr.s = vh_rnd(); S d = "cli" + (vh_chance(60) ? add_layers(&e, io, &lr, true) : S());
	r = M_io_block_connect(io); if (refused) { VH_CHECK(r != M_IO_ERROR_SUCCESS && r != M_IO_ERROR_WOULDBLOCK && M_io_get_error(io) == M_IO_ERROR_CONNREFUSED, "block:refused", "a refused blocking connect returned %d, the error is %d", (int)r, (int)M_io_get_error(io)); VH_CHECK(M_io_get_state(io) != M_IO_STATE_CONNECTED, "block:refused", "the state is connected"); vh_count("refused", 1); }
	else { VH_CHECK(r == M_IO_ERROR_SUCCESS, "block:connect", "%s: connect returned %d", d.c_str(), (int)r); VH_CHECK(M_io_get_state(io) == M_IO_STATE_CONNECTED, "block:connect", "not connected");
		S in; size_t off = 0; bool down = false; uint64_t t0 = vh_now_us(), last = t0; unsigned char b[5000];
		while ((!down || (off < out.size() && !down)) && vh_now_us() - last < 6000000) {
			bool w = off < out.size() && vh_chance(50); if (w) { size_t n = 1 + vh_rndn(vh_chance(50) ? 60 : 5000); if (n > out.size() - off) n = out.size() - off; size_t k = 777; M_uint64 to = vh_chance(50) ? 3000 : vh_rndn(4); r = M_io_block_write(io, (const unsigned char *)out.data() + off, n, &k, to); vh_count("writes", 1); if (r == M_IO_ERROR_SUCCESS) { VH_CHECK(k >= 1 && k <= n, "block:write_count", "%s: success with %zu of %zu written", d.c_str(), k, n); off += k; last = vh_now_us(); } else if (r == M_IO_ERROR_WOULDBLOCK) { VH_CHECK(k == 0 || k <= n, "block:write_count", "%s: would block with %zu written", d.c_str(), k); off += k; vh_count("timeouts", 1); } else { VH_CHECK(false, "block:write", "%s: write returned %d while the peer still reads", d.c_str(), (int)r); } }
			else { size_t n = 1 + vh_rndn(vh_chance(50) ? 60 : sizeof b - 1); size_t k = 777; bool all = off >= out.size(); M_uint64 to = all && vh_chance(70) ? 5000 : vh_rndn(4); uint64_t ts = vh_now_us(); r = M_io_block_read(io, b, n, &k, to); vh_count("reads", 1);
				if (r == M_IO_ERROR_SUCCESS) { VH_CHECK(k >= 1 && k <= n, "block:read_count", "%s: success with %zu of %zu read", d.c_str(), k, n); VH_CHECK(in.size() + k <= p.tx.size() && !memcmp(p.tx.data() + in.size(), b, k), "block:data", "%s: the %zu bytes at %zu differ", d.c_str(), k, in.size()); in.append((char *)b, k); last = vh_now_us(); }
				else if (r == M_IO_ERROR_WOULDBLOCK) { VH_CHECK(k == 0, "block:read_count", "%s: would block with %zu read", d.c_str(), k); vh_count("timeouts", 1); VH_CHECK((M_int64)(vh_now_us() - ts) + 1500 >= (M_int64)to * 1000, "block:early", "%s: timed out after %llu us of %llu ms", d.c_str(), (unsigned long long)(vh_now_us() - ts), (unsigned long long)to); }
				else if (r == M_IO_ERROR_DISCONNECT) { down = true; VH_CHECK(e.holds || in.size() == p.tx.size(), "block:lost", "%s: disconnected after %zu of %zu bytes", d.c_str(), in.size(), p.tx.size()); VH_CHECK(off == out.size(), "block:early_end", "%s: disconnected before everything was written", d.c_str()); } else VH_CHECK(false, "block:read", "%s: read returned %d", d.c_str(), (int)r); } }
		VH_CHECK(down, "block:stall", "%s: no end of the connection: read %zu of %zu, wrote %zu of %zu", d.c_str(), in.size(), p.tx.size(), off, out.size());
		if (vh_chance(50)) { r = M_io_block_disconnect(io); } }
	M_io_destroy(io); if (refused) close(p.lfd); else { pthread_join(th, NULL); close(p.lfd); VH_CHECK(p.rx == out, "block:sent", "%s: the peer received %zu bytes of %zu (equal prefix %d)", d.c_str(), p.rx.size(), out.size(), (int)(p.rx.size() <= out.size() && out.compare(0, p.rx.size(), p.rx) == 0)); }
	M_dns_destroy(dns); int fd1 = 0; for (int k = 0; k < 500; k++) { fd1 = count_fds(); if (fd1 <= fd0) break; ch_sleep_us(4000); } if (fd1 > fd0) vh_fail("fd:leak", "%d descriptors before, %d after: %s(%s)", fd0, fd1, fd_list().c_str(), d.c_str()); vh_distinct(vh_hstr(d.c_str(), vh_hu(p.tx.size(), vh_hu(out.size(), 3)))); wn_flush(); }
static void m_loop() { ch_case(0); run_world(false); }
static void m_pool() { ch_case(); run_world(true); }
static void m_life() { g_life = true; ch_case(0); run_world(false); g_life = false; }
static void m_lifepool() { g_life = true; ch_case(); run_world(true); g_life = false; }
const vh_mode_t vh_modes[] = { { "loop", m_loop, init, fini }, { "pool", m_pool, init, fini }, { "life", m_life, init, fini }, { "lifepool", m_lifepool, init, fini }, { "block", m_block, init, fini }, { 0 } };
