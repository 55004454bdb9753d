// TLS over real loopback sockets: one event loop with a listener and a client, the certificates made with OpenSSL, an optional record-aware
// interposer thread on the wire. Modes: verify (S01), stream (S02), nego (S03).
#include "vh.hpp"
#include <mstdlib/mstdlib_io.h>
#include <mstdlib/mstdlib_tls.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <poll.h>
#include <pthread.h>
#include <atomic>
#include <unistd.h>
#include <signal.h>
static EVP_PKEY *K_ca[4], *K_leaf; static M_dns_t *g_dns;
static S pem_of(EVP_PKEY *k) { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, NULL, NULL, 0, NULL, NULL); char *p; long n = BIO_get_mem_data(b, &p); S s(p, (size_t)n); BIO_free(b); return s; }
static S pem_of(X509 *x) { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, x); char *p; long n = BIO_get_mem_data(b, &p); S s(p, (size_t)n); BIO_free(b); return s; }
struct Spec { S cn; VS dns, ip; long nb = -3600, na = 86400; bool ca = false; int eku = 0; bool client = false; };
static int g_serial = 1;
static void add_ext(X509 *x, int nid, const S &v) { X509V3_CTX c; X509V3_set_ctx_nodb(&c); X509V3_set_ctx(&c, x, x, NULL, NULL, 0); X509_EXTENSION *e = X509V3_EXT_conf_nid(NULL, &c, nid, v.c_str()); if (!e) vh_fail("harness:cert", "cannot make extension %d %s", nid, v.c_str()); X509_add_ext(x, e, -1); X509_EXTENSION_free(e); }
static X509 *mk(const Spec &s, EVP_PKEY *key, X509 *issuer, EVP_PKEY *ikey) {
	X509 *x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), g_serial++); X509_gmtime_adj(X509_getm_notBefore(x), s.nb); X509_gmtime_adj(X509_getm_notAfter(x), s.na); X509_set_pubkey(x, key);
	X509_NAME *n = X509_get_subject_name(x); if (!s.cn.empty()) X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_UTF8, (const unsigned char *)s.cn.data(), (int)s.cn.size(), -1, 0); else X509_NAME_add_entry_by_txt(n, "O", MBSTRING_UTF8, (const unsigned char *)"nobody", -1, -1, 0);
	X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : n); add_ext(x, NID_basic_constraints, s.ca ? "critical,CA:TRUE" : "CA:FALSE"); if (s.eku) add_ext(x, NID_ext_key_usage, s.eku == 1 ? "serverAuth" : s.eku == 2 ? "clientAuth" : "codeSigning");
	if (s.dns.size() + s.ip.size()) { GENERAL_NAMES *g = GENERAL_NAMES_new(); for (auto &d : s.dns) { GENERAL_NAME *gn = GENERAL_NAME_new(); ASN1_IA5STRING *ia = ASN1_IA5STRING_new(); ASN1_STRING_set(ia, d.data(), (int)d.size()); GENERAL_NAME_set0_value(gn, GEN_DNS, ia); sk_GENERAL_NAME_push(g, gn); }
		for (auto &d : s.ip) { GENERAL_NAME *gn = GENERAL_NAME_new(); gn->type = GEN_IPADD; gn->d.iPAddress = a2i_IPADDRESS(d.c_str()); sk_GENERAL_NAME_push(g, gn); } X509_add1_ext_i2d(x, NID_subject_alt_name, g, 0, 0); GENERAL_NAMES_free(g); }
	X509_sign(x, ikey ? ikey : key, EVP_sha256()); return x; }
static void setup(void) { signal(SIGPIPE, SIG_IGN); M_tls_init(M_TLS_INIT_NORMAL); for (auto &k : K_ca) k = EVP_EC_gen("P-256"); K_leaf = EVP_RSA_gen(2048); g_dns = M_dns_create(NULL); }
static void teardown(void) { for (auto &k : K_ca) EVP_PKEY_free(k); EVP_PKEY_free(K_leaf); M_dns_destroy(g_dns); M_library_cleanup(); }

// ---- the interposer: forwards one connection, may tamper with one record of one direction
enum { TK_NONE, TK_FLIP, TK_DROP, TK_DUP, TK_SWAP, TK_REPLAY, TK_INSERT, TK_CUT, TK_CUTMID, TK_N };
static const char *const TK[] = { "none", "flip", "drop", "dup", "swap", "replay", "insert", "cut", "cutmid" };
struct Prox { int lfd = -1; uint16_t port = 0, to = 0; pthread_t th; std::atomic<bool> stop{false}, armed{false}, kill{false}; int kind = TK_NONE, dir = 0; int rec = 0; uint64_t seed = 1; bool segment = false, early = false; // results
	std::atomic<bool> fired{false}, dead{false}; std::atomic<uint64_t> before{0}, records{0}, moved{0}; };
static ssize_t xrecv(int fd, void *b, size_t n) { for (;;) { ssize_t r = recv(fd, b, n, 0); if (r < 0 && errno == EINTR) continue; return r; } }
static void *prox_run(void *a) {
	Prox *p = (Prox *)a; uint64_t r = p->seed; auto rnd = [&]() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return r; };
	struct pollfd lp = { p->lfd, POLLIN, 0 }; int c = -1; while (!p->stop) { if (::poll(&lp, 1, 20) > 0) { c = accept(p->lfd, NULL, NULL); break; } } if (c < 0) return NULL;
	int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); sa.sin_port = htons(p->to); if (connect(s, (struct sockaddr *)&sa, sizeof sa) != 0) { close(s); close(c); return NULL; }
	struct D { int in, out; S acc, pend, held, last; size_t off = 0; int n = 0; bool eof = false, shut = false; uint64_t sum = 0; } d[2]; d[0].in = c; d[0].out = s; d[1].in = s; d[1].out = c; bool cut = false;
	while (!p->stop && !p->kill && !cut) {
		struct pollfd pf[2]; for (int i = 0; i < 2; i++) { pf[i].fd = i == 0 ? c : s; pf[i].events = 0; pf[i].revents = 0; } for (auto &x : d) { if (!x.eof && x.pend.size() < 200000) pf[x.in == c ? 0 : 1].events |= POLLIN; if (!x.pend.empty()) pf[x.out == c ? 0 : 1].events |= POLLOUT; }
		::poll(pf, 2, 20);
		for (int i = 0; i < 2; i++) { D &x = d[i]; if (x.eof || !(pf[x.in == c ? 0 : 1].revents & (POLLIN | POLLHUP | POLLERR))) continue; char buf[20000]; ssize_t k = recv(x.in, buf, p->segment ? 1 + rnd() % 700 : sizeof buf, MSG_DONTWAIT); if (k < 0 && (errno == EAGAIN || errno == EINTR)) continue; if (k <= 0) { x.eof = true; x.pend += x.acc; x.acc.clear(); x.pend += x.held; x.held.clear(); continue; } x.acc.append(buf, (size_t)k);
			while (x.acc.size() >= 5) { size_t L = 5 + ((size_t)(uint8_t)x.acc[3] << 8 | (uint8_t)x.acc[4]); if (x.acc.size() < L) break; S rec = x.acc.substr(0, L); x.acc.erase(0, L); p->records++;
				bool armed = p->armed.load(), hit = (armed || p->early) && i == p->dir && p->kind != TK_NONE && !p->fired && (p->early || (uint8_t)rec[0] == 23) && x.n++ == p->rec;
				if (!x.held.empty()) { x.pend += rec; x.pend += x.held; x.held.clear(); x.last = rec; continue; }
				if (!hit) { if (armed && (uint8_t)rec[0] == 23) x.sum += L - 5; x.pend += rec; if ((uint8_t)rec[0] == 23) x.last = rec; continue; }
				p->before = x.sum; p->fired = true;
				switch (p->kind) { case TK_FLIP: rec[rnd() % 4 ? 5 + rnd() % (L - 5) : rnd() % 3] ^= (char)(1 << rnd() % 8); x.pend += rec; break; case TK_DROP: break; case TK_DUP: x.pend += rec; x.pend += rec; break; case TK_SWAP: x.held = rec; break; case TK_REPLAY: if (x.last.empty()) x.pend += rec.substr(0, 5) + S(L - 5, 'x'); else x.pend += x.last; break;
				case TK_INSERT: x.pend += rec.substr(0, 5) + S(1 + rnd() % 40, (char)rnd()) + rec.substr(5); break; case TK_CUT: cut = true; break; default: x.pend += rec.substr(0, 1 + rnd() % (L - 1)); cut = true; } if (cut) { x.acc.clear(); break; } } }
		for (auto &x : d) { if (x.pend.empty()) { if (x.eof && !x.shut) { shutdown(x.out, SHUT_WR); x.shut = true; } continue; } size_t m = p->segment ? std::min<size_t>(x.pend.size(), 1 + rnd() % 900) : x.pend.size(); ssize_t k = send(x.out, x.pend.data(), m, MSG_DONTWAIT | MSG_NOSIGNAL); if (k > 0) { p->moved += (uint64_t)k; x.pend.erase(0, (size_t)k); } else if (k < 0 && errno != EAGAIN && errno != EINTR) { x.pend.clear(); x.eof = true; } }
		if (cut) for (auto &x : d) while (!x.pend.empty()) { ssize_t k = send(x.out, x.pend.data(), x.pend.size(), MSG_DONTWAIT | MSG_NOSIGNAL); if (k <= 0) break; x.pend.erase(0, (size_t)k); }
		if (d[0].shut && d[1].shut) break;
	}
	p->dead = true; shutdown(c, SHUT_RDWR); shutdown(s, SHUT_RDWR); close(c); close(s); return NULL; }
static void prox_start(Prox *p, uint16_t to) { p->to = to; p->lfd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(p->lfd, (struct sockaddr *)&sa, sizeof sa) || listen(p->lfd, 4)) vh_fail("harness:proxy", "cannot listen"); socklen_t l = sizeof sa; getsockname(p->lfd, (struct sockaddr *)&sa, &l); p->port = ntohs(sa.sin_port); pthread_create(&p->th, NULL, prox_run, p); }
static void prox_stop(Prox *p) { p->stop = true; pthread_join(p->th, NULL); close(p->lfd); }

// ---- one connection
struct End { const char *who; bool conn = false, term = false, gone = false; M_event_type_t how = M_EVENT_TYPE_OTHER; S tx, rx; size_t off = 0; M_io_t *io = NULL; S err; int nconn = 0; // after connect
	M_tls_protocols_t ver = M_TLS_PROTOCOL_INVALID; bool reused = false; S app, sni, peer, cipher; bool has_sni = false, data_before = false; };
struct Net { End c, s; M_event_t *el = NULL; M_io_t *lst = NULL; Prox *px = NULL; size_t id_c = 0; bool accepted = false; bool wait_arm = false; uint64_t last = 0; size_t chunk = 0; M_event_timer_t *tick = NULL; bool killed = false, done = false; uint64_t t0 = 0; bool stuck = false; uint64_t quiet_ms = 0; };
static Net *N;
static void put(S &o, char *s) { if (s) { o = s; M_free(s); } }
static void fin(End *e) { if (e->io && !e->gone) { M_io_t *io = e->io; e->gone = true; e->io = NULL; M_io_destroy(io); } if ((N->c.gone || !N->c.io) && (!N->accepted || N->s.gone)) { if (N->c.term && (N->s.term || !N->accepted)) N->done = true; } if (N->done) M_event_done(N->el); }
static bool both() { return N->c.conn && N->s.conn; }
static void wr(End *e) { if (!e->conn || e->term || !e->io) return; if (N->wait_arm && !both()) return; while (e->off < e->tx.size()) { size_t n = e->tx.size() - e->off, w = 0; if (N->chunk) n = std::min(n, N->chunk); M_io_error_t r = M_io_write(e->io, (const unsigned char *)e->tx.data() + e->off, n, &w); if (r == M_IO_ERROR_WOULDBLOCK) return; if (r != M_IO_ERROR_SUCCESS) return; N->last = vh_now_us(); e->off += w; } }
static void rd(End *e) { unsigned char b[5000]; for (;;) { size_t n = 0; if (!e->io) return; M_io_error_t r = M_io_read(e->io, b, sizeof b, &n); if (r != M_IO_ERROR_SUCCESS) return; N->last = vh_now_us(); if (!e->conn) e->data_before = true; e->rx.append((char *)b, n); } }
static void finish_if_done() { if (both() && N->c.rx == N->s.tx && N->s.rx == N->c.tx && N->c.off == N->c.tx.size() && N->s.off == N->s.tx.size() && N->c.io && !N->c.term) M_io_disconnect(N->c.io); }
static void info(End *e, M_io_t *io) { size_t id = M_IO_LAYER_FIND_FIRST_ID; e->ver = M_tls_get_protocol(io, id); e->reused = M_tls_get_sessionreused(io, id) == M_TRUE; put(e->app, M_tls_get_application(io, id)); put(e->peer, M_tls_get_peer_cert(io, id)); const char *c = M_tls_get_cipher(io, id); if (c) e->cipher = c; }
static void cb(M_event_t *el, M_event_type_t type, M_io_t *io, void *arg) { (void)el; End *e = (End *)arg; if (e->gone) { vh_viol("event:after_destroy", "%s: event %s after it was destroyed", e->who, M_event_type_string(type)); return; } N->last = vh_now_us();
	switch (type) {
	case M_EVENT_TYPE_CONNECTED: e->nconn++; e->conn = true; info(e, io); if (e == &N->s) { const char *h = M_tls_server_get_hostname(io, M_IO_LAYER_FIND_FIRST_ID); if (h) { e->has_sni = true; e->sni = h; } } if (N->wait_arm && both()) { if (N->px) N->px->armed = true; wr(&N->c); wr(&N->s); } else wr(e); break;
	case M_EVENT_TYPE_READ: rd(e); break; case M_EVENT_TYPE_WRITE: wr(e); break;
	case M_EVENT_TYPE_DISCONNECTED: case M_EVENT_TYPE_ERROR: { rd(e); char m[256] = { 0 }; M_io_get_error_string(io, m, sizeof m); e->err = m; e->term = true; e->how = type; e->io = io; fin(e); return; }
	default: break; }
	finish_if_done(); }
static void lcb(M_event_t *el, M_event_type_t type, M_io_t *io, void *) { if (type != M_EVENT_TYPE_ACCEPT) return; M_io_t *n = NULL; while (M_io_accept(&n, io) == M_IO_ERROR_SUCCESS) { if (N->accepted) { vh_viol("accept", "a second connection was accepted"); M_io_destroy(n); continue; } N->accepted = true; N->s.io = n; N->last = vh_now_us(); M_event_add(el, n, cb, &N->s); } }
static void tick(M_event_t *, M_event_type_t, M_io_t *, void *) { uint64_t now = vh_now_us(); if (now - N->t0 > 12000000) { N->stuck = true; M_event_done(N->el); return; }
	// nothing moves any more: the wire goes down, both ends have to notice
	if (N->px && !N->killed && N->px->fired && now - N->last > 60000) { N->killed = true; N->px->kill = true; }
	if (!N->px && N->c.term && !N->accepted && now - N->last > 200000) { N->done = true; M_event_done(N->el); } }
static S randtx(size_t n) { return vh_bytes(n); }
// runs one connection; the listener stays with the caller's contexts
static void go(Net &n, M_tls_clientctx_t *cc, M_tls_serverctx_t *sc, const char *host, uint16_t fixed_port = 0, uint16_t *port_out = NULL) { N = &n; n.c.who = "client"; n.s.who = "server"; ERR_clear_error();
	M_event_t *el = M_event_create(vh_chance(50) ? M_EVENT_FLAG_NONE : M_EVENT_FLAG_NON_SCALABLE); n.el = el; VH_CHECK(M_io_net_server_create(&n.lst, fixed_port, "127.0.0.1", M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "harness:listen", "cannot listen"); uint16_t port = M_io_net_get_port(n.lst); if (port_out) *port_out = port;
	VH_CHECK(M_io_tls_server_add(n.lst, sc, NULL) == M_IO_ERROR_SUCCESS, "api:server_add", "the TLS layer could not be added to the listener"); if (n.px) { prox_start(n.px, port); port = n.px->port; }
	VH_CHECK(M_io_net_client_create(&n.c.io, g_dns, "127.0.0.1", port, M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "harness:client", "no client"); VH_CHECK(M_io_tls_client_add(n.c.io, cc, host, &n.id_c) == M_IO_ERROR_SUCCESS, "api:client_add", "the TLS layer could not be added to the client");
	n.t0 = n.last = vh_now_us(); M_event_add(el, n.lst, lcb, NULL); M_event_add(el, n.c.io, cb, &n.c); n.tick = M_event_timer_add(el, tick, NULL); M_event_timer_set_firecount(n.tick, 0); M_event_timer_start(n.tick, 10);
	M_event_loop(el, M_TIMEOUT_INF); if (n.px) prox_stop(n.px); if (n.c.io && !n.c.gone) { n.c.gone = true; M_io_destroy(n.c.io); } if (n.s.io && !n.s.gone) { n.s.gone = true; M_io_destroy(n.s.io); } M_io_destroy(n.lst); M_event_destroy(el); vh_count("connections", 1); }
static S state_of(const Net &n) { return vh_fmt("client %s%s%s (got %zu of %zu), server %s%s%s (got %zu of %zu)", n.c.conn ? "connected" : "not connected", n.c.term ? n.c.how == M_EVENT_TYPE_ERROR ? ", error " : ", disconnected " : "", n.c.err.c_str(), n.c.rx.size(), n.s.tx.size(), n.s.conn ? "connected" : "not connected", n.s.term ? n.s.how == M_EVENT_TYPE_ERROR ? ", error " : ", disconnected " : "", n.s.err.c_str(), n.s.rx.size(), n.c.tx.size()); }
static void common(const Net &n, const S &what) { VH_CHECK(!n.stuck, "stuck", "%s: no end within 12 s: %s", what.c_str(), state_of(n).c_str()); VH_CHECK(n.c.nconn <= 1 && n.s.nconn <= 1, "event:connected_twice", "%s: %d and %d connected events", what.c_str(), n.c.nconn, n.s.nconn); VH_CHECK(!n.c.data_before && !n.s.data_before, "data:before_connected", "%s: application data before the connected event", what.c_str());
	VH_CHECK(n.c.rx.size() <= n.s.tx.size() && n.s.tx.compare(0, n.c.rx.size(), n.c.rx) == 0, "data:corrupt", "%s: the client received something the server did not send: %s", what.c_str(), state_of(n).c_str()); VH_CHECK(n.s.rx.size() <= n.c.tx.size() && n.c.tx.compare(0, n.s.rx.size(), n.s.rx) == 0, "data:corrupt", "%s: the server received something the client did not send: %s", what.c_str(), state_of(n).c_str());
	VH_CHECK((n.c.conn || n.c.rx.empty()) && (n.s.conn || n.s.rx.empty()), "data:before_connected", "%s: data without a connection", what.c_str()); }
static void want_ok(const Net &n, const S &what) { common(n, what); VH_CHECK(n.c.conn && n.s.conn, "refused", "%s: should connect: %s", what.c_str(), state_of(n).c_str()); VH_CHECK(n.c.rx == n.s.tx && n.s.rx == n.c.tx, "data:lost", "%s: %s", what.c_str(), state_of(n).c_str()); VH_CHECK(n.c.how == M_EVENT_TYPE_DISCONNECTED && n.s.how == M_EVENT_TYPE_DISCONNECTED, "close", "%s: a clean close ended with %s", what.c_str(), state_of(n).c_str()); vh_count("accepted", 1); }
static void want_client_refuses(const Net &n, const S &what, const char *key) { common(n, what); VH_CHECK(!n.c.conn, key, "%s: the client connected: %s", what.c_str(), state_of(n).c_str()); VH_CHECK(n.s.rx.empty(), key, "%s: the server got data from a client that refuses it", what.c_str()); VH_CHECK(n.c.term, key, "%s: no terminal event: %s", what.c_str(), state_of(n).c_str()); vh_count("client_refused", 1); }
static void want_server_refuses(const Net &n, const S &what, const char *key) { common(n, what); VH_CHECK(!n.s.conn, key, "%s: the server connected: %s", what.c_str(), state_of(n).c_str()); VH_CHECK(n.c.rx.empty() && n.s.rx.empty(), key, "%s: data was exchanged: %s", what.c_str(), state_of(n).c_str()); VH_CHECK(n.c.term && n.s.term, key, "%s: no end: %s", what.c_str(), state_of(n).c_str()); vh_count("server_refused", 1); }
static const unsigned char *U(const S &s) { return (const unsigned char *)s.data(); }
static M_tls_serverctx_t *mkserver(const S &key, const S &crt, const S &inter) { M_tls_serverctx_t *s = M_tls_serverctx_create(U(key), key.size(), U(crt), crt.size(), inter.empty() ? NULL : U(inter), inter.size()); if (!s) vh_fail("api:serverctx", "the server context was refused"); return s; }

// ---- names, from the documentation: exact, a wildcard for the whole left-most label, an address; fuzzy: the base domain
static S low(S s) { for (auto &c : s) c = (char)tolower((uint8_t)c); return s; }
static VS split(const S &s) { VS v; size_t i = 0; for (;;) { size_t j = s.find('.', i); v.push_back(s.substr(i, j == S::npos ? j : j - i)); if (j == S::npos) return v; i = j + 1; } }
static bool is_ip(const S &s) { unsigned char b[16]; return inet_pton(AF_INET, s.c_str(), b) == 1 || inet_pton(AF_INET6, s.c_str(), b) == 1; }
static S base(const S &h) { VS v = split(h); size_t k = v.back().size() == 2 ? 3 : 2; if (v.size() <= k) return h; S o; for (size_t i = v.size() - k; i < v.size(); i++) o += (o.empty() ? "" : ".") + v[i]; return o; }
static bool name_ok(const S &host0, const S &name0, bool fuzzy) { S h = low(host0), n = low(name0); if (h == n) return true; if (is_ip(h)) return false; if (n.compare(0, 2, "*.") == 0) { VS a = split(h), b = split(n); if (a.size() == b.size() && a.size() > 1) { bool eq = true; for (size_t i = 1; i < a.size(); i++) eq = eq && a[i] == b[i]; if (eq) return true; } } if (fuzzy) { if (h == "localhost") return true; if (!is_ip(n) && base(h) == base(n)) return true; } return false; }
static S rnd_host() { static const char *L[] = { "www", "api", "mail", "a", "xn--bcher-kva", "x-1" }; static const char *D[] = { "example.com", "example.org", "sub.example.com", "other.com", "shop.co.uk", "other.co.uk", "corp.de", "localdomain" }; switch (vh_rndn(10)) { case 0: return D[vh_rndn(8)]; case 1: return "localhost"; case 2: return vh_chance(50) ? "127.0.0.1" : vh_fmt("10.%d.2.3", (int)vh_rndn(3)); case 3: return vh_fmt("%s.%s.%s", L[vh_rndn(6)], L[vh_rndn(6)], D[vh_rndn(8)]); default: return vh_fmt("%s.%s", L[vh_rndn(6)], D[vh_rndn(8)]); } }
static S rnd_name_for(const S &h) { VS v = split(h); switch (vh_rndn(12)) { case 0: case 1: case 2: case 3: return h; case 4: { S s = h; for (auto &c : s) if (vh_chance(50)) c = (char)toupper((uint8_t)c); return s; } case 5: case 6: { if (v.size() < 2) return h; S o = "*"; for (size_t i = 1; i < v.size(); i++) o += "." + v[i]; return o; } case 7: { S o = "*"; for (size_t i = 2; i < v.size(); i++) o += "." + v[i]; return o; } case 8: return "*." + h; case 9: return "x" + h; case 10: { S s = h; s[vh_rndn(s.size())] ^= 1; for (auto &c : s) if (c < 33 || c > 126) c = 'q'; return s; } default: { S s = rnd_host(); return vh_chance(30) ? "*." + s : s; } } }

enum { C_DIRECT, C_INTER_SENT, C_INTER_MISSING, C_INTER_TRUSTED, C_OTHER_ROOT, C_SELF, C_SELF_TRUSTED, C_EXPIRED, C_NOTYET, C_BADCA, C_EXP_INTER, C_EKU, C_FORGED, C_N };
static const char *const CN_[] = { "direct", "intermediate sent", "intermediate missing", "intermediate trusted locally", "other root", "self-signed", "self-signed and trusted", "expired", "not yet valid", "issuer is no CA", "expired intermediate", "wrong usage", "forged issuer signature" };
static bool chain_ok(int c) { return c == C_DIRECT || c == C_INTER_SENT || c == C_INTER_TRUSTED || c == C_SELF_TRUSTED; }
struct Pki { X509 *rootA, *rootB; Pki() { Spec a; a.cn = "Root A"; a.ca = true; a.na = 864000; rootA = mk(a, K_ca[0], NULL, K_ca[0]); a.cn = "Root B"; rootB = mk(a, K_ca[1], NULL, K_ca[1]); } ~Pki() { X509_free(rootA); X509_free(rootB); } };
struct Leaf { S crt, inter, trust_extra; };
static Leaf mkleaf(Pki &p, int chain, Spec sp, bool client) { Leaf l; Spec in; in.cn = client ? "Inter for clients" : "Inter"; in.ca = chain != C_BADCA; if (chain == C_EXP_INTER) { in.nb = -86400 * 3; in.na = -60; } if (chain == C_EXPIRED) { sp.nb = -86400 * 2; sp.na = -60 - (long)vh_rndn(80000); } if (chain == C_NOTYET) { sp.nb = 60 + (long)vh_rndn(80000); sp.na = 86400 * 3; } sp.eku = chain == C_EKU ? (client ? 1 : vh_chance(50) ? 2 : 3) : vh_chance(50) ? (client ? 2 : 1) : 0; X509 *x, *i = NULL;
	switch (chain) { case C_SELF: case C_SELF_TRUSTED: if (vh_chance(50)) sp.ca = true; x = mk(sp, K_leaf, NULL, K_leaf); break; case C_OTHER_ROOT: x = mk(sp, K_leaf, p.rootB, K_ca[1]); if (vh_chance(30)) l.inter = pem_of(p.rootB); break; case C_FORGED: x = mk(sp, K_leaf, p.rootA, K_ca[3]); break;
	case C_INTER_SENT: case C_INTER_MISSING: case C_INTER_TRUSTED: case C_BADCA: case C_EXP_INTER: i = mk(in, K_ca[2], p.rootA, K_ca[0]); x = mk(sp, K_leaf, i, K_ca[2]); break; default: x = mk(sp, K_leaf, p.rootA, K_ca[0]); }
	l.crt = pem_of(x); if (i && chain != C_INTER_MISSING && chain != C_INTER_TRUSTED) l.inter = pem_of(i); if (chain == C_INTER_TRUSTED) l.trust_extra = pem_of(i); if (chain == C_SELF_TRUSTED) l.trust_extra = l.crt; X509_free(x); if (i) X509_free(i); return l; }
static int rnd_chain() { return vh_chance(55) ? (int)vh_rndn(2) : (int)vh_rndn(C_N); }
static void m_verify() {
	Pki pki; S rootA = pem_of(pki.rootA), key = pem_of(K_leaf); S host = rnd_host(); bool null_host = host == "127.0.0.1" && vh_chance(50); int chain = rnd_chain(); Spec sp; size_t k = vh_rndn(4); for (size_t i = 0; i < k; i++) { S n = rnd_name_for(host); if (is_ip(n)) { if (vh_chance(70)) sp.ip.push_back(n); else sp.dns.push_back(n); } else sp.dns.push_back(n); } if (vh_chance(60) || k == 0) sp.cn = rnd_name_for(host).substr(0, 60); if (vh_chance(10)) sp.ip.push_back("10.7.2.3"); if (vh_chance(10)) sp.dns.push_back("*.0.0.1"); 
	if (vh_chance(4)) sp.dns.push_back(host + S("\0.evil.com", 10)); M_tls_verify_level_t lv = vh_chance(50) ? M_TLS_VERIFY_FULL : (M_tls_verify_level_t)vh_rndn(4);
	Leaf l = mkleaf(pki, chain, sp, false); bool mutual = vh_chance(35); int cchain = rnd_chain(); bool cnone = vh_chance(25); if (cchain == C_INTER_TRUSTED && false) cchain = C_DIRECT; Spec cs; cs.cn = "some client"; Leaf cl = mkleaf(pki, cchain, cs, true); bool two = vh_chance(30);
	M_tls_serverctx_t *sc = mkserver(key, l.crt, l.inter); M_tls_clientctx_t *cc = M_tls_clientctx_create(); bool v13 = vh_chance(60); if (!v13) M_tls_clientctx_set_protocols(cc, M_TLS_PROTOCOL_TLSv1_2);
	VH_CHECK(M_tls_clientctx_set_trust_ca(cc, U(rootA), rootA.size()), "api:trust", "trust_ca failed"); if (!l.trust_extra.empty()) VH_CHECK(M_tls_clientctx_set_trust_cert(cc, U(l.trust_extra), l.trust_extra.size()), "api:trust", "trust_cert failed"); if (lv != M_TLS_VERIFY_FULL || vh_chance(50)) VH_CHECK(M_tls_clientctx_set_verify_level(cc, lv), "api:level", "set_verify_level failed");
	if (mutual) { VH_CHECK(M_tls_serverctx_set_trust_ca(sc, U(rootA), rootA.size()), "api:trust", "server trust_ca failed"); if (!cl.trust_extra.empty()) VH_CHECK(M_tls_serverctx_set_trust_cert(sc, U(cl.trust_extra), cl.trust_extra.size()), "api:trust", "server trust_cert failed"); } bool give = mutual ? !cnone : vh_chance(20); if (give) VH_CHECK(M_tls_clientctx_set_cert(cc, U(key), key.size(), U(cl.crt), cl.crt.size(), cl.inter.empty() ? NULL : U(cl.inter), cl.inter.size()), "api:clientcert", "the client certificate was refused");
	bool cert_ok = lv == M_TLS_VERIFY_NONE || chain_ok(chain), fuzzy = lv == M_TLS_VERIFY_CERT_FUZZY; bool via_san = false, via_cn = false; for (auto &d : sp.dns) if (d.find('\0') == S::npos && name_ok(host, d, fuzzy)) via_san = true; for (auto &d : sp.ip) if (name_ok(host, d, fuzzy)) via_san = true; if (!sp.cn.empty() && name_ok(host, sp.cn, fuzzy)) via_cn = true; if (fuzzy && low(host) == "localhost" && (sp.dns.size() + sp.ip.size() + sp.cn.size())) via_san = true;
	bool named = lv == M_TLS_VERIFY_NONE || lv == M_TLS_VERIFY_CERT_ONLY || via_san || via_cn; bool open_q = !via_san && via_cn && (sp.dns.size() || sp.ip.size()) && (lv == M_TLS_VERIFY_FULL || fuzzy); for (auto &d : sp.dns) if (d.find('\0') != S::npos && !via_san && !via_cn) open_q = false;
	bool sok = !mutual || (give && chain_ok(cchain)); S names; for (auto &d : sp.dns) names += " dns:" + S(E(d)); for (auto &d : sp.ip) names += " ip:" + d; static const char *LV[] = { "none", "cert_only", "fuzzy", "full" };
	S what = vh_fmt("%s, certificate CN=%s%s, host %s%s, level %s, %s%s", CN_[chain], sp.cn.c_str(), names.c_str(), host.c_str(), null_host ? " (from the connection)" : "", LV[lv], v13 ? "TLS 1.3" : "TLS 1.2", mutual ? (S(", client certificate ") + (give ? CN_[cchain] : "none")).c_str() : ""); vh_sample("%s", what.c_str()); vh_distinct(vh_hash(what.data(), what.size(), 0));
	for (int t = 0; t < (two ? 2 : 1); t++) { Net n; n.c.tx = randtx(1 + vh_rndn(200)); n.s.tx = randtx(1 + vh_rndn(200)); static uint16_t port; go(n, cc, sc, null_host ? NULL : host.c_str(), t ? port : 0, &port); S w = what + (t ? " (second connection)" : "");
		if (!cert_ok) { want_client_refuses(n, w, "verify:chain"); vh_count("bad_chain", 1); } else if (!named) { want_client_refuses(n, w, "verify:name"); vh_count("bad_name", 1); } else if (open_q) { common(n, w); vh_count("cn_only", 1); } else if (!sok) want_server_refuses(n, w, "verify:client"); else { want_ok(n, w); vh_count(LV[lv], 1); vh_count(CN_[chain], 1); if (mutual) { vh_count("mutual", 1); VH_CHECK(n.s.peer == cl.crt || (n.s.reused && n.s.peer.empty()), "verify:peer_cert", "%s: the server reports another client certificate", w.c_str()); } VH_CHECK(n.c.peer == l.crt || (n.c.reused && n.c.peer.empty()), "verify:peer_cert", "%s: the client reports another peer certificate", w.c_str()); if (n.c.reused) vh_count("resumed", 1); } }
	M_tls_clientctx_destroy(cc); M_tls_serverctx_destroy(sc); }

static const int VER[] = { M_TLS_PROTOCOL_TLSv1_0, M_TLS_PROTOCOL_TLSv1_1, M_TLS_PROTOCOL_TLSv1_2, M_TLS_PROTOCOL_TLSv1_3 };
static const char *const OLD = "ALL:@SECLEVEL=0:TLS_AES_256_GCM_SHA384:TLS_AES_128_GCM_SHA256";
static bool both_connected(const Net &n) { return n.c.conn && n.s.conn; }
static void m_stream() {
	Pki pki; S rootA = pem_of(pki.rootA), key = pem_of(K_leaf); Spec sp; sp.dns.push_back("www.example.com"); sp.cn = "x"; Leaf l = mkleaf(pki, C_DIRECT, sp, false); M_tls_serverctx_t *sc = mkserver(key, l.crt, l.inter); M_tls_clientctx_t *cc = M_tls_clientctx_create(); M_tls_clientctx_set_trust_ca(cc, U(rootA), rootA.size());
	int v = vh_chance(70) ? 2 + (int)vh_rndn(2) : (int)vh_rndn(4); if (v < 2) { M_tls_clientctx_set_ciphers(cc, OLD); M_tls_serverctx_set_ciphers(sc, OLD); } M_tls_clientctx_set_protocols(cc, VER[v]); M_tls_serverctx_set_protocols(sc, VER[v]);
	Net n; Prox px; n.px = &px; n.wait_arm = true; px.seed = vh_rnd() | 1; px.segment = vh_chance(40); px.kind = vh_chance(25) ? TK_NONE : 1 + (int)vh_rndn(TK_N - 1); px.dir = (int)vh_rndn(2); px.early = vh_chance(15) && px.kind != TK_NONE; px.rec = px.early ? (int)vh_rndn(5) : vh_chance(60) ? (int)vh_rndn(4) : (int)vh_rndn(30); size_t big = px.segment ? 12000 : 90000; n.c.tx = randtx(1 + vh_rndn(vh_chance(50) ? 600 : big)); n.s.tx = randtx(1 + vh_rndn(vh_chance(50) ? 600 : big)); n.chunk = vh_chance(60) ? 1 + vh_rndn(3000) : 0; if (n.chunk && n.chunk < 100) { n.c.tx.resize(std::min<size_t>(n.c.tx.size(), n.chunk * 60)); n.s.tx.resize(std::min<size_t>(n.s.tx.size(), n.chunk * 60)); }
	S what = vh_fmt("TLS 1.%d, %s%s of record %d %s, %zu and %zu bytes in chunks of %zu%s", v, px.early ? "early " : "", TK[px.kind], px.rec, px.dir ? "to the client" : "to the server", n.c.tx.size(), n.s.tx.size(), n.chunk, px.segment ? ", segmented" : ""); vh_sample("%s", what.c_str()); go(n, cc, sc, "www.example.com"); vh_distinct(vh_hash(what.data(), what.size(), px.before));
	common(n, what); if (!px.early) VH_CHECK(n.c.conn && n.s.conn, "refused", "%s: %s", what.c_str(), state_of(n).c_str()); VH_CHECK(n.c.term && (n.s.term || !n.accepted), "noend", "%s: an end never learned that the connection is over: %s", what.c_str(), state_of(n).c_str()); vh_count("records", px.records); vh_count("bytes", n.c.rx.size() + n.s.rx.size());
	if (!px.fired) { want_ok(n, what); vh_count("untampered", 1); } else if (px.early) { vh_count("handshakes", 1); if (!both_connected(n)) vh_count("handshakes_refused", 1); } else { End &to = px.dir ? n.c : n.s; End &from = px.dir ? n.s : n.c; vh_count(TK[px.kind], 1); vh_count(vh_fmt("tls1%d", v).c_str(), 1); bool dup_ok = px.kind == TK_DUP || px.kind == TK_SWAP; uint64_t slack = dup_ok ? 20000 : 0; if (px.before + slack < from.tx.size()) { if (px.kind != TK_DUP) VH_CHECK(to.rx.size() < from.tx.size(), "tamper:complete", "%s: everything arrived although a record with data was changed: %s", what.c_str(), state_of(n).c_str()); vh_count("cut_short", 1); } else vh_count("after_data", 1);
		if (to.rx.size() < from.tx.size() && to.how == M_EVENT_TYPE_ERROR) vh_count("errors", 1); }
	M_tls_clientctx_destroy(cc); M_tls_serverctx_destroy(sc); }

static M_list_str_t *lst(const VS &v) { M_list_str_t *l = M_list_str_create(M_LIST_STR_NONE); for (auto &s : v) M_list_str_insert(l, s.c_str()); return l; }
static void range(int *lo, int *hi) { *lo = (int)vh_rndn(4); *hi = *lo + (int)vh_rndn((uint64_t)(4 - *lo)); }
static void m_nego() {
	Pki pki; S rootA = pem_of(pki.rootA), key = pem_of(K_leaf); static const char *H[] = { "a.example.com", "b.example.com", "c.other.org", "d.e.example.com", "nobody.net" }; size_t nc = vh_rndn(4); std::vector<S> crt; VS cnames; M_tls_serverctx_t *sc = NULL; // contexts with one name each, the first is the parent
	std::vector<M_tls_serverctx_t *> all; for (size_t i = 0; i <= nc; i++) { Spec sp; sp.cn = vh_fmt("ctx %zu", i); S nm = vh_chance(25) ? "*.example.com" : H[vh_rndn(4)]; sp.dns.push_back(nm); cnames.push_back(nm); Leaf l = mkleaf(pki, C_DIRECT, sp, false); crt.push_back(l.crt); M_tls_serverctx_t *s = mkserver(key, l.crt, l.inter); if (i == 0) sc = s; else VH_CHECK(M_tls_serverctx_SNI_ctx_add(sc, s), "api:sni", "SNI_ctx_add failed"); all.push_back(s); }
	VH_CHECK(M_tls_serverctx_SNI_count(sc) == nc, "api:sni", "SNI_count is %zu, not %zu", M_tls_serverctx_SNI_count(sc), nc); M_tls_clientctx_t *cc = M_tls_clientctx_create(); M_tls_clientctx_set_trust_ca(cc, U(rootA), rootA.size()); M_tls_clientctx_set_verify_level(cc, M_TLS_VERIFY_CERT_ONLY);
	int cl = 2, ch = 3, sl = 2, sh = 3; bool old = vh_chance(60); if (old) { range(&cl, &ch); range(&sl, &sh); M_tls_clientctx_set_ciphers(cc, OLD); for (auto s : all) M_tls_serverctx_set_ciphers(s, OLD); auto mask = [](int a, int b) { int m = 0; for (int i = a; i <= b; i++) m |= VER[i]; return m; }; VH_CHECK(M_tls_clientctx_set_protocols(cc, mask(cl, ch)) && M_tls_serverctx_set_protocols(sc, mask(sl, sh)), "api:protocols", "set_protocols failed"); }
	static const char *A[] = { "h2", "http/1.1", "spdy/3", "x", "a-rather-long-protocol-name/1.0" }; VS ca, sa; if (vh_chance(60)) for (int k = 1 + (int)vh_rndn(3); k > 0; k--) ca.push_back(A[vh_rndn(5)]); if (vh_chance(60)) for (int k = 1 + (int)vh_rndn(3); k > 0; k--) sa.push_back(A[vh_rndn(5)]); M_list_str_t *L;
	bool cr = vh_chance(75), sr = vh_chance(75); if (!ca.empty()) { L = lst(ca); VH_CHECK(M_tls_clientctx_set_applications(cc, L), "api:alpn", "client set_applications"); M_list_str_destroy(L); } if (!sa.empty()) { for (auto s : all) { L = lst(sa); VH_CHECK(M_tls_serverctx_set_applications(s, L), "api:alpn", "server set_applications"); M_list_str_destroy(L); } }
	if (!cr || vh_chance(30)) M_tls_clientctx_set_session_resumption(cc, MB(cr)); if (!sr || vh_chance(30)) for (auto s : all) M_tls_serverctx_set_session_resumption(s, MB(sr));
	S host = H[vh_rndn(5)]; size_t want = 0; for (size_t i = 0; i < cnames.size(); i++) if (name_ok(host, cnames[i], false)) { want = i; break; } M_tls_serverctx_t *lk = M_tls_serverctx_SNI_lookup(sc, host.c_str()); bool any = name_ok(host, cnames[want], false); VH_CHECK(lk == (any ? all[want] : NULL), "sni:lookup", "SNI_lookup of %s finds another context than %zu", host.c_str(), want);
	S app; for (auto &x : sa) if (std::find(ca.begin(), ca.end(), x) != ca.end()) { app = x; break; } int lo = std::max(cl, sl), hi = std::min(ch, sh); bool meet = lo <= hi;
	S d; for (auto &x : ca) d += " " + x; d += " |"; for (auto &x : sa) d += " " + x; S nn; for (auto &x : cnames) nn += " " + x; S what = vh_fmt("client 1.%d-1.%d, server 1.%d-1.%d, ALPN%s, contexts%s, host %s, resumption client %d server %d", cl, ch, sl, sh, d.c_str(), nn.c_str(), host.c_str(), (int)cr, (int)sr); vh_sample("%s", what.c_str()); vh_distinct(vh_hash(what.data(), what.size(), 0)); uint16_t port = 0; int times = 1 + (int)vh_rndn(3);
	for (int t = 0; t < times; t++) { Net n; n.c.tx = randtx(1 + vh_rndn(100)); n.s.tx = randtx(1 + vh_rndn(100)); go(n, cc, sc, host.c_str(), t ? port : 0, &port); S w = what + vh_fmt(" (connection %d)", t + 1);
		if (!meet) { common(n, w); VH_CHECK(!n.c.conn && !n.s.conn, "version:none", "%s: connected without a common version", w.c_str()); vh_count("no_common_version", 1); break; }
		want_ok(n, w); VH_CHECK((int)n.c.ver == VER[hi] && (int)n.s.ver == VER[hi], "version:highest", "%s: the version is %s and %s", w.c_str(), M_tls_protocols_to_str(n.c.ver), M_tls_protocols_to_str(n.s.ver)); vh_count(vh_fmt("v1%d", hi).c_str(), 1); VH_CHECK(n.c.app == app && n.s.app == app, "alpn", "%s: the application is '%s' and '%s'", w.c_str(), n.c.app.c_str(), n.s.app.c_str()); if (!app.empty()) vh_count("alpn", 1); VH_CHECK(n.c.cipher == n.s.cipher && !n.c.cipher.empty(), "cipher", "%s: ciphers '%s' and '%s'", w.c_str(), n.c.cipher.c_str(), n.s.cipher.c_str());
		if (!(n.c.reused && n.c.peer.empty())) VH_CHECK(n.c.peer == crt[want], "sni:cert", "%s: another certificate than that of context %zu was presented", w.c_str(), want); VH_CHECK(n.s.has_sni && n.s.sni == host, "sni:name", "%s: the server sees the name '%s'", w.c_str(), n.s.sni.c_str()); if (want) vh_count("sni_child", 1);
		VH_CHECK(n.c.reused == n.s.reused, "resume:agree", "%s: resumed %d on the client and %d on the server", w.c_str(), n.c.reused, n.s.reused); if (n.c.reused) { VH_CHECK(t > 0, "resume:first", "%s: the first connection is resumed", w.c_str()); VH_CHECK(cr, "resume:client_off", "%s: resumed", w.c_str()); VH_CHECK(sr, "resume:server_off", "%s: resumed although the server has it disabled", w.c_str()); vh_count("resumed", 1); } else if (t > 0) { vh_count(cr && sr ? "not_resumed_enabled" : "not_resumed_disabled", 1); } }
	M_tls_clientctx_destroy(cc); M_tls_serverctx_destroy(sc); }
const vh_mode_t vh_modes[] = { { "verify", m_verify, setup, teardown }, { "stream", m_stream, setup, teardown }, { "nego", m_nego, setup, teardown }, {} };
