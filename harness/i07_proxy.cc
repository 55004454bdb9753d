// PROXY protocol: an inbound layer fed raw bytes in random segments against an independent parser, and an outbound layer against an independent encoder
#include "vh.hpp"
#include <mstdlib/mstdlib_io.h>
#include <arpa/inet.h>
#include <signal.h>
static M_dns_t *g_dns;
static void setup(void) { signal(SIGPIPE, SIG_IGN); g_dns = M_dns_create(NULL); }
static void teardown(void) { M_dns_destroy(g_dns); M_library_cleanup(); }
struct Ep { int fam = 0; S src, dst; uint16_t sp = 0, dp = 0; }; // fam 0: local
static S ip4() { return vh_fmt("%d.%d.%d.%d", (int)vh_rndn(256), (int)vh_rndn(256), (int)vh_rndn(256), (int)vh_rndn(256)); }
static S ip6() { unsigned char b[16]; char t[64]; do { for (auto &c : b) c = vh_chance(40) ? 0 : (unsigned char)vh_rnd(); } while (b[0] == 0 && b[1] == 0); if (vh_chance(10)) memset(b + 2, 0xff, 14); inet_ntop(AF_INET6, b, t, sizeof t); return t; }
static uint16_t prt() { return (uint16_t)(vh_chance(40) ? 10000 + vh_rndn(55536) : 1 + vh_rndn(65535)); }
static Ep rnd_ep() { Ep e; e.fam = (int)vh_rndn(5); e.fam = e.fam == 0 ? 0 : e.fam < 3 ? 4 : 6; if (e.fam) { e.src = e.fam == 4 ? ip4() : ip6(); e.dst = e.fam == 4 ? ip4() : ip6(); e.sp = prt(); e.dp = prt(); } return e; }
static S bin(const S &ip) { unsigned char b[16]; if (inet_pton(AF_INET, ip.c_str(), b) == 1) return S((char *)b, 4); if (inet_pton(AF_INET6, ip.c_str(), b) == 1) return S((char *)b, 16); return S(); }
static S be16(unsigned v) { return S(1, (char)(v >> 8)) + S(1, (char)v); }
static const S SIG2("\r\n\r\n\0\r\nQUIT\n", 12);
static S enc1(const Ep &e) { if (!e.fam) return "PROXY UNKNOWN\r\n"; return vh_fmt("PROXY TCP%d %s %s %u %u\r\n", e.fam, e.src.c_str(), e.dst.c_str(), e.sp, e.dp); }
static S enc2(const Ep &e, const S &tlv = "") { S a = e.fam ? bin(e.src) + bin(e.dst) + be16(e.sp) + be16(e.dp) : S(); a += tlv; return SIG2 + S(1, e.fam ? 0x21 : 0x20) + S(1, (char)(e.fam == 4 ? 0x11 : e.fam == 6 ? 0x21 : 0)) + be16((unsigned)a.size()) + a; }
// the independent parser: 1 valid (hdr length in *n), 0 incomplete, -1 malformed, 2 not judged
static int ref(const S &in, bool v1ok, bool v2ok, Ep *e, size_t *n) {
	auto pre = [&](const S &s) { size_t k = std::min(s.size(), in.size()); return in.compare(0, k, s, 0, k) == 0; };
	if (pre(SIG2)) { if (in.size() < 12) return 0; if (!v2ok) return -1; if (in.size() < 16) return 0; uint8_t vc = (uint8_t)in[12], fp = (uint8_t)in[13]; size_t L = (size_t)((uint8_t)in[14] << 8 | (uint8_t)in[15]); if (vc >> 4 != 2) return -1; if ((vc & 15) > 1) return -1; bool local = (vc & 15) == 0; size_t need = fp == 0x11 ? 12 : fp == 0x21 ? 36 : 0; if (fp != 0 && !need) return local ? 2 : -1; if (local && fp) return 2; if (!local && !fp) return 2; if (L < need) return -1; if (in.size() < 16 + L) { // a zero port may be refused at once
			if (need && in.size() >= 16 + need) { const uint8_t *p = (const uint8_t *)in.data() + 16 + need - 4; if ((p[0] | p[1]) == 0 || (p[2] | p[3]) == 0) return -1; } return 0; }
		*n = 16 + L; if (local) { e->fam = 0; return 1; } const unsigned char *p = (const unsigned char *)in.data() + 16; char t[64]; size_t al = need == 12 ? 4 : 16; e->fam = al == 4 ? 4 : 6; int af = al == 4 ? AF_INET : AF_INET6; inet_ntop(af, p, t, sizeof t); e->src = t; inet_ntop(af, p + al, t, sizeof t); e->dst = t; e->sp = (uint16_t)(p[2 * al] << 8 | p[2 * al + 1]); e->dp = (uint16_t)(p[2 * al + 2] << 8 | p[2 * al + 3]); return e->sp && e->dp ? 1 : -1; }
	if (!pre("PROXY ")) return in.size() < 12 ? 0 : -1; if (!v1ok) return in.size() < 12 ? 0 : -1; size_t nl = in.find("\r\n"); if (nl == S::npos) return in.size() > 200 ? -1 : 0; S l = in.substr(0, nl); *n = nl + 2; if (l == "PROXY UNKNOWN") { e->fam = 0; return 1; } if (l.compare(0, 14, "PROXY UNKNOWN ") == 0) return 2; if (nl > 105) return -1;
	VS f; size_t i = 0; for (;;) { size_t j = l.find(' ', i); f.push_back(l.substr(i, j == S::npos ? j : j - i)); if (j == S::npos) break; i = j + 1; } if (f.size() != 6 || f[0] != "PROXY") return -1; if (f[1] != "TCP4" && f[1] != "TCP6") return strcasecmp(f[1].c_str(), "tcp4") && strcasecmp(f[1].c_str(), "tcp6") ? -1 : 2; size_t al = f[1] == "TCP4" ? 4 : 16; if (f[2].find('\0') != S::npos || f[3].find('\0') != S::npos) return -1; for (int k = 2; k < 4; k++) if (bin(f[k]).size() != al) return al == 4 && bin(f[k]).empty() && !f[k].empty() && f[k].find_first_not_of("0123456789.xX/") == S::npos ? 2 : -1; // c-ares reads short IPv4 forms
	for (int k = 4; k < 6; k++) { if (f[k].empty() || f[k].size() > 5) return -1; for (char c : f[k]) if (c < '0' || c > '9') return -1; long v = atol(f[k].c_str()); if (v < 1 || v > 65535) return -1; if (f[k][0] == '0') return 2; } e->fam = al == 4 ? 4 : 6; e->src = f[2]; e->dst = f[3]; e->sp = (uint16_t)atol(f[4].c_str()); e->dp = (uint16_t)atol(f[5].c_str()); return 1; }

struct Side { const char *who; M_io_t *io = NULL; bool conn = false, term = false, gone = false; M_event_type_t how = M_EVENT_TYPE_OTHER; S tx, rx; size_t off = 0; int nconn = 0; bool data_before = false; Ep ep; bool relayed = false; int type = -1; S err; };
struct Net { Side c, s; M_event_t *el = NULL; M_io_t *lst = NULL; bool accepted = false; std::vector<size_t> seg; size_t segi = 0; bool close_after = true, hold = false; uint64_t t0 = 0; bool stuck = false, inbound = true; M_uint32 in_flags = 0; bool segmented = false; uint64_t tmo = 0, t_acc = 0, t_err = 0; size_t readmax = 4000; };
static Net *N;
static void done_if() { if (N->c.gone && (N->s.gone || !N->accepted)) M_event_done(N->el); }
static void kill_side(Side *e) { if (e->io && !e->gone) { M_io_t *io = e->io; e->gone = true; e->io = NULL; M_io_destroy(io); } done_if(); }
static void push(Side *e) { if (!e->conn || e->term || !e->io) return; if (e == &N->c && N->segmented) return; while (e->off < e->tx.size()) { size_t w = 0; if (M_io_write(e->io, (const unsigned char *)e->tx.data() + e->off, e->tx.size() - e->off, &w) != M_IO_ERROR_SUCCESS) return; e->off += w; } }
static void pull(Side *e) { std::vector<unsigned char> b(N->readmax); for (;;) { size_t n = 0; if (!e->io || M_io_read(e->io, b.data(), b.size(), &n) != M_IO_ERROR_SUCCESS) return; if (!e->conn) e->data_before = true; e->rx.append((char *)b.data(), n); } }
static void cb(M_event_t *, M_event_type_t type, M_io_t *io, void *arg) { Side *e = (Side *)arg; if (e->gone) { vh_viol("event:after_destroy", "%s: event after destroy", e->who); return; }
	switch (type) { case M_EVENT_TYPE_CONNECTED: e->nconn++; e->conn = true; if (e == &N->s) { e->relayed = M_io_proxy_protocol_relayed(io) == M_TRUE; const char *p; if ((p = M_io_proxy_protocol_source_ipaddr(io))) e->ep.src = p; if ((p = M_io_proxy_protocol_dest_ipaddr(io))) e->ep.dst = p; e->ep.sp = M_io_proxy_protocol_source_port(io); e->ep.dp = M_io_proxy_protocol_dest_port(io); e->type = (int)M_io_proxy_protocol_proxied_type(io); } push(e); break;
	case M_EVENT_TYPE_READ: pull(e); break; case M_EVENT_TYPE_WRITE: push(e); break;
	case M_EVENT_TYPE_DISCONNECTED: case M_EVENT_TYPE_ERROR: { char m[256] = { 0 }; pull(e); M_io_get_error_string(io, m, sizeof m); e->err = m; e->term = true; e->how = type; if (e == &N->s) N->t_err = vh_now_us(); kill_side(e); if (e == &N->s) kill_side(&N->c); return; } default: break; }
	// the sender closes once all is written and, when it expects an answer, read
	if (!N->segmented && N->c.io && N->c.off == N->c.tx.size() && N->c.conn && N->close_after && N->c.rx.size() >= N->s.tx.size() && !N->c.term) M_io_disconnect(N->c.io); }
static void lcb(M_event_t *el, M_event_type_t type, M_io_t *io, void *) { if (type != M_EVENT_TYPE_ACCEPT) return; M_io_t *n = NULL; if (M_io_accept(&n, io) != M_IO_ERROR_SUCCESS) return; if (N->accepted) { M_io_destroy(n); return; } N->accepted = true; N->s.io = n; N->t_acc = vh_now_us(); if (N->inbound) { M_io_proxy_protocol_inbound_add(n, NULL, N->in_flags); M_io_proxy_protocol_set_connect_timeout_ms(n, N->tmo); } M_event_add(el, n, cb, &N->s); }
static void tick(M_event_t *, M_event_type_t, M_io_t *, void *) { if (vh_now_us() - N->t0 > 10000000) { N->stuck = true; M_event_done(N->el); return; } if (N->segmented && N->c.io && N->c.conn && !N->c.term && N->accepted) { if (N->segi < N->seg.size()) { size_t n = N->seg[N->segi++], w = 0; M_io_write(N->c.io, (const unsigned char *)N->c.tx.data() + N->c.off, n, &w); N->c.off += w; if (w < n) N->seg.insert(N->seg.begin() + (long)N->segi, n - w); } if (N->segi == N->seg.size() && N->close_after && N->c.rx.size() >= N->s.tx.size()) { N->segi++; M_io_disconnect(N->c.io); } } }
static void go(Net &n, bool outbound, M_uint32 oflags, const Ep *ep) { N = &n; n.c.who = "client"; n.s.who = "server"; n.el = M_event_create(vh_chance(50) ? M_EVENT_FLAG_NONE : M_EVENT_FLAG_NON_SCALABLE); VH_CHECK(M_io_net_server_create(&n.lst, 0, "127.0.0.1", M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "harness:listen", "cannot listen"); VH_CHECK(M_io_net_client_create(&n.c.io, g_dns, "127.0.0.1", M_io_net_get_port(n.lst), M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "harness:client", "no client");
	if (outbound) { VH_CHECK(M_io_proxy_protocol_outbound_add(n.c.io, NULL, oflags) == M_IO_ERROR_SUCCESS, "api:outbound", "outbound_add"); if (ep->fam) VH_CHECK(M_io_proxy_protocol_set_source_endpoints(n.c.io, ep->src.c_str(), ep->dst.c_str(), ep->sp, ep->dp), "api:endpoints", "endpoints %s %s %u %u were refused", ep->src.c_str(), ep->dst.c_str(), ep->sp, ep->dp); }
	n.t0 = vh_now_us(); M_event_add(n.el, n.lst, lcb, NULL); M_event_add(n.el, n.c.io, cb, &n.c); M_event_timer_t *t = M_event_timer_add(n.el, tick, NULL); M_event_timer_set_firecount(t, 0); M_event_timer_start(t, 1); M_event_loop(n.el, M_TIMEOUT_INF); for (Side *e : { &n.c, &n.s }) if (e->io && !e->gone) { e->gone = true; M_io_destroy(e->io); } M_io_destroy(n.lst); M_event_destroy(n.el); vh_count("connections", 1); }
static S cut(const S &s) { return E(s.substr(0, 160)); }
static void same_ep(const Net &n, const Ep &e, const S &what) { VH_CHECK(n.s.relayed == (e.fam != 0), "report:relayed", "%s: relayed is %d", what.c_str(), n.s.relayed); if (!e.fam) return; VH_CHECK(bin(n.s.ep.src) == bin(e.src) && bin(n.s.ep.dst) == bin(e.dst) && n.s.ep.sp == e.sp && n.s.ep.dp == e.dp, "report:endpoints", "%s: reported %s %s %u %u", what.c_str(), n.s.ep.src.c_str(), n.s.ep.dst.c_str(), n.s.ep.sp, n.s.ep.dp); VH_CHECK(n.s.type == (e.fam == 4 ? (int)M_IO_NET_IPV4 : (int)M_IO_NET_IPV6), "report:type", "%s: type %d", what.c_str(), n.s.type); }
static S mutate(S h, bool v2) { switch (vh_rndn(12)) { case 0: case 1: h[vh_rndn(h.size())] ^= (char)(1 << vh_rndn(8)); break; case 2: h.erase(vh_rndn(h.size()), 1 + vh_rndn(3)); break; case 3: h.insert(vh_rndn(h.size()), S(1, vh_chance(50) ? ' ' : (char)vh_rnd())); break; case 4: h = vh_ascii(vh_len()); break; case 5: h = h.substr(0, vh_rndn(h.size())); break; case 6: if (v2) h[14 + vh_rndn(2)] = (char)vh_rndn(40); else { size_t p = h.rfind("\r\n"); if (p != S::npos) h.replace(p, 2, vh_chance(50) ? "\n" : " \r\n"); } break; case 7: if (v2) h[12] = (char)vh_rnd(); else { size_t p = h.find("TCP"); if (p != S::npos && p + 3 < h.size()) h[p + 3] = h[p + 3] == '4' ? '6' : '4'; } break; case 8: if (v2) h[13] = (char)vh_rnd(); else { size_t p = h.rfind(' '); if (p != S::npos) h.insert(p + 1, vh_chance(50) ? "6" : "99"); } break; case 9: if (v2 && h.size() > 20) h.replace(h.size() - 2 - 2 * vh_rndn(2), 2, S(2, 0)); else { size_t p = h.rfind("\r\n"); if (p != S::npos) h.insert(p, vh_chance(50) ? "x" : "%"); } break; case 10: h = S("GET / HTTP/1.1\r\nHost: x\r\n\r\n"); break; default: for (int k = 0; k < 3; k++) h[vh_rndn(h.size())] = (char)vh_rnd(); } return h; }
static void m_inbound() {
	Ep e = rnd_ep(); bool v2 = vh_chance(50); S tlv; if (v2 && vh_chance(40)) tlv = vh_bytes(1 + vh_rndn(vh_chance(80) ? 60 : 4000)); S h = v2 ? enc2(e, tlv) : enc1(e); bool bad = vh_chance(45); if (bad) for (int k = vh_chance(80) ? 1 : 2; k > 0 && !h.empty(); k--) h = mutate(h, h.size() > 16 && h.compare(0, 12, SIG2) == 0); S data = vh_chance(30) ? S() : vh_bytes(1 + vh_rndn(vh_chance(80) ? 100 : 9000)); if (bad && vh_chance(25)) data.clear();
	Net n; n.in_flags = vh_chance(70) ? 0 : vh_chance(33) ? (M_uint32)M_IO_PROXY_PROTOCOL_FLAG_V1 : vh_chance(50) ? (M_uint32)M_IO_PROXY_PROTOCOL_FLAG_V2 : (M_uint32)(M_IO_PROXY_PROTOCOL_FLAG_V1 | M_IO_PROXY_PROTOCOL_FLAG_V2); bool v1ok = n.in_flags != M_IO_PROXY_PROTOCOL_FLAG_V2, v2ok = n.in_flags != M_IO_PROXY_PROTOCOL_FLAG_V1; n.c.tx = h + data; n.segmented = true; n.readmax = vh_chance(50) ? 4000 : 1 + vh_rndn(50); size_t left = n.c.tx.size(), hl = h.size(), pos = 0; int style = (int)vh_rndn(4); if (left > 600 && style == 1) style = 0;
	while (left) { size_t k = style == 0 ? left : style == 1 ? 1 + vh_rndn(6) : style == 2 ? 1 + vh_rndn(left) : 1 + vh_rndn(40); if (style == 3 && pos > hl) k = left; if (style == 2 && vh_chance(50) && pos < hl) k = hl - pos; k = std::min(k, left); n.seg.push_back(k); left -= k; pos += k; }
	Ep r; size_t hn = 0; int v = ref(n.c.tx, v1ok, v2ok, &r, &hn); n.tmo = v == 0 ? 30 + vh_rndn(40) : 8000; n.close_after = v != 0 || vh_chance(50); if (v == 1 && vh_chance(30)) n.s.tx = vh_bytes(1 + vh_rndn(50)); if (vh_chance(30) && v == 1 && n.seg.size() > 60) n.seg.clear(), n.seg.push_back(n.c.tx.size());
	S what = vh_fmt("header '%s' + %zu bytes in %zu segments, flags %d", cut(h).c_str(), data.size(), n.seg.size(), (int)n.in_flags); if (!n.seg.empty()) what += vh_fmt(" (first %zu)", n.seg[0]); vh_sample("%s", what.c_str()); vh_distinct(vh_hash(n.c.tx.data(), n.c.tx.size(), n.seg.size())); go(n, false, 0, NULL);
	VH_CHECK(!n.stuck, "stuck", "%s: no end", what.c_str()); VH_CHECK(!n.s.data_before, "data:before", "%s: application data before the connected event", what.c_str()); if (!n.accepted) return;
	if (v == 2) { vh_count("not_judged", 1); return; }
	if (v == 1) { VH_CHECK(n.s.conn && n.s.nconn == 1, "valid:refused", "%s: a valid header was refused: %s", what.c_str(), n.s.err.c_str()); same_ep(n, r, what); S want = n.c.tx.substr(hn); VH_CHECK(n.s.rx == want, n.s.rx.size() < want.size() && want.compare(0, n.s.rx.size(), n.s.rx) == 0 ? "data:lost" : "data:corrupt", "%s: the application got %zu bytes after the header, %zu were sent", what.c_str(), n.s.rx.size(), want.size()); vh_count(v2 ? "valid_v2" : "valid_v1", 1); if (!n.s.tx.empty()) VH_CHECK(n.c.rx == n.s.tx, "data:answer", "%s: the answer got lost", what.c_str()); }
	else { VH_CHECK(!n.s.conn && n.s.rx.empty(), v == 0 ? "truncated:accepted" : "malformed:accepted", "%s: accepted as relayed %d %s %s %u %u", what.c_str(), n.s.relayed, n.s.ep.src.c_str(), n.s.ep.dst.c_str(), n.s.ep.sp, n.s.ep.dp); VH_CHECK(n.s.term, "refused:noevent", "%s: no terminal event", what.c_str()); vh_count(v == 0 ? "truncated" : "malformed", 1); if (v == 0 && !n.close_after) { vh_count("timeouts", 1); VH_CHECK(n.t_err - n.t_acc < 5000000, "timeout", "%s: the timeout of %d ms took %d ms", what.c_str(), (int)n.tmo, (int)((n.t_err - n.t_acc) / 1000)); } } }
static void m_outbound() { // wire bytes, or both layers
	Ep e = rnd_ep(); M_uint32 of = (M_uint32)vh_rndn(4) * 1; Net n; n.inbound = vh_chance(60); n.tmo = 8000; n.c.tx = vh_bytes(vh_rndn(vh_chance(80) ? 100 : 20000)); n.s.tx = n.inbound || true ? vh_bytes(vh_rndn(200)) : S(); bool v1 = (of & M_IO_PROXY_PROTOCOL_FLAG_V1) && !(of & M_IO_PROXY_PROTOCOL_FLAG_V2); n.readmax = vh_chance(50) ? 4000 : 1 + vh_rndn(50); S what = vh_fmt("outbound flags %d family %d %s %s %u %u, %zu bytes", (int)of, e.fam, e.src.c_str(), e.dst.c_str(), e.sp, e.dp, n.c.tx.size()); vh_sample("%s", what.c_str()); vh_distinct(vh_hash(what.data(), what.size(), 0)); go(n, true, of, &e);
	VH_CHECK(!n.stuck && n.accepted, "stuck", "%s: no end", what.c_str()); VH_CHECK(n.c.nconn == 1 && n.s.nconn == 1, "connect", "%s: %d and %d connected events", what.c_str(), n.c.nconn, n.s.nconn); S got = n.s.rx; if (!n.inbound) { S a = v1 ? enc1(e) : enc2(e); bool same = got.size() >= a.size() && got.compare(0, a.size(), a) == 0; VH_CHECK(same, "wire:header", "%s: the wire has '%s', not '%s'", what.c_str(), cut(got).c_str(), E(a)); got.erase(0, a.size()); vh_count("wire", 1); } else { same_ep(n, e, what); vh_count("both", 1); } VH_CHECK(got == n.c.tx, "data:corrupt", "%s: %zu of %zu bytes arrived", what.c_str(), got.size(), n.c.tx.size()); VH_CHECK(n.c.rx == n.s.tx, "data:answer", "%s: %zu of %zu bytes came back", what.c_str(), n.c.rx.size(), n.s.tx.size());
	// endpoints that make no sense are refused
	M_io_t *io = NULL; M_io_net_client_create(&io, g_dns, "127.0.0.1", 9, M_IO_NET_IPV4); M_io_proxy_protocol_outbound_add(io, NULL, of); S a = ip4(), b = ip6(); VH_CHECK(!M_io_proxy_protocol_set_source_endpoints(io, a.c_str(), b.c_str(), 1, 2) && !M_io_proxy_protocol_set_source_endpoints(io, b.c_str(), a.c_str(), 1, 2), "api:endpoints", "mixed endpoints %s %s are accepted", a.c_str(), b.c_str()); VH_CHECK(!M_io_proxy_protocol_set_source_endpoints(io, a.c_str(), a.c_str(), 0, 2) && !M_io_proxy_protocol_set_source_endpoints(io, a.c_str(), a.c_str(), 1, 0) && !M_io_proxy_protocol_set_source_endpoints(io, "nonsense", a.c_str(), 1, 2) && !M_io_proxy_protocol_set_source_endpoints(io, a.c_str(), NULL, 1, 2), "api:endpoints", "invalid endpoints are accepted"); M_io_destroy(io); }
const vh_mode_t vh_modes[] = { { "inbound", m_inbound, setup, teardown }, { "outbound", m_outbound, setup, teardown }, {} };
