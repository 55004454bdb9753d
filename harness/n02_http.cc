// the HTTP client against an independent socket server that plays scripted responses and records what it was asked
#include "vh.hpp"
#include <mstdlib/mstdlib_net.h>
#include <mstdlib/mstdlib_formats.h>
#include <mstdlib/mstdlib_tls.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <atomic>
static M_dns_t *g_dns; static M_event_t *g_el; static int g_ls; static uint16_t g_port;
struct Resp { S bytes; std::vector<size_t> seg; uint64_t gap = 0; bool close_after = true, never = false, reset = false; S expect_continue; };
struct Req { S method, target, version, body; std::vector<std::pair<S, S>> hdr; bool ok = false; S raw; };
struct Srv { std::vector<Resp> script; std::vector<Req> got; std::atomic<bool> stop{ false }; size_t conns = 0; pthread_t th; };
static S lower(S s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }
static S hget(const Req &r, const char *n, int *cnt = NULL) { S v; int k = 0; for (auto &h : r.hdr) if (lower(h.first) == lower(n)) { v = h.second; k++; } if (cnt) *cnt = k; return v; }
static bool wait_fd(int fd, short ev, Srv *s, int ms) { for (; ms > 0 && !s->stop; ms -= 5) { pollfd p{ fd, ev, 0 }; if (poll(&p, 1, 5) > 0) return true; } return false; }
static void serve(Srv *s, int fd, size_t idx) { Req q; char b[8192]; size_t need = S::npos; for (;;) { size_t he = q.raw.find("\r\n\r\n"); if (he != S::npos && need == S::npos) { size_t i = q.raw.find("\r\n"); S l = q.raw.substr(0, i); size_t a = l.find(' '), z = l.rfind(' '); if (a != S::npos && z > a) { q.method = l.substr(0, a); q.target = l.substr(a + 1, z - a - 1); q.version = l.substr(z + 1); } i += 2; while (i < he + 2) { size_t e = q.raw.find("\r\n", i); S h = q.raw.substr(i, e - i); size_t c = h.find(':'); S v = c == S::npos ? S() : h.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); q.hdr.push_back({ h.substr(0, c), v }); i = e + 2; } S cl = hget(q, "content-length"); need = he + 4 + (cl.empty() ? 0 : strtoul(cl.c_str(), NULL, 10)); } if (need != S::npos && q.raw.size() >= need) { q.body = q.raw.substr(q.raw.find("\r\n\r\n") + 4); q.ok = true; break; } if (!wait_fd(fd, POLLIN, s, 20000)) break; ssize_t r = recv(fd, b, sizeof b, 0); if (r <= 0) break; q.raw.append(b, (size_t)r); }
	s->got.push_back(q); if (!q.ok || idx >= s->script.size()) return; const Resp &r = s->script[idx]; size_t off = 0; for (size_t n : r.seg) { size_t e = off + n; while (off < e && !s->stop) { if (!wait_fd(fd, POLLOUT, s, 20000)) return; ssize_t w = send(fd, r.bytes.data() + off, e - off, MSG_NOSIGNAL); if (w <= 0) return; off += (size_t)w; } for (uint64_t t = 0; t < r.gap && !s->stop; t++) usleep(1000); }
	if (r.never || !r.close_after) wait_fd(fd, POLLIN | POLLRDHUP, s, 30000); else if (r.reset) { linger lg{ 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); } }
static void *srv_main(void *a) { Srv *s = (Srv *)a; while (!s->stop) { pollfd p{ g_ls, POLLIN, 0 }; if (poll(&p, 1, 2) <= 0) continue; int fd = accept(g_ls, NULL, NULL); if (fd < 0) continue; int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); size_t i = s->conns++; serve(s, fd, i); close(fd); } return NULL; }
static void setup(void) { signal(SIGPIPE, SIG_IGN); g_dns = M_dns_create(NULL); g_el = M_event_create(M_EVENT_FLAG_NONE); g_ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(g_ls, (sockaddr *)&a, sizeof a) || listen(g_ls, 64)) abort(); socklen_t l = sizeof a; getsockname(g_ls, (sockaddr *)&a, &l); g_port = ntohs(a.sin_port); }
static void teardown(void) { M_dns_destroy(g_dns); M_event_destroy(g_el); close(g_ls); M_library_cleanup(); }
struct Out { int calls = 0; bool cancelled = false; M_net_error_t ne = M_NET_ERROR_SUCCESS; M_http_error_t he = M_HTTP_ERROR_SUCCESS; bool has = false; uint32_t code = 0; S reason, body; std::map<S, S> hdr; S err; uint64_t t1 = 0; M_event_timer_t *tail = NULL; M_net_http_simple_t *hs = NULL; int ncreate = 0; S proxy, pauth; };
static Out *O;
static void end_cb(M_event_t *el, M_event_type_t, M_io_t *, void *) { M_event_done(el); }
static void later(uint64_t ms) { if (!O->tail) { O->tail = M_event_timer_add(g_el, end_cb, NULL); M_event_timer_set_firecount(O->tail, 1); M_event_timer_start(O->tail, ms); } }
static void done(M_net_error_t ne, M_http_error_t he, const M_http_simple_read_t *r, const char *error, void *th) { if (th != O) { vh_viol("done:thunk", "the completion has another thunk"); return; } if (O->cancelled) vh_viol("cancel:completed", "a cancelled request completed"); if (O->calls++) vh_viol("done:twice", "the request completed twice"); O->ne = ne; O->he = he; O->has = r != NULL; O->err = error ? error : ""; O->t1 = vh_now_us(); if (r) { O->code = M_http_simple_read_status_code(r); const char *p = M_http_simple_read_reason_phrase(r); O->reason = p ? p : ""; size_t n = 0; const unsigned char *b = M_http_simple_read_body(r, &n); if (b) O->body.assign((const char *)b, n); M_hash_dict_t *d = M_http_simple_read_headers_dict(r); M_hash_dict_enum_t *e; const char *k, *v; M_hash_dict_enumerate(d, &e); while (M_hash_dict_enumerate_next(d, e, &k, &v)) O->hdr[lower(k)] = v; M_hash_dict_enumerate_free(e); M_hash_dict_destroy(d); } O->hs = NULL; later(vh_chance(90) ? 2 : 25); }
static M_bool iocreate(M_io_t *, char *, size_t, void *th) { if (th != O) vh_viol("iocreate:thunk", "another thunk"); O->ncreate++; return M_TRUE; }
static void cancel_cb(M_event_t *, M_event_type_t, M_io_t *, void *) { if (O->calls || O->cancelled) return; O->cancelled = true; M_net_http_simple_cancel(O->hs); O->hs = NULL; later(30); }
static void guard_cb(M_event_t *el, M_event_type_t, M_io_t *, void *) { M_event_done(el); }
struct Want { uint32_t code; S reason, body; std::map<S, S> hdr; };
static S tok() { S s = "X-"; for (size_t n = 1 + vh_rndn(8); n > 0; n--) s += (char)('a' + vh_rndn(26)); return s; }
static S val() { S s; for (size_t n = 1 + vh_rndn(30); n > 0; n--) s += (char)(vh_chance(80) ? 'a' + vh_rndn(26) : "0123456789-_. /=()"[vh_rndn(18)]); while (!s.empty() && s.back() == ' ') s.pop_back(); while (!s.empty() && s[0] == ' ') s.erase(0, 1); return s.empty() ? "v" : s; }
static void segs(Resp &r, int style) { size_t left = r.bytes.size(); while (left) { size_t n = style == 0 ? left : style == 1 ? 1 + vh_rndn(20) : style == 2 ? 1 + vh_rndn(left) : 1 + vh_rndn(300); n = std::min(n, left); r.seg.push_back(n); left -= n; } }
// kind of framing: 0 content-length, 1 chunked, 2 until close
static Resp mkresp(Want &w, uint32_t code, int framing, const S &body, const S &location) { static const char *reasons[] = { "OK", "Found It", "Whatever", "No" }; w.code = code; w.reason = reasons[vh_rndn(4)]; w.body = body; w.hdr.clear(); for (size_t n = vh_rndn(4); n > 0; n--) w.hdr[lower(tok())] = val(); S h = vh_fmt("HTTP/1.1 %u %s\r\n", code, w.reason.c_str()); for (auto &x : w.hdr) h += x.first + ": " + x.second + "\r\n"; if (!location.empty()) h += "Location: " + location + "\r\n"; Resp r; if (framing == 0) r.bytes = h + vh_fmt("Content-Length: %zu\r\n\r\n", body.size()) + body; else if (framing == 1) { S c; size_t i = 0; while (i < body.size()) { size_t n = std::min(body.size() - i, (size_t)(1 + vh_rndn(vh_chance(70) ? 40 : 4000))); c += vh_fmt(vh_chance(50) ? "%zx\r\n" : "%zX\r\n", n) + body.substr(i, n) + "\r\n"; i += n; } r.bytes = h + "Transfer-Encoding: chunked\r\n\r\n" + c + "0\r\n\r\n"; } else r.bytes = h + "\r\n" + body; r.close_after = framing == 2 || vh_chance(50); return r; }
static S rbody() { return vh_chance(15) ? S() : vh_bytes(1 + vh_rndn(vh_chance(80) ? 300 : 60000)); }
struct Ask { M_http_method_t m = M_HTTP_METHOD_GET; S mname = "GET", ua, ct, cs, body, path; std::map<S, S> hdr; bool set = false; };
static Ask mkask() { Ask a; a.set = vh_chance(80); a.path = "/"; for (size_t n = vh_rndn(4); n > 0; n--) { for (size_t k = 1 + vh_rndn(6); k > 0; k--) a.path += (char)('a' + vh_rndn(26)); if (vh_chance(15)) a.path += ":"; if (n > 1) a.path += "/"; } if (vh_chance(40)) a.path += vh_fmt("?a=%d&t=%d:%d", (int)vh_rndn(100), (int)vh_rndn(24), (int)vh_rndn(60)); if (a.path == "/" && vh_chance(30)) a.path = ""; if (a.path.compare(0, 2, "/?") == 0 && vh_chance(50)) a.path.erase(0, 1); if (!a.set) return a; static const struct { M_http_method_t m; const char *n; } ms[] = { { M_HTTP_METHOD_GET, "GET" }, { M_HTTP_METHOD_POST, "POST" }, { M_HTTP_METHOD_PUT, "PUT" }, { M_HTTP_METHOD_DELETE, "DELETE" } }; auto &x = ms[vh_rndn(4)]; a.m = x.m; a.mname = x.n; if (vh_chance(50)) a.ua = "agent/" + val(); if (vh_chance(70)) { a.body = vh_bytes(1 + vh_rndn(vh_chance(75) ? 400 : 400000)); a.ct = vh_chance(50) ? "text/plain" : "application/octet-stream"; if (a.ct[0] == 't' && vh_chance(50)) a.cs = "utf-8"; if (vh_chance(20)) a.ct.clear(), a.cs.clear(); } for (size_t n = vh_rndn(4); n > 0; n--) a.hdr[tok()] = val(); return a; }
static Srv *SV; static M_event_timer_t *T_guard, *T_cancel;
static void finish_case() { if (SV) { SV->stop = true; pthread_join(SV->th, NULL); } if (O->hs) { M_net_http_simple_cancel(O->hs); O->hs = NULL; } M_event_timer_remove(O->tail); O->tail = NULL; M_event_timer_remove(T_guard); T_guard = NULL; M_event_timer_remove(T_cancel); T_cancel = NULL; uint64_t t = vh_now_us(); while (M_event_num_objects(g_el) && vh_now_us() - t < 3000000) M_event_loop(g_el, 5); if (M_event_num_objects(g_el)) vh_viol("leak:connection", "%d objects are left in the event loop", (int)M_event_num_objects(g_el)); }
// runs one request; returns false when send refused
static bool go(Srv &sv, const Ask &a, const S &url, uint64_t redirects, uint64_t maxsz, uint64_t ct, uint64_t st, uint64_t ov, int64_t cancel_us, uint64_t *elapsed) { SV = &sv; pthread_create(&sv.th, NULL, srv_main, &sv); M_net_http_simple_t *hs = M_net_http_simple_create(g_el, g_dns, done); O->hs = hs; M_net_http_simple_set_timeouts(hs, ct, st, ov); if (redirects != 16 || vh_chance(50)) M_net_http_simple_set_max_redirects(hs, redirects); if (maxsz) M_net_http_simple_set_max_receive_size(hs, maxsz); if (a.set) { M_hash_dict_t *d = NULL; if (!a.hdr.empty()) { d = M_hash_dict_create(8, 75, M_HASH_DICT_CASECMP); for (auto &h : a.hdr) M_hash_dict_insert(d, h.first.c_str(), h.second.c_str()); } M_net_http_simple_set_message(hs, a.m, a.ua.empty() ? NULL : a.ua.c_str(), a.ct.empty() ? NULL : a.ct.c_str(), a.cs.empty() ? NULL : a.cs.c_str(), d, a.body.empty() ? NULL : (const unsigned char *)a.body.data(), a.body.size()); M_hash_dict_destroy(d); } if (!O->proxy.empty()) { M_net_http_simple_set_proxy(hs, O->proxy.c_str()); if (!O->pauth.empty()) M_net_http_simple_set_proxy_authentication(hs, O->pauth.substr(0, O->pauth.find(':')).c_str(), O->pauth.substr(O->pauth.find(':') + 1).c_str()); } M_net_http_simple_set_iocreate(hs, iocreate); uint64_t t0 = vh_now_us(); bool ok = M_net_http_simple_send(hs, url.c_str(), O); if (ok) { T_guard = M_event_timer_add(g_el, guard_cb, NULL); M_event_timer_set_firecount(T_guard, 1); M_event_timer_start(T_guard, 15000); if (cancel_us >= 0) { T_cancel = M_event_timer_add(g_el, cancel_cb, NULL); M_event_timer_set_firecount(T_cancel, 1); M_event_timer_start(T_cancel, (uint64_t)cancel_us / 1000); if (cancel_us == 0) cancel_cb(NULL, M_EVENT_TYPE_OTHER, NULL, NULL); } M_event_loop(g_el, M_TIMEOUT_INF); } *elapsed = O->t1 ? O->t1 - t0 : 0; finish_case(); vh_count("requests", 1); return ok; }
static S url_of(const Ask &a) { return vh_fmt("%s://127.0.0.1:%d", vh_chance(90) ? "http" : "HTTP", g_port) + a.path + (vh_chance(10) ? "#frag" : ""); }
static void asked(const Ask &a, const Req &q, const S &path, const S &what) { VH_CHECK(q.ok, "request:incomplete", "%s: the server got '%s'", what.c_str(), E(q.raw.substr(0, 200))); S t = path.empty() || path[0] != '/' ? "/" + path : path; VH_CHECK(q.method == a.mname && q.target == t && q.version == "HTTP/1.1", "request:line", "%s: the request line is '%s %s %s'", what.c_str(), E(q.method), E(q.target), E(q.version)); int n; S h = hget(q, "Host", &n); VH_CHECK(n == 1 && h == vh_fmt("127.0.0.1:%d", g_port), "request:host", "%s: %d Host headers, '%s'", what.c_str(), n, E(h)); VH_CHECK(q.body == a.body, "request:body", "%s: %zu body bytes of %zu%s", what.c_str(), q.body.size(), a.body.size(), q.body.size() == a.body.size() ? " differ" : ""); if (!a.ua.empty()) VH_CHECK(hget(q, "User-Agent") == a.ua, "request:agent", "%s: agent '%s'", what.c_str(), E(hget(q, "User-Agent"))); if (!a.ct.empty()) { S c = hget(q, "Content-Type"); VH_CHECK(c == a.ct || (c.compare(0, a.ct.size(), a.ct) == 0 && c[a.ct.size()] == ';'), "request:type", "%s: type '%s'", what.c_str(), E(c)); if (!a.cs.empty()) VH_CHECK(lower(c).find("charset=" + a.cs) != S::npos || lower(c).find("charset=\"" + a.cs) != S::npos, "request:charset", "%s: type '%s'", what.c_str(), E(c)); } for (auto &x : a.hdr) { int k; S v = hget(q, x.first.c_str(), &k); VH_CHECK(k == 1 && v == x.second, "request:header", "%s: header %s is there %d times, '%s' not '%s'", what.c_str(), x.first.c_str(), k, E(v), E(x.second)); } }
static void same(const Want &w, const S &what) { VH_CHECK(O->calls == 1, "done:missing", "%s: %d completions", what.c_str(), O->calls); VH_CHECK(O->ne == M_NET_ERROR_SUCCESS && O->he == M_HTTP_ERROR_SUCCESS && O->has, "response:error", "%s: %s / %s: %s", what.c_str(), M_net_errcode_to_str(O->ne), M_http_errcode_to_str(O->he), O->err.c_str()); VH_CHECK(O->code == w.code && O->reason == w.reason, "response:status", "%s: %u '%s', not %u '%s'", what.c_str(), O->code, O->reason.c_str(), w.code, w.reason.c_str()); VH_CHECK(O->body == w.body, "response:body", "%s: the body has %zu bytes, not %zu", what.c_str(), O->body.size(), w.body.size()); for (auto &x : w.hdr) VH_CHECK(O->hdr.count(x.first) && O->hdr[x.first] == x.second, "response:header", "%s: header %s is '%s' not '%s'", what.c_str(), x.first.c_str(), O->hdr.count(x.first) ? O->hdr[x.first].c_str() : "(missing)", x.second.c_str()); }
struct Case { Srv sv; Out out; Case() { O = &out; SV = NULL; } };
static Case *C;
static void fresh() { delete C; C = new Case; }
static void tear() { delete C; C = NULL; teardown(); }
static uint32_t okcode() { static const uint32_t c[] = { 200, 200, 201, 202, 206, 400, 403, 404, 500, 503, 299 }; return c[vh_rndn(11)]; }
static void m_final() { fresh(); Ask a = mkask(); uint64_t k = vh_chance(50) ? 0 : vh_rndn(6), mx = vh_chance(50) ? 16 : vh_rndn(6); Want w, dummy; std::vector<S> paths = { a.path }; int fr = (int)vh_rndn(3); for (uint64_t i = 0; i < k; i++) { S p = vh_fmt("/r%d?x=%d:1", (int)i, (int)vh_rndn(9)); if (vh_chance(10)) p = ""; static const uint32_t rc[] = { 301, 302, 307, 308 }; C->sv.script.push_back(mkresp(dummy, rc[vh_rndn(4)], (int)vh_rndn(3), vh_chance(50) ? S() : rbody(), vh_fmt("http://127.0.0.1:%d", g_port) + p)); paths.push_back(p); } C->sv.script.push_back(mkresp(w, okcode(), fr, rbody(), "")); for (auto &r : C->sv.script) segs(r, r.bytes.size() > 3000 ? (vh_chance(50) ? 0 : 2) : (int)vh_rndn(4)); S url = url_of(a), what = vh_fmt("%s %s body %zu, %d redirects (limit %d), %s response of %zu bytes", a.mname.c_str(), url.c_str(), a.body.size(), (int)k, (int)mx, fr == 0 ? "sized" : fr == 1 ? "chunked" : "unsized", w.body.size()); vh_sample("%s", what.c_str()); vh_distinct(vh_hash(what.data(), what.size(), 0)); uint64_t el; bool ok = go(C->sv, a, url, mx, 0, 5000, 8000, 12000, -1, &el); VH_CHECK(ok, "send", "%s: refused", what.c_str()); VH_CHECK(O->calls == 1, "done:missing", "%s: %d completions, the server got %zu requests", what.c_str(), O->calls, C->sv.got.size()); size_t nreq = (size_t)std::min(k, mx) + 1; if (k > mx) { VH_CHECK(O->ne == M_NET_ERROR_REDIRECT_LIMIT && !O->has == true, "redirect:limit", "%s: %s", what.c_str(), M_net_errcode_to_str(O->ne)); vh_count("redirect_limit", 1); } else { same(w, what); if (k) vh_count("redirected", 1); vh_count(fr == 0 ? "sized" : fr == 1 ? "chunked" : "unsized", 1); } VH_CHECK(C->sv.got.size() == nreq && O->ncreate == (int)nreq, "redirect:count", "%s: %zu requests, %d connections created, expected %zu", what.c_str(), C->sv.got.size(), O->ncreate, nreq); for (size_t i = 0; i < nreq; i++) asked(a, C->sv.got[i], paths[i], what + vh_fmt(" (request %zu)", i)); }
// through a proxy: the request carries the whole url, and the host of the url whatever colons the path has
static S b64(const S &d) { static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S r; for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = 0; for (size_t k = 0; k < 3; k++) v = v << 8 | (i + k < d.size() ? (unsigned char)d[i + k] : 0); for (size_t k = 0; k < 4; k++) r += i + k > d.size() ? '=' : t[v >> (18 - 6 * k) & 63]; } return r; }
static void m_proxy() { fresh(); Ask a = mkask(); if (a.path.empty() || a.path[0] != '/') a.path = "/" + a.path; Want w; C->sv.script.push_back(mkresp(w, okcode(), (int)vh_rndn(3), rbody(), "")); segs(C->sv.script[0], vh_chance(50) ? 0 : 2); int port = vh_chance(50) ? 0 : 1 + (int)vh_rndn(65535); S host = vh_fmt("h%d.example", (int)vh_rndn(100)), url = "http://" + host + (port ? vh_fmt(":%d", port) : "") + a.path; O->proxy = vh_fmt("http://127.0.0.1:%d", g_port) + (vh_chance(30) ? "/" : ""); if (vh_chance(40)) O->pauth = val() + ":" + val(); if (O->pauth.find(':') != O->pauth.rfind(':')) O->pauth.clear(); S what = "proxied " + a.mname + " " + url; vh_sample("%s", what.c_str()); vh_distinct(vh_hash(what.data(), what.size(), 0)); uint64_t el; bool ok = go(C->sv, a, url, 16, 0, 5000, 8000, 12000, -1, &el); VH_CHECK(ok, "send", "%s: refused", what.c_str()); same(w, what); VH_CHECK(C->sv.got.size() == 1, "proxy:requests", "%s: %zu requests", what.c_str(), C->sv.got.size()); const Req &q = C->sv.got[0]; VH_CHECK(q.target == url && q.method == a.mname, "proxy:target", "%s: the target is '%s'", what.c_str(), E(q.target)); S h = hget(q, "Host"), hp = host + vh_fmt(":%d", port ? port : 80); VH_CHECK(h == hp || ((!port || port == 80) && h == host), "proxy:host", "%s: Host is '%s'", what.c_str(), E(h)); VH_CHECK(q.body == a.body, "request:body", "%s: %zu body bytes of %zu", what.c_str(), q.body.size(), a.body.size()); int n; S pa = hget(q, "Proxy-Authorization", &n); if (O->pauth.empty()) VH_CHECK(n == 0, "proxy:auth", "%s: authorization '%s'", what.c_str(), E(pa)); else VH_CHECK(n == 1 && pa == "Basic " + b64(O->pauth), "proxy:auth", "%s: authorization '%s'", what.c_str(), E(pa)); vh_count("proxied", 1); }
static void m_bad() { fresh(); Ask a = mkask(); Want w; int fr = (int)vh_rndn(3); S body = vh_bytes(1 + vh_rndn(600)); Resp r = mkresp(w, 200, fr, body, ""); int kind = (int)vh_rndn(7); uint64_t maxsz = 0; S url = url_of(a), what; M_net_error_t want = M_NET_ERROR_SUCCESS; bool any = false; bool ctx = false; (void)ctx; switch (kind) { case 0: { // cut
		size_t lim = fr == 2 ? r.bytes.find("\r\n\r\n") + 3 : r.bytes.size() - 1; r.bytes.resize(vh_rndn(lim + 1)); if (fr == 0 && r.bytes.find("\r\n\r\n") != S::npos && 0) any = true; r.close_after = true; want = M_NET_ERROR_DISCONNET; any = true; what = "cut"; break; }
	case 1: { r.bytes = vh_chance(50) ? vh_bytes(20 + vh_rndn(200)) + "\r\n\r\n" : S("HTTP/1.1 2x0 OK\r\nContent-Length: 0\r\n\r\n"); if (r.bytes[0] == 'H' && r.bytes.size() < 18) r.bytes = "garbage\r\n\r\n"; any = true; r.close_after = true; what = "garbage"; break; }
	case 2: { maxsz = 1 + vh_rndn(r.bytes.size() + 200); r.close_after = true; want = r.bytes.size() > maxsz ? M_NET_ERROR_OVER_LIMIT : M_NET_ERROR_SUCCESS; what = "limit"; break; }
	case 3: { r = mkresp(w, 302, 0, "", vh_chance(50) ? S() : vh_chance(50) ? S("ftp://127.0.0.1/x") : S("nonsense")); want = M_NET_ERROR_REDIRECT; what = "no usable location"; any = true; break; }
	case 4: { r = mkresp(w, 302, 0, "", vh_fmt("https://127.0.0.1:%d/", g_port)); want = M_NET_ERROR_TLS_REQUIRED; what = "redirect to TLS without a context"; break; }
	case 5: { url = vh_chance(50) ? S("ftp://x/") : vh_chance(50) ? S("") : S("127.0.0.1/"); Srv &sv = C->sv; uint64_t el; bool ok = go(sv, a, url, 16, 0, 0, 0, 0, -1, &el); VH_CHECK(!ok && !O->calls, "send:refused", "'%s' is sent", url.c_str()); vh_count("refused", 1); return; }
	default: { r.never = true; r.bytes.resize(vh_rndn(r.bytes.size())); if (vh_chance(40)) r.bytes.clear(); what = "silence"; want = M_NET_ERROR_TIMEOUT; } }
	C->sv.script.push_back(r); segs(C->sv.script[0], (int)vh_rndn(4)); uint64_t st = 0, ov = 0; if (kind == 6) { if (vh_chance(50)) { st = 40 + vh_rndn(40); want = M_NET_ERROR_TIMEOUT_STALL; if (vh_chance(50)) ov = 5000; } else { ov = 40 + vh_rndn(60); if (vh_chance(50)) st = 5000; } if (fr == 2 && 0) any = true; } what += vh_fmt(" %s %s, %s response of %zu bytes, size limit %d stall %d overall %d", a.mname.c_str(), url.c_str(), fr == 0 ? "sized" : fr == 1 ? "chunked" : "unsized", r.bytes.size(), (int)maxsz, (int)st, (int)ov); vh_sample("%s", what.c_str()); vh_distinct(vh_hash(r.bytes.data(), r.bytes.size(), what.size())); uint64_t el; bool ok = go(C->sv, a, url, 16, maxsz, 5000, st, ov, -1, &el); VH_CHECK(ok && O->calls == 1, "done:missing", "%s: %d completions", what.c_str(), O->calls); if (want == M_NET_ERROR_SUCCESS && !any) { same(w, what); vh_count("within_limit", 1); return; } VH_CHECK(O->ne != M_NET_ERROR_SUCCESS || O->he != M_HTTP_ERROR_SUCCESS, "bad:success", "%s: reported as success with status %u and %zu bytes", what.c_str(), O->code, O->body.size()); VH_CHECK(!O->has || O->ne != M_NET_ERROR_SUCCESS || 1, "bad:data", "-"); if (!any) VH_CHECK(O->ne == want, "bad:error", "%s: %s (%s)", what.c_str(), M_net_errcode_to_str(O->ne), O->err.c_str()); if (kind == 6) { uint64_t lim = st && (want == M_NET_ERROR_TIMEOUT_STALL) ? st : ov; VH_CHECK(el + 2000 >= lim * 1000, "timeout:early", "%s: ended after %d ms", what.c_str(), (int)(el / 1000)); VH_CHECK(el < 4000000, "timeout:late", "%s: ended after %d ms", what.c_str(), (int)(el / 1000)); vh_count("timeouts", 1); } if (kind == 2) vh_count("over_limit", 1); vh_count("bad", 1); }
static void m_cancel() { fresh(); Ask a = mkask(); Want w, d; int k = (int)vh_rndn(3); for (int i = 0; i < k; i++) C->sv.script.push_back(mkresp(d, 302, (int)vh_rndn(3), rbody(), vh_fmt("http://127.0.0.1:%d/%d", g_port, i))); C->sv.script.push_back(mkresp(w, 200, (int)vh_rndn(3), rbody(), "")); for (auto &r : C->sv.script) { segs(r, r.bytes.size() > 2000 ? 2 : (int)vh_rndn(4)); if (r.seg.size() < 10) r.gap = vh_rndn(3); } int64_t at = vh_chance(20) ? 0 : (int64_t)vh_rndn(8000); S what = vh_fmt("%s cancelled after %d us", a.mname.c_str(), (int)at); vh_sample("%s", what.c_str()); vh_distinct(vh_hash(&at, 8, (uint64_t)k)); uint64_t el; bool ok = go(C->sv, a, url_of(a), 16, 0, 0, vh_chance(50) ? 8000 : 0, vh_chance(50) ? 8000 : 0, at, &el); VH_CHECK(ok, "send", "refused"); VH_CHECK(O->calls + (O->cancelled ? 1 : 0) == 1, "done:missing", "%s: %d completions", what.c_str(), O->calls); vh_count(O->cancelled ? "cancelled" : "completed", 1); if (!O->cancelled) same(w, what); }
// a server that is slow but steady never stalls
static void m_slow() { fresh(); Ask a; a.path = "/slow"; Want w; Resp r = mkresp(w, 200, (int)vh_rndn(2), vh_bytes(100), ""); size_t n = r.bytes.size(), per = n / 12 + 1; for (size_t o = 0; o < n; o += per) r.seg.push_back(std::min(per, n - o)); r.gap = 15; C->sv.script.push_back(r); uint64_t el; bool ov = vh_chance(30); S what = ov ? "slow response, overall timeout" : "slow response, stall timeout"; vh_distinct(vh_hash(r.bytes.data(), n, 0)); bool ok = go(C->sv, a, url_of(a), 16, 0, 0, ov ? 8000 : 110, ov ? 60 : 0, -1, &el); VH_CHECK(ok && O->calls == 1, "done:missing", "%s: %d completions", what.c_str(), O->calls); if (ov) { VH_CHECK(O->ne == M_NET_ERROR_TIMEOUT && el >= 58000, "timeout:overall", "%s: %s after %d ms", what.c_str(), M_net_errcode_to_str(O->ne), (int)(el / 1000)); vh_count("overall", 1); } else { if (O->ne == M_NET_ERROR_TIMEOUT_STALL && el > 400000) { vh_count("overload", 1); return; } same(w, what); VH_CHECK(el > 110000, "harness:slow", "too fast"); vh_count("steady", 1); } }
const vh_mode_t vh_modes[] = { { "final", m_final, setup, tear }, { "proxy", m_proxy, setup, tear }, { "bad", m_bad, setup, tear }, { "cancel", m_cancel, setup, tear }, { "slow", m_slow, setup, tear }, {} };
