// F04: HTTP messages written against an independent parser and the library's readers; URIs and form data.
#include "vh.hpp"
#include <mstdlib/mstdlib_formats.h>
static S lc(S s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static S anycase(S s) { for (auto &c : s) if (vh_chance(30)) c = (char)(isupper((unsigned char)c) ? tolower(c) : toupper(c)); return s; }
static S trim(S s) { while (!s.empty() && isspace((unsigned char)s[0])) s.erase(0, 1); while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return s; }
static S token(void) { return vh_from("abcdefXYZ019-_.", 1 + vh_rndn(10)); }
static S O(const char *s) { return s ? S(s) : S("<null>"); }
// a header value: elements with modifiers, each one once; as given and as written
struct HV { S given, canon; };
static S opt(const char *sep) { return vh_chance(70) ? S(sep) + " " : S(sep); }
static HV gval(bool one)
{
	HV h; std::set<S> seen; int n = one ? 1 : (int)vh_range(1, 3);
	for (int i = 0; i < n; i++) {
		S v; do v = trim(token() + vh_from("abcXYZ019 -_./=()<>@?&:*\"'", vh_rndn(15))); while (!seen.insert(lc(v)).second);
		S g = v, c = v; std::set<S> ms; int m = vh_chance(30) ? (int)vh_range(1, 3) : 0;
		for (int j = 0; j < m; j++) { S k = token(), w = vh_chance(75) ? trim(vh_from("abc019=:/?@ ", vh_rndn(8))) : S(); while (!w.empty() && w[0] == ' ') w.erase(0, 1); if (!ms.insert(lc(k)).second) continue; g += opt(";") + k + (w.empty() ? "" : "=" + w); c += "; " + k + (w.empty() ? "" : "=" + w); }
		h.given += (i ? opt(",") : S()) + g; h.canon += (i ? ", " : "") + c;
	}
	return h;
}
typedef std::vector<std::pair<S, S>> KV;
struct PM { S line; KV h; S body; bool ok; };
static PM parse(const S &b)
{
	PM p; p.ok = false; size_t at = b.find("\r\n"); if (at == S::npos) return p; p.line = b.substr(0, at); at += 2;
	for (;;) { size_t e = b.find("\r\n", at); if (e == S::npos) return p; if (e == at) { p.body = b.substr(e + 2); p.ok = true; return p; } S l = b.substr(at, e - at); size_t c = l.find(':'); if (c == S::npos) return p; p.h.push_back({ l.substr(0, c), trim(l.substr(c + 1)) }); at = e + 2; }
}
static S find(const PM &p, const S &k, int *n = NULL) { S v = "<none>"; int c = 0; for (auto &h : p.h) if (lc(h.first) == lc(k)) { v = h.second; c++; } if (n) *n = c; return v; }
static const char *METH[] = { "OPTIONS", "GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "CONNECT" };
struct In { bool req; M_http_method_t m; S meth, host, uri, ua, ct, charset, reason; M_uint16 port; M_uint32 code; KV h; S body; bool hasdata; };
static S write(const In &in, bool &ok)
{
	M_hash_dict_t *d = in.h.empty() && vh_chance(50) ? NULL : M_hash_dict_create(8, 75, M_HASH_DICT_CASECMP | M_HASH_DICT_KEYS_ORDERED | M_HASH_DICT_MULTI_VALUE); for (auto &h : in.h) M_hash_dict_insert(d, h.first.c_str(), h.second.c_str());
	Heap b(in.body, false); const unsigned char *p = in.hasdata ? (const unsigned char *)b.p : NULL; size_t n = 77, bl = in.hasdata ? in.body.size() : 0; unsigned char *o; S out;
	const char *ua = in.ua.empty() ? NULL : in.ua.c_str(), *ct = in.ct.empty() ? NULL : in.ct.c_str(), *cs = in.charset.empty() ? NULL : in.charset.c_str(), *ho = in.host.empty() ? NULL : in.host.c_str();
	if (vh_chance(50)) {
		o = in.req ? M_http_simple_write_request(in.m, ho, in.port, in.uri.empty() ? NULL : in.uri.c_str(), ua, ct, d, p, bl, cs, &n) : M_http_simple_write_response(in.code, in.reason.empty() ? NULL : in.reason.c_str(), ct, d, p, bl, cs, &n);
		ok = o != NULL; if (o) { VH_CHECK(o[n] == 0, "terminated", "no NUL"); out = S((const char *)o, n); } else VH_CHECK(n == 0, "length", "%zu", n); M_free(o);
	} else {
		S pre = vh_from("ab", vh_rndn(5)); M_buf_t *buf = M_buf_create(); M_buf_add_str(buf, pre.c_str());
		ok = in.req ? M_http_simple_write_request_buf(buf, in.m, ho, in.port, in.uri.empty() ? NULL : in.uri.c_str(), ua, ct, d, p, bl, cs) : M_http_simple_write_response_buf(buf, in.code, in.reason.empty() ? NULL : in.reason.c_str(), ct, d, p, bl, cs);
		out = S(M_buf_peek(buf), M_buf_len(buf)); VH_CHECK(out.compare(0, pre.size(), pre) == 0 && (ok || out == pre), "buffer", "\"%s\" %d", E(out.substr(0, 300)), ok); out.erase(0, pre.size()); M_buf_cancel(buf);
	}
	M_hash_dict_destroy(d); return out;
}
static void gen(In &in, KV &want, VS &cookies)
{
	in.req = vh_chance(50); int mi = (int)vh_rndn(7); in.m = M_http_method_from_str(METH[mi]); in.meth = METH[mi]; in.host = vh_chance(70) ? token() + ".example" : S(); in.port = vh_chance(50) ? 0 : vh_chance(20) ? 80 : (M_uint16)vh_range(1, 65535);
	in.uri = vh_chance(15) ? S() : vh_chance(10) && mi == 0 ? S("*") : "/" + vh_from("abcXYZ019/-_.~!$&'()*+,;=:@", vh_rndn(20)) + (vh_chance(30) ? "?" + token() + "=" + token() : S()); in.ua = vh_chance(40) ? token() + "/1.0 (" + token() + ")" : S();
	in.code = (M_uint32)vh_range(200, 599); while (in.code == 204 || in.code == 304) in.code++; in.reason = vh_chance(40) ? S() : trim("R" + vh_from("abc XYZ'()", vh_rndn(15))); in.charset = vh_chance(20) ? S(vh_chance(50) ? "utf-8" : "ISO-8859-1") : S(); in.ct = vh_chance(40) ? S(vh_chance(50) ? "text/html" : "application/json; v=1") : S();
	in.h.clear(); std::map<S, size_t> at; size_t n = vh_rndn(6); cookies.clear(); want.clear();
	for (size_t i = 0; i < n; i++) { S k = "X-" + token(); if (at.count(lc(k))) continue; HV v = gval(false); at[lc(k)] = want.size(); in.h.push_back({ k, v.given }); want.push_back({ k, v.canon });
		if (vh_chance(15)) { HV w = gval(true); if (v.canon.find(w.canon.substr(0, w.canon.find(';'))) == S::npos && lc(v.canon).find(lc(w.canon.substr(0, w.canon.find(';')))) == S::npos) { in.h.push_back({ anycase(k), w.given }); want.back().second += ", " + w.canon; } } }
	if (vh_chance(20)) { int c = (int)vh_range(1, 3); for (int i = 0; i < c; i++) { S v = token() + "=" + vh_from("abc=,019", vh_rndn(8)) + (vh_chance(50) ? "; Expires=Wed, 21 Oct 2026 07:28:00 GMT" : "") + (vh_chance(50) ? "; Path=/; Secure" : ""); cookies.push_back(v); in.h.push_back({ anycase("Set-Cookie"), v }); } }
	if (vh_chance(15)) in.h.push_back({ anycase("User-Agent"), "old/2" }); if (vh_chance(20) || (in.req && in.host.empty())) in.h.push_back({ anycase("Host"), "other.example:81" }); if (vh_chance(15)) in.h.push_back({ anycase("Content-Type"), "image/x; charset=old" }); if (vh_chance(15)) in.h.push_back({ "Date", "Tue, 15 Nov 1994 08:12:31 GMT" });
	in.hasdata = vh_chance(70); in.body = in.hasdata ? vh_bytes(vh_chance(10) ? vh_rndn(3000) : vh_rndn(40)) : S(); if (in.hasdata && in.body.empty()) in.hasdata = false;
	if (vh_chance(15)) in.h.push_back({ anycase("Content-Length"), in.hasdata ? vh_fmt("%zu", in.body.size()) : "5" });
}
static S hv(const In &in, const S &k, S dflt = "<none>") { for (auto &h : in.h) if (lc(h.first) == lc(k)) dflt = h.second; return dflt; }
static void wr(void)
{
	In in; KV want; VS cookies; gen(in, want, cookies); bool ok; S out = write(in, ok); VH_CHECK(ok, "write", "refused"); PM p = parse(out); VH_CHECK(p.ok, "parse", "\"%s\"", E(out.substr(0, 1000)));
	S line = in.req ? in.meth + " " + (in.uri.empty() ? "/" : in.uri) + " HTTP/1.1" : vh_fmt("HTTP/1.1 %u ", in.code) + (in.reason.empty() ? O(M_http_code_to_reason(in.code)) : in.reason); VH_CHECK(p.line == line, "line", "\"%s\" want \"%s\"", E(p.line), E(line));
	VH_CHECK(p.body == in.body, "body", "\"%s\" want \"%s\"", E(p.body.substr(0, 200)), E(in.body.substr(0, 200)));
	KV all = want; size_t nh = want.size() + cookies.size() + 3; // + length, type, date
	all.push_back({ "Content-Length", hv(in, "Content-Length", vh_fmt("%zu", in.body.size())) });
	S ct = !in.ct.empty() ? in.ct : hv(in, "Content-Type", in.charset.empty() ? "application/octet-stream" : "text/plain"); if (!in.charset.empty()) { size_t c = ct.find("; charset="); if (c != S::npos) ct = ct.substr(0, c); ct += "; charset=" + in.charset; } all.push_back({ "Content-Type", ct });
	if (hv(in, "Date") != "<none>") all.push_back({ "Date", hv(in, "Date") });
	S host = in.req && !in.host.empty() ? in.host + (in.port && in.port != 80 ? vh_fmt(":%u", in.port) : S()) : hv(in, "Host"); if (host != "<none>") { all.push_back({ "Host", host }); nh++; }
	S ua = in.req && !in.ua.empty() ? in.ua : hv(in, "User-Agent"); if (ua != "<none>") { all.push_back({ "User-Agent", ua }); nh++; }
	for (auto &h : all) { int n; S v = find(p, h.first, &n); VH_CHECK(n == 1 && v == h.second, "header", "%s: \"%s\" (%d) want \"%s\" in \"%s\"", E(h.first), E(v), n, E(h.second), E(out.substr(0, 1200))); }
	VS got; for (auto &h : p.h) if (lc(h.first) == "set-cookie") got.push_back(h.second); VH_CHECK(got == cookies, "cookies", "%zu cookies want %zu in \"%s\"", got.size(), cookies.size(), E(out.substr(0, 1200))); VH_CHECK(p.h.size() == nh, "headers", "%zu want %zu in \"%s\"", p.h.size(), nh, E(out.substr(0, 1200)));
	if (hv(in, "Date") == "<none>") { struct tm t; memset(&t, 0, sizeof t); S d = find(p, "Date"); const char *e = strptime(d.c_str(), "%a, %d %b %Y %H:%M:%S GMT", &t); VH_CHECK(e && !*e && d.size() == 29 && llabs((long long)timegm(&t) - (long long)time(NULL)) < 100, "date", "\"%s\"", E(d)); }
	vh_count("written", 1); vh_distinct(vh_hstr(out.substr(0, 60).c_str(), 1));
	// the library reads the same
	if (!in.hasdata && hv(in, "Content-Length") == "5") out += "hello", in.body = "hello"; S tail = vh_chance(30) ? S("GET / HTTP/1.1\r\n\r\n") : S(); Heap b(out + tail, false); M_http_simple_read_t *s = NULL; size_t n = 0; M_http_error_t r = M_http_simple_read(&s, (const unsigned char *)b.p, out.size() + tail.size(), M_HTTP_SIMPLE_READ_NODECODE_BODY, &n);
	VH_CHECK(r == M_HTTP_ERROR_SUCCESS && s && n == out.size(), "read", "%s for \"%s\"", M_http_errcode_to_str(r), E(out.substr(0, 1200)));
	VH_CHECK(M_http_simple_read_message_type(s) == (in.req ? M_HTTP_MESSAGE_TYPE_REQUEST : M_HTTP_MESSAGE_TYPE_RESPONSE) && M_http_simple_read_version(s) == M_HTTP_VERSION_1_1, "read:type", "type");
	if (in.req) { VH_CHECK(M_http_simple_read_method(s) == in.m && O(M_http_simple_read_uri(s)) == (in.uri.empty() ? "/" : in.uri), "read:request", "\"%s\"", E(O(M_http_simple_read_uri(s)))); M_uint16 port = 0; M_bool hp = M_http_simple_read_port(s, &port); size_t c = host.find(':'); M_uint16 wp = c == S::npos ? 0 : (M_uint16)atoi(host.c_str() + c + 1); VH_CHECK(O(M_http_simple_read_host(s)) == host.substr(0, c) && port == wp && !!hp == (wp != 0), "read:host", "%s %u want %s", O(M_http_simple_read_host(s)).c_str(), (unsigned)port, host.c_str()); }
	else VH_CHECK(M_http_simple_read_status_code(s) == in.code && O(M_http_simple_read_reason_phrase(s)) == line.substr(13), "read:response", "%u \"%s\"", (unsigned)M_http_simple_read_status_code(s), E(O(M_http_simple_read_reason_phrase(s))));
	for (auto &h : all) { char *v = M_http_simple_read_header(s, anycase(h.first).c_str()); VH_CHECK(v && h.second == v, "read:header", "%s: \"%s\" want \"%s\"", E(h.first), E(O(v)), E(h.second)); M_free(v); }
	M_list_str_t *keys = M_http_simple_read_headers(s); VH_CHECK(M_list_str_len(keys) == all.size() + (hv(in, "Date") == "<none>" ? 1 : 0), "read:keys", "%zu want %zu", M_list_str_len(keys), all.size()); M_list_str_destroy(keys);
	M_hash_dict_t *hd = M_http_simple_read_headers_dict(s); for (auto &h : all) { const char *v = NULL; M_hash_dict_get(hd, anycase(h.first).c_str(), &v); VH_CHECK(v && h.second == v, "read:dict", "%s: \"%s\" want \"%s\"", E(h.first), E(O(v)), E(h.second)); } M_hash_dict_destroy(hd);
	VS ck; const M_list_str_t *cl = M_http_simple_read_get_set_cookie(s); for (size_t i = 0; i < M_list_str_len(cl); i++) ck.push_back(M_list_str_at(cl, i)); VH_CHECK(ck == cookies, "read:cookies", "%zu want %zu", ck.size(), cookies.size());
	size_t bl; const unsigned char *bp = M_http_simple_read_body(s, &bl); VH_CHECK(S((const char *)bp, bl) == in.body, "read:body", "\"%s\"", E(S((const char *)bp, bl).substr(0, 200))); VH_CHECK(O(M_http_simple_read_content_type(s)) == ct.substr(0, ct.find(';')), "read:type", "%s", O(M_http_simple_read_content_type(s)).c_str()); size_t c = ct.find("charset="); VH_CHECK(O(M_http_simple_read_charset(s)) == (c == S::npos ? "<null>" : ct.substr(c + 8)), "read:charset", "%s of %s", O(M_http_simple_read_charset(s)).c_str(), E(ct));
	M_http_simple_read_destroy(s); vh_count("reread", 1);
}
// delimiters in quoted strings
static void quoted(void)
{
	S q; size_t n = 1 + vh_rndn(4); for (size_t i = 0; i < n; i++) q += token() + ",;="[vh_rndn(3)]; S v = "k=\"" + q + "\""; In in; in.req = false; in.port = 0; in.code = 200; in.hasdata = false; in.m = M_HTTP_METHOD_UNKNOWN; in.h.push_back({ "X-Q", v }); bool ok; S out = write(in, ok); VH_CHECK(ok, "quoted:write", "refused"); PM p = parse(out); S g = find(p, "X-Q"); vh_count("quoted", 1);
	if (g != v) { vh_known("header:quoted", "\"%s\" written as \"%s\"", E(v), E(g)); }
}
// nothing given can become further headers or messages
static void inject(void)
{
	In in; KV want; VS cookies; gen(in, want, cookies); bool ok; S base = write(in, ok); PM p0 = parse(base); static const char *ev[] = { "\r\nInjected: 1", "\nInjected: 1", "\r\n\r\nGET /evil HTTP/1.1\r\n\r\n", "\rInjected: 1", "\r\n", "\n", " \r\nInjected: 1\r\n", "\r\n Injected: 1" }; S e = ev[vh_rndn(8)]; int where = (int)vh_rndn(9); auto put = [&](S &s) { s.insert(s.empty() ? 0 : vh_rndn(s.size() + 1), e); };
	switch (where) { case 0: in.h.push_back({ "X-Evil" + e + "x", "v" }); break; case 1: in.h.push_back({ "X-Evil", "a" + e + (vh_chance(50) ? "b" : "") }); break; case 2: if (in.req) { if (in.uri.empty()) in.uri = "/"; in.uri.insert(1 + vh_rndn(in.uri.size()), e); } else { in.reason = "R"; put(in.reason); } break; case 3: in.host = "h"; put(in.host); break; case 4: in.ua = "u"; put(in.ua); break; case 5: in.ct = "a/b"; put(in.ct); break; case 6: in.charset = "utf-8"; put(in.charset); break; case 7: in.h.push_back({ "Set-Cookie", "a=b" + e }); break; default: in.h.push_back({ "X-Evil: y" + e, "v" }); }
	S out = write(in, ok); vh_count("attempts", 1); if (!ok) { vh_count("refused", 1); return; }
	PM p = parse(out); VH_CHECK(p.ok, "inject:parse", "\"%s\"", E(out)); S head = out.substr(0, out.size() - p.body.size()); for (size_t i = 0; i < head.size(); i++) VH_CHECK((head[i] != '\r' || head[i + 1] == '\n') && (head[i] != '\n' || (i && head[i - 1] == '\r')), "inject:bare", "\"%s\"", E(head));
	VH_CHECK(p.body == in.body, "inject:body", "where %d \"%s\"", where, E(out)); for (auto &h : p.h) VH_CHECK(lc(h.first).find("injected") == S::npos, "inject:header", "where %d \"%s\"", where, E(out)); VH_CHECK(p.h.size() <= p0.h.size() + 1 || where == 3 || where == 4, "inject:count", "where %d: %zu of %zu in \"%s\"", where, p.h.size(), p0.h.size(), E(out)); vh_count("harmless", 1);
}
// URIs
static bool unpct(const S &s, S &o, bool form) { o.clear(); for (size_t i = 0; i < s.size(); i++) { if (form && s[i] == '+') { o += ' '; continue; } if ((unsigned char)s[i] >= 128) return false; if (s[i] != '%') { o += s[i]; continue; } if (i + 2 >= s.size() + 0 || !isxdigit((unsigned char)s[i + 1]) || !isxdigit((unsigned char)s[i + 2])) return false; o += (char)strtol(s.substr(i + 1, 2).c_str(), NULL, 16); i += 2; } return true; }
static void uri(void)
{
	bool abs = vh_chance(50), opt = vh_chance(10), bad = false; S u, host = "<null>", hosthdr; unsigned port = 0;
	if (abs) { u = anycase(vh_chance(50) ? "http" : "https") + "://"; host = vh_chance(20) ? S("[2001:db8::") + vh_from("abc019", 1 + vh_rndn(3)) + "]" : token() + ".example"; u += host; if (vh_chance(50)) { long v = vh_chance(80) ? vh_range(1, 65535) : vh_range(65536, 200000); port = (unsigned)v; if (v > 65535) bad = true; u += vh_fmt(":%ld", v); if (vh_chance(5)) { u += "x"; bad = true; } } }
	S path, rawpath = "<null>", dec = "<null>", q = "<null>"; if (!abs || vh_chance(75)) { rawpath = "/"; size_t n = vh_rndn(12); for (size_t i = 0; i < n; i++) switch (vh_rndn(6)) { case 0: rawpath += vh_fmt(vh_chance(50) ? "%%%02x" : "%%%02X", (int)vh_range(0, 255)); break; case 1: rawpath += ":@/!$&'()*+,;="[vh_rndn(14)]; break; default: rawpath += (char)vh_range('a', 'z'); } if (vh_chance(4)) rawpath += vh_chance(50) ? "%" : "%g1"; if (opt && !abs) rawpath = "*"; if (rawpath.find("%00") != S::npos || !unpct(rawpath, dec, false)) bad = true; u += rawpath; }
	KV args; if (vh_chance(50)) { q = ""; size_t n = 1 + vh_rndn(4); std::set<S> seen; for (size_t i = 0; i < n; i++) { S k, v, dk, dv; do { k = token(); if (vh_chance(20)) k += vh_fmt("%%%02X", (int)vh_range(32, 126)); unpct(k, dk, true); } while (!seen.insert(lc(dk)).second); size_t m = vh_rndn(8); for (size_t j = 0; j < m; j++) v += vh_chance(25) ? vh_fmt("%%%02x", (int)vh_range(1, 255)) : vh_chance(15) ? "+" : vh_chance(10) ? "=" : S(1, (char)vh_range('a', 'z')); unpct(v, dv, true); q += (i ? "&" : "") + k + (v.empty() && vh_chance(50) ? "" : "=" + v); if (!v.empty()) args.push_back({ dk, dv }); } u += "?" + q; }
	S m = (rawpath == "*" ? "OPTIONS " : "GET ") + u + " HTTP/1.1\r\n"; if (vh_chance(50)) { hosthdr = vh_chance(20) ? "[::1]:99" : vh_chance(20) ? "h.example:70000" : vh_chance(50) ? "h.example:8080" : "h.example"; m += "Host: " + hosthdr + "\r\n"; } m += "\r\n";
	Heap b(m, false); M_http_simple_read_t *s = NULL; M_http_error_t r = M_http_simple_read(&s, (const unsigned char *)b.p, m.size(), M_HTTP_SIMPLE_READ_NONE, NULL);
	if (bad) { VH_CHECK(r == M_HTTP_ERROR_URI && !s, "uri:bad", "%s for \"%s\"", M_http_errcode_to_str(r), E(u)); vh_count("badURIs", 1); return; }
	VH_CHECK(r == M_HTTP_ERROR_SUCCESS && s, "uri:read", "%s for \"%s\"", M_http_errcode_to_str(r), E(u)); if (host == "<null>" && !hosthdr.empty()) { host = hosthdr[0] == '[' ? S("[::1]") : S("h.example"); } if (port == 0 && !hosthdr.empty()) port = hosthdr == "[::1]:99" ? 99 : hosthdr == "h.example:8080" ? 8080 : 0;
	M_uint16 p = 0; M_http_simple_read_port(s, &p); VH_CHECK(O(M_http_simple_read_uri(s)) == u && O(M_http_simple_read_host(s)) == host && p == port, "uri:host", "%s %u want %s %u for \"%s\", Host %s", O(M_http_simple_read_host(s)).c_str(), (unsigned)p, host.c_str(), port, E(u), hosthdr.c_str());
	VH_CHECK(O(M_http_simple_read_path(s)) == dec && O(M_http_simple_read_query_string(s)) == q, "uri:path", "\"%s\" \"%s\" want \"%s\" for \"%s\"", E(O(M_http_simple_read_path(s))), E(O(M_http_simple_read_query_string(s))), E(dec), E(u));
	const M_hash_dict_t *a = M_http_simple_read_query_args(s); for (auto &kv : args) { const char *v = NULL; VH_CHECK(M_hash_dict_get(a, anycase(kv.first).c_str(), &v) && kv.second == v, "uri:args", "\"%s\"=\"%s\" want \"%s\" for \"%s\"", E(kv.first), E(O(v)), E(kv.second), E(u)); } M_http_simple_read_destroy(s); vh_count("uris", 1); vh_count("args", (long)args.size()); vh_distinct(vh_hstr(u.c_str(), 3));
}
// form data and query strings
static S utf(size_t n) { S s; for (size_t i = 0; i < n; i++) { unsigned c = vh_chance(60) ? (unsigned)vh_range(1, 127) : vh_chance(50) ? (unsigned)vh_range(0xa0, 0x7ff) : vh_chance(50) ? (unsigned)vh_range(0x800, 0xd7ff) : (unsigned)vh_range(0x10000, 0x10ffff); if ((c & 0xfffe) == 0xfffe || (c >= 0xfdd0 && c <= 0xfdef)) c = 'x'; if (c < 128) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } } return s; }
static void form(void)
{
	M_hash_dict_t *d = M_hash_dict_create(8, 75, M_HASH_DICT_CASECMP | M_HASH_DICT_KEYS_ORDERED | M_HASH_DICT_MULTI_VALUE); std::vector<std::pair<S, VS>> w; size_t n = vh_rndn(6);
	for (size_t i = 0; i < n; i++) { S k = vh_chance(50) ? token() : utf(1 + vh_rndn(8)); VS vs; int c = vh_chance(20) ? 3 : 1; bool dup = false; for (auto &x : w) if (lc(x.first) == lc(k)) dup = true; if (dup || k.empty()) continue; for (int j = 0; j < c; j++) { S v = vh_chance(10) ? S() : vh_chance(50) ? utf(1 + vh_rndn(12)) : vh_from(" &=+%?#/~;:\r\n", 1 + vh_rndn(10)); M_hash_dict_insert(d, k.c_str(), v.c_str()); if (!v.empty()) vs.push_back(v); } if (!vs.empty()) w.push_back({ k, vs }); }
	char *f = M_http_generate_form_data_string(d); VH_CHECK(f || w.empty(), "form:make", "NULL"); S fs = f ? f : ""; for (char c : fs) VH_CHECK((unsigned char)c > 32 || c == '\r' || c == '\n', "form:bytes", "\"%s\"", E(fs)); size_t amp = 0, tot = 0; for (char c : fs) amp += c == '&'; for (auto &x : w) tot += x.second.size(); VH_CHECK(amp == (tot ? tot - 1 : 0), "form:count", "\"%s\"", E(fs));
	auto cmp = [&](M_hash_dict_t *g, const char *what) { size_t keys = 0; for (auto &x : w) { size_t len = 0; M_hash_dict_multi_len(g, x.first.c_str(), &len); VH_CHECK(len == x.second.size(), what, "%zu values of \"%s\" in \"%s\"", len, E(x.first), E(fs)); for (size_t j = 0; j < len; j++) { const char *v = NULL; M_hash_dict_multi_get(g, x.first.c_str(), j, &v); VH_CHECK(v && x.second[j] == v, what, "\"%s\" want \"%s\" of \"%s\"", E(O(v)), E(x.second[j]), E(fs)); } keys++; } VH_CHECK(M_hash_dict_num_keys(g) == keys, what, "%zu keys want %zu", M_hash_dict_num_keys(g), keys); };
	M_hash_dict_t *g = M_http_parse_form_data_string(f, M_TEXTCODEC_UNKNOWN); VH_CHECK((g == NULL) == w.empty(), "form:parse", "\"%s\"", E(fs)); if (g) cmp(g, "form:values"); M_hash_dict_destroy(g);
	char *q = M_http_generate_query_string("/a/b", d); VH_CHECK(q && (S(q) == "/a/b?" + fs || (M_hash_dict_num_keys(d) == 0 && S(q) == "/a/b")), "form:query", "\"%s\"", E(O(q))); if (!fs.empty()) { g = M_http_parse_query_string(q + 4, M_TEXTCODEC_UTF8); if (g) cmp(g, "form:query"); else vh_fail("form:query", "NULL"); M_hash_dict_destroy(g); } M_free(q);
	// in a request body
	if (!fs.empty()) { size_t len; unsigned char *m = M_http_simple_write_request(M_HTTP_METHOD_POST, "h", 0, "/", NULL, "application/x-www-form-urlencoded", NULL, (const unsigned char *)f, fs.size(), NULL, &len); M_http_simple_read_t *s = NULL; M_http_error_t r = m ? M_http_simple_read(&s, m, len, M_HTTP_SIMPLE_READ_NONE, NULL) : M_HTTP_ERROR_INVALIDUSE; VH_CHECK(r == M_HTTP_ERROR_SUCCESS && M_http_simple_read_is_body_form_data(s), "form:body", "%s", M_http_errcode_to_str(r)); cmp((M_hash_dict_t *)M_http_simple_read_body_form_data(s), "form:body"); M_http_simple_read_destroy(s); M_free(m); }
	M_free(f); M_hash_dict_destroy(d); vh_count("forms", 1); vh_count("values", (long)tot);
}
const vh_mode_t vh_modes[] = { { "write", wr, NULL, NULL }, { "inject", inject, NULL, NULL }, { "quoted", quoted, NULL, NULL }, { "uri", uri, NULL, NULL }, { "form", form, NULL, NULL }, {} };
