// F03: the HTTP reader against generated messages with known events, in any segmentation.
#include "vh.hpp"
#include <mstdlib/mstdlib_formats.h>
struct Rec { VS ev; size_t calls, fail_at; M_http_error_t fail; bool bad; };
static M_http_error_t note(void *t, const S &s) { Rec *r = (Rec *)t; if (r->fail_at && r->calls >= r->fail_at) r->bad = true; r->calls++; r->ev.push_back(s); return r->fail_at && r->calls == r->fail_at ? r->fail : M_HTTP_ERROR_SUCCESS; }
static M_http_error_t data(void *t, const S &tag, const unsigned char *p, size_t n)
{
	Rec *r = (Rec *)t; S h = tag + "|"; S d((const char *)p, n); if (r->fail_at && r->calls >= r->fail_at) r->bad = true;
	if (n == 0) return M_HTTP_ERROR_SUCCESS;
	if (!r->ev.empty() && r->ev.back().compare(0, h.size(), h) == 0) { r->ev.back() += d; return M_HTTP_ERROR_SUCCESS; }
	return note(t, h + d);
}
static S O(const char *s) { return s ? S(s) : S("<null>"); }
static S I(size_t i) { return vh_fmt("%zu", i); }
static M_http_error_t c_start(M_http_message_type_t ty, M_http_version_t v, M_http_method_t m, const char *u, M_uint32 c, const char *re, void *t) { return note(t, ty == M_HTTP_MESSAGE_TYPE_REQUEST ? vh_fmt("request %d %d ", (int)v, (int)m) + O(u) : vh_fmt("response %d %u ", (int)v, (unsigned)c) + O(re)); }
static M_http_error_t c_hf(const char *k, const char *v, void *t) { return note(t, "hf " + O(k) + "=" + O(v)); }
static M_http_error_t c_h(const char *k, const char *v, void *t) { return note(t, "h " + O(k) + "=" + O(v)); }
static M_http_error_t c_hd(M_http_data_format_t f, void *t) { return note(t, vh_fmt("headers %d", (int)f)); }
static M_http_error_t c_b(const unsigned char *p, size_t n, void *t) { return data(t, "body", p, n); }
static M_http_error_t c_bd(void *t) { return note(t, "body done"); }
static M_http_error_t c_ce(const char *k, const char *v, size_t i, void *t) { return note(t, "ext " + I(i) + " " + O(k) + "=" + O(v)); }
static M_http_error_t c_ced(size_t i, void *t) { return note(t, "ext done " + I(i)); }
static M_http_error_t c_cd(const unsigned char *p, size_t n, size_t i, void *t) { return data(t, "chunk" + I(i), p, n); }
static M_http_error_t c_cdd(size_t i, void *t) { return note(t, "chunk done " + I(i)); }
static M_http_error_t c_cdf(void *t) { return note(t, "chunks finished"); }
static M_http_error_t c_pre(const unsigned char *p, size_t n, void *t) { return data(t, "preamble", p, n); }
static M_http_error_t c_pred(void *t) { return note(t, "preamble done"); }
static M_http_error_t c_mhf(const char *k, const char *v, size_t i, void *t) { return note(t, "mhf " + I(i) + " " + O(k) + "=" + O(v)); }
static M_http_error_t c_mh(const char *k, const char *v, size_t i, void *t) { return note(t, "mh " + I(i) + " " + O(k) + "=" + O(v)); }
static M_http_error_t c_mhd(size_t i, void *t) { return note(t, "mheaders " + I(i)); }
static M_http_error_t c_md(const unsigned char *p, size_t n, size_t i, void *t) { return data(t, "part" + I(i), p, n); }
static M_http_error_t c_mdd(size_t i, void *t) { return note(t, "part done " + I(i)); }
static M_http_error_t c_mdf(void *t) { return note(t, "parts finished"); }
static M_http_error_t c_epi(const unsigned char *p, size_t n, void *t) { return data(t, "epilogue", p, n); }
static M_http_error_t c_epid(void *t) { return note(t, "epilogue done"); }
static M_http_error_t c_tf(const char *k, const char *v, void *t) { return note(t, "tf " + O(k) + "=" + O(v)); }
static M_http_error_t c_t(const char *k, const char *v, void *t) { return note(t, "t " + O(k) + "=" + O(v)); }
static M_http_error_t c_td(void *t) { return note(t, "trailers done"); }
static struct M_http_reader_callbacks CB = { c_start, c_hf, c_h, c_hd, c_b, c_bd, c_ce, c_ced, c_cd, c_cdd, c_cdf, c_pre, c_pred, c_mhf, c_mh, c_mhd, c_md, c_mdd, c_mdf, c_epi, c_epid, c_tf, c_t, c_td };

// ---- generated messages: bytes and the events they mean
struct Msg { S bytes; VS ev; bool endless, skip; int fmt; S body; bool ext, trailers; size_t hlen; VS frag; };
static S lc(S s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static S anycase(S s) { for (auto &c : s) if (vh_chance(30)) c = (char)(isupper((unsigned char)c) ? tolower(c) : toupper(c)); return s; }
static S token(void) { return vh_from("abcdefghijXYZ0123456789-_.", 1 + vh_rndn(12)); }
static S gval(void) { S s = vh_from("abcXYZ019 -_./;=\"()<>@?&:", vh_rndn(20)); while (!s.empty() && isspace((unsigned char)s[0])) s.erase(0, 1); while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return s.empty() ? S("v") : s; }
static S pad(void) { return vh_chance(70) ? S(" ") : vh_from(" \t", vh_rndn(4)); }
static bool nosplit(const S &k) { S l = lc(k); return l == "content-type" || l == "date" || l == "www-authenticate" || l == "proxy-authorization"; }
static S hdr(Msg &m, const char *kind, const S &k, const S &v)
{
	VS parts; if (nosplit(k) || v.empty()) parts.push_back(v); else { size_t at = 0; for (;;) { size_t e = v.find(',', at); S p = v.substr(at, e == S::npos ? e : e - at); while (!p.empty() && isspace((unsigned char)p[0])) p.erase(0, 1); while (!p.empty() && isspace((unsigned char)p.back())) p.pop_back(); parts.push_back(p); if (e == S::npos) break; at = e + 1; } }
	S f = kind, pre = f; size_t sp = f.find(' '); if (sp != S::npos) { f = f.substr(0, sp) + "f" + f.substr(sp); } else f += "f";
	m.ev.push_back(f + " " + k + "=" + v); for (auto &p : parts) m.ev.push_back(pre + " " + k + "=" + p);
	return k + ":" + pad() + v + (vh_chance(10) ? " " : "") + "\r\n";
}
static S ghdr(Msg &m, const char *kind)
{
	S k = vh_chance(10) ? anycase("Date") : "X-" + token(), v = gval(); if (vh_chance(25)) { int n = (int)vh_range(1, 3); for (int i = 0; i < n; i++) v += (vh_chance(50) ? ", " : ",") + gval(); }
	if (vh_chance(5)) v = vh_from("abc ", 2000) + "x", v[0] = 'a';
	return hdr(m, kind, k, v);
}
static S gbody(void) { switch (vh_rndn(5)) { case 0: return vh_from("\r\n-ab0", vh_rndn(40)); case 1: return vh_bytes(vh_rndn(2000)); case 2: return vh_from("0123456789abcdef;\r\n", vh_rndn(60)); default: return vh_bytes(vh_rndn(30)); } }
static void gen(Msg &m, int want) // want: -1 any, else 0 none, 1 length, 2 chunked, 3 multipart, 4 until close
{
	m.endless = false; m.skip = vh_chance(5); m.ext = m.trailers = false; m.ev.clear(); m.bytes.clear(); m.body.clear();
	bool req = vh_chance(50); static const char *meth[] = { "OPTIONS", "GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "CONNECT" }; int mi = (int)vh_rndn(7); int code = 200; S s;
	int kind = want >= 0 ? want : (int)vh_rndn(5); if (m.skip) req = false;
	if (kind == 4) req = false; if (kind == 0 && !req && !m.skip && vh_chance(60)) { static const int nb[] = { 100, 101, 199, 204, 304 }; code = nb[vh_rndn(5)]; } else if (!req) { do code = (int)vh_range(100, 999); while (code < 200 || code == 204 || code == 304); }
	S v = vh_chance(60) ? "1.1" : "1.0"; M_http_version_t ver = v == "1.1" ? M_HTTP_VERSION_1_1 : M_HTTP_VERSION_1_0;
	if (!m.skip && vh_chance(10)) s += vh_from("\r\n ", 1 + vh_rndn(4));
	if (!m.skip) {
		if (req) { S u = vh_chance(80) ? "/" + vh_from("abc/._-~019", vh_rndn(15)) + (vh_chance(30) ? "?" + vh_from("abc", 1 + vh_rndn(3)) + "=" + vh_from("xyz", 1 + vh_rndn(3)) : S()) : vh_chance(70) ? S("http://host.example:8080/p") : S("*"); if (u[0] == '*') { u = "/"; }
			s += S(meth[mi]) + " " + u + " HTTP/" + v + "\r\n"; m.ev.push_back(vh_fmt("request %d %d ", (int)ver, (int)M_http_method_from_str(meth[mi])) + u); }
		else { S re = vh_chance(85) ? "R" + vh_from("abc XYZ'()", vh_rndn(20)) : S(); while (!re.empty() && re.back() == ' ') re.pop_back(); s += "HTTP/" + v + vh_fmt(" %d ", code) + re + "\r\n"; m.ev.push_back(vh_fmt("response %d %d ", (int)ver, code) + (re.empty() ? "<null>" : re)); }
	}
	// body and how it is framed
	S body, framed; VS bev; VS special; int fmt; S bnd; bool cl0 = false;
	bool nobody_meth = req && (mi == 1 || mi == 2 || mi == 5 || mi == 6);
	if (code != 200 && (code < 200 || code == 204 || code == 304)) { fmt = M_HTTP_DATA_FORMAT_NONE; if (vh_chance(50)) special.push_back(vh_chance(50) ? "cl 17" : "te"); }
	else if (kind == 0) { if (!req || vh_chance(50)) { special.push_back("cl 0"); fmt = M_HTTP_DATA_FORMAT_NONE; cl0 = true; } else if (nobody_meth) fmt = M_HTTP_DATA_FORMAT_NONE; else { fmt = M_HTTP_DATA_FORMAT_BODY; bev.push_back("body done"); } }
	else if (kind == 1) { do body = gbody(); while (body.empty()); framed = body; special.push_back("cl " + I(body.size())); fmt = M_HTTP_DATA_FORMAT_BODY; bev.push_back("body|" + body); bev.push_back("body done"); }
	else if (kind == 4) { body = gbody(); framed = body; fmt = M_HTTP_DATA_FORMAT_BODY; m.endless = true; if (!body.empty()) bev.push_back("body|" + body); }
	else if (kind == 2) {
		fmt = M_HTTP_DATA_FORMAT_CHUNKED; special.push_back("te"); if (vh_chance(10)) special.push_back("ct"); size_t n = vh_rndn(6), idx = 0; VS save; std::swap(save, m.ev);
		for (size_t i = 0; i <= n; i++) {
			S d; if (i < n) do d = gbody(); while (d.empty());
			framed += vh_chance(10) ? "000" : ""; framed += vh_chance(50) ? vh_fmt("%zx", d.size()) : vh_fmt("%zX", d.size());
			if (vh_chance(20)) { size_t x = 1 + vh_rndn(3); for (size_t j = 0; j < x; j++) { S k = token(), val = vh_chance(60) ? token() : S(); framed += ";" + k + (val.empty() ? "" : "=" + val); m.ev.push_back("ext " + I(idx) + " " + k + "=" + (val.empty() ? "<null>" : val)); } m.ev.push_back("ext done " + I(idx)); m.ext = true; }
			framed += "\r\n";
			if (i < n) { framed += d + "\r\n"; body += d; m.ev.push_back("chunk" + I(idx) + "|" + d); m.ev.push_back("chunk done " + I(idx)); idx++; }
		}
		m.ev.push_back("chunks finished"); size_t tr = vh_chance(30) ? 1 + vh_rndn(3) : 0; for (size_t i = 0; i < tr; i++) { framed += ghdr(m, "t"); m.trailers = true; } framed += "\r\n"; m.ev.push_back("trailers done");
		std::swap(save, m.ev); bev = save;
	} else {
		fmt = M_HTTP_DATA_FORMAT_MULTIPART; bnd = vh_from("abcXYZ0123-'()+_./:=?", 1 + vh_rndn(vh_chance(10) ? 70 : 12)); if (bnd.find_first_not_of("'") == S::npos) bnd = "b"; special.push_back("ct"); VS save; std::swap(save, m.ev); S full = "--" + bnd, delim = "\r\n" + full;
		auto part = [&](bool first) { S d; for (;;) { d = gbody(); if (vh_chance(40)) { static const char *near[] = { "\r\n--", "\r\n-", "\r\n", "\r", "--", "\r\r\n", "\r\n\r\n" }; d.insert(vh_rndn(d.size() + 1), S(near[vh_rndn(7)]) + bnd.substr(0, vh_rndn(bnd.size()))); } if ((d + delim).find(delim) == d.size() && (first ? d : S("\r\n") + d + delim).compare(0, first ? full.size() : delim.size(), first ? full : delim) != 0) return d; } };
		if (vh_chance(30)) { S p = part(true); if (p.compare(0, full.size(), full) == 0) p = ""; if (!p.empty()) { m.ev.push_back("preamble|" + p); } framed += p + "\r\n"; if (p.empty()) { } }
		framed += full + "\r\n"; m.ev.push_back("preamble done"); size_t n = 1 + vh_rndn(4);
		for (size_t i = 0; i < n; i++) {
			S tag = "mh " + I(i); size_t nh = vh_rndn(3); for (size_t j = 0; j < nh; j++) framed += ghdr(m, tag.c_str()); framed += "\r\n"; m.ev.push_back("mheaders " + I(i));
			S d = i == 0 || vh_chance(90) ? part(false) : S(); if (i == 0 && d.empty()) d = "x"; framed += d + delim + (i + 1 < n ? "\r\n" : "--"); if (!d.empty()) m.ev.push_back("part" + I(i) + "|" + d); m.ev.push_back("part done " + I(i));
		}
		m.ev.push_back("parts finished"); bool len = req || vh_chance(60); S ep; bool crlf = vh_chance(60); if (crlf) { framed += "\r\n"; if (vh_chance(50)) { ep = gbody(); framed += ep; if (!ep.empty()) m.ev.push_back("epilogue|" + ep); } }
		if (len) { special.push_back("cl " + I(framed.size())); m.ev.push_back("epilogue done"); } else m.endless = true;
		std::swap(save, m.ev); bev = save;
	}
	// headers: the framing ones anywhere, in any order
	VS lines; size_t nh = vh_rndn(5); std::vector<int> order; for (size_t i = 0; i < nh; i++) order.push_back(-1); for (size_t i = 0; i < special.size(); i++) order.insert(order.begin() + (long)vh_rndn(order.size() + 1), (int)i);
	for (int o : order) {
		if (o < 0) { s += ghdr(m, "h"); continue; }
		const S &sp = special[(size_t)o];
		if (sp.compare(0, 3, "cl ") == 0) s += hdr(m, "h", anycase("Content-Length"), (vh_chance(5) ? "00" : "") + sp.substr(3));
		else if (sp == "te") s += hdr(m, "h", anycase("Transfer-Encoding"), vh_chance(80) ? anycase("chunked") : "gzip, chunked");
		else s += hdr(m, "h", anycase("Content-Type"), bnd.empty() ? S("text/plain; charset=utf-8") : "multipart/form-data" + S(vh_chance(20) ? "; x=y" : "") + ";" + (vh_chance(80) ? " " : "") + "boundary=" + (vh_chance(40) || bnd.find_first_of("=:?/()") != S::npos ? "\"" + bnd + "\"" : bnd) + (vh_chance(20) ? "; charset=x" : ""));
	}
	(void)cl0; s += "\r\n"; m.hlen = s.size(); m.ev.push_back(vh_fmt("headers %d", fmt)); m.fmt = fmt; for (auto &e : bev) m.ev.push_back(e);
	m.bytes = s + framed; m.body = fmt == M_HTTP_DATA_FORMAT_NONE ? S() : body;
}
static S show(const VS &v) { S s; for (auto &e : v) s += "[" + S(E(e.substr(0, 60))) + "] "; return s.substr(0, 900); }
struct Out { M_http_error_t res; size_t used; };
// read from exact-size memory; segs empty = whole
static Out feed(const S &b, bool skip, int how, Rec &rec)
{
	M_http_reader_t *r = M_http_reader_create(&CB, skip ? M_HTTP_READER_SKIP_START : M_HTTP_READER_NONE, &rec); size_t pos = 0, end = 0, n; Out o = { M_HTTP_ERROR_MOREDATA, 0 };
	for (;;) {
		size_t was = end; if (how == 0) end = b.size(); else { end += how == 1 ? 1 : how == 2 ? vh_rndn(8) : vh_rndn(vh_chance(50) ? 5 : 400); if (end > b.size()) end = b.size(); }
		if (end == pos) { if (end == b.size()) break; continue; }
		Heap h(b.substr(pos, end - pos), false); n = 777777; o.res = M_http_reader_read(r, (const unsigned char *)h.p, end - pos, &n); VH_CHECK(n <= end - pos, "consumed", "%zu of %zu", n, end - pos); pos += n; vh_count("reads", 1);
		if (o.res != M_HTTP_ERROR_MOREDATA && o.res != M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE) break;
		if (end == b.size() && (n == 0 || pos == end)) break; (void)was;
	}
	o.used = pos; M_http_reader_destroy(r); return o;
}
static void valid(void)
{
	Msg m; gen(m, -1); S tail = m.endless ? S() : vh_chance(60) ? "GET / HTTP/1.1\r\n\r\n" : vh_chance(50) ? vh_bytes(vh_rndn(20)) : S(); S b = m.bytes + tail; vh_count("messages", 1); vh_count(vh_fmt("kind%d", m.fmt).c_str(), 1);
	for (int how = 0; how < 4; how++) {
		Rec rec = { {}, 0, 0, M_HTTP_ERROR_SUCCESS, false }; Out o = feed(b, m.skip, how, rec); M_http_error_t want = m.endless ? M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE : M_HTTP_ERROR_SUCCESS;
		VH_CHECK(o.res == want, how ? "split:result" : "result", "how %d: %s want %s for \"%s\" events %s", how, M_http_errcode_to_str(o.res), M_http_errcode_to_str(want), E(b.substr(0, 1500)), show(rec.ev).c_str());
		if (rec.ev != m.ev) { size_t i = 0; while (i < rec.ev.size() && i < m.ev.size() && rec.ev[i] == m.ev[i]) i++; vh_fail(how ? "split:events" : "events", "how %d event %zu: got \"%s\" want \"%s\" in \"%s\"", how, i, i < rec.ev.size() ? E(rec.ev[i].substr(0, 200)) : "-", i < m.ev.size() ? E(m.ev[i].substr(0, 200)) : "-", E(b.substr(0, 1500))); }
		VH_CHECK(o.used == m.bytes.size(), "used", "how %d: consumed %zu of %zu (+%zu) of \"%s\"", how, o.used, m.bytes.size(), tail.size(), E(b.substr(0, 1500))); vh_count("segmentations", 1); vh_count("events", (long)rec.ev.size());
	}
	uint64_t h = vh_hu((uint64_t)m.fmt, 1); for (auto &e : m.ev) h = vh_hash(e.data(), e.find_first_of(" |"), h); vh_distinct(h);
	// every prefix: incomplete, and what was reported is the start of the events
	for (int i = 0; i < 6; i++) {
		S pre = m.bytes.substr(0, vh_rndn(m.bytes.size())); if (pre.empty()) continue; Rec rec = { {}, 0, 0, M_HTTP_ERROR_SUCCESS, false }; Out o = feed(pre, m.skip, (int)vh_rndn(4), rec); bool blank = pre.find_first_not_of(" \r\n") == S::npos;
		bool more = o.res == M_HTTP_ERROR_MOREDATA || (m.endless && o.res == M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE && pre.size() >= m.hlen); VH_CHECK(more, "prefix:result", "%s for prefix %zu of \"%s\"", M_http_errcode_to_str(o.res), pre.size(), E(m.bytes.substr(0, 1500)));
		VH_CHECK(!blank || m.skip || rec.ev.empty(), "prefix:blank", "events for blanks"); VH_CHECK(rec.ev.size() <= m.ev.size(), "prefix:events", "too many"); for (size_t j = 0; j < rec.ev.size(); j++) { bool last = j + 1 == rec.ev.size(); VH_CHECK(rec.ev[j] == m.ev[j] || (last && m.ev[j].compare(0, rec.ev[j].size(), rec.ev[j]) == 0 && rec.ev[j].find('|') != S::npos), "prefix:event", "event %zu \"%s\" want \"%s\" in \"%s\"", j, E(rec.ev[j].substr(0, 200)), E(m.ev[j].substr(0, 200)), E(m.bytes.substr(0, 1000))); } vh_count("prefixes", 1);
	}
	// a callback that fails stops the reading with its code, at once
	if (vh_chance(50)) {
		Rec rec = { {}, 0, 1 + vh_rndn(m.ev.size()), vh_chance(50) ? M_HTTP_ERROR_STOP : M_HTTP_ERROR_USER_FAILURE, false }; Out o = feed(b, m.skip, (int)vh_rndn(4), rec);
		VH_CHECK(!rec.bad && o.res == rec.fail && rec.calls == rec.fail_at, "stop", "callback %zu (\"%s\") returned %s, reading returned %s%s", rec.fail_at, E(rec.ev.empty() ? S() : rec.ev.back().substr(0, 60)), M_http_errcode_to_str(rec.fail), M_http_errcode_to_str(o.res), rec.bad ? " and went on" : ""); vh_count("stops", 1);
	}
	if (vh_chance(5)) { M_http_simple_read_t *s = (M_http_simple_read_t *)(uintptr_t)0x40; VH_CHECK(M_http_simple_read(&s, (const unsigned char *)"", 0, M_HTTP_SIMPLE_READ_NONE, NULL) == M_HTTP_ERROR_MOREDATA && s == NULL, "simple:empty", "object from no data"); }
	// the simple reader
	if (!m.skip && m.fmt != M_HTTP_DATA_FORMAT_MULTIPART) {
		M_uint32 fl = M_HTTP_SIMPLE_READ_NODECODE_BODY; bool te = false, haslen = false; for (auto &e : m.ev) { S l = lc(e); if (l.compare(0, 20, "h transfer-encoding=") == 0) te = true; if (l.compare(0, 17, "h content-length=") == 0) haslen = true; }
		if (vh_chance(20)) fl |= M_HTTP_SIMPLE_READ_LEN_REQUIRED; if (vh_chance(20)) fl |= M_HTTP_SIMPLE_READ_FAIL_EXTENSION; if (vh_chance(20)) fl |= M_HTTP_SIMPLE_READ_FAIL_TRAILERS; (void)te;
		M_http_error_t want = m.endless ? M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE : M_HTTP_ERROR_SUCCESS; if ((fl & M_HTTP_SIMPLE_READ_LEN_REQUIRED) && (m.fmt == M_HTTP_DATA_FORMAT_CHUNKED || !haslen)) want = M_HTTP_ERROR_LENGTH_REQUIRED; else if ((fl & M_HTTP_SIMPLE_READ_FAIL_EXTENSION) && m.ext) want = M_HTTP_ERROR_CHUNK_EXTENSION_NOTALLOWED; else if ((fl & M_HTTP_SIMPLE_READ_FAIL_TRAILERS) && m.trailers) want = M_HTTP_ERROR_TRAILER_NOTALLOWED;
		Heap h(b, false); M_http_simple_read_t *s = NULL; size_t n = 0; M_http_error_t res = M_http_simple_read(&s, (const unsigned char *)h.p, b.size(), fl, &n);
		VH_CHECK(res == want, "simple:result", "flags %u: %s want %s for \"%s\"", (unsigned)fl, M_http_errcode_to_str(res), M_http_errcode_to_str(want), E(b.substr(0, 1000)));
		if (res == M_HTTP_ERROR_SUCCESS || res == M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE) { size_t bl = 0; const unsigned char *bp = M_http_simple_read_body(s, &bl); VH_CHECK(n == m.bytes.size() && S((const char *)bp, bl) == m.body, "simple:body", "%zu bytes \"%s\" want \"%s\"", n, E(S((const char *)bp, bl).substr(0, 200)), E(m.body.substr(0, 200))); M_http_simple_read_destroy(s); vh_count("simple", 1);
			if (!m.endless) { size_t k = vh_rndn(m.bytes.size()); Heap g(m.bytes.substr(0, k), false); s = NULL; res = M_http_simple_read(&s, (const unsigned char *)g.p, k, fl, &n); VH_CHECK(res == M_HTTP_ERROR_MOREDATA && s == NULL, "simple:prefix", "%s for %zu bytes", M_http_errcode_to_str(res), k); } }
		else VH_CHECK(s == NULL, "simple:error", "object returned with an error");
	}
}
// anything at all: the same in every segmentation
static void mangle(void)
{
	Msg m; gen(m, -1); S b = m.bytes; int k = (int)vh_range(1, 3);
	for (int i = 0; i < k; i++) { size_t p = vh_rndn(b.size()); switch (vh_rndn(6)) { case 0: b.erase(p, 1 + vh_rndn(3)); break; case 1: b[p] = (char)vh_range(0, 255); break; case 2: { static const char *v[] = { "\r\n", "\r", "\n", " ", ":", ";", "--", "0", "\r\n\r\n", ",", "\t", "f", "=", "\"", "content-length: 3\r\n", "Transfer-Encoding: chunked\r\n", "Content-type: multipart/form-data; boundary=x\r\n", "\0" }; b.insert(p, v[vh_rndn(17)]); break; } case 3: { size_t q = vh_rndn(b.size()); std::swap(b[p], b[q]); break; } case 4: b.insert(p, b.substr(vh_rndn(b.size()), vh_rndn(30))); break; default: { size_t h = vh_rndn(m.hlen); if (h < b.size()) b[h] = " :,;=\r\n0"[vh_rndn(8)]; } } if (b.empty()) b = "\r"; }
	Rec r0 = { {}, 0, 0, M_HTTP_ERROR_SUCCESS, false }; Out o0 = feed(b, m.skip, 0, r0);
	for (int how = 1; how < 4; how++) {
		Rec r = { {}, 0, 0, M_HTTP_ERROR_SUCCESS, false }; Out o = feed(b, m.skip, how, r); bool fin = o0.res == M_HTTP_ERROR_SUCCESS || o0.res == M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE || o0.res == M_HTTP_ERROR_MOREDATA;
		VH_CHECK(o.res == o0.res, "mangle:result", "how %d: %s, whole %s for \"%s\" whole events %s", how, M_http_errcode_to_str(o.res), M_http_errcode_to_str(o0.res), E(b.substr(0, 1500)), show(r0.ev).c_str());
		if (r.ev != r0.ev) { size_t i = 0; while (i < r.ev.size() && i < r0.ev.size() && r.ev[i] == r0.ev[i]) i++; bool ok = !fin && (i + 1 >= r.ev.size() || i + 1 >= r0.ev.size()) ; ok = ok && (i >= r.ev.size() || i >= r0.ev.size() || r.ev[i].find('|') != S::npos); VH_CHECK(ok, "mangle:events", "how %d event %zu: got \"%s\", whole \"%s\" (%s) in \"%s\"", how, i, i < r.ev.size() ? E(r.ev[i].substr(0, 200)) : "-", i < r0.ev.size() ? E(r0.ev[i].substr(0, 200)) : "-", M_http_errcode_to_str(o.res), E(b.substr(0, 1500))); }
		if (fin) VH_CHECK(o.used == o0.used, "mangle:used", "how %d: consumed %zu, whole %zu of \"%s\"", how, o.used, o0.used, E(b.substr(0, 1500)));
	}
	vh_count("mangled", 1); vh_count(vh_fmt("result%d", (int)o0.res).c_str(), 1); vh_distinct(vh_hu((uint64_t)o0.res * 1000 + r0.ev.size(), 1));
}
// messages that must be refused, and the limits
static void refuse(void)
{
	struct { const char *what, *msg; } bad[] = {
		{ "length:sign", "POST / HTTP/1.1\r\nContent-Length: +5\r\n\r\nhello" }, { "length:minus", "POST / HTTP/1.1\r\nContent-Length: -5\r\n\r\nhello" }, { "length:junk", "POST / HTTP/1.1\r\nContent-Length: 5x\r\n\r\nhello" }, { "length:hex", "POST / HTTP/1.1\r\nContent-Length: 0x5\r\n\r\nhello" }, { "length:huge", "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nhello" }, { "length:twice", "POST / HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nhello" }, { "length:list", "POST / HTTP/1.1\r\nContent-Length: 5, 6\r\n\r\nhello" }, { "length:dot", "POST / HTTP/1.1\r\nContent-Length: 5.0\r\n\r\nhello" },
		{ "chunk:sign", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n+5\r\nhello\r\n0\r\n\r\n" }, { "chunk:minus", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n-5\r\nhello\r\n0\r\n\r\n" }, { "chunk:prefix", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0x5\r\nhello\r\n0\r\n\r\n" }, { "chunk:junk", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5z\r\nhello\r\n0\r\n\r\n" }, { "chunk:empty", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n\r\nhello\r\n0\r\n\r\n" }, { "chunk:noend", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhelloX\r\n0\r\n\r\n" }, { "chunk:huge", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n10000000000000005\r\nhello\r\n0\r\n\r\n" }, { "chunk:big", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\nhello\r\n0\r\n\r\n" }, { "chunk:ext", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n;a=b\r\nhello\r\n0\r\n\r\n" }, { "chunk:blank", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5 5\r\nhello\r\n0\r\n\r\n" }, { "chunk:twice", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n" },
		{ "header:fold", "GET / HTTP/1.1\r\nA: b\r\n c\r\n\r\n" }, { "header:blank", "GET / HTTP/1.1\r\nA : b\r\n\r\n" }, { "header:nocolon", "GET / HTTP/1.1\r\nAb\r\n\r\n" }, { "header:nokey", "GET / HTTP/1.1\r\n: b\r\n\r\n" }, { "start:method", "FETCH / HTTP/1.1\r\n\r\n" }, { "start:version", "GET / HTTP/3.7\r\n\r\n" }, { "start:http", "GET / HTP/1.1\r\n\r\n" }, { "start:parts", "GET /\r\n\r\n" }, { "start:status", "HTTP/1.1 abc OK\r\n\r\n" }, { "part:noboundary", "POST / HTTP/1.1\r\nContent-Type: multipart/form-data\r\nContent-Length: 5\r\n\r\nhello" }, { "part:nolength", "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=x\r\n\r\n--x\r\n\r\na\r\n--x--" }, { "part:noend", "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=x\r\nContent-Length: 9\r\n\r\n--x\r\n\r\nabGET / HTTP/1.1\r\n\r\n" }, { "part:none", "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=x\r\nContent-Length: 5\r\n\r\nhello" }, { "part:junk", "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=x\r\nContent-Length: 13\r\n\r\n--x\r\n\r\na\r\n--xyz" } };
	size_t n = sizeof(bad) / sizeof(*bad), i = vh_case % (n + 4);
	if (i < n) {
		S b = bad[i].msg; for (int how = 0; how < 4; how++) { Rec r = { {}, 0, 0, M_HTTP_ERROR_SUCCESS, false }; Out o = feed(b, false, how, r); VH_CHECK(o.res > M_HTTP_ERROR_STOP, (S("refuse:") + bad[i].what).c_str(), "%s for \"%s\"", M_http_errcode_to_str(o.res), E(b)); } vh_count("refused", 1); return;
	}
	if (i == n) { // very many tiny chunks
		S b = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"; size_t k = 150000; for (size_t j = 0; j < k; j++) b += "1\r\nx\r\n"; b += "0\r\n\r\n";
		Heap h(b, false); M_http_simple_read_t *s = NULL; size_t used; M_http_error_t res = M_http_simple_read(&s, (const unsigned char *)h.p, b.size(), M_HTTP_SIMPLE_READ_NONE, &used); size_t bl = 0; if (s) M_http_simple_read_body(s, &bl); VH_CHECK(res == M_HTTP_ERROR_SUCCESS && bl == k && used == b.size(), "many:chunks", "%s %zu", M_http_errcode_to_str(res), bl); M_http_simple_read_destroy(s); vh_count("many", 1); return;
	}
	if (i == n + 1) { // start line and header limits: 6 KiB and 8 KiB
		for (int over = 0; over < 2; over++) {
			S u(6144 - 14 + (size_t)over, 'a'); S b = "GET /" + u + " HTTP/1.1\r\n\r\n"; Rec r = { {}, 0, 0, M_HTTP_ERROR_SUCCESS, false }; Out o = feed(b, false, (int)vh_rndn(4) ? 3 : 0, r); VH_CHECK(o.res == (over ? M_HTTP_ERROR_STARTLINE_LENGTH : M_HTTP_ERROR_SUCCESS), "limit:start", "%s", M_http_errcode_to_str(o.res));
			b = "GET / HTTP/1.1\r\n"; for (int j = 0; j < 8; j++) b += "A: " + S(1021 + (j == 7 ? (size_t)over : 0), 'x') + "\r\n"; b += "\r\n"; Rec q = { {}, 0, 0, M_HTTP_ERROR_SUCCESS, false }; o = feed(b, false, (int)vh_rndn(4) ? 3 : 0, q); VH_CHECK(o.res == (over ? M_HTTP_ERROR_HEADER_LENGTH : M_HTTP_ERROR_SUCCESS), "limit:header", "%s", M_http_errcode_to_str(o.res));
		}
		vh_count("limits", 1); return;
	}
	if (i == n + 2) { // many parts
		S body, b; size_t k = 20000; for (size_t j = 0; j < k; j++) body += "--b\r\n\r\nx\r\n"; body += "--b--"; b = "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: " + I(body.size()) + "\r\n\r\n" + body; Rec r = { {}, 0, 0, M_HTTP_ERROR_SUCCESS, false }; Out o = feed(b, false, 0, r); VH_CHECK(o.res == M_HTTP_ERROR_SUCCESS && o.used == b.size() && r.ev.size() > 3 * k, "many:parts", "%s", M_http_errcode_to_str(o.res)); vh_count("many", 1); return;
	}
	// a message after a message, one buffer
	S all; std::vector<Msg> ms(1 + vh_rndn(5)); for (auto &m : ms) { do gen(m, -1); while (m.endless || m.skip); all += m.bytes; }
	size_t at = 0; for (auto &m : ms) { Rec r = { {}, 0, 0, M_HTTP_ERROR_SUCCESS, false }; Out o = feed(all.substr(at), false, vh_chance(50) ? 0 : 3, r); VH_CHECK(o.res == M_HTTP_ERROR_SUCCESS && r.ev == m.ev && o.used == m.bytes.size(), "pipeline", "%s, %zu bytes of %zu", M_http_errcode_to_str(o.res), o.used, m.bytes.size()); at += o.used; vh_count("pipelined", 1); }
}
const vh_mode_t vh_modes[] = { { "valid", valid, NULL, NULL }, { "mangle", mangle, NULL, NULL }, { "refuse", refuse, NULL, NULL }, {} };
