// F05: URL splitting against an independent RFC 3986 splitter.
#include "vh.hpp"
#include <mstdlib/mstdlib_formats.h>
struct U { bool ok; bool has[7]; S f[7]; unsigned port; };
enum { SCHEME, HOST, PORT, PATH, QUERY, FRAG, USER };
static const char *nm[] = { "scheme", "host", "port", "path", "query", "fragment", "user info" };
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static bool all(const S &s, bool (*f)(char)) { for (char c : s) if (!f(c)) return false; return true; }
static bool c_user(char c) { return al(c) || dg(c) || strchr("-_.!~*'()%;:&=+$,", c); }
static bool c_host(char c) { return al(c) || dg(c) || c == '.' || c == '-'; }
static bool c_v6(char c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F') || c == ':' || c == '.'; }
static bool c_zone(char c) { return al(c) || dg(c) || strchr("%.-_~", c); }
static bool c_url(char c) { return c > 0x20 && c < 0x7f && c != '#' && c != '?'; }
static bool c_q(char c) { return c_url(c) || c == '?'; }
static bool c_frag(char c) { return c_q(c) || c == '#'; }
static void set(U &u, int i, const S &s) { u.has[i] = true; u.f[i] = s; }
static U ref(const S &t)
{
	U u; memset(u.has, 0, sizeof(u.has)); u.ok = false; u.port = 0;
	S r = t;
	size_t h = r.find('#');
	if (h != S::npos) { S f = r.substr(h + 1); r.resize(h); size_t k = 0; while (k < f.size() && f[k] == '#') k++; f.erase(0, k); if (!all(f, c_frag)) return u; if (!f.empty()) set(u, FRAG, f); }
	size_t q = r.find('?');
	if (q != S::npos) { S f = r.substr(q + 1); r.resize(q); if (!all(f, c_q)) return u; if (!f.empty()) set(u, QUERY, f); }
	if (r.empty()) return u;
	if (r[0] == '/' || r[0] == '*') { if (!all(r, c_url)) return u; set(u, PATH, r); u.ok = true; return u; }
	size_t s = r.find("://");
	if (s == S::npos || s == 0 || !all(r.substr(0, s), al)) return u;
	set(u, SCHEME, r.substr(0, s)); r.erase(0, s + 3);
	size_t p = r.find('/'); S path;
	if (p != S::npos) { path = r.substr(p); r.resize(p); if (!all(path, c_url)) return u; set(u, PATH, path); }
	size_t at = r.find('@');
	if (at != S::npos) { S ui = r.substr(0, at); r.erase(0, at + 1); if (!all(ui, c_user)) return u; if (!ui.empty()) set(u, USER, ui); }
	S port; bool colon = false;
	if (!r.empty() && r[0] == '[') {
		size_t e = r.find(']'); if (e == S::npos) return u;
		S v = r.substr(1, e - 1), z; r.erase(0, e + 1); bool zone = false;
		size_t pc = v.find('%'); if (pc != S::npos) { z = v.substr(pc + 1); v.resize(pc); zone = true; }
		if (v.empty() || !all(v, c_v6) || (zone && (z.empty() || !all(z, c_zone)))) return u;
		set(u, HOST, zone ? v + "%" + z : v);
		if (!r.empty()) { if (r[0] != ':') return u; colon = true; port = r.substr(1); }
	} else {
		size_t c = r.find(':'); if (c != S::npos) { colon = true; port = r.substr(c + 1); r.resize(c); }
		if (r.empty() || !all(r, c_host)) return u;
		set(u, HOST, r);
	}
	if (colon && !port.empty()) {
		if (!all(port, dg)) return u;
		unsigned long long v = 0; for (char c : port) { v = v * 10 + (unsigned)(c - '0'); if (v > 65535) return u; }
		set(u, PORT, port); u.port = (unsigned)v;
	}
	u.ok = true;
	return u;
}
static void check(const S &t)
{
	U w = ref(t); Heap h(t, true); M_url_t *m = M_url_create((const char *)h.p);
	if (!w.ok) { VH_CHECK(m == NULL, "accept", "\"%s\" is not a URL and is accepted (host \"%s\" path \"%s\")", E(t), M_url_host(m) ? M_url_host(m) : "", M_url_path(m) ? M_url_path(m) : ""); vh_count("rejected", 1); return; }
	VH_CHECK(m != NULL, "reject", "the URL \"%s\" is rejected", E(t));
	memset(h.p, 'x', t.size()); // the parts must not depend on the text given
	const char *g[7] = { M_url_schema(m), M_url_host(m), M_url_port(m), M_url_path(m), M_url_query(m), M_url_fragment(m), M_url_userinfo(m) };
	for (int i = 0; i < 7; i++) {
		VH_CHECK(w.has[i] ? g[i] && w.f[i] == g[i] : g[i] == NULL, vh_fmt("part:%s", nm[i]).c_str(), "%s of \"%.300s\" is \"%.300s\", expected \"%.300s\"", nm[i], E(t), g[i] ? g[i] : "(none)", w.has[i] ? w.f[i].c_str() : "(none)");
		if (w.has[i]) vh_count(nm[i], 1);
	}
	VH_CHECK(M_url_port_u16(m) == w.port, "part:number", "port of \"%s\" is %u, expected %u", E(t), M_url_port_u16(m), w.port);
	S r; if (g[0]) r += S(g[0]) + "://"; if (g[6]) r += S(g[6]) + "@"; if (g[1]) { if (strchr(g[1], ':') || strchr(g[1], '%')) r += "[" + S(g[1]) + "]"; else r += g[1]; } if (g[2]) r += ":" + S(g[2]); if (g[3]) r += g[3]; if (g[4]) r += "?" + S(g[4]); if (g[5]) r += "#" + S(g[5]);
	M_url_t *m2 = M_url_create(r.c_str());
	VH_CHECK(m2 != NULL, "recompose", "\"%s\" recomposed as \"%s\" is rejected", E(t), E(r));
	const char *g2[7] = { M_url_schema(m2), M_url_host(m2), M_url_port(m2), M_url_path(m2), M_url_query(m2), M_url_fragment(m2), M_url_userinfo(m2) };
	for (int i = 0; i < 7; i++) VH_CHECK(M_str_eq(g[i], g2[i]), "recompose", "%s of \"%s\" recomposed as \"%s\"", nm[i], E(t), E(r));
	M_url_destroy(m); M_url_destroy(m2); vh_count("accepted", 1); vh_distinct(vh_hash(t.data(), t.size(), 1));
}
static S chars(const char *set, size_t lo, size_t hi) { S s; size_t n = vh_range(lo, hi), l = strlen(set); for (size_t i = 0; i < n; i++) s += (n > 1000 || vh_chance(99)) ? set[vh_rndn(l)] : (char)vh_range(1, 255); return s; }
static void run_urls(void)
{
	for (int j = 0; j < 4; j++) {
		static const char unres[] = "abcdefgXYZ0123456789-._~", ui[] = "abXY01-_.!~*'()%;:&=+$,", pc[] = "abXY01-._~!$&'()*+,;=:@%[]|\\^{}<>\"`";
		static const char *sch[] = { "http", "https", "HTTP", "ftp", "ldap", "telnet", "ws", "x" };
		bool big = vh_chance(1); S t;
		if (vh_chance(85)) {
			t = vh_chance(95) ? sch[vh_rndn(8)] : chars("abz09+-.", 0, 5).c_str();
			t += "://";
			if (vh_chance(25)) t += chars(ui, 0, big ? 40000 : 8) + "@";
			switch (vh_rndn(4)) {
				case 0: t += "[" + chars("0123456789abcdefABCDEF::.", 0, 12) + (vh_chance(20) ? "%" + chars(unres, 0, 5) : S()) + "]"; break;
				case 1: t += vh_fmt("%u.%u.%u.%u", (unsigned)vh_rndn(300), (unsigned)vh_rndn(256), (unsigned)vh_rndn(256), (unsigned)vh_rndn(256)); break;
				default: t += chars("abcdefXYZ0123456789-.", vh_chance(5) ? 0 : 1, big ? 40000 : 12);
			}
			if (vh_chance(35)) t += ":" + (vh_chance(10) ? S() : vh_chance(20) ? chars("0123456789", 1, 8) : vh_fmt("%u", (unsigned)vh_rndn(70000)));
			if (vh_chance(65)) t += "/" + chars(pc, 0, big ? 80000 : 15) + (vh_chance(30) ? "/" + chars(unres, 0, 5) : S());
		} else t = (vh_chance(80) ? "/" : "*") + chars(pc, 0, 15);
		if (vh_chance(40)) t += "?" + chars("abXY01-._~!$&'()*+,;=:@%/?", 0, big ? 50000 : 15);
		if (vh_chance(30)) t += "#" + chars("abXY01-._~!$&'()*+,;=:@%/?#", 0, 10);
		if (vh_chance(8)) t.insert(vh_rndn(t.size() + 1), 1, " \t\r\n\x7f#?@:/[]\x01\xc3"[vh_rndn(14)]);
		if (vh_chance(4) && !t.empty()) t.erase(vh_rndn(t.size()), 1);
		if (t.size() > 65535) vh_count("long", 1);
		check(t.c_str());
	}
}
static void run_noise(void) { for (int j = 0; j < 6; j++) { S t = chars("aZ0:/@[]?#%.-", 0, 14); if (vh_chance(50)) t = "a://" + t; check(t.c_str()); } }
const vh_mode_t vh_modes[] = { {"urls", run_urls}, {"noise", run_noise}, {0} };
