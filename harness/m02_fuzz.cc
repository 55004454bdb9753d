/* M02: text and binary primitives on mutated inputs under ASan/UBSan/LSan with a CPU time bound. */
#include "fuzzgen.hpp"
#include <mstdlib/mstdlib_text.h>
#include <unistd.h>
#include <fcntl.h>

static void touch(const void *p, size_t n) { static volatile unsigned s; const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) s += c[i]; }
static void ts(const char *s) { if (s) touch(s, strlen(s)); }
static void fr(char *s) { ts(s); M_free(s); }
static void fin(const S &d, bool ok) { vh_distinct(vh_hash(d.data(), d.size(), 0)); vh_count(ok ? "accepted" : "refused", 1); }
static S nonul(S d) { S o; for (char c : d) if (c) o += c; return o; }
static M_bool mb(int pct) { return vh_chance(pct) ? M_TRUE : M_FALSE; }

/* ---- regular expressions ---- */
static const VS rs = { "^(a|b)*c+?d{2,3}$", "[[:alpha:]_]\\w*\\s*=\\s*\"([^\"\\\\]|\\\\.)*\"", "(?i)x(?:yz|[^a-c]){1,4}?\\b", "((a)(b(c)?)?)*", "(\\d+)\\.(\\d+)(?s).", "^\\S+@\\S+$|^$" };
static const VS rd = { "(", ")", "[", "]", "{", "}", "{2}", "{,3}", "{1,}", "{3,1}", "*", "+", "?", "|", "^", "$", ".", "\\", "\\d", "\\W", "\\b", "\\<", "\\Q", "\\E", "\\x41", "\\x{263a}", "[:alpha:]", "[^", "-", "[a-", "[]", "(?", "(?:", "(?i)", "(?-i:", "(?#", "\\1", "\\9", "a", "ab", "\n", "\xc3\xa9", "\xff", "[[:", ":]]", "[=a=]", "\\n", "\\t" };
static const VS tsd = { "abcabcddd", "key = \"va\\\"lue\" x", "aAbBxyzzy 12.5\n", "", "user@example.com", "\xc3\xa9\xe2\x98\xba aaa" };
static const VS td = { "a", "b", "c", "ab", "\n", " ", "\"", "\\", "1", ".", "@", "_", "\xc3\xa9", "\xff", "aaaaaaaaaa", "XYZ" };
static S bounded(S p) { /* at most two counted repeats with small counts: their product decides the size of the automaton */
	S o; int braces = 0; for (size_t i = 0; i < p.size(); i++) { if (p[i] == '{' && ++braces > 3) continue; o += p[i]; }
	S q; size_t run = 0; for (char c : o) { if (isdigit((unsigned char)c)) { if (++run > 2) continue; } else run = 0; q += c; } return q; }
static void regex(void)
{
	S p = bounded(nonul(fz_mutate(rs, rd, 80))), t = nonul(fz_mutate(tsd, td, 300)); Heap h(p, true), s(t, true); FzTime tm("regex", p.size() + t.size());
	M_re_t *re = M_re_compile(h.p, (M_uint32)vh_rndn(16));
	fin(p, re != NULL);
	if (!re) return;
	M_re_match_t *m = NULL;
	if (M_re_search(re, s.p, vh_chance(80) ? &m : NULL) && m) { for (size_t i = 0; i < 6; i++) { size_t o, l; if (M_re_match_idx(m, i, &o, &l)) { VH_CHECK(o + l <= t.size(), "regex:range", "%s on %s: group %zu is %zu+%zu of %zu", E(p), E(t), i, o, l, t.size()); touch(s.p + o, l); } } M_list_u64_destroy(M_re_match_idxs(m)); }
	M_re_match_destroy(m);
	(void)M_re_eq(re, s.p); (void)M_re_eq_start(re, s.p);
	M_list_destroy(M_re_matches(re, s.p), M_TRUE); M_list_str_destroy(M_re_find_all(re, s.p));
	static const VS subs = { "", "x", "\\1", "<\\0>", "\\2\\1\\9", "\\g<1>", "\\", "\\\\1", "\\g<", "\\g<99>" }; fr(M_re_sub(re, vh_pick(subs).c_str(), s.p));
	M_re_destroy(re);
}
/* ---- charsets ---- */
static const VS cs = { "Plain text, 100% & more", "\xc3\xa9t\xc3\xa9 \xe2\x82\xac \xf0\x9f\x98\x80", "a%20b+c%C3%A9", "=C3=A9=\r\nx=20", "xn--bcher-kva.example", "caf\xe9 \x80\x9f", "&amp;&lt;&#x41;" };
static const VS cd = { "%", "%2", "%zz", "+", "=", "=\r\n", "=3D", "\r\n", "xn--", "-", ".", "\xc3", "\xc3\xa9", "\xe2\x82", "\xf4\x90\x80\x80", "\xed\xa0\x80", "\xff\xfe", "\x81", "\x1b$B", " ", "\t", "~", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" };
static void codec(void)
{
	S d = nonul(fz_mutate(cs, cd, 700)); Heap h(d, true); FzTime t("codec", d.size());
	static std::vector<M_textcodec_codec_t> all; if (all.empty()) for (int i = 0; i < 200; i++) if (M_textcodec_codec_to_str((M_textcodec_codec_t)i) && strcmp(M_textcodec_codec_to_str((M_textcodec_codec_t)i), "unknown")) all.push_back((M_textcodec_codec_t)i);
	M_textcodec_codec_t c = vh_pick(all); M_textcodec_ehandler_t eh = (M_textcodec_ehandler_t)vh_rndn(3);
	char *o = NULL; M_textcodec_error_t r = vh_chance(50) ? M_textcodec_encode(&o, h.p, eh, c) : M_textcodec_decode(&o, h.p, eh, c);
	fin(d, r == M_TEXTCODEC_ERROR_SUCCESS); fr(o);
	M_buf_t *b = M_buf_create(); (void)M_textcodec_decode_buf(b, h.p, eh, c); (void)M_textcodec_encode_buf(b, h.p, eh, c); touch(M_buf_peek(b), M_buf_len(b)); M_buf_cancel(b);
	(void)M_textcodec_codec_from_str(h.p);
}
/* ---- times ---- */
static const VS tss = { "2024-02-29 23:59:59", "12/31/1999 11:59 PM", "now", "-30 days", "next monday", "tomorrow 5pm", "20240229235959", "Thu, 01 Jan 1970 00:00:00 GMT", "1/2/3", "today -1 month", "EOM", "12:30:45.123", "2024-06-01T12:00:00+02:00" };
static const VS tsd2 = { "-", "+", "/", ":", " ", "AM", "pm", "now", "today", "days", "weeks", "months", "years", "EOM", "SOM", "first", "last", "T", "Z", "GMT", "%", ".", "0", "9999", "-1", "12", "31", "next", "sunday" };
static const VS fs = { "%Y-%m-%d %H:%M:%S", "%m/%d/%y %I:%M %p", "%a, %d %b %Y %T %Z", "%s", "%j", "%D %R %z", "%#%%%n%t", "%Y%m%d", "%B %e", "%T%z" };
static const VS fd = { "%", "%Y", "%y", "%m", "%d", "%H", "%I", "%M", "%S", "%p", "%P", "%b", "%B", "%a", "%A", "%T", "%D", "%R", "%r", "%F", "%z", "%Z", "%j", "%e", "%l", "%k", "%s", "%n", "%t", "%%", "%E", "%q", " ", "-" };
static void timestr(void)
{
	S d = nonul(fz_mutate(tss, tsd2, 300)), f = nonul(fz_mutate(fs, fd, 200)); Heap h(d, true), g(f, true); FzTime t("time", d.size());
	static M_time_tzs_t *tzs; static const M_time_tz_t *tz; if (!tzs) { tzs = M_time_tzs_create(); (void)M_time_tzs_add_posix_str(tzs, "EST5EDT,M3.2.0,M11.1.0"); tz = M_time_tzs_get_tz(tzs, "EST5EDT"); }
	M_time_t v = M_time_from_str(h.p, vh_chance(50) ? tz : NULL, mb(50)); fin(d, v != -1);
	M_time_localtm_t tm; M_mem_set(&tm, 0, sizeof tm); const char *r = M_time_parsefmt(h.p, g.p, &tm); if (r) ts(r);
	M_time_tolocal(v, &tm, tz); fr(M_time_to_str(g.p, &tm));
	M_time_localtm_t x; memset(&x, 0, sizeof x); x.year = vh_i64() % 10000000; x.month = vh_i64() % 100000; x.day = vh_i64() % 100000; x.hour = vh_i64() % 1000000; x.min = vh_i64() % 1000000; x.sec = vh_i64() % 100000000; (void)M_time_fromlocal(&x, tz); fr(M_time_to_str(g.p, &x));
}
static const VS pz = { "EST5EDT,M3.2.0,M11.1.0", "<+03>-3", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "IST-2IDT,M3.4.4/26,M10.5.0", "UTC0", "AAA5BBB4,J60/2,300/2:30:30" };
static const VS pd = { ",", "M", ".", "/", ":", "-", "+", "<", ">", "J", "0", "13", "366", "99999", "EST", "5", "EDT", "M3.2.0", " ", "\xff" };
static void posixtz(void)
{
	S d = nonul(fz_mutate(pz, pd, 200)); Heap h(d, true); FzTime t("posixtz", d.size());
	M_time_tzs_t *tzs = M_time_tzs_create(); M_time_result_t r = M_time_tzs_add_posix_str(tzs, h.p); fin(d, r == M_TIME_RESULT_SUCCESS);
	M_list_str_t *l = M_time_tzs_get_loaded_zones(tzs);
	for (size_t i = 0; i < M_list_str_len(l); i++) { const M_time_tz_t *z = M_time_tzs_get_tz(tzs, M_list_str_at(l, i)); for (M_time_t at : { (M_time_t)0, (M_time_t)1720000000, (M_time_t)-1, (M_time_t)253402300799LL, (M_time_t)(vh_i64() % 100000000000LL) }) { M_time_localtm_t tm; M_time_tolocal(at, &tm, z); (void)M_time_fromlocal(&tm, z); } }
	M_list_str_destroy(l); M_time_tzs_destroy(tzs);
}
static VS g_tzf;
static void tzfile(void)
{
	if (g_tzf.empty()) for (const char *n : { "UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Africa/Casablanca" }) { S p = S("/usr/share/zoneinfo/") + n; FILE *f = fopen(p.c_str(), "r"); if (f) { S c; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) c.append(b, k); fclose(f); g_tzf.push_back(c); } }
	if (g_tzf.empty()) { S c = S("TZif2") + S(15, '\0'); const unsigned char n[24] = { 0,0,0,1, 0,0,0,1, 0,0,0,0, 0,0,0,2, 0,0,0,2, 0,0,0,8 }; c.append((const char *)n, 24); S b = S("\x70\0\0\0\x75\0\0\0", 8) + S("\0\1", 2) + S("\0\0\16\20\0\0", 6) + S("\0\0\34\40\1\4", 6) + S("CET\0CST\0", 8) + S("\0\0\0\0", 4); g_tzf.push_back(c + b + c + S("\xff\xff\xff\xff\x70\0\0\0\0\0\0\0\x75\0\0\0", 16) + S("\0\1", 2) + S("\0\0\16\20\0\0", 6) + S("\0\0\34\40\1\4", 6) + S("CET\0CST\0", 8) + S("\0\0\0\0", 4) + "\nCET-1CST,M3.5.0,M10.5.0\n"); }
	S d = vh_pick(g_tzf); static const VS zd = { S("\0\0\0\1", 4), S("\0\0\0\0", 4), "\xff\xff\xff\xff", S("\0\0\1\0", 4), "TZif", "\n", S("\x7f\xff\xff\xff", 4), "EST5EDT" };
	/* mutate the header and the tail more often than the body */
	for (size_t n = vh_rndn(6); n-- > 0 && d.size();) { size_t at = vh_chance(60) ? vh_rndn(std::min<size_t>(d.size(), 60)) : vh_rndn(d.size()); switch (vh_rndn(6)) { case 0: d[at] ^= (char)(1 << vh_rndn(8)); break; case 1: { const S &z = vh_pick(zd); d.replace(at, std::min(z.size(), d.size() - at), z); break; } case 2: d.resize(at); break; case 3: d.erase(at, 1 + vh_rndn(8)); break; case 4: d[at] = (char)vh_rndn(8); break; default: d.insert(at, vh_bytes(1 + vh_rndn(6))); } }
	
	S p = S(vh_tmpdir()) + "/tz"; int fdn = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); ssize_t wr = write(fdn, d.data(), d.size()); close(fdn); (void)wr;
	FzTime t("tzfile", d.size());
	M_time_tzs_t *tzs = M_time_tzs_create(); M_time_result_t r = M_time_tzs_add_tzfile(tzs, p.c_str(), "z"); fin(d, r == M_TIME_RESULT_SUCCESS);
	const M_time_tz_t *z = M_time_tzs_get_tz(tzs, "z");
	if (z) for (M_time_t at : { (M_time_t)0, (M_time_t)1720000000, (M_time_t)-3000000000LL, (M_time_t)253402300799LL, (M_time_t)(vh_i64() % 100000000000LL) }) { M_time_localtm_t tm; M_time_tolocal(at, &tm, z); (void)M_time_fromlocal(&tm, z); ts(tm.abbr); }
	M_time_tzs_destroy(tzs); unlink(p.c_str());
}
/* ---- numbers ---- */
static const VS ns = { "12345", "-0x7fffffffffffffff", "+18446744073709551616", "1.50", "-.5", "1e10", " 42 ", "0777", "0b11", "123.456E-7", "99999999999999999999.99" };
static const VS nd = { "-", "+", ".", "0x", "0", "e", "E", "9", "99999999999999999999999999", " ", "a", "f", "z", ",", "1e", "-1", "\xff", "00000000000000000000" };
static void number(void)
{
	S d = nonul(fz_mutate(ns, nd, 200)); Heap h(d, true); FzTime t("number", d.size()); size_t l = vh_chance(50) ? d.size() : vh_rndn(d.size() + 1); Heap e(d.substr(0, l));
	const char *ep; M_int64 a; M_uint64 b; M_int32 c; M_uint32 f; M_decimal_t x, y, z; unsigned char base = (unsigned char)vh_rndn(40);
	bool ok = M_str_to_int64_ex(e.p, e.n, base, &a, &ep) == M_STR_INT_SUCCESS; fin(d, ok);
	if (e.n) { (void)M_str_to_uint64_ex(e.p, e.n, base, &b, &ep); VH_CHECK(ep >= e.p && ep <= e.p + e.n, "number:endptr", "%s", E(d)); (void)M_str_to_int32_ex(e.p, e.n, base, &c, &ep); (void)M_str_to_uint32_ex(e.p, e.n, base, &f, &ep); }
	(void)M_str_to_int64(h.p); (void)M_str_to_uint64(h.p); (void)M_str_to_int32(h.p); (void)M_str_to_uint32(h.p); (void)M_atofi100(h.p); (void)M_atofi_prec(h.p, (int)vh_rndn(20)); fr(M_str_dot_money_out(h.p));
	size_t nn; M_free(M_str_explode_int(',', h.p, &nn)); (void)M_str_istrue(h.p);
	M_decimal_create(&x); M_decimal_create(&y); if (e.n) (void)M_decimal_from_str(e.p, e.n, &x, &ep); (void)M_decimal_from_str(h.p, d.size(), &y, NULL);
	if (vh_chance(30)) M_decimal_from_int(&y, vh_i64(), (M_uint8)vh_rndn(20));
	char buf[40]; (void)M_decimal_to_str(&x, buf, vh_rndn(sizeof buf) + 1); (void)M_decimal_cmp(&x, &y); (void)M_decimal_add(&z, &x, &y); (void)M_decimal_subtract(&z, &x, &y); (void)M_decimal_multiply(&z, &x, &y); (void)M_decimal_divide(&z, &x, &y, (M_decimal_round_t)vh_rndn(4)); (void)M_decimal_to_int(&x, (M_uint8)vh_rndn(20)); z = x; (void)M_decimal_transform(&z, (M_uint8)vh_rndn(20), (M_decimal_round_t)vh_rndn(4)); M_decimal_reduce(&z); (void)M_decimal_num_decimals(&z);
}
/* ---- paths ---- */
static const VS ps = { "/usr/../lib/./x", "a/b//c/", "C:\\dir\\..\\file.txt", "\\\\server\\share\\x", "~/x", "..", "", "/", "./.hidden", "$HOME/%TEMP%/x" };
static const VS pd2 = { "/", "\\", "..", ".", "//", "C:", "c:\\", "\\\\", "~", "$HOME", "%TEMP%", "$", "%", "a", " ", "\xff", "../../../../", "/./" };
static void path(void)
{
	S d = nonul(fz_mutate(ps, pd2, 500)), e = nonul(fz_mutate(ps, pd2, 100)); Heap h(d, true), g(e, true); FzTime t("path", d.size());
	for (M_fs_system_t st : { M_FS_SYSTEM_AUTO, M_FS_SYSTEM_UNIX, M_FS_SYSTEM_WINDOWS }) {
		(void)M_fs_path_isabs(h.p, st); (void)M_fs_path_isunc(h.p); (void)M_fs_path_ishidden(h.p, NULL);
		M_list_str_t *c = M_fs_path_componentize_path(h.p, st); for (size_t i = 0; i < M_list_str_len(c); i++) ts(M_list_str_at(c, i)); fr(M_fs_path_join_parts(c, st)); M_list_str_destroy(c);
		fr(M_fs_path_join(h.p, g.p, st)); fr(M_fs_path_join_resolved(h.p, g.p, vh_pick(ps).c_str(), st)); fr(M_fs_path_dirname(h.p, st)); fr(M_fs_path_basename(h.p, st));
		if (d.find_first_of("~$%") == S::npos) { char *o = NULL; bool ok = M_fs_path_norm(&o, h.p, (M_uint32)vh_rndn(64) & ~(M_uint32)(M_FS_PATH_NORM_FOLLOWSYMLINKS), st) == M_FS_ERROR_SUCCESS; fin(d + (char)st, ok); fr(o); }
	}
}
/* ---- getopt ---- */
static M_bool cb_n(size_t, const char *o, void *) { ts(o); return mb(95); }
static M_bool cb_i(char, const char *l, M_int64 *i, void *) { ts(l); if (i) touch(i, 8); return mb(97); }
static M_bool cb_d(char, const char *l, M_decimal_t *i, void *) { ts(l); if (i) touch(i, sizeof *i); return mb(97); }
static M_bool cb_s(char, const char *l, const char *s, void *) { ts(l); ts(s); return mb(97); }
static M_bool cb_b(char, const char *l, M_bool, void *) { ts(l); return mb(97); }
static void getopt_(void)
{
	static const VS as = { "-i", "--int", "--int=5", "-i5", "-abi", "--dec=1.5", "-d", "--str", "--str=", "-s", "--bool", "-b", "--no-bool", "--", "-", "x", "--boolean=no", "-b1", "--unknown" }, ad = { "-", "--", "=", "i", "5", "str", "bool", "d", "1.5", "\"", " ", "\xff", "no" };
	M_getopt_t *g = M_getopt_create(cb_n); FzTime t("getopt", 1);
	S ln = nonul(fz_mutate({ "int", "dec", "str", "bool", "l-o-n-g" }, ad, 30));
	(void)M_getopt_addinteger(g, 'i', "int", mb(50), "an integer", cb_i); (void)M_getopt_adddecimal(g, 'd', "dec", mb(50), nonul(vh_ascii(vh_rndn(200))).c_str(), cb_d); (void)M_getopt_addstring(g, 's', "str", mb(50), "s", cb_s); (void)M_getopt_addboolean(g, 'b', "bool", mb(50), NULL, cb_b);
	(void)M_getopt_addstring(g, (char)vh_rndn(128), ln.c_str(), mb(50), nonul(vh_bytes(vh_rndn(40))).c_str(), cb_s);
	VS v; S all = ln; for (size_t n = vh_rndn(8); n-- > 0;) { v.push_back(nonul(fz_mutate(as, ad, 60))); all += v.back() + "\n"; }
	std::vector<Heap *> hs; std::vector<const char *> a; for (auto &x : v) { hs.push_back(new Heap(x, true)); a.push_back(hs.back()->p); }
	struct Del { std::vector<Heap *> &h; ~Del() { for (auto x : h) delete x; } } del{hs};
	const char *bad = NULL; a.push_back(NULL); M_getopt_error_t r = M_getopt_parse(g, a.data(), (int)v.size(), &bad, NULL); ts(bad); fin(all, r == M_GETOPT_ERROR_SUCCESS);
	fr(M_getopt_help(g)); M_getopt_destroy(g);
}
/* ---- UTF-8 ---- */
static const VS us = { "abc", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", "\xc4\xb0\xc3\x9f\xef\xac\x81\xce\xa3", "\xf4\x8f\xbf\xbf" };
static const VS ud = { "\xc3", "\xa9", "\xe2\x82", "\xf0\x9f", "\xf8\x88\x80\x80\x80", "\xc0\x80", "\xed\xa0\x80", "\xef\xbf\xbd", "\xcc\x81", "\xff", "A", "\xf4\x90\x80\x80", "\xe0\x80\x80" };
static void utf8(void)
{
	S d = nonul(fz_mutate(us, ud, 200)); Heap h(d, true); FzTime t("utf8", d.size()); const char *ep = NULL; char buf[8]; size_t l;
	bool ok = M_utf8_is_valid(h.p, &ep); fin(d, ok); VH_CHECK(ep >= h.p && ep <= h.p + d.size(), "utf8:endptr", "%s", E(d)); (void)M_utf8_cnt(h.p);
	M_buf_t *b = M_buf_create();
	for (const char *p = h.p; *p;) { const char *nx = NULL; M_uint32 cp; size_t bs = vh_rndn(8); M_utf8_error_t r = M_utf8_get_cp(p, &cp, &nx); (void)M_utf8_get_chr(p, buf, bs, &l, NULL); (void)M_utf8_toupper_chr(p, buf, bs, &l, NULL); (void)M_utf8_tolower_chr(p, buf, bs, &l, NULL); (void)M_utf8_totitle_chr(p, buf, bs, &l, NULL); (void)M_utf8_islower_chr(p, NULL); (void)M_utf8_isalpha_chr(p, NULL); (void)M_utf8_isunihan_chr(p, NULL); (void)M_utf8_ispunct_chr(p, NULL); (void)M_utf8_next_chr(p); (void)M_utf8_get_chr_buf(p, b, NULL); if (r != M_UTF8_ERROR_SUCCESS || !nx || nx <= p) { p++; continue; } VH_CHECK(nx <= h.p + d.size(), "utf8:next", "%s", E(d)); p = nx; }
	M_buf_cancel(b); char *o; if (M_utf8_toupper(h.p, &o) == M_UTF8_ERROR_SUCCESS) fr(o); if (M_utf8_tolower(h.p, &o) == M_UTF8_ERROR_SUCCESS) fr(o); if (M_utf8_totitle(h.p, &o) == M_UTF8_ERROR_SUCCESS) fr(o);
	M_uint32 cp; (void)M_utf8_cp_at(h.p, vh_rndn(20), &cp); (void)M_utf8_chr_at(h.p, buf, vh_rndn(8), &l, vh_rndn(20)); cp = (M_uint32)vh_rnd() >> vh_rndn(32); (void)M_utf8_from_cp(buf, vh_rndn(8), &l, cp); (void)M_utf8_isalnum_cp(cp); (void)M_utf8_isprint_cp(cp); (void)M_utf8_tolower_cp(cp, &cp);
	(void)M_utf8_islower(h.p); (void)M_utf8_isupper(h.p); (void)M_utf8_isalnum(h.p); (void)M_utf8_iscntrl(h.p); (void)M_utf8_isprint(h.p); (void)M_utf8_isnum(h.p);
}
/* ---- binary codecs ---- */
static const VS bs = { "SGVsbG8gd29ybGQ=", "48656c6c6f", "JBSWY3DPEB3W64TMMQ======", "SGVs\r\nbG8=\r\n", "-_-_", "ZZZZ" };
static const VS bd = { "=", "==", "\r\n", "\n", " ", "+", "/", "-", "_", "A", "0", "f", "\xff", "g", "======" };
static void bincodec(void)
{
	S d = fz_mutate(bs, bd, 400); Heap h(d); FzTime t("bincodec", d.size()); static const M_bincodec_codec_t cc[] = { M_BINCODEC_BASE64, M_BINCODEC_HEX, M_BINCODEC_BASE32, M_BINCODEC_BASE64ORHEX };
	M_bincodec_codec_t c = cc[vh_rndn(4)], c2 = cc[vh_rndn(3)]; size_t ol = 0;
	M_uint8 *o = M_bincodec_decode_alloc(h.p, h.n, &ol, c); fin(d + (char)c, o != NULL); if (o) touch(o, ol); M_free(o);
	size_t n = vh_chance(50) ? M_bincodec_decode_size(h.n, c) : vh_rndn(h.n + 2); Heap ob(S(n, 'x')); (void)M_bincodec_decode((M_uint8 *)ob.p, n, h.p, h.n, c);
	size_t w = vh_chance(50) ? 0 : vh_rndn(90); size_t es = vh_chance(60) ? M_bincodec_encode_size(h.n, w, c2) : vh_rndn(2 * h.n + 8); Heap oe(S(es, 'x')); (void)M_bincodec_encode(oe.p, es, (M_uint8 *)h.p, h.n, w, c2);
	char *s = M_bincodec_encode_alloc((M_uint8 *)h.p, h.n, w, c2); fr(s); s = M_bincodec_convert_alloc(h.p, h.n, w, c, c2); fr(s);
	{ S z = nonul(d); s = M_bincodec_decode_str_alloc(z.c_str(), c); fr(s); }
}
/* ---- addresses, domains ---- */
static const VS es = { "user@example.com", "First Last <a.b+c@d-e.co.uk>", "\"q \\\" t\"@x.org", "a@[127.0.0.1]", "a@b.com, c@d.net; <e@f.gov>", "xn--bcher-kva.example" };
static const VS ed2 = { "@", ".", "..", "<", ">", "\"", "\\", ",", ";", "[", "]", "-", "(", ")", " ", "\t", "\xc3\xa9", "a", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "::1" };
static void verify(void)
{
	S d = nonul(fz_mutate(es, ed2, 400)); Heap h(d, true); FzTime t("verify", d.size());
	bool a = M_verify_email_address(h.p); bool b = M_verify_domain(h.p); bool c = M_verify_email_address_list(h.p, (M_verify_email_listdelim_t)vh_rndn(4)); fin(d, a || b || c);
}
/* ---- C strings ---- */
static const VS ss = { "Hello, World", "a \"quoted\" (bracket [nested]) x", "'it''s'", "a,b,\"c,d\",e\\,f", "*.txt", "?[a-z]*", "line one\nline two\r\n\nlast", "  trim  " };
static const VS sd = { "\"", "'", "\\", ",", "(", ")", "[", "]", "*", "?", "\n", "\r\n", " ", "\t", "a", "B", "\xff", "\"\"", "!", "-" };
static void cstr(void)
{
	S d = nonul(fz_mutate(ss, sd, 500)), e = nonul(fz_mutate(ss, sd, 60)); Heap h(d, true), g(e, true); FzTime t("cstr", d.size()); size_t mx = vh_chance(70) ? vh_rndn(d.size() + 4) : (size_t)-1;
	{ Heap q(e, true); bool m = M_str_pattern_match(q.p, h.p); (void)M_str_case_pattern_match(q.p, h.p); fin(d + e, m); }
	(void)M_str_eq_max(h.p, g.p, mx); (void)M_str_caseeq_max(h.p, g.p, mx); (void)M_str_cmpsort_max(h.p, g.p, mx); (void)M_str_casecmpsort_max(h.p, g.p, mx); (void)M_str_eq_end(h.p, g.p); (void)M_str_caseeq_start(h.p, g.p); (void)M_str_casestr_pos(h.p, g.p); ts(M_str_str(h.p, g.p)); ts(M_str_casestr(h.p, g.p)); (void)M_str_isdec_max(h.p, mx); (void)M_str_ismoney(h.p); ts(M_str_find_first_from_charset(h.p, g.p)); ts(M_str_find_first_not_from_charset(h.p, g.p));
	fr(M_strdup_upper_max(h.p, std::min(mx, d.size() + 9))); fr(M_strdup_title_max(h.p, std::min(mx, d.size() + 9))); fr(M_strdup_trim_max(h.p, std::min(mx, d.size() + 9))); fr(M_strdup_unquote(h.p, '"', vh_chance(50) ? '\\' : '"')); fr(M_strdup_unquote_max(h.p, '\'', '\'', std::min(mx, d.size() + 9))); fr(M_str_quote_max(h.p, '"', vh_chance(50) ? '\\' : '"', mx)); char *o = NULL; if (M_str_quote_if_necessary(&o, h.p, '"', '"', ',')) fr(o); else M_free(o);
	fr(M_str_remove_bracketed(h.p, '(', ')')); fr(M_str_keep_bracketed(h.p, '[', ']')); fr(M_str_remove_bracketed_quoted(h.p, '(', ')', '"', '\\')); fr(M_str_keep_bracketed_quoted(h.p, '[', ']', '\'', '\'')); fr(M_str_remove_quoted(h.p, '"', '\\')); fr(M_str_keep_quoted(h.p, '\'', '\'')); fr(M_strdup_replace_str(h.p, vh_chance(50) ? "a" : g.p, e.size() < 20 ? e.c_str() : "zz")); fr(M_strdup_replace_charset(h.p, (const unsigned char *)g.p, std::min<size_t>(e.size(), 5), "<>"));
	size_t n = 0, *la = NULL; char **x = M_str_explode(',', h.p, d.size(), &n, vh_chance(50) ? &la : NULL); if (x && la) for (size_t i = 0; i < n; i++) touch(x[i], la[i]); M_free(la); M_str_explode_free(x, n);
	la = NULL; n = 0; x = M_str_explode_quoted(vh_chance(50) ? ',' : '\n', h.p, d.size(), '"', vh_chance(50) ? '\\' : '"', vh_rndn(5), &n, vh_chance(50) ? &la : NULL); if (x) { char *im = M_str_implode(',', '"', '\\', x, n, mb(50)); fr(im); } M_free(la); M_str_explode_free(x, n);
	n = 0; x = M_str_explode_lines(1 + vh_rndn(6), 1 + vh_rndn(30), h.p, mb(50), &n); M_str_explode_free(x, n);
	size_t dl = vh_rndn(40); Heap db(S(dl, 'x')); if (dl) (void)M_str_justify_max(db.p, dl, h.p, std::min(mx, d.size()), (M_str_justify_type_t)vh_rndn(8), '.', vh_rndn(40)); if (dl) { (void)M_str_cpy_max(db.p, dl, h.p, std::min(mx, d.size())); (void)M_str_cat(db.p, dl, g.p); }
	fr(M_str_hexdump((int)vh_rndn(16), vh_rndn(40), vh_chance(50) ? NULL : "> ", (const unsigned char *)h.p, d.size()));
	{ Heap w(d, true); M_str_trim(w.p); M_str_delete_spaces(w.p); M_str_title(w.p); M_str_unquote(w.p, '"', '\\'); M_str_delete_newlines(w.p); ts(w.p); } { Heap w(d, true); M_str_trim_max(w.p, mx); M_str_lower_max(w.p, mx); M_str_unquote_max(w.p, '"', '"', mx); char *r = M_str_split_on_char(w.p, ','); ts(r); ts(w.p); }
}
/* ---- size: nesting and length limited only by the input ---- */
static S rep(const char *a, size_t n) { S r; while (n-- > 0) r += a; return r; }
static void deep(void)
{
	size_t n = 1000 + vh_rndn(19000); S p, t; size_t k = vh_case % 14; static const char *nm[] = { "deep:nest", "deep:open", "deep:alt", "deep:opt", "deep:plus", "deep:star", "deep:set", "deep:flags", "deep:sets", "deep:wild", "deep:lit", "deep:norm", "deep:bracket", "deep:codec" }; FzTime tm(nm[k], n, 20);
	switch (k) {
		case 0: p = rep("(", n) + "a" + rep(")", n); break;
		case 1: p = rep("(", n); break;
		case 2: p = rep("a|", n / 20) + "b"; break;
		case 3: p = rep("a?", n / 200) + rep("a", n / 200); t = rep("a", n / 200); break;
		case 4: p = "(x+x+)+y"; t = rep("x", n); break;
		case 5: p = "(a|aa)*$"; t = rep("a", n) + "b"; break;
		case 6: p = "[" + rep("a-z", n / 20) + "]+"; t = rep("q", n); break;
		case 7: p = rep("(?i)", n) + "a"; break;
		case 8: p = rep("[^a]", n / 8); t = rep("b", n / 8); break;
		default: break;
	}
	if (k < 9) { M_re_t *re = M_re_compile(p.c_str(), k == 1 ? M_RE_NONE : (M_uint32)vh_rndn(16)); fin(p.substr(0, 60) + t.substr(0, 9) + vh_fmt("%zu", n), re != NULL); if (re) { (void)M_re_search(re, t.c_str(), NULL); M_list_str_destroy(M_re_find_all(re, t.c_str())); M_re_destroy(re); } return; }
	switch (k) {
		case 9: p = rep("*a", 200); t = rep("a", n) + "b"; (void)M_str_pattern_match(p.c_str(), t.c_str()); break;
		case 10: p = rep("a", n); (void)M_str_pattern_match(p.c_str(), p.c_str()); fr(M_strdup_replace_str(p.c_str(), "a", "bcd")); break;
		case 11: { char *o = NULL; p = rep(vh_chance(50) ? "../" : "a/", n); (void)M_fs_path_norm(&o, p.c_str(), 0, M_FS_SYSTEM_UNIX); M_free(o); break; }
		case 12: p = rep("(", n); fr(M_str_keep_bracketed(p.c_str(), '(', ')')); fr(M_str_remove_bracketed(p.c_str(), '(', ')')); fr(M_str_quote(p.c_str(), '(', '(')); break;
		default: { char *o = NULL; p = rep("\xc3\xa9", n); (void)M_textcodec_encode(&o, p.c_str(), M_TEXTCODEC_EHANDLER_FAIL, vh_chance(50) ? M_TEXTCODEC_PUNYCODE : M_TEXTCODEC_QUOTED_PRINTABLE); M_free(o); break; }
	}
	fin(p.substr(0, 9) + vh_fmt("%zu %zu", k, n), true);
}
static void seto(void) { setenv("HOME", "/nonexistent", 1); }
const vh_mode_t vh_modes[] = { { "regex", regex }, { "codec", codec }, { "timestr", timestr }, { "posixtz", posixtz }, { "tzfile", tzfile }, { "number", number }, { "path", path, seto }, { "getopt", getopt_ }, { "utf8", utf8 }, { "bincodec", bincodec }, { "verify", verify }, { "cstr", cstr }, { "deep", deep }, {} };
