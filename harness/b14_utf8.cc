// UTF-8 handling judged against an independent decoder and the Unicode database (unidata.h).
#include "vh.hpp"
#include "unidata.h"
#include <map>
#include <cstring>
typedef uint32_t u32;
static bool ref_valid(u32 c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF) && (c & 0xFFFE) != 0xFFFE && !(c >= 0xFDD0 && c <= 0xFDEF); }
static S ref_enc(u32 c) { S s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
// well-formed byte sequences by table 3-7 of the standard; returns length or 0
static int ref_dec(const unsigned char *p, size_t n, u32 *cp) {
	auto in = [&](size_t i, int a, int b) { return i < n && p[i] >= a && p[i] <= b; }; if (!n) return 0; unsigned char a = p[0];
	if (a < 0x80) { *cp = a; return 1; }
	if (a >= 0xC2 && a <= 0xDF) { if (!in(1, 0x80, 0xBF)) return 0; *cp = (u32)(a - 0xC0) * 64 + (p[1] - 0x80u); return ref_valid(*cp) ? 2 : 0; }
	if (a >= 0xE0 && a <= 0xEF) { if (!in(1, a == 0xE0 ? 0xA0 : 0x80, a == 0xED ? 0x9F : 0xBF) || !in(2, 0x80, 0xBF)) return 0; *cp = (u32)(a - 0xE0) * 4096 + (p[1] - 0x80u) * 64 + (p[2] - 0x80u); return ref_valid(*cp) ? 3 : 0; }
	if (a >= 0xF0 && a <= 0xF4) { if (!in(1, a == 0xF0 ? 0x90 : 0x80, a == 0xF4 ? 0x8F : 0xBF) || !in(2, 0x80, 0xBF) || !in(3, 0x80, 0xBF)) return 0; *cp = (u32)(a - 0xF0) * 262144 + (p[1] - 0x80u) * 4096 + (p[2] - 0x80u) * 64 + (p[3] - 0x80u); return ref_valid(*cp) ? 4 : 0; }
	return 0;
}
struct Uni { std::vector<uint8_t> gc, fl; std::vector<u32> up, lo, ti; std::vector<S> names; std::map<S, int> id; Uni() : gc(0x110000), fl(0x110000), up(0x110000), lo(0x110000), ti(0x110000) {
	size_t n = sizeof uni_runs / sizeof *uni_runs; for (size_t i = 0; i < n; i++) { S g = uni_runs[i].gc; if (!id.count(g)) { id[g] = (int)names.size(); names.push_back(g); } u32 e = i + 1 < n ? uni_runs[i + 1].first : 0x110000; for (u32 c = uni_runs[i].first; c < e; c++) { gc[c] = (uint8_t)id[g]; fl[c] = uni_runs[i].flags; } }
	for (u32 c = 0; c < 0x110000; c++) up[c] = lo[c] = ti[c] = c; for (auto &m : uni_upper) up[m[0]] = m[1]; for (auto &m : uni_lower) lo[m[0]] = m[1]; for (auto &m : uni_title) ti[m[0]] = m[1]; } };
static Uni &U() { static Uni u; return u; }
static bool is_(u32 c, const char *first) { return U().names[U().gc[c]][0] == first[0]; } static bool gcis(u32 c, const char *g) { return U().names[U().gc[c]] == g; }
enum { LOWER, UPPER, ALPHA, ALNUM, NUM, CNTRL, PUNCT, PRINT, UNIHAN, NCLS };
static const char *cname[] = {"islower", "isupper", "isalpha", "isalnum", "isnum", "iscntrl", "ispunct", "isprint", "isunihan"};
static M_bool (*ccp[])(M_uint32) = {M_utf8_islower_cp, M_utf8_isupper_cp, M_utf8_isalpha_cp, M_utf8_isalnum_cp, M_utf8_isnum_cp, M_utf8_iscntrl_cp, M_utf8_ispunct_cp, M_utf8_isprint_cp, M_utf8_isunihan_cp};
static M_bool (*cchr[])(const char *, const char **) = {M_utf8_islower_chr, M_utf8_isupper_chr, M_utf8_isalpha_chr, M_utf8_isalnum_chr, M_utf8_isnum_chr, M_utf8_iscntrl_chr, M_utf8_ispunct_chr, M_utf8_isprint_chr, M_utf8_isunihan_chr};
static M_bool (*cstr[])(const char *) = {M_utf8_islower, M_utf8_isupper, M_utf8_isalpha, M_utf8_isalnum, M_utf8_isnum, M_utf8_iscntrl, M_utf8_ispunct, M_utf8_isprint, M_utf8_isunihan};
static bool unihan10(u32 c) { return (U().fl[c] & 8) || (c >= 0xF900 && c <= 0xFA6D) || (c >= 0xFA70 && c <= 0xFAD9) || (c >= 0x2F800 && c <= 0x2FA1D); }
// expected class by general category ("base") and by the derived property the documentation names ("doc")
static bool base(u32 c, int k) { if (!ref_valid(c)) return false; bool L = is_(c, "L"), N = is_(c, "N"), P = is_(c, "P"); switch (k) { case LOWER: return gcis(c, "Ll"); case UPPER: return gcis(c, "Lu"); case ALPHA: return L || gcis(c, "Nl"); case ALNUM: return L || N; case NUM: return N; case CNTRL: return gcis(c, "Cc"); case PUNCT: return P; case UNIHAN: return unihan10(c); default: return L || is_(c, "M") || N || P || is_(c, "S") || c == ' ' || (c >= 9 && c <= 13) || unihan10(c); } }
static bool doc(u32 c, int k) { if (!ref_valid(c)) return false; switch (k) { case LOWER: return U().fl[c] & 1; case UPPER: return U().fl[c] & 2; case ALPHA: return U().fl[c] & 4; case ALNUM: return (U().fl[c] & 4) || is_(c, "N"); default: return base(c, k); } }
static bool in10(u32 c) { return U().fl[c] & 16; }
// how the library may answer for c: with the documented answer; categories of the six ideograph blocks newer than the documented version are open
static void judge_class(u32 c, int k, bool got) {
	bool b = base(c, k), d = doc(c, k); if (got == d) return;
	if (!in10(c) && (c == 0x13440 || gcis(c, "Cn") || (k >= PRINT && is_(c, "L")) || k == UNIHAN)) { vh_count("newer_than_documented", 1); return; }
	if (k == UNIHAN && !in10(c)) return;
	if (got == b) { vh_known("utf8:derived-property", "M_utf8_%s_cp(U+%04X) is %d, the derived property it documents is %d (Other_Lowercase, Other_Uppercase, Other_Alphabetic are not included)", cname[k], c, got, d); vh_count("other_property_cps", 1); return; }
	vh_viol("utf8:class", "M_utf8_%s_cp(U+%04X, category %s) returned %d", cname[k], c, U().names[U().gc[c]].c_str(), got);
}
typedef M_utf8_error_t (*cpfn)(M_uint32, M_uint32 *); typedef M_utf8_error_t (*chrfn)(const char *, char *, size_t, size_t *, const char **); typedef M_utf8_error_t (*bufchr)(const char *, M_buf_t *, const char **); typedef M_utf8_error_t (*strfn)(const char *, char **); typedef M_utf8_error_t (*sbuf)(const char *, M_buf_t *);
static const struct { const char *n; cpfn c; chrfn h; bufchr b; strfn s; sbuf sb; } mp[3] = {{"toupper", M_utf8_toupper_cp, M_utf8_toupper_chr, M_utf8_toupper_chr_buf, M_utf8_toupper, M_utf8_toupper_buf}, {"tolower", M_utf8_tolower_cp, M_utf8_tolower_chr, M_utf8_tolower_chr_buf, M_utf8_tolower, M_utf8_tolower_buf}, {"totitle", M_utf8_totitle_cp, M_utf8_totitle_chr, M_utf8_totitle_chr_buf, M_utf8_totitle, M_utf8_totitle_buf}};
static u32 mapped(int k, u32 c) { return k == 0 ? U().up[c] : k == 1 ? U().lo[c] : U().ti[c]; }
static void one(u32 c) {
	bool v = ref_valid(c); VH_CHECK((M_utf8_is_valid_cp(c) != 0) == v, "utf8:valid-cp", "U+%04X: %d", c, !v); char big[8]; size_t len = 99; M_utf8_error_t r;
	if (!v) { r = M_utf8_from_cp(big, sizeof big, &len, c); VH_CHECK(r == M_UTF8_ERROR_BAD_CODE_POINT, "utf8:encode-bad", "U+%04X encoded (%d)", c, r); u32 o = 0; for (auto &m : mp) VH_CHECK(m.c(c, &o) == M_UTF8_ERROR_BAD_CODE_POINT, "utf8:map-bad", "%s U+%04X", m.n, c); for (int k = 0; k < NCLS; k++) VH_CHECK(!ccp[k](c), "utf8:class-bad", "%s U+%04X", cname[k], c); vh_count("invalid_cps", 1);
		if (c <= 0x10FFFF || c < 0x140000) { S e = ref_enc(c); const char *nx = e.c_str(); M_uint32 q = 7; r = M_utf8_get_cp(e.c_str(), &q, &nx); VH_CHECK(r == M_UTF8_ERROR_BAD_CODE_POINT, "utf8:decode-bad", "U+%04X decoded: %d", c, r); const char *end = NULL; VH_CHECK(!M_utf8_is_valid(e.c_str(), &end) && end == e.c_str(), "utf8:valid", "U+%04X accepted", c); VH_CHECK(M_utf8_cnt(e.c_str()) == 0, "utf8:cnt-bad", "U+%04X", c); } return; }
	S e = ref_enc(c); size_t cap = vh_rndn(6); { char *h = cap ? (char *)malloc(cap) : (char *)malloc(1); r = M_utf8_from_cp(h, cap, &len, c); VH_CHECK(r == (cap >= e.size() ? M_UTF8_ERROR_SUCCESS : M_UTF8_ERROR_TRUNCATED), "utf8:encode-size", "U+%04X into %zu bytes: %d", c, cap, r); if (!r) VH_CHECK(len == e.size() && !memcmp(h, e.data(), len), "utf8:encode", "U+%04X gave %s", c, E(S(h, len))); free(h); }
	r = M_utf8_from_cp(big, sizeof big, &len, c); VH_CHECK(!r && S(big, len) == e, "utf8:encode", "U+%04X", c); VH_CHECK(M_utf8_from_cp(NULL, 4, &len, c) == M_UTF8_ERROR_INVALID_PARAM, "utf8:null", "x");
	Heap h(e, true); const char *nx = NULL; M_uint32 q = 1; r = M_utf8_get_cp(h.p, &q, &nx); VH_CHECK(!r && q == c && nx == h.p + (c ? e.size() : 0), "utf8:decode", "U+%04X gave %x rv %d", c, q, r);
	VH_CHECK(!M_utf8_get_cp(h.p, NULL, NULL), "utf8:decode", "U+%04X without outputs", c); r = M_utf8_get_chr(h.p, big, sizeof big, &len, &nx); VH_CHECK(!r && S(big, len) == e && nx == h.p + (c ? e.size() : 0), "utf8:get-chr", "U+%04X", c);
	const char *end = NULL; VH_CHECK(M_utf8_is_valid(h.p, &end) && end == h.p + (c ? e.size() : 0), "utf8:valid", "U+%04X rejected", c); VH_CHECK(M_utf8_cnt(h.p) == (c ? 1u : 0u), "utf8:cnt", "U+%04X", c);
	for (int k = 0; k < 3; k++) { u32 want = mapped(k, c), o = 0; r = mp[k].c(c, &o); VH_CHECK(!r && o == want, "utf8:case", "%s(U+%04X) = U+%04X want U+%04X", mp[k].n, c, o, want); if (want != c) vh_count("case_pairs", 1);
		if (c && (want != c || vh_chance(5))) { S w = ref_enc(want); r = mp[k].h(h.p, big, sizeof big, &len, &nx); VH_CHECK(!r && S(big, len) == w && nx == h.p + e.size(), "utf8:case-chr", "%s_chr(U+%04X)", mp[k].n, c); M_buf_t *b = M_buf_create(); M_buf_add_str(b, "p"); nx = NULL; r = mp[k].b(h.p, b, &nx); VH_CHECK(!r && nx == h.p + e.size() && S(M_buf_peek(b), M_buf_len(b)) == "p" + w, "utf8:case-buf", "%s_chr_buf(U+%04X)", mp[k].n, c); M_buf_cancel(b); } }
	for (int k = 0; k < NCLS; k++) { bool g = ccp[k](c) != 0; judge_class(c, k, g); if (c) { nx = NULL; VH_CHECK((cchr[k](h.p, &nx) != 0) == g && nx == h.p + e.size(), "utf8:class-chr", "%s_chr(U+%04X) differs from the code point form", cname[k], c); if (vh_chance(20)) VH_CHECK((cstr[k](h.p) != 0) == g, "utf8:class-str", "%s(U+%04X)", cname[k], c); } if (g) vh_count(cname[k], 1); }
	vh_count("valid_cps", 1); vh_distinct(c);
}
static void cps() { for (u32 i = 0; i < 256; i++) one((u32)(vh_case * 256 + i)); if (vh_chance(10)) for (int i = 0; i < 20; i++) one(0x110000 + (u32)vh_rndn(vh_chance(50) ? 1000 : 0xFFEEFFFFu)); }
static void dec(const S &s) {
	Heap h(s, true); size_t n = strlen(h.p); u32 w = 0; int l = n ? ref_dec((const unsigned char *)h.p, n, &w) : 0; M_uint32 q = 77; const char *nx = (const char *)1; M_utf8_error_t r = M_utf8_get_cp(h.p, &q, &nx);
	if (!n) { VH_CHECK(!r && q == 0 && nx == h.p, "utf8:decode-empty", "rv %d", r); return; }
	VH_CHECK((r == 0) == (l > 0), "utf8:decode", "%s %s (rv %d)", E(s.substr(0, 4)), l ? "rejected" : "accepted", r);
	if (!r) { VH_CHECK(q == w && nx == h.p + l, "utf8:decode", "%s gave U+%04X want U+%04X", E(s), q, w); vh_count("accepted", 1); return; }
	unsigned char a = (unsigned char)h.p[0]; int wd = a < 0x80 ? 1 : a < 0xC0 ? 0 : a < 0xE0 ? 2 : a < 0xF0 ? 3 : a < 0xF8 ? 4 : 0; bool trunc = false, cont = false; for (int i = 1; i < wd && !trunc && !cont; i++) { if (!h.p[i]) trunc = true; else if (((unsigned char)h.p[i] & 0xC0) != 0x80) cont = true; }
	VH_CHECK(nx == NULL && q == 0, "utf8:error-outputs", "%s left outputs", E(s));
	bool ok = a >= 0x80 && a <= 0xBF ? r == M_UTF8_ERROR_BAD_START : a < 0xC2 ? r == M_UTF8_ERROR_BAD_START || r == M_UTF8_ERROR_OVERLONG : a > 0xF4 ? r == M_UTF8_ERROR_BAD_START || r == M_UTF8_ERROR_BAD_CODE_POINT : trunc ? r == M_UTF8_ERROR_TRUNCATED : cont ? r == M_UTF8_ERROR_EXPECT_CONTINUE : (r == M_UTF8_ERROR_OVERLONG) == ((a == 0xE0 && (unsigned char)h.p[1] < 0xA0) || (a == 0xF0 && (unsigned char)h.p[1] < 0x90)) || r == M_UTF8_ERROR_BAD_CODE_POINT;
	VH_CHECK(ok, "utf8:error-code", "%s reported as %d", E(s), r); vh_count("rejected", 1);
	char buf[8]; size_t len = 5; VH_CHECK(M_utf8_get_chr(h.p, buf, sizeof buf, &len, NULL) == r, "utf8:error-code", "get_chr"); M_buf_t *b = M_buf_create(); M_buf_add_str(b, "xy"); VH_CHECK(M_utf8_get_chr_buf(h.p, b, NULL) == r && M_buf_len(b) == 2, "utf8:error-buf", "x"); for (auto &m : mp) { VH_CHECK(m.h(h.p, buf, sizeof buf, &len, NULL) == r && m.sb(h.p, b) == r && M_buf_len(b) == 2, "utf8:error-buf", "%s", m.n); } M_buf_cancel(b);
}
static void bytes() { static const unsigned char bd[] = {0, 1, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xb7, 0xbe, 0xbf, 0xc0, 0xe0, 0xff}; int first = (int)(vh_case % 256); int lo2 = (int)(vh_case / 256 % 4) * 64;
	for (int s2 = lo2; s2 < lo2 + 64; s2++) { if (!first) { dec(S()); continue; } if (first < 0x80 || (first < 0xC0 && s2 % 16)) { dec(S(1, (char)first) + (char)s2); continue; } for (unsigned char c : bd) for (unsigned char d : bd) { if (first < 0xE0 && d != 0x80) continue; S s; s += (char)first; s += (char)s2; s += (char)c; s += (char)d; dec(s); } }
	vh_distinct((uint64_t)first * 256 + (uint64_t)lo2); }
static u32 rcp() { for (;;) { u32 c = vh_chance(25) ? 1 + (u32)vh_rndn(127) : vh_chance(30) ? (u32)vh_rndn(0x800) : vh_chance(50) ? (u32)vh_rndn(0x10000) : vh_chance(30) ? uni_lower[vh_rndn(1433)][vh_rndn(2)] : (u32)vh_rndn(0x110000); if (c && ref_valid(c)) return c; } }
static void strs() {
	std::vector<u32> cs; int n = (int)vh_rndn(vh_chance(10) ? 200 : 12); S s; int cls = (int)vh_rndn(NCLS * 2); for (int i = 0; i < n; i++) { u32 c = rcp(); if (cls < NCLS && vh_chance(97)) for (int t = 0; t < 200 && !ccp[cls](c); t++) c = rcp(); cs.push_back(c); s += ref_enc(c); }
	size_t good = s.size(); bool bad = vh_chance(40); size_t nbad = cs.size(); if (bad) { S b; int how = (int)vh_rndn(5); b = how == 0 ? S(1, (char)(0x80 + vh_rndn(64))) : how == 1 ? ref_enc(0x800 + (u32)vh_rndn(1000)).substr(0, 1 + vh_rndn(2)) : how == 2 ? S("\xC0\x80") : how == 3 ? S("\xED\xA0\x80") : S(1, (char)(0xF5 + vh_rndn(11))); size_t at = cs.empty() ? 0 : vh_rndn(cs.size() + 1); nbad = at; S t; for (size_t i = 0; i < at; i++) t += ref_enc(cs[i]); good = t.size(); t += b; if (how == 1 && at < cs.size() && 0) {} for (size_t i = at; i < cs.size(); i++) t += ref_enc(cs[i]); s = t; }
	Heap h(s, true); const char *end = (const char *)1; VH_CHECK((M_utf8_is_valid(h.p, &end) != 0) == !bad && end == h.p + good, "utf8:valid", "%s: end at %ld want %zu", E(s), (long)(end - h.p), good); VH_CHECK((M_utf8_is_valid(h.p, NULL) != 0) == !bad, "utf8:valid", "without endptr"); VH_CHECK(M_utf8_cnt(h.p) == (bad ? 0 : cs.size()), "utf8:cnt", "%s counted %zu want %zu", E(s), M_utf8_cnt(h.p), cs.size());
	for (size_t i = 0; i <= cs.size() + 2; i++) { if (cs.size() > 20 && !vh_chance(10)) continue; M_uint32 c = 0; M_utf8_error_t r = M_utf8_cp_at(h.p, i, &c); if (s.empty()) { VH_CHECK(r == M_UTF8_ERROR_INVALID_PARAM, "utf8:cp-at", "empty"); continue; } if (i < nbad) { VH_CHECK(!r && c == cs[i], "utf8:cp-at", "%s index %zu rv %d U+%04X", E(s), i, r, c); char b[8]; size_t len = 0; r = M_utf8_chr_at(h.p, b, sizeof b, &len, i); VH_CHECK(!r && S(b, len) == ref_enc(cs[i]), "utf8:chr-at", "%s index %zu", E(s), i); if (ref_enc(cs[i]).size() > 1) VH_CHECK(M_utf8_chr_at(h.p, b, 1, &len, i) == M_UTF8_ERROR_TRUNCATED, "utf8:chr-at", "small buffer"); } else VH_CHECK(r != 0 && (!bad ? r == M_UTF8_ERROR_INVALID_PARAM : 1), "utf8:cp-at", "%s index %zu of %zu succeeded with U+%04X", E(s), i, cs.size(), c); vh_count("indexed", 1); }
	{ const char *p = h.p; size_t i = 0; while (i < cs.size() && !bad) { const char *q = M_utf8_next_chr(p); VH_CHECK(q == p + ref_enc(cs[i]).size(), "utf8:next", "%s at %ld", E(s), (long)(p - h.p)); p = q; i++; } VH_CHECK(M_utf8_next_chr("") == NULL && M_utf8_next_chr(NULL) == NULL, "utf8:next", "empty"); if (bad) while (p && *p) { const char *q = M_utf8_next_chr(p); VH_CHECK(q > p && q <= h.p + s.size() && ((unsigned char)*q & 0xC0) != 0x80, "utf8:next", "%s", E(s)); p = q; } }
	for (int k = 0; k < 3; k++) { S w; if (!bad) for (u32 c : cs) w += ref_enc(mapped(k, c)); char *o = (char *)0; M_utf8_error_t r = mp[k].s(h.p, &o); VH_CHECK((r == 0) == !bad, "utf8:case-str", "%s %s rv %d", mp[k].n, E(s), r); if (!r) VH_CHECK(w == o, "utf8:case-str", "%s %s gave %s", mp[k].n, E(s), o); M_free(r ? NULL : o); M_buf_t *b = M_buf_create(); M_buf_add_str(b, "pre"); r = mp[k].sb(h.p, b); VH_CHECK((r == 0) == !bad && S(M_buf_peek(b), M_buf_len(b)) == "pre" + (bad ? S() : w), "utf8:case-buf", "%s %s left %s", mp[k].n, E(s), E(S(M_buf_peek(b), M_buf_len(b)))); M_buf_cancel(b); vh_count("case_strings", 1); }
	for (int k = 0; k < NCLS; k++) { bool all = true; for (u32 c : cs) all = all && ccp[k](c); bool g = cstr[k](h.p) != 0; bool w = all && !bad; VH_CHECK(g == w, "utf8:class-str", "%s(%s) = %d", cname[k], E(s), g); if (g && cs.size() > 1) vh_count("class_all_true", 1); }
	{ M_buf_t *b = M_buf_create(); S w; for (u32 c : cs) { VH_CHECK(!M_utf8_from_cp_buf(b, c), "utf8:from-buf", "U+%04X", c); w += ref_enc(c); } VH_CHECK(M_utf8_from_cp_buf(b, 0xD800) == M_UTF8_ERROR_BAD_CODE_POINT && S(M_buf_peek(b) ? M_buf_peek(b) : "", M_buf_len(b)) == w, "utf8:from-buf", "content"); M_buf_cancel(b); }
	vh_distinct(vh_hstr(s.c_str(), s.size())); vh_count(bad ? "bad_strings" : "good_strings", 1);
}
const vh_mode_t vh_modes[] = {{"cps", cps}, {"bytes", bytes}, {"strs", strs}, {0}};
