/* F01: JSON reading, writing, paths and tree edits against a strict reference parser and a value model. */
#include "vh.hpp"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_formats.h>
#include <memory>
#include <set>
static S ES(const S &s) { return S(E(s)); }
#define E(...) ES(__VA_ARGS__)
struct V; typedef std::shared_ptr<V> P;
enum T { NUL, BOO, NUM, STR, ARR, OBJ };
struct V { T t; bool b; S s; std::vector<P> a; std::vector<std::pair<S, P>> o; M_json_node_t *n = NULL; V(T x) : t(x), b(false) {} };
static S u8(uint32_t c) { S r; if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } return r; }
/* a number's canonical text: [-]digits e exponent of the last digit, no trailing zeros */
static S canon(const S &x) { size_t i = 0; bool neg = false; if (x[i] == '-') { neg = true; i++; } S d; long e = 0; bool dot = false; for (; i < x.size() && (isdigit((unsigned char)x[i]) || x[i] == '.'); i++) { if (x[i] == '.') dot = true; else { d += x[i]; if (dot) e--; } } if (i < x.size() && (x[i] == 'e' || x[i] == 'E')) { long y = strtol(x.c_str() + i + 1, NULL, 10); e += y < -99999 ? -99999 : y > 99999 ? 99999 : y; } while (d.size() > 1 && d[0] == '0') d.erase(0, 1); while (d.size() > 1 && d.back() == '0') { d.pop_back(); e++; } if (d == "0" || d.empty()) return "0"; return S(neg ? "-" : "") + d + "e" + std::to_string(e); }
/* what the library's decimal can hold exactly: a 64 bit mantissa with up to 18 places */
static bool fits(const S &c) { if (c == "0") return true; size_t p = c.find('e'); long e = atol(c.c_str() + p + 1); S d = c.substr(0, p); bool neg = d[0] == '-'; if (neg) d.erase(0, 1); if (e > 0) { if (e > 20) return false; d += S((size_t)e, '0'); e = 0; } if (-e > 15) return false; if (d.size() > 18) { if (d.size() > 19) return false; if (d > (neg ? "9223372036854775808" : "9223372036854775807")) return false; } return true; }

/* ---- strict reference parser (RFC 8259) plus optional comments ---- */
struct RP { const S &x; size_t i = 0; bool comments, dup = false, nulesc = false, badcp = false, bignum = false, badescape = false, emptykey = false; int depth = 0; RP(const S &s, bool c) : x(s), comments(c) {}
	bool ws() { for (;;) { while (i < x.size() && (x[i] == ' ' || x[i] == '\t' || x[i] == '\n' || x[i] == '\r')) i++; if (comments && i + 1 < x.size() && x[i] == '/') { if (x[i + 1] == '*') { size_t e = x.find("*/", i + 2); if (e == S::npos) return false; i = e + 2; continue; } if (x[i + 1] == '/') { size_t e = x.find('\n', i); i = e == S::npos ? x.size() : e + 1; continue; } return false; } return true; } }
	P val() { if (!ws() || i >= x.size()) return NULL; char c = x[i]; if (c == '{') return obj(); if (c == '[') return arr(); if (c == '"') { P v(new V(STR)); if (!str(v->s)) return NULL; return v; } if (!x.compare(i, 4, "true")) { i += 4; P v(new V(BOO)); v->b = true; return v; } if (!x.compare(i, 5, "false")) { i += 5; return P(new V(BOO)); } if (!x.compare(i, 4, "null")) { i += 4; return P(new V(NUL)); } return num(); }
	P num() { size_t s = i; if (i < x.size() && x[i] == '-') i++; if (i >= x.size() || !isdigit((unsigned char)x[i])) return NULL; if (x[i] == '0') i++; else while (i < x.size() && isdigit((unsigned char)x[i])) i++; if (i < x.size() && x[i] == '.') { i++; if (i >= x.size() || !isdigit((unsigned char)x[i])) return NULL; while (i < x.size() && isdigit((unsigned char)x[i])) i++; } if (i < x.size() && (x[i] == 'e' || x[i] == 'E')) { i++; if (i < x.size() && (x[i] == '+' || x[i] == '-')) i++; if (i >= x.size() || !isdigit((unsigned char)x[i])) return NULL; while (i < x.size() && isdigit((unsigned char)x[i])) i++; } P v(new V(NUM)); v->s = canon(x.substr(s, i - s)); if (!fits(v->s)) bignum = true; return v; }
	bool hex4(uint32_t &c) { if (i + 4 > x.size()) return false; c = 0; for (int k = 0; k < 4; k++) { char h = x[i + (size_t)k]; if (!isxdigit((unsigned char)h)) return false; c = c * 16 + (uint32_t)(isdigit((unsigned char)h) ? h - '0' : (h | 32) - 'a' + 10); } i += 4; return true; }
	bool str(S &out) { i++; while (i < x.size()) { unsigned char c = (unsigned char)x[i]; if (c == '"') { i++; return true; } if (c < 32) return false; if (c != '\\') { out += (char)c; i++; continue; } if (i + 1 >= x.size()) return false; char e = x[i + 1]; i += 2; switch (e) { case '"': case '\\': case '/': out += e; break; case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break; case 'u': { uint32_t c1; if (!hex4(c1)) return false; if (c1 >= 0xd800 && c1 < 0xdc00) { if (i + 6 <= x.size() && x[i] == '\\' && x[i + 1] == 'u') { size_t sv = i; i += 2; uint32_t c2; if (!hex4(c2)) return false; if (c2 >= 0xdc00 && c2 < 0xe000) c1 = 0x10000 + ((c1 - 0xd800) << 10) + (c2 - 0xdc00); else { i = sv; badcp = true; } } else badcp = true; } else if (c1 >= 0xdc00 && c1 < 0xe000) badcp = true; if ((c1 & 0xfffe) == 0xfffe || (c1 >= 0xfdd0 && c1 <= 0xfdef)) badcp = true; if (!c1) nulesc = true; out += u8(c1); break; } default: badescape = true; return false; } } return false; }
	P arr() { P v(new V(ARR)); i++; if (!ws()) return NULL; if (i < x.size() && x[i] == ']') { i++; return v; } for (;;) { P e = val(); if (!e) return NULL; v->a.push_back(e); if (!ws() || i >= x.size()) return NULL; if (x[i] == ']') { i++; return v; } if (x[i] != ',') return NULL; i++; } }
	P obj() { P v(new V(OBJ)); i++; if (!ws()) return NULL; if (i < x.size() && x[i] == '}') { i++; return v; } for (;;) { if (!ws() || i >= x.size() || x[i] != '"') return NULL; S k; if (!str(k)) return NULL; if (k.empty()) emptykey = true; if (!ws() || i >= x.size() || x[i] != ':') return NULL; i++; P e = val(); if (!e) return NULL; bool f = false; for (auto &p : v->o) if (p.first == k) { p.second = e; f = dup = true; } if (!f) v->o.push_back({ k, e }); if (!ws() || i >= x.size()) return NULL; if (x[i] == '}') { i++; return v; } if (x[i] != ',') return NULL; i++; } }
};
/* ---- compare ---- */
static S num_of(const M_json_node_t *n) { if (M_json_node_type(n) == M_JSON_TYPE_INTEGER) return canon(std::to_string(M_json_get_int(n))); char b[128]; if (M_decimal_to_str(M_json_get_decimal(n), b, sizeof b) != M_DECIMAL_SUCCESS) return "?"; return canon(b); }
static bool same(const V &v, const M_json_node_t *n, S &why, bool order = true) {
	static const char *TN[] = { "null", "boolean", "number", "string", "array", "object" }; M_json_type_t t = M_json_node_type(n); bool ok = false; switch (v.t) { case NUL: ok = t == M_JSON_TYPE_NULL; break; case BOO: ok = t == M_JSON_TYPE_BOOL; break; case NUM: ok = t == M_JSON_TYPE_INTEGER || t == M_JSON_TYPE_DECIMAL; break; case STR: ok = t == M_JSON_TYPE_STRING; break; case ARR: ok = t == M_JSON_TYPE_ARRAY; break; case OBJ: ok = t == M_JSON_TYPE_OBJECT; break; }
	if (!ok) { why = vh_fmt("a %s became type %d", TN[v.t], (int)t); return false; }
	switch (v.t) { case NUL: return true; case BOO: if ((M_json_get_bool(n) == M_TRUE) != v.b) { why = "boolean"; return false; } return true; case NUM: { S c = num_of(n); if (c != v.s) { why = "number " + v.s + " became " + c; return false; } return true; } case STR: { const char *s = M_json_get_string(n); if (!s || v.s != s) { why = "string " + E(v.s) + " became " + E(s ? s : "(null)"); return false; } return true; }
	case ARR: if (M_json_array_len(n) != v.a.size()) { why = vh_fmt("array of %zu became %zu", v.a.size(), M_json_array_len(n)); return false; } for (size_t i = 0; i < v.a.size(); i++) { M_json_node_t *c = M_json_array_at(n, i); if (M_json_get_parent(c) != n) { why = "parent"; return false; } if (!same(*v.a[i], c, why, order)) return false; } return true;
	case OBJ: { if (M_json_object_num_children(n) != v.o.size()) { why = vh_fmt("object of %zu became %zu", v.o.size(), M_json_object_num_children(n)); return false; } M_list_str_t *ks = M_json_object_keys(n); bool r = true; for (size_t i = 0; r && i < v.o.size(); i++) { const char *k = M_list_str_at(ks, i); if (order && (!k || v.o[i].first != k)) { why = "key " + E(v.o[i].first) + " is " + E(k ? k : "(null)"); r = false; break; } M_json_node_t *c = M_json_object_value(n, v.o[i].first.c_str()); if (!c || M_json_get_parent(c) != n) { why = "no value for key " + E(v.o[i].first); r = false; break; } r = same(*v.o[i].second, c, why, order); } M_list_str_destroy(ks); return r; } }
	return false; }
static bool veq(const V &a, const V &b) { if (a.t != b.t) return false; switch (a.t) { case NUL: return true; case BOO: return a.b == b.b; case NUM: case STR: return a.s == b.s; case ARR: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!veq(*a.a[i], *b.a[i])) return false; return true; case OBJ: if (a.o.size() != b.o.size()) return false; for (size_t i = 0; i < a.o.size(); i++) if (a.o[i].first != b.o[i].first || !veq(*a.o[i].second, *b.o[i].second)) return false; return true; } return false; }
/* ---- random values ---- */
static uint32_t rcp() { for (;;) { uint32_t c; switch (vh_rndn(6)) { case 0: c = (uint32_t)vh_range(1, 31); break; case 1: c = (uint32_t)vh_range(0x80, 0x7ff); break; case 2: c = (uint32_t)vh_range(0x800, 0xffff); break; case 3: c = (uint32_t)vh_range(0x10000, 0x10ffff); break; case 4: { static const uint32_t X[] = { '"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 127, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10fffd, 0x2028, 0x2029 }; c = X[vh_rndn(20)]; break; } default: c = (uint32_t)vh_range(32, 126); } if ((c >= 0xd800 && c < 0xe000) || (c & 0xfffe) == 0xfffe || (c >= 0xfdd0 && c <= 0xfdef)) continue; return c; } }
static S rstr() { S r; size_t n = vh_chance(10) ? 0 : (size_t)vh_rndn(10); bool plain = vh_chance(50); for (size_t i = 0; i < n; i++) r += plain ? S(1, (char)vh_range('a', 'd')) : u8(rcp()); return r; }
static S rkey() { S r; do r = rstr(); while (r.empty()); return r; }
static S rnum() { static const char *X[] = { "0", "-0", "1", "-1", "9007199254740991", "9007199254740992", "-9007199254740991", "-9007199254740992", "9223372036854775807", "-9223372036854775808", "0.1", "-0.5", "1.0", "10.50", "0.000000000000001", "123456789.123456789", "922337203685477.5807", "4503599627370497.25", "90071992547409910.5" }; if (vh_chance(50)) return X[vh_rndn(sizeof X / sizeof *X)]; if (vh_chance(50)) return std::to_string((int64_t)(vh_rnd() >> vh_rndn(63)) * (vh_chance(50) ? 1 : -1)); S s = vh_chance(40) ? "-" : ""; s += std::to_string(vh_rndn(100000)) + "."; size_t n = (size_t)vh_range(1, 10); for (size_t i = 0; i < n; i++) s += (char)vh_range('0', '9'); return s; }
static P rval(int depth, bool root = false) { int k = root ? (int)vh_range(4, 5) : depth <= 0 ? (int)vh_rndn(4) : (int)vh_rndn(6); P v(new V((T)k)); switch (v->t) { case BOO: v->b = vh_chance(50); break; case NUM: do v->s = canon(rnum()); while (!fits(v->s)); break; case STR: v->s = rstr(); break; case ARR: { size_t n = (size_t)vh_rndn(6); for (size_t i = 0; i < n; i++) v->a.push_back(rval(depth - 1)); break; } case OBJ: { size_t n = (size_t)vh_rndn(6); std::set<S> ks; for (size_t i = 0; i < n; i++) { S s = rkey(); if (ks.insert(s).second) v->o.push_back({ s, rval(depth - 1) }); } break; } default: break; } return v; }
static S plain_num(const S &c) { size_t p = c.find('e'); if (p == S::npos) return c; S d = c.substr(0, p), sg; long e = atol(c.c_str() + p + 1); if (d[0] == '-') { sg = "-"; d.erase(0, 1); } if (e >= 0) return sg + d + S((size_t)e, '0'); size_t k = (size_t)-e; if (d.size() <= k) d = S(k - d.size() + 1, '0') + d; return sg + d.substr(0, d.size() - k) + "." + d.substr(d.size() - k); }
/* ---- texts ---- */
static S wsx(bool com) { S r; while (vh_chance(30)) { switch (vh_rndn(com ? 6 : 4)) { case 0: r += ' '; break; case 1: r += '\t'; break; case 2: r += '\n'; break; case 3: r += "\r\n"; break; case 4: r += "/* c*o/m \" ] } ** */"; break; default: r += "// li]ne\"\n"; } } return r; }
static S enc_str(const S &s) { S r = "\""; for (size_t i = 0; i < s.size();) { unsigned char c = (unsigned char)s[i]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; uint32_t cp = n == 1 ? c : n == 2 ? (uint32_t)(c & 31) : n == 3 ? (uint32_t)(c & 15) : (uint32_t)(c & 7); for (size_t k = 1; k < n; k++) cp = cp << 6 | ((unsigned char)s[i + k] & 63); S raw = s.substr(i, n); i += n; static const struct { char c, e; } SH[] = { { '\b', 'b' }, { '\f', 'f' }, { '\n', 'n' }, { '\r', 'r' }, { '\t', 't' }, { '"', '"' }, { '\\', '\\' }, { '/', '/' } }; const char *sh = NULL; for (auto &x : SH) if (n == 1 && x.c == (char)c) sh = &x.e; bool must = cp < 32 || cp == '"' || cp == '\\'; int how = (int)vh_rndn(4); if (sh && (how < 2 || (must && how == 2))) { r += '\\'; r += *sh; } else if (must || how == 3) { const char *f = vh_chance(50) ? "\\u%04x" : "\\u%04X"; if (cp >= 0x10000) { r += vh_fmt(f, 0xd800 + ((cp - 0x10000) >> 10)); r += vh_fmt(f, 0xdc00 + ((cp - 0x10000) & 0x3ff)); } else r += vh_fmt(f, cp); } else r += raw; } return r + "\""; }
static S enc(const V &v, bool com) { S r = wsx(com); switch (v.t) { case NUL: r += "null"; break; case BOO: r += v.b ? "true" : "false"; break; case NUM: { S p = plain_num(v.s); if (vh_chance(15) && p.find('.') == S::npos && p.size() < 10) p += vh_chance(50) ? ".0" : ".000"; else if (vh_chance(15) && p.size() < 8) { p += vh_pick(VS{ "e0", "E+1", "e-1", "e2", "E00", "e-3" }); } r += p; break; } case STR: r += enc_str(v.s); break; case ARR: r += "["; for (size_t i = 0; i < v.a.size(); i++) { if (i) r += wsx(com) + ","; r += enc(*v.a[i], com); } r += wsx(com) + "]"; break; case OBJ: r += "{"; for (size_t i = 0; i < v.o.size(); i++) { if (i) r += wsx(com) + ","; r += wsx(com) + enc_str(v.o[i].first) + wsx(com) + ":" + enc(*v.o[i].second, com); } r += wsx(com) + "}"; break; } return r; }
static S mutate(S t) { int n = (int)vh_range(1, 3); for (int k = 0; k < n && !t.empty(); k++) { size_t p = (size_t)vh_rndn(t.size() + 1); static const char *INS[] = { ",", ":", "[", "]", "{", "}", "\"", "\\", " ", "0", "1", "-", ".", "e", "+", "tru", "null", "\\u12", "\\x", "/", "*", "//", "/*", "\n", "'", "\\ud800", "\\u0000", "NaN", "1 2", "\t", "\x01" }; switch (vh_rndn(5)) { case 0: t.insert(p, vh_pick(VS(INS, INS + sizeof INS / sizeof *INS))); break; case 1: if (p < t.size()) t.erase(p, 1); break; case 2: if (p < t.size()) t[p] = (char)vh_range(32, 126); break; case 3: t = t.substr(0, p); break; default: if (p < t.size()) { size_t q = (size_t)vh_rndn(t.size()); std::swap(t[p], t[q]); } } } return t; }
static const char *errn(M_json_error_t e) { return M_json_errcode_to_str(e); }
static void pos_ok(const S &t, M_json_error_t e, size_t line, size_t col) { std::vector<size_t> len(1, 0); for (char c : t) if (c == '\n') len.push_back(0); else len.back()++; VH_CHECK(e != M_JSON_ERROR_SUCCESS, "error:none", "refused %s without an error", E(t).c_str()); VH_CHECK(line >= 1 && line <= len.size() && col >= 1 && col <= len[line - 1] + 2, "error:position", "error %s at line %zu column %zu of %s", errn(e), line, col, E(t).c_str()); }
static void run_read() {
	bool com = vh_chance(30); P v = rval((int)vh_range(1, 3), true); S t = enc(*v, com); t += wsx(com); if (vh_chance(2)) { static const char *X[] = { "{\"\":1,\"a\":2}", "[\"a\\u0000b\"]", "{\"a\":1,\"b\":2,\"a\":[3]}", "{\"k\":{\"x\":1,\"x\":\"y\"}}", "[{\"q\":1,\"\\u0071\":2}]" }; t = X[vh_rndn(5)]; } bool mut = vh_chance(50); if (mut) t = mutate(t); if (t.empty() || !t[0]) t = "[]"; bool nocom = vh_chance(50), uniq = vh_chance(30), trunc = vh_chance(10), plen = vh_chance(20); M_uint32 fl = (nocom ? M_JSON_READER_DISALLOW_COMMENTS : 0) | (uniq ? M_JSON_READER_OBJECT_UNIQUE_KEYS : 0) | (trunc ? M_JSON_READER_ALLOW_DECIMAL_TRUNCATION : 0);
	RP rp(t, !nocom); P ref = rp.val(); size_t valend = rp.i; bool ok = ref && (ref->t == ARR || ref->t == OBJ); bool tail = false; if (ok) { size_t sv = rp.i; bool w = rp.ws(); if (!w) { rp.i = sv; tail = true; if (!plen) ok = false; } else if (rp.i < t.size()) { tail = true; if (!plen) ok = false; } } if (ok && uniq && rp.dup) ok = false; (void)valend;
	Heap h(t, false); M_json_error_t e; size_t line = 99999, col = 99999, pl = 99999; M_json_node_t *n = M_json_read((const char *)h.p, h.n, fl, plen ? &pl : NULL, &e, &line, &col);
	vh_distinct(vh_hash(t.data(), t.size(), fl)); vh_count(mut ? "mutated" : "texts", 1);
	if (!ok) { vh_count("malformed", 1); if (n) { S why; if (uniq && rp.emptykey) { vh_known("empty-key", "a member with the empty name is dropped"); M_json_node_destroy(n); return; } if (tail && plen) { M_json_node_destroy(n); return; } vh_fail("accept", "accepted %s", E(t).c_str()); M_json_node_destroy(n); return; } bool rootscalar = ref && ref->t != ARR && ref->t != OBJ; (void)rootscalar; pos_ok(t, e, line, col); return; }
	if (rp.bignum || rp.badcp) { vh_count("limits", 1); M_json_node_destroy(n); return; }
	if (!n) { if (tail && plen) { vh_count("tail_refused", 1); return; } if (uniq && (rp.nulesc || rp.emptykey)) { vh_known("nul-escape", "a string with \\u0000 is cut there"); return; } vh_fail("refuse", "refused %s: %s at %zu:%zu", E(t).c_str(), errn(e), line, col); return; }
	if (rp.nulesc) { vh_known("nul-escape", "a string with \\u0000 is cut there"); M_json_node_destroy(n); return; }
	if (rp.emptykey) { vh_known("empty-key", "a member with the empty name is dropped"); M_json_node_destroy(n); return; }
	S why; if (!same(*ref, n, why, !rp.dup)) vh_fail("value", "%s: %s", E(t).c_str(), why.c_str()); if (plen && !tail) VH_CHECK(pl == t.size(), "processed", "processed %zu of %zu bytes of %s", pl, t.size(), E(t).c_str()); if (plen && tail) { VH_CHECK(pl >= valend && pl <= t.size(), "processed", "processed %zu bytes of %s, the value ends at %zu", pl, E(t).c_str(), valend); vh_count("tails", 1); }
	if (!rp.dup && M_utf8_is_valid(t.c_str(), NULL)) { size_t ol = 0; char *o = M_json_write(n, M_JSON_WRITER_NUMBER_NOCOMPAT, &ol); VH_CHECK(o != NULL, "rewrite", "%s can't be written again", E(t).c_str()); if (o) { S os(o, ol); RP r2(os, false); P b = r2.val(); VH_CHECK(b && r2.i == os.size() && veq(*ref, *b), "rewrite", "%s written again is %s", E(t).c_str(), E(os).c_str()); M_free(o); } }
	vh_count("accepted", 1); if (rp.dup) vh_count("duplicates", 1); M_json_node_destroy(n); }
/* ---- writing ---- */
static M_json_node_t *build(V &v) { M_json_node_t *n = NULL; switch (v.t) { case NUL: n = M_json_node_create(M_JSON_TYPE_NULL); break; case BOO: n = M_json_node_create(M_JSON_TYPE_BOOL); M_json_set_bool(n, v.b ? M_TRUE : M_FALSE); break; case STR: n = M_json_node_create(M_JSON_TYPE_STRING); M_json_set_string(n, v.s.c_str()); break; case NUM: { S p = plain_num(v.s); if (p.find('.') == S::npos) { n = M_json_node_create(M_JSON_TYPE_INTEGER); M_json_set_int(n, strtoll(p.c_str(), NULL, 10)); } else { n = M_json_node_create(M_JSON_TYPE_DECIMAL); M_decimal_t d; M_decimal_from_str(p.c_str(), p.size(), &d, NULL); M_json_set_decimal(n, &d); } break; }
	case ARR: n = M_json_node_create(M_JSON_TYPE_ARRAY); for (auto &e : v.a) { if (e->t == STR && vh_chance(30)) M_json_array_insert_string(n, e->s.c_str()); else if (e->t == BOO && vh_chance(30)) M_json_array_insert_bool(n, e->b ? M_TRUE : M_FALSE); else M_json_array_insert(n, build(*e)); } break;
	case OBJ: n = M_json_node_create(M_JSON_TYPE_OBJECT); for (auto &e : v.o) { const char *k = e.first.c_str(); if (e.second->t == STR && vh_chance(30)) M_json_object_insert_string(n, k, e.second->s.c_str()); else if (e.second->t == BOO && vh_chance(30)) M_json_object_insert_bool(n, k, e.second->b ? M_TRUE : M_FALSE); else M_json_object_insert(n, k, build(*e.second)); } break; } v.n = n; return n; }
/* by default numbers Java Script can't hold are written as strings */
static void compat(V &v) { for (auto &e : v.a) compat(*e); for (auto &e : v.o) compat(*e.second); if (v.t != NUM) return; S p = plain_num(v.s); bool dec = p.find('.') != S::npos; S ip = p.substr(0, p.find('.')); __int128 i = 0; bool neg = false; for (char c : ip) if (c == '-') neg = true; else i = i * 10 + (c - '0'); if (neg) i = -i; size_t places = dec ? p.size() - p.find('.') - 1 : 0; const __int128 M = ((__int128)1 << 53) - 1; bool out = i > M || i < -M; if (dec) { /* rounding to the nearest integer may carry it over the limit */ if (i == M || i == -M) { v.t = NUL; return; } } if (out || places > 15) { v.t = STR; v.s = p; } }
static bool loose(const V &a, const V &b) { if (a.t == NUL && (b.t == NUM || b.t == STR)) return true; if (a.t != b.t) return false; if (a.t == ARR) { if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!loose(*a.a[i], *b.a[i])) return false; return true; } if (a.t == OBJ) { if (a.o.size() != b.o.size()) return false; for (size_t i = 0; i < a.o.size(); i++) if (a.o[i].first != b.o[i].first || !loose(*a.o[i].second, *b.o[i].second)) return false; return true; } return veq(a, b); }
static P copy(const V &v) { P r(new V(v.t)); r->b = v.b; r->s = v.s; for (auto &e : v.a) r->a.push_back(copy(*e)); for (auto &e : v.o) r->o.push_back({ e.first, copy(*e.second) }); return r; }
static void run_write() {
	P v = rval((int)vh_range(1, 4), true); M_json_node_t *n = build(*v); M_uint32 fl = 0; for (M_uint32 f : { M_JSON_WRITER_PRETTYPRINT_SPACE, M_JSON_WRITER_PRETTYPRINT_TAB, M_JSON_WRITER_PRETTYPRINT_WINLINEEND, M_JSON_WRITER_DONT_ENCODE_UNICODE, M_JSON_WRITER_REPLACE_BAD_CHARS, M_JSON_WRITER_NUMBER_NOCOMPAT }) if (vh_chance(40)) fl |= f;
	S why; VH_CHECK(same(*v, n, why), "build", "a built tree differs: %s", why.c_str()); size_t ol = 0; char *o = M_json_write(n, fl, &ol); VH_CHECK(o != NULL, "write", "a tree can't be written (flags %x)", fl);
	if (o) { S os(o, ol); VH_CHECK(strlen(o) == ol, "write:len", "reported length %zu of %zu", ol, strlen(o)); P want = copy(*v); bool nc = fl & M_JSON_WRITER_NUMBER_NOCOMPAT; if (!nc) compat(*want); RP rp(os, false); P b = rp.val(); bool full = b && rp.ws() && rp.i == os.size(); VH_CHECK(full, "write:invalid", "flags %x wrote %s, which is not JSON", fl, E(os).c_str()); if (full) VH_CHECK(loose(*want, *b), "write:value", "flags %x wrote %s for another tree", fl, E(os).c_str());
		if (!(fl & (M_JSON_WRITER_PRETTYPRINT_SPACE | M_JSON_WRITER_PRETTYPRINT_TAB))) VH_CHECK(os.find('\n') == S::npos, "write:oneline", "one line output has a line end: %s", E(os).c_str()); else if (fl & M_JSON_WRITER_PRETTYPRINT_WINLINEEND) { for (size_t i = 0; i < os.size(); i++) if (os[i] == '\n') VH_CHECK(i && os[i - 1] == '\r', "write:lineend", "bare line feed in %s", E(os).c_str()); } else VH_CHECK(os.find('\r') == S::npos, "write:lineend", "carriage return in %s", E(os).c_str()); if (!(fl & M_JSON_WRITER_DONT_ENCODE_UNICODE)) for (char c : os) if ((unsigned char)c > 127) { vh_fail("write:ascii", "%s has a character that was to be escaped", E(os).c_str()); break; }
		M_json_error_t e; size_t l, c; M_json_node_t *m = M_json_read(o, ol, M_JSON_READER_OBJECT_UNIQUE_KEYS | M_JSON_READER_DISALLOW_COMMENTS, NULL, &e, &l, &c); VH_CHECK(m != NULL, "roundtrip", "%s can't be read back: %s", E(os).c_str(), errn(e)); if (m) { if (full && !same(*b, m, why)) vh_fail("roundtrip", "%s read back: %s", E(os).c_str(), why.c_str()); M_json_node_destroy(m); } M_free(o); vh_distinct(vh_hash(os.data(), os.size(), 7)); }
	if (vh_chance(10)) { S path = S(vh_tmpdir() ? vh_tmpdir() : "/tmp") + "/f01.json"; if (M_json_write_file(n, path.c_str(), M_JSON_WRITER_NUMBER_NOCOMPAT) == M_FS_ERROR_SUCCESS) { M_json_node_t *m = M_json_read_file(path.c_str(), 0, 0, NULL, NULL, NULL); VH_CHECK(m && same(*v, m, why), "file", "a written file read back differs: %s", m ? why.c_str() : "unreadable"); M_json_node_destroy(m); vh_count("files", 1); } else vh_fail("file", "can't write a file"); unlink(path.c_str()); }
	vh_count("trees", 1); M_json_node_destroy(n); }
/* ---- bad characters ---- */
static void run_bad() { S s; size_t n = (size_t)vh_range(1, 8); for (size_t i = 0; i < n; i++) s += vh_chance(50) ? S(1, (char)vh_range(0x80, 0xff)) : u8(rcp()); bool valid = M_utf8_is_valid(s.c_str(), NULL); M_json_node_t *a = M_json_node_create(M_JSON_TYPE_ARRAY); M_json_array_insert_string(a, s.c_str()); bool raw = vh_chance(50), key = vh_chance(30); if (key) { M_json_node_t *o = M_json_node_create(M_JSON_TYPE_OBJECT); M_json_object_insert_bool(o, s.c_str(), M_TRUE); M_json_array_insert(a, o); } M_uint32 f = raw ? M_JSON_WRITER_DONT_ENCODE_UNICODE : 0; char *o = M_json_write(a, f, NULL); VH_CHECK((o != NULL) == valid, "bad:write", "writing %s %s", E(s).c_str(), o ? "succeeded" : "failed"); M_free(o); o = M_json_write(a, f | M_JSON_WRITER_REPLACE_BAD_CHARS, NULL); VH_CHECK(o != NULL, "bad:replace", "writing %s with replacement failed", E(s).c_str()); if (o) { S os(o); RP rp(os, false); P b = rp.val(); VH_CHECK(b && rp.i == os.size() && b->a.size() >= 1 && M_utf8_is_valid(os.c_str(), NULL), "bad:replace", "writing %s with replacement gave %s", E(s).c_str(), E(os).c_str()); M_free(o); } M_json_node_destroy(a); vh_count(valid ? "good" : "bad", 1); vh_distinct(vh_hash(s.data(), s.size(), raw)); }
/* ---- paths ---- */
struct Seg { int k; S key; std::vector<std::vector<long>> sl; std::vector<int> np; bool rec; }; /* k: 0 key 1 * 2 [*] 3 [list] */
static void sel(const V &v, const std::vector<Seg> &sg, size_t i, std::vector<M_json_node_t *> &out, bool rec) {
	if (i == sg.size()) { out.push_back(v.n); return; } const Seg &s = sg[i];
	if (v.t == OBJ) { for (auto &e : v.o) { if (s.k == 1 || (s.k == 0 && !strcasecmp(s.key.c_str(), e.first.c_str()))) sel(*e.second, sg, i + 1, out, i + 1 < sg.size() && sg[i + 1].rec); if (rec) sel(*e.second, sg, i, out, true); } }
	else if (v.t == ARR) { long L = (long)v.a.size(); std::vector<long> idx; if (s.k == 2) for (long j = 0; j < L; j++) idx.push_back(j); if (s.k == 3) for (size_t q = 0; q < s.sl.size(); q++) { auto &p = s.sl[q]; if (s.np[q] == 1) { long x = p[0] < 0 ? p[0] + L : p[0]; if (x >= 0 && x < L) idx.push_back(x); } else { long st = p[0] < 0 ? p[0] + L : p[0], en = p[1] < 0 ? p[1] + L : p[1], sp = p[2]; if (p[3]) st = 0; if (p[4]) en = L; if (st < 0 || en < 0 || L == 0) continue; if (sp > 0) for (long j = st; j < en; j += sp) { if (j < L) idx.push_back(j); } else for (long j = st - 1; j >= en; j += sp) if (j < L) idx.push_back(j); } }
		for (long j : idx) sel(*v.a[(size_t)j], sg, i + 1, out, i + 1 < sg.size() && sg[i + 1].rec); if (rec) for (auto &e : v.a) sel(*e, sg, i, out, true); } }
static P pval(int d) { P v(new V(d <= 0 ? STR : vh_chance(50) ? OBJ : ARR)); if (v->t == STR) { v->s = "x"; } else if (v->t == ARR) { size_t n = (size_t)vh_rndn(5); for (size_t i = 0; i < n; i++) v->a.push_back(pval(vh_chance(30) ? 0 : d - 1)); } else { static const char *K[] = { "a", "b", "c", "dd", "e" }; for (auto k : K) if (vh_chance(50)) v->o.push_back({ k, pval(vh_chance(25) ? 0 : d - 1) }); } return v; }
static void run_path() {
	P v = pval((int)vh_range(2, 4)); if (v->t == STR) v = pval(3); M_json_node_t *n = build(*v); /* build() uses other calls for some strings: find nodes again */ std::vector<std::pair<V *, M_json_node_t *>> st = { { v.get(), n } }; while (!st.empty()) { auto p = st.back(); st.pop_back(); p.first->n = p.second; for (size_t i = 0; i < p.first->a.size(); i++) st.push_back({ p.first->a[i].get(), M_json_array_at(p.second, i) }); for (auto &e : p.first->o) st.push_back({ e.second.get(), M_json_object_value(p.second, e.first.c_str()) }); }
	std::vector<Seg> sg; S q = "$"; size_t k = (size_t)vh_range(1, 4); for (size_t i = 0; i < k; i++) { Seg s; s.rec = vh_chance(30); s.k = (int)vh_rndn(4); if (s.k < 2) { static const char *K[] = { "a", "b", "c", "dd", "e", "A", "z" }; s.key = K[vh_rndn(7)]; q += s.rec ? ".." : "."; q += s.k ? "*" : s.key; } else { if (s.rec) q += ".."; if (s.k == 2) q += "[*]"; else { size_t m = (size_t)vh_range(1, 3); q += "["; for (size_t j = 0; j < m; j++) { if (j) q += ","; if (vh_chance(50)) { long x = (long)vh_range(0, 7) - 2; s.sl.push_back({ x, 0, 0, 0, 0 }); s.np.push_back(1); q += std::to_string(x); } else { long a = (long)vh_rndn(6), b = (long)vh_rndn(7), c = vh_chance(50) ? 1 : (long)vh_range(0, 6) - 3; if (c == 0) c = 2; long na = 0, nb = 0; if (c > 0 && vh_chance(30)) na = 1; if (c > 0 && vh_chance(30)) nb = 1; if (vh_chance(20)) a = -1; s.sl.push_back({ a, b, c, na, nb }); s.np.push_back(3); if (!na) q += std::to_string(a); q += ":"; if (!nb) q += std::to_string(b); if (c != 1 || vh_chance(30)) q += ":" + std::to_string(c); } } q += "]"; } } sg.push_back(s); }
	/* the first dot after $ searches recursively: settled by the existing tests for $.[1] */
	std::vector<M_json_node_t *> strict, want; sel(*v, sg, 0, strict, sg[0].rec); bool lead = sg[0].k < 2 && !sg[0].rec; if (lead) sel(*v, sg, 0, want, true); else want = strict;
	size_t m = 99; M_json_node_t **r = M_json_jsonpath(n, q.c_str(), &m); std::multiset<M_json_node_t *> A(r, r ? r + m : r), B(want.begin(), want.end()), C(strict.begin(), strict.end()); VH_CHECK(m == 0 || r, "path:null", "%zu matches and no array", m); if (A != B && A != C) vh_fail("path", "%s on %s selects %zu nodes, not %zu", q.c_str(), [&] { char *o = M_json_write(n, 0, NULL); S s = o ? o : ""; M_free(o); return s; }().c_str(), m, want.size()); else if (A != C) vh_known("path:leading-dot", "$.name also selects nodes of that name further down %s", q.c_str()); if (!strict.empty()) vh_count("nonempty", 1); if (strict.size() > 1) vh_count("several", 1); vh_count("paths", 1); vh_distinct(vh_hstr(q.c_str(), m)); M_free(r); M_json_node_destroy(n); }
/* ---- edits ---- */
static void run_edit() {
	P v = rval(2, true); M_json_node_t *n = build(*v); S why; uint64_t h = 3; for (int i = 0; i < 12; i++) { std::vector<V *> cs; std::vector<M_json_node_t *> ns; { std::vector<std::pair<V *, M_json_node_t *>> st = { { v.get(), n } }; while (!st.empty()) { auto p = st.back(); st.pop_back(); if (p.first->t >= ARR) { cs.push_back(p.first); ns.push_back(p.second); } for (size_t k = 0; k < p.first->a.size(); k++) st.push_back({ p.first->a[k].get(), M_json_array_at(p.second, k) }); for (auto &e : p.first->o) st.push_back({ e.second.get(), M_json_object_value(p.second, e.first.c_str()) }); } } size_t w = (size_t)vh_rndn(cs.size()); V *c = cs[w]; M_json_node_t *cn = ns[w]; int op = (int)vh_rndn(6); h = vh_hu((uint64_t)op * 64 + w, h); P nv = rval(1);
		if (c->t == ARR) { size_t L = c->a.size(); switch (op) { case 0: case 1: { size_t at = (size_t)vh_rndn(L + 2); M_json_node_t *nn = build(*nv); bool ok = M_json_array_insert_at(cn, nn, at); if (at > L) { if (ok) { c->a.push_back(nv); } else M_json_node_destroy(nn); } else { VH_CHECK(ok, "edit:insert", "inserting at %zu of %zu failed", at, L); if (!ok) M_json_node_destroy(nn); else c->a.insert(c->a.begin() + (long)at, nv); } VH_CHECK(!ok || !M_json_array_insert(cn, nn), "edit:parent", "a node with a parent was inserted again"); break; } case 2: M_json_array_insert(cn, build(*nv)); c->a.push_back(nv); break; case 3: if (L) { size_t at = (size_t)vh_rndn(L); M_json_node_t *x = M_json_array_at(cn, at); M_json_take_from_parent(x); VH_CHECK(M_json_get_parent(x) == NULL && same(*c->a[at], x, why), "edit:take", "a taken node changed: %s", why.c_str()); M_json_node_destroy(x); c->a.erase(c->a.begin() + (long)at); } break; case 4: if (L) { size_t at = (size_t)vh_rndn(L); M_json_node_destroy(M_json_array_at(cn, at)); c->a.erase(c->a.begin() + (long)at); } break; default: { int64_t x = (int64_t)vh_rnd() >> vh_rndn(60); M_json_array_insert_int(cn, x); P q(new V(NUM)); q->s = canon(std::to_string(x)); c->a.push_back(q); VH_CHECK(M_json_array_at_int(cn, M_json_array_len(cn) - 1) == x, "edit:int", "integer"); } } VH_CHECK(M_json_array_at(cn, c->a.size()) == NULL, "edit:past", "a node past the end"); }
		else { size_t L = c->o.size(); switch (op) { case 0: case 1: case 2: { S k = L && vh_chance(40) ? c->o[vh_rndn(L)].first : rkey(); bool f = false; M_json_object_insert(cn, k.c_str(), build(*nv)); for (auto &e : c->o) if (e.first == k) { e.second = nv; f = true; } if (!f) c->o.push_back({ k, nv }); break; } case 3: case 4: if (L) { size_t at = (size_t)vh_rndn(L); M_json_node_t *x = M_json_object_value(cn, c->o[at].first.c_str()); if (op == 3) { M_json_take_from_parent(x); VH_CHECK(M_json_get_parent(x) == NULL && same(*c->o[at].second, x, why), "edit:take", "a taken node changed: %s", why.c_str()); } M_json_node_destroy(x); c->o.erase(c->o.begin() + (long)at); } break; default: { S k = rkey(); S val = rstr(); bool f = false; M_json_object_insert_string(cn, k.c_str(), val.c_str()); P q(new V(STR)); q->s = val; for (auto &e : c->o) if (e.first == k) { e.second = q; f = true; } if (!f) c->o.push_back({ k, q }); const char *g = M_json_object_value_string(cn, k.c_str()); VH_CHECK(g && val == g, "edit:string", "string"); } } }
		if (!same(*v, n, why, false)) { vh_fail("edit", "after edit %d: %s", op, why.c_str()); break; } }
	/* scalars change type in place, text of values */
	P s = rval(0); M_json_node_t *x = build(*s); P s2 = rval(0); switch (s2->t) { case STR: M_json_set_string(x, s2->s.c_str()); break; case BOO: M_json_set_bool(x, s2->b ? M_TRUE : M_FALSE); break; case NUL: M_json_set_null(x); break; default: { S p = plain_num(s2->s); if (p.find('.') == S::npos) M_json_set_int(x, strtoll(p.c_str(), NULL, 10)); else { M_decimal_t d; M_decimal_from_str(p.c_str(), p.size(), &d, NULL); M_json_set_decimal(x, &d); } } } VH_CHECK(same(*s2, x, why), "edit:set", "a changed node: %s", why.c_str()); char *t = M_json_get_value_dup(x); char b[200]; M_bool gv = M_json_get_value(x, b, sizeof b); S want = s2->t == STR ? s2->s : s2->t == BOO ? (s2->b ? "true" : "false") : s2->t == NUL ? "null" : plain_num(s2->s); VH_CHECK(t && gv && want == b && want == t, "edit:text", "the text of %s is %s and %s", E(want).c_str(), gv ? E(b).c_str() : "(none)", t ? E(t).c_str() : "(none)"); M_free(t); M_json_node_destroy(x); vh_count("edits", 12); vh_distinct(h); M_json_node_destroy(n); }
const vh_mode_t vh_modes[] = { { "read", run_read }, { "write", run_write }, { "bad", run_bad }, { "path", run_path }, { "edit", run_edit }, { 0 } };
