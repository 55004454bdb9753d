// X02: text codecs against published charset tables and independent readings of the RFCs.
#include "vh.hpp"
#include <mstdlib/mstdlib_text.h>
#include <vector>
#include <string>
#include <map>
#include <set>
#include "cptables.h"
typedef unsigned u32;
enum { FAIL = M_TEXTCODEC_EHANDLER_FAIL, REPL = M_TEXTCODEC_EHANDLER_REPLACE, IGN = M_TEXTCODEC_EHANDLER_IGNORE };
static const int NCP = (int)(sizeof(cp_names) / sizeof(*cp_names));
static M_textcodec_codec_t cp_id(int i) { return (M_textcodec_codec_t)(M_TEXTCODEC_ASCII + i); }

static S enc_cp(u32 c)
{
	S s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 | (c >> 6)); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 | (c >> 12)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xF0 | (c >> 18)); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
	return s;
}
static bool valid_cp(u32 c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF) && (c & 0xFFFE) != 0xFFFE && !(c >= 0xFDD0 && c <= 0xFDEF); }
// next code point of s at *i, or -1 having skipped the lead byte and the continuation bytes after it
static long next_cp(const S &s, size_t *i)
{
	unsigned char c = (unsigned char)s[*i];
	size_t n = c < 0x80 ? 1 : c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
	u32 v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
	bool ok = n > 0 && *i + n <= s.size();
	for (size_t k = 1; ok && k < n; k++) { unsigned char d = (unsigned char)s[*i + k]; if ((d & 0xC0) != 0x80) ok = false; v = (v << 6) | (d & 63); }
	if (ok && ((n == 2 && v < 0x80) || (n == 3 && v < 0x800) || (n == 4 && v < 0x10000) || !valid_cp(v))) ok = false;
	if (ok) { *i += n; return (long)v; }
	++*i;
	while (*i < s.size() && ((unsigned char)s[*i] & 0xC0) == 0x80) ++*i;
	return -1;
}
static bool valid_utf8(const S &s) { for (size_t i = 0; i < s.size();) if (next_cp(s, &i) < 0) return false; return true; }

struct Out { M_textcodec_error_t e; S s; };
static S esc(const S &s) { return E(s); }
// one conversion through all three entry points, which must agree
static Out conv(bool enc, const S &in, int eh, M_textcodec_codec_t c)
{
	Out o; Heap h(in, true);
	char *out = (char *)1;
	o.e = enc ? M_textcodec_encode(&out, (const char *)h.p, (M_textcodec_ehandler_t)eh, c) : M_textcodec_decode(&out, (const char *)h.p, (M_textcodec_ehandler_t)eh, c);
	bool err = M_textcodec_error_is_error(o.e);
	VH_CHECK(err == (o.e == M_TEXTCODEC_ERROR_FAIL || o.e == M_TEXTCODEC_ERROR_BADINPUT || o.e == M_TEXTCODEC_ERROR_INVALID_PARAM), "entry:is-error", "M_textcodec_error_is_error(%d) is %d", o.e, err);
	if (err) VH_CHECK(out == NULL, "entry:out", "%s by codec %d failed with %d and left an output", enc ? "encode" : "decode", c, o.e);
	int how = vh_rndn(3);
	if (how == 0) { o.s = out ? out : ""; if (vh_chance(70)) { M_free(out); return o; } }
	M_buf_t *b = M_buf_create(); M_buf_add_str(b, "<");
	M_textcodec_error_t e2 = enc ? M_textcodec_encode_buf(b, (const char *)h.p, (M_textcodec_ehandler_t)eh, c) : M_textcodec_decode_buf(b, (const char *)h.p, (M_textcodec_ehandler_t)eh, c);
	S s2(M_buf_peek(b), M_buf_len(b));
	M_buf_cancel(b);
	M_parser_t *p = M_parser_create(M_PARSER_FLAG_NONE); M_parser_append(p, (const unsigned char *)"<", 1);
	M_textcodec_error_t e3 = enc ? M_textcodec_encode_parser(p, (const char *)h.p, (M_textcodec_ehandler_t)eh, c) : M_textcodec_decode_parser(p, (const char *)h.p, (M_textcodec_ehandler_t)eh, c);
	S s3((const char *)M_parser_peek(p), M_parser_len(p));
	M_parser_destroy(p);
	VH_CHECK(e2 == o.e && e3 == o.e, "entry:result", "%s of \"%s\" by codec %d handler %d: string %d, buffer %d, parser %d", enc ? "encode" : "decode", esc(in).c_str(), c, eh, o.e, e2, e3);
	VH_CHECK(s2 == s3 && s2.substr(0, 1) == "<", "entry:data", "%s of \"%s\" by codec %d handler %d: buffer \"%s\" and parser \"%s\"", enc ? "encode" : "decode", esc(in).c_str(), c, eh, esc(s2).c_str(), esc(s3).c_str());
	s2.erase(0, 1);
	if (!err) { VH_CHECK(S(out ? out : "") == s2.c_str(), "entry:data", "%s of \"%s\" by codec %d handler %d: string \"%s\" and buffer \"%s\"", enc ? "encode" : "decode", esc(in).c_str(), c, eh, out ? out : "", esc(s2).c_str()); o.s = s2; }
	M_free(out);
	vh_count("entries_compared", 1);
	return o;
}
static const S REPL_DEC("\xFF\xFD");
// the replacement written by the decoders: U+FFFD is documented, FF FD is written (known finding)
static bool same_repl(const S &got, const S &want_doc, const S &want_raw, const char *what)
{
	if (want_doc == want_raw) return got == want_doc;
	if (got == want_doc) return true;
	if (got == want_raw) { vh_known("replace:fffd", "%s writes the bytes FF FD for U+FFFD", what); vh_count("replacements", 1); return true; }
	return false;
}
static const S FFFD("\xEF\xBF\xBD");

// ---- charsets ----
static std::map<u32, int> inv[32];
static void setup(void) { for (int i = 0; i < NCP; i++) for (int b = 0; b < 256; b++) if (cp_tab[i][b] >= 0) inv[i][(u32)cp_tab[i][b]] = b; }
static Out cp_encode(int k, const S &in, int eh)
{
	Out o; o.e = M_TEXTCODEC_ERROR_SUCCESS;
	if (eh == FAIL && !valid_utf8(in)) { o.e = M_TEXTCODEC_ERROR_BADINPUT; return o; }
	for (size_t i = 0; i < in.size();) {
		long c = next_cp(in, &i);
		if (c >= 0 && inv[k].count((u32)c)) { o.s += (char)inv[k][(u32)c]; continue; }
		if (eh == FAIL) { o.e = M_TEXTCODEC_ERROR_FAIL; o.s.clear(); return o; }
		o.e = M_TEXTCODEC_ERROR_SUCCESS_EHANDLER;
		if (eh == REPL) o.s += '?';
	}
	return o;
}
static Out cp_decode(int k, const S &in, int eh, const S &rep)
{
	Out o; o.e = M_TEXTCODEC_ERROR_SUCCESS;
	for (size_t i = 0; i < in.size(); i++) {
		int c = cp_tab[k][(unsigned char)in[i]];
		if (c >= 0) { o.s += enc_cp((u32)c); continue; }
		if (eh == FAIL) { o.e = M_TEXTCODEC_ERROR_FAIL; o.s.clear(); return o; }
		o.e = M_TEXTCODEC_ERROR_SUCCESS_EHANDLER;
		if (eh == REPL) o.s += rep;
	}
	return o;
}
static void chk_enc(int k, const S &in, int eh)
{
	Out w = cp_encode(k, in, eh), g = conv(true, in, eh, cp_id(k));
	VH_CHECK(g.e == w.e && g.s == w.s, "cp:encode", "%s handler %d: encode \"%s\" gives %d \"%s\", expected %d \"%s\"", cp_names[k], eh, esc(in).c_str(), g.e, esc(g.s).c_str(), w.e, esc(w.s).c_str());
}
static void chk_dec(int k, const S &in, int eh)
{
	Out w = cp_decode(k, in, eh, FFFD), r = cp_decode(k, in, eh, REPL_DEC), g = conv(false, in, eh, cp_id(k));
	VH_CHECK(g.e == w.e && same_repl(g.s, w.s, r.s, cp_names[k]), "cp:decode", "%s handler %d: decode \"%s\" gives %d \"%s\", expected %d \"%s\"", cp_names[k], eh, esc(in).c_str(), g.e, esc(g.s).c_str(), w.e, esc(w.s).c_str());
}
static void run_tables(void)
{
	u32 chunk = (u32)vh_case / NCP; int k = (int)(vh_case % NCP);
	if (chunk == 0) {
		for (int b = 1; b < 256; b++) for (int eh = 0; eh < 3; eh++) { chk_dec(k, S(1, (char)b), eh); vh_count("bytes", 1); }
		for (int b = 1; b < 256; b++) if (cp_tab[k][b] > 0) {
			Out d = conv(false, S(1, (char)b), FAIL, cp_id(k)), e = conv(true, d.s, FAIL, cp_id(k));
			VH_CHECK(e.e == M_TEXTCODEC_ERROR_SUCCESS && e.s == S(1, (char)b), "cp:roundtrip", "%s byte %02x comes back as \"%s\"", cp_names[k], b, esc(e.s).c_str());
			vh_count("roundtrips", 1);
		}
	}
	for (u32 c = chunk * 4096; c < (chunk + 1) * 4096; ) {
		S t; u32 n = 0;
		for (; n < 1024 && c < (chunk + 1) * 4096; c++, n++) if (c && valid_cp(c)) t += enc_cp(c);
		if (t.empty()) continue;
		chk_enc(k, t, vh_chance(70) ? REPL : IGN); if (vh_chance(20)) chk_enc(k, t, FAIL);
		vh_count("points", n);
	}
	vh_distinct(vh_hu((unsigned long long)vh_case, 3));
}

static u32 gen_cp(int k)
{
	switch (vh_rndn(10)) {
		case 0: { u32 c; do c = (u32)vh_rndn(0x110000); while (!valid_cp(c) || !c); return c; }
		case 1: { u32 c; do c = (u32)vh_rndn(0x3000); while (!valid_cp(c) || !c); return c; }
		case 2: return (u32)vh_range(1, 0x7f);
	}
	int c; do c = cp_tab[k][vh_range(1, 255)]; while (c <= 0);
	return (u32)c;
}
static S gen_text(int k, bool only)
{
	S t; size_t n = vh_chance(5) ? vh_range(50, 400) : vh_range(0, 20);
	for (size_t i = 0; i < n; i++) {
		if (only) { int c; do c = cp_tab[k][vh_range(1, 255)]; while (c <= 0); t += enc_cp((u32)c); }
		else if (vh_chance(4)) t += (char)vh_range(0x80, 0xff);
		else if (vh_chance(2)) t += enc_cp((u32)vh_range(0xD700, 0xE000));
		else if (vh_chance(2)) { S e = enc_cp(gen_cp(k)); e.resize(e.size() > 1 ? e.size() - 1 : 1); t += e; }
		else t += enc_cp(gen_cp(k));
	}
	return t;
}
static void run_text(void)
{
	int k = (int)vh_rndn(NCP);
	for (int j = 0; j < 6; j++) {
		S t = gen_text(k, vh_chance(40)); int eh = (int)vh_rndn(3);
		chk_enc(k, t, eh);
		Out e = cp_encode(k, t, FAIL);
		if (e.e == M_TEXTCODEC_ERROR_SUCCESS) { // the charset contains the text: must survive
			Out g = conv(true, t, FAIL, cp_id(k)), d = conv(false, g.s, FAIL, cp_id(k));
			VH_CHECK(d.e == M_TEXTCODEC_ERROR_SUCCESS && d.s == t, "cp:roundtrip", "%s: \"%s\" comes back as \"%s\" (%d)", cp_names[k], esc(t).c_str(), esc(d.s).c_str(), d.e);
			vh_count("text_roundtrips", 1);
		} else vh_count("text_unmappable", 1);
		S raw = vh_bytes(vh_range(0, 24)); for (auto &c : raw) if (!c) c = 'n';
		chk_dec(k, raw, eh);
		vh_distinct(vh_hash(t.data(), t.size(), vh_hash(raw.data(), raw.size(), (unsigned long long)k)));
	}
	// UTF-8 to UTF-8 (sanitizing)
	for (int j = 0; j < 4; j++) {
		S t = gen_text(k, false); int eh = (int)vh_rndn(3); bool enc = vh_chance(50);
		if (t.empty()) continue;
		bool ok = valid_utf8(t); Out g = conv(enc, t, eh, M_TEXTCODEC_UTF8);
		if (ok) VH_CHECK(g.e == M_TEXTCODEC_ERROR_SUCCESS && g.s == t, "utf8:valid", "valid text \"%s\" becomes \"%s\" (%d)", esc(t).c_str(), esc(g.s).c_str(), g.e);
		else if (eh == FAIL) VH_CHECK(M_textcodec_error_is_error(g.e), "utf8:fail", "invalid text \"%s\" is accepted (%d)", esc(t).c_str(), g.e);
		else if (eh == IGN) VH_CHECK(g.e == M_TEXTCODEC_ERROR_SUCCESS_EHANDLER && g.s == t, "utf8:ignore", "\"%s\" becomes \"%s\" (%d)", esc(t).c_str(), esc(g.s).c_str(), g.e);
		else {
			S doc, raw;
			for (size_t i = 0; i < t.size();) { size_t o = i; if (next_cp(t, &i) >= 0) { doc += t.substr(o, i - o); raw += t.substr(o, i - o); } else if (enc) { doc += '?'; raw += '?'; } else { doc += FFFD; raw += REPL_DEC; } }
			VH_CHECK(g.e == M_TEXTCODEC_ERROR_SUCCESS_EHANDLER && same_repl(g.s, doc, raw, "utf-8"), "utf8:replace", "\"%s\" becomes \"%s\" (%d), expected \"%s\"", esc(t).c_str(), esc(g.s).c_str(), g.e, esc(doc).c_str());
		}
		vh_count(ok ? "utf8_valid" : "utf8_invalid", 1);
	}
}

// ---- percent ----
static bool is_res(char c) { return strchr(":/?#[]@!$&'()*+,;=", c) != NULL && c; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void run_percent(void)
{
	static const M_textcodec_codec_t cs[] = { M_TEXTCODEC_PERCENT_URL, M_TEXTCODEC_PERCENT_FORM, M_TEXTCODEC_PERCENT_URLMIN, M_TEXTCODEC_PERCENT_FORMMIN };
	for (int j = 0; j < 5; j++) {
		M_textcodec_codec_t c = cs[vh_rndn(4)]; bool form = c == M_TEXTCODEC_PERCENT_FORM || c == M_TEXTCODEC_PERCENT_FORMMIN, min = c == M_TEXTCODEC_PERCENT_URLMIN || c == M_TEXTCODEC_PERCENT_FORMMIN;
		int eh = (int)vh_rndn(3);
		S t = vh_chance(50) ? gen_text(0, true) : gen_text(7, vh_chance(80));
		Out g = conv(true, t, eh, c);
		bool ok = valid_utf8(t);
		if (!ok && eh == FAIL) { VH_CHECK(g.e == M_TEXTCODEC_ERROR_BADINPUT, "percent:bad", "invalid text \"%s\" is encoded (%d)", esc(t).c_str(), g.e); continue; }
		S w;
		for (unsigned char ch : t) {
			if (form && (ch == '\r' || ch == '\n')) w += (char)ch;
			else if (form && ch == ' ') w += '+';
			else if (ch <= 0x20 || ch >= 0x7f || ch == '%' || (!min && is_res((char)ch)) || (form && (ch == '+' || ch == '~'))) w += vh_fmt("%%%02X", ch);
			else w += (char)ch;
		}
		VH_CHECK(g.e == M_TEXTCODEC_ERROR_SUCCESS && g.s == w, "percent:encode", "codec %d: \"%s\" is encoded as \"%s\" (%d), expected \"%s\"", c, esc(t).c_str(), esc(g.s).c_str(), g.e, esc(w).c_str());
		Out d = conv(false, g.s, FAIL, c);
		VH_CHECK(d.e == M_TEXTCODEC_ERROR_SUCCESS && d.s == t, "percent:roundtrip", "codec %d: \"%s\" comes back as \"%s\" (%d)", c, esc(t).c_str(), esc(d.s).c_str(), d.e);
		vh_count("roundtrips", 1);
		// hostile decode
		S in; size_t n = vh_range(0, 14); static const char al[] = "%%%%%%0123459abcdefABCDEFgG+- xX~\r\n";
		for (size_t i = 0; i < n; i++) in += vh_chance(93) ? al[vh_rndn(sizeof(al) - 1)] : (char)vh_range(1, 255);
		Out r = conv(false, in, eh, c);
		bool ascii = true; for (unsigned char ch : in) if (ch >= 0x80) ascii = false;
		if (eh == FAIL && !ascii) { VH_CHECK(r.e == M_TEXTCODEC_ERROR_BADINPUT, "percent:bad", "non ASCII \"%s\" decoded (%d)", esc(in).c_str(), r.e); continue; }
		S doc, raw; M_textcodec_error_t we = M_TEXTCODEC_ERROR_SUCCESS;
		for (size_t i = 0; i < in.size() && we != M_TEXTCODEC_ERROR_FAIL;) {
			if (in[i] == '+' && form) { doc += ' '; raw += ' '; i++; continue; }
			if (in[i] != '%') { doc += in[i]; raw += in[i]; i++; continue; }
			if (in.size() - i < 3 || hexv(in[i + 1]) < 0 || hexv(in[i + 2]) < 0) {
				if (eh == FAIL) { we = M_TEXTCODEC_ERROR_FAIL; break; }
				we = M_TEXTCODEC_ERROR_SUCCESS_EHANDLER;
				if (eh == REPL) { doc += FFFD; raw += REPL_DEC; }
				if (in.size() - i < 3) i = eh == REPL ? in.size() : i + 1; else i += 3;
				continue;
			}
			char b = (char)(hexv(in[i + 1]) * 16 + hexv(in[i + 2])); doc += b; raw += b; i += 3;
		}
		if (we == M_TEXTCODEC_ERROR_FAIL) VH_CHECK(r.e == we, "percent:malformed", "codec %d: malformed \"%s\" gives %d", c, esc(in).c_str(), r.e);
		else {
			bool nul = doc.find('\0') != S::npos;
			if (nul) { vh_count("nul", 1); doc = doc.c_str(); raw = raw.c_str(); r.s = r.s.c_str(); }
			VH_CHECK(r.e == we && same_repl(r.s, doc, raw, "percent"), "percent:decode", "codec %d handler %d: \"%s\" is decoded as \"%s\" (%d), expected \"%s\" (%d)", c, eh, esc(in).c_str(), esc(r.s).c_str(), r.e, esc(doc).c_str(), we);
		}
		vh_count(vh_fmt("decode_%d", we).c_str(), 1);
		vh_distinct(vh_hash(in.data(), in.size(), (unsigned long long)c));
	}
}

// ---- quoted printable ----
static S gen_qp()
{
	S t; size_t n = vh_chance(50) ? vh_range(0, 30) : vh_range(60, 400); int style = (int)vh_rndn(4);
	for (size_t i = 0; i < n; i++) {
		int k = (int)vh_rndn(100);
		if (k < 3) t += "\r\n"; else if (k < 5) t += '\n'; else if (k < 6) t += '\r'; else if (k < 12) t += ' '; else if (k < 14) t += '\t'; else if (k < 17) t += '=';
		else if (k < 19) t += "\r\n."; else if (style == 1 && k < 60) t += enc_cp((u32)vh_range(0x80, 0x2fff)); else if (style == 2 && k < 60) t += enc_cp((u32)vh_range(0x10000, 0x1ffff)); else if (k < 21) t += (char)vh_range(1, 31); else t += (char)vh_range(33, 126);
	}
	return t;
}
static void run_qp(void)
{
	for (int j = 0; j < 4; j++) {
		S t = gen_qp(); int eh = (int)vh_rndn(3);
		if (vh_chance(5)) { t += (char)0xff; t += "x"; }
		Out g = conv(true, t, eh, M_TEXTCODEC_QUOTED_PRINTABLE);
		if (!valid_utf8(t) && eh == FAIL) { VH_CHECK(g.e == M_TEXTCODEC_ERROR_BADINPUT, "qp:bad", "invalid text encoded (%d)", g.e); continue; }
		VH_CHECK(g.e == M_TEXTCODEC_ERROR_SUCCESS, "qp:encode", "\"%s\" is not encoded (%d)", esc(t).c_str(), g.e);
		// RFC 2045 6.7: what a strict reader sees
		S dec; size_t col = 0; const S &o = g.s;
		for (size_t i = 0; i < o.size(); i++) {
			unsigned char c = (unsigned char)o[i];
			VH_CHECK((c >= 32 && c <= 126) || c == '\t' || c == '\r' || c == '\n', "qp:literal", "byte %02x is written literally in \"%s\"", c, esc(o).c_str());
			if (c == '\r' && i + 1 < o.size() && o[i + 1] == '\n') { dec += "\r\n"; col = 0; i++; continue; }
			if (c == '\n') { dec += '\n'; col = 0; continue; }
			if ((c == ' ' || c == '\t') && (i + 1 == o.size() || o[i + 1] == '\r' || o[i + 1] == '\n')) vh_fail("qp:trailing", "white space at the end of an encoded line: \"%s\"", esc(o).c_str());
			if (c == '=') {
				if (o.compare(i, 3, "=\r\n") == 0) { VH_CHECK(col + 1 <= 76, "qp:line", "encoded line of %zu characters", col + 1); vh_count("soft_breaks", 1); col = 0; i += 2; continue; }
				VH_CHECK(i + 2 < o.size() && hexv(o[i + 1]) >= 0 && hexv(o[i + 2]) >= 0 && !islower((unsigned char)o[i + 1]) && !islower((unsigned char)o[i + 2]), "qp:escape", "bad escape at %zu in \"%s\"", i, esc(o).c_str());
				dec += (char)(hexv(o[i + 1]) * 16 + hexv(o[i + 2])); i += 2; col += 3;
			} else { dec += (char)c; col++; }
			VH_CHECK(col <= 76, "qp:line", "encoded line of more than 76 characters in \"%s\"", esc(o).c_str());
		}
		VH_CHECK(dec == t, "qp:meaning", "\"%s\" is encoded as \"%s\", which means \"%s\"", esc(t).c_str(), esc(o).c_str(), esc(dec).c_str());
		if (!t.empty()) {
			Out d = conv(false, o, FAIL, M_TEXTCODEC_QUOTED_PRINTABLE);
			VH_CHECK(d.e == M_TEXTCODEC_ERROR_SUCCESS && d.s == t, "qp:roundtrip", "\"%s\" comes back as \"%s\" (%d)", esc(t).c_str(), esc(d.s).c_str(), d.e);
		}
		vh_count("encoded", 1);
		S in; size_t n = vh_range(0, 14); static const char al[] = "=====0123459abcdefABCDEFgG+- xX\r\n";
		for (size_t i = 0; i < n; i++) { if (vh_chance(8)) in += "=\r\n"; else in += vh_chance(95) ? al[vh_rndn(sizeof(al) - 1)] : (char)vh_range(1, 255); }
		Out r = conv(false, in, eh, M_TEXTCODEC_QUOTED_PRINTABLE);
		S doc, raw; M_textcodec_error_t we = M_TEXTCODEC_ERROR_SUCCESS;
		for (size_t i = 0; i < in.size();) {
			if (in[i] != '=') { doc += in[i]; raw += in[i]; i++; continue; }
			if (in.compare(i, 3, "=\r\n") == 0) { i += 3; continue; }
			if (in.size() - i >= 3 && hexv(in[i + 1]) >= 0 && hexv(in[i + 2]) >= 0) { char b = (char)(hexv(in[i + 1]) * 16 + hexv(in[i + 2])); doc += b; raw += b; i += 3; continue; }
			if (eh == FAIL) { we = M_TEXTCODEC_ERROR_FAIL; break; }
			we = M_TEXTCODEC_ERROR_SUCCESS_EHANDLER;
			if (eh == REPL) { doc += FFFD; raw += REPL_DEC; }
			if (in.size() - i < 3) { doc += in.substr(i + 1); raw += in.substr(i + 1); break; }
			i++;
		}
		if (we == M_TEXTCODEC_ERROR_FAIL) VH_CHECK(r.e == we, "qp:malformed", "malformed \"%s\" gives %d", esc(in).c_str(), r.e);
		else {
			if (doc.find('\0') != S::npos) { doc = doc.c_str(); raw = raw.c_str(); r.s = r.s.c_str(); }
			VH_CHECK(r.e == we && same_repl(r.s, doc, raw, "quoted-printable"), "qp:decode", "handler %d: \"%s\" is decoded as \"%s\" (%d), expected \"%s\" (%d)", eh, esc(in).c_str(), esc(r.s).c_str(), r.e, esc(doc).c_str(), we);
		}
		vh_count(vh_fmt("decode_%d", we).c_str(), 1);
		vh_distinct(vh_hash(t.data(), t.size(), vh_hash(in.data(), in.size(), 5)));
	}
}

// ---- punycode (RFC 3492) ----
static unsigned long long adapt(unsigned long long delta, unsigned long long np, bool first) { delta = first ? delta / 700 : delta / 2; delta += delta / np; unsigned long long k = 0; while (delta > 455) { delta /= 35; k += 36; } return k + 36 * delta / (delta + 38); }
static S puny_enc(const std::vector<u32> &in)
{
	S o; for (u32 c : in) if (c < 128) o += (char)c;
	unsigned long long h = o.size(), b = h, n = 128, delta = 0, bias = 72;
	if (b) o += '-';
	while (h < in.size()) {
		unsigned long long m = ~0ULL; for (u32 c : in) if (c >= n && c < m) m = c;
		delta += (m - n) * (h + 1); n = m;
		for (u32 c : in) {
			if (c < n) delta++;
			if (c == n) {
				unsigned long long q = delta;
				for (unsigned long long k = 36;; k += 36) { unsigned long long t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias; if (q < t) break; unsigned long long d = t + (q - t) % (36 - t); o += (char)(d < 26 ? d + 'a' : d - 26 + '0'); q = (q - t) / (36 - t); }
				o += (char)(q < 26 ? q + 'a' : q - 26 + '0');
				bias = adapt(delta, h + 1, h == b); delta = 0; h++;
			}
		}
		delta++; n++;
	}
	return o;
}
static bool puny_dec(const S &in, S *out)
{
	for (unsigned char c : in) if (c >= 128) return false;
	std::vector<u32> o; size_t p = in.rfind('-'), at = 0;
	if (p != S::npos) { for (size_t i = 0; i < p; i++) o.push_back((unsigned char)in[i]); at = p + 1; }
	unsigned __int128 n = 128, i = 0; unsigned long long bias = 72;
	while (at < in.size()) {
		unsigned __int128 oldi = i, w = 1;
		for (unsigned long long k = 36;; k += 36) {
			if (at >= in.size()) return false;
			char c = in[at++]; unsigned d = c >= 'a' && c <= 'z' ? c - 'a' : c >= 'A' && c <= 'Z' ? c - 'A' : c >= '0' && c <= '9' ? c - '0' + 26 : 99;
			if (d == 99) return false;
			i += d * w; if (i > 0xffffffffu) return false;
			unsigned t = k <= bias ? 1 : k >= bias + 26 ? 26 : (unsigned)(k - bias);
			if (d < t) break;
			w *= 36 - t; if (w > 0xffffffffu) return false;
		}
		size_t len = o.size() + 1; bias = adapt((unsigned long long)(i - oldi), len, oldi == 0);
		n += i / len; i %= len;
		if (n > 0x10ffff || !valid_cp((u32)n)) return false;
		o.insert(o.begin() + (long)i, (u32)n); i++;
	}
	out->clear(); for (u32 c : o) *out += enc_cp(c);
	return true;
}
static void run_puny(void)
{
	for (int j = 0; j < 4; j++) {
		std::vector<u32> cs; size_t n = vh_range(0, vh_chance(10) ? 60 : 12); u32 basep = (u32)vh_range(0x80, 0x10000); S t;
		if (basep >= 0xD000 && basep < 0xE100) basep = 0x4e00;
		for (size_t i = 0; i < n; i++) { u32 c; do c = vh_chance(35) ? (u32)vh_range(0x20, 0x7e) : vh_chance(10) ? '-' : vh_chance(70) ? basep + (u32)vh_rndn(60) : (u32)vh_rndn(0x110000); while (!c || !valid_cp(c)); cs.push_back(c); t += enc_cp(c); }
		int eh = (int)vh_rndn(3);
		Out g = conv(true, t, eh, M_TEXTCODEC_PUNYCODE); S w = puny_enc(cs);
		VH_CHECK(g.e == M_TEXTCODEC_ERROR_SUCCESS && g.s == w, "puny:encode", "\"%s\" is encoded as \"%s\" (%d), expected \"%s\"", esc(t).c_str(), esc(g.s).c_str(), g.e, w.c_str());
		Out d = conv(false, w, eh, M_TEXTCODEC_PUNYCODE);
		VH_CHECK(d.e == M_TEXTCODEC_ERROR_SUCCESS && d.s == t, "puny:roundtrip", "\"%s\" comes back as \"%s\" (%d)", esc(t).c_str(), esc(d.s).c_str(), d.e);
		vh_count("roundtrips", 1); vh_count("points", cs.size());
		S in;
		if (vh_chance(40)) { in = w; int m = (int)vh_range(1, 3); while (m-- && !in.empty()) { size_t k = vh_rndn(in.size()); switch (vh_rndn(3)) { case 0: in[k] = "abz09-AZ_"[vh_rndn(9)]; break; case 1: in.erase(k, 1); break; default: in.insert(k, 1, "abz09-99"[vh_rndn(8)]); } } }
		else { size_t l = vh_range(0, 16); for (size_t i = 0; i < l; i++) in += vh_chance(97) ? "abcxyz0189-ABZ9999999zzzzz"[vh_rndn(26)] : (char)vh_range(1, 255); }
		if (in.empty() || in.rfind('-') == 0) continue;
		S want; bool ok = puny_dec(in, &want); Out r = conv(false, in, eh, M_TEXTCODEC_PUNYCODE);
		VH_CHECK(ok ? r.e == M_TEXTCODEC_ERROR_SUCCESS && r.s == want : M_textcodec_error_is_error(r.e), "puny:decode", "\"%s\" is decoded as \"%s\" (%d), expected %s \"%s\"", esc(in).c_str(), esc(r.s).c_str(), r.e, ok ? "success" : "failure", esc(want).c_str());
		vh_count(ok ? "accepted" : "rejected", 1);
		vh_distinct(vh_hash(in.data(), in.size(), vh_hash(t.data(), t.size(), 6)));
		S bad = t + (char)0xC3; Out b = conv(true, bad, eh, M_TEXTCODEC_PUNYCODE);
		VH_CHECK(M_textcodec_error_is_error(b.e), "puny:invalid", "invalid UTF-8 \"%s\" is encoded", esc(bad).c_str());
	}
}

// ---- names and parameters ----
static void run_names(void)
{
	static const struct { M_textcodec_codec_t c; const char *n; } al[] = {
#define A(c, n) { M_TEXTCODEC_##c, n }
		A(UTF8, "utf8 utf-8 utf_8"), A(ASCII, "ascii us-ascii"), A(CP037, "cp037 ibm037 ibm-037 ibm039 ibm-039"), A(CP500, "cp500 ibm500 ibm-500 ebcdic-cp-be ebcdic-cp-ch"),
		A(CP874, "cp874 windows-874"), A(CP1250, "cp1250 windows-1250"), A(CP1251, "cp1251 windows-1251"), A(CP1252, "cp1252 windows-1252"), A(CP1253, "cp1253 windows-1253"), A(CP1254, "cp1254 windows-1254"),
		A(CP1255, "cp1255 windows-1255"), A(CP1256, "cp1256 windows-1256"), A(CP1257, "cp1257 windows-1257"), A(CP1258, "cp1258 windows-1258"),
		A(ISO8859_1, "latin_1 latin-1 latin1 latin~1 latin l1 iso-8859-1 iso8859-1 iso8859_1 iso88591 8859 88591 cp819"), A(ISO8859_2, "latin_2 latin-2 latin2 latin~2 l2 iso-8859-2 iso8859-2 iso8859_2 iso88592 88592"),
		A(ISO8859_3, "latin_3 latin-3 latin3 latin~3 l3 iso-8859-3 iso8859-3 iso8859_3 iso88593 88593"), A(ISO8859_4, "latin_4 latin-4 latin4 latin~4 l4 iso-8859-4 iso8859-4 iso8859_4 iso88594 88594"),
		A(ISO8859_5, "cyrillic iso-8859-5 iso8859-5 iso8859_5 iso88595 88595"), A(ISO8859_6, "arabic iso-8859-6 iso8859-6 iso8859_6 iso88596 88596"), A(ISO8859_7, "greek iso-8859-7 iso8859-7 iso8859_7 iso88597 88597"),
		A(ISO8859_8, "hebrew iso-8859-8 iso8859-8 iso8859_8 iso88598 88598"), A(ISO8859_9, "latin_5 latin-5 latin5 latin~5 l5 iso-8859-9 iso8859-9 iso8859_9 iso88599 88599"),
		A(ISO8859_10, "latin_6 latin-6 latin6 latin~6 l6 iso-8859-10 iso8859-10 iso8859_10 iso885910 885910"), A(ISO8859_11, "thai iso-8859-11 iso8859-11 iso8859_11 iso885911 885911"),
		A(ISO8859_13, "latin_7 latin-7 latin7 latin~7 l7 iso-8859-13 iso8859-13 iso8859_13 iso885913 885913"), A(ISO8859_14, "latin_8 latin-8 latin8 latin~8 l8 iso-8859-14 iso8859-14 iso8859_14 iso885914 885914"),
		A(ISO8859_15, "latin_9 latin-9 latin9 latin~9 l9 iso-8859-15 iso8859-15 iso8859_15 iso885915 885915"), A(ISO8859_16, "latin_10 latin-10 latin10 latin~10 l10 iso-8859-16 iso8859-16 iso8859_16 iso885916 885916"),
		A(PERCENT_URL, "percent url"), A(PERCENT_FORM, "application/x-www-form-urlencoded x-www-form-urlencoded www-form-urlencoded form-urlencoded percent_plus url_plus percent-plus url-plus percentplus urlplus"),
		A(PERCENT_URLMIN, "percent_min url_min"), A(PERCENT_FORMMIN, "form_min form-urlencoded-min"), A(PUNYCODE, "punycode puny"), A(QUOTED_PRINTABLE, "quoted-printable qp") };
	std::set<S> known;
	for (auto &a : al) {
		S all = a.n; size_t p = 0;
		while (p < all.size()) {
			size_t e = all.find(' ', p); if (e == S::npos) e = all.size();
			S n = all.substr(p, e - p); p = e + 1;
			for (auto &c : n) if (c == '~') c = ' ';
			known.insert(n);
			S m = n; for (auto &c : m) if (c >= 'a' && c <= 'z' && vh_chance(50)) c -= 32;
			VH_CHECK(M_textcodec_codec_from_str(n.c_str()) == a.c && M_textcodec_codec_from_str(m.c_str()) == a.c, "names:alias", "\"%s\"/\"%s\" is not codec %d but %d/%d", n.c_str(), m.c_str(), a.c, M_textcodec_codec_from_str(n.c_str()), M_textcodec_codec_from_str(m.c_str()));
			vh_count("aliases", 1);
		}
		VH_CHECK(M_textcodec_codec_from_str(M_textcodec_codec_to_str(a.c)) == a.c, "names:self", "the name \"%s\" of codec %d is codec %d", M_textcodec_codec_to_str(a.c), a.c, M_textcodec_codec_from_str(M_textcodec_codec_to_str(a.c)));
	}
	for (int i = 0; i < 50; i++) {
		auto it = known.begin(); std::advance(it, (long)vh_rndn(known.size())); S n = *it; size_t k = vh_rndn(n.size());
		switch (vh_rndn(3)) { case 0: n.erase(k, 1); break; case 1: n.insert(k, 1, (char)vh_range(33, 126)); break; default: n[k] = (char)vh_range(33, 126); }
		S l = n; for (auto &c : l) if (c >= 'A' && c <= 'Z') c += 32;
		if (!known.count(l)) { VH_CHECK(M_textcodec_codec_from_str(n.c_str()) == M_TEXTCODEC_UNKNOWN, "names:unknown", "\"%s\" is codec %d", n.c_str(), M_textcodec_codec_from_str(n.c_str())); vh_count("unknown", 1); }
	}
	// unknown codec, bad parameters
	char *o = (char *)1;
	VH_CHECK(M_textcodec_encode(&o, "a\xC3\xA9", M_TEXTCODEC_EHANDLER_FAIL, (M_textcodec_codec_t)999) == M_TEXTCODEC_ERROR_INVALID_PARAM && o == NULL, "param", "unlisted codec");
	VH_CHECK(M_textcodec_decode(&o, NULL, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_ASCII) == M_TEXTCODEC_ERROR_SUCCESS, "param", "NULL text"); M_free(o);
}
const vh_mode_t vh_modes[] = { {"tables", run_tables, setup}, {"text", run_text, setup}, {"percent", run_percent, setup}, {"qp", run_qp, setup}, {"puny", run_puny, setup}, {"names", run_names, setup}, {0} };
