// Binary/text codecs against reference encoders and strict reference decoders, in exact-size buffers.
#include "vh.hpp"
typedef M_bincodec_codec_t C; static const C cod[] = {M_BINCODEC_BASE64, M_BINCODEC_HEX, M_BINCODEC_BASE32}; static const char *cn(C c) { return c == M_BINCODEC_BASE64 ? "base64" : c == M_BINCODEC_HEX ? "hex" : c == M_BINCODEC_BASE32 ? "base32" : "base64orhex"; }
static const char *A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", *A32 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", *A16 = "0123456789ABCDEF";
static S bits(const S &d, int w, const char *al, size_t group) { S o; unsigned acc = 0; int nb = 0; for (unsigned char c : d) { acc = acc << 8 | c; nb += 8; while (nb >= w) { nb -= w; o += al[acc >> nb & ((1u << w) - 1)]; acc &= (1u << nb) - 1; } } if (nb) o += al[acc << (w - nb) & ((1u << w) - 1)]; while (o.size() % group) o += '='; return o; }
static S wrapl(const S &s, size_t w) { if (!w) return s; S o; for (size_t i = 0; i < s.size(); i++) { if (i && i % w == 0) o += '\n'; o += s[i]; } return o; }
static S renc(const S &d, C c, size_t w) { return wrapl(c == M_BINCODEC_BASE64 ? bits(d, 6, A64, 4) : c == M_BINCODEC_BASE32 ? bits(d, 5, A32, 8) : bits(d, 4, A16, 1), w); }
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool rdec(const S &t, C c, S *out) {
	if (c == M_BINCODEC_BASE64ORHEX) { bool hex = t.size() % 2 == 0 && !t.empty(); for (char x : t) hex = hex && isxdigit((unsigned char)x); return rdec(t, hex ? M_BINCODEC_HEX : M_BINCODEC_BASE64, out); }
	int w = c == M_BINCODEC_BASE64 ? 6 : c == M_BINCODEC_BASE32 ? 5 : 4; size_t g = w == 6 ? 4 : w == 5 ? 8 : 2; S k; for (char x : t) if (!ws(x)) k += x; if (k.empty() || k.size() % g) return false;
	size_t pad = 0; while (pad < k.size() && k[k.size() - 1 - pad] == '=') pad++; if (w == 4 && pad) return false; if (w == 6 && pad > 2) return false; if (w == 5 && pad != 0 && pad != 1 && pad != 3 && pad != 4 && pad != 6) return false; out->clear(); unsigned acc = 0; int nb = 0;
	for (size_t i = 0; i + pad < k.size(); i++) { char x = k[i]; const char *al = w == 6 ? A64 : w == 5 ? A32 : A16; if (w != 6) x = (char)toupper((unsigned char)x); const char *p = x ? strchr(al, x) : NULL; if (!p) return false; acc = acc << w | (unsigned)(p - al); nb += w; if (nb >= 8) { nb -= 8; *out += (char)(acc >> nb & 255); acc &= (1u << nb) - 1; } } return true; }
static void checkdec(const S &t, C c, const char *why) {
	S want; bool ok = rdec(t, c, &want); Heap h(t); size_t ol = 77; M_uint8 *d = M_bincodec_decode_alloc(h.p, t.size(), &ol, c);
	VH_CHECK((d != NULL) == (ok && !want.empty()), "codec:decode-accept", "%s %s text '%s' %s", why, cn(c), E(t), d ? "accepted" : "rejected"); VH_CHECK(ol == (d ? want.size() : 0), "codec:decode-len", "%s '%s' gave %zu bytes, want %zu", cn(c), E(t), ol, want.size()); if (d) { VH_CHECK(S((char *)d, ol) == want && d[ol] == 0, "codec:decode", "%s '%s' gave %s", cn(c), E(t), E(S((char *)d, ol))); vh_count("decoded", 1); } else vh_count("refused", 1); M_free(d);
	size_t ds = M_bincodec_decode_size(t.size(), c); VH_CHECK(!ok || ds >= want.size(), "codec:decode-size", "%s: %zu characters predicted %zu bytes, really %zu", cn(c), t.size(), ds, want.size());
	size_t cap = vh_chance(50) ? ds : vh_rndn(ds + 2); Heap o(S(cap, 'Z')); size_t r = M_bincodec_decode((M_uint8 *)o.p, cap, h.p, t.size(), c); if (!ok || cap < want.size()) VH_CHECK(r == 0, "codec:decode-bounded", "%s '%s' into %zu bytes returned %zu", cn(c), E(t), cap, r); else VH_CHECK(r == 0 ? cap < ds : r == want.size() && S(o.p, r) == want, "codec:decode-bounded", "%s '%s' into %zu of predicted %zu bytes returned %zu", cn(c), E(t), cap, ds, r);
	if (t.find('\0') == S::npos) { S z(t); char *sd = M_bincodec_decode_str_alloc(z.c_str(), c); bool nul = want.find('\0') != S::npos; if (sd) VH_CHECK(ok && !nul && want == sd, "codec:decode-str", "%s '%s' gave %s", cn(c), E(t), sd); else if (ok && !want.empty()) { bool plain = true; for (char x : want) plain = plain && x >= 32 && x < 127; VH_CHECK(!plain, "codec:decode-str", "%s '%s' refused", cn(c), E(t)); } M_free(sd); } }
static S data() { return vh_chance(20) ? vh_ascii(1 + vh_rndn(60)) : vh_chance(10) ? vh_bytes(vh_rndn(2000)) : vh_chance(15) ? S(1 + vh_rndn(20), (char)(vh_chance(50) ? 0 : 255)) : vh_bytes(vh_rndn(40)); }
static void ops() {
	S d = data(); C c = cod[vh_rndn(3)]; size_t w = vh_chance(35) ? 0 : vh_chance(80) ? 1 + vh_rndn(20) : vh_chance(50) ? 64 : 76; S want = renc(d, c, w); Heap h(d); char *e = M_bincodec_encode_alloc((const M_uint8 *)h.p, d.size(), w, c); VH_CHECK((e != NULL) == !d.empty(), "codec:encode", "%zu bytes %s", d.size(), cn(c)); if (e) VH_CHECK(want == e, "codec:encode", "%s wrap %zu of %s gave '%s' want '%s'", cn(c), w, E(d), e, want.c_str()); M_free(e);
	size_t es = M_bincodec_encode_size(d.size(), w, c); VH_CHECK(es >= want.size() && es <= want.size() + want.size() / (w ? w : 1) + 2, "codec:encode-size", "%s %zu bytes wrap %zu predicted %zu, really %zu", cn(c), d.size(), w, es, want.size()); size_t cap = vh_chance(50) ? es : vh_chance(50) ? es + vh_rndn(4) : vh_rndn(es + 1); Heap o(S(cap, 'Z')); size_t r = M_bincodec_encode(o.p, cap, (const M_uint8 *)h.p, d.size(), w, c); if (cap >= es) VH_CHECK(r == want.size() && S(o.p, r) == want, "codec:encode-bounded", "%s wrap %zu %zu bytes into %zu: %zu '%s'", cn(c), w, d.size(), cap, r, E(S(o.p, r))); else VH_CHECK(r == 0 || (r == want.size() && S(o.p, r) == want), "codec:encode-bounded", "short buffer %zu of %zu returned %zu", cap, es, r);
	vh_count("encoded", 1); vh_distinct(vh_hstr(d.data(), d.size()) * 31 + w * 4 + (unsigned)c);
	S t = want; checkdec(t, c, "encoded"); if (w == 0 && c != M_BINCODEC_BASE32) checkdec(t, M_BINCODEC_BASE64ORHEX, "encoded"); if (vh_chance(50)) { for (int i = 0, n = 1 + (int)vh_rndn(5); i < n; i++) t.insert(vh_rndn(t.size() + 1), 1, " \t\r\n\v\f"[vh_rndn(6)]); checkdec(t, c, "spaced"); }
	for (int i = 0; i < 3; i++) { S m = want; for (int j = 0, n = 1 + (int)vh_rndn(2); j < n; j++) { size_t p = vh_rndn(m.size() + 1); switch (vh_rndn(6)) { case 0: if (p < m.size()) m[p] = (char)vh_rnd(); break; case 1: if (p < m.size()) m.erase(p, 1); break; case 2: m.insert(p, 1, '='); break; case 3: m.insert(p, 1, (char)vh_rnd()); break; case 4: m.resize(p); break; default: if (p < m.size()) m[p] = "=Aa-_.0189gG/+ "[vh_rndn(15)]; } } checkdec(m, vh_chance(80) ? c : M_BINCODEC_BASE64ORHEX, "mutated"); }
	{ S s = vh_from("A=b \n2f", vh_rndn(14)); checkdec(s, vh_chance(25) ? M_BINCODEC_BASE64ORHEX : c, "small"); } { S s = vh_from("ABCDEFabcdef0123456789", 1 + vh_rndn(12)); checkdec(s, M_BINCODEC_BASE64ORHEX, "hex digits"); }
	C c2 = cod[vh_rndn(3)]; S back; bool ok = rdec(want, c, &back) && !back.empty(); char *cv = M_bincodec_convert_alloc(want.data(), want.size(), w, c, c2); VH_CHECK((cv != NULL) == ok && (!cv || renc(back, c2, w) == cv), "codec:convert", "%s to %s '%s' gave '%s'", cn(c), cn(c2), E(want), cv ? cv : "NULL"); M_free(cv); if (ok) { S w2 = renc(back, c2, w); size_t n2 = M_bincodec_encode_size(back.size(), w, c2); Heap o2(S(n2, 'q')); r = M_bincodec_convert(o2.p, n2, w, c2, want.data(), want.size(), c); VH_CHECK(r == w2.size() && S(o2.p, r) == w2, "codec:convert", "%s to %s bounded gave %zu", cn(c), cn(c2), r); vh_count("converted", 1); }
	VH_CHECK(M_bincodec_encode_alloc((const M_uint8 *)"x", 1, 0, M_BINCODEC_BASE64ORHEX) == NULL, "codec:encode-either", "encoded to an undetermined codec");
}
const vh_mode_t vh_modes[] = {{"ops", ops}, {0}};
