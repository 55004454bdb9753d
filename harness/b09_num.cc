// Text to integer conversion against __int128 arithmetic; length-framed binary values.
#include "vh.hpp"
typedef unsigned __int128 u128;
static bool isp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dig(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
struct Parsed { bool neg = false, inv = false, over = false; uint64_t mag = 0; size_t end = 0; bool lone0x = false; };
static Parsed parse(const S &t, int base) { // t ends at its length or first NUL
	Parsed r; size_t i = 0, n = t.size(); while (i < n && isp(t[i])) i++;
	if (i < n && (t[i] == '-' || t[i] == '+')) r.neg = t[i++] == '-';
	bool px = n - i >= 2 && t[i] == '0' && (t[i + 1] | 32) == 'x';
	if (base == 0) base = px ? 16 : i < n && t[i] == '0' ? 8 : 10;
	if (base == 16 && px) { i += 2; if (i >= n || dig(t[i]) >= 16) r.lone0x = true; }
	size_t st = i; if (base < 2 || base > 36) { r.inv = true; r.end = st; return r; }
	u128 v = 0; for (; i < n && dig(t[i]) < base; i++) { if (!r.over) v = v * (unsigned)base + (unsigned)dig(t[i]); if (v > UINT64_MAX) r.over = true; }
	r.end = i; r.inv = i == st; r.mag = r.over ? UINT64_MAX : (uint64_t)v; return r;
}
static S num_text(int base) {
	static const char *D = "0123456789abcdefghijklmnopqrstuvwxyz"; S s; int b = base >= 2 && base <= 36 ? base : vh_chance(50) ? 10 : 16;
	switch (vh_rndn(6)) {
	case 0: { u128 v = vh_u64(); if (vh_chance(40)) v = v * (vh_rndn(40) + 1) + vh_rndn(3); do { s.insert(s.begin(), D[(int)(v % (unsigned)b)]); v /= (unsigned)b; } while (v); break; }
	case 1: { static const uint64_t L[] = {INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX, INT32_MAX, (uint64_t)INT32_MAX + 1, UINT32_MAX, (uint64_t)UINT32_MAX + 1, 0}; u128 v = (u128)L[vh_rndn(8)] + vh_rndn(5); if (v > 2) v -= vh_rndn(3); do { s.insert(s.begin(), D[(int)(v % (unsigned)b)]); v /= (unsigned)b; } while (v); break; }
	case 2: s = S(1 + vh_rndn(90), D[b - 1]); break;
	case 3: for (size_t k = vh_rndn(30); k > 0; k--) s += D[vh_rndn((uint64_t)b)]; break;
	case 4: s = "1" + S(vh_rndn(70), '0'); break;
	default: for (size_t k = vh_rndn(8); k > 0; k--) s += D[vh_rndn(36)]; }
	if (vh_chance(30)) for (auto &c : s) if (c >= 'a' && vh_chance(50)) c = (char)(c - 32);
	if (vh_chance(20)) s = S(vh_rndn(4), '0') + s;
	if (vh_chance(base == 0 || base == 16 ? 40 : 4)) s = (vh_chance(50) ? "0x" : "0X") + s;
	if (vh_chance(35)) s = (vh_chance(60) ? "-" : "+") + s; if (vh_chance(2)) s = "-" + s;
	if (vh_chance(20)) s = vh_from(" \t\n\r\v\f", vh_rndn(4)) + s;
	if (vh_chance(25)) s += vh_from(" xzg.,-+09\x80\xff@[`{/:", 1 + vh_rndn(3)); if (vh_chance(5)) s += '\0' + S("12");
	return s;
}
static void conv() {
	for (int it = 0; it < 20; it++) {
		int base = vh_chance(50) ? 10 : vh_chance(40) ? 0 : vh_chance(30) ? 16 : vh_chance(90) ? (int)vh_range(2, 36) : (int)vh_rndn(256);
		S s = num_text(base); size_t len = vh_chance(70) ? s.size() : vh_rndn(s.size() + 1); S t = s.substr(0, len); size_t z = t.find('\0'); S t0 = z == S::npos ? t : t.substr(0, z);
		Heap h(t, vh_chance(30)); size_t L = h.n > t.size() && vh_chance(30) ? t.size() + 1 : t.size();
		Parsed p = parse(t0, base); if (p.lone0x) continue; vh_count(p.inv ? "invalid" : p.over ? "overflow" : "fits", 1);
		const char *e = NULL, **ep = vh_chance(90) ? &e : NULL; bool z0 = L == 0; int pick = (int)vh_rndn(4); M_str_int_retval_t rv, w = p.inv ? M_STR_INT_INVALID : p.over ? M_STR_INT_OVERFLOW : M_STR_INT_SUCCESS; S d = vh_fmt("'%s' base %d", E(t), base);
		if (pick == 0) { M_uint64 v = 77; rv = M_str_to_uint64_ex(h.p, L, (unsigned char)base, vh_chance(95) ? &v : NULL, ep); uint64_t x = p.over ? UINT64_MAX : p.neg ? 0 - p.mag : p.mag; VH_CHECK(rv == w, "num:u64-result", "%s: %d want %d", d.c_str(), rv, w); if (!z0 && v != 77) VH_CHECK(v == x, "num:u64", "%s: %" "llu want %llu", d.c_str(), (unsigned long long)v, (unsigned long long)x); }
		else if (pick == 1) { M_int64 v = 77, x; rv = M_str_to_int64_ex(h.p, L, (unsigned char)base, vh_chance(95) ? &v : NULL, ep); bool o = p.over || (p.neg ? p.mag > (uint64_t)INT64_MAX + 1 : p.mag > INT64_MAX); if (o && !p.inv) w = M_STR_INT_OVERFLOW; x = o ? (p.neg ? INT64_MIN : INT64_MAX) : (int64_t)(p.neg ? 0 - p.mag : p.mag); VH_CHECK(rv == w, "num:i64-result", "%s: %d want %d", d.c_str(), rv, w); if (!z0 && v != 77) VH_CHECK(v == x, "num:i64", "%s: %lld want %lld", d.c_str(), (long long)v, (long long)x); }
		else if (pick == 2) { M_uint32 v = 77; rv = M_str_to_uint32_ex(h.p, L, (unsigned char)base, vh_chance(95) ? &v : NULL, ep); uint64_t x = p.over ? UINT64_MAX : p.neg ? 0 - p.mag : p.mag; if (x > UINT32_MAX) { if (!p.inv) w = M_STR_INT_OVERFLOW; x = UINT32_MAX; } VH_CHECK(rv == w, "num:u32-result", "%s: %d want %d", d.c_str(), rv, w); if (!z0 && v != 77) VH_CHECK(v == x, "num:u32", "%s: %u want %llu", d.c_str(), v, (unsigned long long)x); }
		else { M_int32 v = 77; rv = M_str_to_int32_ex(h.p, L, (unsigned char)base, vh_chance(95) ? &v : NULL, ep); __int128 m = p.neg ? -(__int128)p.mag : (__int128)p.mag; if (p.over) m = p.neg ? INT64_MIN : INT64_MAX; int64_t x = m > INT32_MAX ? INT32_MAX : m < INT32_MIN ? INT32_MIN : (int64_t)m; if (x != m && !p.inv) w = M_STR_INT_OVERFLOW; VH_CHECK(rv == w, "num:i32-result", "%s: %d want %d", d.c_str(), rv, w); if (!z0 && v != 77) VH_CHECK(v == x, "num:i32", "%s: %d want %lld", d.c_str(), v, (long long)x); }
		if (ep && !z0) VH_CHECK(e == h.p + p.end, "num:endptr", "%s: end %td want %zu", d.c_str(), e - h.p, p.end);
		if (base == 10 && z == S::npos) { // plain forms: saturating, 0 if there is no number
			Heap c(t, true); Parsed q = parse(t, 10); __int128 m = q.inv ? 0 : q.neg ? -(__int128)q.mag : (__int128)q.mag;
			VH_CHECK(M_str_to_int64(c.p) == (m > INT64_MAX ? INT64_MAX : m < INT64_MIN ? INT64_MIN : (int64_t)m), "num:to_int64", "'%s'", E(t));
			VH_CHECK(M_str_to_int32(c.p) == (m > INT32_MAX ? INT32_MAX : m < INT32_MIN ? INT32_MIN : (int32_t)m), "num:to_int32", "'%s'", E(t));
			VH_CHECK(M_str_to_uint64(c.p) == (q.inv ? 0 : q.over ? UINT64_MAX : q.neg ? 0 - q.mag : q.mag), "num:to_uint64", "'%s'", E(t));
			uint64_t u = q.inv ? 0 : q.over ? UINT64_MAX : q.neg ? 0 - q.mag : q.mag; VH_CHECK(M_str_to_uint32(c.p) == (u > UINT32_MAX ? UINT32_MAX : (uint32_t)u), "num:to_uint32", "'%s'", E(t)); vh_count("plain", 1);
		}
		vh_distinct(vh_hash(t.data(), t.size(), (uint64_t)base + 256u * (unsigned)pick));
	}
	// implied decimals
	int im = (int)vh_rndn(6); S ip = vh_from("0123456789", vh_rndn(9)), fp = vh_from("0123456789", vh_rndn(8)); bool dot = vh_chance(70), neg = vh_chance(30); S t = S(vh_rndn(2), ' ') + (neg ? "-" : vh_chance(20) ? "+" : "") + ip + (dot ? "." + fp : "") + (vh_chance(20) ? "x7" : "");
	int64_t v = 0; for (char c : ip) v = v * 10 + (c - '0'); S f = dot ? fp : ""; for (int i = 0; i < im; i++) v = v * 10 + (i < (int)f.size() ? f[(size_t)i] - '0' : 0); if ((int)f.size() > im && f[(size_t)im] >= '5') v++; if (neg) v = -v; Heap h(t, true);
	VH_CHECK(M_atofi_prec(h.p, im) == v, "num:atofi_prec", "'%s' %d: %lld want %lld", E(t), im, (long long)M_atofi_prec(h.p, im), (long long)v); if (im == 2) VH_CHECK(M_atofi100(h.p) == (long)v, "num:atofi100", "'%s'", E(t));
	// length framed binary
	S b = vh_bytes(vh_len()); Heap hb(b); M_uint8 *w = M_bin_wrap((M_uint8 *)hb.p, b.size()); if (b.empty()) VH_CHECK(w == NULL, "bin:wrap", "empty"); else {
		size_t n = 0; const M_uint8 *u = M_bin_unwrap(w, &n); VH_CHECK(n == b.size() && memcmp(u, b.data(), n) == 0, "bin:unwrap", "%zu", b.size()); M_uint8 *d = vh_chance(50) ? M_bin_wrapeddup(w) : (M_uint8 *)M_bin_wrapeddup_vp(w); M_free(w); n = 0; M_uint8 *x = M_bin_unwrapdup(d, &n); M_free(d); VH_CHECK(n == b.size() && memcmp(x, b.data(), n) == 0, "bin:dup", "%zu", b.size()); M_free(x); vh_count("bin", 1); }
}
const vh_mode_t vh_modes[] = {{"conv", conv}, {0}};
