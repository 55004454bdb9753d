// Decimal operations: inputs and results are logged, tools in checks/specs/B11.py judge them with exact rational arithmetic.
#include "vh.hpp"
static S D(const M_decimal_t &d) { return vh_fmt("%lld %u", (long long)d.num, d.num_dec); }
static int64_t num() { int64_t v = vh_chance(30) ? vh_range(-1000, 1000) : vh_i64(); if (vh_chance(25)) { int64_t p = 1; for (int k = (int)vh_rndn(19); k > 0; k--) p *= 10; v = (v % 100000) * (p / 100000 + 1); } if (vh_chance(3)) v = INT64_MIN; return v; }
static M_decimal_t dec() { M_decimal_t d; M_uint8 nd = (M_uint8)(vh_chance(80) ? vh_rndn(8) : vh_chance(70) ? vh_rndn(22) : vh_rndn(256)); if (vh_chance(50)) M_decimal_from_int(&d, num(), nd); else { d.num = num(); d.num_dec = nd; } return d; }
static void ops() {
	for (int i = 0; i < 12; i++) {
		M_decimal_t a = dec(), b = dec(), r; if (vh_chance(15)) { b = a; if (vh_chance(60)) b.num += vh_range(-1, 1) * (b.num < INT64_MAX && b.num > INT64_MIN); if (vh_chance(50) && b.num < INT64_MAX / 10 && b.num > INT64_MIN / 10 && b.num_dec < 255) { b.num *= 10; b.num_dec++; } }
		int op = (int)vh_rndn(7); M_decimal_round_t rm = (M_decimal_round_t)vh_rndn(3); S as = D(a), bs = D(b); enum M_DECIMAL_RETVAL rv = M_DECIMAL_SUCCESS; bool al = vh_chance(15), al2 = !al && vh_chance(15); r = al ? a : b; M_decimal_t *pa = al ? &r : &a, *pb = al2 ? &r : &b; if (!al) r = b; S rs = "-";
		switch (op) {
			case 0: rv = M_decimal_add(&r, pa, pb); break; case 1: rv = M_decimal_subtract(&r, pa, pb); break; case 2: rv = M_decimal_multiply(&r, pa, pb); break; case 3: rv = M_decimal_divide(&r, pa, pb, rm); break;
			case 4: { M_uint8 n = (M_uint8)(vh_chance(85) ? vh_rndn(20) : vh_rndn(256)); bs = vh_fmt("%u 0", n); r = a; rv = M_decimal_transform(&r, n, rm); break; }
			case 5: { int c = M_decimal_cmp(&a, &b); vh_log("cmp 0 %s %s 0 %d 0", as.c_str(), bs.c_str(), c); int c2 = M_decimal_cmp(&b, &a); VH_CHECK(c2 == -c, "dec:cmp-antisym", "%s | %s: %d and %d", as.c_str(), bs.c_str(), c, c2); break; }
			default: { M_uint8 n = (M_uint8)vh_rndn(20); r.num = M_decimal_to_int(&a, n); r.num_dec = n; bs = vh_fmt("%u 0", n); break; }
		}
		static const char *nm[] = {"add", "sub", "mul", "div", "trn", "cmp", "toi"}; if (op != 5) vh_log("%s %d %s %s %d %s", nm[op], (int)rm, as.c_str(), bs.c_str(), (int)rv, D(r).c_str());
		vh_count(nm[op], 1); vh_distinct(vh_hstr((as + bs).c_str(), (uint64_t)op));
	}
}
static void text() {
	for (int i = 0; i < 6; i++) { // print, exact-size buffers
		M_decimal_t a = dec(); char big[400]; memset(big, 'z', sizeof big); enum M_DECIMAL_RETVAL rv = M_decimal_to_str(&a, big, sizeof big); VH_CHECK(rv == M_DECIMAL_SUCCESS, "dec:print", "%s rv %d", D(a).c_str(), rv); S s = big; vh_log("str 0 %s 0 0 %s", D(a).c_str(), s.c_str());
		size_t n = s.size() + 1 + (size_t)vh_rndn(3) - 1; if (n < 1) n = 1; Heap h(S(n, 'q')); rv = M_decimal_to_str(&a, h.p, n); VH_CHECK((rv == M_DECIMAL_SUCCESS) == (n >= s.size() + 1 && n >= 2), "dec:print-size", "%s in %zu: %d", s.c_str(), n, rv); if (rv == M_DECIMAL_SUCCESS) VH_CHECK(s == h.p, "dec:print-size", "%s got %s", s.c_str(), h.p);
		M_decimal_t b; const char *e = NULL; Heap t(s); rv = M_decimal_from_str(t.p, t.n, &b, &e); M_decimal_t red = a; M_decimal_reduce(&red); VH_CHECK(rv == M_DECIMAL_SUCCESS && M_decimal_cmp(&a, &b) == 0 && b.num == red.num && b.num_dec == red.num_dec && e == t.p + t.n, "dec:roundtrip", "%s printed '%s' read back %s rv %d", D(a).c_str(), s.c_str(), D(b).c_str(), rv);
		vh_count("roundtrips", 1);
	}
	for (int i = 0; i < 6; i++) { // parse
		S s; if (vh_chance(8)) s += vh_from(" \t", 1 + vh_rndn(2)); if (vh_chance(35)) s += vh_chance(80) ? '-' : '+'; s += vh_chance(70) ? vh_from("0123456789", 1 + vh_rndn(6)) : vh_chance(50) ? "0" : vh_from("0123456789", 1 + vh_rndn(21)); if (vh_chance(10)) { s = vh_chance(50) ? "9223372036854775807" : "-9223372036854775808"; }
		if (vh_chance(4)) s = ""; if (vh_chance(75)) { s += '.'; s += vh_chance(70) ? vh_from("0123456789", 1 + vh_rndn(8)) : vh_chance(60) ? vh_from("0123456789", 1 + vh_rndn(30)) : S(vh_rndn(300), '0') + vh_from("0123456789", 1 + vh_rndn(3)); }
		if (vh_chance(30)) s += S(vh_chance(50) ? "e" : "E") + (vh_chance(50) ? "-" : vh_chance(30) ? "+" : "") + vh_fmt("%d", vh_chance(70) ? (int)vh_rndn(12) : (int)vh_rndn(300)); if (s.empty()) s = "7";
		size_t n = vh_chance(85) ? s.size() : 1 + vh_rndn(s.size()); bool sub = n != s.size(); S tail = vh_chance(20) ? S(1, " ,ex.-+"[vh_rndn(7)]) : ""; if (!sub) { s += tail; n = s.size(); }
		Heap t(s.substr(0, n)); Heap full(s, true); M_decimal_t v, v2; const char *e = NULL, *e2 = NULL; memset(&v, 0, sizeof v); memset(&v2, 0, sizeof v2); int rv = M_decimal_from_str(t.p, n, &v, &e), rv2 = M_decimal_from_str(full.p, n, &v2, &e2);
		VH_CHECK(rv == rv2 && (rv == M_DECIMAL_OVERFLOW || rv == M_DECIMAL_INVALID || (v.num == v2.num && v.num_dec == v2.num_dec && (e ? e - t.p : -1) == (e2 ? e2 - full.p : -1))), "dec:parse-len", "'%s' of length %zu inside a longer text: rv %d/%d", E(s), n, rv, rv2);
		vh_log("prs %d %s %d %s %lld", 0, vh_hexs(t.p, n), rv, D(v).c_str(), (long long)(e ? e - t.p : -1)); vh_count("parsed", 1); vh_distinct(vh_hstr(s.c_str(), n));
	}
}
const vh_mode_t vh_modes[] = {{"ops", ops}, {"text", text}, {0}};
