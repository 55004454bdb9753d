// Sorting, searching, integer helpers and random numbers against their definitions.
#include "vh.hpp"
#include <math.h>
struct Cmp { size_t keyoff, keylen; int sign; uint64_t calls; const unsigned char *lo, *hi, *key; };
static int cmpf(const void *a, const void *b, void *t) { Cmp *c = (Cmp *)t; c->calls++; const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
	int r = memcmp(x + c->keyoff, y + c->keyoff, c->keylen); r = r < 0 ? -1 : r > 0; return c->sign * r * (int)(1 + c->calls % 3); }
static S gen(size_t n, size_t es, size_t ko, size_t kl) { // few distinct keys, patterns
	S a = vh_bytes(n * es); int pat = (int)vh_rndn(6); int dist = (int)(vh_chance(50) ? 1 + vh_rndn(4) : 256);
	for (size_t i = 0; i < n; i++) for (size_t k = 0; k < kl; k++) { unsigned v; switch (pat) { case 0: v = (unsigned)i; break; case 1: v = (unsigned)(n - i); break; case 2: v = 7; break; case 3: v = (unsigned)(i < n / 2 ? i : n - i); break; default: v = (unsigned)vh_rndn((uint64_t)dist); } a[i * es + ko + k] = (char)(k + 1 == kl ? v : pat < 4 ? (v >> 8) : vh_rndn((uint64_t)dist)); }
	return a;
}
static void sorts() {
	size_t n = vh_chance(40) ? vh_rndn(10) : vh_chance(70) ? vh_rndn(120) : vh_rndn(3000), es = vh_chance(40) ? 8 : vh_chance(30) ? 8 * (1 + vh_rndn(4)) : 1 + vh_rndn(40), kl = 1 + vh_rndn(std::min<size_t>(es, 2)), ko = vh_rndn(es - kl + 1); S a = gen(n, es, ko, kl); bool merge = vh_chance(50); Cmp c = {ko, kl, vh_chance(50) ? 1 : -1, 0, 0, 0, 0};
	size_t mis = vh_chance(20) ? 1 + vh_rndn(7) : 0; Heap h(S(mis, 'M') + a); unsigned char *p = (unsigned char *)h.p + mis; std::vector<S> want; for (size_t i = 0; i < n; i++) want.push_back(a.substr(i * es, es));
	auto less = [&](const S &x, const S &y) { return c.sign * memcmp(x.data() + ko, y.data() + ko, kl) < 0; }; std::stable_sort(want.begin(), want.end(), less);
	if (merge) M_sort_mergesort(p, n, es, cmpf, &c); else M_sort_qsort(p, n, es, cmpf, &c);
	vh_count("sorts", 1); vh_count("elements", n); vh_count(merge ? "stable_sorts" : "unstable_sorts", 1); if (n) vh_distinct(vh_hash(a.data(), a.size(), es));
	std::vector<S> got; for (size_t i = 0; i < n; i++) got.push_back(S((char *)p + i * es, es));
	if (merge) { for (size_t i = 0; i < n; i++) VH_CHECK(got[i] == want[i], "sort:stable", "n %zu esize %zu key %zu+%zu: element %zu is %s want %s", n, es, ko, kl, i, E(got[i]), E(want[i])); }
	else { for (size_t i = 1; i < n; i++) VH_CHECK(!less(got[i], got[i - 1]), "sort:order", "n %zu esize %zu: element %zu out of order", n, es, i); std::vector<S> g2 = got, w2 = want; std::sort(g2.begin(), g2.end()); std::sort(w2.begin(), w2.end()); VH_CHECK(g2 == w2, "sort:permutation", "n %zu esize %zu: elements were lost or duplicated", n, es); }
	VH_CHECK(S((char *)h.p, mis) == S(mis, 'M'), "sort:before", "bytes before the array changed");
	// searching the sorted array
	for (int k = 0; k < 6; k++) {
		S key = vh_bytes(es); if (n && vh_chance(70)) { key = vh_bytes(es); memcpy(&key[ko], got[vh_rndn(n)].data() + ko, kl); } else if (vh_chance(50)) key[ko + kl - 1] = (char)vh_rndn(5);
		size_t lo = 0, hi; while (lo < n && less(got[lo], key)) lo++; hi = lo; while (hi < n && !less(key, got[hi])) hi++; bool st = vh_chance(50); size_t idx = 77777; Heap hk(key);
		M_bool f = M_sort_binary_search(p, n, es, hk.p, MB(st), cmpf, &c, &idx); VH_CHECK((f != 0) == (hi > lo), "search:found", "n %zu: found %d want %d", n, f, hi > lo); if (f) { VH_CHECK(idx >= lo && idx < hi, "search:index", "n %zu: index %zu not in [%zu,%zu)", n, idx, lo, hi); if (st) VH_CHECK(idx == lo, "search:stable", "n %zu: index %zu is not the first match %zu", n, idx, lo); }
		size_t ii = M_sort_binary_insert_idx(p, n, es, hk.p, MB(st), cmpf, &c); VH_CHECK(ii >= lo && ii <= hi, "search:insert", "n %zu: insert index %zu not in [%zu,%zu]", n, ii, lo, hi); if (st) VH_CHECK(ii == hi, "search:insert-stable", "n %zu: stable insert index %zu want %zu", n, ii, hi);
		if (n && !st && hi == n && hi > lo) VH_CHECK(ii == n, "search:insert-end", "n %zu: key equal to the last element inserts at %zu", n, ii); vh_count("searches", 2);
	}
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static void compars() {
	for (int i = 0; i < 20; i++) {
		S a = vh_from("abAB\xe9z", vh_rndn(5)), b = vh_chance(30) ? a : vh_from("abAB\xe9z", vh_rndn(5)); const char *pa = a.c_str(), *pb = b.c_str(); auto lc = [](S s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; };
		int w = sgn(strcmp(pa, pb)), wc = sgn(strcmp(lc(a).c_str(), lc(b).c_str()));
		VH_CHECK(sgn(M_sort_compar_str(&pa, &pb, NULL)) == w && sgn(M_sort_compar_str_desc(&pa, &pb, NULL)) == -w, "compar:str", "'%s' '%s'", E(a), E(b)); VH_CHECK(sgn(M_sort_compar_str_casecmp(&pa, &pb, NULL)) == wc && sgn(M_sort_compar_str_casecmp_desc(&pa, &pb, NULL)) == -wc, "compar:strcase", "'%s' '%s'", E(a), E(b));
		M_uint64 x = vh_u64(), y = vh_chance(30) ? x : vh_u64(); M_uint64 *px = &x, *py = &y; int wu = (x > y) - (x < y); VH_CHECK(M_sort_compar_u64(&px, &py, NULL) == wu && M_sort_compar_u64_desc(&px, &py, NULL) == -wu, "compar:u64", "%llu %llu", (unsigned long long)x, (unsigned long long)y);
		void *vx = (void *)(uintptr_t)x, *vy = (void *)(uintptr_t)y; VH_CHECK(M_sort_compar_vp(&vx, &vy, NULL) == wu && M_sort_compar_vp_desc(&vx, &vy, NULL) == -wu, "compar:vp", "%p %p", vx, vy);
		M_uint8 *ba = M_bin_wrap((const M_uint8 *)a.data(), a.size()), *bb = M_bin_wrap((const M_uint8 *)b.data(), b.size()); int wb = a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : sgn(memcmp(a.data(), b.data(), a.size())); if (ba && bb) VH_CHECK(sgn(M_sort_compar_binwraped(&ba, &bb, NULL)) == wb, "compar:bin", "'%s' '%s'", E(a), E(b)); M_free(ba); M_free(bb); vh_count("compars", 1);
	}
}
static void ints() {
	for (int i = 0; i < 40; i++) {
		M_uint64 n = vh_u64(); M_uint32 m = (M_uint32)n; auto pop = [](uint64_t v) { return __builtin_popcountll(v); };
		VH_CHECK((M_uint64_is_power_of_two(n) != 0) == (pop(n) == 1) && (M_uint32_is_power_of_two(m) != 0) == (pop(m) == 1) && (M_size_t_is_power_of_two(n) != 0) == (pop(n) == 1), "int:pow2", "%llx", (unsigned long long)n);
		if (n) { int l = 63 - __builtin_clzll(n); VH_CHECK(M_uint64_log2(n) == l, "int:log2-64", "%llx: %d", (unsigned long long)n, M_uint64_log2(n)); VH_CHECK(M_uint64_round_down_to_power_of_two(n) == 1ULL << l && M_size_t_round_down_to_power_of_two(n) == 1ULL << l, "int:down", "%llx", (unsigned long long)n); if (n <= 1ULL << 63) VH_CHECK(M_uint64_round_up_to_power_of_two(n) == (pop(n) == 1 ? n : 1ULL << (l + 1)) && M_size_t_round_up_to_power_of_two(n) == M_uint64_round_up_to_power_of_two(n), "int:up", "%llx", (unsigned long long)n); }
		if (m) { int l = 31 - __builtin_clz(m); VH_CHECK(M_uint32_log2(m) == l, "int:log2-32", "%x: %d", m, M_uint32_log2(m)); VH_CHECK(M_uint32_round_down_to_power_of_two(m) == 1U << l, "int:down32", "%x", m); if (m <= 1U << 31) VH_CHECK(M_uint32_round_up_to_power_of_two(m) == (pop(m) == 1 ? m : 1U << (l + 1)), "int:up32", "%x", m); }
		VH_CHECK(M_uint64_popcount(n) == pop(n) && M_uint8_popcount((M_uint8)n) == pop(n & 255), "int:popcount", "%llx", (unsigned long long)n); VH_CHECK(M_uint64_count_digits(n) == (int)vh_fmt("%llu", (unsigned long long)n).size(), "int:digits", "%llu", (unsigned long long)n);
		size_t bits = 1 + vh_rndn(64); uint64_t v = bits == 64 ? n : n & ((1ULL << bits) - 1); int64_t w = (int64_t)(v << (64 - bits)) >> (64 - bits); VH_CHECK(M_sign_extend(v, bits) == w, "int:signext", "%llx %zu", (unsigned long long)v, bits);
		M_uint64 mul = vh_chance(50) ? 1 + vh_rndn(1000) : 1 + (vh_u64() >> 20); n >>= vh_rndn(40); if (n < UINT64_MAX - mul) { unsigned __int128 want = n == 0 ? mul : ((unsigned __int128)n + mul - 1) / mul * mul; if (want <= UINT64_MAX && n) VH_CHECK(M_uint64_round_up_to_nearest_multiple(n, mul) == (uint64_t)want, "int:multiple", "%llu %llu", (unsigned long long)n, (unsigned long long)mul); }
		int e = (int)vh_rndn(20); uint64_t base = vh_rndn(9), pw = 1; for (int k = 0; k < e; k++) pw *= base; VH_CHECK(M_uint64_exp(base, e) == pw, "int:exp", "%llu^%d", (unsigned long long)base, e);
		int cd = (int)vh_rndn(19), wd = (int)vh_rndn((uint64_t)cd + 1); uint64_t dv = 1; for (int k = wd; k < cd; k++) dv *= 10; uint64_t pr = n / dv + ((unsigned __int128)(n % dv) * 2 >= dv && dv > 1 ? 1 : 0); VH_CHECK(M_uint64_prec_round(n, cd, wd) == pr, "int:prec_round", "%llu %d->%d: %llu want %llu", (unsigned long long)n, cd, wd, (unsigned long long)M_uint64_prec_round(n, cd, wd), (unsigned long long)pr);
		double d; switch (vh_rndn(4)) { case 0: { uint64_t r = vh_rnd(); memcpy(&d, &r, 8); break; } case 1: d = (double)vh_range(-2000, 2000) / 4; break; case 2: d = nextafter((double)vh_range(-20, 20) + 0.5, vh_chance(50) ? 1e9 : -1e9); break; default: d = (double)vh_i64() / (double)(1ULL << vh_rndn(63)); }
		double ip, ip2, f = M_math_modf(d, &ip), f2 = modf(d, &ip2); auto same = [](double x, double y) { return (x != x && y != y) || (x == y && signbit(x) == signbit(y)); }; VH_CHECK(same(ip, ip2) && (same(f, f2) || d != d), "float:modf", "%a: %a %a want %a %a", d, f, ip, f2, ip2); VH_CHECK(same(M_math_round(d), round(d)), "float:round", "%a: %a want %a", d, M_math_round(d), round(d));
		VH_CHECK(M_swap16((M_uint16)n) == __builtin_bswap16((uint16_t)n) && M_swap32((M_uint32)n) == __builtin_bswap32((uint32_t)n) && M_swap64(n) == __builtin_bswap64(n), "int:swap", "%llx", (unsigned long long)n); VH_CHECK(M_hton16((M_uint16)n) == __builtin_bswap16((uint16_t)n) && M_ntoh32((M_uint32)n) == __builtin_bswap32((uint32_t)n) && M_hton64(n) == __builtin_bswap64(n) && M_htol64(n) == n && M_ltoh32((M_uint32)n) == (M_uint32)n && M_hton32((M_uint32)n) == __builtin_bswap32((uint32_t)n) && M_ntoh64(n) == __builtin_bswap64(n) && M_ntoh16((M_uint16)n) == __builtin_bswap16((uint16_t)n) && M_htol16((M_uint16)n) == (M_uint16)n && M_ltoh16((M_uint16)n) == (M_uint16)n && M_htol32((M_uint32)n) == (M_uint32)n && M_ltoh64(n) == n, "int:endian", "%llx", (unsigned long long)n);
		vh_count("ints", 1); vh_distinct(vh_hu(n, 3));
	}
}
static void rnd() {
	M_uint64 seed = vh_rnd() | 1; M_rand_t *a = M_rand_create(seed), *b = M_rand_create(seed); for (int i = 0; i < 20; i++) VH_CHECK(M_rand(a) == M_rand(b), "rand:repeat", "seed %llu", (unsigned long long)seed);
	M_rand_t *c = M_rand_duplicate(a); M_rand_jump(a); M_rand_jump(b); std::set<uint64_t> sa; for (int i = 0; i < 30; i++) { uint64_t x = M_rand(a); VH_CHECK(x == M_rand(b), "rand:jump-repeat", "seed %llu", (unsigned long long)seed); sa.insert(x); } int common = 0; for (int i = 0; i < 30; i++) common += sa.count(M_rand(c)) != 0; VH_CHECK(common < 3 && sa.size() > 27, "rand:overlap", "%d equal values", common);
	for (int k = 0; k < 6; k++) {
		uint64_t lo = vh_chance(50) ? 0 : vh_u64(), w = vh_chance(60) ? 1 + vh_rndn(20) : vh_u64(); if (w == 0) w = 1; if (lo > UINT64_MAX - w) lo = UINT64_MAX - w; uint64_t hi = lo + w; std::set<uint64_t> seen; int draws = w <= 20 ? (int)w * 40 : 30, above = 0; M_rand_t *s = vh_chance(95) ? a : NULL; if (!s) draws = 30;
		for (int i = 0; i < draws; i++) { uint64_t v = lo == 0 && vh_chance(50) ? M_rand_max(s, hi) : M_rand_range(s, lo, hi); VH_CHECK(v >= lo && v < hi, "rand:range", "%llu not in [%llu,%llu)", (unsigned long long)v, (unsigned long long)lo, (unsigned long long)hi); seen.insert(v - lo); above += v - lo >= w / 2; } vh_count("draws", (uint64_t)draws);
		if (w <= 20 && s) VH_CHECK(seen.size() == w, "rand:reach", "[%llu,%llu): only %zu of %llu values in %d draws", (unsigned long long)lo, (unsigned long long)hi, seen.size(), (unsigned long long)w, draws); else if (s && w > 1000) VH_CHECK(above > 0 && above < draws, "rand:halves", "width %llu: %d of %d draws in the upper half", (unsigned long long)w, above, draws);
		VH_CHECK(M_rand_range(a, hi, hi) == hi && M_rand_range(a, hi, lo) == 0, "rand:empty", "empty range");
	}
	S cs = vh_ascii(1 + vh_rndn(10)); size_t n = 1 + vh_rndn(400); Heap h(S(n + 1, 'Q')); VH_CHECK(M_rand_str(a, cs.c_str(), h.p, n), "rand:str", "failed"); VH_CHECK(strlen(h.p) == n && strspn(h.p, cs.c_str()) == n, "rand:str", "charset '%s' gave '%s'", E(cs), E(S(h.p))); if (n > 300) for (char ch : cs) VH_CHECK(strchr(h.p, ch), "rand:str-reach", "'%c' of '%s' never used in %zu", ch, E(cs), n);
	M_rand_destroy(a); M_rand_destroy(b); M_rand_destroy(c); vh_count("seeds", 1); vh_distinct(vh_hu(seed, 5));
}
const vh_mode_t vh_modes[] = {{"sorts", sorts}, {"compars", compars}, {"ints", ints}, {"rnd", rnd}, {0}};
