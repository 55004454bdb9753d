// Allocator and memory helpers against a byte model; see wipe.cc for the release monitor.
#include "vh.hpp"
extern int wipe_fail_next; void wipe_flush(void);
struct Blk { unsigned char *p; S m; std::vector<bool> def; };
static void verify(const Blk &b, const char *op) { for (size_t i = 0; i < b.m.size(); i++) if (b.def[i]) VH_CHECK(b.p[i] == (unsigned char)b.m[i], "mem:content", "after %s byte %zu of %zu is %02x want %02x", op, i, b.m.size(), b.p[i], (unsigned char)b.m[i]); }
static void alloc() {
	std::vector<Blk> v; int n = 20 + (int)vh_rndn(60);
	for (int i = 0; i < n; i++) {
		int op = (int)vh_rndn(10); size_t sz = vh_chance(10) ? 0 : vh_chance(80) ? 1 + vh_rndn(100) : 1 + vh_rndn(20000); Blk b; b.p = NULL; const char *on = "?"; vh_count("ops", 1);
		auto fill = [&](Blk &x) { for (size_t k = 0; k < x.m.size(); k++) { x.m[k] = (char)(1 + vh_rndn(254)); x.p[k] = (unsigned char)x.m[k]; x.def[k] = true; } };
		auto chk = [&](void *p, const char *o) { VH_CHECK((p != NULL) == (sz != 0), "mem:zero-size", "%s(%zu) returned %p", o, sz, p); VH_CHECK(((uintptr_t)p & 15) == 0, "mem:alignment", "%s(%zu) returned %p", o, sz, p); };
		if (op == 0 || v.empty()) { b.p = (unsigned char *)M_malloc(sz); chk(b.p, "M_malloc"); b.m = S(sz, 0); b.def.assign(sz, false); if (b.p) { fill(b); v.push_back(b); } }
		else if (op == 1) { b.p = (unsigned char *)M_malloc_zero(sz); chk(b.p, "M_malloc_zero"); b.m = S(sz, 0); b.def.assign(sz, true); if (b.p) { verify(b, "M_malloc_zero"); if (vh_chance(70)) fill(b); v.push_back(b); } }
		else if (op == 2) { S s = vh_cbytes(sz); Heap h(s); b.p = (unsigned char *)M_memdup(h.p, sz); chk(b.p, "M_memdup"); b.m = s; b.def.assign(sz, true); if (b.p) { verify(b, "M_memdup"); v.push_back(b); } }
		else if (op == 3) { size_t mn = vh_rndn(200); S s = vh_cbytes(sz); Heap h(s); size_t want = std::max(sz, mn); b.p = (unsigned char *)M_memdup_max(h.p, sz, mn); VH_CHECK((b.p != NULL) == (want != 0), "mem:memdup_max", "(%zu,%zu)", sz, mn); b.m = s + S(want - sz, 0); b.def.assign(want, false); for (size_t k = 0; k < sz; k++) b.def[k] = true; if (b.p) { verify(b, "M_memdup_max"); if (vh_chance(50)) fill(b); v.push_back(b); } }
		else { size_t k = vh_rndn(v.size()); Blk &x = v[k]; if (op < 8) { bool z = vh_chance(50); on = z ? "M_realloc_zero" : "M_realloc"; if (vh_chance(30)) sz = x.m.size() + vh_rndn(20); if (vh_chance(10)) sz = x.m.size(); size_t o = x.m.size(); void *q = z ? M_realloc_zero(x.p, sz) : M_realloc(x.p, sz); chk(q, on); x.p = (unsigned char *)q; x.m.resize(sz, 0); x.def.resize(sz, z); if (q) { verify(x, on); if (vh_chance(50)) fill(x); } else v.erase(v.begin() + (long)k); vh_count(sz > o ? "grown" : sz < o ? "shrunk" : "kept", 1); } else { verify(x, "other operations"); M_free(x.p); v.erase(v.begin() + (long)k); vh_count("freed", 1); } }
	}
	for (auto &b : v) { verify(b, "all"); M_free(b.p); } M_free(NULL); VH_CHECK(M_malloc(SIZE_MAX) == NULL && M_malloc(SIZE_MAX - 8) == NULL, "mem:huge", "allocation of SIZE_MAX succeeded"); void *rn = M_realloc(NULL, 7); VH_CHECK(rn, "mem:realloc-null", "NULL"); M_free(rn); vh_distinct(vh_rnd()); wipe_flush();
}
static std::vector<int> calls; static int okcb; template <int N> static M_bool cb() { calls.push_back(N); return MB(N == okcb); }
static void errors() {
	static M_malloc_error_cb all[] = {cb<0>, cb<1>, cb<2>, cb<3>, cb<4>, cb<5>, cb<6>, cb<7>, cb<8>, cb<9>, cb<10>, cb<11>, cb<12>, cb<13>}; std::vector<int> reg; M_malloc_clear_errorcb();
	for (int i = 0; i < 30; i++) { int op = (int)vh_rndn(10), k = (int)vh_rndn(14); bool have = std::find(reg.begin(), reg.end(), k) != reg.end();
		if (op < 5) { if (have) continue; M_bool r = M_malloc_register_errorcb(all[k]); VH_CHECK((r != 0) == (reg.size() < 12), "mem:errcb-register", "with %zu registered: %d", reg.size(), r); if (r) reg.push_back(k); }
		else if (op < 8) { M_bool r = M_malloc_deregister_errorcb(all[k]); VH_CHECK((r != 0) == have, "mem:errcb-deregister", "callback %d known %d: %d", k, have, r); if (have) reg.erase(std::find(reg.begin(), reg.end(), k)); }
		else if (op == 8 && vh_chance(40)) { M_malloc_clear_errorcb(); reg.clear(); }
		else if (!reg.empty()) { calls.clear(); size_t j = vh_rndn(reg.size()); okcb = reg[j]; wipe_fail_next = 1; void *p = M_malloc(50); VH_CHECK(p, "mem:errcb-retry", "allocation was not retried"); M_free(p); std::vector<int> want; for (size_t q = reg.size(); q-- > j;) want.push_back(reg[q]); VH_CHECK(calls == want, "mem:errcb-order", "%zu callbacks ran, want %zu (newest first until one succeeds)", calls.size(), want.size()); vh_count("alloc_failures", 1); } }
	M_malloc_clear_errorcb(); vh_count("errcb_histories", 1); VH_CHECK(!M_malloc_register_errorcb(NULL) && !M_malloc_deregister_errorcb(NULL) && !M_malloc_deregister_errorcb(cb<3>), "mem:errcb-null", "accepted"); wipe_flush();
}
static void helpers() {
	for (int i = 0; i < 20; i++) {
		S h = vh_chance(80) ? vh_from("ab\0c", 0) : S(); size_t n = vh_len() % 200; for (size_t k = 0; k < n; k++) h += "aab\0"[vh_rndn(4)]; S nd; for (size_t k = vh_rndn(5); k > 0; k--) nd += "aab\0"[vh_rndn(4)]; if (vh_chance(30) && n > 3) { size_t a = vh_rndn(n); nd = h.substr(a, 1 + vh_rndn(n - a)); } Heap H(h), N(nd);
		size_t f = h.find(nd), rf = h.rfind(nd); char *p = (char *)M_mem_mem(H.p, h.size(), N.p, nd.size()), *q = (char *)M_mem_rmem(H.p, h.size(), N.p, nd.size()); bool hit = h.size() && f != S::npos;
		VH_CHECK(hit ? p == H.p + f : !p, "mem:mem", "'%s' in '%s'", E(nd), E(h)); if (nd.size()) VH_CHECK(hit ? q == H.p + rf : !q, "mem:rmem", "'%s' in '%s'", E(nd), E(h)); size_t idx = 99999; M_bool r = M_mem_mempos(H.p, h.size(), N.p, nd.size(), &idx); VH_CHECK((r != 0) == hit && (!hit || idx == f), "mem:mempos", "'%s' in '%s'", E(nd), E(h)); VH_CHECK((M_mem_contains(H.p, h.size(), N.p, nd.size()) != 0) == hit, "mem:contains", "x");
		S cs = nd.c_str(); if (cs.size()) { void *ms = M_mem_str(H.p, h.size(), cs.c_str()); VH_CHECK(h.find(cs) != S::npos && h.size() ? ms == H.p + h.find(cs) : !ms, "mem:str", "'%s' in '%s'", E(cs), E(h)); }
		M_uint8 b = (M_uint8)"abc\0"[vh_rndn(4)]; VH_CHECK(M_mem_count(H.p, h.size(), b) == (size_t)std::count(h.begin(), h.end(), (char)b), "mem:count", "'%s'", E(h)); size_t cp = h.find((char)b); VH_CHECK(cp == S::npos ? !M_mem_chr(H.p, b, h.size()) : M_mem_chr(H.p, b, h.size()) == H.p + cp, "mem:chr", "'%s'", E(h));
		S o = h; if (o.size() && vh_chance(60)) o[vh_rndn(o.size())] ^= (char)(1 << vh_rndn(8)); Heap O(o); VH_CHECK((M_mem_eq(H.p, O.p, h.size()) != 0) == (h == o), "mem:eq", "'%s' '%s'", E(h), E(o)); auto sg = [](int x) { return (x > 0) - (x < 0); }; S c2 = vh_chance(50) ? o : nd; Heap C(c2); int w = h.size() != c2.size() ? (h.size() < c2.size() ? -1 : 1) : sg(memcmp(h.data(), c2.data(), h.size())); VH_CHECK(sg(M_mem_cmpsort(H.p, h.size(), C.p, c2.size())) == w, "mem:cmpsort", "'%s' '%s'", E(h), E(c2));
		VH_CHECK(M_mem_cmpsort(NULL, 0, NULL, 0) == 0 && M_mem_cmpsort(NULL, 0, "a", 1) < 0 && M_mem_cmpsort("a", 1, NULL, 0) > 0, "mem:null", "NULL handling");
		if (h.size() > 1) { size_t a = vh_rndn(h.size()), z = vh_rndn(h.size()), l = vh_rndn(h.size() - std::max(a, z) + 1); S m = h; memmove(&m[z], &m[a], l); void *rr = vh_chance(50) ? M_mem_move(H.p + z, H.p + a, l) : M_mem_copy(H.p + z, H.p + a, l); VH_CHECK(rr == H.p + z && S(H.p, h.size()) == m, "mem:move", "overlapping move %zu->%zu len %zu", a, z, l); size_t i1 = vh_rndn(m.size() + 2), i2 = vh_rndn(m.size() + 2); M_bool sr = M_mem_swap_bytes((M_uint8 *)H.p, m.size(), i1, i2); VH_CHECK((sr != 0) == (i1 < m.size() && i2 < m.size()), "mem:swap", "x"); if (sr) std::swap(m[i1], m[i2]); VH_CHECK(S(H.p, m.size()) == m, "mem:swap", "%zu %zu", i1, i2); size_t sl = vh_rndn(m.size()); memset(&m[0], 0x5a, sl); M_mem_set(H.p, 0x5a, sl); VH_CHECK(S(H.p, m.size()) == m, "mem:set", "%zu", sl); h = m; }
		uint8_t lrc = 0; uint8_t c8 = 0; uint16_t c16 = 0xffff; uint32_t c32 = 0xffffffff; for (unsigned char x : h) { lrc ^= x; c8 ^= x; for (int k = 0; k < 8; k++) c8 = (uint8_t)(c8 & 0x80 ? (c8 << 1) ^ 7 : c8 << 1); c16 ^= (uint16_t)(x << 8); for (int k = 0; k < 8; k++) c16 = (uint16_t)(c16 & 0x8000 ? (c16 << 1) ^ 0x1021 : c16 << 1); c32 ^= x; for (int k = 0; k < 8; k++) c32 = c32 & 1 ? (c32 >> 1) ^ 0xEDB88320u : c32 >> 1; } if (h.empty()) { c16 = 0; c32 = 0xffffffff; }
		Heap X(h); VH_CHECK(M_mem_calc_lrc(X.p, h.size()) == lrc && M_mem_calc_crc8_ccitt(X.p, h.size()) == c8 && M_mem_calc_crc16_ccitt(X.p, h.size()) == c16 && M_mem_calc_crc32(X.p, h.size()) == (h.empty() ? 0 : ~c32), "mem:crc", "of %zu bytes", h.size());
		size_t wl = 0; M_uint8 *bw = M_bin_wrap((const M_uint8 *)X.p, h.size()); if (bw) { const M_uint8 *u = M_bin_unwrap(bw, &wl); VH_CHECK(wl == h.size() && S((const char *)u, wl) == h, "mem:binwrap", "%zu bytes", h.size()); M_uint8 *bd = M_bin_wrapeddup(bw); u = M_bin_unwrap(bd, &wl); VH_CHECK(wl == h.size() && S((const char *)u, wl) == h, "mem:binwrap", "dup"); M_free(bd); M_free(bw); } else VH_CHECK(h.empty(), "mem:binwrap", "failed");
		vh_count("helpers", 1); vh_distinct(vh_hash(h.data(), h.size(), 1));
	}
	wipe_flush();
}
// library objects filled with recognisable secrets, then released in all the usual ways
static S sec() { return "SECRET" + vh_ascii(vh_rndn(60)); }
static void objects() {
	M_buf_t *b = M_buf_create(); M_hash_dict_t *d = M_hash_dict_create(8 << vh_rndn(3), 75, (M_uint32)(M_HASH_DICT_KEYS_ORDERED | (vh_chance(50) ? M_HASH_DICT_MULTI_VALUE | M_HASH_DICT_MULTI_CASECMP : 0) | (vh_chance(50) ? M_HASH_DICT_CASECMP : 0))); M_list_str_t *l = M_list_str_create((M_uint32)(vh_chance(50) ? M_LIST_STR_SORTASC | M_LIST_STR_STABLE : 0)); M_hash_strbin_t *hb = M_hash_strbin_create(8, 75, M_HASH_STRBIN_NONE); M_hash_u64str_t *hu = M_hash_u64str_create(8, 75, M_HASH_U64STR_NONE); M_list_bin_t *lb = M_list_bin_create(M_LIST_BIN_NONE); M_cache_strvp_t *cv = M_cache_strvp_create(1 + vh_rndn(8), M_CACHE_STRVP_NONE, M_free); M_queue_t *q = M_queue_create(NULL, M_free); M_llist_str_t *ll = M_llist_str_create((M_uint32)(vh_chance(50) ? M_LLIST_STR_SORTDESC : 0)); M_parser_t *ps = M_parser_create(M_PARSER_FLAG_NONE); M_hash_multi_t *hm = M_hash_multi_create(M_HASH_MULTI_NONE);
	int n = 10 + (int)vh_rndn(60);
	for (int i = 0; i < n; i++) { S s = sec(), k = vh_from("kxyK", 1 + vh_rndn(4)); const char *c = s.c_str(); switch (vh_rndn(22)) {
		case 0: M_buf_add_str(b, c); break; case 1: M_buf_drop(b, vh_rndn(M_buf_len(b) + 1)); break; case 2: M_hash_dict_insert(d, k.c_str(), c); break; case 3: M_hash_dict_remove(d, k.c_str()); break; case 4: M_list_str_insert(l, c); break; case 5: M_list_str_remove_at(l, vh_rndn(M_list_str_len(l) + 1)); break; case 6: M_hash_strbin_insert(hb, k.c_str(), (const M_uint8 *)c, s.size()); break; case 7: M_hash_strbin_remove(hb, k.c_str()); break; case 8: M_hash_u64str_insert(hu, vh_rndn(20), c); break; case 9: M_list_bin_insert(lb, (const M_uint8 *)c, s.size()); break; case 10: M_cache_strvp_insert(cv, k.c_str(), M_strdup(c)); break; case 11: M_queue_insert(q, M_strdup(c)); break; case 12: M_free(M_queue_take_first(q)); break; case 13: M_llist_str_insert(ll, c); break; case 14: M_parser_append(ps, (const unsigned char *)c, s.size()); break; case 15: M_parser_consume(ps, vh_rndn(M_parser_len(ps) + 1)); break; case 16: M_hash_multi_str_insert_str(hm, k.c_str(), c); break; case 17: M_hash_multi_u64_insert_bin(hm, vh_rndn(9), (const M_uint8 *)c, s.size()); break;
		case 18: { size_t na = 0; char **a = M_str_explode_str(' ', c, &na); M_str_explode_free(a, na); break; } case 19: { size_t ol = 0; char *e = M_bincodec_encode_alloc((const M_uint8 *)c, s.size(), 76, M_BINCODEC_BASE64); M_uint8 *de = M_bincodec_decode_alloc(e, M_str_len(e), &ol, M_BINCODEC_BASE64); M_free(de); M_free(e); break; } case 20: { char *x = NULL; M_asprintf(&x, "%s %d %s", c, i, c); M_free(x); M_free(M_strdup_upper(c)); break; } default: { M_hash_dict_t *d2 = M_hash_dict_duplicate(d); char *ser = M_hash_dict_serialize(d2, ';', '=', '"', '\\', M_HASH_DICT_SER_FLAG_NONE); M_free(ser); M_hash_dict_destroy(d2); M_list_str_t *l2 = M_list_str_duplicate(l); M_list_str_destroy(l2); char *j = M_list_str_join(l, ','); M_free(j); break; } } vh_count("object_ops", 1); }
	if (vh_chance(50)) M_buf_cancel(b); else M_free(M_buf_finish_str(b, NULL)); M_hash_dict_destroy(d); M_list_str_destroy(l); M_hash_strbin_destroy(hb); M_hash_u64str_destroy(hu); M_list_bin_destroy(lb); M_cache_strvp_destroy(cv); M_queue_destroy(q); M_llist_str_destroy(ll); M_parser_destroy(ps); M_hash_multi_destroy(hm); vh_distinct(vh_rnd()); wipe_flush();
}
const vh_mode_t vh_modes[] = {{"alloc", alloc}, {"errors", errors}, {"helpers", helpers}, {"objects", objects}, {0}};
