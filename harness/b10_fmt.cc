// Own formatter against glibc's; every sink must agree and bounded buffers hold the terminated prefix.
#include "vh.hpp"
#include <math.h>
#include <sys/mman.h>
struct Conv { S mf, gf; int kind; int width; bool star_w, star_p; }; // kind: 0 gp arg, 1 double, 2 none
static uint64_t G[14]; static double D[8]; static int ng, nd;
#define ARGS G[0], G[1], G[2], G[3], G[4], G[5], G[6], G[7], G[8], G[9], G[10], G[11], G[12], G[13], D[0], D[1], D[2], D[3], D[4], D[5], D[6], D[7]
#pragma clang diagnostic ignored "-Wformat-nonliteral"
#pragma clang diagnostic ignored "-Wformat-security"
typedef size_t (*snp_t)(char *, size_t, const char *, ...);
// The recorded finding: digits are split off with a multiplication by 0.1 (replayed with the same floating point steps).
static S tenth_digits(double val) { S o; do { double t = val * 0.1, n; n = trunc(t); o += "0123456789"[(size_t)((t - n) * 10.0) % 10]; val = n; } while (val > 0 && o.size() < 511); return S(o.rbegin(), o.rend()); }
static S tenth_double(double v, int prec) { bool neg = v < 0; v = fabs(v); double ip = trunc(v), fp = v - ip, p10 = 1; for (int i = 0; i < prec; i++) p10 *= 10; fp = trunc(round(fp * p10)); while (fp >= p10) { ip++; fp -= p10; } S s = tenth_digits(ip); if (prec) { S f = tenth_digits(fp); s += "." + S((size_t)std::max(0, prec - (int)f.size()), '0') + f; } return (neg ? "-" : "") + s; }
static S core_double(double v, int prec, S &why) { // what the library prints without flags, checked to be the value
	char b[700]; M_snprintf(b, sizeof b, "%.*f", prec, v); S s = b, t = s; if (!t.empty() && t[0] == '-') t.erase(0, 1);
	size_t p = t.find('.'); S ip = t.substr(0, p), fp = p == S::npos ? "" : t.substr(p + 1);
	if ((prec == 0) != (p == S::npos) || (int)fp.size() != prec || ip.empty() || (ip.size() > 1 && ip[0] == '0') || (ip + fp).find_first_not_of("0123456789") != S::npos) { why = "malformed"; return s; }
	if ((s[0] == '-') != (v < 0)) { why = "sign"; return s; }
	long double x = strtold(s.c_str(), NULL), err = fabsl(x - (long double)v), tol = 0.5L * powl(10, -prec) * 1.0000001L + fabsl((long double)v) * (fabs(v) < 1e15 && prec <= 14 ? 2.3e-16L : 1e-14L);
	if (!(err <= tol)) why = vh_fmt("off by %Lg", err);
	return s;
}
static void one() {
	ng = nd = 0; for (auto &g : G) g = vh_u64(); for (auto &d : D) d = 1;
	S mf, gf, want; std::vector<std::unique_ptr<Heap>> hold; int nconv = 1 + (int)vh_rndn(4); bool has_nul = false; uint64_t hh = 7;
	auto lit = [&]() { S l = vh_from("ab %", vh_rndn(4)); for (char c : l) { if (c == '%') { mf += "%%"; want += '%'; } else { mf += c; want += c; } } };
	lit();
	for (int i = 0; i < nconv; i++) {
		S fl; for (int k = (int)vh_rndn(3); k > 0; k--) fl += "-+# 0"[vh_rndn(5)];
		S m = "%" + fl, g = "%"; int w = -1, p = -1; size_t a0 = (size_t)ng; bool wide = vh_chance(1);
		auto has = [&](char c) { return fl.find(c) != S::npos; };
		if (vh_chance(40)) { w = wide ? (int)vh_rndn(3000) : (int)vh_rndn(24); if (w == 0) w = -1; else if (vh_chance(40)) { m += '*'; G[ng++] = (uint64_t)w | (vh_rnd() << 32); } else m += vh_fmt("%d", w); }
		int kind = (int)vh_rndn(10); S piece; static const char *sz[] = {"", "h", "hh", "l", "ll", "z", "I", "I64", "I32"}; static const char *gs[] = {"", "h", "hh", "l", "ll", "z", "z", "ll", ""};
		auto prec = [&](int mx) { if (vh_chance(60)) { p = (int)vh_rndn((uint64_t)mx + 1); m += '.'; if (vh_chance(40)) { m += '*'; G[ng++] = (uint64_t)p | (vh_rnd() << 32); } else if (p || vh_chance(50)) m += vh_fmt("%d", p); } };
		char buf[8192];
		if (kind < 3) { // signed
			size_t z = vh_rndn(9); m += sz[z]; m += vh_chance(70) ? 'd' : 'i'; S f2; for (char c : fl) if (c == '-' || c == '+' || c == ' ' || c == '0') f2 += c; g += f2 + (w > 0 ? vh_fmt("%d", w) : "") + gs[z] + "d"; snprintf(buf, sizeof buf, g.c_str(), G[ng]); ng++; piece = buf;
		} else if (kind < 6) { // unsigned
			size_t z = vh_rndn(9); char c = "uxXoO"[vh_rndn(5)]; m += sz[z]; m += c; uint64_t v = G[ng++]; uint64_t mask = z == 0 || z == 8 ? UINT32_MAX : z == 1 ? 0xffff : z == 2 ? 0xff : UINT64_MAX; S f2; for (char x : fl) if (x == '-' || x == '0' || (x == '#' && !((v & mask) == 0 && c != 'o' && c != 'O') && c != 'u')) f2 += x; g += f2 + (w > 0 ? vh_fmt("%d", w) : "") + gs[z] + (c == 'O' ? 'o' : c); snprintf(buf, sizeof buf, g.c_str(), v); piece = buf;
			if (has('#') && (v & mask) == 0 && (c == 'x' || c == 'X')) { // documented: the prefix is always added
				S core = S("0") + c; int pad = std::max(0, w - 3); bool l = has('-'), zp = has('0') && !l; piece = l ? core + "0" + S((size_t)pad, ' ') : zp ? core + S((size_t)pad, '0') + "0" : S((size_t)pad, ' ') + core + "0"; }
		} else if (kind == 6) { // pointer
			char c = vh_chance(60) ? 'p' : 'P'; m += c; uint64_t v = G[ng++]; if (!v) { v = 1; G[ng - 1] = 1; } S f2 = "#"; for (char x : fl) if (x == '-' || x == '0') f2 += x; g += f2 + (w > 0 ? vh_fmt("%d", w) : "") + (c == 'p' ? "lx" : "lX"); snprintf(buf, sizeof buf, g.c_str(), v); piece = buf;
		} else if (kind == 7) { // char
			m += 'c'; unsigned char c = (unsigned char)(vh_chance(95) ? vh_range(1, 255) : 0); G[ng++] = c | (vh_rnd() << 8); if (has('0') && !has('-') && w > 1) piece = S((size_t)w - 1, '0') + (char)c; else { S pad((size_t)std::max(0, w - 1), ' '); piece = has('-') ? S(1, (char)c) + pad : pad + S(1, (char)c); } if (!c) has_nul = true;
		} else if (kind == 8) { // string
			prec(12); m += 's'; S s = vh_cbytes(vh_rndn(wide ? 3000 : 16)); if (vh_chance(5)) { G[ng++] = 0; s = "<NULL>"; } else { bool unterminated = p >= 0 && (int)s.size() >= p && vh_chance(50); if (p >= 0 && (int)s.size() > p) { if (unterminated) s = s.substr(0, (size_t)p); } hold.emplace_back(new Heap(s, !unterminated)); G[ng++] = (uint64_t)hold.back()->p; if (p >= 0) s = s.substr(0, (size_t)p); } S pad((size_t)std::max(0, w - (int)s.size()), ' '); piece = has('-') ? s + pad : pad + s;
		} else { // double
			bool special = vh_chance(4); double v; if (special) v = vh_chance(30) ? NAN : vh_chance(50) ? INFINITY : -INFINITY; else switch (vh_rndn(7)) { case 0: v = (double)vh_range(-1000, 1000); break; case 1: v = (double)vh_i64() / 1024.0; break; case 2: v = (double)vh_range(-100000000, 100000000) / 100.0; break; case 3: v = (double)(vh_rnd() >> 12) * ldexp(1, -(int)vh_rndn(90)); break; case 4: v = pow(10, (double)vh_range(-15, 22)) - (vh_chance(50) ? 1 : 0); break; case 5: v = (double)vh_rnd() * ldexp(1, (int)vh_rndn(900)); break; default: v = (double)vh_range(0, 1LL << 50); }
			if (vh_chance(30)) v = -v; if (v == 0) v = 0;
			prec(vh_chance(90) ? 14 : 120); if (vh_chance(30)) m += 'l', m.pop_back(); m += "feEgGF"[vh_rndn(6)]; D[nd++] = v; int pp = p < 0 ? 6 : p > 100 ? 100 : p; S core, why;
			if (special) core = v != v ? "nan" : v < 0 ? "-inf" : "inf"; else { core = core_double(v, pp, why); bool kn = core == tenth_double(v, pp); if (kn && !why.empty()) { vh_known("fmt:double-tenth", "%%.%df of %.17g printed '%s': %s", pp, v, core.c_str(), why.c_str()); why = ""; } VH_CHECK(why.empty(), "fmt:double", "%%.%df of %.17g printed '%s': %s", pp, v, core.c_str(), why.c_str()); vh_count("doubles", 1);
				if (pp <= 6 && fabs(v) < 1e8) { // exact agreement away from ties
					char gb[400]; snprintf(gb, sizeof gb, "%.*f", pp, v); double sc = fabs(v) * pow(10, pp), fr = sc - floor(sc); if (fabs(fr - 0.5) > 1e-3) { if (kn && core != gb) vh_known("fmt:double-tenth", "%%.%df of %.17g printed '%s' want '%s'", pp, v, core.c_str(), gb); VH_CHECK(kn || core == gb, "fmt:double-exact", "%%.%df of %.17g: '%s' want '%s'", pp, v, core.c_str(), gb); vh_count("doubles_exact", 1); } } }
			bool neg = core[0] == '-'; S body = neg ? core.substr(1) : core; S sg = neg ? "-" : has('+') ? "+" : has(' ') ? " " : ""; int pad = std::max(0, w - (int)(sg.size() + body.size())); bool l = has('-'), zp = has('0') && !l && !special; piece = l ? sg + body + S((size_t)pad, ' ') : zp ? sg + S((size_t)pad, '0') + body : S((size_t)pad, ' ') + sg + body;
		}
		(void)a0; mf += m; want += piece; lit(); hh = vh_hash(m.data(), m.size(), hh); vh_count("conversions", 1);
		if (ng > 9 || nd > 6) break;
	}
	if (vh_chance(4)) { static const char *bad[] = {"%", "%5", "%-", "%l", "%5.2", "%y", "%3!", "%.2.3", "%ll%", "%hl", "%#"}; S b = bad[vh_rndn(11)]; size_t use = b.size(); if (b == "%.2.3") use = 4; mf += b; want += "%" + S(use - 1, '?') + b.substr(use); vh_count("malformed", 1); }
	Heap f(mf, true);
	// unbounded
	char *p = NULL; size_t n = M_asprintf(&p, f.p, ARGS); VH_CHECK(n == want.size(), "fmt:length", "'%s': %zu want %zu ('%s' want '%s')", E(mf), n, want.size(), p ? E(S(p)) : "NULL", E(want));
	VH_CHECK(want.empty() ? p == NULL || !*p : p && memcmp(p, want.data(), n) == 0 && p[n] == 0, "fmt:text", "'%s': '%s' want '%s'", E(mf), p ? vh_esc(p, n) : "NULL", E(want)); M_free(p);
	// bounded: sizes around the length
	for (int k = 0; k < 3; k++) { size_t sz = k == 0 ? n + 1 : k == 1 ? vh_rndn(n + 3) : vh_rndn(4); Heap o(S(sz, '#')); size_t r = M_snprintf(sz ? o.p : vh_chance(50) ? NULL : o.p, sz, f.p, ARGS); VH_CHECK(r == n, "fmt:bounded-length", "'%s' into %zu: %zu want %zu", E(mf), sz, r, n);
		if (sz) { size_t c = std::min(sz - 1, n); VH_CHECK(memcmp(o.p, want.data(), c) == 0 && o.p[c] == 0, "fmt:bounded-text", "'%s' into %zu", E(mf), sz); for (size_t i = c + 1; i < sz; i++) VH_CHECK(o.p[i] == '#', "fmt:bounded-touch", "byte %zu of %zu", i, sz); } vh_count(sz <= n ? "truncated" : "whole", 1); }
	{ M_buf_t *b = M_buf_create(); M_buf_add_str(b, "pre"); size_t r = M_bprintf(b, f.p, ARGS); VH_CHECK(r == n && M_buf_len(b) == n + 3 && memcmp(M_buf_peek(b), ("pre" + want).data(), n + 3) == 0, "fmt:buf", "'%s'", E(mf)); M_buf_cancel(b); }
	if (vh_chance(10)) { // stream, descriptor, file
		char *mp = NULL; size_t ml = 0; FILE *fp = open_memstream(&mp, &ml); ssize_t r = M_fprintf(fp, f.p, ARGS); fclose(fp); bool ok = r == (ssize_t)n && S(mp, ml) == want; free(mp); VH_CHECK(ok, "fmt:stream", "'%s'", E(mf));
		int fd = memfd_create("b10", 0); r = M_dprintf(fd, f.p, ARGS); S got(n + 5, 0); ssize_t g = pread(fd, &got[0], n + 5, 0); close(fd); VH_CHECK(r == (ssize_t)n && g == (ssize_t)n && got.substr(0, n) == want, "fmt:fd", "'%s' wrote %zd", E(mf), g);
		S path = S(vh_tmpdir()) + "/f"; M_fs_file_t *mfd = NULL; if (M_fs_file_open(&mfd, path.c_str(), 0, M_FS_FILE_MODE_READ | M_FS_FILE_MODE_WRITE | M_FS_FILE_MODE_OVERWRITE, NULL) == M_FS_ERROR_SUCCESS) { r = M_mdprintf(mfd, f.p, ARGS); M_fs_file_close(mfd); FILE *q = fopen(path.c_str(), "r"); g = (ssize_t)fread(&got[0], 1, n + 5, q); fclose(q); VH_CHECK(r == (ssize_t)n && g == (ssize_t)n && got.substr(0, n) == want, "fmt:file", "'%s' wrote %zd", E(mf), g); vh_count("sinks", 1); }
	}
	(void)has_nul; vh_distinct(hh);
}
static void fmt() { for (int i = 0; i < 4; i++) one(); }
// long outputs through the descriptor sink's internal buffer
static void longfd() {
	S a = vh_ascii(vh_rndn(3000)), b = vh_ascii(vh_rndn(200)); int w = (int)vh_rndn(6000); Heap ha(a, true), hb(b, true); S want = a + S((size_t)std::max(0, w - (int)b.size()), ' ') + b + a + "12"; int fd = memfd_create("b10", 0); ssize_t r = M_dprintf(fd, "%s%*s%s%d", ha.p, w, hb.p, ha.p, 12); S got(want.size() + 9, 0); ssize_t g = pread(fd, &got[0], got.size(), 0); close(fd);
	VH_CHECK(r == (ssize_t)want.size() && g == r && got.substr(0, (size_t)g) == want, "fmt:fd-long", "ret %zd file %zd want %zu", r, g, want.size()); vh_count("long", 1); vh_distinct(vh_hash(want.data(), want.size(), 1));
}
const vh_mode_t vh_modes[] = {{"fmt", fmt}, {"longfd", longfd}, {0}};
