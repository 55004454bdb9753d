/* B16: calendar arithmetic, Olson and POSIX-rule zones, judged by independent date arithmetic, an independent TZif reader and the C library. */
#include "vh.hpp"
#include <mstdlib/mstdlib_formats.h>
#include <time.h>
#include <dirent.h>
#include <sys/stat.h>
extern "C" M_bool M_time_tzs_merge(M_time_tzs_t **dest, M_time_tzs_t *src, char **err_name);
typedef long long ll;
static ll fdiv(ll a, ll b) { ll q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
static ll fmod_(ll a, ll b) { return a - fdiv(a, b) * b; }
static ll days_civil(ll y, int m, int d) { y -= m <= 2; ll era = fdiv(y, 400); ll yoe = y - era * 400; ll doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; ll doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static void civil(ll z, ll &y, int &m, int &d) { z += 719468; ll era = fdiv(z, 146097); ll doe = z - era * 146097; ll yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400; ll doy = doe - (365 * yoe + yoe / 4 - yoe / 100); ll mp = (5 * doy + 2) / 153; d = (int)(doy - (153 * mp + 2) / 5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y += m <= 2; }
struct F { ll y; int mo, d, h, mi, s, wd, yd; };
static F split(ll t) { F f; ll dd = fdiv(t, 86400), r = t - dd * 86400; civil(dd, f.y, f.mo, f.d); f.h = (int)(r / 3600); f.mi = (int)(r % 3600 / 60); f.s = (int)(r % 60); f.wd = (int)fmod_(dd + 4, 7); f.yd = (int)(dd - days_civil(f.y, 1, 1)); return f; }
static void same(uint64_t c, const char *k, const struct M_time_tm &tm, ll t, const char *what) {
	F f = split(t);
	VH_CHECK(tm.year == f.y && tm.month == f.mo && tm.day == f.d && tm.hour == f.h && tm.min == f.mi && tm.sec == f.s, k, "%s %lld: got %lld-%lld-%lld %lld:%lld:%lld want %lld-%d-%d %d:%d:%d", what, t, (ll)tm.year, (ll)tm.month, (ll)tm.day, (ll)tm.hour, (ll)tm.min, (ll)tm.sec, f.y, f.mo, f.d, f.h, f.mi, f.s);
	(void)c;
}
static ll rnd_t(void) {
	switch (vh_rndn(7)) {
	case 0: return vh_range(-2208988800LL, 4102444800LL);
	case 1: { ll y = vh_range(1, 9999); return days_civil(y, (int)vh_range(1, 12), 1) * 86400 + vh_range(-2, 2); }
	case 2: { ll y = vh_range(1600, 2800); return days_civil(y, vh_chance(50) ? 3 : 1, 1) * 86400 + vh_range(-86401, 86401); }
	case 3: return vh_range(-100000, 100000);
	case 4: return vh_range(-62135596800LL, 253402300799LL);
	case 5: return vh_range(-9000000000000000LL, 9000000000000000LL) >> vh_rndn(20);
	default: return vh_range(-93000000000LL, 400000000000LL);
	}
}
static void gm(void) { uint64_t c = vh_case; (void)c;
	ll t = rnd_t(); struct M_time_tm tm; memset(&tm, 0x5a, sizeof tm); F f = split(t);
	M_time_togm(t, &tm); same(c, "togm", tm, t, "togm");
	VH_CHECK(tm.wday == f.wd, "togm:wday", "t %lld wday %lld want %d", t, (ll)tm.wday, f.wd);
	VH_CHECK(tm.yday == f.yd, "togm:yday", "t %lld yday %lld want %d", t, (ll)tm.yday, f.yd);
	if (f.y >= 0) VH_CHECK(tm.year2 == f.y % 100, "togm:year2", "t %lld year2 %lld want %lld", t, (ll)tm.year2, f.y % 100);
	VH_CHECK(tm.isdst == 0 && tm.gmtoff == 0, "togm:local", "isdst %lld gmtoff %lld", (ll)tm.isdst, (ll)tm.gmtoff);
	struct M_time_tm back = tm; if (vh_chance(50)) { back.wday = 77; back.yday = -5; back.year2 = 3; }
	ll r = M_time_fromgm(&back); VH_CHECK(r == t, "fromgm:inverse", "t %lld back %lld", t, r); same(c, "fromgm:fields", back, t, "fromgm");
	VH_CHECK(back.wday == f.wd && back.yday == f.yd, "fromgm:wday", "t %lld", t);
	VH_CHECK(M_time_days_in_month(f.y, f.mo) == (int)(days_civil(f.mo == 12 ? f.y + 1 : f.y, f.mo == 12 ? 1 : f.mo + 1, 1) - days_civil(f.y, f.mo, 1)), "dim", "%lld-%d", f.y, f.mo);
	vh_count("instants", 1);
	/* out-of-range fields */
	struct M_time_tm n; memset(&n, 0, sizeof n); ll big = vh_chance(20) ? 100000 : vh_chance(50) ? 800 : 70;
	n.year = vh_range(1, 4000); n.month = vh_chance(50) ? vh_range(1, 12) : vh_range(-30, 40); n.day = vh_chance(30) ? vh_range(1, 28) : vh_range(-big / 2, big / 2); n.hour = vh_chance(50) ? vh_range(0, 23) : vh_range(-big, big); n.min = vh_chance(50) ? vh_range(0, 59) : vh_range(-big, big); n.sec = vh_chance(50) ? vh_range(0, 59) : vh_range(-big, big);
	if (vh_chance(10)) { n.sec = vh_range(-90000000, 90000000); }
	ll m0 = n.month - 1, y = n.year + fdiv(m0, 12); int m = (int)fmod_(m0, 12) + 1;
	ll want = (days_civil(y, m, 1) + n.day - 1) * 86400 + n.hour * 3600 + n.min * 60 + n.sec;
	char desc[160]; snprintf(desc, sizeof desc, "%lld-%lld-%lld %lld:%lld:%lld ->", (ll)n.year, (ll)n.month, (ll)n.day, (ll)n.hour, (ll)n.min, (ll)n.sec);
	struct M_time_tm n2 = n; n2.isdst = vh_range(-1, 1); n2.gmtoff = 55; strcpy(n2.abbr, "QQQ"); ll keep = n2.isdst;
	M_time_normalize_tm(&n2); same(c, "normalize", n2, want, desc);
	VH_CHECK(n2.isdst == keep && n2.gmtoff == 55 && !strcmp(n2.abbr, "QQQ"), "normalize:local", "%s local fields changed", desc);
	r = M_time_fromgm(&n); VH_CHECK(r == want, "fromgm:arith", "%s got %lld want %lld", desc, r, want); same(c, "fromgm:norm", n, want, desc);
	vh_count("normalised", 1); if (y != n.year || r != want || n.day != n2.day) {} vh_distinct(vh_hu((uint64_t)t, 0));
	ll yy = vh_range(-400, 4000), mm = vh_range(-2, 15), dd = vh_range(-3, 34);
	bool ok = mm >= 1 && mm <= 12 && dd >= 1 && dd <= (days_civil(mm == 12 ? yy + 1 : yy, mm == 12 ? 1 : (int)mm + 1, 1) - days_civil(yy, (int)mm, 1));
	VH_CHECK((bool)M_time_is_valid_day(yy, mm, dd) == ok, "valid_day", "%lld-%lld-%lld", yy, mm, dd);
	if (mm < 1 || mm > 12) VH_CHECK(M_time_days_in_month(yy, mm) == 0, "dim:bad", "%lld", mm);
}
/* ---- Olson ---- */
struct TT { ll off; bool dst; S ab; };
struct Z { VS dummy; std::vector<ll> at; std::vector<int> ty; std::vector<TT> types; S footer; bool ok = false; };
static S slurp(const S &p) { FILE *f = fopen(p.c_str(), "rb"); S s; char b[4096]; size_t n; if (!f) return s; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static ll be(const S &s, size_t o, int n) { ll v = (signed char)s[o]; for (int i = 1; i < n; i++) v = (ll)((uint64_t)v << 8) | (unsigned char)s[o + (size_t)i]; return v; }
static Z rdz(const S &s) {
	Z z; if (s.size() < 44 || s.substr(0, 4) != "TZif") return z; size_t o = 0; int w = 4;
	for (int pass = 0;; pass++) {
		ll c[6]; for (int i = 0; i < 6; i++) c[i] = be(s, o + 20 + 4 * (size_t)i, 4);
		size_t p = o + 44, tot = (size_t)(c[3] * (w + 1) + c[4] * 6 + c[5] + c[2] * (w + 4) + c[1] + c[0]);
		if (pass == 0 && s[4] != 0) { o = p + tot; w = 8; continue; }
		for (ll i = 0; i < c[3]; i++) z.at.push_back(be(s, p + (size_t)i * (size_t)w, w)); p += (size_t)(c[3] * w);
		for (ll i = 0; i < c[3]; i++) z.ty.push_back((unsigned char)s[p + (size_t)i]); p += (size_t)c[3];
		size_t ab = p + (size_t)c[4] * 6;
		for (ll i = 0; i < c[4]; i++) { TT t; t.off = be(s, p, 4); t.dst = s[p + 4] != 0; t.ab = S(s.c_str() + ab + (unsigned char)s[p + 5]); z.types.push_back(t); p += 6; }
		size_t end = o + 44 + tot; if (w == 8 && end < s.size()) { z.footer = s.substr(end + 1); size_t e = z.footer.find('\n'); if (e != S::npos) z.footer.resize(e); }
		z.ok = true; return z;
	}
}
static const TT &z_at(const Z &z, ll t) { size_t lo = 0, hi = z.at.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (z.at[m] <= t) lo = m + 1; else hi = m; } return lo == 0 ? z.types[0] : z.types[(size_t)z.ty[lo - 1]]; }
static VS g_zones; static M_time_tzs_t *g_eager, *g_lazy;
static void walk(const S &base, const S &rel) { DIR *d = opendir((base + "/" + rel).c_str()); if (!d) return; while (struct dirent *e = readdir(d)) { S n = e->d_name; if (n[0] == '.') continue; S r = rel.empty() ? n : rel + "/" + n; struct stat st; if (stat((base + "/" + r).c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) walk(base, r); else g_zones.push_back(r); } closedir(d); }
static const char *areas[] = { "Africa", "America", "Antarctica", "Arctic", "Asia", "Atlantic", "Australia", "Europe", "Indian", "Pacific", "Etc" };
static const S ZI = "/usr/share/zoneinfo";
static void zinit(void) {
	if (!g_zones.empty()) return;
	for (auto a : areas) walk(ZI, a);
	std::sort(g_zones.begin(), g_zones.end());
}
static void one(const M_time_tz_t *tz, ll t, ll off, bool dst, const S &ab, const S &name, const char *kp, bool unique = true) {
	struct M_time_tm tm; memset(&tm, 0x33, sizeof tm); M_time_tolocal(t, &tm, tz); char k[64];
	snprintf(k, sizeof k, "%s:offset", kp); VH_CHECK(tm.gmtoff == off, k, "%s at %lld: offset %lld want %lld", name.c_str(), t, (ll)tm.gmtoff, off);
	snprintf(k, sizeof k, "%s:isdst", kp); VH_CHECK(tm.isdst == (dst ? 1 : 0), k, "%s at %lld: isdst %lld want %d", name.c_str(), t, (ll)tm.isdst, dst);
	snprintf(k, sizeof k, "%s:abbr", kp); VH_CHECK(ab == tm.abbr, k, "%s at %lld: abbr '%s' want '%s'", name.c_str(), t, tm.abbr, ab.c_str());
	snprintf(k, sizeof k, "%s:fields", kp); same(0, k, tm, t + off, name.c_str());
	F f = split(t + off); VH_CHECK(tm.wday == f.wd && tm.yday == f.yd, k, "%s at %lld wday/yday", name.c_str(), t);
	struct M_time_tm b = tm; ll r = M_time_fromlocal(&b, tz);
	snprintf(k, sizeof k, "%s:roundtrip", kp);
	if (unique) VH_CHECK(r == t, k, "%s at %lld: back %lld (local %lld-%lld-%lld %lld:%lld:%lld isdst %lld)", name.c_str(), t, r, (ll)tm.year, (ll)tm.month, (ll)tm.day, (ll)tm.hour, (ll)tm.min, (ll)tm.sec, (ll)tm.isdst);
	else VH_CHECK(b.year == tm.year && b.month == tm.month && b.day == tm.day && b.hour == tm.hour && b.min == tm.min && b.sec == tm.sec, k, "%s at %lld: back %lld shows another wall clock", name.c_str(), t, r);
	vh_count("conversions", 1);
}
/* local time t+off happens at exactly one instant with this daylight flag? */
static bool unique_at(const Z &z, ll t) {
	const TT &a = z_at(z, t); ll loc = t + a.off;
	for (auto &ty : z.types) { if (ty.off == a.off) continue; ll u = loc - ty.off; const TT &b = z_at(z, u); if (b.off == ty.off && b.dst == a.dst) return false; }
	/* two transitions within two days of each other: only the wall clock is required */
	int near = 0; for (ll x : z.at) if (x >= t - 3 * 86400 && x <= t + 3 * 86400) near++;
	return near < 2;
}
static void zone_check(const Z &z, const M_time_tz_t *tz, const S &name, const char *kp, int nrand) {
	std::vector<ll> ts;
	for (size_t i = 0; i < z.at.size(); i++) if (z.at.size() < 40 || vh_chance(30)) for (ll d : { -1LL, 0LL, 1LL, -3600LL, 3600LL, -1800LL, 1799LL, -7200LL, 7199LL }) ts.push_back(z.at[i] + d);
	ll last = z.at.empty() ? 4102444800LL : z.at.back();
	for (int i = 0; i < nrand; i++) ts.push_back(vh_range(last < 0 ? last - 3000000000LL : -3000000000LL, last));
	if (!z.at.empty() && z.at[0] > -5000000000LL) { ts.push_back(z.at[0] - 1); ts.push_back(z.at[0] - 86400 * 400); }
	if (!z.at.empty()) ts.push_back(last);
	for (ll t : ts) { if (t < -70000000000LL || t > last) continue; const TT &a = z_at(z, t); one(tz, t, a.off, a.dst, a.ab, name, kp, unique_at(z, t)); }
}
static void olson(void) { uint64_t c = vh_case; (void)c;
	zinit(); if (g_zones.empty()) { vh_count("zones", 0); return; }
	const S &name = g_zones[c % g_zones.size()]; vh_distinct(vh_hstr(name.c_str(), 0)); Z z = rdz(slurp(ZI + "/" + name)); if (!z.ok) return;
	if (!g_eager) { g_eager = M_time_tzs_load_zoneinfo(ZI.c_str(), M_TIME_TZ_ZONE_ALL, M_TIME_TZ_ALIAS_OLSON_ALL, M_TIME_TZ_LOAD_NORMAL); g_lazy = M_time_tzs_load_zoneinfo(ZI.c_str(), M_TIME_TZ_ZONE_ALL, M_TIME_TZ_ALIAS_ALL, M_TIME_TZ_LOAD_LAZY); }
	S q = name; if (vh_chance(30)) for (auto &ch : q) ch = (char)toupper(ch);
	const M_time_tz_t *e = M_time_tzs_get_tz(g_eager, q.c_str()), *l = M_time_tzs_get_tz(g_lazy, name.c_str());
	VH_CHECK(e != NULL, "olson:eager", "zone %s not found in the loaded database", q.c_str()); VH_CHECK(l != NULL, "olson:lazy", "zone %s not found lazily", name.c_str());
	VH_CHECK(M_time_tzs_get_tz(g_lazy, name.c_str()) == l, "olson:lazy2", "second lookup differs");
	zone_check(z, e, name, "olson", 30); zone_check(z, l, name, "lazy", 10);
	M_time_tzs_t *t1 = M_time_tzs_create(); VH_CHECK(M_time_tzs_add_tzfile(t1, (ZI + "/" + name).c_str(), "mine") == M_TIME_RESULT_SUCCESS, "olson:tzfile", "%s", name.c_str());
	VH_CHECK(M_time_tzs_add_tzfile(t1, (ZI + "/" + name).c_str(), "mine") == M_TIME_RESULT_DUP, "olson:dup", "%s", name.c_str());
	zone_check(z, M_time_tzs_get_tz(t1, "MINE"), name, "tzfile", 5); M_time_tzs_destroy(t1);
	/* the C library agrees with the table reader (and rules after the last transition) */
	setenv("TZ", (":" + ZI + "/" + name).c_str(), 1); tzset();
	ll last = z.at.empty() ? 0 : z.at.back();
	for (int i = 0; i < 12; i++) {
		ll t = i < 6 ? vh_range(last ? last - 1000000000LL : 0, last ? last : 1000000000LL) : vh_range(last > 1700000000 ? last : 1700000000, 7000000000LL); time_t tt = (time_t)t; struct tm ct; localtime_r(&tt, &ct);
		struct M_time_tm tm; memset(&tm, 0, sizeof tm); M_time_tolocal(t, &tm, e);
		if (tm.gmtoff == ct.tm_gmtoff && tm.isdst == ct.tm_isdst && !strcmp(tm.abbr, ct.tm_zone)) vh_count("agree", 1);
		else if (t >= last && !z.footer.empty()) vh_known("olson:after-last-transition", "%s at %lld: offset %lld, the zone's footer rule %s gives %ld", name.c_str(), t, (ll)tm.gmtoff, z.footer.c_str(), (long)ct.tm_gmtoff);
		else if (z.at.empty() || t >= z.at[0]) VH_CHECK(false, "olson:libc", "%s at %lld: offset %lld %s, libc %ld %s", name.c_str(), t, (ll)tm.gmtoff, tm.abbr, (long)ct.tm_gmtoff, ct.tm_zone);
		M_time_tolocal(t, &tm, NULL); VH_CHECK(tm.gmtoff == ct.tm_gmtoff && tm.isdst == ct.tm_isdst && !strcmp(tm.abbr, ct.tm_zone), "sys:tolocal", "%s at %lld", name.c_str(), t); same(c, "sys:fields", tm, t + ct.tm_gmtoff, "system");
		ll r = M_time_fromlocal(&tm, NULL); struct tm c2 = ct; VH_CHECK(r == (ll)mktime(&c2), "sys:fromlocal", "%s at %lld: %lld", name.c_str(), t, r);
	}
	vh_count("zones", 1); 
}
static void fin(void) { M_time_tzs_destroy(g_eager); M_time_tzs_destroy(g_lazy); g_eager = g_lazy = NULL; }
/* synthetic zone files */
static void put(S &o, ll v, int n) { for (int i = n - 1; i >= 0; i--) o.push_back((char)((uint64_t)v >> (8 * i))); }
static void synth(void) { uint64_t c = vh_case; (void)c;
	Z z; int nt = (int)vh_range(1, 6); S abs; std::vector<int> abi;
	for (int i = 0; i < nt; i++) { TT t; t.off = vh_chance(50) ? vh_range(-14, 14) * 3600 : vh_range(-50000, 50000); t.dst = vh_chance(40); t.ab = vh_chance(30) && i ? z.types[(size_t)vh_rndn((uint64_t)i)].ab : vh_from("ABCDEFGHIJKLM+-0123456789", 1 + vh_rndn(6)); z.types.push_back(t); size_t p = vh_chance(50) ? abs.find(t.ab + S(1, '\0')) : S::npos; if (p == S::npos) { p = abs.size(); abs += t.ab; abs.push_back(0); } abi.push_back((int)p); }
	ll t = vh_range(-3000000000LL, 0); int n = vh_chance(15) ? 0 : (int)vh_range(1, 40);
	for (int i = 0; i < n; i++) { z.at.push_back(t); z.ty.push_back((int)vh_rndn((uint64_t)nt)); t += vh_range(4 * 86400, 400 * 86400); }
	int ver = (int)vh_rndn(4); char vb[] = { 0, '2', '3', '4' };
	bool std_ = vh_chance(50), ut = vh_chance(50); ll leap = vh_chance(30) ? vh_range(1, 5) : 0;
	if (ver == 0) { std::vector<ll> a2; std::vector<int> b2; for (size_t i = 0; i < z.at.size(); i++) if (z.at[i] >= -2147483648LL && z.at[i] <= 2147483647LL) { a2.push_back(z.at[i]); b2.push_back(z.ty[i]); } z.at = a2; z.ty = b2; }
	S out;
	auto block = [&](int w, bool full) {
		out += "TZif"; out.push_back(vb[ver]); out += S(15, '\0');
		ll tc = full ? (ll)z.at.size() : (vh_chance(50) ? 0 : (ll)z.at.size()), yc = full ? nt : vh_chance(50) ? 1 : nt, cc = full || yc == nt ? (ll)abs.size() : (ll)abi[0] + (ll)z.types[0].ab.size() + 1, lc = full || yc == nt ? leap : 0;
		if (yc == 1 && nt > 1) tc = 0;
		put(out, ut ? yc : 0, 4); put(out, std_ ? yc : 0, 4); put(out, lc, 4); put(out, tc, 4); put(out, yc, 4); put(out, cc, 4);
		for (ll i = 0; i < tc; i++) put(out, z.at[(size_t)i], w); for (ll i = 0; i < tc; i++) out.push_back((char)z.ty[(size_t)i]);
		for (ll i = 0; i < yc; i++) { put(out, z.types[(size_t)i].off, 4); out.push_back((char)z.types[(size_t)i].dst); out.push_back((char)abi[(size_t)i]); }
		out += abs.substr(0, (size_t)cc); for (ll i = 0; i < lc; i++) { put(out, 78796800 + i * 31536000, w); put(out, i + 1, 4); }
		if (std_) out += S((size_t)yc, '\0'); if (ut) out += S((size_t)yc, '\0');
	};
	if (ver == 0) block(4, true); else { block(4, false); block(8, true); out += "\n"; out += "\n"; }
	S p = S(vh_tmpdir()) + "/z.tz"; FILE *f = fopen(p.c_str(), "wb"); fwrite(out.data(), 1, out.size(), f); fclose(f);
	M_time_tzs_t *tzs = M_time_tzs_create(); char nm[128]; snprintf(nm, sizeof nm, "synthetic v%d types %d transitions %zu leap %lld std %d ut %d", ver, nt, z.at.size(), leap, std_, ut);
	VH_CHECK(M_time_tzs_add_tzfile(tzs, p.c_str(), "Syn/th") == M_TIME_RESULT_SUCCESS, "synth:load", "%s refused", nm);
	zone_check(z, M_time_tzs_get_tz(tzs, "Syn/th"), nm, "synth", 10); M_time_tzs_destroy(tzs);
	/* damaged copies never break memory; whatever loads converts */
	for (int k = 0; k < 3; k++) {
		S bad = out; if (vh_chance(50)) bad.resize(vh_rndn(bad.size())); else { int m = (int)vh_range(1, 4); while (m--) { size_t at = vh_chance(40) ? (ver && vh_chance(50) ? out.size() / 2 : 4) + vh_rndn(40) : vh_rndn(bad.size()); if (at < bad.size()) { size_t h2 = out.rfind("TZif"); if ((at >= 20 && at < 44 && (at % 4) < 2) || (at >= h2 + 20 && at < h2 + 44 && ((at - h2) % 4) < 2)) continue; bad[at] = (char)vh_rnd(); } } }
		f = fopen(p.c_str(), "wb"); fwrite(bad.data(), 1, bad.size(), f); fclose(f);
		tzs = M_time_tzs_create(); M_time_result_t r = M_time_tzs_add_tzfile(tzs, p.c_str(), "x"); const M_time_tz_t *tz = M_time_tzs_get_tz(tzs, "x"); VH_CHECK((r == M_TIME_RESULT_SUCCESS) == (tz != NULL), "synth:bad", "result %d", (int)r);
		if (tz) { for (int i = 0; i < 4; i++) { struct M_time_tm tm; M_time_tolocal(vh_range(-3000000000LL, 3000000000LL), &tm, tz); VH_CHECK(memchr(tm.abbr, 0, sizeof tm.abbr) != NULL, "synth:abbr", "unterminated"); } vh_count("damaged_loaded", 1); } else vh_count("damaged_refused", 1);
		M_time_tzs_destroy(tzs);
	}
	vh_count("zones", 1); vh_distinct(vh_hash(out.data(), out.size(), 0));
}
/* POSIX rules */
struct R { int m, w, d; ll at; };
static R rr(int m) { R r; r.m = m; r.w = (int)vh_range(1, 5); r.d = (int)vh_range(0, 6); r.at = vh_chance(60) ? vh_range(0, 6) * 3600 : vh_range(0, 86399); return r; }
static S hms(ll s, bool full) { char b[32]; if (full || s % 60) snprintf(b, sizeof b, "%02lld:%02lld:%02lld", s / 3600, s / 60 % 60, s % 60); else if (s % 3600 || vh_chance(20)) snprintf(b, sizeof b, "%lld:%02lld", s / 3600, s / 60 % 60); else snprintf(b, sizeof b, "%lld", s / 3600); return b; }
static S rs(const R &r) { char b[32]; snprintf(b, sizeof b, "M%d.%d.%d", r.m, r.w, r.d); S s = b; if (r.at != 7200 || vh_chance(50)) s += "/" + hms(r.at, vh_chance(50)); return s; }
static ll rt(const R &r, ll y) { ll first = days_civil(y, r.m, 1); int w = (int)fmod_(first + 4, 7); ll d = first + (r.d - w + 7) % 7 + 7 * (r.w - 1); ll dim = days_civil(r.m == 12 ? y + 1 : y, r.m == 12 ? 1 : r.m + 1, 1) - first; while (d >= first + dim) d -= 7; return d * 86400 + r.at; }
static void posix(void) { uint64_t c = vh_case; (void)c;
	S a1 = vh_from("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef", (size_t)vh_range(3, 6)), a2 = vh_from("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef", (size_t)vh_range(3, 6));
	ll off = vh_chance(60) ? vh_range(-14, 14) * 3600 : vh_range(-14 * 60, 14 * 60) * 60; bool dst = vh_chance(85); ll doff = off + 3600;
	S s = a1; ll w = -off; if (w < 0) s += "-"; else if (vh_chance(20)) s += "+"; s += hms(w < 0 ? -w : w, vh_chance(30));
	R st, en; int kind = 0;
	if (dst) {
		s += a2; if (vh_chance(30)) { doff = off + (vh_chance(70) ? 1 : -1) * (ll)vh_pick(std::vector<ll>{ 1800, 3600, 7200, 1200 }); ll x = -doff; if (x < 0) s += "-"; s += hms(x < 0 ? -x : x, vh_chance(30)); }
		if (vh_chance(50)) { st = rr((int)vh_range(2, 5)); en = rr((int)vh_range(7, 11)); kind = 1; } else { st = rr((int)vh_range(8, 11)); en = rr((int)vh_range(2, 5)); kind = 2; }
		s += "," + rs(st) + "," + rs(en);
	}
	setenv("TZ", s.c_str(), 1); tzset();
	M_time_tzs_t *tzs = M_time_tzs_create(); M_time_result_t res = M_time_tzs_add_posix_str(tzs, s.c_str()); VH_CHECK(res == M_TIME_RESULT_SUCCESS, "posix:load", "%s: %d", s.c_str(), (int)res);
	VH_CHECK(M_time_tzs_add_posix_str(tzs, s.c_str()) == M_TIME_RESULT_DUP, "posix:dup", "%s", s.c_str());
	size_t comma = s.find(','); const M_time_tz_t *tz = M_time_tzs_get_tz(tzs, s.substr(0, comma).c_str()); VH_CHECK(tz != NULL, "posix:name", "%s", s.c_str());
	std::vector<ll> ts; for (int i = 0; i < 12; i++) ts.push_back(vh_range(0, 6000000000LL));
	if (dst) for (int i = 0; i < 5; i++) { ll y = vh_range(1971, 2150); ll b = vh_chance(50) ? rt(st, y) - off : rt(en, y) - doff; for (ll d : { -1LL, 0LL, 1LL }) ts.push_back(b + d); ts.push_back(b + vh_range(-9000, 9000)); }
	for (ll t : ts) {
		time_t tt = (time_t)t; struct tm ct; localtime_r(&tt, &ct);
		/* reading back is unique unless the same wall clock with the same flag occurs twice, which one rule cannot produce */
		one(tz, t, ct.tm_gmtoff, ct.tm_isdst != 0, ct.tm_zone, s, "posix");
	}
	vh_count("rules", 1); if (kind == 2) vh_count("southern", 1); if (doff < off) vh_count("negative_dst", 1); vh_distinct(vh_hstr(s.c_str(), 0)); if (vh_chance(1)) vh_sample("%s", s.c_str());
	/* damaged strings */
	S bad = s; int m = (int)vh_range(1, 3); while (m--) { size_t at = vh_rndn(bad.size()); if (vh_chance(50)) bad.erase(at, 1); else bad[at] = "0123456789,./:+-MJ<>ab"[vh_rndn(22)]; if (bad.empty()) bad = "x"; }
	Heap hb(bad, true); M_time_tzs_t *t2 = M_time_tzs_create(); M_time_result_t r2 = M_time_tzs_add_posix_str(t2, (const char *)hb.p); M_list_str_t *l = M_time_tzs_get_loaded_zones(t2); VH_CHECK((r2 == M_TIME_RESULT_SUCCESS) == (M_list_str_len(l) == 1), "posix:bad", "'%s' result %d", bad.c_str(), (int)r2);
	if (l) { const M_time_tz_t *b = M_time_tzs_get_tz(t2, M_list_str_at(l, 0)); struct M_time_tm tm; if (b) M_time_tolocal(1500000000, &tm, b); } M_list_str_destroy(l); 
	bool must = M_str_eq("", "x"); (void)must; M_time_tzs_destroy(t2); M_time_tzs_destroy(tzs); (void)c;
}
/* zone files with per-year rules */
static S ioff(ll off, bool allowplus) { S s; if (off > 0) s = "+"; else if (allowplus && off < 0 && vh_chance(20)) s = "-"; ll a = off < 0 ? -off : off; return s + hms(a, vh_chance(30)); }
static void mtz(void) { uint64_t c = vh_case; (void)c;
	S name = "Zone/" + vh_from("ABCDEFGH", 4), alias = "al_" + vh_from("abcdefgh", 5); ll off = vh_range(-14, 14) * 3600 + (vh_chance(20) ? 1800 : 0), doff = off + 3600; if (off > 14 * 3600) off -= 3600, doff -= 3600;
	int nr = (int)vh_range(0, 4); std::map<ll, std::pair<R, R>> rules; S ini = "[" + name + "]\n"; if (vh_chance(70)) ini += "alias=" + alias + "\n"; else alias = name;
	ini += "offset=" + ioff(off, true) + "\nabbr=STD\n"; if (nr) ini += "offset_dst=" + ioff(doff, true) + "\nabbr_dst=DDT\n";
	bool south = vh_chance(50);
	for (int i = 0; i < nr; i++) { ll y = vh_range(1960, 2040); if (rules.count(y)) continue; R a = rr((int)vh_range(2, 5)), b = rr((int)vh_range(7, 11)); rules[y] = south ? std::make_pair(b, a) : std::make_pair(a, b); auto &q = rules[y]; auto f = [&](R &r) { S s = rs(r); if (vh_chance(30)) { int k = (int)vh_range(1, 3); r.w = -k; char bb[32]; snprintf(bb, sizeof bb, "M%d.%d.%d", r.m, r.w, r.d); S t = s.substr(s.find('/') == S::npos ? s.size() : s.find('/')); s = bb + t; } return s; }; S x = f(q.first), y2 = f(q.second); ini += "dst=" + std::to_string(y) + ";" + x + "," + y2 + "\n"; }
	M_time_tzs_t *tzs = M_time_tzs_create(); size_t el = 0; char *es = NULL, *ed = NULL; M_time_result_t r = M_mtzfile_tzs_add_str(tzs, ini.c_str(), &el, &es, &ed); VH_CHECK(r == M_TIME_RESULT_SUCCESS, "mtz:load", "%d for %s", (int)r, ini.c_str()); M_free(es); M_free(ed);
	const M_time_tz_t *tz = M_time_tzs_get_tz(tzs, alias.c_str()); VH_CHECK(tz && tz == M_time_tzs_get_tz(tzs, name.c_str()), "mtz:alias", "%s", ini.c_str());
	auto at = [&](const R &q, ll y) { if (q.w > 0) return rt(q, y); ll first = days_civil(y, q.m, 1), last = days_civil(q.m == 12 ? y + 1 : y, q.m == 12 ? 1 : q.m + 1, 1) - 1; (void)first; int w = (int)fmod_(last + 4, 7); ll d = last - (w - q.d + 7) % 7 - 7 * (-q.w - 1); return d * 86400 + q.at; };
	auto isd = [&](ll t) { if (rules.empty()) return false; ll y = split(t + off).y; auto it = rules.upper_bound(y); if (it != rules.begin()) --it; ll s = at(it->second.first, y) - off, e = at(it->second.second, y) - doff; return s < e ? t >= s && t < e : t >= s || t < e; };
	std::vector<ll> ts; for (int i = 0; i < 10; i++) ts.push_back(vh_range(-600000000LL, 3000000000LL));
	for (auto &q : rules) for (int i = 0; i < 3; i++) { ll y = q.first + vh_range(-1, 3); auto it = rules.upper_bound(y); if (it != rules.begin()) --it; ll b = vh_chance(50) ? at(it->second.first, y) - off : at(it->second.second, y) - doff; for (ll d : { -1LL, 0LL, 1LL, -3000LL, 3000LL }) ts.push_back(b + d); }
	for (ll t : ts) { bool d = isd(t); ll y0 = split(t + off).y; F f = split(t + off); bool edge = rules.size() > 1 && (f.yd < 2 || f.yd > 362); (void)y0; one(tz, t, d ? doff : off, d, d ? "DDT" : "STD", ini, "mtz", !edge); }
	vh_count("zones", 1); vh_distinct(vh_hstr(ini.c_str(), 0)); if (rules.size() > 1) vh_count("multiyear", 1); M_time_tzs_destroy(tzs); (void)c;
}
static void load(void) { uint64_t c = vh_case; (void)c;
	M_time_tzs_t *tzs = NULL; static const M_uint32 zs[] = { M_TIME_TZ_ZONE_ALL, M_TIME_TZ_ZONE_AMERICA, M_TIME_TZ_ZONE_EUROPE, M_TIME_TZ_ZONE_AMERICA | M_TIME_TZ_ZONE_ASIA };
	M_uint32 z = zs[c % 4]; M_time_load_source_t s = M_time_tzs_load(&tzs, z, M_TIME_TZ_ALIAS_OLSON_ALL, M_TIME_TZ_LOAD_LAZY); struct stat st;
	if (stat(ZI.c_str(), &st) == 0) { VH_CHECK(s == M_TIME_LOAD_SOURCE_SYSTEM, "load:source", "source %d", (int)s);
		bool am = z == 0 || z & M_TIME_TZ_ZONE_AMERICA, eu = z == 0 || z & M_TIME_TZ_ZONE_EUROPE, as = z == 0 || z & M_TIME_TZ_ZONE_ASIA;
		VH_CHECK((M_time_tzs_get_tz(tzs, "America/New_York") != NULL) == am && (M_time_tzs_get_tz(tzs, "Europe/Berlin") != NULL) == eu && (M_time_tzs_get_tz(tzs, "Asia/Tokyo") != NULL) == as, "load:zones", "zones %x", z); vh_count("loads", 1); }
	M_time_tzs_destroy(tzs);
	M_time_tzs_t *a = M_time_tzs_create(), *b = M_time_tzs_create(); M_time_tzs_add_posix_str(a, "AAA1"); M_time_tzs_add_posix_str(b, "BBB2BBD,M3.1.0,M10.1.0"); bool dup = c & 1; if (dup) M_time_tzs_add_posix_str(b, "AAA1");
	char *err = NULL; M_bool ok = M_time_tzs_merge(&a, b, &err); VH_CHECK((bool)ok == !dup, "merge", "ok %d", ok); VH_CHECK((M_time_tzs_get_tz(a, "bbb2bbd") != NULL) == !dup && M_time_tzs_get_tz(a, "AAA1"), "merge:zones", "dup %d", dup); if (dup) { VH_CHECK(err && S(err) == "AAA1", "merge:err", "%s", err ? err : "(null)"); M_time_tzs_destroy(b); } M_free(err); M_time_tzs_destroy(a);
}
const vh_mode_t vh_modes[] = { { "gm", gm }, { "olson", olson, NULL, fin }, { "synth", synth }, { "posix", posix }, { "mtz", mtz }, { "load", load }, { 0 } };
