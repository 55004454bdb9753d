/* B17: time formatting, parsing and differences, judged by an independent formatter and recogniser. */
#include "vh.hpp"
#include <mstdlib/mstdlib_formats.h>
#include <time.h>
typedef long long ll;
static ll fdiv(ll a, ll b) { ll q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
static ll days_civil(ll y, int m, int d) { y -= m <= 2; ll era = fdiv(y, 400); ll yoe = y - era * 400; ll doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; ll doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static int dim(ll y, int m) { return (int)(days_civil(m == 12 ? y + 1 : y, m == 12 ? 1 : m + 1, 1) - days_civil(y, m, 1)); }
static const char *WD[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *MN[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static S p2(ll v) { char b[32]; snprintf(b, sizeof b, "%02lld", v); return b; }
static S p4(ll v) { char b[32]; snprintf(b, sizeof b, "%04lld", v); return b; }
static S zone(ll off) { ll a = off < 0 ? -off : off; return S(off < 0 ? "-" : "+") + p2(a / 3600) + p2(a / 60 % 60); }
/* what the documentation says each descriptor writes */
static bool fmt_model(const S &fmt, const struct M_time_tm &t, S &out) {
	out.clear();
	for (size_t i = 0; i < fmt.size(); i++) {
		if (fmt[i] != '%') { out += fmt[i]; continue; }
		if (++i >= fmt.size()) return false;
		switch (fmt[i]) {
		case '%': out += '%'; break; case 'a': out += WD[t.wday]; break; case 'b': out += MN[t.month - 1]; break;
		case 'm': out += p2(t.month); break; case 'd': out += p2(t.day); break; case 'y': out += p2(t.year % 100); break; case 'Y': out += p4(t.year); break;
		case 'H': out += p2(t.hour); break; case 'I': out += p2(t.hour % 12 ? t.hour % 12 : 12); break; case 'M': out += p2(t.min); break; case 'S': out += p2(t.sec); break;
		case 'T': out += p2(t.hour) + ":" + p2(t.min) + ":" + p2(t.sec); break; case 'P': out += t.hour >= 12 ? "PM" : "AM"; break; case 'p': out += t.hour >= 12 ? "pm" : "am"; break;
		case 'z': out += zone(t.gmtoff); break; case 'Z': out += t.abbr; break;
		default: return false;
		}
	}
	return true;
}
static ll g_year; /* current year */
static bool dig(const S &s, size_t i) { return i < s.size() && s[i] >= '0' && s[i] <= '9'; }
static ll num(const S &s, size_t &i, int n) { if (!dig(s, i)) return -1; ll v = 0; while (n-- && dig(s, i)) v = v * 10 + (s[i++] - '0'); return v; }
static bool pre(const S &s, size_t i, const char *w, bool nocase) { for (; *w; w++, i++) { if (i >= s.size()) return false; char a = s[i], b = *w; if (nocase) { a = (char)tolower((unsigned char)a); b = (char)tolower((unsigned char)b); } if (a != b) return false; } return true; }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
/* what the documentation says each descriptor reads; false = does not match */
static bool parse_model(const S &s, const S &fmt, struct M_time_tm &t, size_t &end) {
	size_t i = 0;
	for (size_t f = 0; f < fmt.size() && i < s.size(); f++) {
		if (fmt[f] != '%') { if (sp(fmt[f])) { while (i < s.size() && sp(s[i])) i++; } else { if (fmt[f] != s[i]) return false; i++; } continue; }
		if (++f >= fmt.size()) return false;
		ll x;
		switch (fmt[f]) {
		case '%': if (s[i] != '%') return false; i++; break;
		case 'm': x = num(s, i, 2); if (x < 1 || x > 12) return false; t.month = x; break;
		case 'd': x = num(s, i, 2); if (x < 1 || x > 31) return false; t.day = x; break;
		case 'H': x = num(s, i, 2); if (x < 0 || x > 23) return false; t.hour = x; break;
		case 'I': x = num(s, i, 2); if (x < 1 || x > 12) return false; t.hour = x; break;
		case 'M': x = num(s, i, 2); if (x < 0 || x > 59) return false; t.min = x; break;
		case 'S': x = num(s, i, 2); if (x < 0 || x > 60) return false; t.sec = x; break;
		case 'Y': case 'y': { int n = fmt[f] == 'Y' ? 4 : 2; for (int k = 0; k < n; k++) if (!dig(s, i + k)) return false; x = num(s, i, n); if (n == 2) { x += g_year / 100 * 100; if (x > g_year + 20) x -= 100; } t.year = x; t.year2 = x % 100; break; }
		case 'P': case 'p': {
			bool pm; if (pre(s, i, "p.m.", true)) { pm = true; i += 4; } else if (pre(s, i, "a.m.", true)) { pm = false; i += 4; } else if (pre(s, i, "pm", true)) { pm = true; i += 2; } else if (pre(s, i, "am", true)) { pm = false; i += 2; } else if (pre(s, i, "p", true)) { pm = true; i++; } else if (pre(s, i, "a", true)) { pm = false; i++; } else return false;
			if (!pm && t.hour > 12) return false;
			if (pm && t.hour < 12 && t.hour) t.hour += 12; else if (!pm && t.hour == 12) t.hour = 0;
			break; }
		case 'z': {
			static const struct { const char *n; int h; } N[] = {{"UTC", 0}, {"GMT", 0}, {"UT", 0}, {"EST", -5}, {"EDT", -4}, {"CST", -6}, {"CDT", -5}, {"cdt", -5}, {"MST", -7}, {"MDT", -6}, {"PST", -8}, {"PDT", -7}};
			bool got = false; for (auto &n : N) if (pre(s, i, n.n, false) || (n.h == -5 && n.n[0] == 'C' && s[i] == 'C' && pre(s, i, "cdt", true))) { if (n.n[0] == 'c') continue; i += strlen(n.n); t.gmtoff = n.h * 3600; got = true; break; }
			if (got) break;
			char c = s[i];
			if (c >= 'A' && c <= 'I') { t.gmtoff = -(c - 'A' + 1) * 3600; i++; }
			else if (c >= 'K' && c <= 'M') { t.gmtoff = -(c - 'A') * 3600; i++; }
			else if (c >= 'N' && c <= 'Y') { t.gmtoff = (c - 'N' + 1) * 3600; i++; }
			else if (c == 'Z') { t.gmtoff = 0; i++; }
			else if (c == '+' || c == '-' || (c >= '0' && c <= '2')) { bool neg = c == '-'; if (c == '+' || c == '-') i++; x = num(s, i, 2); if (x < 0) return false; ll o = x * 3600; if (i < s.size() && s[i] == ':') i++; if (dig(s, i)) o += num(s, i, 2) * 60; t.gmtoff = neg ? -o : o; }
			else return false;
			break; }
		default: return false;
		}
	}
	end = i; return true;
}
static void rnd_tm(struct M_time_tm &t) {
	memset(&t, 0, sizeof t); t.year = vh_chance(70) ? vh_range(1900, 2100) : vh_range(0, 9999); t.month = vh_range(1, 12); t.day = vh_range(1, dim(t.year, (int)t.month)); if (vh_chance(10)) t.day = dim(t.year, (int)t.month);
	t.hour = vh_chance(30) ? (ll[]){0, 11, 12, 13, 23}[vh_rndn(5)] : vh_range(0, 23); t.min = vh_range(0, 59); t.sec = vh_range(0, 59); t.year2 = t.year % 100; t.wday = (((days_civil(t.year, (int)t.month, (int)t.day) + 4) % 7) + 7) % 7;
	t.gmtoff = vh_chance(30) ? 0 : vh_range(-14 * 4, 14 * 4) * 900; snprintf(t.abbr, sizeof t.abbr, "%s", vh_chance(50) ? "EST" : "CEST"); t.isdst = vh_range(-1, 1);
}
static S lit(void) { static const char *L[] = {" ", "/", "-", ":", " T ", "T", ".", ",", "  ", "%%", "h", "7", "\t", "Z "}; return L[vh_rndn(14)]; }
static void same(const char *k, const struct M_time_tm &a, const struct M_time_tm &b, const S &txt, const S &fmt) {
	VH_CHECK(a.year == b.year && a.year2 == b.year2 && a.month == b.month && a.day == b.day && a.hour == b.hour && a.min == b.min && a.sec == b.sec && a.gmtoff == b.gmtoff && a.isdst == b.isdst && a.wday == b.wday && a.yday == b.yday && !strcmp(a.abbr, b.abbr), k,
		"%s as %s: %lld-%lld-%lld %lld:%lld:%lld %lld want %lld-%lld-%lld %lld:%lld:%lld %lld", E(txt), E(fmt), (ll)a.year, (ll)a.month, (ll)a.day, (ll)a.hour, (ll)a.min, (ll)a.sec, (ll)a.gmtoff, (ll)b.year, (ll)b.month, (ll)b.day, (ll)b.hour, (ll)b.min, (ll)b.sec, (ll)b.gmtoff);
}
static void cur(void) { struct M_time_tm n; time_t now = time(NULL); struct tm g; gmtime_r(&now, &g); g_year = g.tm_year + 1900; (void)n; }
static void rt(void) { cur();
	struct M_time_tm t; rnd_tm(t); S fmt; std::vector<S> d = {"%m", "%d", vh_chance(80) ? "%Y" : "%y", "%M", "%S"}; if (vh_chance(50)) d.push_back("%z");
	for (size_t i = d.size(); i > 1; i--) std::swap(d[i - 1], d[vh_rndn(i)]);
	d.resize(1 + vh_rndn(d.size())); bool half = vh_chance(40), ap = half || vh_chance(30); S h = half ? "%I" : "%H"; size_t at = vh_rndn(d.size() + 1); d.insert(d.begin() + at, h); if (ap) d.insert(d.begin() + at + 1 + vh_rndn(d.size() - at), vh_chance(50) ? "%P" : "%p");
	bool outonly = vh_chance(10); if (outonly) { static const char *O[] = {"%a", "%b", "%T", "%Z"}; d.insert(d.begin() + vh_rndn(d.size() + 1), O[vh_rndn(4)]); }
	for (size_t i = 0; i < d.size(); i++) { if (i ? vh_chance(70) : vh_chance(20)) fmt += lit(); fmt += d[i]; } if (vh_chance(20)) fmt += lit();
	S want; fmt_model(fmt, t, want); struct M_time_tm in = t; if (vh_chance(50)) in.year2 = 0;
	if (vh_chance(20) && !outonly) { /* denormalised input means the same time */ ll k = vh_range(-3, 3); in.hour += 24 * k; in.day -= k; ll j = vh_range(-2, 2); in.month += 12 * j; in.year -= j; if (vh_chance(50)) { in.sec += 60 * k; in.min -= k; } }
	if (in.day != t.day) { /* the shift is in days of the same month only if it normalises back to it; M_time_normalize_tm is B16's subject */ }
	Heap hf(fmt, true); char *o = M_time_to_str((const char *)hf.p, &in); VH_CHECK(o && S(o) == want, "to_str", "format %s: %s want %s", E(fmt), o ? E(o) : "NULL", E(want));
	vh_count("formatted", 1); if (!o) return;
	if (!outonly) {
		struct M_time_tm r, m; memset(&r, 0, sizeof r); r.year = r.month = r.day = r.min = r.sec = 777; r.hour = 5; r.isdst = 9; strcpy(r.abbr, "qq"); m = r;
		Heap ht(want, true); char *e = M_time_parsefmt((const char *)ht.p, (const char *)hf.p, &r);
		VH_CHECK(e == (char *)ht.p + want.size(), "roundtrip:end", "%s as %s: %s", E(want), E(fmt), e ? E(e) : "no match");
		bool has = false; auto H = [&](const char *x) { has = false; for (auto &q : d) if (q == x) has = true; return has; };
		if (e) {
			if (H("%Y")) VH_CHECK(r.year == t.year && r.year2 == t.year2, "roundtrip:year", "%s", E(want));
			if (H("%y")) VH_CHECK(r.year % 100 == t.year % 100 && r.year > g_year - 80 && r.year <= g_year + 20, "roundtrip:year2", "%s -> %lld", E(want), (ll)r.year);
			VH_CHECK(r.month == (H("%m") ? t.month : 777), "roundtrip:month", "%s as %s: %lld", E(want), E(fmt), (ll)r.month);
			VH_CHECK(r.day == (H("%d") ? t.day : 777), "roundtrip:day", "%s as %s: %lld", E(want), E(fmt), (ll)r.day);
			VH_CHECK(r.min == (H("%M") ? t.min : 777), "roundtrip:min", "%s as %s: %lld", E(want), E(fmt), (ll)r.min);
			VH_CHECK(r.sec == (H("%S") ? t.sec : 777), "roundtrip:sec", "%s as %s: %lld", E(want), E(fmt), (ll)r.sec);
			VH_CHECK(r.hour == t.hour, "roundtrip:hour", "%s as %s: %lld want %lld", E(want), E(fmt), (ll)r.hour, (ll)t.hour);
			VH_CHECK(r.gmtoff == (H("%z") ? t.gmtoff : 0), "roundtrip:gmtoff", "%s as %s: %lld want %lld", E(want), E(fmt), (ll)r.gmtoff, (ll)t.gmtoff);
			vh_count("roundtrips", 1); vh_distinct(vh_hstr(fmt.c_str(), 0));
		}
	}
	M_free(o);
}
static S mutate(S s) { int n = 1 + (int)vh_rndn(3); while (n--) { static const char A[] = "0123456789:/-+ APMapm.TZUGECNYJ%\tdSHIyYz,"; size_t i = s.empty() ? 0 : vh_rndn(s.size()); switch (vh_rndn(5)) { case 0: if (!s.empty()) s.erase(i, 1); break; case 1: s.insert(i, 1, A[vh_rndn(sizeof A - 1)]); break; case 2: if (!s.empty()) s[i] = A[vh_rndn(sizeof A - 1)]; break; case 3: s.resize(i); break; default: s += A[vh_rndn(sizeof A - 1)]; } } return s; }
static void parse(void) { cur();
	struct M_time_tm t; rnd_tm(t); S fmt; static const char *D[] = {"%m", "%d", "%Y", "%y", "%H", "%I", "%M", "%S", "%P", "%p", "%z", "%z", "%%", "%q", "%"}; int n = 1 + (int)vh_rndn(6);
	for (int i = 0; i < n; i++) { if (vh_chance(50)) fmt += lit(); fmt += D[vh_rndn(vh_chance(5) ? 15 : 13)]; }
	S txt; if (!fmt_model(fmt, t, txt)) txt = vh_from("0123456789:/- %", vh_rndn(20));
	/* other spellings of zones and halves of the day */
	static const char *Z[] = {"UTC", "GMT", "UT", "EST", "EDT", "CST", "CDT", "MST", "MDT", "PST", "PDT", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "-05", "+5", "+05:30", "0530", "-", "+", "12", "+:30", "3", "a", "+9999"}; static const char *AP[] = {"A.M.", "p.m.", "P.M.", "a.m.", "a", "P", "pM", "Am", "p.m", "A.", "x"};
	if (vh_chance(50)) { S z = zone(t.gmtoff); size_t i = txt.find(z); if (i != S::npos) txt.replace(i, 5, Z[vh_rndn(sizeof Z / sizeof *Z)]); }
	if (vh_chance(50)) { for (const char *w : {"AM", "PM", "am", "pm"}) { size_t i = txt.find(w); if (i != S::npos) { txt.replace(i, 2, AP[vh_rndn(11)]); break; } } }
	if (vh_chance(60)) txt = mutate(txt); if (vh_chance(10)) fmt = mutate(fmt); if (vh_chance(20)) txt += vh_from(" x0:", vh_rndn(4));
	for (auto &ch : txt) if (!ch) ch = ' ';
	struct M_time_tm r; memset(&r, 0, sizeof r); r.year = r.month = r.day = r.min = r.sec = 777; r.hour = vh_range(0, 23); r.isdst = 9; struct M_time_tm m = r; size_t end = 0; bool ok = parse_model(txt, fmt, m, end);
	Heap ht(txt, true), hf(fmt, true); char *e = M_time_parsefmt((const char *)ht.p, (const char *)hf.p, &r);
	VH_CHECK((e != NULL) == ok, ok ? "parse:rejected" : "parse:accepted", "%s as %s", E(txt), E(fmt));
	if (e && ok) { VH_CHECK(e == (char *)ht.p + end, "parse:end", "%s as %s: stopped at %s, want offset %zu", E(txt), E(fmt), E(e), end); same("parse:fields", r, m, txt, fmt); vh_count("accepted", 1); } else vh_count("rejected", 1);
	if (e && (fmt.find("%z") != S::npos) && r.gmtoff) vh_count("offsets", 1);
	vh_distinct(vh_hstr(txt.c_str(), vh_hstr(fmt.c_str(), 0)));
}
static M_time_tzs_t *g_tzs; static const M_time_tz_t *g_tz;
static void fs_setup(void) { g_tzs = M_time_tzs_create(); M_time_tzs_add_posix_str(g_tzs, "EST5EDT,M3.2.0/02:00:00,M11.1.0/02:00:00"); g_tz = M_time_tzs_get_tz(g_tzs, "EST5EDT"); }
static void fs_done(void) { M_time_tzs_destroy(g_tzs); }
static void fromstr(void) { cur();
	static const char *DT[] = {"%m/%d/%Y", "%m-%d-%Y", "%m/%d/%y", "%Y/%m/%d", "%Y-%m-%d"}, *DO[] = {"%m/%d/%Y", "%m-%d-%Y", "%m-%d-%y", "%m/%d/%y", "%m%d%Y", "%m%d%y", "%Y/%m/%d", "%Y-%m-%d"};
	static const char *TM[] = {"%H%M", "%H%M%S", "%H%M%S %z", "%H:%M", "%H:%M %P", "%H:%M %p", "%I:%M %P", "%I:%M %p", "%H:%M:%S", "%H:%M:%S %P", "%H:%M:%S %p", "%I:%M:%S %P", "%I:%M:%S %p", "%H:%M:%S %z", "%H-%M", "%H-%M %P", "%I-%M %p", "%H-%M-%S", "%H-%M-%S %P", "%I-%M-%S %p", "%H-%M-%S %z"};
	struct M_time_tm t; rnd_tm(t); t.year = vh_range(g_year - 79, g_year + 20); t.day = vh_range(1, dim(t.year, (int)t.month)); bool eod = vh_chance(50); S fmt; bool time = vh_chance(75);
	if (time) fmt = S(DT[vh_rndn(5)]) + (vh_chance(50) ? " " : " T ") + TM[vh_rndn(21)]; else fmt = DO[vh_rndn(8)];
	if (!time) { t.hour = eod ? 23 : 0; t.min = t.sec = eod ? 59 : 0; } else if (fmt.find("%S") == S::npos) t.sec = eod ? 59 : 0;
	S txt; fmt_model(fmt, t, txt); bool z = fmt.find("%z") != S::npos; ll want; bool skip = false; const M_time_tz_t *tz = vh_chance(70) ? g_tz : NULL;
	if (z) want = days_civil(t.year, (int)t.month, (int)t.day) * 86400 + t.hour * 3600 + t.min * 60 + t.sec - t.gmtoff;
	else { struct M_time_tm l; memset(&l, 0, sizeof l); l.year = t.year; l.month = t.month; l.day = t.day; l.hour = t.hour; l.min = t.min; l.sec = t.sec; l.isdst = -1; want = M_time_fromlocal(&l, tz); }
	Heap h(txt, true); ll got = M_time_from_str((const char *)h.p, tz, eod ? M_TRUE : M_FALSE); (void)skip;
	VH_CHECK(got == want, "from_str", "%s (%s) eod %d: %lld want %lld", E(txt), E(fmt), eod, got, want); vh_count(z ? "with_offset" : time ? "date_times" : "dates", 1); vh_distinct(vh_hstr(fmt.c_str(), eod));
	/* what matches none of the formats is rejected */
	{ S bad = txt; switch (vh_rndn(5)) { case 0: bad += "x"; break; case 1: bad = "x" + bad; break; case 2: { size_t i = bad.find_first_of("/-"); if (i != S::npos) bad[i] = '_'; else bad += "!"; break; } case 3: bad = vh_from("abxq", 1 + vh_rndn(8)); break; default: bad += " 99:99:99"; }
	  Heap hb(bad, true); ll r = M_time_from_str((const char *)hb.p, tz, M_FALSE); VH_CHECK(r == -1, "from_str:bad", "%s accepted as %lld", E(bad), r); vh_count("rejected", 1); }
	/* relative times */
	{ static const char *U[] = {"year", "month", "week", "day", "hour", "min", "sec", "years", "days", "seconds", "minutes"}; ll n = vh_range(0, 400); bool neg = vh_chance(50); int u = (int)vh_rndn(11); S s = S(neg ? "-" : "+") + std::to_string(n) + (vh_chance(80) ? " " : "   ") + U[u]; if (vh_chance(20)) s = "  " + s; if (neg) n = -n;
	  if (vh_chance(10)) { s = "yesterday"; n = -1; u = 3; } else if (vh_chance(10)) { s = "Tomorrow"; n = 1; u = 3; }
	  Heap hr(s, true); ll got2 = 0; bool ok = false;
	  for (int a = 0; a < 4 && !ok; a++) { ll b = M_time(); got2 = M_time_from_str((const char *)hr.p, g_tz, M_FALSE); ll e = M_time(); for (ll q = b; q <= e; q++) { struct M_time_tm l; M_time_tolocal(q, &l, g_tz); struct M_time_tm m; memset(&m, 0, sizeof m); m.isdst = -1; m.year = l.year; m.month = l.month; m.day = l.day; m.hour = l.hour; m.min = l.min; m.sec = l.sec;
	    switch (u) { case 0: case 7: m.year += n; break; case 1: m.month += n; break; case 2: m.day += 7 * n; break; case 3: case 8: m.day += n; break; case 4: m.hour += n; break; case 5: case 10: m.min += n; break; default: m.sec += n; }
	    if (M_time_fromlocal(&m, g_tz) == got2) ok = true; } }
	  VH_CHECK(ok, "from_str:relative", "%s gave %lld now %lld", E(s), got2, (ll)M_time()); vh_count("relative", 1);
	  ll b = M_time(), nw = M_time_from_str(vh_chance(50) ? "now" : "today", g_tz, M_FALSE), e = M_time(); VH_CHECK(nw >= b && nw <= e, "from_str:now", "%lld", nw);
	  VH_CHECK(M_time_from_str("epoch", g_tz, M_FALSE) == 0 && M_time_from_str("+5", g_tz, M_FALSE) == -1 && M_time_from_str("+5 moons", g_tz, M_FALSE) == -1 && M_time_from_str("", NULL, M_FALSE) == -1 && M_time_from_str(NULL, NULL, M_FALSE) == -1, "from_str:words", "fixed words");
	  struct M_time_tm l, d2; M_time_tolocal(M_time(), &l, g_tz); ll bod = M_time_from_str("BOD", g_tz, M_FALSE), eo = M_time_from_str("EOD", g_tz, M_FALSE); M_time_tolocal(bod, &d2, g_tz); VH_CHECK(d2.hour == 0 && d2.min == 0 && d2.sec == 0, "from_str:bod", "%lld", bod); M_time_tolocal(eo, &d2, g_tz); VH_CHECK(d2.hour == 23 && d2.min == 59 && d2.sec == 59 && eo > bod, "from_str:eod", "%lld", eo); }
	/* anything at all */
	{ S any = vh_chance(50) ? mutate(txt) : vh_from("0123456789/-: TAPMZapm+yesterdayEODBnow\t.", vh_rndn(30)); for (auto &ch : any) if (!ch) ch = ' '; Heap ha(any, true); (void)M_time_from_str((const char *)ha.p, g_tz, M_FALSE); vh_count("arbitrary", 1); }
}
static void diff(void) {
	M_timeval_t a, b; bool big = vh_chance(20); a.tv_sec = vh_range(big ? -1000000000000LL : -5, big ? 1000000000000LL : 5); b.tv_sec = vh_range(big ? -1000000000000LL : -5, big ? 1000000000000LL : 5); a.tv_usec = vh_range(0, 999999); b.tv_usec = vh_range(0, 999999); if (vh_chance(30)) b.tv_usec = a.tv_usec; if (vh_chance(30)) { a.tv_usec = a.tv_usec / 1000 * 1000; b.tv_usec = b.tv_usec / 1000 * 1000; }
	ll d = M_time_timeval_diff(&a, &b), us = ((ll)b.tv_sec - a.tv_sec) * 1000000 + (b.tv_usec - a.tv_usec); ll e = d * 1000 - us; VH_CHECK(e > -1000 && e < 1000, "diff", "%lld.%06lld .. %lld.%06lld = %lld ms", (ll)a.tv_sec, (ll)a.tv_usec, (ll)b.tv_sec, (ll)b.tv_usec, d);
	if (us % 1000 == 0) VH_CHECK(e == 0, "diff:exact", "%lld us = %lld ms", us, d);
	VH_CHECK(M_time_timeval_diff(&b, &a) == -d, "diff:antisymmetric", "%lld", d); vh_count("differences", 1); vh_distinct(vh_hu((uint64_t)us, 0));
	if (vh_chance(2)) {
		M_timeval_t s, g; struct timespec t0, t1, t2, t3; clock_gettime(CLOCK_MONOTONIC, &t0); M_time_elapsed_start(&s); clock_gettime(CLOCK_MONOTONIC, &t1); struct timespec q = {0, (long)vh_range(0, 12000000)}; nanosleep(&q, NULL);
		clock_gettime(CLOCK_MONOTONIC, &t2); ll el = (ll)M_time_elapsed(&s); clock_gettime(CLOCK_MONOTONIC, &t3); auto U = [](struct timespec x) { return (ll)x.tv_sec * 1000000 + x.tv_nsec / 1000; };
		VH_CHECK(el * 1000 > U(t2) - U(t1) - 2000 && el * 1000 < U(t3) - U(t0) + 2000, "elapsed", "%lld ms, clock says %lld..%lld us", el, U(t2) - U(t1), U(t3) - U(t0)); ll e2 = (ll)M_time_elapsed(&s); VH_CHECK(e2 >= el, "elapsed:backwards", "%lld after %lld", e2, el);
		s.tv_sec += 1000; VH_CHECK(M_time_elapsed(&s) == 0, "elapsed:future", "start in the future"); vh_count("timed", 1);
		struct timespec r0, r1; clock_gettime(CLOCK_REALTIME, &r0); VH_CHECK(M_time_gettimeofday(&g), "tod", "failed"); ll mt = M_time(); clock_gettime(CLOCK_REALTIME, &r1); VH_CHECK(U(r0) <= (ll)g.tv_sec * 1000000 + g.tv_usec && (ll)g.tv_sec * 1000000 + g.tv_usec <= U(r1) && mt >= r0.tv_sec - 1 && mt <= r1.tv_sec, "tod", "%lld.%06lld", (ll)g.tv_sec, (ll)g.tv_usec);
	}
}
const vh_mode_t vh_modes[] = { {"rt", rt}, {"parse", parse}, {"fromstr", fromstr, fs_setup, fs_done}, {"diff", diff}, {0} };
