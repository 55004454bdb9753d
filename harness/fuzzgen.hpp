/* Structure-aware mutation of seed documents with a token dictionary; deterministic per case. */
#pragma once
#include "vh.hpp"
#include <time.h>
static inline S fz_mutate(const VS &seeds, const VS &dict, size_t maxlen = 6000)
{
	S d = vh_chance(8) ? S() : vh_pick(seeds);
	if (vh_chance(25)) { const S &o = vh_pick(seeds); size_t a = vh_rndn(d.size() + 1), b = vh_rndn(o.size() + 1); d = d.substr(0, a) + o.substr(b); }
	size_t n = vh_chance(10) ? 0 : 1 + vh_rndn(vh_chance(30) ? 25 : 5);
	while (n-- > 0) {
		size_t at = vh_rndn(d.size() + 1), len = d.size() ? vh_rndn(std::min<size_t>(d.size() - std::min(at, d.size() - 1), 40) + 1) : 0;
		if (at > d.size()) at = d.size();
		switch (vh_rndn(12)) {
			case 0: if (d.size()) d[vh_rndn(d.size())] ^= (char)(1 << vh_rndn(8)); break;
			case 1: if (d.size()) d[vh_rndn(d.size())] = (char)vh_rnd(); break;
			case 2: d.erase(at, len); break;
			case 3: case 4: case 5: d.insert(at, vh_pick(dict)); break;
			case 6: { S c = d.substr(at, len); d.insert(at, c); break; }
			case 7: { S c = vh_chance(50) ? vh_pick(dict) : d.substr(at, std::min<size_t>(len, 12)); S r; for (size_t k = 1 + vh_rndn(60); k-- > 0;) r += c; d.insert(at, r); break; }
			case 8: d.insert(at, vh_bytes(1 + vh_rndn(4))); break;
			case 9: d.resize(at); break;
			case 10: { static const char *ns[] = { "0", "-1", "2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551616", "1e400", "99999999999999999999999", "0x7f", "00" }; d.insert(at, ns[vh_rndn(12)]); break; }
			default: if (d.size()) { size_t k = vh_rndn(d.size()); d.replace(k, 1, vh_pick(dict)); } break;
		}
	}
	if (d.size() > maxlen) d.resize(maxlen);
	return d;
}
static inline double fz_cpu(void) { struct timespec ts; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &ts); return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9; }
struct FzTime { const char *what; size_t n; double t0, lim; FzTime(const char *w, size_t len, double l = 10) : what(w), n(len), t0(fz_cpu()), lim(l) {}
	~FzTime() noexcept(false) { double d = fz_cpu() - t0; if (d > lim) vh_fail(vh_fmt("slow:%s", what).c_str(), "%s took %.1f s of CPU time for %zu bytes", what, d, n); } };
