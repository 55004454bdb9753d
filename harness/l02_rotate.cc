/* L02: rotating log files keep the most recent lines, complete and in order, and touch nothing else. */
#include "vh.hpp"
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/mstdlib_log.h>
#include <sys/stat.h>
#include <dirent.h>
#include <map>

static S slurp(const S &p) { S o; FILE *f = fopen(p.c_str(), "r"); if (!f) return ""; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }
static void spit(const S &p, const S &c) { FILE *f = fopen(p.c_str(), "w"); fwrite(c.data(), 1, c.size(), f); fclose(f); }
static std::map<S, S> listing(const S &d) { std::map<S, S> m; DIR *x = opendir(d.c_str()); struct dirent *e; while (x && (e = readdir(x))) { S n = e->d_name; if (n == "." || n == "..") continue; struct stat st; stat((d + "/" + n).c_str(), &st); m[n] = S_ISDIR(st.st_mode) ? "<dir>" : slurp(d + "/" + n); } if (x) closedir(x); return m; }
static void wipe(const S &d) { for (auto &x : listing(d)) { S p = d + "/" + x.first; if (x.second == "<dir>") rmdir(p.c_str()); else unlink(p.c_str()); } rmdir(d.c_str()); }
struct Line { unsigned n; size_t len; };
/* every line is T: <n:xxxx:n> */
static bool parse(const S &c, std::vector<Line> &out, const char *what)
{
	size_t p = 0;
	while (p < c.size()) { size_t e = c.find('\n', p); VH_CHECK(e != S::npos, "split", "%s ends within a line", what); if (e == S::npos) return false; S l = c.substr(p, e - p); unsigned a, b = ~0u; size_t q = l.rfind(':'); bool ok = sscanf(l.c_str(), "T: <%u:", &a) == 1 && q != S::npos && sscanf(l.c_str() + q, ":%u>", &b) == 1 && a == b && l.back() == '>'; VH_CHECK(ok, "garbled", "%s has %s", what, E(l.substr(0, 200))); if (!ok) return false; out.push_back({ a, l.size() + 1 }); p = e + 1; }
	return true;
}
static void idle(M_log_t *log, M_log_module_t *) { (void)log; usleep((unsigned)vh_rndn(1500)); }

static void rotate(void)
{
	S d = S(vh_tmpdir()) + "/d" + std::to_string(vh_case); wipe(d); mkdir(d.c_str(), 0755);
	static const VS nms = { "log", "my log.txt", "app[1].log", "x.1", "a.b" }; S name = vh_pick(nms); S path = d + "/" + name;
	bool arch = vh_chance(25); S ext = arch ? ".arc" : ""; S cmd; if (arch) { cmd = d + "/archive.sh"; spit(cmd, "#!/bin/sh\nmv \"$1\" \"$1.arc\"\n"); chmod(cmd.c_str(), 0755); }
	std::map<S, S> other; other["other.1"] = "o1"; other[name + ".txt"] = "t"; other[name + ".5x"] = "5x"; other["x" + name + ".1"] = "p"; other[name + "."] = "dot"; other[name + ".-1"] = "minus"; other[name + ".2.bak"] = "bak"; if (arch) { other[name + ".2.arc.arc"] = "aa"; other[name + ".3"] = "plain 3"; other[name + ".4.arcx"] = "x"; } else other[name + ".4.arc"] = "arc";
	for (auto &o : other) spit(d + "/" + o.first, o.second); mkdir((d + "/" + name + ".9" + ext).c_str(), 0755);
	size_t keep = vh_rndn(5); bool lower = vh_chance(15); size_t asize = vh_chance(75) ? 1 + vh_rndn(400) : 0; bool forced = asize == 0 || vh_chance(30); bool timed = vh_chance(1); if (timed) { asize = 0; forced = false; keep = 3; lower = false; }
	unsigned n = 0; size_t maxlen = 0; unsigned runs = 1 + (unsigned)vh_rndn(4);
	for (unsigned run = 0; run < runs; run++) {
		if (run && lower && keep) keep--;
		bool flush = true; M_log_t *log = M_log_create(M_LOG_LINE_END_UNIX, flush ? M_TRUE : M_FALSE, NULL); M_log_set_time_format(log, "T"); M_log_module_t *m = NULL;
		M_log_error_t e = M_log_module_add_file(log, path.c_str(), keep, asize, timed ? 1 : 0, 10000000, arch ? cmd.c_str() : NULL, arch ? ext.c_str() : NULL, &m); VH_CHECK(e == M_LOG_SUCCESS, "add", "%d", (int)e); if (e) { M_log_destroy(log); return; }
		M_log_module_set_accepted_tags(log, m, 1); bool susp = false;
		for (size_t k = vh_rndn(arch ? 15 : 60); k-- > 0;) {
			unsigned x = (unsigned)vh_rndn(100);
			if (x < 80) { size_t l = vh_chance(10) ? vh_rndn(600) : vh_rndn(40); M_log_printf(log, 1, NULL, "<%u:%s:%u>", n, S(l, 'z').c_str(), n); n++; maxlen = std::max(maxlen, l + 40); vh_count("lines", 1); if (vh_chance(20)) idle(log, m); }
			else if (x < 87 && forced) { M_log_module_file_rotate(log, m); vh_count("forced", 1); if (vh_chance(60)) idle(log, m); }
			else if (x < 92) { M_log_module_reopen(log, m); vh_count("reopens", 1); }
			else if (x < 94) { if (!susp) { M_log_suspend(log); susp = true; vh_count("suspends", 1); } }
			else if (susp) { M_log_resume(log, NULL); susp = false; }
		}
		if (susp) M_log_resume(log, NULL);
		if (timed && run == 0) { M_log_printf(log, 1, NULL, "<%u::%u>", n, n); n++; sleep(3); M_log_printf(log, 1, NULL, "<%u::%u>", n, n); n++; }
		if (lower && run == runs - 1) { M_log_printf(log, 1, NULL, "<%u::%u>", n, n); n++; idle(log, m); for (int i = 0; i < 500 && slurp(path).find(":" + std::to_string(n - 1) + ">") == S::npos; i++) usleep(2000); M_log_module_file_rotate(log, m); for (int i = 0; i < 500 && slurp(path).size(); i++) usleep(2000); maxlen = std::max<size_t>(maxlen, 60); }
		M_log_destroy_blocking(log, 0);
	}
	std::map<S, S> now = listing(d); std::vector<Line> all; size_t k = 0;
	while (now.count(name + "." + std::to_string(k + 1) + ext) && !other.count(name + "." + std::to_string(k + 1) + ext)) k++;
	VH_CHECK(k <= keep, "archives", "%zu archives, %zu configured", k, keep);
	for (size_t i = k; i >= 1; i--) { S c = now[name + "." + std::to_string(i) + ext]; size_t before = all.size(); if (!parse(c, all, "an archive")) { wipe(d); return; } VH_CHECK(all.size() > before, "empty", "archive %zu is empty", i); if (asize && !forced && !lower && !timed) { VH_CHECK(c.size() > asize && c.size() <= asize + maxlen, "size", "archive %zu has %zu bytes, rotation at %zu", i, c.size(), asize); vh_count("sized", 1); } now.erase(name + "." + std::to_string(i) + ext); vh_count("archives", 1); }
	S cur = now.count(name) ? now[name] : S("<missing>"); VH_CHECK(cur != "<missing>", "missing", "no current file"); if (!parse(cur, all, "the log")) { wipe(d); return; }
	if (asize) VH_CHECK(cur.size() <= asize + maxlen, "size", "the log has %zu bytes, rotation at %zu", cur.size(), asize);
	now.erase(name);
	for (size_t i = 1; i < all.size(); i++) VH_CHECK(all[i].n == all[i - 1].n + 1, "gap", "line %u follows line %u", all[i].n, all[i - 1].n);
	if (n && !(all.empty() && keep == 0)) { VH_CHECK(!all.empty() && all.back().n == n - 1, "tail", "the last line is %d of %u (%s, archive command %d, at %zu, forced %d, lowered %d, %u runs, keep %zu)", all.empty() ? -1 : (int)all.back().n, n, name.c_str(), arch, asize, forced, lower, runs, keep); if (!all.empty() && k < keep) VH_CHECK(all[0].n == 0, "lost", "%zu of %zu archives but the first line is %u (%s, archive command %d, at %zu, forced %d, lowered %d, %u runs)", k, keep, all[0].n, name.c_str(), arch, asize, forced, lower, runs); }
	if (timed) { VH_CHECK(k >= 1, "timed", "no rotation after the configured time"); vh_count("timed", 1); }
	if (arch) { VH_CHECK(now.count("archive.sh") == 1, "unrelated", "script"); now.erase("archive.sh"); }
	VH_CHECK(now[name + ".9" + ext] == "<dir>", "unrelated", "a directory was touched"); now.erase(name + ".9" + ext);
	for (auto &o : other) { VH_CHECK(now.count(o.first) && now[o.first] == o.second, "unrelated", "%s of log %s was changed or removed", E(o.first), E(name)); now.erase(o.first); }
	for (auto &o : now) VH_CHECK(0, "unrelated", "%s appeared next to %s (%zu kept)", E(o.first), E(name), keep);
	vh_distinct(vh_hash(name.data(), name.size(), n * 31 + k * 7 + asize)); wipe(d);
}

/* an external program renames the file and asks to reopen it */
static void reopen(void)
{
	S d = S(vh_tmpdir()) + "/r" + std::to_string(vh_case); wipe(d); mkdir(d.c_str(), 0755); S path = d + "/log"; unsigned n = 0, files = 0;
	M_log_t *log = M_log_create(M_LOG_LINE_END_UNIX, M_TRUE, NULL); M_log_set_time_format(log, "T"); M_log_module_t *m; M_log_module_add_file(log, path.c_str(), 3, 0, 0, 1000000, NULL, NULL, &m); M_log_module_set_accepted_tags(log, m, 1);
	for (size_t k = vh_rndn(60); k-- > 0;) {
		if (vh_chance(85)) { M_log_printf(log, 1, NULL, "<%u::%u>", n, n); n++; if (vh_chance(20)) usleep((unsigned)vh_rndn(800)); }
		else {
			bool susp = vh_chance(25); if (susp) M_log_suspend(log);
			struct stat st; if (stat(path.c_str(), &st) == 0) { rename(path.c_str(), (d + "/old" + std::to_string(files++)).c_str()); vh_count("renames", 1); }
			if (susp) { if (vh_chance(50)) { M_log_printf(log, 1, NULL, "<%u::%u>", n, n); n++; } M_log_resume(log, NULL); } else if (vh_chance(50)) M_log_reopen_all(log); else M_log_module_reopen(log, m);
		}
	}
	M_log_destroy_blocking(log, 0); std::vector<Line> all;
	for (unsigned i = 0; i < files; i++) if (!parse(slurp(d + "/old" + std::to_string(i)), all, "a renamed file")) return;
	if (!parse(slurp(path), all, "the log")) return;
	VH_CHECK(all.size() == n, "reopen:count", "%zu of %u lines", all.size(), n); for (size_t i = 0; i < all.size(); i++) VH_CHECK(all[i].n == i, "reopen:order", "line %u at %zu", all[i].n, i);
	vh_distinct(n * 100 + files); wipe(d);
}
const vh_mode_t vh_modes[] = { {"rotate", rotate, NULL, NULL}, {"reopen", reopen, NULL, NULL}, {} };
