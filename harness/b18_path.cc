/* B18: path manipulation, judged by an independent lexical model (both syntaxes) and by the file system (realpath). */
#include "vh.hpp"
#include <unistd.h>
#include <limits.h>
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
struct P { bool abs; S drive; VS c; bool unc; }; /* drive: "C:"; unc: \\ */
static char sepc(bool w) { return w ? '\\' : '/'; }
static bool issep(char c) { return c == '/' || c == '\\'; } /* both separate in both syntaxes, by design (check_path) */
static VS comps(const S &s) { VS v; S cur; for (char ch : s) { if (issep(ch)) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) v.push_back(cur); return v; }
static S join(const VS &v, char sep) { S o; for (size_t i = 0; i < v.size(); i++) { if (i) o += sep; o += v[i]; } return o; }
static bool drive(const S &c) { return c.size() == 2 && isalpha((unsigned char)c[0]) && c[1] == ':'; }
static S show(const VS &lead, bool root, bool w) { /* lead: components incl. drive */
	if (root) { S o = w ? "\\\\" : "/"; return o + join(lead, sepc(w)); }
	if (lead.empty()) return ".";
	if (w && lead.size() == 1 && drive(lead[0])) return lead[0] + "\\";
	return join(lead, sepc(w));
}
static const char *HOMED = "/home/joe x";
static bool env(const S &n, S &v) { const char *p = getenv(n.c_str()); if (!p) return false; v = p; return true; }
/* 1 ok, 0 unset variable */
static bool expand(VS &c, bool &root, bool w) {
	VS o; for (auto &q : c) { S name; bool is = false; if (q[0] == '$') { is = true; name = q.substr(1); } else if (q.size() >= 2 && q[0] == '%' && q[q.size() - 1] == '%') { is = true; name = q.substr(1, q.size() - 2); }
		if (!is) { o.push_back(q); continue; } if (name.empty()) continue; S v; if (!env(name, v)) return false;
		if (o.empty() && !root) { if (!w && v[0] == '/') root = true; } VS k = comps(v); o.insert(o.end(), k.begin(), k.end()); }
	c = o; return true;
}
static int model(const S &path, unsigned flags, bool w, const S &cwd, S &out) {
	if (path.empty()) return 0; if (path.size() >= M_fs_path_get_path_max(w ? M_FS_SYSTEM_WINDOWS : M_FS_SYSTEM_UNIX)) return -1;
	bool root = w ? path.size() >= 2 && issep(path[0]) && issep(path[1]) : path[0] == '/'; VS c = comps(path);
	if (!expand(c, root, w)) return 0;
	if ((flags & M_FS_PATH_NORM_HOME)) { if (c.empty() && !root) return 2; /* nothing left to look at: unspecified */ if (!root && c[0] == "~") { VS h = comps(HOMED); c.erase(c.begin()); c.insert(c.begin(), h.begin(), h.end()); if (!w) root = true; } }
	if (flags & M_FS_PATH_NORM_ABSOLUTE) { if (c.empty() && !root) return 2; if (!root && !(w && drive(c[0]))) { VS h = comps(cwd); c.insert(c.begin(), h.begin(), h.end()); if (!w) root = true; } }
	VS o; for (auto &q : c) { if (q == ".") continue; if (q == ".." && !(flags & M_FS_PATH_NORM_NOPARENT)) { if (o.empty()) { if (!root) o.push_back(".."); } else if (o.back() == "..") o.push_back(".."); else if (w && o.size() == 1 && drive(o[0])) {} else o.pop_back(); } else o.push_back(q); }
	out = show(o, root, w); return 1;
}
static S seps(bool w) { S o; size_t n = vh_chance(70) ? 1 : 1 + vh_rndn(4); while (n--) o += w ? (vh_chance(75) ? '\\' : '/') : (vh_chance(92) ? '/' : '\\'); return o; }
static S comp(bool w) { static const char *C[] = {"a", "b", "abc def", ".", "..", "..", "...", "~", "x.y", ".hid", "..b", "a.", "$V1", "%V2%", "$V3", "$V4", "$V5", "$", "%%", "%", "%a", "$UNSETVAR", "~joe", "\xc3\xa9", "C:"}; size_t n; do n = vh_rndn(vh_chance(75) ? 12 : 25); while (n == 24 && !w); return n == 24 ? "Dx" : C[n]; }
static S path(bool w) {
	S o; switch (vh_rndn(6)) { case 0: case 1: o = w ? "C:\\" : "/"; break; case 2: o = w ? "\\\\" : "//"; break; default: if (w && vh_chance(10)) o = "d:/"; }
	size_t n = vh_rndn(7); for (size_t i = 0; i < n; i++) { if (i) o += seps(w); o += comp(w); } if (n && vh_chance(25)) o += seps(w);
	if (w && o.size() == 1 && issep(o[0])) o += o; return o;
}
/* a leading single separator is a drive-relative Windows path, which the library does not represent */
static bool winrooted(const S &p) { return !p.empty() && issep(p[0]) && !(p.size() > 1 && issep(p[1])); }
static S got(char *p) { S s = p ? p : "(null)"; M_free(p); return s; }
static S scratch;
static void lex_setup(void) {
	scratch = vh_tmpdir() ? vh_tmpdir() : "/tmp"; char b[PATH_MAX]; if (!realpath(scratch.c_str(), b)) abort(); scratch = b;
	setenv("HOME", HOMED, 1); setenv("V1", "v1", 1); setenv("V2", "/abs/two", 1); setenv("V3", "rel/three/..", 1); setenv("V4", "", 1); setenv("V5", "../up", 1); unsetenv("UNSETVAR"); if (chdir(scratch.c_str())) abort();
}
static void lex(void) {
	bool w = vh_chance(45); M_fs_system_t sys = w ? M_FS_SYSTEM_WINDOWS : vh_chance(50) ? M_FS_SYSTEM_UNIX : M_FS_SYSTEM_AUTO; S p = path(w); if (vh_chance(1)) { size_t n = (size_t)PATH_MAX + (size_t)vh_range(-3, 2); while (p.size() < n) p += "a"; p.resize(n); }
	if (p.find_first_not_of("\\") == S::npos && !w) p += "q"; 
	unsigned f = 0; if (vh_chance(40)) f |= M_FS_PATH_NORM_HOME; if (vh_chance(30)) f |= M_FS_PATH_NORM_ABSOLUTE; if (vh_chance(20)) f |= M_FS_PATH_NORM_NOPARENT;
	S want; int m = model(p, f, w, scratch, want); if (w && winrooted(p)) return;
	Heap h(p, true); char *o = (char *)1; M_fs_error_t e = M_fs_path_norm(&o, (const char *)h.p, f, sys);
	if (m == 1) {
		VH_CHECK(e == M_FS_ERROR_SUCCESS && o, "norm:error", "%s flags %x win %d: error %d", E(p), f, w, (int)e);
		if (o) { VH_CHECK(want == o, "norm", "%s flags %x win %d: %s want %s", E(p), f, w, E(S(o)), E(want));
			char *o2 = NULL; bool again = !(w && (f & M_FS_PATH_NORM_ABSOLUTE)); if (again) again = !(f & M_FS_PATH_NORM_HOME) || want[0] != '~'; for (char ch : want) if (ch == '$' || ch == '%') again = false;
			if (again && want.size() < 4000 && !(w && winrooted(want))) { e = M_fs_path_norm(&o2, o, f, sys); VH_CHECK(o2 && want == o2, "norm:idempotent", "%s -> %s", E(want), o2 ? E(S(o2)) : "error"); M_free(o2); vh_count("idempotent", 1); } }
		vh_count(w ? "win_normalised" : "unix_normalised", 1);
	} else if (m == -1) { VH_CHECK(e == M_FS_ERROR_NAMETOOLONG && !o, "norm:toolong", "length %zu: error %d", p.size(), (int)e); vh_count("too_long", 1); }
	else if (m == 0) { VH_CHECK(e != M_FS_ERROR_SUCCESS && !o, "norm:accepted", "%s: %s", E(p), o ? E(S(o)) : "NULL"); vh_count("refused", 1); }
	if (e == M_FS_ERROR_SUCCESS || o != (char *)1) M_free(o);
	vh_distinct(vh_hstr(p.c_str(), f + (w ? 64 : 0)));
	/* taking apart and putting together; components are plain names here */
	S q; for (size_t tries = 0; tries < 1; tries++) q = p; VS c = comps(q); bool root = w ? q.size() >= 2 && q[0] == '\\' && q[1] == '\\' : !q.empty() && q[0] == '/'; if (q.empty() || q.size() > 2000) return;
	VS want_l = c; if (root) want_l.insert(want_l.begin(), "");
	M_list_str_t *l = M_fs_path_componentize_path(q.c_str(), sys); VS gl; for (size_t i = 0; i < M_list_str_len(l); i++) gl.push_back(M_list_str_at(l, i));
	VH_CHECK(gl == want_l, "componentize", "%s: %s", E(q), E(join(gl, '|')));
	S j = c.empty() && !root ? S("(null)") : show(c, root, w);
	size_t before = M_list_str_len(l); S gj = got(M_fs_path_join_parts(l, sys)); VH_CHECK(gj == j, "join_parts", "%s: %s want %s", E(q), E(gj), E(j)); VH_CHECK(M_list_str_len(l) == before, "join_parts:input", "list changed"); M_list_str_destroy(l);
	VH_CHECK((bool)M_fs_path_isabs(q.c_str(), sys) == (root || (w && !c.empty() && c[0].size() >= 2 && c[0][1] == ':' && !issep(q[0]))), "isabs", "%s win %d", E(q), w);
	if (w) VH_CHECK((bool)M_fs_path_isunc(q.c_str()) == root, "isunc", "%s", E(q));
	char *dn = M_fs_path_dirname(q.c_str(), sys), *bn = M_fs_path_basename(q.c_str(), sys);
	bool dr = w && !c.empty() && drive(c[0]) && !issep(q[0]); bool only = root ? c.empty() : dr && c.size() == 1;
	if (w && !dr && !c.empty() && c[0].size() >= 2 && c[0][1] == ':') { M_free(dn); M_free(bn); return; }
	if (only) { S r = dr ? c[0] + "\\" : w ? "\\\\" : "/"; VH_CHECK(dn && r == dn && !bn, "split:root", "%s: dir %s name %s", E(q), dn ? dn : "NULL", bn ? bn : "NULL"); }
	else if (!c.empty()) {
		VS d(c.begin(), c.end() - 1); VH_CHECK(bn && c.back() == bn, "basename", "%s: %s", E(q), bn ? bn : "NULL");
		if (d.empty() && !root) VH_CHECK(!dn, "dirname:none", "%s: %s", E(q), dn ? dn : ""); else { S wd = show(d, root, w); VH_CHECK(dn && wd == dn, "dirname", "%s: %s want %s", E(q), dn ? dn : "NULL", E(wd)); }
		if (bn && !(w && strchr(bn, ':'))) { S back = got(M_fs_path_join(dn, bn, sys)); VH_CHECK(back == show(c, root, w), "split_join", "%s: %s", E(q), E(back)); vh_count("splits", 1); }
		VH_CHECK((bool)M_fs_path_ishidden(q.c_str(), NULL) == (c.back()[0] == '.'), "ishidden", "%s", E(q));
	}
	M_free(dn); M_free(bn);
	/* joining two paths names what p2 names below p1 */
	S a = path(w), b = path(w); if (vh_chance(10)) a.clear(); if (vh_chance(10)) b.clear(); if (!w) for (S *x : {&a, &b}) for (auto &ch : *x) if (ch == '\\') ch = '/'; if (w && (winrooted(a) || winrooted(b))) return;
	{ S gjn = got(M_fs_path_join(a.c_str(), b.c_str(), sys)); bool babs = M_fs_path_isabs(b.c_str(), sys); S wj = babs ? b : a.empty() ? b : b.empty() ? a : a[a.size() - 1] == sepc(w) ? a + b : a + sepc(w) + b; VH_CHECK(gjn == (wj.empty() ? S("(null)") : wj), "join", "%s + %s = %s want %s", E(a), E(b), E(gjn), E(wj)); vh_count("joins", 1);
	  S r = path(w); if (!a.empty() && !r.empty() && !(w && winrooted(r)) && !b.empty() && !babs) { S gr = got(M_fs_path_join_resolved(a.c_str(), b.c_str(), r.c_str(), sys)); S wr;
	    if (M_fs_path_isabs(r.c_str(), sys)) wr = r; else { S dd = got(M_fs_path_dirname(wj.c_str(), sys)); wr = dd == "(null)" ? r : got(M_fs_path_join(dd.c_str(), r.c_str(), sys)); } VH_CHECK(gr == wr, "join_resolved", "%s,%s,%s: %s want %s", E(a), E(b), E(r), E(gr), E(wr)); } }
	if (vh_chance(10)) { S v1 = comp(w), v2 = comp(w); S g = got(M_fs_path_join_vparts(sys, 3, v1.c_str(), "", v2.c_str())); VH_CHECK(g == v1 + sepc(w) + v2, "join_vparts", "%s", E(g)); }
}
/* ---- against a real tree with symlinks ---- */
static S tree; static VS nodes;
static void fs_setup(void) { lex_setup(); }
static void rmtree(const S &d) { DIR *x = opendir(d.c_str()); if (!x) return; struct dirent *e; while ((e = readdir(x))) { S n = e->d_name; if (n == "." || n == "..") continue; S f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) rmtree(f); else unlink(f.c_str()); } closedir(x); rmdir(d.c_str()); }
static int g_links;
/* independent resolver: like the kernel, but a missing last part (or anything below a missing part) is kept lexically */
static bool resolve(const S &p, const S &cwd, S &out, int depth, bool &dangling) {
	VS st; if (p[0] != '/') st = comps(cwd); std::vector<S> todo; for (size_t i = 0; ; ) { VS c = comps(p); todo.assign(c.rbegin(), c.rend()); (void)i; break; }
	while (!todo.empty()) { S c = todo.back(); todo.pop_back(); if (c == ".") continue; if (c == "..") { if (!st.empty()) st.pop_back(); continue; }
		S full = "/" + join(st, '/') + (st.empty() ? "" : "/") + c; struct stat sb; 
		if (lstat(full.c_str(), &sb) == 0 && S_ISLNK(sb.st_mode)) { if (++g_links > 60) return false; char b[PATH_MAX]; ssize_t n = readlink(full.c_str(), b, sizeof b); S t(b, (size_t)n); if (stat(full.c_str(), &sb)) dangling = true; VS tc = comps(t); if (t[0] == '/') st.clear(); for (size_t k = tc.size(); k-- > 0;) todo.push_back(tc[k]); continue; }
		st.push_back(c); }
	out = "/" + join(st, '/'); (void)depth; return true;
}
static void fs(void) {
	tree = scratch + "/t" + std::to_string(vh_case); rmtree(tree); if (mkdir(tree.c_str(), 0700)) { vh_fail("setup", "mkdir %s", tree.c_str()); return; }
	VS dirs = {tree}, all = {"."}; static const char *N[] = {"a", "b", "c", "d e", ".h", "~", "$V1"};
	for (int i = 0; i < 6; i++) { S d = dirs[vh_rndn(dirs.size())] + "/" + N[vh_rndn(7)]; if (!mkdir(d.c_str(), 0700)) dirs.push_back(d); }
	for (int i = 0; i < 5; i++) { S d = dirs[vh_rndn(dirs.size())] + "/" + "f" + std::to_string(i); FILE *f = fopen(d.c_str(), "w"); if (f) fclose(f); }
	int nl = 1 + (int)vh_rndn(7); bool homelink = false;
	for (int i = 0; i < nl; i++) { S d = dirs[vh_rndn(dirs.size())] + "/l" + std::to_string(i); S t; switch (vh_rndn(6)) { case 0: t = dirs[vh_rndn(dirs.size())]; break; case 1: t = "l" + std::to_string(vh_rndn(7)); break; case 2: t = ".."; break; case 3: t = S(N[vh_rndn(7)]) + "/" + N[vh_rndn(7)]; break; case 4: t = "../" + S(N[vh_rndn(7)]); break; default: t = S("./") + N[vh_rndn(7)] + "/../l" + std::to_string(vh_rndn(7)); }
		if (symlink(t.c_str(), d.c_str()) == 0 && (t[0] == '~' || t.find('$') != S::npos)) homelink = true; }
	S cwd = dirs[vh_rndn(dirs.size())]; if (chdir(cwd.c_str())) { vh_fail("setup", "chdir"); return; } (void)homelink;
	for (int k = 0; k < 12; k++) {
		S p; size_t n = 1 + vh_rndn(5); for (size_t i = 0; i < n; i++) { if (i) p += "/"; switch (vh_rndn(5)) { case 0: case 1: p += "l" + std::to_string(vh_rndn(7)); break; case 2: p += ".."; break; case 3: p += "f" + std::to_string(vh_rndn(5)); break; default: p += N[vh_rndn(5)]; } }
		bool below = vh_chance(40); if (below) p = dirs[vh_rndn(dirs.size())] + "/" + p; bool absf = vh_chance(60); if (p.find('$') != S::npos || p.find("/~") != S::npos) { if (p.find('$') != S::npos) continue; }
		unsigned f = M_FS_PATH_NORM_FOLLOWSYMLINKS | (absf ? M_FS_PATH_NORM_ABSOLUTE : 0u) | (vh_chance(50) ? M_FS_PATH_NORM_HOME : 0u) | (vh_chance(20) ? M_FS_PATH_NORM_SYMLINKS_FAILDNE | M_FS_PATH_NORM_SYMLINKS_FAILDNELAST : 0u);
		S want; g_links = 0; bool dang = false; bool ok = resolve(p, cwd, want, 0, dang); int links = g_links; char rp[PATH_MAX]; bool real = realpath(p.c_str(), rp) != NULL; int er = errno; Heap h(p, true);
		if (real) VH_CHECK(ok && want == rp, "oracle", "%s: own resolver %s, realpath %s", E(p), E(want), rp);
		char *o = NULL; M_fs_error_t e = M_fs_path_norm(&o, (const char *)h.p, f, M_FS_SYSTEM_AUTO);
		if (!ok) { VH_CHECK(e == M_FS_ERROR_LINK_LOOP && !o, "fs:loop", "%s: error %d out %s", E(p), (int)e, o ? o : "NULL"); vh_count("loops", 1); }
		else if (links >= 24) { VH_CHECK(e == M_FS_ERROR_LINK_LOOP || (o && e == M_FS_ERROR_SUCCESS), "fs:many", "%s", E(p)); vh_count("many_links", 1); }
		else if (!real && dang && (f & M_FS_PATH_NORM_SYMLINKS_FAILDNE)) { if (e != M_FS_ERROR_DNE) vh_known("fs:faildne", "%s follows a symlink to nowhere although told to fail", E(p)); vh_count("dangling", 1); }
		else {
			VH_CHECK(e == M_FS_ERROR_SUCCESS && o, "fs:error", "%s in %s: error %d (realpath %s, %d)", E(p), E(cwd), (int)e, real ? rp : "fails", er);
			if (o) { S g = o; if (g[0] != '/') { S w2; g_links = 0; bool d2; VS a = comps(cwd), b = comps(g); for (auto &q : b) { if (q == "..") { if (!a.empty()) a.pop_back(); } else if (q != ".") a.push_back(q); } g = "/" + join(a, '/'); (void)d2; (void)w2; }
				VH_CHECK(g == want, absf || below ? "fs:norm" : "fs:norm_relative", "%s in %s: %s (%s) want %s", E(p), E(cwd), o, E(g), E(want));
				if (absf || below) VH_CHECK(o[0] == '/', "fs:absolute", "%s", o);
				if (real) { struct stat s1, s2; VH_CHECK(!stat(p.c_str(), &s1) && !stat(o, &s2) && s1.st_ino == s2.st_ino && s1.st_dev == s2.st_dev, "fs:same_file", "%s vs %s", E(p), o); vh_count("same_file", 1); }
				vh_count(links ? "links_followed" : "no_links", 1); }
		}
		vh_distinct(vh_hstr(p.c_str(), (uint64_t)links)); M_free(o);
		char *rl = NULL; char lb[PATH_MAX]; ssize_t ln = readlink(p.c_str(), lb, sizeof lb - 1); e = M_fs_path_readlink(&rl, p.c_str()); if (ln >= 0) { lb[ln] = 0; VH_CHECK(e == M_FS_ERROR_SUCCESS && rl && !strcmp(rl, lb), "readlink", "%s", E(p)); vh_count("readlinks", 1); } else VH_CHECK(!rl, "readlink:other", "%s: %s", E(p), rl); M_free(rl);
	}
	char *cw = NULL; VH_CHECK(M_fs_path_get_cwd(&cw) == M_FS_ERROR_SUCCESS && cw && cwd == cw, "cwd", "%s", cw ? cw : "NULL"); M_free(cw);
	VH_CHECK(M_fs_path_set_cwd(scratch.c_str()) == M_FS_ERROR_SUCCESS, "set_cwd", "failed"); VH_CHECK(M_fs_path_set_cwd("/nonexistent/dir") == M_FS_ERROR_DNE, "set_cwd:dne", "did not say so");
	setenv("TMPDIR", (tree + "/./").c_str(), 1); cw = M_fs_path_tmpdir(M_FS_SYSTEM_AUTO); VH_CHECK(cw && tree == cw, "tmpdir", "%s", cw ? cw : "NULL"); M_free(cw); unsetenv("TMPDIR");
	cw = M_fs_path_user_confdir(M_FS_SYSTEM_UNIX); VH_CHECK(cw && S(HOMED) + "/.config" == cw, "confdir", "%s", cw ? cw : "NULL"); M_free(cw);
	rmtree(tree);
}
const vh_mode_t vh_modes[] = { {"lex", lex, lex_setup, 0}, {"fs", fs, fs_setup, 0}, {0} };
