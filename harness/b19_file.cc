/* B19: file handles against an ideal file, with short transfers and errors injected below the library. */
#include "vh.hpp"
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include <fcntl.h>
static int inj_short, inj_err; static bool inj_on; static uint64_t n_short, n_err;
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
static bool hit(int pc) { return inj_on && pc && vh_chance((unsigned)pc); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (hit(inj_err)) { n_err++; errno = vh_chance(50) ? EIO : EINTR; return -1; } if (n > 1 && hit(inj_short)) { n_short++; n = 1 + vh_rndn(n); } return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (hit(inj_err)) { n_err++; errno = vh_chance(50) ? ENOSPC : EINTR; return -1; } if (n > 1 && hit(inj_short)) { n_short++; n = 1 + vh_rndn(n); } return __real_write(fd, b, n); }
}
static S dir;
static void setup(void) { dir = vh_tmpdir() ? vh_tmpdir() : "/tmp"; }
static S slurp(const S &p) { S o; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return "<none>"; char b[8192]; ssize_t n; while ((n = __real_read(fd, b, sizeof b)) > 0) o.append(b, (size_t)n); close(fd); return o; }
static void spit(const S &p, const S &d) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (d.size() && __real_write(fd, d.data(), d.size()) != (ssize_t)d.size()) abort(); close(fd); }
static S diffat(const S &a, const S &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; char t[100]; snprintf(t, sizeof t, "lengths %zu %zu, first difference at %zu", a.size(), b.size(), i); return t; }
static void file(void) {
	S p = dir + "/f" + std::to_string(vh_case), init = vh_bytes(vh_rndn(vh_chance(10) ? 9000 : 120)); bool exists = vh_chance(70); unlink(p.c_str()); if (exists) spit(p, init); else init.clear();
	static const size_t BS[] = {0, 0, 1, 2, 5, 16, 64, 300, 4096}; inj_short = vh_chance(40) ? 40 : 0; inj_err = vh_chance(30) ? 8 : 0; n_short = n_err = 0;
	S m = init; size_t pos = 0; M_fs_file_t *fd = NULL; size_t bs = 0; bool rd = false, wr = false, app = false; int ops = 5 + (int)vh_rndn(40); S trace; uint64_t shape = 0; bool lost = false;
	for (int i = 0; i < ops && !lost; i++) {
		char t[120];
		if (!fd) {
			unsigned mode = 0; rd = vh_chance(75); wr = !rd || vh_chance(75); app = wr && vh_chance(20); bool trunc = wr && vh_chance(15), nocreate = vh_chance(20); if (rd) mode |= M_FS_FILE_MODE_READ; if (wr) mode |= M_FS_FILE_MODE_WRITE; if (app) mode |= M_FS_FILE_MODE_APPEND; if (trunc) mode |= M_FS_FILE_MODE_OVERWRITE; if (nocreate) mode |= M_FS_FILE_MODE_NOCREATE;
			bs = BS[vh_rndn(9)]; M_fs_error_t e = M_fs_file_open(&fd, p.c_str(), bs, mode, NULL); snprintf(t, sizeof t, "open(buf %zu, mode %x) ", bs, mode); trace += t; shape = vh_hu(mode + bs * 64, shape);
			if (!exists && nocreate) { VH_CHECK(e == M_FS_ERROR_DNE && !fd, "open:nocreate", "error %d", (int)e); if (fd) { M_fs_file_close(fd); fd = NULL; } vh_count("refused_opens", 1); nocreate = false; continue; }
			VH_CHECK(e == M_FS_ERROR_SUCCESS && fd, "open", "%s error %d", trace.c_str(), (int)e); if (!fd) break;
			if (trunc) m.clear(); if (!exists) { VH_CHECK(access(p.c_str(), F_OK) == 0, "open:create", "no file"); exists = true; } pos = 0; vh_count("opens", 1); continue;
		}
		unsigned fl = vh_chance(50) ? M_FS_FILE_RW_FULLBUF : M_FS_FILE_RW_NORMAL; size_t op = vh_rndn(20);
		if (op < 7 && rd) {
			size_t n = 1 + vh_rndn(vh_chance(20) ? 400 : 30), got = 777; Heap h(S(n, '\x11'), false); uint64_t es = n_err; inj_on = true; M_fs_error_t e = M_fs_file_read(fd, (unsigned char *)h.p, n, &got, fl); inj_on = false;
			snprintf(t, sizeof t, "read(%zu%s)=%d,%zu ", n, fl ? ",full" : "", (int)e, got); trace += t; size_t avail = pos < m.size() ? m.size() - pos : 0; uint64_t errs = n_err - es;
			VH_CHECK(got <= n && got <= avail, "read:length", "%s avail %zu", trace.c_str(), avail); if (got > avail) { lost = true; break; }
			VH_CHECK(e == M_FS_ERROR_SUCCESS || errs, "read:error", "%s", trace.c_str());
			if (e == M_FS_ERROR_SUCCESS) { if (avail) VH_CHECK(got > 0, "read:early_eof", "%s pos %zu of %zu", trace.c_str(), pos, m.size()); if (fl || !inj_short) VH_CHECK(got == (n < avail ? n : avail), "read:short", "%s pos %zu of %zu", trace.c_str(), pos, m.size()); if (!avail) vh_count("eofs", 1); }
			if (memcmp(h.p, m.data() + (avail ? pos : 0), got)) { vh_fail("read:data", "%s pos %zu", trace.c_str(), pos); lost = true; }
			pos += got; vh_count("reads", 1);
		} else if (op < 13 && wr) {
			S d = vh_bytes(1 + vh_rndn(vh_chance(20) ? 400 : 25)); size_t done = 777; uint64_t es = n_err; Heap h(d, false); inj_on = true; M_fs_error_t e = M_fs_file_write(fd, (const unsigned char *)h.p, d.size(), &done, fl); inj_on = false;
			snprintf(t, sizeof t, "write(%zu%s)=%d,%zu ", d.size(), fl ? ",full" : "", (int)e, done); trace += t;
			VH_CHECK(done <= d.size(), "write:length", "%s", trace.c_str()); VH_CHECK(e == M_FS_ERROR_SUCCESS || n_err > es, "write:error", "%s", trace.c_str());
			if (e == M_FS_ERROR_SUCCESS && (fl || bs || !inj_short)) VH_CHECK(done == d.size(), "write:short", "%s", trace.c_str());
			if (done > d.size()) { lost = true; break; }
			if (done) { if (app) pos = m.size(); if (pos > m.size()) { m.resize(pos, '\0'); vh_count("holes", 1); } m.replace(pos, std::min(done, m.size() - pos), d, 0, done); pos += done; } vh_count("writes", 1);
		} else if (op < 16) {
			static const M_fs_file_seek_t W[] = {M_FS_FILE_SEEK_BEGIN, M_FS_FILE_SEEK_CUR, M_FS_FILE_SEEK_END}; int w = (int)vh_rndn(3); long long off = vh_chance(30) ? 0 : w == 0 ? vh_range(vh_chance(10) ? -20 : 0, (long long)m.size() + 10) : w == 1 ? vh_range(-30, 30) : vh_range(-(long long)m.size() - 5, 10);
			uint64_t es = n_err; inj_on = true; M_fs_error_t e = M_fs_file_seek(fd, off, W[w]); inj_on = false; long long np = off + (w == 0 ? 0 : w == 1 ? (long long)pos : (long long)m.size()); snprintf(t, sizeof t, "seek(%lld,%d)=%d ", off, w, (int)e); trace += t;
			if (n_err > es && e != M_FS_ERROR_SUCCESS) { vh_count("failed_flushes", 1); }
			else { VH_CHECK((e == M_FS_ERROR_SUCCESS) == (np >= 0), "seek", "%s from %zu of %zu", trace.c_str(), pos, m.size()); if (np >= 0) pos = (size_t)np; else vh_count("bad_seeks", 1); } vh_count("seeks", 1);
		} else if (op < 18) {
			uint64_t es = n_err; unsigned ty = vh_chance(90) ? M_FS_FILE_SYNC_BUFFER : M_FS_FILE_SYNC_BUFFER | M_FS_FILE_SYNC_OS; inj_on = true; M_fs_error_t e = M_fs_file_sync(fd, ty); inj_on = false; snprintf(t, sizeof t, "sync=%d ", (int)e); trace += t;
			VH_CHECK(e == M_FS_ERROR_SUCCESS || n_err > es, "sync:error", "%s", trace.c_str());
			if (e == M_FS_ERROR_SUCCESS) { S g = slurp(p); VH_CHECK(g == m, "sync:content", "%s: %s", trace.c_str(), diffat(g, m).c_str()); if (g != m) lost = true; }
			M_fs_info_t *in = NULL; if (e == M_FS_ERROR_SUCCESS && vh_chance(30)) { e = M_fs_info_file(&in, fd, M_FS_PATH_INFO_FLAGS_BASIC); VH_CHECK(e == M_FS_ERROR_SUCCESS && M_fs_info_get_size(in) == m.size() && M_fs_info_get_type(in) == M_FS_TYPE_FILE, "info_file", "%s", trace.c_str()); M_fs_info_destroy(in); } vh_count("syncs", 1);
		} else { M_fs_file_close(fd); fd = NULL; trace += "close "; S g = slurp(p); VH_CHECK(g == m, "close:content", "%s: %s", trace.c_str(), diffat(g, m).c_str()); if (g != m) lost = true; vh_count("closes", 1); }
		shape = vh_hu(op, shape);
	}
	if (fd) { M_fs_file_close(fd); S g = slurp(p); if (!lost) VH_CHECK(g == m, "close:content", "%s close: %s", trace.c_str(), diffat(g, m).c_str()); }
	vh_count("short_transfers", n_short); vh_count("errors_injected", n_err); vh_distinct(shape); unlink(p.c_str());
	unsigned char one; size_t l; VH_CHECK(M_fs_file_read(NULL, &one, 1, &l, 0) == M_FS_ERROR_INVALID && M_fs_file_write(NULL, &one, 1, &l, 0) == M_FS_ERROR_INVALID && M_fs_file_seek(NULL, 0, M_FS_FILE_SEEK_BEGIN) == M_FS_ERROR_INVALID, "null", "NULL handle");
}
static void whole(void) {
	S p = dir + "/w" + std::to_string(vh_case); unlink(p.c_str()); inj_short = vh_chance(50) ? 40 : 0; inj_err = 0; n_short = n_err = 0;
	size_t lens[] = {0, 1, 1023, 1024, 1025, 2048, 4096, 8191, 70000}; S d = vh_bytes(vh_chance(50) ? lens[vh_rndn(9)] : vh_rndn(5000)); if (vh_chance(30)) for (auto &c : d) if (!c) c = 'z';
	bool strm = d.find('\0') == S::npos && vh_chance(50); S cur; int n = 1 + (int)vh_rndn(3);
	for (int i = 0; i < n && d.size(); i++) { bool app = vh_chance(50); size_t w = 9; Heap h(d, true); inj_on = true; M_fs_error_t e = M_fs_file_write_bytes(p.c_str(), (const unsigned char *)h.p, strm ? 0 : d.size(), app ? M_FS_FILE_MODE_APPEND : M_FS_FILE_MODE_NONE, &w); inj_on = false; cur = app ? cur + d : d; S g = slurp(p);
		VH_CHECK(e == M_FS_ERROR_SUCCESS && w == d.size(), "write_bytes", "error %d wrote %zu of %zu", (int)e, w, d.size()); VH_CHECK(g == cur, "write_bytes:content", "append %d: %s", app, diffat(g, cur).c_str()); vh_count("written", 1); }
	if (d.empty()) spit(p, "");
	{ unsigned char *b = NULL; size_t got = 9, max = 0; switch (vh_rndn(5)) { case 0: max = cur.size(); break; case 1: max = cur.size() + 1 + vh_rndn(3000); break; case 2: if (cur.size() > 1) max = cur.size() - 1; break; case 3: max = 1 + vh_rndn(cur.size() + 1); break; } inj_on = true; M_fs_error_t e = M_fs_file_read_bytes(p.c_str(), max, &b, &got); inj_on = false;
	  if (max && cur.size() > max) { VH_CHECK(e == M_FS_ERROR_FILE_2BIG && !b, "read_bytes:max", "size %zu max %zu: error %d", cur.size(), max, (int)e); vh_count("too_big", 1); }
	  else { VH_CHECK(e == M_FS_ERROR_SUCCESS && got == cur.size() && (got ? b && !memcmp(b, cur.data(), got) && b[got] == 0 : !b || !*b), "read_bytes", "size %zu max %zu: error %d got %zu", cur.size(), max, (int)e, got); vh_count("read", 1); } M_free(b); }
	{ unsigned char *b = NULL; size_t got = 9; VH_CHECK(M_fs_file_read_bytes((p + ".none").c_str(), 0, &b, &got) == M_FS_ERROR_DNE && !b && access((p + ".none").c_str(), F_OK), "read_bytes:dne", "missing file"); VH_CHECK(M_fs_file_read_bytes(dir.c_str(), 0, &b, &got) != M_FS_ERROR_SUCCESS && !b, "read_bytes:dir", "directory"); VH_CHECK(M_fs_file_write_bytes((dir + "/no/dir").c_str(), (const unsigned char *)"x", 1, 0, &got) == M_FS_ERROR_DNE, "write_bytes:dne", "missing directory"); }
	/* copies go through buffered handles; a copy is complete or reported */
	{ S q = p + ".copy"; unlink(q.c_str()); if (vh_chance(50)) { inj_err = 10; } uint64_t es = n_err; bool over = vh_chance(50), pre = vh_chance(30); S old = "previous"; if (pre) spit(q, old); inj_on = true; M_fs_error_t e = M_fs_copy(p.c_str(), q.c_str(), over ? M_FS_FILE_MODE_OVERWRITE : M_FS_FILE_MODE_NONE, NULL, M_FS_PROGRESS_NOEXTRA); inj_on = false; S g = slurp(q);
	  if (pre && !over) { VH_CHECK(e == M_FS_ERROR_FILE_EXISTS && g == old, "copy:overwrote", "error %d", (int)e); }
	  else if (e == M_FS_ERROR_SUCCESS) { VH_CHECK(g == cur, "copy:content", "copied %zu bytes with %llu errors: %s", cur.size(), (unsigned long long)(n_err - es), diffat(g, cur).c_str()); vh_count("copied", 1); } else { VH_CHECK(n_err > es, "copy:error", "error %d", (int)e); vh_count("copies_failed", 1); if (!over) VH_CHECK(access(q.c_str(), F_OK), "copy:partial", "a failed copy left %zu bytes", g.size()); } unlink(q.c_str()); inj_err = 0; }
	vh_count("short_transfers", n_short); vh_distinct(vh_hu(cur.size(), 0)); unlink(p.c_str());
}
const vh_mode_t vh_modes[] = { {"file", file, setup, 0}, {"whole", whole, setup, 0}, {0} };
