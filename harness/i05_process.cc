// child processes: what the child saw, what its streams carried and how it ended, against what was asked; several at once, destroyed at any time
#include "vh.hpp"
#include <mstdlib/mstdlib_io.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
extern char **environ;
static const char *CHILD;
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static bool zombies() { siginfo_t si; si.si_pid = 0; return waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid != 0; }
static void setup(void) { signal(SIGPIPE, SIG_IGN); CHILD = getenv("I05_CHILD"); if (!CHILD) abort(); DIR *d = opendir("/proc/self/fd"); struct dirent *e; while ((e = readdir(d))) { int f = atoi(e->d_name); if (f > 2) fcntl(f, F_SETFD, FD_CLOEXEC); } closedir(d); setpgid(0, 0); // a stray kill of the whole group ends only this process
}
static void teardown(void) { M_library_cleanup(); }
static S gen(size_t a, uint64_t b) { S r; uint64_t x = b * 2654435761u + 12345; while (a--) { x = x * 6364136223846793005ull + 1442695040888963407ull; r += (char)(x >> 56); } return r; }
static uint64_t fnv(const S &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
struct P; struct St { P *p; char kind; M_io_t *io = NULL; S rx; bool open = false, ended = false; int ends = 0; };
struct P { int id; M_io_t *proc = NULL; St in, out, err; S script; VS args; std::map<S, S> env; bool has_env = false; bool want_in = true, want_out = true, want_err = true; S tx; size_t off = 0; bool closed_in = false; int nconn = 0, nterm = 0; M_event_type_t how = M_EVENT_TYPE_OTHER; bool got_code = false; int code = -1; M_io_error_t ioerr = M_IO_ERROR_SUCCESS; uint64_t tmo = 0, t0 = 0, t1 = 0; bool gone = false; int pid = 0; bool destroy_early = false; uint64_t destroy_at = 0; S cmd; bool after = false; bool held = false; int expect = 0, sig = 0; };
struct G { M_event_t *el = NULL; std::vector<P *> ps; uint64_t t0 = 0; bool stuck = false; P *hold_in = NULL, *waiton = NULL; };
static G *g;
static void kill_io(M_io_t *&io) { if (io) { M_io_t *t = io; io = NULL; M_io_destroy(t); } }
static bool fin(P *p) { return p->gone || (p->nterm && !p->in.io && !p->out.io && !p->err.io); }
static void check_done() { for (P *p : g->ps) if (!fin(p)) return; M_event_done(g->el); }
static void close_in(P *p) { kill_io(p->in.io); p->closed_in = true; }
static void push(P *p) { if (!p->in.io || !p->in.open) return; while (p->off < p->tx.size()) { size_t w = 0; M_io_error_t e = M_io_write(p->in.io, (const unsigned char *)p->tx.data() + p->off, p->tx.size() - p->off, &w); if (e == M_IO_ERROR_WOULDBLOCK) return; if (e != M_IO_ERROR_SUCCESS) { close_in(p); return; } p->off += w; } if (g->hold_in == p && g->waiton && !(g->waiton->out.ended || fin(g->waiton))) return; close_in(p); }
static void drop(P *p) { p->gone = true; kill_io(p->in.io); kill_io(p->out.io); kill_io(p->err.io); kill_io(p->proc); check_done(); }
static void stcb(M_event_t *, M_event_type_t t, M_io_t *, void *a) { St *s = (St *)a; P *p = s->p; if (!s->io) { vh_viol("event:after_destroy", "an event for a destroyed stream"); return; }
	switch (t) { case M_EVENT_TYPE_CONNECTED: s->open = true; if (s->kind == 'i') push(p); break; case M_EVENT_TYPE_WRITE: push(p); break;
	case M_EVENT_TYPE_READ: case M_EVENT_TYPE_DISCONNECTED: case M_EVENT_TYPE_ERROR: { unsigned char b[3000]; size_t n; if (s->kind != 'i') while (n = 0, M_io_read(s->io, b, 1 + vh_rndn(sizeof b), &n) == M_IO_ERROR_SUCCESS) s->rx.append((char *)b, n); if (t != M_EVENT_TYPE_READ) { s->ended = true; s->ends++; kill_io(s->io); if (s->kind == 'i') p->closed_in = true; if (g->waiton == p && s->kind == 'o' && g->hold_in) push(g->hold_in); } break; } default: break; }
	check_done(); }
static void pcb(M_event_t *, M_event_type_t t, M_io_t *io, void *a) { P *p = (P *)a; if (p->gone) { vh_viol("event:after_destroy", "an event for a destroyed process"); return; }
	if (t == M_EVENT_TYPE_CONNECTED) { p->nconn++; p->pid = M_io_process_get_pid(io); if (p->pid <= 0) vh_viol("pid", "the process id is %d", p->pid); int c; if (M_io_process_get_result_code(io, &c)) vh_count("code_while_running", 1); if (p->destroy_early && !p->destroy_at && vh_chance(50)) { drop(p); return; } }
	else if (t == M_EVENT_TYPE_DISCONNECTED || t == M_EVENT_TYPE_ERROR) { p->nterm++; p->how = t; p->t1 = vh_now_us(); p->got_code = M_io_process_get_result_code(io, &p->code); p->ioerr = M_io_get_error(io); close_in(p); if (p->nterm > 1) vh_viol("end:twice", "the end was reported twice"); }
	else vh_viol("event:kind", "event %d on a process", (int)t);
	check_done(); }
static void tick(M_event_t *, M_event_type_t, M_io_t *, void *) { uint64_t now = vh_now_us(); for (P *p : g->ps) if (p->destroy_early && p->destroy_at && !p->gone && now - g->t0 >= p->destroy_at) drop(p); if (now - g->t0 > 20000000) { g->stuck = true; M_event_done(g->el); } }
static S desc(const P *p) { S r = "script '" + p->script + "' args"; for (auto &a : p->args) r += S(" '") + E(a.substr(0, 40)) + "'"; r += vh_fmt(" env %d stdin %zu bytes timeout %d", p->has_env ? (int)p->env.size() : -1, p->tx.size(), (int)p->tmo); return r; }
static S rarg() { switch (vh_rndn(8)) { case 0: return ""; case 1: return "a b  c"; case 2: return "\"quo'te\\ d\" $HOME `x` *"; case 3: return "-n"; case 4: { S s = vh_bytes(1 + vh_rndn(40)); for (auto &c : s) if (!c) c = 'z'; return s; } case 5: return vh_ascii(1 + vh_rndn(3000)); case 6: return "\n\t;|&>"; default: return vh_ascii(1 + vh_rndn(20)); } }
static P *mk(int id, bool allow_odd) { P *p = new P; p->id = id; p->in.p = p->out.p = p->err.p = p; p->in.kind = 'i'; p->out.kind = 'o'; p->err.kind = 'e'; p->cmd = CHILD; p->has_env = vh_chance(60); size_t ne = vh_rndn(6); for (size_t i = 0; i < ne; i++) p->env[vh_fmt("K%d_%zu", id, i)] = rarg(); size_t na = vh_rndn(6); 
	S sc = "h"; S o, e; bool in = vh_chance(60); for (size_t k = vh_rndn(5); k > 0; k--) { size_t n = vh_chance(80) ? vh_rndn(500) : vh_rndn(150000); uint64_t b = vh_rndn(1000); bool er = vh_chance(40); sc += vh_fmt("%c%zu:%d,", er ? 'e' : 'o', n, (int)b); if (vh_chance(20)) sc += vh_fmt("s%d,", (int)vh_rndn(8)); } if (in) sc += "i,"; if (in && vh_chance(30)) sc += "o100:5,"; if (in) p->tx = vh_chance(15) ? S() : vh_bytes(1 + vh_rndn(vh_chance(75) ? 500 : 200000));
	p->want_in = in || vh_chance(80); if (allow_odd) { p->want_out = vh_chance(90); p->want_err = vh_chance(85); }
	if (vh_chance(12)) { static const int sg[] = { SIGKILL, SIGTERM, SIGSEGV, SIGUSR1, SIGABRT, SIGALRM }; p->sig = sg[vh_rndn(6)]; sc += vh_fmt("k%d", p->sig); } else if (vh_chance(12)) { p->tmo = 30 + vh_rndn(60); sc += "s30000"; } else { p->expect = vh_chance(40) ? 0 : (int)vh_rndn(126); if (vh_chance(10)) p->expect = 131 + (int)vh_rndn(125); sc += vh_fmt("x%d", p->expect); if (vh_chance(30)) p->tmo = 18000; } p->script = sc; p->args.push_back(sc); while (na--) p->args.push_back(rarg()); return p; }
static void start(P *p) { M_list_str_t *l = M_list_str_create(M_LIST_STR_NONE); for (auto &a : p->args) M_list_str_insert(l, a.c_str()); M_hash_dict_t *d = p->has_env ? M_hash_dict_create(8, 75, M_HASH_DICT_NONE) : NULL; for (auto &e : p->env) if (d) M_hash_dict_insert(d, e.first.c_str(), e.second.c_str()); p->t0 = vh_now_us(); M_io_error_t e = M_io_process_create(p->cmd.c_str(), l, d, p->tmo, &p->proc, p->want_in ? &p->in.io : NULL, p->want_out ? &p->out.io : NULL, p->want_err ? &p->err.io : NULL); M_list_str_destroy(l); M_hash_dict_destroy(d); VH_CHECK(e == M_IO_ERROR_SUCCESS, "create", "%s: %s", desc(p).c_str(), M_io_error_string(e)); if (p->in.io) M_event_add(g->el, p->in.io, stcb, &p->in); if (p->out.io) M_event_add(g->el, p->out.io, stcb, &p->out); if (p->err.io) M_event_add(g->el, p->err.io, stcb, &p->err); M_event_add(g->el, p->proc, pcb, p); }
static void run(G &n) { n.t0 = vh_now_us(); M_event_timer_t *t = M_event_timer_add(n.el, tick, NULL); M_event_timer_set_firecount(t, 0); M_event_timer_start(t, 1); M_event_loop(n.el, M_TIMEOUT_INF); for (P *p : n.ps) { kill_io(p->in.io); kill_io(p->out.io); kill_io(p->err.io); kill_io(p->proc); } M_event_destroy(n.el); vh_count("processes", n.ps.size()); }
struct Rd { const S &s; size_t i = 0; bool ok = true; uint64_t num() { size_t e = s.find('\n', i); if (e == S::npos) { ok = false; return 0; } uint64_t v = strtoull(s.c_str() + i, NULL, 10); i = e + 1; return v; } S str() { size_t n = num(); if (!ok || i + n > s.size()) { ok = false; return ""; } S r = s.substr(i, n); i += n; return r; } };
static void judge(P *p) { S w = desc(p); bool full = p->want_out && p->want_err; VH_CHECK(p->nconn == 1 && p->nterm == 1, "end:count", "%s: %d started and %d ended events", w.c_str(), p->nconn, p->nterm);
	bool timed = p->script.find("s30000") != S::npos; if (!full) vh_count("closed_streams", 1); /* the child ends at its first failing write */ else if (timed) { VH_CHECK(p->how == M_EVENT_TYPE_ERROR && p->ioerr == M_IO_ERROR_TIMEDOUT && !p->got_code, "timeout:report", "%s: event %d, error %s, code %d", w.c_str(), (int)p->how, M_io_error_string(p->ioerr), p->got_code ? p->code : -1); VH_CHECK(p->t1 - p->t0 >= p->tmo * 1000 - 2000, "timeout:early", "%s: ended after %d ms", w.c_str(), (int)((p->t1 - p->t0) / 1000)); vh_count("timeouts", 1); }
	else if (p->sig) { VH_CHECK(!p->got_code || p->code != 0, "code:signal", "%s: killed by signal %d, exit code %d (event %d)", w.c_str(), p->sig, p->code, (int)p->how); vh_count("signals", 1); }
	else { VH_CHECK(p->how == M_EVENT_TYPE_DISCONNECTED, "end:event", "%s: event %d, error %s", w.c_str(), (int)p->how, M_io_error_string(p->ioerr)); VH_CHECK(p->got_code && p->code == p->expect, "code", "%s: exit code %d", w.c_str(), p->got_code ? p->code : -1); vh_count("codes", 1); }
	// what the streams have to carry
	S o, e; bool in = false; const char *s = p->script.c_str() + 1; size_t before_in = 0; while (*s) { char c = *s++; char *en; uint64_t a = strtoull(s, &en, 10), b = 0; s = en; if (*s == ':') { b = strtoull(s + 1, &en, 10); s = en; } if (*s == ',') s++; if (c == 'o') o += gen(a, b); else if (c == 'e') e += gen(a, b); else if (c == 'i') { in = true; before_in = o.size(); o += vh_fmt("%zu\n%llu\n0\n", p->tx.size(), (unsigned long long)fnv(p->tx)); } }
	(void)before_in; if (p->want_err) { if (timed && p->want_out) { /* the timeout may strike anywhere in a slow run */ VH_CHECK(e.compare(0, p->err.rx.size(), p->err.rx) == 0, "stream:stderr", "%s: stderr has other bytes", w.c_str()); } else if (p->want_out) VH_CHECK(p->err.rx == e, "stream:stderr", "%s: stderr has %zu of %zu bytes%s", w.c_str(), p->err.rx.size(), e.size(), e.compare(0, p->err.rx.size(), p->err.rx) == 0 ? "" : " and others"); VH_CHECK(p->err.ends == 1, "stream:end", "%s: stderr ended %d times", w.c_str(), p->err.ends); }
	if (!p->want_out) return; VH_CHECK(p->out.ends == 1, "stream:end", "%s: stdout ended %d times", w.c_str(), p->out.ends); if (timed && p->out.rx.size() < 200) return; Rd r{ p->out.rx }; uint64_t argc = r.num(); VS av; for (uint64_t i = 0; i < argc && r.ok; i++) av.push_back(r.str()); VS want = { p->cmd }; for (auto &a : p->args) want.push_back(a); if (timed && !r.ok) return; VH_CHECK(r.ok && av == want, "args", "%s: the child has %zu arguments (expected %zu)", w.c_str(), av.size(), want.size()); uint64_t nev = r.num(); VS ev; for (uint64_t i = 0; i < nev && r.ok; i++) ev.push_back(r.str()); VS wev; if (p->has_env) for (auto &x : p->env) wev.push_back(x.first + "=" + x.second); else for (char **x = environ; *x; x++) wev.push_back(*x); std::sort(ev.begin(), ev.end()); std::sort(wev.begin(), wev.end()); uint64_t extra = r.num(); if (timed && !r.ok) return; VH_CHECK(r.ok && ev == wev, "env", "%s: the child has %zu variables (expected %zu)", w.c_str(), ev.size(), wev.size()); VH_CHECK(extra == 0, "fds:child", "%s: the child has %d more open descriptors", w.c_str(), (int)extra); S rest = p->out.rx.substr(r.i); if (timed) { VH_CHECK(o.compare(0, rest.size(), rest) == 0, "stream:stdout", "%s: stdout has other bytes", w.c_str()); return; } VH_CHECK(p->want_err ? rest == o : true, "stream:stdout", "%s: stdout has %zu of %zu bytes%s", w.c_str(), rest.size(), o.size(), o.compare(0, rest.size(), rest) == 0 ? "" : " and others"); if (in) vh_count("stdin", 1); vh_count("streams", 1); }
static M_event_t *newloop() { return M_event_create(vh_chance(50) ? M_EVENT_FLAG_NONE : M_EVENT_FLAG_NON_SCALABLE); }
static void epilogue(G &n, int f0) { VH_CHECK(!n.stuck, "stuck", "no end: %s", [&] { S r; for (P *p : n.ps) r += desc(p) + vh_fmt(" [ended %d, streams open %d%d%d]; ", p->nterm, p->in.io != NULL, p->out.io != NULL, p->err.io != NULL); return r; }().c_str()); VH_CHECK(!zombies(), "zombie", "a child is left over"); int f1 = nfds(); VH_CHECK(f1 == f0, "fds:leak", "%d descriptors before, %d after", f0, f1); }
static void clear(G &n) { for (P *p : n.ps) delete p; n.ps.clear(); }
struct Gd { G &n; ~Gd() { clear(n); } };
static void m_run() { int f0 = nfds(); static G n; clear(n); n = G(); g = &n; n.el = newloop(); int k = vh_chance(50) ? 1 : 2 + (int)vh_rndn(4); for (int i = 0; i < k; i++) n.ps.push_back(mk(i, vh_chance(20))); for (P *p : n.ps) vh_distinct(vh_hash(p->script.data(), p->script.size(), p->args.size())); vh_sample("%d processes, %s", k, desc(n.ps[0]).c_str()); for (P *p : n.ps) start(p); run(n); epilogue(n, f0); for (P *p : n.ps) judge(p); clear(n); if (k > 1) vh_count("concurrent", 1); }
// one process keeps running until the output of another has ended: no stream end may depend on an unrelated process
static void m_cross() { int f0 = nfds(); static G n; clear(n); n = G(); g = &n; n.el = newloop(); P *a = mk(0, false), *b = mk(1, false); for (P *p : { a, b }) { p->tmo = 0; p->sig = 0; p->expect = (int)vh_rndn(100); p->want_in = true; p->tx = vh_bytes(1 + vh_rndn(300)); } a->script = vh_fmt("ho%d:3,i,x%d", (int)vh_rndn(3000), a->expect); b->script = vh_fmt("ho%d:4,%sx%d", (int)vh_rndn(3000), vh_chance(50) ? "s5," : "", b->expect); b->tx.clear(); a->args[0] = a->script; b->args[0] = b->script; bool af = vh_chance(30); n.ps = { a, b }; n.hold_in = a; n.waiton = b; vh_distinct(vh_hash(a->script.data(), a->script.size(), b->args.size())); if (af) { start(a); start(b); } else { start(b); start(a); } run(n); epilogue(n, f0); judge(a); judge(b); vh_count("cross", 1); clear(n); }
static void m_destroy() { int f0 = nfds(); static G n; clear(n); n = G(); g = &n; n.el = newloop(); int k = 1 + (int)vh_rndn(4); for (int i = 0; i < k; i++) { P *p = mk(i, false); p->destroy_early = true; p->destroy_at = vh_chance(30) ? 0 : 1 + vh_rndn(vh_chance(50) ? 500 : 6000); if (vh_chance(30)) { p->tmo = 0; p->script = "s30000,x0"; p->args[0] = p->script; } n.ps.push_back(p); vh_distinct(vh_hash(&p->destroy_at, 8, p->script.size())); } vh_sample("%d processes, the first destroyed after %d us: %s", k, (int)n.ps[0]->destroy_at, desc(n.ps[0]).c_str()); bool now = vh_chance(15), hang = false; for (P *p : n.ps) { start(p); if (now) drop(p); if (p->script == "s30000,x0" && !p->destroy_at) p->destroy_at = 2000; (void)hang; } if (now) { M_event_done(n.el); M_event_destroy(n.el); } else run(n); uint64_t dt = n.t0 ? vh_now_us() - n.t0 : 0; VH_CHECK(dt < 15000000, "destroy:waits", "destroying a process took %d ms", (int)(dt / 1000)); for (P *p : n.ps) vh_count(p->gone ? "destroyed" : "ended_first", 1); epilogue(n, f0); clear(n); }
// commands that cannot run
static void m_refused() { int f0 = nfds(); S d = vh_tmpdir(); S f = d + "/x"; M_io_t *p = (M_io_t *)1, *i = (M_io_t *)1; M_hash_dict_t *env = NULL; M_io_error_t want = M_IO_ERROR_NOTFOUND; S cmd; switch (vh_rndn(6)) { case 0: cmd = d + "/nothing"; want = M_IO_ERROR_SUCCESS; break; case 1: { FILE *q = fopen(f.c_str(), "w"); fputs("no program", q); fclose(q); chmod(f.c_str(), 0644); cmd = f; want = M_IO_ERROR_NOTPERM; break; } case 2: cmd = "surely-no-such-command-" + vh_fmt("%d", (int)vh_rndn(99)); break; case 3: cmd = ""; want = M_IO_ERROR_INVALID; break; case 4: { env = M_hash_dict_create(8, 75, M_HASH_DICT_NONE); M_hash_dict_insert(env, "PATH", d.c_str()); cmd = "sh"; break; } default: { // found through the PATH of the given environment
		env = M_hash_dict_create(8, 75, M_HASH_DICT_NONE); S dir = S(CHILD).substr(0, S(CHILD).rfind('/')); S pa = d + ":" + dir; M_hash_dict_insert(env, "PATH", pa.c_str()); cmd = S(CHILD).substr(S(CHILD).rfind('/') + 1); want = M_IO_ERROR_SUCCESS; } }
	M_io_error_t e = M_io_process_create(cmd.c_str(), NULL, env, 0, &p, &i, NULL, NULL); M_hash_dict_destroy(env); vh_sample("'%s': %s", cmd.c_str(), M_io_error_string(e)); vh_distinct(vh_hash(cmd.data(), cmd.size(), 0)); if (want == M_IO_ERROR_SUCCESS && cmd[0] == '/') VH_CHECK(e == M_IO_ERROR_NOTFOUND || e == M_IO_ERROR_NOTPERM, "create:error", "'%s': %s", cmd.c_str(), M_io_error_string(e)); else VH_CHECK(e == want, "create:error", "'%s': %s, not %s", cmd.c_str(), M_io_error_string(e), M_io_error_string(want)); if (e == M_IO_ERROR_SUCCESS) { M_io_destroy(i); M_io_destroy(p); } else VH_CHECK(p == NULL && i == NULL, "create:handles", "handles after an error"); VH_CHECK(nfds() == f0, "fds:leak", "'%s': %d descriptors before, %d after", cmd.c_str(), f0, nfds()); unlink(f.c_str()); vh_count("refused", e != M_IO_ERROR_SUCCESS); }
const vh_mode_t vh_modes[] = { { "run", m_run, setup, teardown }, { "cross", m_cross, setup, teardown }, { "destroy", m_destroy, setup, teardown }, { "refused", m_refused, setup, teardown }, {} };
