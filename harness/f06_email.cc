// emails: build, write, read back and compare; the stream reader over every way to cut the text
#include "vh.hpp"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_formats.h>
#include <tuple>
static void setup(void) {}
static void teardown(void) {}
struct Ad { S g, n, a; bool operator==(const Ad &o) const { return g == o.g && n == o.n && a == o.a; } bool operator<(const Ad &o) const { return std::tie(g, n, a) < std::tie(o.g, o.n, o.a); } };
struct Part { bool att = false; std::map<S, S> h; S data, ct, te, fn; };
static S nz(const char *s) { return s ? s : ""; }
static S word() { static const char C[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; S r; for (size_t n = 1 + vh_rndn(9); n--;) r += C[vh_rndn(62)]; return r; }
static S words(size_t n) { S r = word(); while (n--) r += " " + word(); return r; }
static Ad rad(bool group) { Ad a; if (group) a.g = words(vh_rndn(2)); a.a = word() + (vh_chance(30) ? "." + word() : "") + "@" + word() + ".com"; if (vh_chance(70)) switch (vh_rndn(4)) { case 0: a.n = word() + ", " + word(); break; case 1: a.n = word() + " <" + word() + "> \"" + word() + "\""; break; default: a.n = words(vh_rndn(3)); } return a; }
static S text(size_t n) { S r; while (r.size() < n) switch (vh_rndn(9)) { case 0: r += "\r\n"; break; case 1: r += "--"; break; case 2: r += "\r\n--"; break; case 3: r += "\n"; break; case 4: r += ":"; break; case 5: r += "\r"; break; case 6: r += vh_chance(50) ? "\r\n\r\n" : "--------------"; break; default: r += words(vh_rndn(6)); } return r; }
static const char *CH = "\xc3\xa9";
static S hval() { switch (vh_rndn(5)) { case 0: return word(); case 1: return words(5 + vh_rndn(30)); case 2: return "a: b; c=\"d\" <" + word() + ">, " + word(); case 3: return S(CH) + words(2); default: return words(vh_rndn(5)); } }
typedef std::multimap<S, S> MM;
struct M { Ad from, reply; std::vector<Ad> to, cc, bcc; S subject, pre, epi; MM h; std::vector<Part> parts; bool mixed = false; };
static std::vector<Ad> rlist() { std::vector<Ad> r; VS groups = { "", "", word(), words(1) }; for (size_t n = vh_chance(30) ? 0 : 1 + vh_rndn(5); n--;) { Ad a = rad(false); a.g = vh_pick(groups); r.push_back(a); } return r; }
static M gen() { M m; m.from = rad(vh_chance(20)); if (vh_chance(40)) m.reply = rad(vh_chance(20)); m.to = rlist(); m.cc = rlist(); m.bcc = rlist(); if (vh_chance(80)) m.subject = hval(); for (size_t n = vh_rndn(5); n--;) m.h.insert({ vh_fmt("X-%zu", n) + word(), hval() }); if (!m.h.empty() && vh_chance(20)) m.h.insert({ m.h.begin()->first, hval() }); if (vh_chance(40)) m.pre = words(vh_rndn(10)) + (vh_chance(30) ? "\r\n" + word() : S()); if (vh_chance(30)) m.epi = words(vh_rndn(10));
	size_t np = vh_rndn(5), na = vh_chance(50) ? 0 : vh_rndn(4); bool container = na && vh_chance(40); if (container) { Part c; c.h["Content-Type"] = "multipart/alternative"; m.parts.push_back(c); if (!np) np = 1; }
	for (size_t i = 0; i < np; i++) { Part p; if (vh_chance(70)) p.h["Content-Type"] = vh_chance(50) ? "text/plain" : "text/html; charset=\"utf-8\""; if (vh_chance(30)) p.h["X-Part"] = hval(); p.data = text(vh_rndn(vh_chance(80) ? 200 : 5000)); m.parts.push_back(p); } for (size_t i = 0; i < na; i++) { Part p; p.att = true; if (vh_chance(80)) p.ct = vh_chance(50) ? "application/pdf" : "text/plain"; if (!p.ct.empty() || vh_chance(50)) if (vh_chance(70)) p.fn = word() + (vh_chance(30) ? " " + word() : S()) + ".txt"; if (vh_chance(50)) p.te = "base64"; if (vh_chance(20)) p.h["X-" + word()] = word(); p.data = text(vh_rndn(300)); if (!container && vh_chance(20)) m.parts.insert(m.parts.begin() + (long)vh_rndn(m.parts.size() + 1), p); else m.parts.push_back(p); } return m; }
static M_hash_dict_t *dict(const std::map<S, S> &h) { M_hash_dict_t *d = M_hash_dict_create(8, 75, M_HASH_DICT_CASECMP | M_HASH_DICT_KEYS_ORDERED); for (auto &e : h) M_hash_dict_insert(d, e.first.c_str(), e.second.c_str()); return d; }
static const char *np(const S &s) { return s.empty() ? NULL : s.c_str(); }
static M_email_t *build(const M &m) { M_email_t *e = M_email_create(); M_email_set_from(e, np(m.from.g), np(m.from.n), m.from.a.c_str()); if (!m.reply.a.empty()) M_email_set_reply_to(e, np(m.reply.g), np(m.reply.n), m.reply.a.c_str()); for (auto &a : m.to) M_email_to_append(e, np(a.g), np(a.n), a.a.c_str()); for (auto &a : m.cc) M_email_cc_append(e, np(a.g), np(a.n), a.a.c_str()); for (auto &a : m.bcc) M_email_bcc_append(e, np(a.g), np(a.n), a.a.c_str()); if (!m.subject.empty()) M_email_set_subject(e, m.subject.c_str()); for (auto &h : m.h) M_email_headers_insert(e, h.first.c_str(), h.second.c_str()); if (!m.pre.empty()) M_email_set_preamble(e, m.pre.data(), m.pre.size()); if (!m.epi.empty()) M_email_set_epilouge(e, m.epi.data(), m.epi.size());
	for (auto &p : m.parts) { M_hash_dict_t *d = p.h.empty() && vh_chance(50) ? NULL : dict(p.h); size_t i = 0; M_bool ok = p.att ? M_email_part_append_attachment(e, p.data.data(), p.data.size(), d, np(p.ct), np(p.te), np(p.fn), &i) : M_email_part_append(e, p.data.data(), p.data.size(), d, &i); M_hash_dict_destroy(d); VH_CHECK(ok && i == (size_t)(&p - &m.parts[0]), "build:part", "part %zu was refused or put at %zu", (size_t)(&p - &m.parts[0]), i); } return e; }
static M dump(const M_email_t *e) { M m; const char *g, *n, *a; g = n = a = NULL; if (M_email_from(e, &g, &n, &a)) m.from = Ad{ nz(g), nz(n), nz(a) }; g = n = a = NULL; if (M_email_reply_to(e, &g, &n, &a)) m.reply = Ad{ nz(g), nz(n), nz(a) }; for (size_t i = 0; i < M_email_to_len(e); i++) { g = n = a = NULL; M_email_to(e, i, &g, &n, &a); m.to.push_back(Ad{ nz(g), nz(n), nz(a) }); } for (size_t i = 0; i < M_email_cc_len(e); i++) { g = n = a = NULL; M_email_cc(e, i, &g, &n, &a); m.cc.push_back(Ad{ nz(g), nz(n), nz(a) }); } for (size_t i = 0; i < M_email_bcc_len(e); i++) { g = n = a = NULL; M_email_bcc(e, i, &g, &n, &a); m.bcc.push_back(Ad{ nz(g), nz(n), nz(a) }); } m.subject = nz(M_email_subject(e)); m.pre = nz(M_email_preamble(e)); m.epi = nz(M_email_epilouge(e)); M_hash_dict_enum_t *he; const char *k, *v; M_hash_dict_enumerate(M_email_headers(e), &he); while (M_hash_dict_enumerate_next(M_email_headers(e), he, &k, &v)) m.h.insert({ k, v }); M_hash_dict_enumerate_free(he);
	for (size_t i = 0; i < M_email_parts_len(e); i++) { Part p; p.att = M_email_part_is_attachmenet(e, i); p.data = nz(M_email_part_data(e, i)); M_hash_dict_enumerate(M_email_part_headers(e, i), &he); while (M_hash_dict_enumerate_next(M_email_part_headers(e, i), he, &k, &v)) p.h[k] = v; M_hash_dict_enumerate_free(he); if (p.att) { const char *x = NULL, *y = NULL, *z = NULL; M_email_part_attachment_info(e, i, &x, &y, &z); p.ct = nz(x); p.te = nz(y); p.fn = nz(z); } m.parts.push_back(p); } return m; }
static S sh(const Ad &a) { return a.g + "|" + a.n + "|" + a.a; }
static S sh(std::vector<Ad> l) { std::sort(l.begin(), l.end()); S r; for (auto &a : l) r += sh(a) + ", "; return r; }
static void cmp(const M &w, const M &g, const S &t) {
#define EQ(f, k) VH_CHECK(w.f == g.f, k, "'%s' became '%s' in: %s", E(w.f), E(g.f), E(t.substr(0, 700)))
	VH_CHECK(w.from == g.from, "from", "'%s' became '%s'", E(sh(w.from)), E(sh(g.from))); VH_CHECK(w.reply == g.reply, "reply", "'%s' became '%s'", E(sh(w.reply)), E(sh(g.reply))); VH_CHECK(sh(w.to) == sh(g.to), "to", "'%s' became '%s' in %s", E(sh(w.to)), E(sh(g.to)), E(t.substr(0, 700))); VH_CHECK(sh(w.cc) == sh(g.cc), "cc", "'%s' became '%s'", E(sh(w.cc)), E(sh(g.cc))); VH_CHECK(sh(w.bcc) == sh(g.bcc), "bcc", "'%s' became '%s'", E(sh(w.bcc)), E(sh(g.bcc))); EQ(subject, "subject"); MM gh; for (auto &h : g.h) if (h.first[0] == 'X') gh.insert(h); std::vector<std::pair<S, S>> a(w.h.begin(), w.h.end()), b(gh.begin(), gh.end()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VH_CHECK(a == b, "headers", "%zu headers, %zu read back in: %s", a.size(), b.size(), E(t.substr(0, 900))); EQ(pre, "preamble"); EQ(epi, "epilogue");
	if (w.parts.empty()) { VH_CHECK(g.parts.size() <= 1 && (g.parts.empty() || g.parts[0].data.empty()), "parts:none", "%zu parts out of none", g.parts.size()); return; } VH_CHECK(w.parts.size() == g.parts.size(), "parts:count", "%zu parts became %zu in: %s", w.parts.size(), g.parts.size(), E(t.substr(t.size() > 1500 ? t.size() - 1500 : 0)));
	for (size_t i = 0; i < w.parts.size(); i++) { const Part &p = w.parts[i], &q = g.parts[i]; VH_CHECK(p.att == q.att, "part:kind", "part %zu is an attachment: %d, was %d", i, q.att, p.att); VH_CHECK(p.data == q.data, "part:data", "part %zu: '%s' became '%s'", i, E(p.data), E(q.data)); if (p.att) VH_CHECK(p.ct == q.ct && p.te == q.te && p.fn == q.fn, "part:attachment", "part %zu: type '%s' encoding '%s' name '%s' became '%s' '%s' '%s'", i, p.ct.c_str(), p.te.c_str(), p.fn.c_str(), E(q.ct), E(q.te), E(q.fn)); for (auto &h : p.h) { auto f = q.h.find(h.first); S v = f == q.h.end() ? "(none)" : f->second; if (v.find("multipart/alternative; boundary=") == 0 && h.second == "multipart/alternative") continue; VH_CHECK(v == h.second, "part:header", "part %zu: '%s: %s' became '%s'", i, h.first.c_str(), E(h.second), E(v)); } VH_CHECK(p.h.size() == q.h.size(), "part:headers", "part %zu: %zu headers, %zu read back", i, p.h.size(), q.h.size()); } }
static void m_round() { M m = gen(); M_email_t *e = build(m); M d = dump(e); cmp(m, d, "(built)"); char *o = M_email_simple_write(e); M_email_destroy(e); VH_CHECK(o != NULL, "write", "not written"); S t = o; M_free(o); vh_distinct(vh_hash(t.data(), t.size() > 300 ? 300 : t.size(), m.parts.size())); vh_sample("%s", E(t.substr(0, 300))); Heap in(t, false); M_email_t *r = NULL; size_t n = 0; M_email_error_t er = M_email_simple_read(&r, (const char *)in.p, t.size(), M_EMAIL_SIMPLE_READ_NONE, &n); VH_CHECK(er == M_EMAIL_ERROR_SUCCESS && r, "read", "error %d after %zu of %zu bytes of: %s", (int)er, n, t.size(), E(t.substr(0, 900))); M g = dump(r); VH_CHECK(n == t.size(), "read:length", "%zu of %zu bytes", n, t.size()); char *o2 = M_email_simple_write(r); M_email_destroy(r); cmp(m, g, t); VH_CHECK(o2 != NULL, "write", "not written again"); M_email_t *r2 = NULL; er = M_email_simple_read(&r2, o2, M_str_len(o2), M_EMAIL_SIMPLE_READ_NONE, NULL); S t2 = o2; M_free(o2); VH_CHECK(er == M_EMAIL_ERROR_SUCCESS, "read", "error %d the second time", (int)er); M g2 = dump(r2); M_email_destroy(r2); if (m.parts.empty()) m.parts.resize(g2.parts.size()); cmp(m, g2, t2); vh_count("emails", 1); vh_count("parts", m.parts.size()); for (auto &p : m.parts) vh_count("attachments", p.att); }
// the stream reader
struct Ev { S log; S pend; int kind = -1; size_t idx = 0; bool stop = false; };
static Ev *ev; static void flush() { if (ev->kind >= 0) { ev->log += vh_fmt("[%d %zu %zu:", ev->kind, ev->idx, ev->pend.size()) + ev->pend + "]"; ev->kind = -1; ev->pend.clear(); } }
static M_email_error_t data(int k, size_t i, const char *d, size_t n) { if (ev->kind != k || ev->idx != i) flush(); ev->kind = k; ev->idx = i; ev->pend.append(d, n); return M_EMAIL_ERROR_SUCCESS; }
static M_email_error_t note(const S &s) { flush(); ev->log += "{" + s + "}"; return M_EMAIL_ERROR_SUCCESS; }
static S read_all(const S &t, const std::vector<size_t> &cuts, M_email_error_t &er, bool &stall) { static Ev x; x = Ev(); ev = &x; struct M_email_reader_callbacks cb; memset(&cb, 0, sizeof cb);
	cb.header_func = [](const char *k, const char *v, void *) { return note(S("h ") + k + "=" + nz(v)); }; cb.to_func = [](const char *g, const char *n, const char *a, void *) { return note("to " + nz(g) + "|" + nz(n) + "|" + nz(a)); }; cb.from_func = [](const char *g, const char *n, const char *a, void *) { return note("from " + nz(g) + "|" + nz(n) + "|" + nz(a)); }; cb.subject_func = [](const char *s, void *) { return note("subject " + nz(s)); }; cb.header_done_func = [](M_email_data_format_t f, void *) { return note(vh_fmt("done %d", (int)f)); }; cb.body_func = [](const char *d, size_t n, void *) { return data(1, 0, d, n); }; cb.multipart_preamble_func = [](const char *d, size_t n, void *) { return data(2, 0, d, n); }; cb.multipart_preamble_done_func = [](void *) { return note("preamble"); }; cb.multipart_header_func = [](const char *k, const char *v, size_t i, void *) { return note(vh_fmt("ph %zu ", i) + k + "=" + nz(v)); }; cb.multipart_header_attachment_func = [](const char *a, const char *b, const char *c, size_t i, void *) { return note(vh_fmt("att %zu ", i) + nz(a) + "|" + nz(b) + "|" + nz(c)); }; cb.multipart_header_done_func = [](size_t i, void *) { return note(vh_fmt("phd %zu", i)); }; cb.multipart_data_func = [](const char *d, size_t n, size_t i, void *) { return data(3, i, d, n); }; cb.multipart_data_done_func = [](size_t i, void *) { return note(vh_fmt("dd %zu", i)); }; cb.multipart_data_finished_func = [](void *) { return note("fin"); }; cb.multipart_epilouge_func = [](const char *d, size_t n, void *) { return data(4, 0, d, n); };
	M_email_reader_t *r = M_email_reader_create(&cb, M_EMAIL_READER_NONE, NULL); S buf; size_t at = 0; er = M_EMAIL_ERROR_SUCCESS; stall = false; for (size_t i = 0; i <= cuts.size(); i++) { size_t to = i < cuts.size() ? cuts[i] : t.size(); buf += t.substr(at, to - at); at = to; if (buf.empty()) continue; Heap h(buf, false); size_t n = 0; er = M_email_reader_read(r, (const char *)h.p, buf.size(), &n); if (n > buf.size()) { vh_viol("stream:length", "%zu of %zu bytes read", n, buf.size()); break; } buf.erase(0, n); if (er != M_EMAIL_ERROR_SUCCESS && er != M_EMAIL_ERROR_MOREDATA) break; } M_email_reader_destroy(r); flush(); stall = !buf.empty(); return x.log; }
static void m_stream() { M m = gen(); S t; size_t limit; if (vh_chance(20)) { t = "From: a@b.com\r\nSubject: " + hval() + "\r\n"; if (vh_chance(50)) t += "X-Y: z\r\n  folded\r\n"; t += "\r\n" + text(1 + vh_rndn(200)); limit = t.size(); } else { M_email_t *e = build(m); char *o = M_email_simple_write(e); M_email_destroy(e); t = o; M_free(o); size_t b = t.find("boundary=\"") + 10; S bo = "--" + t.substr(b, t.find('"', b) - b) + "--"; limit = t.rfind(bo); VH_CHECK(limit != S::npos, "write:end", "no closing boundary in: %s", E(t.substr(t.size() > 900 ? t.size() - 900 : 0))); limit += 0; }
	M_email_error_t e0, e1; bool s0, s1; S ref = read_all(t, {}, e0, s0); VH_CHECK((e0 == M_EMAIL_ERROR_SUCCESS || e0 == M_EMAIL_ERROR_MOREDATA) && !s0, "stream:read", "error %d of a written email", (int)e0); vh_distinct(vh_hash(ref.data(), ref.size(), 0)); vh_sample("%s", E(ref.substr(0, 300))); for (int k = 0; k < 12; k++) { std::vector<size_t> c; if (limit > 1) switch (k) { case 0: if (t.size() < 3000) for (size_t i = 1; i < limit; i++) c.push_back(i); break; case 1: c.push_back(1 + vh_rndn(limit - 1)); break; default: { size_t q = 1 + vh_rndn(12); for (size_t i = 0; i < q; i++) { size_t p = 1 + vh_rndn(limit - 1); if (vh_chance(60)) { size_t z = t.find(vh_chance(50) ? "\r\n--" : "\r\n", p); if (z != S::npos) p = z + vh_rndn(6); } if (p < limit) c.push_back(p); } std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); } } S got = read_all(t, c, e1, s1); if (got != ref || e0 != e1) { size_t d = 0; while (d < got.size() && d < ref.size() && got[d] == ref[d]) d++; VH_CHECK(false, "stream:segments", "%zu pieces, error %d not %d; differs from '%s' at '%s', one piece gives '%s'; pieces cut at %s%s", c.size() + 1, (int)e1, (int)e0, E(ref.substr(d > 60 ? d - 60 : 0, d > 60 ? 60 : d)), E(got.substr(d, 60)), E(ref.substr(d, 60)), c.empty() ? "" : vh_fmt("%zu", c[0]).c_str(), c.size() > 1 ? ".." : ""); } vh_count("segmentations", 1); } vh_count("streams", 1); }
// damaged emails: an answer, no faults, and what is accepted can be written and read
static void m_hostile() { M m = gen(); M_email_t *e = build(m); char *o = M_email_simple_write(e); M_email_destroy(e); S t = o; M_free(o); size_t k = 1 + vh_rndn(6); while (k-- && !t.empty()) { size_t p = vh_rndn(t.size()); switch (vh_rndn(6)) { case 0: t.erase(p, 1 + vh_rndn(40)); break; case 1: t[p] = (char)vh_rndn(256); break; case 2: t.insert(p, vh_chance(50) ? "\r\n" : "--"); break; case 3: t.insert(p, t.substr(vh_rndn(t.size()), vh_rndn(200))); break; case 4: t = t.substr(0, p); break; default: t.insert(p, vh_chance(50) ? "\"" : ";:<"); } } Heap in(t, false); M_email_t *r = NULL; size_t n = 0; M_email_error_t er = M_email_simple_read(&r, (const char *)in.p, t.size(), 0, &n); vh_distinct(vh_hash(t.data(), t.size(), 0)); VH_CHECK((er == M_EMAIL_ERROR_SUCCESS) == (r != NULL), "hostile:result", "error %d, object %d", (int)er, r != NULL); if (r) { char *w = M_email_simple_write(r); M_email_destroy(r); M_free(w); vh_count("accepted", 1); } else vh_count("refused", 1); M_hash_dict_t *h = NULL; char *b = NULL; Heap z(t, true); er = M_email_simple_split_header_body((const char *)z.p, &h, &b); M_hash_dict_destroy(h); M_free(b); M_email_error_t e1; bool s; read_all(t, t.size() > 2 ? std::vector<size_t>{ t.size() / 2 } : std::vector<size_t>{}, e1, s); }
const vh_mode_t vh_modes[] = { { "round", m_round, setup, teardown }, { "stream", m_stream, setup, teardown }, { "hostile", m_hostile, setup, teardown }, {} };
