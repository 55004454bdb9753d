/* M01: every document parser of the formats module, on mutated documents under ASan/UBSan/LSan with a CPU time bound. */
#include "fuzzgen.hpp"
#include <mstdlib/mstdlib_formats.h>

static void touch(const void *p, size_t n) { static volatile unsigned s; const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) s += c[i]; }
static void ts(const char *s) { if (s) touch(s, strlen(s)); }
static void fin(const S &d, bool ok) { vh_distinct(vh_hash(d.data(), d.size(), 0)); vh_count(ok ? "accepted" : "refused", 1); }

/* ---- JSON ---- */
static const VS js = { "{\"a\":[1,2.5,true,null,\"x\\u00e9\\n\"],\"b\":{\"c\":-12e3}}", "[[],{},\"\",0,{\"k\":\"v\",\"k\":2}]", "/* c */ {\"x\": // y\n 1}", "\"\xc3\xa9\\ud83d\\ude00\"", "[1,2,3,{\"n\":{\"n\":{\"n\":1}}}]" };
static const VS jd = { "{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud83d", "\\ude00", "\\u0000", "null", "true", "false", "1", "-", ".", "e", "E+", "/*", "*/", "//", "\n", " ", "\t", "{\"a\":", "[[", "\xff", "\xed\xa0\x80", "\xf4\x90\x80\x80", "$" };
static void json(void)
{
	S d = fz_mutate(js, jd); Heap h(d); FzTime t("json", d.size());
	M_uint32 fl = (M_uint32)vh_rndn(32); size_t pl = 0, el, ep; M_json_error_t er;
	M_json_node_t *n = M_json_read(h.p, h.n, fl, vh_chance(50) ? &pl : NULL, &er, &el, &ep);
	fin(d, n != NULL);
	if (!n) return;
	for (M_uint32 w : { 0u, 1u, 2u | 4u, 8u, 16u, 63u }) { size_t l = 0; char *o = M_json_write(n, w, &l); if (o) { touch(o, l); M_free(o); } }
	static const VS q = { "$", "$.a", "$..*", "$.*", "$..a[0]", "$[0]", "$[-1:]", "$[0:5:2]", "$['a']", "$..n", "$[1,2]", "$.a[?]" }, qd = { "$", ".", "..", "*", "[", "]", ":", ",", "-", "1", "'", "\"", "a", "@", "?" };
	S p = vh_chance(50) ? vh_pick(q) : fz_mutate(q, qd, 40);
	for (size_t i = 0, run = 0; i < p.size(); i++) { if (isdigit((unsigned char)p[i])) { if (++run > 4) { p.resize(i); break; } } else run = 0; }
	size_t nm = 0; M_json_node_t **m = M_json_jsonpath(n, p.c_str(), &nm);
	for (size_t i = 0; i < nm; i++) { char tmp[16]; M_json_node_type(m[i]); (void)tmp; }
	M_free(m);
	M_json_node_destroy(n);
}
/* ---- XML ---- */
static const VS xs = { "<?xml version=\"1.0\" encoding=\"utf-8\"?><a b=\"c\" d='e&amp;f'>text<!-- c --><g/>&lt;<![CDATA[ raw ]]></a>", "<!DOCTYPE a [<!ELEMENT a (b)>]><a><b>1</b><b x=\"2\">2</b></a>", "<r><?pi data?><n:e xmlns:n=\"u\">&#65;&#x42;</n:e></r>", "<html><p>a<br/>b</p></html>" };
static const VS xd = { "<", ">", "</", "/>", "<a>", "</a>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!", "&", "&amp;", "&#", ";", "=", "\"", "'", " ", "\n", "a=\"", "<a b", "xmlns:", ":", "&#x110000;", "\xc3", "\0x", "<!DOCTYPE" };
static void xml(void)
{
	S d = fz_mutate(xs, xd); Heap h(d); FzTime t("xml", d.size());
	size_t pl, el, ep; M_xml_error_t er; M_xml_node_t *n = M_xml_read(h.p, h.n, (M_uint32)vh_rndn(16), vh_chance(50) ? &pl : NULL, &er, &el, &ep);
	fin(d, n != NULL);
	if (!n) return;
	for (M_uint32 w : { 0u, 2u | 4u | 32u, 8u | 16u, 64u | 128u | 1u }) { size_t l = 0; char *o = M_xml_write(n, w, &l); if (o) { touch(o, l); M_free(o); } }
	static const VS q = { "/a", "//b", "//b[1]", "a/b[last()]", "//*", "//@x", "text()", "//b[@x='2']", "//n:e", "..", "//b[position()<2]", "/r/*/text()" }, qd = { "/", "//", "*", "[", "]", "@", "text()", "last()", "-1", "position()", "=", "'", "\"", "a", "b", "..", ".", ":", "<", ">", "99999999999" };
	S p = vh_chance(50) ? vh_pick(q) : fz_mutate(q, qd, 60);
	size_t nm = 0; M_xml_node_t **m = M_xml_xpath(n, p.c_str(), (M_uint32)vh_rndn(3), &nm); M_free(m);
	ts(M_xml_xpath_text_first(n, p.c_str()));
	M_xml_node_destroy(n);
}
/* ---- CSV, table ---- */
static const VS cs = { "a,b,c\r\n1,2,3\r\n", "\"q\"\"q\",\"l\r\nm\",x\n,,\n", "h1;h2\n'x';y", "a|b\n---|---\n1|2\n", "| a | b |\n| :-- | --: |\n| 1 | 2 |", "[{\"a\":\"1\",\"b\":2},{\"a\":null}]" };
static const VS cd = { ",", ";", "\"", "\"\"", "'", "\r\n", "\n", "\r", "|", "---", ":", " ", "a", "\t", "{", "[", "]", "null" };
static void csv(void)
{
	S d = fz_mutate(cs, cd, 1500); Heap h(d); FzTime t("csv", d.size());
	char dl = ",;\t|\""[vh_rndn(5)], q = "\"',"[vh_rndn(3)];
	M_csv_t *c;
	if (vh_chance(20)) { char *cp = (char *)M_malloc(d.size() + 1); memcpy(cp, d.data(), d.size()); cp[d.size()] = 0; c = M_csv_parse_inplace(cp, d.size(), dl, q, (M_uint32)vh_rndn(2)); if (!c) M_free(cp); }
	else c = M_csv_parse(h.p, h.n, dl, q, (M_uint32)vh_rndn(2));
	fin(d, c != NULL);
	if (c) {
		for (size_t i = 0; i < M_csv_raw_num_rows(c) && i < 40; i++) for (size_t j = 0; j < M_csv_raw_num_cols(c) && j < 40; j++) ts(M_csv_raw_cell(c, i, j));
		for (size_t j = 0; j < M_csv_get_numcols(c) && j < 40; j++) { ts(M_csv_get_header(c, j)); ts(M_csv_get_cell(c, 0, M_csv_get_header(c, j))); }
		char *o; M_buf_t *b = M_buf_create(); M_csv_output_rows_buf(b, c, NULL, NULL, NULL, NULL, NULL); o = M_buf_finish_str(b, NULL); ts(o); M_free(o);
		M_csv_destroy(c);
	}
}
static void table(void)
{
	S d = fz_mutate(cs, cd, 1200); Heap h(d), hz(d, true); FzTime t("table", d.size());
	M_table_t *tb = M_table_create((M_uint32)vh_rndn(2)); bool ok;
	switch (vh_rndn(3)) { case 0: ok = M_table_load_csv(tb, hz.p, h.n, ',', '"', 0, vh_chance(50) ? M_TRUE : M_FALSE); break; case 1: ok = M_table_load_markdown(tb, h.p, h.n); break; default: ok = M_table_load_json(tb, h.p, h.n); }
	fin(d, ok);
	char *o = M_table_write_csv(tb, ',', '"', M_TRUE); ts(o); M_free(o);
	o = M_table_write_markdown(tb, 3); ts(o); M_free(o);
	o = M_table_write_json(tb, 0); ts(o); M_free(o);
	M_table_destroy(tb);
}
/* ---- INI, time zone file ---- */
static const VS is = { "a=1\nb = two ; c\n[sec]\nk=\"v \"\"q\"\"\"\nk=2\n[sec/sub]\nx\n", "; comment\n\n[s]\na=b\\\nc\n", "[EST5EDT]\nalias=America/New_York\noffset=5\noffset_dst=4\nabbr=EST\nabbr_dst=EDT\ndst=2007;M3.2.0/02:00:00,M11.1.0/02:00:00\n", "[UTC]\noffset=-5:30\nabbr=UTC\n" };
static const VS id = { "=", "[", "]", "\n", "\r\n", ";", "#", "\"", "\\", "/", " ", "a", "k=", "alias=", "offset=", "dst=", "M3.2.0/02:00:00", ",", ":", "M", "0", "2007;", "abbr=", "offset_dst=", "M13.6.9/99:99:99", "J60", "[a]\n" };
static void ini(void)
{
	S d; for (char c : fz_mutate(is, id)) if (c) d += c;
	Heap h(d, true); FzTime t("ini", d.size());
	M_ini_settings_t *st = M_ini_settings_create();
	if (vh_chance(80)) M_ini_settings_set_quote_char(st, '"');
	if (vh_chance(80)) M_ini_settings_set_escape_char(st, vh_chance(50) ? '\\' : '"');
	if (vh_chance(80)) M_ini_settings_set_comment_char(st, vh_chance(50) ? ';' : '#');
	if (vh_chance(90)) { M_ini_settings_set_element_delim_char(st, '\n'); M_ini_settings_set_kv_delim_char(st, '='); }
	M_ini_settings_set_padding(st, (M_uint32)vh_rndn(8));
	static const M_ini_dupkvs_t dk[] = { M_INI_DUPKVS_REMOVE, M_INI_DUPKVS_COMMENT_PREV, M_INI_DUPKVS_COLLECT };
	M_ini_settings_reader_set_dupkvs_handling(st, dk[vh_rndn(3)]);
	M_ini_settings_writer_set_multivals_handling(st, vh_chance(50) ? M_INI_MULTIVALS_USE_LAST : M_INI_MULTIVALS_KEEP_EXISTING);
	size_t el = 0; M_ini_t *i = M_ini_read(h.p, st, vh_chance(50) ? M_TRUE : M_FALSE, &el);
	fin(d, i != NULL);
	if (i) {
		M_list_str_t *k = M_ini_kv_keys(i);
		for (size_t j = 0; j < M_list_str_len(k); j++) { const char *kn = M_list_str_at(k, j); for (size_t x = 0; x < M_ini_kv_len(i, kn); x++) ts(M_ini_kv_get_direct(i, kn, x)); }
		if (M_list_str_len(k)) { S kn = M_list_str_at(k, vh_rndn(M_list_str_len(k))); switch (vh_rndn(4)) { case 0: M_ini_kv_remove(i, kn.c_str()); break; case 1: M_ini_kv_rename(i, kn.c_str(), "s/new"); break; case 2: M_ini_kv_insert(i, kn.c_str(), "more"); break; default: M_ini_kv_set(i, kn.c_str(), "v"); } }
		M_list_str_destroy(k);
		M_ini_t *i2 = M_ini_duplicate(i), *i3 = M_ini_merge(i, i2, vh_chance(50) ? i2 : NULL, st); M_ini_destroy(i3); M_ini_destroy(i2);
		char *o = M_ini_write(i, st); ts(o); M_free(o);
		M_ini_destroy(i);
	}
	M_ini_settings_destroy(st);
}
static void mtz(void)
{
	S d; for (char c : fz_mutate(is, id, 1500)) if (c) d += c;
	Heap h(d, true); FzTime t("mtz", d.size());
	M_time_tzs_t *z = M_time_tzs_create(); size_t el; char *es = NULL, *ed = NULL;
	M_time_result_t r = M_mtzfile_tzs_add_str(z, h.p, &el, &es, &ed);
	fin(d, r == M_TIME_RESULT_SUCCESS);
	M_free(es); M_free(ed);
	M_list_str_t *l = M_time_tzs_get_loaded_zones(z);
	for (size_t i = 0; i < M_list_str_len(l) && i < 4; i++) { const M_time_tz_t *tz = M_time_tzs_get_tz(z, M_list_str_at(l, i)); M_time_localtm_t tm; memset(&tm, 0, sizeof(tm)); M_time_tolocal((M_time_t)(int32_t)vh_rnd(), &tm, tz); M_time_fromlocal(&tm, tz); }
	M_list_str_destroy(l); M_time_tzs_destroy(z);
}
/* ---- HTTP ---- */
static const VS hs = { "GET /p?q=1&r=a%20b HTTP/1.1\r\nHost: example.com:80\r\nAccept: a, b;q=0.5\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nSet-Cookie: a=b; Path=/\r\n\r\nhello", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5;x=\"y\"\r\nhello\r\n0\r\nT: v\r\n\r\n", "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=BB\r\nContent-Length: 80\r\n\r\n--BB\r\nA: b\r\n\r\ndata\r\n--BB\r\n\r\nmore\r\n--BB--\r\n", "POST /x HTTP/1.0\r\nContent-Type: application/x-www-form-urlencoded; charset=latin_1\r\nContent-Length: 7\r\n\r\na=b&c=%E9" };
static const VS hd = { "\r\n", "\n", "\r", ":", ";", ",", "=", "\"", " ", "--BB", "--", "0\r\n", "ffffffffffffffff", "-1", "Content-Length: ", "Transfer-Encoding: chunked\r\n", "HTTP/1.1 ", "GET ", "%", "%00", "%zz", "?", "&", "Content-Type: multipart/mixed; boundary=", "charset=utf-8", "\t", "Host: [::1]:8", "Set-Cookie: " , "\r\n\r\n", "Expect: 100-continue\r\n"};
static M_http_error_t hb(const unsigned char *d, size_t l, void *) { touch(d, l); return M_HTTP_ERROR_SUCCESS; }
static M_http_error_t hbi(const unsigned char *d, size_t l, size_t, void *) { touch(d, l); return M_HTTP_ERROR_SUCCESS; }
static M_http_error_t hk(const char *k, const char *v, void *) { ts(k); ts(v); return M_HTTP_ERROR_SUCCESS; }
static M_http_error_t hki(const char *k, const char *v, size_t, void *) { ts(k); ts(v); return M_HTTP_ERROR_SUCCESS; }
static M_http_error_t hst(M_http_message_type_t, M_http_version_t, M_http_method_t, const char *u, M_uint32, const char *r, void *) { ts(u); ts(r); return M_HTTP_ERROR_SUCCESS; }
static void http(void)
{
	S d = fz_mutate(hs, hd); FzTime t("http", d.size());
	if (vh_chance(50)) {
		Heap h(d); M_http_simple_read_t *s = NULL; size_t lr = 0;
		M_http_error_t e = M_http_simple_read(&s, (const unsigned char *)h.p, h.n, (M_uint32)vh_rndn(16), &lr);
		VH_CHECK(lr <= h.n, "http:lenread", "read %zu of %zu", lr, h.n);
		fin(d, e == M_HTTP_ERROR_SUCCESS);
		if (s) {
			size_t l; const unsigned char *b; M_uint16 port; ts(M_http_simple_read_uri(s)); ts(M_http_simple_read_path(s)); ts(M_http_simple_read_host(s)); M_http_simple_read_port(s, &port);
			b = M_http_simple_read_body(s, &l); if (b) touch(b, l);
			M_http_simple_read_body_form_data(s); ts(M_http_simple_read_content_type(s)); ts(M_http_simple_read_charset(s));
			M_list_str_t *k = M_http_simple_read_headers(s); for (size_t i = 0; i < M_list_str_len(k); i++) { char *v = M_http_simple_read_header(s, M_list_str_at(k, i)); ts(v); M_free(v); } M_list_str_destroy(k);
			M_hash_dict_t *hdct = M_http_simple_read_headers_dict(s); M_hash_dict_destroy(hdct);
		}
		M_http_simple_read_destroy(s);
	} else {
		struct M_http_reader_callbacks cb; memset(&cb, 0, sizeof(cb));
		cb.start_func = hst; cb.header_full_func = hk; cb.header_func = hk; cb.body_func = hb; cb.chunk_extensions_func = hki; cb.chunk_data_func = hbi; cb.multipart_preamble_func = hb; cb.multipart_header_full_func = hki; cb.multipart_header_func = hki; cb.multipart_data_func = hbi; cb.multipart_epilouge_func = hb; cb.trailer_full_func = hk; cb.trailer_func = hk;
		if (vh_chance(10)) memset(&cb, 0, sizeof(cb));
		M_http_reader_t *r = M_http_reader_create(&cb, (M_uint32)vh_rndn(2), NULL); S pend; size_t at = 0; M_http_error_t e = M_HTTP_ERROR_MOREDATA; size_t mx = vh_chance(50) ? 1 + vh_rndn(8) : 1 + vh_rndn(400);
		while (at < d.size()) {
			size_t n = std::min(d.size() - at, 1 + vh_rndn(mx)), lr = 0; pend += d.substr(at, n); at += n;
			Heap h(pend); e = M_http_reader_read(r, (const unsigned char *)h.p, h.n, &lr);
			VH_CHECK(lr <= h.n, "http:lenread", "read %zu of %zu", lr, h.n);
			pend.erase(0, lr);
			if (e != M_HTTP_ERROR_MOREDATA) break;
		}
		fin(d, e == M_HTTP_ERROR_SUCCESS);
		M_http_reader_destroy(r);
	}
	if (vh_chance(10)) { S q; for (char c : d) if (c) q += c; M_hash_dict_t *a = M_http_parse_query_string(q.c_str(), M_TEXTCODEC_PERCENT_URL); M_hash_dict_destroy(a); a = M_http_parse_form_data_string(q.c_str(), M_TEXTCODEC_PERCENT_FORM); M_hash_dict_destroy(a); }
}
/* ---- URL ---- */
static const VS us = { "http://user:pw@host.example:8080/p/a?q=1#f", "https://[::1]:443/", "mailto:x@y", "ftp://h", "http://1.2.3.4/%41%zz?x#y?z" };
static const VS ud = { ":", "/", "//", "@", "?", "#", "[", "]", "%", "%41", "65536", "a", "::", "http://", "-", ".", "\x80" };
static void url(void)
{
	S d; for (char c : fz_mutate(us, ud, 500)) if (c) d += c;
	Heap h(d, true); FzTime t("url", d.size()); M_url_t *u = M_url_create(h.p); fin(d, u != NULL);
	if (u) { ts(M_url_schema(u)); ts(M_url_host(u)); ts(M_url_port(u)); ts(M_url_path(u)); ts(M_url_query(u)); ts(M_url_fragment(u)); ts(M_url_userinfo(u)); M_url_port_u16(u); M_url_destroy(u); }
}
/* ---- email ---- */
static const VS es = { "From: A B <a@b.c>\r\nTo: \"x, y\" <x@y>, z@w\r\nCc: grp: a@b, c@d;\r\nSubject: s =?utf-8?Q?=C3=A9?=\r\n\r\nbody\r\n", "Content-Type: multipart/mixed; boundary=\"BB\"\r\nMIME-Version: 1.0\r\n\r\npre\r\n--BB\r\nContent-Type: text/plain\r\n\r\nhi\r\n--BB\r\nContent-Disposition: attachment; filename=\"f.txt\"\r\nContent-Transfer-Encoding: base64\r\n\r\nAAAA\r\n--BB--\r\nepi\r\n", "Reply-To: r@s\r\nX-H: a\r\n folded\r\n\tmore\r\nBcc: q@r\r\n\r\n", "Content-Type: multipart/alternative; boundary=A\r\n\r\n--A\r\nContent-Type: multipart/mixed; boundary=B\r\n\r\n--B\r\n\r\nx\r\n--B--\r\n--A--\r\n" };
static const VS ed = { "\r\n", "\n", "\r", ":", ";", ",", "<", ">", "\"", "@", "--BB", "--BB--", "--A", "--", "=?", "?=", "From: ", "To: ", "boundary=", "Content-Type: multipart/mixed; boundary=", " ", "\t", "\\", "(", ")", "\r\n\r\n", "filename=", "=", "attachment" };
static M_email_error_t eb(const char *d, size_t l, void *) { touch(d, l); return M_EMAIL_ERROR_SUCCESS; }
static M_email_error_t ebi(const char *d, size_t l, size_t, void *) { touch(d, l); return M_EMAIL_ERROR_SUCCESS; }
static M_email_error_t ehi(const char *k, const char *v, size_t, void *) { ts(k); ts(v); return M_EMAIL_ERROR_SUCCESS; }
static M_email_error_t eat(const char *k, const char *v, const char *f, size_t, void *) { ts(k); ts(v); ts(f); return M_EMAIL_ERROR_SUCCESS; }
static M_email_error_t ead(const char *g, const char *n, const char *a, void *) { ts(g); ts(n); ts(a); return M_EMAIL_ERROR_SUCCESS; }
static void email(void)
{
	S d = fz_mutate(es, ed); FzTime t("email", d.size());
	switch (vh_rndn(4)) {
		case 0: case 1: {
			Heap h(d); M_email_t *e = NULL; size_t lr = 0; M_email_error_t r = M_email_simple_read(&e, h.p, h.n, 0, &lr);
			VH_CHECK(lr <= h.n, "email:lenread", "read %zu of %zu", lr, h.n);
			fin(d, r == M_EMAIL_ERROR_SUCCESS);
			if (e) {
				const char *g, *n, *a; M_email_from(e, &g, &n, &a); char *f = M_email_from_field(e); ts(f); M_free(f); f = M_email_to_field(e); ts(f); M_free(f); f = M_email_cc_field(e); M_free(f); f = M_email_bcc_field(e); M_free(f); f = M_email_reply_to_field(e); M_free(f); ts(M_email_subject(e));
				for (size_t i = 0; i < M_email_parts_len(e); i++) { ts(M_email_part_data(e, i)); M_email_part_headers(e, i); M_email_part_attachment_info(e, i, &g, &n, &a); }
				char *o = M_email_simple_write(e); ts(o); M_free(o);
			}
			M_email_destroy(e);
			break; }
		case 2: {
			struct M_email_reader_callbacks cb; memset(&cb, 0, sizeof(cb));
			cb.body_func = eb; cb.multipart_preamble_func = eb; cb.multipart_header_func = ehi; cb.multipart_header_attachment_func = eat; cb.multipart_data_func = ebi; cb.multipart_epilouge_func = eb;
			if (vh_chance(10)) memset(&cb, 0, sizeof(cb));
			M_email_reader_t *r = M_email_reader_create(&cb, 0, NULL); S pend; size_t at = 0; M_email_error_t e = M_EMAIL_ERROR_MOREDATA; size_t mx = vh_chance(50) ? 1 + vh_rndn(8) : 1 + vh_rndn(400);
			while (at < d.size()) {
				size_t n = std::min(d.size() - at, 1 + vh_rndn(mx)), lr = 0; pend += d.substr(at, n); at += n; Heap h(pend);
				e = M_email_reader_read(r, h.p, h.n, &lr); VH_CHECK(lr <= h.n, "email:lenread", "read %zu of %zu", lr, h.n); pend.erase(0, lr);
				if (e != M_EMAIL_ERROR_MOREDATA && e != M_EMAIL_ERROR_SUCCESS) break;
			}
			fin(d, e == M_EMAIL_ERROR_SUCCESS);
			M_email_reader_destroy(r);
			break; }
		default: {
			S z; for (char c : d) if (c) z += c; Heap h(z, true); M_hash_dict_t *hd_ = NULL; char *b = NULL;
			M_email_error_t r = M_email_simple_split_header_body(h.p, &hd_, &b); fin(d, r == M_EMAIL_ERROR_SUCCESS); M_hash_dict_destroy(hd_); ts(b); M_free(b);
			S ad = fz_mutate({ "A B <a@b.c>, \"x, y\" <x@y>", "grp: a@b, c@d;", "a@b" }, ed, 300), az; for (char c : ad) if (c) az += c; Heap ha(az, true); M_email_process_address(ha.p, ead, NULL); }
	}
}
/* ---- depth: documents whose nesting is limited only by their length ---- */
static S rep(const S &s, size_t n) { S r; r.reserve(s.size() * n); while (n-- > 0) r += s; return r; }
static void deep(void)
{
	size_t n = (size_t)1 << (8 + vh_rndn(10)); S d; FzTime t("deep", n, 60);
	switch (vh_rndn(7)) {
		case 0: d = rep("[", n) + (vh_chance(50) ? rep("]", n) : S()); goto j;
		case 1: d = rep("{\"a\":", n) + "1" + (vh_chance(50) ? rep("}", n) : S());
		j: { Heap h(d); M_json_node_t *x = M_json_read(h.p, h.n, 0, NULL, NULL, NULL, NULL); fin(d, x != NULL); if (x) { size_t c; char *o = M_json_write(x, 0, NULL); M_free(o); M_json_node_t **m = M_json_jsonpath(x, "$..a", &c); M_free(m); } M_json_node_destroy(x); break; }
		case 2: d = rep("<a>", n) + (vh_chance(60) ? rep("</a>", n) : S()); goto x;
		case 3: d = rep("<!--", n) + rep("<![CDATA[", n);
		x: { Heap h(d); M_xml_node_t *x = M_xml_read(h.p, h.n, 0, NULL, NULL, NULL, NULL); fin(d, x != NULL); if (x) { size_t c; char *o = M_xml_write(x, 0, NULL); M_free(o); M_xml_node_t **m = M_xml_xpath(x, "//a", 0, &c); M_free(m); } M_xml_node_destroy(x); break; }
		case 4: d = "To: " + rep("a@b, ", n > 4096 ? 4096 : n) + "\r\n" + rep("X: y\r\n", n > 4096 ? 4096 : n) + "\r\n"; { Heap h(d); M_email_t *e = NULL; size_t lr; M_email_simple_read(&e, h.p, h.n, 0, &lr); fin(d, e != NULL); M_email_destroy(e); } break;
		case 5: d = "GET / HTTP/1.1\r\n" + rep("X: y, z\r\n", n > 4096 ? 4096 : n) + "Transfer-Encoding: chunked\r\n\r\n" + rep("1\r\na\r\n", n > 8192 ? 8192 : n) + "0\r\n\r\n"; { Heap h(d); M_http_simple_read_t *s = NULL; size_t lr; M_http_simple_read(&s, (const unsigned char *)h.p, h.n, 0, &lr); fin(d, s != NULL); M_http_simple_read_destroy(s); } break;
		default: d = rep("[a]\nk=v\n", n > 4096 ? 4096 : n) + rep("x/", n > 4096 ? 4096 : n) + "=1\n"; { Heap h(d, true); M_ini_settings_t *st = M_ini_settings_create(); M_ini_settings_set_element_delim_char(st, '\n'); M_ini_settings_set_kv_delim_char(st, '='); size_t el; M_ini_t *i = M_ini_read(h.p, st, M_TRUE, &el); fin(d, i != NULL); if (i) { char *o = M_ini_write(i, st); M_free(o); } M_ini_destroy(i); M_ini_settings_destroy(st); }
	}
}

const vh_mode_t vh_modes[] = { { "json", json, NULL, NULL }, { "xml", xml, NULL, NULL }, { "csv", csv, NULL, NULL }, { "table", table, NULL, NULL }, { "ini", ini, NULL, NULL }, { "mtz", mtz, NULL, NULL }, { "http", http, NULL, NULL }, { "url", url, NULL, NULL }, { "email", email, NULL, NULL }, { "deep", deep, NULL, NULL }, {} };
