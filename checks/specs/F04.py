def check(r):
    exe = r.build("f04", ["f04_http.cc"], ["base", "text", "formats"])
    k = 20 if r.thorough else 1
    r.mode(exe, "write", 25000 * k)
    r.mode(exe, "inject", 25000 * k)
    r.mode(exe, "uri", 40000 * k)
    r.mode(exe, "form", 25000 * k)
    r.mode(exe, "quoted", 2000 * k)
    for c, n in (("write.reread", 20000), ("inject.refused", 10000), ("inject.harmless", 3000), ("uri.uris", 30000), ("uri.args", 30000), ("uri.badURIs", 2000), ("form.values", 50000)): r.require(c, n)
    return r.finish("a case is one message, URI or form",
        ["the elements of a header value and the modifiers of an element are each given once (repeated ones are merged)", "header values are written with one blank after each comma and semicolon", "form data with empty values is left out", "URIs are given encoded; ones with blanks or control characters are encoded as a whole"])
DESIGN = """Random requests and responses (methods, hosts, ports, URIs, header sets with repeated and multi-valued headers and cookies, bodies, content types and charsets) are written through both forms of the writer and taken apart by an independent parser: start line, every header, one header per cookie, body and the number of headers must be exactly what was given, the date current; the library's reader must return the same through every accessor, with lookups in any case. Line ends put into any input must be refused or come out as no further header, line or message. Request URIs (absolute and relative, IPv6, ports, escapes, query arguments) are compared with an independent splitter; bad ones must be refused. Forms and query strings must come back as given. ASan/UBSan and LeakSanitizer throughout."""
