DESIGN = """Every document parser of the formats module (JSON and JSONPath, XML and XPath, CSV, tables from CSV/JSON/markdown, INI with
each reader setting, time zone INI, HTTP whole and streamed in random segments, query/form strings, URL, email whole and streamed, address
lists) is run on documents made by token-level mutation of valid ones (splices, repeated chunks, truncation, extreme numbers, dictionary
tokens, raw bytes), each in an exact-size heap block, with random flags; what is accepted is then queried, edited and written back. ASan,
UBSan and LeakSanitizer decide memory, arithmetic and leaks; a CPU-time bound per document decides termination. Mode deep gives documents
whose nesting or repetition is limited only by their length (up to 128 k levels), under the default 8 MB stack."""


def check(r):
    k = 40 if r.thorough else 2
    exe = r.build("m01_fuzz", ["m01_fuzz.cc"], ["base", "text", "formats"])
    for m, n in (("json", 25000), ("xml", 20000), ("csv", 15000), ("table", 8000), ("ini", 15000), ("mtz", 15000), ("http", 30000), ("url", 20000), ("email", 30000)):
        r.mode(exe, m, n * k, timeout=240 * (4 if r.thorough else 1))
        r.require(m + ".accepted", n * k // 60)
        r.require(m + ".refused", n * k // 60)
    r.mode(exe, "deep", 60 if not r.thorough else 300)
    return r.finish("no document may cause an invalid access, undefined operation, leak or unbounded run",
                    ["documents up to a few kB except for mode deep", "text parsers taking C strings get no NUL", "JSONPath indices are kept below 10000"])
