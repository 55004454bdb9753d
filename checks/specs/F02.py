def check(r):
    exe = r.build("f02", ["f02_xml.cc"], ["base", "text", "formats"])
    k = 20 if r.thorough else 1
    r.mode(exe, "read", 30000 * k)
    r.mode(exe, "write", 30000 * k)
    r.mode(exe, "query", 20000 * k)
    r.mode(exe, "mangle", 40000 * k)
    r.mode(exe, "entity", 40000 * k)
    for c, n in (("read.documents", 20000), ("read.placed", 20000), ("read.truncated", 100000), ("read.attributes", 100000), ("write.exact", 10000), ("write.reread", 2000), ("write.edits", 10000), ("query.queries", 150000), ("query.nonempty", 20000), ("mangle.stable", 1000), ("entity.entities", 30000)): r.require(c, n)
    return r.finish("a case is one document",
        ["white space at the ends of text is dropped unless it is in a CDATA section or a character reference", "character references other than &#xA; and &#xD; are left as they are", "attribute names compare without case", "values in path predicates contain no quotes, slashes or brackets"])
DESIGN = """Random trees (elements, attributes, text, CDATA, comments, instructions, declarations) are printed by an independent printer with random layout, quoting and entities, read by the library from exact-size memory under every flag set and compared node by node, with parent and sibling links; what follows the document must stay unread; every truncation, mismatched close, duplicate attribute and second root must be rejected, at the exact offset or line and column. Trees built and edited through the API must be written byte for byte as an independent writer does and survive reading, whatever the layout. Random path queries (steps, //, .., ., wildcards, positions, attribute predicates) are compared with an independent evaluator as sets, without duplicates. Mangled documents that are accepted must be stable when written and read. ASan/UBSan throughout."""
