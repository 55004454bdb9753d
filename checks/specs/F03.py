def check(r):
    exe = r.build("f03", ["f03_http.cc"], ["base", "text", "formats"])
    k = 20 if r.thorough else 1
    r.mode(exe, "valid", 12000 * k)
    r.mode(exe, "mangle", 25000 * k)
    r.mode(exe, "refuse", 300 * k)
    for c, n in (("valid.segmentations", 30000), ("valid.events", 300000), ("valid.prefixes", 40000), ("valid.stops", 3000), ("valid.simple", 5000), ("valid.kind4", 1000), ("mangle.mangled", 20000), ("mangle.result0", 2000), ("refuse.refused", 200), ("refuse.many", 10), ("refuse.pipelined", 10)): r.require(c, n)
    return r.finish("a case is one message, read whole and in several segmentations",
        ["data callbacks with adjacent data of the same part count as one event", "after an error only the last, incomplete element may differ between segmentations", "blanks before a start line belong to the message"])
DESIGN = """Messages are generated together with the events they mean (requests and responses; no body, content length, chunks with extensions and trailers, multipart with preamble and epilogue and data that nearly contains the boundary, until close; framing headers in any place) and read from exact-size memory whole, byte by byte and in random segmentations, the caller feeding unread bytes again: the recorded callbacks must be exactly those events, the result and the consumed length exact, and bytes after the message left alone. Every prefix must ask for more and report only a prefix of the events; a callback that fails must stop the reading at once with its code; the simple reader must deliver the same body and honour its flags. Mangled messages must read the same in every segmentation. A list of malformed lengths, chunks, headers, start lines and parts must be refused in every segmentation; limits are checked at the exact byte; 150,000 chunks and 20,000 parts must be read. ASan/UBSan throughout."""
