def check(r):
    exe = r.build("f07", ["f07_csv.cc"], ["base", "text", "formats"])
    k = 20 if r.thorough else 1
    r.mode(exe, "grid", 40000 * k)
    r.mode(exe, "text", 60000 * k)
    r.mode(exe, "select", 30000 * k)
    for c, n in (("grid.grids", 30000), ("grid.cells", 300000), ("grid.quoted", 100000), ("text.texts", 40000), ("text.cells", 200000), ("text.named", 20000), ("select.cells", 60000), ("select.selected", 10000), ("select.filtered", 10000), ("select.rewritten", 10000)): r.require(c, n)
    return r.finish("a case is one grid, text or selection",
        ["an empty cell and a missing cell are not distinguished when written", "text is NUL terminated and free of NUL bytes", "an unquoted carriage return ends the cell, the rest of it is dropped"])
DESIGN = """Random grids (quotes, delimiters, line breaks, white space, high bytes, quote-only cells) are written by an independent RFC 4180 writer with random delimiters, quotes, quoting and line ends, parsed through all three entry points and compared cell by cell; the library's own output is parsed back by the library and by a reference reader. Random near-CSV text is compared with that reader cell by cell (number, name, header, out of range). Header selection, row filters and cell writers are compared with a directly computed grid and their calls counted. Under ASan/UBSan on exact-size text."""
