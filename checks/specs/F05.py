def check(r):
    exe = r.build("f05", ["f05_url.cc"], ["base", "text", "formats"])
    k = 20 if r.thorough else 1
    r.mode(exe, "urls", 60000 * k)
    r.mode(exe, "noise", 60000 * k)
    for c, n in (("urls.accepted", 80000), ("urls.rejected", 30000), ("urls.long", 100), ("urls.user info", 10000), ("urls.port", 10000), ("urls.query", 20000), ("urls.fragment", 10000), ("noise.accepted", 10000), ("noise.rejected", 100000)): r.require(c, n)
    return r.finish("a case is a few URLs", ["scheme names are letters only, an authority is required after a scheme and its host must not be empty, relative references start with / or *", "path, query and fragment accept every visible ASCII character"])
DESIGN = """Random URLs (all host forms, user info, ports around the limit, reserved characters, long components over 64 KiB) and damaged or random near-URLs are split by an independent RFC 3986 splitter; acceptance, every component, the port number and the recomposed URL must agree. Under ASan/UBSan on exact-size text, which is overwritten before the parts are read."""
