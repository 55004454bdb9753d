def check(r):
    k = 30 if r.thorough else 1
    exe = r.build("f09_conf", ["f09_conf.cc"], ["base", "text", "formats"])
    r.mode(exe, "conf", 25000 * k, timeout=240 * (4 if r.thorough else 1))
    for c, n in (("accepted", 30000), ("rejected", 9000), ("defaults", 9000), ("converter_failures", 2500), ("duplicates", 900)):
        r.require("conf." + c, n * k)
    return r.finish("a case is one configuration file with up to eight registrations of the thirteen types, converters and validators",
                    ["numbers are decimal digits with an optional minus sign for signed types", "strings longer than a registered buffer are cut at its size", "any text is a boolean (M_str_istrue decides)",
                     "each key is registered once"])


DESIGN = """A reference decides from the text written into the file, with 128 bit integers, what each registered variable has to hold (value,
cut value or default), which keys have to be reported and whether the parse succeeds; values are generated at, just inside and just
outside of the registered bounds and of the type's range. Variables lie in blocks with guard bytes; converters and validators record their calls and
arguments; unused keys (list and debug log) are accounted per value."""
