def check(r):
    exe = r.build("b22", ["b22_getopt.cc"], ["base"])
    k = 20 if r.thorough else 1
    r.mode(exe, "parse", 60000 * k)
    r.mode(exe, "help", 10000 * k)
    for c, n in (("parse.parses", 100000), ("parse.callbacks", 100000), ("parse.groups", 10000), ("parse.separate_values", 4000), ("parse.attached_values", 5000), ("parse.full", 2000), ("parse.added", 100000), ("parse.refused", 10000), ("parse.dups", 10000), ("parse.ret_0", 10000), ("parse.ret_1", 5000), ("parse.ret_2", 5000), ("parse.ret_3", 1000), ("parse.ret_4", 5000), ("parse.ret_5", 2000), ("help.texts", 5000)): r.require(c, n)
    return r.finish("a case is one option set with up to six argument vectors (parse) or its help text (help)",
        ["an attached value that contains another equals sign is rejected as the existing tests require", "conversion of decimals is taken from M_decimal_from_str (B11)"])
DESIGN = """Random option sets (all four types, value required or optional, short/long/both, invalid and duplicate names) and random argument vectors (separate and attached values, grouped short options, mixed-case long options, `--`, `-`, unknown options, values of the wrong type, non-options in any place, callbacks that reject). Every callback is recorded; the log, the result code and the offending argument must equal those of a direct model of the documented grammar: each occurrence delivered once, in order, to its own callback with the converted value, nothing delivered after the error. Arguments live in exact-size allocations under ASan."""
