def check(r):
    exe = r.build("b02", "b02_parser.cc", ["base"])
    r.mode(exe, "ops", 600000 if r.thorough else 60000)
    r.require("ops.ops", 500000); r.require("ops.rewinds", 1000); r.require("ops.splits", 300); r.require("ops.frames", 300); r.require("ops.appends", 5000); r.require("ops.ascii_ints", 500)
    return r.finish("a case is a random history of 15-45 parser operations (every read/consume/truncate/query/split/frame call, all destination kinds, exact-size buffers, marks, appends) on a const or dynamic parser, "
                    "compared after every operation with an ideal string + position (remaining bytes, offset, line, column, mark, result)",
                    ["the ideal parser model in harness/b02_parser.cc is right",
                     "truncate_until without a match and BCD with invalid nibbles are left unspecified (documentation and existing tests disagree)"])
DESIGN = """Decided by lock-step comparison with an ideal string + position + mark: every read/consume/truncate/query/split/frame call with every destination kind,
exact-size destination buffers, const and dynamic parsers with interleaved appends and direct writes. After each step: remaining bytes, offset, line, column, mark, result.
60k histories quick, ~4 s."""
