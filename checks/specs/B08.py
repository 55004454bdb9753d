def check(r):
    exe = r.build("b08", "b08_str.cc", ["base"])
    k = 30 if r.thorough else 1
    r.mode(exe, "chr", 256)
    r.mode(exe, "ops", 60000 * k)
    r.require("chr.chars", 256); r.require("ops.calls", 500000); r.require("ops.pat_match", 10000); r.require("ops.pat_nomatch", 5000); r.require("ops.quoted", 3000); r.require("ops.bracketed", 5000)
    return r.finish("a case is a dozen calls of string helpers with random text over a small alphabet (blanks, quotes, escapes, delimiters, bytes above 127) in exact-size heap blocks, limits and buffer sizes around the text's length; plus every character through every character predicate",
                    ["the one-line definitions in harness/b08_str.cc are the documented meaning"])
DESIGN = """Decided per call: every helper of m_str.h (copy, concatenate, compare, search, replace, trim, justify, quote, case, delete, explode, implode, wrap, predicates, hexdump, pattern match) is compared with a one-line definition over std::string; all buffers are exact-size heap blocks under ASan and bytes behind the terminator are checked to be untouched. Character predicates are checked for all 256 characters. ~10 s quick."""
