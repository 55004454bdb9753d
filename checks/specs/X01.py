def check(r):
    exe = r.build("x01", ["x01_re.cc"], ["base", "text"])
    n = 300000 if r.thorough else 14000
    r.mode(exe, "ops", n); r.mode(exe, "small", n * 2); r.mode(exe, "bad", n)
    t = r.build("x01", ["x01_re.cc"], ["base", "text"], flavour="tsan")
    r.mode(t, "thr", 3000 if r.thorough else 300, flavour="tsan", leak=False)
    r.require("ops.hits", 15000); r.require("ops.longest", 15000); r.require("ops.shortest", 500); r.require("ops.captures", 8000); r.require("ops.captures_forced", 2500); r.require("ops.eq_true", 1500); r.require("ops.empty_hits", 2500); r.require("bad.malformed", 1500); r.require("bad.mut_refused", 300); r.require("thr.uses", 20000)
    return r.finish("a case is one generated pattern (syntax tree over the documented syntax, random flags, inline flags) tried on six subjects, one malformed or mutated pattern, or one pattern shared by four threads",
        ["the documentation does not say which of several matches starting at the same place is preferred: the longest is required without ungreedy repetitions, the shortest with exactly one ungreedy repetition and no alternation, any member of the language otherwise", "captures must be a span some way to match gives them; groups nested in a repeated group are only bounds-checked", "\\\\b and \\\\B (undocumented) are not generated"])
DESIGN = """Patterns are generated as syntax trees over the documented syntax (literals, escapes, classes, short hands, anchors, word ends, groups, alternation, greedy and ungreedy repetition, inline and compile flags, multi-byte characters), so that the oracle computes the set of ends for every start directly from the tree and never parses a pattern. Search, begin-anchored, whole-string, repeated search, find-all and substitution are judged against it: match exists iff the set is non-empty, start is the least, end belongs to the set (the longest or shortest where determined), every capture has a span that some way of matching gives, later matches keep their context, substitution equals the template applied to the matches. Malformed and mutated patterns (exact-size heap copies, ASAN/UBSAN) must be refused or behave consistently inside bounds; one compiled pattern is shared by four threads under TSAN with results compared."""
