def check(r):
    exe = r.build("b12", "b12_sort.cc", ["base"])
    k = 30 if r.thorough else 1
    r.mode(exe, "sorts", 6000 * k); r.mode(exe, "compars", 1500 * k); r.mode(exe, "ints", 8000 * k); r.mode(exe, "rnd", 2500 * k)
    r.require("sorts.stable_sorts", 2000); r.require("sorts.unstable_sorts", 2000); r.require("sorts.searches", 50000); r.require("ints.ints", 200000); r.require("rnd.draws", 300000)
    return r.finish("a case is one random array (size 0..3000, element size 1..40, aligned or not, sorted/reversed/organ-pipe/equal/few-key patterns) sorted with a direction and searched for six keys; or forty boundary integers and doubles through every rounding and bit helper; or one seed's number streams, ranges and strings",
                    ["std::stable_sort, compiler builtins and libm are the references", "a range of at most 20 values is drawn 40 times its width, so missing a value by chance is below 1e-15"])
DESIGN = """Model comparison per call: sorted arrays against std::stable_sort (exact bytes for the merge sort, order plus multiset for the unstable sort, canary before unaligned arrays, ASan around it), search positions against a linear scan, integer helpers against compiler builtins and 128 bit arithmetic, random ranges against their bounds and coverage, seeds against replayed streams. ~6 s quick."""
