def check(r):
    exe = r.build("b05", "b05_list.cc", ["base"])
    k = 10 if r.thorough else 1
    r.mode(exe, "ops", 40000 * k); r.mode(exe, "ptr", 20000 * k)
    r.require("ops.ops", 1000000); r.require("ops.merges", 5000); r.require("ptr.ops", 400000)
    return r.finish("a case is a random list type and configuration (sorted, descending, case folding, stable, stack, set, never-shrink) and a history of 20-220 operations; the whole list is compared with a reference sequence after every operation",
                    ["the reference sequence in harness/b05_list.cc is right", "equal elements of a non-stable sorted list may appear in any order", "merged lists have the same configuration"])
DESIGN = """Decided by lock-step comparison of generic, string, u64 and binary lists with a reference sequence: result codes, whole content after every operation (exact for unsorted and stable lists; equal runs compared as multisets otherwise), index/count/insert-index queries, and a live-object set that sees every duplicate and release of owned values. A second mode matches by pointer with aliased pointers. ~8 s quick."""
