def check(r):
    exe = r.build("b04", "b04_hash.cc", ["base"])
    k = 8 if r.thorough else 1
    r.mode(exe, "ops", 30000 * k, leak=True); r.mode(exe, "ser", 40000 * k, leak=True); r.mode(exe, "multi", 15000 * k, leak=True)
    r.require("ops.ops", 700000); r.require("ops.merges", 10000); r.require("ops.grown", 3000); r.require("multi.ops", 400000)
    return r.finish("a case is a random configuration (table type, case folding, key order, multi-value mode and sort, initial size, fill limit) and a history of 20-320 operations compared with an ordered association list; serialization cases compare the text with the documented format and its re-read dictionary; multi-type cases compare every typed getter after every operation",
                    ["the association-list model in harness/b04_hash.cc is right", "callers do not insert the same pointer twice into a multi-value pointer table"])
DESIGN = """Decided by lock-step comparison of all nine typed tables with an ordered association list: result codes, key counts, get/multi_get after each step, whole-table enumeration (order, spelling of stored keys, values) after sampled steps and at the end,
plus a log of value-destroy callbacks (exactly once per dropped value, never for kept ones). Sizes 1-64 with fill limits 0-99 % force chains and rehashes. Dict serialization is compared with an independent writer and re-read. Runs under ASan+UBSan+LSan, ~10 s quick."""
