def check(r):
    exe = r.build("b07", "b07_cache.cc", ["base"])
    k = 20 if r.thorough else 1
    r.mode(exe, "ops", 30000 * k)
    r.require("ops.ops", 1000000); r.require("ops.evicted", 50000); r.require("ops.resized", 5000); r.require("ops.order", 20000)
    return r.finish("a case is a random cache (generic or string keyed, case folding, value duplication, owning or not, capacity 0-200) and a history of 20-620 inserts, re-inserts, fetches, removals and capacity changes compared with a reference recency list",
                    ["the recency list in harness/b07_cache.cc is right"])
DESIGN = """Decided by lock-step comparison with a reference recency list: results, values fetched, size and capacity after every step, the identity of every value released (released ids must be exactly those the list drops, exactly once), live key copies, and at the end shrinking one entry at a time to see the recency order. ~5 s quick."""
