def check(r):
    exe = r.build("b06", "b06_llist.cc", ["base"])
    k = 10 if r.thorough else 1
    r.mode(exe, "ops", 30000 * k); r.mode(exe, "queue", 20000 * k)
    r.require("ops.ops", 1000000); r.require("ops.merges", 5000); r.require("ops.moves", 10000); r.require("queue.ops", 500000); r.require("queue.foreach", 20000)
    return r.finish("a case is a random linked list type and configuration (sorted, descending, case folding, circular, comparison with a user thunk) or queue (sorted or not, owning or not) and a history of 20-620 operations; the node chain is walked in both directions after every operation and compared with a reference sequence of nodes",
                    ["the reference sequence in harness/b06_llist.cc is right", "in a circular list inserting or moving beside the end nodes may or may not make the node the new first one (its place in the ring is exact)"])
DESIGN = """Decided by lock-step comparison of generic, string, u64 and binary linked lists (plain, circular, sorted skip lists) with a reference sequence of node identities: after every operation the chain is walked forwards and backwards, with both ends, length, values, find/count answers; a live-object set sees each duplicate and release. Queues are compared with an ordered vector including enumeration with removal of the current member. ASan sees stale nodes. ~10 s quick."""
