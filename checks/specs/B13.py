import os
HDR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "harness", "wipe_alloc.h")
class All(dict):
    def get(self, k, d=None): return "-include " + os.path.normpath(HDR)
    def __bool__(self): return True
MODES = {"b01_buf.cc": ["ops"], "b02_parser.cc": ["ops"], "b04_hash.cc": ["ops", "ser", "multi"], "b05_list.cc": ["ops", "ptr"], "b08_str.cc": ["ops", "chr"]}
def check(r):
    kw = dict(per_file_flags=All())
    exe = r.build("b13", ["b13_mem.cc", "wipe.cc"], ["base"], **kw)
    k = 30 if r.thorough else 1
    r.mode(exe, "alloc", 3000 * k); r.mode(exe, "errors", 1500 * k); r.mode(exe, "helpers", 2500 * k); r.mode(exe, "objects", 4000 * k)
    # the workloads of other properties with the release monitor underneath; only what the monitor reports counts here
    n0 = len(r.viols)
    for name, f, modes in [("b13_buf", "b01_buf.cc", 1), ("b13_parser", "b02_parser.cc", 1), ("b13_hash", "b04_hash.cc", 1), ("b13_list", "b05_list.cc", 1), ("b13_str", "b08_str.cc", 1)]:
        e = r.build(name, [f, "wipe.cc"], ["base"], **kw)
        for m in MODES[f]:
            r.mode(e, m, 250 * k)
    r.viols[n0:] = [v for v in r.viols[n0:] if v.key.startswith("wipe:")]
    r.require("objects.wiped_blocks", 100000); r.require("alloc.wiped_blocks", 50000); r.require("alloc.grown", 10000); r.require("alloc.shrunk", 5000); r.require("errors.alloc_failures", 2000); r.require("helpers.helpers", 40000)
    return r.finish("a case is one allocation history of 20..80 steps with a byte model, one history of error callbacks with injected allocation failures, twenty sets of memory helper calls, one history of library containers holding secrets, or one case of the buffer, parser, hashtable, list and string workloads with the release monitor underneath",
                    ["every release of the base library goes through the malloc/free names its sources call (renamed at compile time)", "wiped means that every byte, header included, is the same 0x00 or 0xFF"])
DESIGN = """The base library is compiled with malloc/free/realloc renamed to monitored versions: at every release the whole block must hold nothing but the wipe value, a resize that leaves a block behind must wipe it too. Allocation histories are compared with a byte model (common prefix, zeroed tail, alignment, zero sizes), allocation failures are injected to check the error callback order, helpers are compared with libc/std and bitwise CRCs. The reused workloads of B01, B02, B04, B05, B08 extend the reach of the release monitor. ~15 s quick."""
