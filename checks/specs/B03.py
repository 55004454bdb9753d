def check(r):
    exe = r.build("b03", "b03_bits.cc", ["base"])
    n = 500000 if r.thorough else 40000
    r.mode(exe, "buf", n); r.mode(exe, "parse", n)
    r.require("buf.ops", 500000); r.require("parse.ops", 500000)
    return r.finish("a case is a random history of 10-50 operations on a bit buffer or bit parser, compared after every operation with a vector of bits (length, packed bytes, offsets, counts, results)",
                    ["the bit-vector model in harness/b03_bits.cc is right"])
DESIGN = """Decided by lock-step comparison with a vector of bits, exact-size source and destination blocks under ASan (reads one byte past unaligned data are visible).
Includes unused bits of partial bytes set to random values. ~5 s quick."""
