def check(r):
    exe = r.build("b09", "b09_num.cc", ["base"])
    k = 30 if r.thorough else 1
    r.mode(exe, "conv", 60000 * k)
    r.require("conv.fits", 400000); r.require("conv.overflow", 100000); r.require("conv.invalid", 30000); r.require("conv.plain", 100000); r.require("conv.bin", 20000)
    return r.finish("a case is 20 number texts (around every type limit, multiples past 64 bits, long digit runs, prefixes, signs, blanks, stray characters, embedded NUL, cut-off lengths in exact-size blocks) in bases 0-36 and invalid ones through all eight conversion functions, plus implied-decimal and length-framed binary values",
                    ["negative text for the unsigned 64 bit conversion wraps (as strtoull does) and saturates for 32 bit", "a 0x prefix without a hex digit behind it is not judged"])
DESIGN = """Decided per call: result code, value and end position are compared with an exact computation in 128 bit integers saturated to the type. Texts are concentrated around type limits and just past 64 bits (including multiples that wrap to plausible values). ~5 s quick."""
