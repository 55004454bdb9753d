def check(r):
    exe = r.build("b15", ["b15_bincodec.cc"], ["base"])
    r.mode(exe, "ops", 1500000 if r.thorough else 60000)
    r.require("ops.encoded", 60000); r.require("ops.decoded", 60000); r.require("ops.refused", 60000); r.require("ops.converted", 30000)
    return r.finish("a case is one byte string, codec and line width: encoded, decoded back, decoded after inserting white space, decoded after mutations (kept or rejected by a strict reference), converted to a second codec",
        ["unused bits of a final group may be anything", "base64-or-hex means hex exactly when all characters are hex digits and their number is even"])
DESIGN = """Reference encoders (generic bit regrouping) and strict reference decoders for base64, base32 and hex judge encoding with any line width, decoding, size predictions, bounded outputs, automatic detection and conversion. Every input and output buffer is an exact-size heap block under ASAN; inputs are never NUL terminated. Mutated texts check that exactly the valid ones are accepted. ~6 s quick."""
