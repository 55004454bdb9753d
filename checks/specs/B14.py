def check(r):
    exe = r.build("b14", ["b14_utf8.cc"], ["base"])
    r.mode(exe, "cps", 0x110000 // 256); r.mode(exe, "bytes", 1024); r.mode(exe, "strs", 400000 if r.thorough else 20000)
    r.require("cps.valid_cps", 1111998); r.require("cps.invalid_cps", 2048 + 66); r.require("cps.case_pairs", 4287); r.require("bytes.accepted", 3000); r.require("bytes.rejected", 500000); r.require("strs.bad_strings", 3000); r.require("strs.class_all_true", 500)
    return r.finish("a case is a block of 256 code points (every code point is judged), one first byte with 64 second bytes and boundary third and fourth bytes, or one random string with and without one ill-formed sequence",
        ["the Unicode data is perl's copy of version 15.0 (harness/unidata.h), code points newer than the documented Unicode 10.0 that the library knows differently are not judged", "classification of lower/upper/alphabetic by general category only is a recorded finding"])
DESIGN = """Exhaustive over the 1,114,112 code points (validity, encoding in exact-size buffers, decoding, upper/lower/title mapping, nine classifications and their character forms) against tables derived from an independent copy of the Unicode database, all first/second byte pairs with boundary third and fourth bytes against table 3-7 of the standard, and random strings with planted ill-formed sequences for validation, counting, indexing, mapping and string classification; ASAN/UBSAN underneath. ~15 s quick."""
