DESIGN = """The primitives of base and text that take untrusted text or bytes (regular expression compilation, search and substitution;
every charset codec in both directions and with each error handler; time strings and formats, POSIX zone strings, zone files; integers
and decimals; path functions for each system type; getopt; UTF-8; base64/32/58 and hex with short output buffers; e-mail and domain
verification; quoting, exploding, wildcard and other C string functions) are run on inputs made by token-level mutation, each in an
exact-size heap block. ASan, UBSan and LeakSanitizer decide memory, arithmetic and leaks, a CPU-time bound per input decides
termination, and returned positions (match offsets, end pointers) have to lie inside the input. The automaton of a pattern is quadratic in the number of its positions, so patterns with many
alternatives or set members are kept below a thousand of them. Mode deep gives patterns, texts, paths and strings of up to 20 k repeated elements (nesting, alternations,
ambiguous repeats, many wildcards) and bounds their CPU time."""

MODES = (("regex", 20000, 80), ("codec", 25000, 30), ("timestr", 20000, 60), ("posixtz", 20000, 60), ("tzfile", 8000, 60), ("number", 30000, 60),
         ("path", 15000, 60), ("getopt", 15000, 60), ("utf8", 20000, 60), ("bincodec", 25000, 60), ("verify", 20000, 60), ("cstr", 15000, 200))


def check(r):
    k = 40 if r.thorough else 1
    exe = r.build("m02_fuzz", ["m02_fuzz.cc"], ["base", "text"])
    for m, n, f in MODES:
        r.mode(exe, m, n * k, timeout=240 * (4 if r.thorough else 1))
        r.require(m + ".accepted", n * k // f)
        r.require(m + ".refused", n * k // f)
    r.mode(exe, "deep", 280 if r.thorough else 56)
    r.require("deep.accepted", 20)
    return r.finish("no input may cause an invalid access, undefined operation, leak, unbounded run or a position outside of the input",
                    ["inputs up to 700 bytes", "functions taking C strings get no NUL", "counted repeats in patterns stay below 100 and are at most three: their product is the work the caller asks for"])
