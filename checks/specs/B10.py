def check(r):
    exe = r.build("b10", "b10_fmt.cc", ["base"])
    k = 30 if r.thorough else 1
    r.mode(exe, "fmt", 40000 * k)
    r.mode(exe, "longfd", 3000 * k)
    r.require("fmt.conversions", 300000); r.require("fmt.doubles", 20000); r.require("fmt.doubles_exact", 5000); r.require("fmt.truncated", 100000); r.require("fmt.malformed", 3000); r.require("fmt.sinks", 8000); r.require("longfd.long", 3000)
    return r.finish("a case is four random formats of up to four conversions (every conversion, flag, width, precision, size modifier, '*', NULL strings, malformed endings) with boundary values, printed to an allocated string, three bounded buffers of sizes around the length, a growing buffer and (every tenth) a stream, a descriptor and a library file",
                    ["glibc's snprintf is right", "documented differences: %e/%g print like %f, # always adds the 0x prefix, digits beyond double precision are not judged"])
DESIGN = """Decided per call: expected text from glibc's snprintf for integers and from explicit padding rules for strings, characters and pointers; doubles are judged numerically (correct rounding within half a unit in the last printed digit, exact agreement with glibc away from ties). All sinks must produce the same bytes and lengths; bounded buffers are exact-size heap blocks filled with a marker, so terminator, prefix and untouched tail are checked. ~10 s quick."""
