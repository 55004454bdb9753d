def check(r):
    exe = r.build("x02", ["x02_codec.cc"], ["base", "text"])
    k = 20 if r.thorough else 1
    r.mode(exe, "tables", 28 * 272)
    for m, n in (("text", 6000), ("percent", 12000), ("qp", 8000), ("puny", 8000), ("names", 40)): r.mode(exe, m, n * (k if m != "names" else 1))
    for c, n in (("tables.points", 28 * 1100000), ("tables.bytes", 28 * 765), ("tables.roundtrips", 5000), ("text.text_roundtrips", 8000), ("text.text_unmappable", 5000), ("text.utf8_invalid", 4000), ("text.entries_compared", 20000), ("percent.roundtrips", 30000), ("percent.decode_0", 1000), ("percent.decode_1", 3000), ("percent.decode_2", 3000),
        ("qp.encoded", 20000), ("qp.soft_breaks", 10000), ("qp.decode_1", 1000), ("qp.decode_2", 1000), ("puny.roundtrips", 20000), ("puny.accepted", 500), ("puny.rejected", 2000), ("names.aliases", 1000)): r.require(c, n)
    return r.finish("a case is one 4096 code point range of one charset (tables) or a handful of texts (other modes)",
        ["undefined bytes of a charset are those Python's codec leaves undefined", "the form codecs leave CR and LF alone, percent decoding of a truncated escape drops it as coded, quoted-printable decoding keeps white space before a line end", "punycode with nothing before its first and only delimiter is not judged"])
DESIGN = """Every byte and every Unicode code point is passed through each of the 28 single-byte charsets under all three error modes and compared with tables generated from Python's codecs (harness/cptables.h). Random valid and damaged UTF-8 goes through every charset and the UTF-8 sanitizer; percent, quoted-printable and punycode output is compared with, or read back by, independent implementations of RFC 3986, RFC 2045 and RFC 3492, and hostile encoded text is decoded against the same models. Each conversion runs through the string, buffer and parser entry points, which must agree. Code runs under ASan/UBSan on exact-size inputs."""
