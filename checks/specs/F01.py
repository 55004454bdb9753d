def check(r):
    exe = r.build("f01", ["f01_json.cc"], ["base", "formats"])
    k = 15 if r.thorough else 1
    for m, n in (("read", 60000), ("write", 15000), ("bad", 10000), ("path", 40000), ("edit", 8000)):
        r.mode(exe, m, n * k)
    for c, n in (("read.accepted", 20000), ("read.malformed", 15000), ("read.duplicates", 100), ("read.tails", 80), ("write.trees", 10000), ("write.files", 500), ("bad.bad", 3000), ("bad.good", 100), ("path.nonempty", 4000), ("path.several", 2000), ("edit.edits", 50000)): r.require(c, n)
    return r.finish("a case is one text (generated from a random tree with every legal escape, spacing, comment and number form, half of them then damaged), one written tree, one string with invalid UTF-8, one path query on one tree, or one sequence of 12 edits; distinct cases are distinct texts, outputs, queries or edit sequences",
        ["document roots are objects or arrays, as documented", "numbers within a 64 bit mantissa and 15 places; escapes of surrogate halves and non-characters may be refused", "path names match in any letter case"])
DESIGN = """A strict RFC 8259 parser written for the check (with the documented comment extension) decides for every generated or damaged text whether it must be accepted, the exact value it denotes and how far it extends; the library's result is compared node by node (types, numbers as exact decimals, key order, parents), error positions must lie inside the text, and accepted texts are written again and compared. Random trees built through the API are written with random combinations of all flags and the output is judged by the reference parser: valid JSON, equal value (with the documented conversion of large numbers to strings), line endings, ASCII-only, one line; then read back by the library. Path queries are compared as multisets of node addresses with a model evaluator; edits with a mirrored value model."""
