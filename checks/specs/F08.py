DESIGN = """A model (map from key to list of values) is kept beside M_ini_t through random set, insert, remove, remove-value, add and
rename histories, with random case and ignored whitespace in the names used for lookups, on stores built from nothing or read from
generated text with comments, inline comments, quoted values, sections split in parts and duplicate keys under each duplicate rule. After
each step keys and values have to agree; after writing (each multi-value mode, padding, quoting style and line ending) the text is read
back and has to give the model's values again, every comment of the source has to be there, untouched keys keep their inline comment and
their order, and writing twice gives the same text. Mode merge builds three stores and compares M_ini_merge (each flag set, with and
without resolver) with the rules of the header. Mode settings round-trips settings files of both types, with values of any text, and checks
group and key listings. ASan/UBSan/LSan are on."""


def check(r):
    k = 20 if r.thorough else 1
    exe = r.build("f08_ini", ["f08_ini.cc"], ["base", "text", "formats"])
    r.mode(exe, "roundtrip", 12000 * k); r.require("roundtrip.roundtrips", 10000 * k)
    r.mode(exe, "edit", 10000 * k)
    for c in ("comments", "inline", "ordered", "with-duplicates"):
        r.require("edit." + c, 1000 * k)
    r.mode(exe, "merge", 10000 * k); r.require("merge.merged-keys", 10000 * k); r.require("merge.resolver-calls", 500 * k)
    r.mode(exe, "settings", 4000 * k); r.require("settings.settings", 4000 * k); r.require("settings.groups", 3000 * k)
    return r.finish("every key, value and comment set or read is found again, in order, after editing, writing, reading and merging",
                    ["names have no quote, comment, delimiter or bracket characters and don't begin or end with blanks", "a quote character is configured",
                     "keys without a value may be dropped when written", "settings: no key is a group as well, and keys differ in more than case"])
