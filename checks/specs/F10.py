DESIGN = """Random histories of every editing call (insert, remove, rename, order, sort with one and two keys, dict inserts with each
flag, clears, duplicate, removal of empty rows and columns) run on the real table (ASan/UBSan) next to a reference grid; after every call
all names, lookups, cells by index and by name, return values and the bounds are compared. Sorting is checked as 'ordered permutation of
the rows'. Merge is checked against the reference, including that a refused merge changes nothing. Exports are parsed by an RFC 4180 parser
of the harness (CSV) and through JSON's own API, then loaded into a fresh or partly matching table and compared cell by cell; markdown is
round-tripped for cells it can carry (no pipes, line ends or outer whitespace)."""


def check(r):
    k = 20 if r.thorough else 1
    exe = r.build("f10_table", ["f10_table.cc"], ["base", "text", "formats"])
    r.mode(exe, "ops", 2500 * k)
    r.mode(exe, "merge", 4000 * k)
    r.mode(exe, "csv", 8000 * k)
    r.mode(exe, "json", 4000 * k)
    r.mode(exe, "markdown", 4000 * k)
    r.require("ops.ops", 50000 * k)
    r.require("ops.sorted", 500 * k)
    r.require("ops.ordered", 500 * k)
    r.require("merge.merged", 1000 * k)
    r.require("csv.documents", 5000 * k)
    r.require("json.documents", 2000 * k)
    r.require("markdown.documents", 1500 * k)
    return r.finish("every editing call leaves the table equal to the reference grid; loading an export gives the grid back",
                    ["absent and empty cells aren't told apart in CSV and markdown (the formats can't)",
                     "whether merging a table without rows adds its columns isn't checked (not specified)",
                     "sorts aren't required to be stable"])
