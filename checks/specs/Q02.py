def check(r):
    k = 25 if r.thorough else 1
    exe = r.build("q02_bind", ["q02_bind.cc"], ["sql/sqlite"], wrap=["M_module_load", "M_module_symbol", "M_module_unload"])
    r.mode(exe, "bind", 8000 * k, timeout=240 * (4 if r.thorough else 1))
    for c, n in (("rows", 60000), ("rows_read", 60000), ("conversions", 100000), ("refused_conversions", 30000), ("refused", 300), ("constraints", 30), ("chunked_inserts", 100), ("fetches", 3000), ("abandoned", 60)):
        r.require("bind." + c, n * k)
    return r.finish("a case is a history of inserts (one to 1300 rows), updates, deletes, refused statements and reads of one table through the SQLite driver",
                    ["SQLite is the only database available in the sandbox", "text has no NUL bytes (the API takes C strings)", "an integer conversion of text takes the digits at its start"])


DESIGN = """A model table holds what was bound. After every history the table is read with SQLite's own interface on a separate connection (storage
class and bytes of every cell), and it is read back through the API with every row limit, column order, getter by index and by name, including the
conversions between text and the integer widths, whose reference uses 128 bit integers. Statements which break the binding rules have to be
refused and change nothing."""
