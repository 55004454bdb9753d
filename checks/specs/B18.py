def check(r):
    exe = r.build("b18", ["b18_path.cc"], ["base"])
    k = 15 if r.thorough else 1
    r.mode(exe, "lex", 150000 * k)
    r.mode(exe, "fs", 8000 * k)
    for c, n in (("lex.unix_normalised", 40000), ("lex.win_normalised", 30000), ("lex.idempotent", 40000), ("lex.splits", 60000), ("lex.joins", 80000), ("lex.refused", 2000), ("lex.too_long", 200), ("fs.same_file", 3000), ("fs.links_followed", 3000), ("fs.loops", 100), ("fs.readlinks", 500)): r.require(c, n)
    return r.finish("a case is one random path in Unix or Windows syntax with random flags, taken apart, joined and normalised (lex), or one random directory tree with symlinks and twelve paths into it (fs)",
        ["both slashes separate components in either syntax, by design", "Windows drive designators are followed by a separator", "drive-relative Windows paths (a single leading separator) are left out", "a component that is just $ or %% is dropped, by design", "links of directories are resolved before .. only when symlinks are followed"])
DESIGN = """An own lexical model of both syntaxes (components, root, drive, UNC; environment and home references; dot and dot-dot; length limit) judges componentize, join, split, isabs and normalise for random paths, plus idempotence and split-then-join. Against real trees of directories, files and symlinks (loops, dangling, links to links, targets containing ~ and $) built in scratch space, an own resolver cross-checked with realpath() gives the expected name and error, and the normalised name must reach the same inode."""
