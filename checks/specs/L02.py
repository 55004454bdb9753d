def check(r):
    k = 15 if r.thorough else 1
    exe = r.build("l02_rotate", ["l02_rotate.cc"], ["base", "thread", "text", "io", "log"])
    r.mode(exe, "rotate", 900 * k, jobs=16, timeout=240 * (5 if r.thorough else 1))
    r.mode(exe, "reopen", 600 * k, jobs=16, timeout=240 * (3 if r.thorough else 1))
    for c, n in (("rotate.lines", 15000), ("rotate.archives", 900), ("rotate.sized", 400), ("rotate.forced", 350), ("rotate.reopens", 600), ("rotate.suspends", 200), ("rotate.timed", 2), ("reopen.renames", 1000)):
        r.require(c, n * k)
    return r.finish("a case is one history of up to four runs of a program with one rotating log file in a directory with similarly named other files",
                    ["file names contain no * or ?", "the file system works (no I/O errors)", "archive numbers are consecutive, as the logger itself writes them"])


DESIGN = """Numbered lines of random length are logged over several program runs with rotation by size, by age and on request, reopening,
suspension, archive counts of 0 to 4 (also lowered between runs) and an archive command. An offline oracle then reads the directory: archives in
descending order followed by the current file have to be consecutive lines without gaps, duplicates or partial lines, ending with the last line
logged and, when fewer archives than configured exist, starting with the first; there are never more archives than configured, each has just
passed the size limit, and a dozen files and a directory with similar names are as before. Mode reopen renames the file underneath the logger as
logrotate does and asks for a reopen."""
