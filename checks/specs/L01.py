WRAP = ["syslog", "openlog", "closelog"]


def check(r):
    k = 15 if r.thorough else 1
    mods = ["base", "thread", "text", "io", "log"]
    exe = r.build("l01_log", ["l01_log.cc"], mods, wrap=WRAP)
    r.mode(exe, "route", 1500 * k, jobs=16, timeout=240 * (4 if r.thorough else 1))
    r.mode(exe, "threads", 160 * k, jobs=16, timeout=240 * (4 if r.thorough else 1))
    r.mode(exe, "overflow", 240 * k, jobs=16, timeout=240 * (4 if r.thorough else 1))
    ts = r.build("l01_log", ["l01_log.cc"], mods, wrap=WRAP, flavour="tsan")
    r.mode(ts, "threads", 60 * k, flavour="tsan", leak=False, jobs=12, timeout=240 * (4 if r.thorough else 1))
    for c, n in (("route.messages", 10000), ("route.deliveries", 9000), ("route.filters", 900), ("route.suspends", 300), ("route.taken", 200), ("route.removed", 100), ("route.truncated", 10),
                 ("threads.lines_seen", 60000), ("threads.suspends", 60), ("threads.reopens", 150), ("overflow.notices", 200), ("overflow.dropped", 5000), ("overflow.written", 3000), ("overflow.suspends", 100)):
        r.require(c, n * k)
    return r.finish("a case is one history of logging and configuration calls with up to eight destinations, one run of several logging threads with a reconfiguring one, or one history that overflows small queues",
                    ["the system's syslog is replaced by a recorder", "trailing whitespace of lines is trimmed and runs of line ends are one line end", "stream, Android and NSLog modules and TCP syslog are not run",
                     "a log destroyed while suspended may discard what is queued; these histories resume first"])


DESIGN = """Mode route keeps an exact model of a log (tags, tag names and padding, time format, prefix, filters, accepted tags, priorities)
and compares every byte that memory buffers, files and syslog (replaced by a recorder) received over histories of logging, adding, removing, taking,
suspending, resuming and reopening; all callback arguments have to be freed and functions given removed modules have to report that.
Mode threads has several threads logging numbered one and two line messages while another suspends, resumes, reopens, adds and removes
modules: each sink has to have every message exactly once and in each thread's order (also under ThreadSanitizer). Mode overflow uses queues
of a few messages and suspension: messages written plus messages announced as dropped have to be the messages logged, in order, and the
last message has to arrive."""
