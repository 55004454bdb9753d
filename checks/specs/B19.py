def check(r):
    exe = r.build("b19", ["b19_file.cc"], ["base"], wrap=["read", "write"])
    k = 15 if r.thorough else 1
    r.mode(exe, "file", 40000 * k)
    r.mode(exe, "whole", 10000 * k)
    for c, n in (("file.reads", 50000), ("file.writes", 50000), ("file.seeks", 20000), ("file.syncs", 15000), ("file.closes", 10000), ("file.eofs", 3000), ("file.bad_seeks", 500), ("file.holes", 200), ("file.short_transfers", 5000), ("file.errors_injected", 500), ("whole.written", 4000), ("whole.read", 2000), ("whole.too_big", 200), ("whole.copied", 1000), ("whole.copies_failed", 100)): r.require(c, n)
    return r.finish("a case is one history of opens, reads, writes, seeks, syncs and closes of one file with one buffer size per open (file), or one file written, read and copied whole (whole); half of the cases have short transfers or transient errors injected into read() and write()",
        ["one handle is open at a time", "a NORMAL unbuffered transfer may be short when the system's is", "an injected error may be reported by the call it happened in; no accepted byte may be lost, moved or repeated by it"])
DESIGN = """An ideal file (byte string plus position, append and truncate rules) is stepped alongside the real handle: every byte returned, every length, every error and, after each successful sync and close, the file's bytes as read straight from the OS must agree. Buffer sizes 0 to 4096, all open modes, holes, seeks before the beginning and past the end. read() and write() are replaced at link time by versions that transfer less than asked or fail transiently, so partial flushes and retries are exercised; whole-file helpers and M_fs_copy run under the same faults (a copy must be complete or report failure and leave nothing behind)."""
