WRAP = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_timedwait", "pthread_create", "socket", "accept4", "pipe2", "read", "write", "recv", "send"]


ASSUME = ["reading what is left in the disconnect event counts as reading before the disconnect: the kernel may report both at once", "a connection whose peer destroyed it while it still held back data in a shaping layer may end with an error", "a disconnect with data left in a write buffer layer is not graceful: nothing is promised for that data", "objects of a pool are destroyed on their own loop or after the loops ended"]


def check(r):
    k = 15 if r.thorough else 1
    exe = r.build("i01", ["i01_streams.cc"], ["io"], wrap=WRAP)
    r.mode(exe, "loop", 1200 * k, jobs=16)
    r.mode(exe, "pool", 250 * k, jobs=16)
    r.mode(exe, "block", 300 * k, jobs=16)
    ts = r.build("i01", ["i01_streams.cc"], ["io"], wrap=WRAP, flavour="tsan")
    r.mode(ts, "pool", 120 * k, flavour="tsan", leak=False)
    for c, n in (("loop.connections", 1500), ("loop.bytes_checked", 5000000), ("loop.partial_writes", 300), ("loop.would_block", 5000), ("loop.io_eagain", 5000), ("loop.traced_bytes", 3000000), ("pool.connections", 400), ("pool.bytes_checked", 2000000), ("block.reads", 2000), ("block.writes", 1000), ("block.timeouts", 300)): r.require(c, n)
    return r.finish("a case is one event loop (or pool of loops) with up to six connections of random kinds, layer stacks, amounts of data, chunkings, reading policies and ways to end (or one blocking client against a plain socket peer); distinct cases differ in the connections' set-up or in the amounts delivered", ASSUME)
DESIGN = """Sockets (IPv4 and IPv6, through name resolution), pipes and loopback objects with random stacks of trace, buffer and bandwidth shaping layers carry random data in both directions over an event loop (epoll or poll) or a pool of loops; each end's received bytes are compared with the peer's bytes at exactly the offset reached, every read's and write's return and count is checked (a success moves 1..n bytes, anything else none), and a graceful close must come after the last byte. The system calls underneath run with tiny kernel buffers, injected EAGAIN, short transfers and delays; progress watchdogs turn a lost wake-up into a violation; the pool also runs under ThreadSanitizer. The blocking interface is checked the same way against a plain socket peer, with time-outs that must not come early. TLS streams are covered by S01."""
