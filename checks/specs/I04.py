WRAP = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_timedwait", "pthread_create", "socket", "accept4", "pipe2", "read", "write", "recv", "send"]


ASSUME = ["reading what is left in the disconnect event counts as reading before the disconnect: the kernel may report both at once", "a connection whose peer destroyed it while it still held back data in a shaping layer may end with an error", "a disconnect with data left in a write buffer layer is not graceful: nothing is promised for that data", "objects of a pool are destroyed on their own loop or after the loops ended"]


def check(r):
    k = 15 if r.thorough else 1
    exe = r.build("i01", ["i01_streams.cc"], ["io"], wrap=WRAP)
    r.mode(exe, "life", 1200 * k, jobs=16)
    r.mode(exe, "lifepool", 300 * k, jobs=16)
    ts = r.build("i01", ["i01_streams.cc"], ["io"], wrap=WRAP, flavour="tsan")
    r.mode(ts, "lifepool", 150 * k, flavour="tsan", leak=False)
    for c, n in (("life.connections", 2000), ("life.ev_connected", 2500), ("life.disconnected", 2000), ("life.errors", 200), ("life.aborted", 300), ("life.graceful_closes", 700), ("lifepool.connections", 500), ("lifepool.disconnected", 500), ("lifepool.aborted", 100)): r.require(c, n)
    return r.finish("a case is one event loop (or pool of loops) with up to nine connections of random kinds which end gracefully after all data, right after the last write, by one side disconnecting or destroying in the middle of the data, or by being refused; distinct cases differ in the connections' set-up or in the amounts delivered", ASSUME)
DESIGN = """An automaton follows every end of every connection of the I01 workload, biased to short connections and abrupt ends: nothing before the connected event, exactly one connected event, exactly one terminal event (disconnect, or error where the end was not graceful), nothing after it or after destruction, all bytes sent before a graceful close are readable before or in the disconnect event, state and user-initiated flags agree with the events, a refused connect ends with the matching error, a listener accepts each client once, the loop ends when asked and no descriptor is left. Watchdogs turn a missing terminal event into a violation; the pool also runs under ThreadSanitizer, everything else under AddressSanitizer with leak detection."""
