WRAP = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_timedwait", "pthread_create"]


def check(r):
    exe = r.build("t05", ["t05_life.cc"], ["thread"], wrap=WRAP)
    co = r.build("t05c", ["t05_life.cc"], ["thread"], wrap=WRAP, flavour="asanheap")
    k = 15 if r.thorough else 1
    r.mode(exe, "life", 800 * k, jobs=16)
    r.mode(exe, "once", 400 * k, jobs=16)
    r.mode(co, "life_coop", 600 * k)
    r.mode(co, "once_coop", 300 * k)
    r.mode(co, "cycle", 300 * k)
    ts = r.build("t05", ["t05_life.cc"], ["thread"], wrap=WRAP, flavour="tsan")
    r.mode(ts, "life", 200 * k, flavour="tsan", leak=False)
    for c, n in (("life.threads", 4000), ("life.joins", 2500), ("life.detached", 1000), ("life.tls_destructors", 6000), ("life.tls_unset", 1000), ("life.spurious_wakeups", 500), ("life_coop.threads", 3000), ("life_coop.tls_destructors", 5000), ("once.once_rounds", 800), ("once_coop.once_rounds", 600), ("cycle.callbacks", 500), ("cycle.cycle_threads", 300)): r.require(c, n)
    return r.finish("a case is one tree of threads (three levels, joinable and detached, with priorities and processors) working on thread-local values (life), one group racing for an initialiser over several rounds (once) or one start and cleanup of the library (cycle), on the native or the coop model; distinct cases of life are distinct orders in which values were destroyed",
        ["the kernel does not reuse a thread id before its thread is joined"])
DESIGN = """Trees of threads are created from threads, joined in random order by their creators or left detached; each checks that it runs once, starts without thread-local values, keeps reading exactly the values it set, and every value carries its owner and key so that its destructor can check the thread it runs on, and an end-of-case audit that it ran exactly once (for set, replaced and removed values; never with NULL). Joins must return the thread's own value after its end and after its exit destructors; the thread count must return to its baseline. Groups of threads race M_thread_once with slow initialisers through barriers and resets: exactly one winner per round, and every call returns after the initialiser completed. The library is started, used and cleaned up repeatedly: cleanup callbacks run once each, in reverse order. Delays and spurious wakeups are injected at every lock, wait, signal and thread start; the programs also run under ThreadSanitizer (initialisers excepted, which use relaxed atomics)."""
