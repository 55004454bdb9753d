WRAP = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_timedwait", "pthread_create"]


def check(r):
    exe = r.build("t01", ["t01_sync.cc"], ["thread"], wrap=WRAP)
    co = r.build("t01c", ["t01_sync.cc"], ["thread"], wrap=WRAP, flavour="asanheap")
    k = 15 if r.thorough else 1
    for m, n in (("excl", 600), ("wake", 400), ("queue", 400), ("scenes", 400), ("time", 500)):
        r.mode(exe, m, n * k, jobs=16)
        r.mode(co, m + "_coop", n * k, jobs=16)
    ts = r.build("t01", ["t01_sync.cc"], ["thread"], wrap=WRAP, flavour="tsan")
    r.mode(ts, "excl", 300 * k, flavour="tsan", leak=False)
    r.mode(ts, "queue", 200 * k, flavour="tsan", leak=False)
    for c, n in (("excl.locks", 20000), ("excl.trylocks", 2000), ("excl.busy", 300), ("excl.parallel_readers", 100), ("excl.delays_injected", 5000), ("excl_coop.locks", 20000), ("excl_coop.busy", 500), ("excl_coop.parallel_readers", 100), ("wake.wakeups", 800), ("wake.signals", 200), ("wake.broadcasts", 50), ("wake_coop.wakeups", 800), ("queue.items", 8000), ("queue.spurious_wakeups", 300), ("queue_coop.items", 8000), ("scenes.reader_meetings", 50), ("scenes.writer_releases", 50), ("scenes.trylocks_held", 50), ("scenes_coop.writer_preferences", 40), ("scenes_coop.reader_meetings", 40), ("time.timed_waits", 100), ("time.deadlines", 40), ("time.polls_data", 40), ("time_coop.timed_waits", 100), ("time_coop.polls_data", 40)): r.require(c, n)
    return r.finish("a case is one group of 2-6 threads working on random locks (excl), waiting for counted signals or a broadcast (wake), passing items through a bounded queue (queue), one scenario with a known outcome (scenes) or one timed call (time), on the native or the coop model; the distinct cases of excl and queue are distinct orders in which threads got the locks",
        ["x86-64: spinlock and once use relaxed atomics, whose ordering this processor provides; the race detector is run on the other locks", "M_thread_sleep has millisecond granularity", "reader/writer preference is judged only when both waiters were seen asleep in the kernel"])
DESIGN = """Random lock programs (plain and recursive mutexes, native rwlock, the rwlock emulation, spinlocks; nested in a fixed order; try-locks) run on real threads of both thread models while monitors check at every entry and exit who else is inside, that guarded plain data never changes under a holder, that no update is lost, and that a try-lock fails only when somebody else used the lock. Delays and (POSIX-legal) spurious wakeups are injected at every lock, unlock, wait, signal and thread start through link-time wrappers. Counted-signal scenarios check that k signals wake at least k registered waiters (exactly k in coop) with the right result; rendezvous scenarios that readers share and waiting writers go first; timed waits, sleeps and polls are measured against the clock, and for very long timeouts the deadline handed to the system is captured. A watchdog reports any case in which no thread progresses. The same programs run under ThreadSanitizer for freedom from races."""
