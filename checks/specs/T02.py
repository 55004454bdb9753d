WRAP = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_timedwait", "pthread_create"]


def check(r):
    exe = r.build("t02", ["t02_pool.cc"], ["thread"], wrap=WRAP)
    k = 15 if r.thorough else 1
    r.mode(exe, "pool", 1500 * k, jobs=16)
    r.mode(exe, "other", 300 * k, jobs=16)
    r.mode(exe, "idle", 500 * k, jobs=16)
    ts = r.build("t02", ["t02_pool.cc"], ["thread"], wrap=WRAP, flavour="tsan")
    r.mode(ts, "pool", 400 * k, flavour="tsan", leak=False)
    for c, n in (("pool.tasks", 15000), ("pool.waits", 4000), ("pool.full_pools", 400), ("pool.shrunk", 200), ("pool.delays_injected", 3000), ("pool.spurious_wakeups", 200), ("other.independent_waits", 290), ("idle.idle_dispatches", 5000), ("idle.delays_injected", 3000)): r.require(c, n)
    return r.finish("a case is one pool (minimum, maximum, idle time, queue size) used by 1-3 parents from their own threads (pool), two parents of which one is blocked (other), or tasks sent at the moment idle threads give up (idle); distinct cases are distinct task execution orders",
        ["a pool is destroyed only after every parent was waited on, as the header requires for parents"])
DESIGN = """Every task counts its own runs, checks how many run at once against the pool's maximum, and records whether its finish callback came exactly once after it; when a parent's wait returns every task that parent had dispatched must be done, while a second parent's blocked tasks must not hold it up; thread counts must stay within minimum and maximum and shrink after the idle time. Delays and spurious wakeups are injected at every lock, unlock, wait, signal and thread start, dispatch times are aimed at the moment idle threads time out, and a watchdog reports a case in which no thread progresses (a lost wakeup). The same programs run under ThreadSanitizer."""
