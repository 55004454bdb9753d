WRAP = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_timedwait", "pthread_create"]

DESIGN = """Loops of both polling backends and pools of loops run while up to four threads queue tasks, add, signal, re-target and remove triggers, with delays injected at every lock, unlock and thread start (the loops wait without any timer of their own, so a lost wake-up shows as a task or signal that never runs). Every task carries a run counter; every trigger a signal number that its callback reads, so that the last signal of each must have been seen by a run that started after it.
The monitor wants each task exactly once on the loop it was given and in its thread, no run of a trigger without a signal or after its removal returned on the loop, every run of an object of a pool on one loop and thread, M_event_get_pool(), the number of objects once all removals have been carried out, the result of the loop for done, return (on the loop, the pool or a member of it) and a prompt end.
Pipes are moved between running loops (in their own callbacks with data left unread, or taken off and put back by another thread): every byte arrives in order, on the loop the pipe is on, in the thread of that loop, and nothing arrives between the removal and the next registration; removal by another thread is followed by a barrier task. One mode plays the ways a loop ends: from a task or trigger, before it runs, from another thread, by its limit, when empty, by the staged disconnect, run again afterwards. Descriptors are counted before and after; the modes with threads are repeated under ThreadSanitizer."""


def check(r):
    k = 12 if r.thorough else 1
    exe = r.build("i03", ["i03_event.cc"], ["io", "thread"], wrap=WRAP)
    r.mode(exe, "loop", 600 * k, jobs=16)
    r.mode(exe, "pool", 250 * k, jobs=12)
    r.mode(exe, "move", 300 * k, jobs=16)
    r.mode(exe, "pull", 300 * k, jobs=16)
    r.mode(exe, "stop", 1200 * k, jobs=8)
    ts = r.build("i03", ["i03_event.cc"], ["io", "thread"], wrap=WRAP, flavour="tsan")
    r.mode(ts, "loop", 120 * k, flavour="tsan", leak=False)
    r.mode(ts, "move", 60 * k, flavour="tsan", leak=False)
    r.require("loop.tasks", 5000 * k)
    r.require("loop.signals", 8000 * k)
    r.require("loop.removed_elsewhere", 60 * k)
    r.require("pool.signals", 3000 * k)
    r.require("move.moves", 1000 * k)
    r.require("pull.pulls", 800 * k)
    r.require("stop.loops", 1500 * k)
    return r.finish("a case is one loop or pool with up to four threads of random operations, a set of pipes moved between loops, or one way to end a loop; distinct by numbers of threads, triggers and operations, seeds and data", ["An object destroyed by another thread stays on its loop until the loop carries the destruction out; an event being delivered while another thread removes the object may still arrive", "The order of tasks queued at the same time is not promised"])
