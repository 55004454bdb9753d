WRAP = ["clock_gettime", "gettimeofday", "epoll_wait", "poll"]


def check(r):
    k = 20 if r.thorough else 1
    exe = r.build("i02", ["i02_timers.cc"], ["io"], wrap=WRAP)
    r.mode(exe, "model", 20000 * k)
    r.mode(exe, "threads", 100 * k, jobs=16)
    ts = r.build("i02", ["i02_timers.cc"], ["io"], wrap=WRAP, flavour="tsan")
    r.mode(ts, "threads", 80 * k, flavour="tsan", leak=False, jobs=16)
    for c, n in (("model.fired", 200000), ("model.waits", 100000), ("model.ended", 1000), ("threads.stops", 200), ("threads.completed", 500)):
        r.require(c, n)
    return r.finish("a case is one event loop with one to fourteen timers edited from the main program and from callbacks (or by other threads); distinct cases differ in the history of calls and firings",
                    ["times have a resolution of one millisecond", "an adjusted timer that is rescheduled starts its count anew, as a restarted one does", "timers are not used after a stop or last firing with automatic removal"])


DESIGN = """In virtual time (clock_gettime, gettimeofday, epoll_wait and poll are interposed: the clock moves only while the loop waits, early and late
wake-ups included, and while callbacks take their time) random timers are started, stopped, reset, adjusted, limited by start, end and count,
switched between relative and monotonic mode, edited and removed from outside and from callbacks, their own included. A model predicts each
firing: nothing fires early, out of due order, stopped, removed, ended or beyond its count, nothing due is missed, status and remaining time
agree, and the loop does not spin. In real time other threads start, stop, restart and remove timers of a running loop or pool, under
AddressSanitizer and ThreadSanitizer."""
