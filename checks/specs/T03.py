WRAP = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_timedwait", "pthread_create"]


def check(r):
    exe = r.build("t03", ["t03_pipeline.cc"], ["thread"], wrap=WRAP)
    k = 15 if r.thorough else 1
    r.mode(exe, "pipe", 3000 * k, jobs=16)
    ts = r.build("t03", ["t03_pipeline.cc"], ["thread"], wrap=WRAP, flavour="tsan")
    r.mode(ts, "pipe", 600 * k, flavour="tsan", leak=False)
    for c, n in (("pipe.tasks", 12000), ("pipe.failures", 800), ("pipe.aborts", 1000), ("pipe.refused", 500), ("pipe.waits", 3000), ("pipe.successes", 8000), ("pipe.delays_injected", 10000), ("pipe.spurious_wakeups", 1000)): r.require(c, n)
    return r.finish("a case is one pipeline of 1-5 steps given up to 20 tasks with chosen failures and step times, waited for or destroyed early; distinct cases are distinct orders in which steps processed tasks",
        ["one thread inserts the tasks"])
DESIGN = """Every step callback checks that its task is at exactly this step, not finished and in no other step, that the step runs one task at a time and that tasks arrive in insertion order; the finish callback checks that each accepted task is finished exactly once with the status its own history implies (failed only if its own step failed, successful only after all steps, aborted only after another failure or a destroy). Delays and spurious wakeups are injected at every lock, unlock, wait, signal and thread start; a watchdog reports pipelines that stop. The same programs run under ThreadSanitizer."""
