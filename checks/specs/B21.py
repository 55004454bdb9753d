def check(r):
    exe = r.build("b21", ["b21_sm.cc"], ["base"])
    k = 20 if r.thorough else 1
    r.mode(exe, "run", 25000 * k)
    r.mode(exe, "registry", 2000 * k)
    for c, n in (("run.runs", 200000), ("run.callbacks", 500000), ("run.cleanups", 50000), ("run.cleanup_waits", 2000), ("run.cleanup_errors", 2000), ("run.subs", 50000), ("run.interleaves", 20000), ("run.interleaved_turns", 30000), ("run.aborted_subs", 300), ("run.resets", 2000), ("run.resets_cleanup", 4000), ("run.dups", 2000), ("run.traces", 20000)) + tuple(("run.status_%d" % s, 500) for s in (4, 5, 6, 7, 11, 12, 14)) + (("run.status_15", 40),): r.require(c, n)
    return r.finish("a case is one random machine (nested up to four levels, interleaved states, cleanup machines) run up to 30 times with resets between runs; registry: one history of state insertions and removals",
        ["post callbacks do not return WAIT (silently turned into NEXT); pre callbacks that skip always set a status", "sub machines of an aborted interleaved state are stopped where they are: their cleanups do not run and they start afresh on the next entry"])
DESIGN = """Random machines (linear, explicit and restricted transitions, nested sub machines with pre/post functions, interleaved states, cleanup machines with cleanups of their own, every flag) whose callbacks behave by a script that is a pure function of the case. A reference interpreter written from the documentation runs the same script; after every M_state_machine_run the two callback traces (who, proposed next, cleanup reason, sub status), the returned status and the active state must be equal. Resets with every reason are injected between runs, machines are duplicated, traced, destroyed midway; ASan watches."""
