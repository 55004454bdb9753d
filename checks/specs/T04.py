VARIANTS = {  # how m_atomic.c is built: the default here, then the back ends other compilers and processors get
    "std": "",
    "gcc": "-DAIX_GCC_32",
    "cas": "-DAIX_GCC_32 -DATOMIC_INC32=ATOMIC_OP_CAS32 -DATOMIC_INC64=ATOMIC_OP_CAS64",
    "spin": "-DAIX_GCC_32 -DATOMIC_CAS64=ATOMIC_OP_SPINLOCK -DATOMIC_INC32=ATOMIC_OP_CAS32 -DATOMIC_INC64=ATOMIC_OP_SPINLOCK",
}


def check(r):
    k = 15 if r.thorough else 1
    for v, fl in VARIANTS.items():
        exe = r.build("t04" + v, ["t04_atomic.cc"], ["thread"], per_file_flags={"thread/m_atomic.c": fl})
        d = v == "std"
        r.mode(exe, "seq", (20000 if d else 4000) * k)
        r.mode(exe, "hist", (2000 if d else 250) * k, jobs=4)
        r.mode(exe, "race", (400 if d else 100) * k, jobs=3)
    ts = r.build("t04", ["t04_atomic.cc"], ["thread"], flavour="tsan")
    r.mode(ts, "hist", 200 * k, flavour="tsan", leak=False, jobs=3)
    for c, n in (("seq.steps", 200000), ("hist.ops", 400000), ("hist.chains", 1200), ("hist.balanced", 400), ("hist.failed_cas", 5000), ("hist.switches", 30000), ("race.rounds", 5000)): r.require(c, n)
    return r.finish("a case is one sequence of 12 operations on boundary values (seq), one concurrent history of 2-6 threads with 20-120 operations each (hist) or one race of 2-5 threads over several rounds (race), on each back end m_atomic.c can be built with here; distinct cases of hist are distinct orders in which operations took effect",
        ["x86-64", "clock_gettime(CLOCK_MONOTONIC) is consistent across processors", "histories on 32 bit values that revisit a value are checked for balance only"])
DESIGN = """Threads hammer one 32 or 64 bit word with adds and subtracts of random amounts, increments, decrements and compare-and-sets, recording the value each call returned and the times it began and ended. Random amounts make (almost) every value of the word unique, so the recorded old and new values determine the only possible order of the operations: an offline checker requires them to form one chain from the first to the final value (nothing lost, no two operations from the same value) that agrees with each thread's program order and with real time, requires failed compare-and-sets to have had a moment at which the value differed, and checks that memory beside the word never changes. Increments and decrements, whose values repeat, are checked for exact balance per value. Barrier-aligned compare-and-set races must have exactly one winner per round. Single-thread runs pin the meaning on boundary values. The check is repeated for the four back ends of m_atomic.c that compile here (C11 atomics, GCC built-ins, compare-and-set loops, spinlock) and under ThreadSanitizer."""
