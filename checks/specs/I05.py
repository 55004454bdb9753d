import os, subprocess

DESIGN = """Real processes are started through M_io_process_create on event loops of every backend: a helper program (harness/i05_child.c) reports the arguments, environment and open descriptors it was given, then follows a script: deterministic bytes on stdout and stderr, reading stdin to its end and reporting length and hash, sleeping, exiting with a code or dying from a signal.
The monitor compares the report with what was asked (empty, quoted, binary and long arguments, replaced or inherited environment), each stream byte for byte, and the end of the process: exactly one started and one ended event, the exit code, timeouts as timeouts and not early, signals never as exit code 0.
Up to five processes run at once; one mode keeps a process alive until the output of an unrelated one has ended, which it must not delay. Another destroys objects at random moments (before the start, in callbacks, after microseconds): no wait for the child, no zombie, no event afterwards, and the harness, leader of its own process group, must survive. Descriptors are counted before and after each case. Commands that cannot run are refused with the documented error."""


def check(r):
    k = 10 if r.thorough else 1
    exe = r.build("i05", ["i05_process.cc"], ["io"])
    child = os.path.join(os.path.dirname(exe["asan"] if isinstance(exe, dict) else exe), "i05_child")
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "harness", "i05_child.c")
    subprocess.check_call(["cc", "-O1", "-o", child + ".tmp%d" % os.getpid(), here])
    os.rename(child + ".tmp%d" % os.getpid(), child)
    env = {"I05_CHILD": child}
    r.mode(exe, "run", 1200 * k, jobs=8, env=env)
    r.mode(exe, "cross", 300 * k, jobs=8, env=env)
    r.mode(exe, "destroy", 800 * k, jobs=8, env=env)
    r.mode(exe, "refused", 300 * k, jobs=8, env=env)
    r.require("run.streams", 800 * k)
    r.require("run.stdin", 400 * k)
    r.require("run.codes", 600 * k)
    r.require("run.signals", 80 * k)
    r.require("run.timeouts", 80 * k)
    r.require("run.concurrent", 300 * k)
    r.require("cross.cross", 280 * k)
    r.require("destroy.destroyed", 500 * k)
    r.require("refused.refused", 100 * k)
    return r.finish("a case starts one to five real child processes with random arguments, environments, scripts and stdin data, or destroys them at random moments; distinct by script, number of arguments and destruction time", ["Exit codes 126 to 130 are reserved by the module for a failing exec and are not used by the workload", "A child whose stdout or stderr was not requested ends at its first failing write; only its events and descriptors are judged", "How a fatal signal is encoded is not judged beyond not being exit code 0"])
