WRAP = ["M_module_load", "M_module_symbol", "M_module_unload", "M_sql_rollback_delay_ms", "M_thread_sleep"]


def check(r):
    k = 15 if r.thorough else 1
    exe = r.build("q01_trans", ["q01_trans.cc"], ["sql/sqlite"], wrap=WRAP)
    r.mode(exe, "trans", 500 * k, jobs=16, timeout=240 * (4 if r.thorough else 1))
    ts = r.build("q01_trans", ["q01_trans.cc"], ["sql/sqlite"], wrap=WRAP, flavour="tsan")
    r.mode(ts, "trans", 100 * k, flavour="tsan", leak=False, jobs=16, timeout=240 * (4 if r.thorough else 1))
    for c, n in (("transactions", 6000), ("committed", 1000), ("aborted", 700), ("succeeded", 3000), ("group_inserts", 500), ("multirow", 700), ("sums", 600), ("reads", 600), ("injected", 1000), ("lost_connections", 200), ("deadlocks", 400), ("forced_rollbacks", 20), ("full_pools", 150)):
        r.require("trans." + c, n * k)
    return r.finish("a case is one pool of one to four connections used by two to six threads, with failures injected at the driver's calls in three of four cases",
                    ["SQLite is the only database available in the sandbox", "a failing commit is injected after a rollback: what a database did when the connection is lost inside of a commit cannot be known",
                     "single statements outside of a transaction fail before taking effect"])


DESIGN = """The SQLite driver is linked in with interposed callbacks that inject deadlocks, lost connections, failures and refused connects, and that
monitor each connection: number open against the configured limits, one user at a time, transactions owned by one thread, nothing executed after a
deadlock before the rollback, no use after loss, no connection returned or closed with an open transaction. Threads run transaction functions (with
user retries and failures), transfers between accounts, manual transactions, multi-row and group inserts and partly consumed reads. Afterwards
every transaction reported successful has to have all of its rows, every other none, balances have to be preserved, and the pool has to shut
down with all connections closed. Runs under AddressSanitizer and ThreadSanitizer."""
