"""Check runner: builds the harness against /repo's working tree, runs its cases under sanitizers in parallel,
collects monitor verdicts (violated / held / inconclusive), matches known findings, writes evidence."""
import array, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbuild

VERIF = mbuild.VERIF
SUPP = os.path.join(VERIF, "cfg")
PASS_FRAMES = re.compile(r"^(M_malloc|M_malloc_zero|M_realloc|M_realloc_zero|M_memdup|M_memdup_max|M_free|M_strdup\w*|M_mem_copy|M_mem_move|M_mem_set|M_mem_eq|M_mem_cmp\w*|M_str_len\w*|M_str_cpy\w*|M_memcpy|malloc|free|calloc|realloc|mem\w+|str\w+|__\w+|vh_\w+|raise|abort|_start|clone\w*|start_thread|asan_\w+)$")


class Viol:
    def __init__(s, key, msg, mode, case, extra=""):
        s.key, s.msg, s.mode, s.case, s.extra = key, msg, mode, case, extra


def frames(block):
    """function names of frames located in repo (or plugin) sources, then any named frame"""
    out = []
    for m in re.finditer(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(\S+) (\S*)", block, re.M):
        out.append((m[1], m[2]))
    return out


def top_func(block):
    fr = frames(block)
    for f, loc in fr:
        if "/harness/" in loc or "compiler-rt" in loc:
            continue
        if PASS_FRAMES.match(f):
            continue
        if loc.startswith(mbuild.REPO + "/") or "mstdlib" in loc:
            return f
    for f, loc in fr:
        if loc.startswith(mbuild.REPO + "/"):
            return f
    for f, loc in fr:
        if not PASS_FRAMES.match(f):
            return f
    return fr[0][0] if fr else "?"


def parse_sanitizer(text):
    """-> list of (key, excerpt)"""
    res = []
    for m in re.finditer(r"(\S+?):(\d+):(\d+): runtime error: (.*)", text):
        msg = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m[4])[:90]
        if "applying zero offset to null pointer" in m[4]:
            continue  # NULL+0: no observable effect on any supported platform
        blk = text[m.start():m.start() + 4000]
        res.append(("ubsan:%s:%s" % (top_func(blk) if "#0" in blk else os.path.basename(m[1]), msg), blk[:2500]))
    for m in re.finditer(r"==\d+==\s*ERROR: AddressSanitizer:? ([\w-]+)", text):
        blk = text[m.start():m.start() + 6000]
        first = blk.split("\n\n")[0]
        kind = m[1]
        acc = re.search(r"^(READ|WRITE) of size", blk, re.M)
        res.append(("asan:%s%s:%s" % (kind, ":" + acc[1].lower() if acc else "", top_func(first)), blk[:3500]))
    for m in re.finditer(r"(Direct|Indirect) leak of (\d+) byte", text):
        if m[1] != "Direct" and "Direct leak" in text:
            continue
        blk = text[m.start():m.start() + 3000].split("\n\n")[0]
        res.append(("leak:%s" % top_func(blk), blk[:2000]))
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^(\n]+)", text):
        blk = text[m.start():]
        blk = blk.split("==================")[0][:8000]
        parts = re.split(r"\n\s*\n", blk)
        st = sorted({top_func(p) for p in parts[:2]})
        res.append(("tsan:%s:%s" % (m[1].strip(), "|".join(st)), blk[:4000]))
    return res


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.viols, self.samples, self.incon = [], [], []
        self.counters, self.maxes = {}, {}
        self.cases = 0
        self.nontrivial = 0
        self.hashes = set()
        self.modes = {}
        self.jobs = int(os.environ.get("VERIF_JOBS", "8"))
        self.tmp = tempfile.mkdtemp(prefix="vrf_%s_" % prop)
        os.chmod(self.tmp, 0o755)
        self.explain = []
        self.exes = {}

    # ------------------------------------------------------------------ build
    def build(self, name, harness, modules, **kw):
        if isinstance(harness, str):
            harness = [harness]
        exe = mbuild.build(name, ["vh.cc"] + harness, modules, **kw)
        return exe

    # ------------------------------------------------------------------ run one process
    def _env(self, flavour, leak, extra):
        env = dict(os.environ)
        env.pop("VH_OUT", None)
        opts = "abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:detect_leaks=%d:detect_stack_use_after_return=0:max_allocation_size_mb=4096:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=12" % (1 if leak else 0)
        env["ASAN_OPTIONS"] = opts
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
        env["LSAN_OPTIONS"] = "exitcode=23"
        env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=%s/tsan.supp" % SUPP
        env["LC_ALL"] = "C.UTF-8"
        env["TZ"] = "UTC"
        sy = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
        if sy:
            env["ASAN_SYMBOLIZER_PATH"] = env["TSAN_SYMBOLIZER_PATH"] = env["UBSAN_SYMBOLIZER_PATH"] = sy
        env.update(extra or {})
        return env

    def _proc(self, exe, mode, lo, hi, flavour, leak, timeout, env_extra, tag, wrap):
        d = os.path.join(self.tmp, tag)
        os.makedirs(d, exist_ok=True)
        os.makedirs(os.path.join(d, "scratch"), exist_ok=True)
        paths = {k: os.path.join(d, k) for k in ("out", "prog", "hash", "log", "err")}
        for k in ("out", "prog", "err"):
            if os.path.exists(paths[k]):
                os.unlink(paths[k])
        env = self._env(flavour, leak, env_extra)
        env.update(VH_OUT=paths["out"], VH_PROG=paths["prog"], VH_HASH=paths["hash"], VH_LOG=paths["log"], VH_TMP=os.path.join(d, "scratch"))
        cmd = list(wrap or []) + [exe, "--mode", mode, "--seed", str(self.seed), "--lo", str(lo), "--hi", str(hi), "--tier", self.tier]
        with open(paths["err"], "wb") as ef:
            p = subprocess.Popen(cmd, cwd=os.path.join(d, "scratch"), env=env, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
        try:
            case = int.from_bytes(open(paths["prog"], "rb").read(8), "little")
        except OSError:
            case = lo
        return rc, case, paths

    def _consume(self, paths, mode, res):
        done = False
        if os.path.exists(paths["out"]):
            for line in open(paths["out"], errors="replace"):
                try:
                    e = json.loads(line)
                except ValueError:
                    continue
                t = e["t"]
                if t == "viol":
                    res["viols"].append(Viol(e["key"], e["msg"], mode, e["case"]))
                elif t == "sample":
                    res["samples"].append("%s#%d: %s" % (mode, e["case"], e["msg"]))
                elif t == "inconclusive":
                    res["incon"].append("%s#%d: %s" % (mode, e["case"], e["key"]))
                elif t == "done":
                    done = True
                    res["nontrivial"] += e["nontrivial"]
                    for k, (v, mx) in e["counters"].items():
                        if mx:
                            res["maxes"][k] = max(res["maxes"].get(k, 0), v)
                        else:
                            res["counters"][k] = res["counters"].get(k, 0) + v
        return done

    def _batch(self, exe, mode, lo, hi, flavour, leak, timeout, env_extra, wrap, idx, retry_hang, max_restarts):
        res = dict(viols=[], samples=[], incon=[], counters={}, maxes={}, nontrivial=0, cases=0, log=None, dir=None)
        tag = "%s_%s_%d" % (os.path.basename(exe), mode, idx)
        cur, restarts = lo, 0
        while cur < hi:
            rc, case, paths = self._proc(exe, mode, cur, hi, flavour, leak, timeout, env_extra, tag, wrap)
            res["dir"] = os.path.join(self.tmp, tag)
            res["log"] = paths["log"]
            done = self._consume(paths, mode, res)
            err = open(paths["err"], errors="replace").read() if os.path.exists(paths["err"]) else ""
            san = parse_sanitizer(err)
            if rc == 0 and done:
                for k, ex in san:
                    res["viols"].append(Viol(k, ex[:300], mode, case if case < hi else cur, ex))
                res["cases"] += hi - cur
                break
            if rc == 99:
                raise RuntimeError("harness error: " + err[-500:])
            atcase = case if case < hi else hi - 1
            if rc == "timeout":
                # inconclusive: run the single case again on its own before reporting a hang
                rc2, c2, p2 = self._proc(exe, mode, atcase, atcase + 1, flavour, False, timeout, env_extra, tag + "_re", wrap)
                if rc2 == "timeout":
                    res["viols"].append(Viol("hang:%s" % mode, "case %d did not finish within %ds, twice" % (atcase, timeout), mode, atcase))
                else:
                    res["incon"].append("%s#%d: timed out once (%ds), finished when repeated" % (mode, atcase, timeout))
                    self._consume(p2, mode, res)
            elif rc in (66, 23) and done:
                for k, ex in san:
                    res["viols"].append(Viol(k, ex[:300], mode, atcase if case < hi else cur, ex))
                if not san:
                    res["viols"].append(Viol("exit%s:%s" % (rc, mode), err[-1500:], mode, atcase, err[-4000:]))
                res["cases"] += hi - cur
                break
            elif rc == 23 and case >= hi:
                for k, ex in san:
                    res["viols"].append(Viol(k, ex[:300], mode, cur, ex))
                res["cases"] += hi - cur
                break
            elif rc == 98:  # the harness' watchdog reported a case that stopped making progress
                pass
            else:
                if san:
                    for k, ex in san[:3]:
                        res["viols"].append(Viol(k, ex[:300], mode, atcase, ex))
                else:
                    res["viols"].append(Viol("died:%s:rc%s" % (mode, rc), err[-1500:], mode, atcase, err[-4000:]))
            res["cases"] += atcase - cur + 1
            cur = atcase + 1
            restarts += 1
            if restarts > max_restarts:
                res["incon"].append("%s: stopped batch %d after %d restarts at case %d" % (mode, idx, restarts, cur))
                break
        return res

    def mode(self, exe, mode, cases, flavour="asan", leak=True, timeout=240, env=None, wrap=None, batches=None, post=None, jobs=None, max_restarts=12):
        """Run cases [0,cases) of a mode split over parallel processes. post(logpath)->dict(viols=[(key,msg,case)],counters={},samples=[])"""
        jobs = jobs or self.jobs
        nb = min(cases, batches or jobs * 2)
        cuts = [cases * i // nb for i in range(nb + 1)]
        futs = []
        ex_ = cf.ThreadPoolExecutor(jobs)
        for i in range(nb):
            futs.append(ex_.submit(self._batch, exe, mode, cuts[i], cuts[i + 1], flavour, leak, timeout, env, wrap, i, True, max_restarts))
        results = [f.result() for f in futs]
        ex_.shutdown()
        ran = 0
        for r in results:
            self.viols += r["viols"]
            self.samples += r["samples"][:2]
            self.incon += r["incon"]
            ran += r["cases"]
            self.nontrivial += r["nontrivial"]
            for k, v in r["counters"].items():
                kk = mode + "." + k
                self.counters[kk] = self.counters.get(kk, 0) + v
            for k, v in r["maxes"].items():
                kk = mode + ".max_" + k
                self.maxes[kk] = max(self.maxes.get(kk, 0), v)
            hp = os.path.join(r["dir"], "hash") if r["dir"] else None
            if hp and os.path.exists(hp):
                a = array.array("Q")
                n = os.path.getsize(hp) // 8
                with open(hp, "rb") as f:
                    a.fromfile(f, n)
                self.hashes.update(a)
        if post:
            logs = [(r["log"], i) for i, r in enumerate(results) if r["log"] and os.path.exists(r["log"])]
            with cf.ProcessPoolExecutor(jobs, mp_context=multiprocessing.get_context("fork")) as pp:
                for pr in pp.map(post, [l for l, _ in logs]):
                    for key, msg, case in pr.get("viols", []):
                        self.viols.append(Viol(key, msg, mode, case))
                    for k, v in pr.get("counters", {}).items():
                        kk = mode + "." + k
                        self.counters[kk] = self.counters.get(kk, 0) + v
                    self.samples += pr.get("samples", [])[:1]
                    self.incon += pr.get("incon", [])
        self.cases += ran
        self.modes[mode + ("/" + flavour if flavour != "asan" else "")] = self.modes.get(mode, 0) + ran
        for r in results:
            if r["dir"]:
                shutil.rmtree(r["dir"], ignore_errors=True)
                shutil.rmtree(r["dir"] + "_re", ignore_errors=True)

    def require(self, counter, minimum, why=""):
        """A run that observed too little is an error, never a pass."""
        v = self.counters.get(counter, self.maxes.get(counter, 0))
        if v < minimum:
            self.incon.append("observed only %d of %s (need %d) %s" % (v, counter, minimum, why))
            self.starved = True

    # ------------------------------------------------------------------ verdict
    def finish(self, rule, assumptions=(), extra=None, level="exploration"):
        known = load_known(self.prop)
        new, seen_known = {}, {}
        for v in self.viols:
            k = None
            for e in known:
                if re.fullmatch(e["key"], v.key) and (not e.get("input") or e["input"] in v.msg):
                    k = e
                    break
            if k is not None:
                seen_known[k["id"]] = seen_known.get(k["id"], 0) + 1
            else:
                new.setdefault(v.key, []).append(v)
        cov = dict(evaluations=self.cases, distinct_nontrivial=len(self.hashes), rule=rule,
                   samples=self.samples[:8] or ["(no sample recorded)"], modes=self.modes,
                   counters={**self.counters, **self.maxes})
        if self.incon:
            cov["inconclusive"] = self.incon[:20]
        if known:
            cov["known_findings"] = {e["id"]: seen_known.get(e["id"], 0) for e in known}
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(new))
        evd = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
        os.makedirs(evd, exist_ok=True)
        json.dump(ev, open(os.path.join(evd, self.prop + ".json"), "w"), indent=1)
        for e in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, e["what"], "observed %d times in this run" % seen_known[e["id"]] if e["id"] in seen_known else "not reached in this run"))
        rd = os.path.join(os.environ.get("VERIF_EVID", VERIF), "replays", self.prop)
        if new:
            os.makedirs(rd, exist_ok=True)
        for key, vs in sorted(new.items(), key=lambda kv: -len(kv[1])):
            v = min(vs, key=lambda x: x.case)
            fn = os.path.join(rd, re.sub(r"[^\w.-]+", "_", key)[:100] + ".json")
            json.dump(dict(property=self.prop, key=key, occurrences=len(vs), mode=v.mode, case=v.case, seed=self.seed, tier=self.tier,
                           message=v.msg, detail=v.extra, replay="python3 checks/run.py %s --replay %s" % (self.prop, fn)), open(fn, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, fn))
            print("  key=%s occurrences=%d first: %s#%d" % (key, len(vs), v.mode, v.case))
            print("  " + v.msg[:600].replace("\n", "\n  "))
        shutil.rmtree(self.tmp, ignore_errors=True)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation keys, %d inconclusive, %.1fs" % (self.prop, self.tier, self.seed, self.cases, len(self.hashes), len(new), len(self.incon), time.time() - self.t0))
        for i in self.incon[:5]:
            print("  inconclusive: " + i)
        if new:
            return 1
        if getattr(self, "starved", False) or self.cases == 0:
            print("ERROR: too little was observed to give a verdict")
            return 2
        return 0


def load_known(prop):
    res = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for i, line in enumerate(open(fn)):
            m = re.match(r"known: property=(\S+) key=(\S+)(?: input=(\S+))? (.*)", line.strip())
            if m and m[1] == prop:
                res.append(dict(id="%s/%d" % (prop, i), key=m[2], input=m[3], what=m[4]))
    return res
