"""Helpers to plant bugs: seed(...) writes seeded/<id>/, validate(ids) confirms them in scratch copies of /repo.
A seed needs: old/new text pairs per file (-> patch.diff), a demo.c (compiled against _build of the cwd), and the meta text."""
import difflib, json, os, shutil, subprocess, sys, threading, queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
DEMO = r'''#!/bin/sh
# compiles demo.c against the build in the current directory and runs it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -w -D_GNU_SOURCE -I"$repo/include" -I"$repo/_build/include" -o "$t/demo" "$here/demo.c" -L"$repo/_build/lib" @LIBS@ -pthread -lm -Wl,-rpath,"$repo/_build/lib" -Wl,-rpath-link,"$repo/_build/lib" || exit 2
cd "$t" && timeout 120 ./demo
'''


def seed(id, prop, edits, needs, breaks, demo, libs="-lmstdlib", demo_sh=None, extra=None):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    out = ""
    byf = {}
    for f, old, new in edits:
        byf.setdefault(f, []).append((old, new))
    for f, l in byf.items():
        a = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, check=True).stdout.decode("utf-8", "surrogateescape")
        b = a
        for old, new in l:
            if b.count(old) != 1:
                raise SystemExit("%s: %s: old text occurs %d times" % (id, f, b.count(old)))
            b = b.replace(old, new)
        out += "diff --git a/%s b/%s\n" % (f, f)
        for line in difflib.unified_diff(a.splitlines(1), b.splitlines(1), "a/" + f, "b/" + f):
            out += line if line.endswith("\n") else line + "\n\\ No newline at end of file\n"
    open(os.path.join(d, "patch.diff"), "w", encoding="utf-8", errors="surrogateescape").write(out)
    if demo:
        open(os.path.join(d, "demo.c"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh or DEMO.replace("@LIBS@", libs))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for k, v in (extra or {}).items():
        open(os.path.join(d, k), "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def sh(cmd, cwd=None, env=None, timeout=1500):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def slot_setup(n):
    r = "/tmp/plant/%d/repo" % n
    if not os.path.exists(r + "/_build/build.ninja"):
        os.makedirs(r, exist_ok=True)
        sh("git -C /repo archive HEAD | tar x -C " + r)
        rc, o = sh("export CC=gcc CXX=g++ LC_ALL=C.UTF-8; cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_FLAGS=-Wno-error -DMSTDLIB_BUILD_TESTS=ON -DMSTDLIB_USE_VALGRIND=OFF -DMSTDLIB_BUILD_DOCS=OFF" % (r, r))
        if rc:
            print(o[-2000:])
    # restore HEAD content (only changed files touched)
    os.makedirs("/tmp/plant/%d/head" % n, exist_ok=True)
    sh("rm -rf /tmp/plant/%d/head; mkdir /tmp/plant/%d/head; git -C /repo archive HEAD | tar x -C /tmp/plant/%d/head; rsync -rc --delete --exclude=_build /tmp/plant/%d/head/ %s/ || cp -a /tmp/plant/%d/head/. %s/" % (n, n, n, n, r, n, r))
    return r


def validate_one(id, n, tests=True, check=True):
    r = slot_setup(n)
    d = os.path.join(SEED, id)
    meta = json.load(open(d + "/meta.json"))
    res = {"id": id}
    rc, o = sh("ninja -C %s/_build" % r)
    if rc:
        return dict(res, error="clean build failed", out=o[-1500:])
    rc, o = sh("%s/demo.sh" % d, cwd=r)
    if rc:
        return dict(res, error="demo fails on clean tree rc=%d" % rc, out=o[-1500:])
    rc, o = sh("patch -p1 --no-backup-if-mismatch < %s/patch.diff" % d, cwd=r)
    if rc:
        return dict(res, error="patch does not apply", out=o)
    rc, o = sh("ninja -C %s/_build" % r)
    if rc:
        return dict(res, error="patched build failed", out=o[-1500:])
    rc, o = sh("%s/demo.sh" % d, cwd=r)
    if rc == 0:
        return dict(res, error="demo passes with patch", out=o[-1500:])
    res["demo"] = o.strip()[-200:]
    if check and os.path.exists(os.path.join(V, "checks/specs/%s.py" % meta["property"])):
        env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD="/tmp/plant/%d/build" % n, VERIF_EVID="/tmp/plant/%d/evid" % n)
        rc, o = sh("python3 %s/checks/run.py %s" % (V, meta["property"]), env=env)
        keys = [l.strip() for l in o.splitlines() if "key=" in l]
        res["check"] = "CAUGHT" if rc == 1 and "VIOLATION property=" + meta["property"] in o else "MISSED rc=%d" % rc
        res["keys"] = [k.split("key=")[1].split()[0] for k in keys][:4]
        if rc not in (0, 1):
            res["out"] = o[-1500:]
    if tests:
        rep = "/tmp/plant/%d/reports" % n
        miss = None
        for _ in range(2):
            sh("rm -rf %s; mkdir -p %s; python3 /opt/vp/run_tests.py %s/_build/test %s/programs > %s/lines.txt; python3 /opt/vp/results.py %s/out.json lines:%s/lines.txt" % (rep, rep, r, rep, rep, rep, rep), env=dict(os.environ, LC_ALL="C.UTF-8"))
            try:
                p = set(json.load(open(rep + "/out.json"))["passed"])
            except Exception as e:
                return dict(res, error="tests: %s" % e)
            miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in p]
            if not miss:
                break
        res["tests_missing"] = miss[:6]
        if miss:
            res["error"] = "tests fail"
    return res


def validate(ids, slots=3, tests=True, check=True):
    q = queue.Queue()
    for i in ids:
        q.put(i)
    lock = threading.Lock()

    def work(n):
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            try:
                x = validate_one(i, n, tests, check)
            except Exception as e:
                x = {"id": i, "error": repr(e)}
            with lock:
                print(("BAD  " if "error" in x else "ok   ") + json.dumps(x), flush=True)
                if "check" in x:
                    f = os.path.join(V, "tools", "seeded_results.json")
                    s = json.load(open(f)) if os.path.exists(f) else {}
                    s[i] = ("caught by %s (%s)" % (json.load(open(SEED + "/" + i + "/meta.json"))["property"], ", ".join(x["keys"]))) if x["check"] == "CAUGHT" else "MISSED"
                    json.dump(s, open(f, "w"), indent=1, sort_keys=True)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(slots)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    a = sys.argv[1:]
    t = "--notests" not in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEED))
    validate(ids, slots=min(3, len(ids)), tests=t)
