#!/usr/bin/env python3
"""checks/run.py <PROPERTY> [--replay FILE] ; tier and seed from VERIF_TIER / VERIF_SEED"""
import importlib.util, json, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
sys.path.insert(0, HERE)
import mbuild, vrun


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    spec = importlib.util.spec_from_file_location(prop, os.path.join(HERE, "specs", prop + ".py"))
    mod = importlib.util.module_from_spec(spec)
    sys.modules[mod.__name__] = mod
    spec.loader.exec_module(mod)
    r = vrun.Run(prop, tier, seed)
    if replay:
        orig = r.mode

        def one(exe, mode, cases, **kw):
            if mode != replay["mode"]:
                return
            kw.pop("batches", None)
            lo = replay["case"]
            rr = r._batch(exe, mode, lo, lo + 1, kw.get("flavour", "asan"), kw.get("leak", True), kw.get("timeout", 240), kw.get("env"), kw.get("wrap"), 0, True, 1)
            r.viols += rr["viols"]
            if kw.get("post") and rr["log"]:
                r.viols += [vrun.Viol(k, m, mode, c) for k, m, c in kw["post"](rr["log"]).get("viols", [])]
            for v in r.viols:
                print("REPLAY", v.key, v.msg, v.extra[:3000])
            r.cases += 1
        r.mode = one
        r.require = lambda *a, **k: None
        mod.check(r)
        return 1 if r.viols else 0
    return mod.check(r)


if __name__ == "__main__":
    try:
        rc = main()
    except mbuild.BuildError as e:
        print("ERROR: build failed\n" + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
