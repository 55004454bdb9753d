"""Builds sanitizer-instrumented objects of /repo's working tree and links a harness. Nothing is written in /repo."""
import fcntl, hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = json.load(open(os.path.join(VERIF, "cfg", "sources.json")))

COMMON = "-w -fPIC -pthread -D_GNU_SOURCE -D_POSIX_C_SOURCE=199309L -D_XOPEN_SOURCE=600 -DMSTDLIB_VERIF -fno-omit-frame-pointer -gline-tables-only -fno-color-diagnostics"
FLAVOURS = {
    # name: (compiler, compile flags, link flags)
    "asan": ("clang", "-O1 -fsanitize=address,undefined -fno-sanitize=function -fno-sanitize-recover=all -fsanitize-recover=pointer-overflow", "-fsanitize=address,undefined -fno-sanitize=function"),
    # for coop threads: their stacks live in heap blocks, so no stack redzones
    "asanheap": ("clang", "-O1 -fsanitize=address,undefined -mllvm -asan-stack=0 -fno-sanitize=function -fno-sanitize-recover=all -fsanitize-recover=pointer-overflow", "-fsanitize=address,undefined -fno-sanitize=function"),
    "fuzz": ("clang", "-O1 -fsanitize=address,undefined,fuzzer-no-link -fno-sanitize=function -fno-sanitize-recover=all -fsanitize-recover=pointer-overflow", "-fsanitize=address,undefined,fuzzer-no-link -fno-sanitize=function"),
    "tsan": ("clang", "-O1 -fsanitize=thread", "-fsanitize=thread"),
    "plain": ("clang", "-O2", ""),
    "cov": ("clang", "-O1 -fprofile-instr-generate -fcoverage-mapping -g", "-fprofile-instr-generate -fcoverage-mapping"),
}
DEPS = {"base": [], "thread": ["base"], "text": ["base"], "formats": ["base", "text"], "io": ["base", "thread", "text"],
        "tls": ["base", "thread", "text", "io"], "net": ["base", "thread", "text", "io", "tls", "formats"],
        "log": ["base", "thread", "text", "io"], "sql": ["base", "thread", "text", "io", "formats"],
        "sql/sqlite": ["sql", "base", "thread", "text", "io", "formats"], "backtrace": ["base"]}
LIBS = {"io": ["-lcares"], "tls": ["-lssl", "-lcrypto"], "net": ["-lcrypto"], "sql": ["-ldl"], "sql/sqlite": ["-lsqlite3"]}


class BuildError(Exception):
    pass


def module_sources(mod):
    known = SRC["modules"][mod]
    res = [f for f in known if os.path.exists(os.path.join(REPO, f))]
    # files a change added to the module's build list
    cm = os.path.join(REPO, mod, "CMakeLists.txt")
    if os.path.exists(cm):
        for t in re.findall(r"[\w./-]+\.c\b", open(cm, errors="replace").read()):
            f = os.path.normpath(os.path.join(mod, t))
            if f not in SRC["all"] and os.path.exists(os.path.join(REPO, f)) and f not in res:
                res.append(f)
    return res


def closure(mods):
    seen = []
    for m in mods:
        for x in [m] + DEPS[m]:
            if x not in seen:
                seen.append(x)
    return seen


def build(name, harness, modules, flavour="asan", libs=(), cflags="", exclude=(), wrap=(), shared_modules=(), ldflags="", per_file_flags=None):
    """harness: list of .c under /verif/harness. Returns path of the executable.
    shared_modules: modules linked as separate .so (dlopen plugins), returned in the same directory."""
    cc, cf, lf = FLAVOURS[flavour]
    mods = closure(modules)
    d = os.path.join(OUT, flavour)
    os.makedirs(d, exist_ok=True)
    nf = os.path.join(d, name + ".ninja")
    lines = ["builddir = %s" % os.path.join(d, "n_" + name),
             "rule cc\n  command = %s %s $fl $inc -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in" % (cc, cf),
             "rule cxx\n  command = %s++ -std=c++17 %s $fl $inc -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in" % (cc, cf),
             "rule ld\n  command = %s++ %s -rdynamic -pthread $in %s -o $out $libs\n" % (cc, lf, " ".join("-Wl,--wrap=" + w for w in wrap) + " " + ldflags),
             "rule so\n  command = %s %s -shared $in -o $out $libs\n" % (cc, lf)]
    objs = []
    incs_base = "-I%s/include -I%s/cfg -I%s -I%s/base" % (REPO, VERIF, REPO, REPO)
    sos = []
    for m in mods + [x for x in shared_modules if x not in mods]:
        mobjs = []
        for f in module_sources(m):
            if f in exclude:
                continue
            pf = (per_file_flags or {}).get(f, "")
            tag = ("_" + hashlib.md5(pf.encode()).hexdigest()[:6]) if pf else ""
            o = os.path.join(d, "obj", f[:-2].replace("/", "__") + tag + ".o")
            inc = "-I%s/%s " % (REPO, m) + incs_base
            if m == "net":
                inc += ' -DNET_HTTP_VERSION=\\"1.24.0\\"'
            lines.append("build %s: cc %s\n  inc = %s\n  fl = %s %s" % (o, os.path.join(REPO, f), inc, COMMON, pf))
            mobjs.append(o)
        if m in shared_modules:
            so = os.path.join(d, "mstdlib_" + m.replace("/", "_") + ".so")
            lines.append("build %s: so %s\n  libs = %s" % (so, " ".join(mobjs), " ".join(LIBS.get(m, []))))
            sos.append(so)
        else:
            objs += mobjs
    hobjs = []
    for h in harness:
        o = os.path.join(d, "h_" + name + "_" + os.path.splitext(os.path.basename(h))[0] + ".o")
        extra = " ".join("-I%s/%s" % (REPO, m) for m in mods)
        lines.append("build %s: %s %s\n  inc = -I%s/harness %s %s\n  fl = %s -g %s" % (o, "cc" if h.endswith(".c") else "cxx", os.path.join(VERIF, "harness", h), VERIF, incs_base, extra, COMMON, cflags))
        hobjs.append(o)
    exe = os.path.join(d, name)
    l = list(libs)
    for m in mods:
        if m not in shared_modules:
            l += [x for x in LIBS.get(m, []) if x not in l]
    lines.append("build %s: ld %s\n  libs = %s -lrt -lm -ldl" % (exe, " ".join(hobjs + objs), " ".join(l)))
    lines.append("default %s %s" % (exe, " ".join(sos)))
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        txt = "\n".join(lines) + "\n"
        if not os.path.exists(nf) or open(nf).read() != txt:
            open(nf, "w").write(txt)
        p = subprocess.run(["ninja", "-f", nf], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(p.stdout[-6000:])
    return exe
