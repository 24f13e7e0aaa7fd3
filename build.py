#!/usr/bin/env python3
"""Builds the simulation binaries from /repo's working tree.  Objects are cached in /verif/build by
content of the source and of every header it included, so a change of code is always rebuilt."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
PKGS = ["ecl_threads", "ecl_time", "ecl_ipc", "ecl_devices", "ecl_streams", "ecl_exceptions",
        "ecl_converters", "ecl_formatters", "ecl_type_traits", "ecl_utilities", "ecl_sigslots",
        "ecl_containers", "ecl_filesystem"]
CXX = "g++"
BASE = ["-std=gnu++14", "-g1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector",
        "-fno-pie", "-w", "-pthread"]
# strict-aliasing off: the code under test type-puns in the shared memory helpers
INSTR = ["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
         "-fno-omit-frame-pointer", "-fno-strict-aliasing"]
SIMFLAGS = ["-O2", "-fno-omit-frame-pointer", "-fno-strict-aliasing"]
# noexc: the documented build without exceptions, in which failures are only reported by return values and error()
MODES = {"debug": [], "release": ["-DNDEBUG"], "noexc": ["-DNDEBUG", "-DECL_DISABLE_EXCEPTIONS"]}
# the properties whose code reports differently in it than in a release build
NOEXC = ["C05", "C11", "C12", "C13", "C14", "C15", "C16", "C21", "C23", "C31"]


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


def includes():
    inc = ["-I" + V, "-I" + os.path.join(V, "stubs")]
    for d in sorted(glob.glob(os.path.join(REPO, "ecl_*", "include"))):
        inc.append("-I" + d)
    return inc


def compile_one(src, obj, flags):
    cmd = [CXX, *BASE, *flags, *includes(), "-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    meta = obj + ".json"
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmd and os.path.exists(obj) and all(sha(p) == h for p, h in m["deps"].items()):
            return obj, False, ""
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for p in (obj, meta):
        if os.path.exists(p):
            os.unlink(p)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return obj, True, "%s\n%s" % (src, r.stderr[:4000])
    dep = open(obj + ".d").read().replace("\\\n", " ")
    deps = [d for d in dep.split(":", 1)[1].split() if not d.startswith("/usr/")]
    json.dump({"cmd": cmd, "deps": {d: sha(d) for d in deps}}, open(meta, "w"))
    return obj, True, ""


def wraps():
    names = set()
    for f in sorted(glob.glob(os.path.join(V, "sim", "*.cpp"))):
        names.update(re.findall(r"\b__wrap_(\w+)\s*\(", open(f).read()))
        names.update(re.findall(r"\bWRAPNAME\((\w+)\)", open(f).read()))
    return sorted(names)


def repo_sources():
    out = []
    for p in PKGS:
        for f in sorted(glob.glob(os.path.join(REPO, p, "src", "lib", "**", "*.cpp"), recursive=True)):
            if re.search(r"(_w32|_win|_mac|_app)\.cpp$", f):
                continue
            out.append(f)
    return out


def build(groups, modes, jobs=8, quiet=True):
    """groups: names of scen_<name>.cpp; returns {(group, mode): binary}"""
    os.makedirs(OUT, exist_ok=True)
    tasks = []
    sim = []
    for f in sorted(glob.glob(os.path.join(V, "sim", "*.cpp"))):
        for m in modes:
            o = os.path.join(OUT, m, "sim", os.path.basename(f)[:-4] + ".o")
            sim.append((m, o))
            tasks.append((f, o, SIMFLAGS + MODES[m]))
    rep = []
    for f in repo_sources():
        for m in modes:
            o = os.path.join(OUT, m, "repo", os.path.relpath(f, REPO).replace("/", "__")[:-4] + ".o")
            rep.append((m, o))
            tasks.append((f, o, INSTR + MODES[m]))
    sc = {}
    for g in groups:
        for m in modes:
            o = os.path.join(OUT, m, "scen", g + ".o")
            sc[(g, m)] = o
            tasks.append((os.path.join(V, "scen_%s.cpp" % g), o, INSTR + MODES[m]))
    fresh, errs = False, []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for o, did, err in ex.map(lambda t: compile_one(*t), tasks):
            fresh |= did
            if err:
                errs.append(err)
    if errs:
        raise RuntimeError("compilation failed:\n" + "\n".join(errs[:3]))
    wr = ["-Wl,--wrap=" + w for w in wraps()]
    bins = {}

    def link(key):
        g, m = key
        b = os.path.join(OUT, m, "sim_" + g)
        objs = [sc[key]] + [o for mm, o in rep if mm == m] + [o for mm, o in sim if mm == m]
        stamp = hashlib.sha256(("|".join(sha(o) or "" for o in objs) + "|" + " ".join(wr)).encode()).hexdigest()
        try:
            if open(b + ".stamp").read() == stamp and os.path.exists(b):
                return key, b, ""
        except OSError:
            pass
        r = subprocess.run([CXX, "-static", "-no-pie", "-pthread", "-Wl,--gc-sections", *wr, "-o", b + ".tmp", *objs, "-lrt"],
                           capture_output=True, text=True)
        if r.returncode:
            return key, b, r.stderr[:4000]
        os.rename(b + ".tmp", b)
        open(b + ".stamp", "w").write(stamp)
        return key, b, ""

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for key, b, err in ex.map(link, list(sc)):
            if err:
                raise RuntimeError("link of %s failed:\n%s" % (key, err))
            bins[key] = b
    return bins


if __name__ == "__main__":
    gs = sys.argv[1:] or sorted(os.path.basename(f)[5:-4] for f in glob.glob(os.path.join(V, "scen_*.cpp")))
    for k, b in build(gs, ["debug", "release"]).items():
        print(k, b)
    from props import PROPS
    try:
        for k, b in build([g for g in gs if g in {PROPS[p]["group"] for p in NOEXC}], ["noexc"]).items():
            print(k, b)
    except RuntimeError as e:
        print("NOTE: does not build with exceptions disabled:", str(e)[:600])
