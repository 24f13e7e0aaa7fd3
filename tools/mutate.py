#!/usr/bin/env python3
"""Mutation run: plants small syntactic changes one at a time in scratch copies of /repo and reports which
survive the scenarios of a group.  usage: mutate.py OUT.json GROUP[,GROUP] RUNS GLOB... (repo relative);
env JOBS, STRIDE (every n-th mutant), KNOWN ids passed to the batch."""
import sys, os, re, glob, json, subprocess, shutil, concurrent.futures, threading, queue, time
V = os.environ.get("VDIR", "/verif"); REPO = "/repo"
out, groups, runs, globs = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), sys.argv[4:]
JOBS = int(os.environ.get("JOBS", 7)); STRIDE = int(os.environ.get("STRIDE", 1)); OFF = int(os.environ.get("OFF", 0))

def strip(lines):
    """lines with comments blanked"""
    res, inc = [], False
    for l in lines:
        s, i = "", 0
        while i < len(l):
            if inc:
                j = l.find("*/", i)
                if j < 0: s += " " * (len(l) - i); break
                s += " " * (j + 2 - i); i = j + 2; inc = False
            elif l.startswith("//", i): s += " " * (len(l) - i); break
            elif l.startswith("/*", i): inc = True
            else: s += l[i]; i += 1
        res.append(s)
    return res

RULES = [(r"(?<![<\-=])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![>\-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
         (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w\)\]]) ?\+ ?(?=[\w\(])", " - "), (r"(?<=[\w\)\]]) ?- ?(?=[\w\(])", " + "),
         (r"\+\+", "--"), (r"--", "++"), (r"\+=", "-="), (r"-=", "+="), (r"(?<=[\w\)]) \* (?=[\w\(])", " / "), (r"(?<=[\w\)]) / (?=[\w\(])", " * "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.\-])1(?![\w.])", "2"),
         (r"(?<![\w.])([2-9]|[1-9]\d+)(?![\w.])", lambda m: str(int(m.group(0)) + 1)),
         (r"\|(?!\|)(?<!\|\|)", "&")]

def mutants(path):
    lines = open(os.path.join(REPO, path), errors="replace").read().split("\n")
    st = strip(lines)
    for i, s in enumerate(st):
        t = s.strip()
        if not t or t.startswith("#") or "template" in t or t.startswith("typedef") or t.startswith("class ") or "namespace" in t or "ecl_compile_time" in t: continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\"" + " " * (len(m.group(0)) - 2) + "\"", s)
        code = re.sub(r"'(\\.|[^'\\])+'", lambda m: "'" + " " * (len(m.group(0)) - 2) + "'", code)
        if re.match(r"^\s*[\w:\.\->\(\)\*\[\] ]+(\(.*\)|(\+\+|--)|\s*[\+\-\*|&]?=[^=].*);\s*(break;)?\s*$", code) and not re.match(r"^\s*(return|const|static|int|long|unsigned|char|bool|double|float|size_t|std::\w+|struct|auto|virtual|throw|using|delete\s*;)\b.*$", t) and not re.match(r"^\s*[\w:<>\*&]+\s+\*?\w+\s*(=|\(|;)", code):
            yield i, lines[i], re.sub(r"\S.*$", ";", lines[i], 1), "delete"
        if re.match(r"^\s*(return\s+[\w\->\.]+\(.*\);)", code) is None and re.match(r"^\s*(delete|throw|break|continue|return)\b.*;\s*$", code) and "return" not in t:
            yield i, lines[i], re.sub(r"\S.*$", ";", lines[i], 1), "delete"
        m = re.search(r"\b(if|while)\s*\(", code)
        if m:
            d, j = 0, m.end() - 1
            for k in range(j, len(code)):
                if code[k] == "(": d += 1
                if code[k] == ")":
                    d -= 1
                    if d == 0:
                        yield i, lines[i], lines[i][:j + 1] + "true || (" + lines[i][j + 1:k] + ")" + lines[i][k:], "if-true" if m.group(1) == "if" else "while-true"
                        yield i, lines[i], lines[i][:j + 1] + "false && (" + lines[i][j + 1:k] + ")" + lines[i][k:], m.group(1) + "-false"
                        break
        for rx, rep in RULES:
            if rx.startswith("(?<![<") or rx.startswith("(?<![>") or rx in ("<=", ">="):
                if re.search(r"\w<[\w:,\*& ]*>", code) or "cast<" in code: continue
            for m in re.finditer(rx, code):
                r = rep(m) if callable(rep) else rep
                yield i, lines[i], lines[i][:m.start()] + r + lines[i][m.end():], m.group(0).strip() + "->" + r.strip()
    # return value flips handled by true/false rules

files = sorted({os.path.relpath(f, REPO) for g in globs for f in glob.glob(os.path.join(REPO, g))})
todo = [(f, *m) for f in files for m in mutants(f)]
todo = todo[OFF::STRIDE]
print(len(files), "files", len(todo), "mutants", flush=True)
pool = queue.Queue()
for w in range(JOBS):
    d = "/tmp/mut/%d" % w
    if not os.path.exists(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        subprocess.run("git -C /repo archive HEAD --prefix=repo/ | tar x -C %s" % d, shell=True, check=True)
    else:
        subprocess.run("rm -rf %s/repo && git -C /repo archive HEAD --prefix=repo/ | tar x -C %s" % (d, d), shell=True, check=True)
    pool.put(d)
sys.path.insert(0, V)
from props import PROPS
scen = {}
for p in PROPS.values():
    scen.setdefault(p["group"], []).extend(p["scenarios"])
# warm the builds
def warm(d):
    e = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build")
    subprocess.run(["python3", V + "/build.py", *groups], env=e, check=True, stdout=subprocess.DEVNULL)
with concurrent.futures.ThreadPoolExecutor(JOBS) as ex: list(ex.map(warm, list(pool.queue)))
res, lock, t0 = [], threading.Lock(), time.time()
def one(x):
    f, i, old, new, kind = x
    d = pool.get()
    try:
        p = os.path.join(d, "repo", f); src = open(p, errors="replace").read(); l = src.split("\n"); assert l[i] == old
        l[i] = new; open(p, "w").write("\n".join(l))
        e = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build")
        b = subprocess.run(["python3", V + "/build.py", *groups], env=e, capture_output=True, text=True)
        st, by = "nocompile", ""
        if b.returncode == 0:
            st = "survived"
            for g in groups:
                for s in scen[g]:
                    for m in ("debug", "release"):
                        o = d + "/o.json"
                        if os.path.exists(o): os.unlink(o)
                        known = ["--known", "shm-init-race"] if g == "ipc" else []
                        r = subprocess.run([d + "/build/%s/sim_%s" % (m, g), "batch", "--scenarios", s, "--seed", "1", "--runs", str(runs), "--wall", "40", "--maxviol", "1", "--out", o, *known], capture_output=True, text=True, timeout=300)
                        try: v = json.load(open(o))["violations"]
                        except Exception: v = [dict(cls="batch-died")]
                        if v: st, by = "killed", s + ":" + v[0]["cls"]; break
                    if by: break
                if by: break
        open(p, "w").write(src)
    except subprocess.TimeoutExpired:
        st, by = "killed", "timeout"; open(p, "w").write(src)
    finally: pool.put(d)
    with lock:
        res.append(dict(file=f, line=i + 1, kind=kind, old=old.strip(), new=new.strip(), status=st, by=by))
        if len(res) % 20 == 0: print(len(res), "/", len(todo), int(time.time() - t0), "s", {k: sum(r["status"] == k for r in res) for k in ("killed", "survived", "nocompile")}, flush=True)
        json.dump(res, open(out, "w"), indent=0)
with concurrent.futures.ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, todo))
for r in sorted(res, key=lambda r: (r["file"], r["line"])):
    if r["status"] == "survived": print("%s:%d %s\n   - %s\n   + %s" % (r["file"], r["line"], r["kind"], r["old"], r["new"]))
