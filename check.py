#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]   decide one property
python3 check.py replay <file>                  replay a violation, printing its trace
Exit 0: held on everything explored; 1: VIOLATION; anything else: the check itself failed."""
import concurrent.futures, json, os, re, shutil, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B
from props import PROPS, ASSUMPTIONS

QUICK_WALL, THOROUGH_WALL = 75, 600
WORKERS = 8


def places(binary, msg):
    """[code at A and B] in a message -> source lines, where addr2line is there to tell"""
    t = re.search(r"\[code at (\w+) and (\w+)\]", msg)
    if not t:
        return msg
    try:
        r = subprocess.run(["addr2line", "-i", "-e", binary] + ["0x%x" % (int(x, 16) - 1) for x in t.groups()], capture_output=True, text=True, timeout=20)
        l = [os.path.relpath(x.split(" ")[0], B.REPO) for x in r.stdout.split("\n") if x.startswith(B.REPO)]
        return msg + (" [" + ", ".join(dict.fromkeys(l)) + "]" if l else "")
    except (OSError, subprocess.TimeoutExpired):
        return msg


def known_findings():
    """known-findings.txt: 'finding: property=<id> id=<finding id> <what fails>' / 'fixed: ...'"""
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                w = l.split(None, 3)
                out.append((w[1].split("=", 1)[1], w[2].split("=", 1)[1], w[3].strip()))
    return out


def replay(path):
    mode, prop = "debug", None
    for l in open(path):
        if l.startswith("build "):
            mode = l.split()[1]
        elif l.startswith("property "):
            prop = l.split()[1]
        elif l.startswith("#") and prop:
            break
    g = PROPS[prop]["group"]
    b = B.build([g], [mode])[(g, mode)]
    kn = ",".join(i for p, i, _ in known_findings() if p == prop)
    return subprocess.run([b, "replay", "--file", path, "--trace", "1", "--known", kn]).returncode


def main():
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    print("%s %s seed=%d" % (prop, tier, seed), flush=True)
    g = P["group"]
    try:
        bins = B.build([g], ["debug", "release"])
    except RuntimeError as e:
        print("BUILD-FAILED", e)
        sys.exit(3)
    modes = list(P.get("modes", ["debug", "release"] + (["noexc"] if prop in B.NOEXC else [])))
    if "noexc" in modes:
        try:
            bins.update(B.build([g], ["noexc"]))
        except RuntimeError as e:          # a tree that cannot be built like this is still checked in the other builds
            modes.remove("noexc")
            print("NOTE: not explored with exceptions disabled, as it does not build:", str(e)[:600], flush=True)
    t_build = time.time() - t0
    finds = [(p, i, t) for p, i, t in known_findings() if p == prop]
    kn = ",".join(i for _, i, _ in finds)
    runs = P.get("quick", 6000) if tier == "quick" else P.get("thorough", 10 ** 9)
    wall = P.get("quick_wall", QUICK_WALL) if tier == "quick" else P.get("thorough_wall", THOROUGH_WALL)
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        rc = explore(prop, tier, seed, P, bins, kn, finds, runs, wall, modes, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def explore(prop, tier, seed, P, bins, kn, finds, runs, wall, modes, tmp, t0, t_build):
    g = P["group"]
    scens = P["scenarios"]
    share = {m: n for m, n in zip(modes, (3, 3, 2) if len(modes) == 3 else [WORKERS // len(modes)] * len(modes))}
    jobs = []
    for m in modes:
        n = share[m]
        for k in range(n):
            out = os.path.join(tmp, "%s-%d.json" % (m, k))
            jobs.append((m, k, out, [bins[(g, m)], "batch", "--scenarios", ",".join(scens), "--seed", str(seed),
                                     "--start", str(k), "--stride", str(n), "--runs", str(runs), "--wall", str(wall),
                                     "--maxviol", "3", "--known", kn, "--out", out]))

    def go(j):
        r = subprocess.run(j[3], capture_output=True, text=True)
        return j, r

    tot = {}
    faults, probes, known, srun = {}, {}, {}, {}
    nth, sched = set(), set()
    viol = []
    bad = None
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        for j, r in ex.map(go, jobs):
            if r.returncode != 0:
                bad = (j, r)
                continue
            d = json.load(open(j[2]))
            for k, v in d.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    tot[k] = tot.get(k, 0) + v
            tot["cut"] = tot.get("cut", False) or d["cut"]
            for dst, key in ((faults, "faults"), (probes, "probes"), (known, "known"), (srun, "scenario_runs")):
                for k, v in d[key].items():
                    dst[k] = dst.get(k, 0) + v
            for v in d["violations"]:
                viol.append((j[0], v))
            with open(j[2] + ".hashes", "rb") as f:
                a, b = struct.unpack("QQ", f.read(16))
                salt = modes.index(j[0])
                nth.update((x, salt) for (x,) in struct.iter_unpack("Q", f.read(8 * a)))
                sched.update((x, salt) for (x,) in struct.iter_unpack("Q", f.read(8 * b)))
    if bad and not viol:
        print("CHECK-ERROR %s: exit %d\n%s" % (" ".join(bad[0][3]), bad[1].returncode, (bad[1].stderr or "")[-2000:]))
        return 4
    t_explore = time.time() - t0 - t_build

    # ---- violations: minimise, write the replay file, replay it in a fresh process
    reported, broken = [], []
    seen = {}
    rdir = os.path.join(V, "replays")
    for m, v in sorted(viol, key=lambda x: (x[1]["steps"])):
        seen.setdefault((v["scenario"], v["cls"]), []).append((m, v))
    picks = [seen[k] for k in sorted(seen, key=lambda k: (min(v["steps"] for _, v in seen[k])))][:4]

    def minimise(n_c):
        n, cands = n_c
        err = ""
        for m, v in cands[:3]:
            path = os.path.join(rdir, "%s-%d.replay" % (prop, n))
            r = subprocess.run([bins[(g, m)], "shrink", "--scenario", v["scenario"], "--seed", str(v["seed"]), "--faulty", str(v["faulty"]),
                                "--class", v["cls"], "--property", prop, "--known", kn, "--out", path, "--wall", "25"], capture_output=True, text=True)
            if r.returncode != 0:
                err = "could not reproduce %s: %s" % (v, r.stderr.strip())
                continue
            rr = subprocess.run([bins[(g, m)], "replay", "--file", path, "--known", kn], capture_output=True, text=True)
            if rr.returncode != 0 or "REPRODUCED" not in rr.stdout.split():
                err = "replay of %s did not reproduce: %s" % (path, rr.stdout[-500:])
                continue
            msg = [l for l in rr.stdout.splitlines() if l.startswith("message ")]
            return (m, v, path, r.stdout.strip(), places(bins[(g, m)], msg[0][8:] if msg else v["msg"])), ""
        return None, err

    if picks:
        os.makedirs(rdir, exist_ok=True)
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            for res, err in ex.map(minimise, enumerate(picks)):
                if res:
                    reported.append(res)
                else:
                    broken.append(err)
    for m, v, path, sh, msg in reported:
        print("violated: build=%s scenario=%s seed=%d class=%s: %s" % (m, v["scenario"], v["seed"], v["cls"], msg))
        print("  " + sh)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    for b in broken:
        print("UNREPRODUCED", b)
    for p, i, t in finds:
        print("KNOWN-FINDING: property=%s %s (met in %d runs)" % (p, t, known.get(i, 0)))

    # ---- one sample execution, written out
    samples = []
    for m in modes[:1]:
        for s in scens[:2]:
            r = subprocess.run([bins[(g, m)], "one", "--scenario", s, "--seed", str(seed * 1000003 + 7), "--faulty", "1", "--known", kn], capture_output=True, text=True, errors="replace")
            ls = r.stdout.splitlines()
            samples.append({"scenario": s, "build": m, "seed": seed * 1000003 + 7, "events": ls[:25] + (["..."] if len(ls) > 27 else []) + ls[-2:]})
    wall_s = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(tot.get("runs", 0)),
            "distinct_nontrivial": len(nth),
            "rule": "one case = one whole simulated execution of a generated workload under one seed (operations, interleaving, delays, faults); "
                    "non-trivial when " + P["nontrivial"] + "; distinct by the hash of its complete event history (every call point, its arguments and result, every switch and fault)",
            "samples": samples,
            "simulated_runs": int(tot.get("runs", 0)),
            "nontrivial_runs": int(tot.get("nontrivial", 0)),
            "runs_per_hour": int(tot.get("runs", 0) / max(t_explore, 0.01) * 3600),
            "seeds_per_hour": int(tot.get("runs", 0) / max(t_explore, 0.01) * 3600),
            "simulated_seconds": round(tot.get("sim_seconds", 0), 3),
            "scheduler_steps": int(tot.get("steps", 0)),
            "context_switches": int(tot.get("switches", 0)),
            "distinct_interleavings": len(sched),
            "distinct_interleavings_measure": "distinct hashes of the sequence of scheduling decisions (which fiber ran after which event)",
            "fault_injecting_runs": int(tot.get("faulty_runs", 0)),
            "runs_with_a_fault_fired": int(tot.get("fault_fired_runs", 0)),
            "faults_injected": faults,
            "rare_condition_probes": probes,
            "determinism_rechecks": int(tot.get("determinism_rechecks", 0)),
            "runs_per_scenario": srun,
            "builds": {m: {"debug": "exceptions on, NDEBUG off", "release": "NDEBUG on, return codes", "noexc": "NDEBUG and ECL_DISABLE_EXCEPTIONS, return codes only"}[m] for m in modes},
            "wall_capped": bool(tot.get("cut", False)),
            "real_code": P["real"],
            "stubbed": P["stubs"],
            "known_findings_met": known,
        },
        "assumptions": ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(wall_s, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs (%d distinct non-trivial), %d distinct schedules, %.0f simulated s, faults %s, build %.1fs explore %.1fs" % (
        prop, tot.get("runs", 0), len(nth), len(sched), tot.get("sim_seconds", 0), faults, t_build, t_explore))
    if reported:
        return 1
    if broken or bad:
        return 4
    return 0


if __name__ == "__main__":
    main()
