#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection (seeded schedules, faults and clocks over the real code, reference-model oracles, minimised replays)"
PR = []      # (property dict, level note)
NA = []      # (property dict, reason)

def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    PR.append((d, note))

def na(id, title, statement, over, text, why, files, mech, reason):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    NA.append((d, reason))

exec(open(os.path.join(V, "meta_props.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _ in PR + NA:
            f.write(json.dumps(d) + "\n")
    checks = []
    for d, note in PR:
        checks.append({"property": d["id"], "quick_cmd": "python3 check.py %s quick" % d["id"], "thorough_cmd": "python3 check.py %s thorough" % d["id"],
                       "evidence_file": "evidence/%s.json" % d["id"], "technique": T, "level": "exploration", "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks,
         "not_applicable": [{"property": d["id"], "reason": r} for d, r in NA],
         "notes": "No hooks in /repo: every seam is the C library boundary (ld --wrap) and compiler instrumentation of /repo's sources into a runtime of our own; see DESIGN.md. "
                  "'python3 check.py replay <file>' replays a violation. known-findings.txt lists genuine defects (recorded or fixed)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    main()
