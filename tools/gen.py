#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation: seeded search over schedules, preemptions, thresholds, heap contents and faults, against an exact reference model"
NOTE = ("Exploration: no violation in the simulated runs of the seed (see evidence). The repository's headers run unmodified except for the run-time tuning thresholds; "
        "the OpenMP run-time, allocator, clock and file I/O are simulated. Trusts the simulator, the reference model, BLAS, Givaro and GMP; memory is sequentially consistent. ")
props = []


def P(id, title, statement, over, text, why, files, mech, note="", tech=TECH, observe=None, state=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, tech=tech, observe=observe, state=state))


NA = []   # (dict for properties.jsonl, reason)
exec(open(os.path.join(V, "tools", "spec.py")).read())

assert len(set(p["id"] for p in props)) == len(props)
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(props, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (p["id"], x)
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        a["observe_at"] = p["observe"] or ["values written to the caller's output operands and the value returned"]
        a["hook_needed"] = "tuning thresholds become run-time values under __FFLASFFPACK_SIMULATION"
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
na = {i: r for i, r in NA}
man = {"version": 1, "setup_cmd": "true",
       "hooks": {"guard": "__FFLASFFPACK_SIMULATION", "enable": "check.py compiles the harness with -include sim/thr.h, which defines __FFLASFFPACK_SIMULATION and turns the tuning thresholds into run-time values",
                 "source_commits": HOOKS},
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["tech"], "level": "exploration", "level_note": NOTE + p["note"]} for p in sorted(props, key=lambda p: p["id"]) if p["id"] not in na],
       "not_applicable": [{"property": i, "reason": r} for i, r in NA],
       "notes": "Generated by tools/gen.py from tools/spec.py. Replay a reported violation with: python3 check.py --replay <file> [--trace]. Prove determinism with: python3 check.py --determinism <property> <runs>."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props), "properties,", len(man["checks"]), "claimed")
