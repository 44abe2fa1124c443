#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "internal/"
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=(), na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        line={"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [I + f for f in files],
                          "mechanism": [{"name": n, "where": I + w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": I + w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}},
        tech=tech, note=note, na=na))


exec(open(os.path.join(V, "tools", "props.py")).read())

P.sort(key=lambda p: p["line"]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["line"]) + "\n")
claimed = set(json.load(open(os.path.join(V, "checks.json"))))
assert claimed == {p["line"]["id"] for p in P if not p["na"]}, claimed ^ {p["line"]["id"] for p in P if not p["na"]}
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [{"property": p["line"]["id"],
                 "quick_cmd": "./run.py " + p["line"]["id"],
                 "thorough_cmd": "VERIF_TIER=thorough ./run.py " + p["line"]["id"],
                 "technique": p["tech"], "level": "exploration", "level_note": p["note"]}
                for p in P if not p["na"]],
     "not_applicable": [{"property": p["line"]["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "No hooks in /repo: harness packages and accessors to unexported functions enter the build through go's -overlay (see run.py)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
