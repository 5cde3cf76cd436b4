#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from texts/ and the checks' registry."""
import importlib
import json
import os
import pkgutil
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props  # noqa: E402
import texts  # noqa: E402
from wf import check as K  # noqa: E402

for m in pkgutil.iter_modules(props.__path__):
    importlib.import_module("props." + m.name)
P, NA = [], []
for m in pkgutil.iter_modules(texts.__path__):
    t = importlib.import_module("texts." + m.name)
    P += t.P
    NA += getattr(t, "NA", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        for x in q["files"]:
            assert os.path.exists("/repo/" + x), x
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
ids = [q["id"] for q in P]
assert len(ids) == len(set(ids))
na = {i for i, _ in NA}
checks = []
for i in ids:
    if i in na:
        continue
    r = K.REGISTRY[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}", "technique": r["technique"], "level": "other", "level_note": r["note"]})
assert set(K.REGISTRY) <= set(ids), set(K.REGISTRY) - set(ids)
M = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": i, "reason": w} for i, w in NA],
     "notes": "All checks are static: a compiler driver dumps the type-checked MIR of /repo's current sources (analyzer/), a path-sensitive engine (wf/) evaluates the rules in props/. No code of /repo is executed. No hooks in /repo."}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties,", len(checks), "checks,", len(NA), "not applicable")
