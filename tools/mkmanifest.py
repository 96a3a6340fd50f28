#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present (mc/checks/cNN.py) and properties.jsonl."""
import ast, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "model_checking": "explicit-state model checking of the real code: every history within bounds, deduplicated by state, against a reference model",
 "exploration": "bounded exhaustive enumeration on the real code against an independent definition",
 "fault_enumeration": "exhaustive crash-point and fault-point enumeration over every history within bounds, on the real code",
}
def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == name:
            v = n.value
            if isinstance(v, ast.BinOp):      # "…" % (...)
                while isinstance(v, ast.BinOp): v = v.left
            try:
                return ast.literal_eval(v)
            except Exception:
                return None
checks, na = [], []
for line in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(line); pid = p["id"]
    f = os.path.join(R, "mc", "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    t = ast.parse(open(f).read())
    level = const(t, "LEVEL")
    note = const(t, "NOTE") or "Decides the property on every case within the bounds recorded in the evidence file (bounds, counts); nothing is sampled."
    checks.append({"property": pid, "quick_cmd": "./check %s" % pid, "thorough_cmd": "./check %s --thorough" % pid,
                   "technique": const(t, "TECHNIQUE") or TECH[level], "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness controls locks, ids, random choices and file-system events from outside. Known findings: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
