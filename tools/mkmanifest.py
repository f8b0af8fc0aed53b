"""Writes MANIFEST.json from properties.jsonl and the plan of the checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from plan import PLAN, NOTES, NOT_APPLICABLE            # noqa: E402

DEFAULT = ("Model checking of the specification at small bounds plus conformance of the code on the executions explored: "
           "every value a run returns is judged against the exact (rational) value of its step. Not a proof for all inputs; "
           "trusts TLC, the rational arithmetic (itself checked in setup) and the recorder.")
PY = "/opt/venv/bin/python -B harness/check.py "

checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid not in PLAN:
        continue
    p = PLAN[pid]
    checks.append({"property": pid, "quick_cmd": PY + pid, "thorough_cmd": PY + pid + " --tier thorough",
                   "technique": p["technique"], "level": "model_checking",
                   "level_note": NOTES.get(pid, DEFAULT)})
ids = {c["property"] for c in checks}
na = [{"property": json.loads(l)["id"], "reason": NOT_APPLICABLE.get(json.loads(l)["id"], "")}
      for l in open(os.path.join(ROOT, "properties.jsonl")) if json.loads(l)["id"] not in ids]
assert all(n["reason"] for n in na), na
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B harness/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the API exposes the state the specification talks about. Exit 2 is a machinery error."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
