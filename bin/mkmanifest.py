"""Regenerates MANIFEST.json from the checks that exist (run by hand after adding a check)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "symex": (
        "symbolic execution of the real Python code; z3 decides every branch and assertion over all values within the bounds",
        "Every path within the stated bounds is explored and every assertion decided by z3; trusts the proxies "
        "(vlib/symex.py, vlib/symdt.py), the environment stubs of the harness and CPython itself.",
    ),
    "sched": (
        "symbolic execution of the real Python code, thread schedules included: preemption positions are solver variables, z3 "
        "decides every branch and assertion over all values within the bounds",
        "Every path and (in the preempted/parallel jobs) every schedule within the stated bounds is explored and every assertion "
        "decided by z3; trusts the proxies (vlib/symex.py), the scheduler (vlib/sched.py: locks replaced, one thread at a time), the "
        "environment stubs of the harness and CPython itself.",
    ),
}
PROPS = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for p in PROPS:
    pid = p["id"]
    path = os.path.join(ROOT, "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": pid, "reason": "no check has been built yet (work in progress)"})
        continue
    text = open(path).read()
    level = re.search(r'^LEVEL = "(\w+)"', text, re.M).group(1)
    kind = "sched" if "Sched" in text or "threaded_" in text else "symex"
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"bin/check {pid} --tier quick",
            "thorough_cmd": f"bin/check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": NOTES[kind][0],
            "level": level,
            "level_note": NOTES[kind][1],
        }
    )
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Replay of a counterexample: /opt/venv/bin/python -m vlib.run --replay FILE (in /verif). No hooks in /repo are needed.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
