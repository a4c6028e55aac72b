"""Writes /verif/MANIFEST.json from the check modules that exist: python3 tools/manifest.py"""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C02": "stateless model checking of the real engines: all thread schedules up to a preemption bound, against all one-at-a-time orders of a reference model",
    "C03": "model checking: exhaustive call graphs and failure histories on the real engines, with lock-aware scheduling",
}
DEF = {"model_checking": "bounded exhaustive exploration of operation histories on the real engine, in step with a reference model",
       "exploration": "bounded exhaustive enumeration of programs and input shapes on the real code, against a reference model",
       "fault_enumeration": "exhaustive enumeration of failure points of bounded histories on the real engine, against a reference model"}
NOTE = {
    "C02": "Exhaustive for the listed harnesses up to the stated number of preemptions at source-line granularity; trusts the scheduler and the reference model of stores.",
}
DNOTE = "Exhaustive within the bounds recorded in DESIGN.md and in the evidence file; trusts the independent reference model in mc/checks; says nothing about values outside the alphabet."
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
REASON = {}
for p in props:
    pid = p["id"]
    path = os.path.join(HERE, "mc", "checks", pid + ".py")
    if not os.path.exists(path):
        na.append({"property": pid, "reason": REASON.get(pid, "not claimed yet: the check is still being built")})
        continue
    level = None
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "LEVEL":
            level = node.value.value
    checks.append({"property": pid, "quick_cmd": "bash check.sh %s quick" % pid, "thorough_cmd": "bash check.sh %s thorough" % pid,
                   "technique": TECH.get(pid, DEF[level]), "level": level, "level_note": NOTE.get(pid, DNOTE)})
doc = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
       "notes": "All checks import titus from /repo's working tree in a fresh process without byte-code caches; no hooks in /repo are needed."}
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
