"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, missing = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(V, "checks", pid.lower() + ".py")
    if pid in na or not os.path.exists(path):
        missing.append({"property": pid, "reason": na.get(pid, "no check has been built for it yet, so it is not claimed")})
        continue
    info = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("TECHNIQUE", "RULE", "ASSUMPTIONS", "LEVEL"):
            info[n.targets[0].id] = ast.literal_eval(n.value)
    note = "Held on the executions recorded in the evidence file; workload: " + info["RULE"]
    if info.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(info["ASSUMPTIONS"])
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python run.py {pid}",
        "thorough_cmd": f"/opt/venv/bin/python run.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": info.get("TECHNIQUE", "runtime monitoring: randomized workload on the real code, online oracle (independent float64 reference model)"),
        "level": info.get("LEVEL", "exploration"),
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python lib/native.py plain asan tsan",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo are needed: every monitor observes the public API, or a sanitizer build of pytorch3d/csrc made outside /repo.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "not claimed")
