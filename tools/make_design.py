"""DESIGN.md = doc/design_head.md + a section per property (from the checks) + doc/design_notes.md + findings + planted bugs."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]
from lib import harness  # noqa: E402

out = [open(os.path.join(ROOT, "doc/design_head.md")).read().rstrip(), "", "## Properties", ""]
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    pid = p["id"]
    m = importlib.import_module("checks." + pid.lower())
    mons = [n for n in vars(m) if hasattr(vars(m)[n], "_monitor")]
    if not mons:
        import re
        src = open(m.__file__).read()
        mons = re.findall(r"@monitor\([^\n]*\)\ndef (\w+)", src) or re.findall(r"@monitor\([^@]*?\)\s*\ndef (\w+)", src)
    doc = " ".join((m.__doc__ or "").split())
    out += [f"### {pid} {p['title']}", "",
            f"* Oracle: {doc}",
            f"* Workloads (each a monitor): {', '.join(mons)}.",
            f"* Generated: {m.RULE}.",
            f"* Why tests cannot settle it: {p['why_tests_cant']}"]
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append(f"* Left open or assumed: {a}.")
    out.append("")
out += [open(os.path.join(ROOT, "doc/design_notes.md")).read().rstrip(), "", "## Defects found in pytorch3d", "",
        "Repaired by `fix:` commits in /repo (each check fails again when its fix is reverted), or recorded as known findings:", ""]
k = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
for x in sorted(k, key=lambda x: x["property"]):
    out.append(f"* {x['property']} " + (f"fixed in {x['commit']}: " + x["line"].split(x["commit"], 1)[1].strip() if x["status"] == "fixed" else f"KNOWN FINDING `{x['key']}`: {x['what']}"))
out += ["", "## Planted bugs", "", "Each lies in `seeded/<id>/`; the quick check of its property was run against it in a private copy of /repo (`tools/try_bug.sh`).", "",
        "| bug | needs | caught by | note |", "|---|---|---|---|"]
notes = json.load(open(os.path.join(ROOT, "doc/seeded.json")))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    n = notes.get(i, ["?", ""])
    out.append(f"| {i} | {m['needs']} | {n[0]} | {n[1]} |")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
