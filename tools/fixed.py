"""fixed.py CNN "what failed" [commit]: records a repaired defect in known_findings.json"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "known_findings.json")
d = json.load(open(p))
h = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
d["findings"].append(dict(status="fixed", property=sys.argv[1], commit=h, line=f"fixed: property={sys.argv[1]} {h} {sys.argv[2]}"))
json.dump(d, open(p, "w"), indent=1)
