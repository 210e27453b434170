"""plant.py SPEC.py...: writes seeded/<id>/ from specs. A spec is Python that defines
ID, PROPERTY, EDITS = [(file, old, new)], DEMO (Python source), NEEDS, BREAKS."""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# exit 0 where the behaviour is right, nonzero where it is broken; run in the repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 CUDA_VISIBLE_DEVICES=
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def plant(spec):
    d = {}
    exec(open(spec).read(), d)
    out = os.path.join(ROOT, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    patch = ""
    with tempfile.TemporaryDirectory() as tmp:
        new = {}
        for f, a, b in d["EDITS"]:
            s = new.get(f) or subprocess.check_output(["git", "-C", "/repo", "show", f"HEAD:{f}"], text=True)
            assert s.count(a) == 1, (d["ID"], f, s.count(a), a)
            new[f] = s.replace(a, b)
        subprocess.check_call(["git", "init", "-q", tmp])
        for f in new:
            p = os.path.join(tmp, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(subprocess.check_output(["git", "-C", "/repo", "show", f"HEAD:{f}"], text=True))
        subprocess.check_call(["git", "-C", tmp, "add", "-A"])
        for f, s in new.items():
            open(os.path.join(tmp, f), "w").write(s)
        patch = subprocess.check_output(["git", "-C", tmp, "diff"], text=True)
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    open(os.path.join(out, "demo.py"), "w").write(d["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": d["PROPERTY"], "needs": " ".join(d["NEEDS"].split()), "what_it_breaks": " ".join(d["BREAKS"].split())},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    print("planted", d["ID"])


for s in sys.argv[1:]:
    plant(s)
