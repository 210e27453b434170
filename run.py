#!/opt/venv/bin/python
"""run.py CNN [--replay FILE] [--seed N] [--tier quick|thorough]"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.update(
    PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="",
    HF_HUB_OFFLINE="1", PYOPENGL_PLATFORM="egl", LANG="C.UTF-8",
)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, "/repo")


def main():
    import argparse
    import importlib
    import json
    import warnings

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.WARNING)
    from lib import harness, native
    prop = next(p for p in map(json.loads, open(os.path.join(VERIF, "properties.jsonl"))) if p["id"] == a.pid)
    import ast
    src = os.path.join(VERIF, "checks", a.pid.lower() + ".py")
    flags = {"NATIVE": True, "SANITIZER": None}
    for node in ast.parse(open(src).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in flags:
            flags[node.targets[0].id] = ast.literal_eval(node.value)
    san = flags["SANITIZER"]
    try:
        so = native.build(san or "plain", allow_stale=not flags["NATIVE"])
    except native.BuildError as e:
        print("ERROR: the tree does not build\n" + str(e))
        return 2
    if san and os.environ.get("VERIF_SAN") != san:
        native.reexec_under(san)
    import torch
    torch.set_num_threads(1)
    native.load(so)
    mod = importlib.import_module(f"checks.{a.pid.lower()}")
    # a check may import helpers from another check; only its own monitors run
    harness.MONITORS[:] = [m for m in harness.MONITORS if m.fn.__module__ == mod.__name__]
    if hasattr(mod, "run"):  # a check with its own driver (sanitizer builds)
        return mod.run(a.pid, a.tier, a.seed, replay=a.replay)
    return harness.main(
        a.pid, getattr(mod, "LEVEL", "exploration"), a.tier, a.seed, prop["statement"], mod.RULE,
        getattr(mod, "ASSUMPTIONS", []), replay=a.replay, budget=a.budget)


if __name__ == "__main__":
    sys.exit(main())
