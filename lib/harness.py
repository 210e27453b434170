"""Runner for the monitors: seeded cases in forked workers, a journal so that a
crashed or hung worker is attributed to a case, three-valued verdicts, evidence.

A check module (checks/cNN.py) holds functions decorated with @monitor. Each is
one workload plus its oracle; it gets a Case and calls case.fail(...) when what
it observed contradicts the property.
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import random
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MONITORS = []


class Violation(Exception):
    def __init__(self, msg, key=None, data=None):
        super().__init__(msg)
        self.key = key
        self.data = data or {}


class Monitor:
    def __init__(self, fn, quick, thorough, need):
        self.fn, self.name = fn, fn.__name__
        self.quick, self.thorough = quick, thorough
        self.need = need  # events that must have been observed, or the run is inconclusive


def monitor(quick=100, thorough=None, need=()):
    def deco(fn):
        MONITORS.append(Monitor(fn, quick, thorough or quick * 25, need))
        return fn
    return deco


def _show(x):
    try:
        import torch
        if isinstance(x, torch.Tensor):
            t = x.detach()
            s = f"tensor{tuple(t.shape)} {t.dtype}"
            if t.numel() <= 64:
                s += " " + repr(t.tolist())
            return s
    except Exception:
        pass
    s = repr(x)
    return s if len(s) < 2000 else s[:2000] + "..."


class Case:
    def __init__(self, mon, index, base_seed):
        import numpy as np
        import torch
        self.monitor, self.index = mon.name, index
        ss = np.random.SeedSequence([base_seed, zlib.crc32(mon.name.encode()), index])
        self.rng = np.random.default_rng(ss)
        s = int(ss.generate_state(1)[0])
        self.seed = s
        random.seed(s)
        np.random.seed(s % (2**32))
        torch.manual_seed(s)
        self.gen = torch.Generator().manual_seed(s)
        self.events = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.known = []

    # --- observation bookkeeping
    def count(self, event, n=1):
        self.events[event] += int(n)

    def sig(self, *parts):
        """A distinct, non-trivial situation that the oracle judged."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
        self.sigs.add(h)
        if not self.samples:
            self.sample(" ".join(map(str, parts)))

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(f"{self.monitor}[{self.index}]: {text}"[:400])

    # --- verdicts
    def fail(self, msg, key=None, **data):
        v = Violation(msg, key, {k: _show(x) for k, x in data.items()})
        if key is not None and (_PID, key) in _KNOWN:
            self.known.append((key, msg))
            return
        raise v

    def check(self, ok, msg, key=None, **data):
        self.count("assertions")
        if not ok:
            self.fail(msg, key=key, **data)

    def close(self, got, want, msg, atol=1e-5, rtol=1e-4, key=None, nan_ok=False, **data):
        import torch
        self.count("assertions")
        got = torch.as_tensor(got)
        want = torch.as_tensor(want)
        if got.shape != want.shape:
            self.fail(f"{msg}: shape {tuple(got.shape)} instead of {tuple(want.shape)}",
                      key=key, got=got, want=want, **data)
            return
        g, w = got.detach().double(), want.detach().double()
        atol_t = atol if not hasattr(atol, "double") else atol.double()
        bad = ~((g - w).abs() <= atol_t + rtol * w.abs())
        bad &= ~(g == w)
        if nan_ok:
            bad &= ~(g.isnan() & w.isnan())
        if bool(bad.any()):
            i = torch.nonzero(bad)[:4].tolist()
            worst = (g - w).abs()[bad]
            self.fail(
                f"{msg}: {int(bad.sum())} of {bad.numel()} entries differ, first at {i}: "
                f"got {g[bad][:4].tolist()} want {w[bad][:4].tolist()} (max diff {float(worst.max()):.3g})",
                key=key, got=got, want=want, **data)

    def equal(self, got, want, msg, key=None, **data):
        import torch
        self.count("assertions")
        if isinstance(got, torch.Tensor) or isinstance(want, torch.Tensor):
            got, want = torch.as_tensor(got), torch.as_tensor(want)
            ok = got.shape == want.shape and bool((got == want).all())
        else:
            ok = got == want
        if not ok:
            self.fail(f"{msg}: got {_show(got)[:600]} want {_show(want)[:600]}", key=key, **data)

    def raises(self, exc, fn, msg):
        self.count("assertions")
        try:
            fn()
        except exc:
            return True
        self.fail(msg)
        return False

    # --- generators
    def i(self, lo, hi):
        """Uniform integer in [lo, hi]."""
        return int(self.rng.integers(lo, hi + 1))

    def u(self, lo=0.0, hi=1.0):
        return float(self.rng.uniform(lo, hi))

    def p(self, prob):
        return bool(self.rng.random() < prob)

    def pick(self, *xs):
        return xs[int(self.rng.integers(len(xs)))]

    def perm(self, n):
        return [int(x) for x in self.rng.permutation(n)]

    def randn(self, *shape, dtype=None):
        import torch
        t = torch.randn(shape, generator=self.gen, dtype=torch.float64)
        return t.to(dtype or torch.float32)

    def rand(self, *shape, lo=0.0, hi=1.0, dtype=None):
        import torch
        t = torch.rand(shape, generator=self.gen, dtype=torch.float64) * (hi - lo) + lo
        return t.to(dtype or torch.float32)

    def randint(self, lo, hi, shape):
        import torch
        return torch.randint(lo, hi, shape, generator=self.gen)


_PID = None
_KNOWN = {}


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        for e in json.load(open(path)).get("findings", []):
            if e.get("status") == "known" and e["property"] == pid:
                out[(pid, e["key"])] = e["what"]
    return out


def run_case(mon, index, seed):
    """-> (case, None | (message, key, data))"""
    case = Case(mon, index, seed)
    try:
        mon.fn(case)
        return case, None
    except Violation as v:
        return case, (str(v), v.key, v.data)
    except (ImportError, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # an operation the property says works, raised
        tb = traceback.format_exc()
        key = None
        for (pid, k) in _KNOWN:
            if k.startswith("exc:") and k[4:] in tb:
                case.known.append((k, str(e)))
                return case, None
        return case, (f"unexpected {type(e).__name__}: {e}", key, {"traceback": tb[-3000:]})


CPU_LIMIT_S = 150.0


def _worker(wid, tasks, nxt, stop, cur, conn, seed, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if os.environ.get("VERIF_SAN"):  # keep each worker's sanitizer report
        from lib import native
        fd = os.open(native.san_log(os.getpid()), os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
        os.dup2(fd, 2)
    agg = dict(events={}, sigs={}, samples={}, cases=collections.Counter(), known={}, viols=[])
    err = None
    try:
        while not stop.value and time.time() < deadline:
            with nxt.get_lock():
                t = nxt.value
                nxt.value += 1
            if t >= len(tasks):
                break
            mon, idx = tasks[t]
            cur[wid] = t
            case, bad = run_case(mon, idx, seed)
            cur[wid] = -1
            n = mon.name
            agg["cases"][n] += 1
            ev = agg["events"].setdefault(n, collections.Counter())
            ev.update(case.events)
            agg["sigs"].setdefault(n, set()).update(case.sigs)
            s = agg["samples"].setdefault(n, [])
            if len(s) < 2:
                s.extend(case.samples)
            for k, m in case.known:
                agg["known"].setdefault(k, m)
            if bad:
                agg["viols"].append((t, n, idx) + bad)
                stop.value = 1
    except BaseException:
        err = traceback.format_exc()
        stop.value = 1
    cur[wid] = -2
    payload = pickle.dumps((agg, err))
    conn.send_bytes(payload)
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def _report(pid):
    if not os.environ.get("VERIF_SAN"):
        return ""
    from lib import native
    try:
        text = open(native.san_log(pid), errors="replace").read()
    except OSError:
        return ""
    lines = [l for l in text.splitlines() if l.strip()]
    first = next((k for k, l in enumerate(lines)
                  if "ERROR" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l), 0)
    keep = [l for l in lines[first:first + 60] if "/csrc/" in l or not l.lstrip().startswith("#")]
    return "\n".join(keep)[:5000]


def _cpu(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def execute(pid, monitors, tier, seed, nproc, deadline):
    tasks = []
    counts = {m.name: (m.quick if tier == "quick" else m.thorough) for m in monitors}
    # interleave so that every monitor makes progress before a deadline
    rounds = sorted(
        ((i / counts[m.name], k, m, i) for k, m in enumerate(monitors) for i in range(counts[m.name])),
        key=lambda r: (r[0], r[1]),
    )
    tasks = [(m, i) for _, _, m, i in rounds]
    ctx = mp.get_context("fork")
    nxt, stop = ctx.Value("q", 0), ctx.Value("i", 0)
    cur = ctx.Array("q", [-1] * nproc, lock=False)
    sys.stdout.flush()
    sys.stderr.flush()
    procs = []
    for w in range(nproc):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(w, tasks, nxt, stop, cur, s, seed, deadline))
        p.start()
        s.close()
        procs.append((p, r))
    total = dict(events={}, sigs={}, samples={}, cases=collections.Counter(), known={}, viols=[])
    errors = []
    open_ = dict(enumerate(procs))
    mark = {}
    while open_:
        for w, (p, r) in list(open_.items()):
            if r.poll(0.02):
                try:
                    agg, err = pickle.loads(r.recv_bytes())
                    total["cases"].update(agg["cases"])
                    for k in ("events", "samples", "sigs"):
                        for n, v in agg[k].items():
                            if k == "events":
                                total[k].setdefault(n, collections.Counter()).update(v)
                            elif k == "sigs":
                                total[k].setdefault(n, set()).update(v)
                            else:
                                total[k].setdefault(n, []).extend(v)
                    total["known"].update(agg["known"])
                    total["viols"].extend(agg["viols"])
                    if err:
                        errors.append(err)
                except EOFError:
                    p.join()
                    t = cur[w]
                    sig = -(p.exitcode or 0)
                    if t >= 0 and sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                                          signal.SIGFPE, signal.SIGILL) or (t >= 0 and p.exitcode == 99):
                        m, i = tasks[t]
                        rep = _report(p.pid)
                        total["viols"].append(
                            (t, m.name, i, f"the process running this case died: exit {p.exitcode}"
                             + (": " + rep[:1200] if rep else ""), "crash", {"report": rep}))
                    else:
                        errors.append(f"worker {w} ended with {p.exitcode} in task {t}")
                    stop.value = 1
                p.join()
                del open_[w]
                continue
            t = cur[w]
            if t >= 0:
                c = _cpu(p.pid)
                if mark.get(w, (None,))[0] != t:
                    mark[w] = (t, c, time.time())
                elif c - mark[w][1] > CPU_LIMIT_S:
                    m, i = tasks[t]
                    total["viols"].append(
                        (t, m.name, i, f"no progress: the case used {CPU_LIMIT_S:.0f} s of CPU time", "hang", {}))
                    p.kill()
                    cur[w] = -3
                    stop.value = 1
                elif time.time() - mark[w][2] > 400:
                    errors.append(f"watchdog: task {t} {tasks[t][0].name}[{tasks[t][1]}] did not end in 400 s")
                    p.kill()
                    cur[w] = -3
                    stop.value = 1
    return total, errors, counts


def main(pid, level, tier, seed, statement, rule, assumptions, replay=None, nproc=None,
         budget=None, extra=None):
    """Runs all MONITORS; returns the exit code."""
    global _PID, _KNOWN
    _PID = pid
    _KNOWN = load_known(pid)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if replay:
        r = json.load(open(replay))
        mon = next(m for m in MONITORS if m.name == r["monitor"])
        case, bad = run_case(mon, r["index"], r["seed"])
        if bad:
            print(bad[0])
            print(json.dumps(bad[2], indent=1)[:6000])
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        print("the case holds now")
        return 0
    only = os.environ.get("ONLY")
    mons = [m for m in MONITORS if not only or m.name in only.split(",")]
    nproc = nproc or int(os.environ.get("VERIF_PROCS", os.cpu_count() or 8))
    budget = budget or (240 if tier == "quick" else 1500)
    total, errors, counts = execute(pid, mons, tier, seed, nproc, t0 + budget)
    wall = time.time() - t0

    missing = []
    for m in mons:
        ev = total["events"].get(m.name, {})
        if not total["cases"].get(m.name):
            missing.append(f"{m.name}: no case ran")
        for e in m.need:
            if not ev.get(e):
                missing.append(f"{m.name}: never observed '{e}'")
    samples = []
    for m in mons:
        samples += total["samples"].get(m.name, [])[:2]
    nsig = sum(len(s) for s in total["sigs"].values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": int(sum(total["cases"].values())),
            "distinct_nontrivial": nsig,
            "rule": rule,
            "samples": samples[:16] or ["(none)"],
            "per_monitor": {
                m.name: {
                    "cases": total["cases"].get(m.name, 0), "planned": counts[m.name],
                    "distinct": len(total["sigs"].get(m.name, ())),
                    "observed": dict(total["events"].get(m.name, {})),
                } for m in mons
            },
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": len(total["viols"]),
    }
    if extra:
        ev["coverage"].update(extra)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, m in sorted(total["known"].items()):
        print(f"KNOWN-FINDING: property={pid} {_KNOWN.get((pid, k), k)}")
    if total["viols"]:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for t, name, idx, msg, key, data in sorted(total["viols"], key=lambda v: v[0]):
            if name in seen:
                continue
            seen.add(name)
            path = os.path.join(VERIF, "replays", f"{pid}-{name}-{idx}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, monitor=name, index=idx, seed=seed, message=msg,
                               key=key, data=data), f, indent=1)
            print(f"  {name}[{idx}]: {msg[:1500]}")
            if "traceback" in data:
                print(data["traceback"][-1500:])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("ERROR (inconclusive): " + errors[0][-3000:])
        return 2
    if missing and not only:
        print("INCONCLUSIVE: " + "; ".join(missing))
        return 2
    print(f"{pid}: held on {ev['coverage']['evaluations']} cases, {nsig} distinct situations, {wall:.1f}s")
    return 0
