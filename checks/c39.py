"""Checkpoints, resuming, running statistics and learning-rate schedules of the Implicitron trainer."""
import copy
import json
import math
import os
import shutil
import signal
import tempfile
import time
import unittest.mock
import warnings

import numpy as np
import torch
from omegaconf import ListConfig

from lib.harness import monitor

TECHNIQUE = ("runtime monitoring with fault injection: real training loops are stopped after random epochs, inside epochs, or while writing a checkpoint (exceptions and SIGKILL), restarted through the real factories, and the "
             "resumed model, optimizer, statistics, schedule and files are compared with those recorded in an uninterrupted run; statistics are compared with an independent log")
RULE = "training histories x stops (after an epoch, inside an epoch, while saving) x resume choices x optimizers x schedules x purge settings; distinct = distinct configurations"
ASSUMPTIONS = ["statistics of a set which was not logged in the stored epoch are replaced by NaN on resume, as the trainer's log message says; only complete ones are compared",
               "a stored checkpoint whose age equals store_checkpoints_purge may be kept or removed (the two doc strings disagree)", "the trainer runs without an accelerator on the CPU"]

M = None


def mods():
    global M
    if M is None:
        import logging
        import types as ty
        logging.disable(logging.CRITICAL)
        warnings.simplefilter("ignore")
        from pytorch3d.implicitron.models.base_model import ImplicitronModelBase
        from pytorch3d.implicitron.tools import model_io, stats
        from pytorch3d.implicitron.tools.config import expand_args_fields, registry

        @registry.register
        class VerifToyModel(ImplicitronModelBase):
            width: int = 3

            def __post_init__(self):
                self.a = torch.nn.Linear(2, self.width)
                self.b = torch.nn.Linear(self.width, 1)
                self.param_groups = {"b": "slow"}
                self.register_buffer("seen", torch.zeros(()))
                self.calls, self.bomb, self.journal = 0, None, []

            def forward(self, *, x, y, evaluation_mode=None, **kwargs):
                if self.bomb is not None and self.calls == self.bomb:
                    raise RuntimeError("bomb")
                self.calls += 1
                noise = 0.01 * torch.randn(()) + 0.01 * float(np.random.rand()) if self.training else 0.0
                if self.training:
                    self.seen += 1
                out = self.b(torch.tanh(self.a(x)))
                loss = ((out - y) ** 2).mean() + noise
                self.journal.append((self.training, float(loss.detach())))
                return {"objective": loss, "pair": torch.stack([loss.detach(), loss.detach() * 2])}

        from projects.implicitron_trainer.impl import model_factory, optimizer_factory, training_loop
        for k in (model_factory.ImplicitronModelFactory, optimizer_factory.ImplicitronOptimizerFactory, training_loop.ImplicitronTrainingLoop):
            expand_args_fields(k)
        M = ty.SimpleNamespace(io=model_io, Stats=stats.Stats, Meter=stats.AverageMeter, MF=model_factory.ImplicitronModelFactory, OF=optimizer_factory.ImplicitronOptimizerFactory, TL=training_loop.ImplicitronTrainingLoop)
    return M


class Batch(dict):
    def to(self, device):
        return self


class Loader:
    """Shuffled batches drawn from torch's global generator."""

    def __init__(self, x, y, bs):
        self.x, self.y, self.bs = x, y, bs

    def __len__(self):
        return -(-len(self.x) // self.bs)

    def __iter__(self):
        order = torch.randperm(len(self.x))
        for a in range(0, len(order), self.bs):
            i = order[a:a + self.bs]
            yield Batch(x=self.x[i], y=self.y[i])


def schedule(o, epoch):
    """Factor of the learning rate at the given epoch."""
    if o["lr_policy"].lower() == "multisteplr":
        return o["gamma"] ** sum(m <= epoch for m in o["multistep_lr_milestones"])
    if o["lr_policy"].lower() == "exponential":
        return o["gamma"] ** (epoch / o["exponential_lr_step_size"])
    m = o["linear_exponential_lr_milestone"]
    if epoch < m:
        return o["linear_exponential_start_gamma"] + (1 - o["linear_exponential_start_gamma"]) * epoch / m
    return o["gamma"] ** ((epoch - m) / o["exponential_lr_step_size"])


def optimizer_options(c, n):
    return {"breed": c.pick("Adam", "SGD", "Adagrad"), "lr": c.pick(0.01, 0.05), "gamma": c.pick(0.1, 0.5, 0.9), "lr_policy": c.pick("MultiStepLR", "MultiStepLR", "multisteplr", "Exponential", "LinearExponential"),
            "multistep_lr_milestones": tuple(sorted(c.i(0, n) for _ in range(c.i(0, 3)))), "exponential_lr_step_size": c.i(1, 5), "linear_exponential_lr_milestone": c.i(1, 4),
            "linear_exponential_start_gamma": c.pick(0.1, 0.5), "weight_decay": c.pick(0.0, 0.01), "momentum": c.pick(0.0, 0.9), "group_learning_rates": {"slow": c.pick(0.001, 0.02)}, "foreach": c.pick(True, False)}


class Tap:
    """Stands in for the scheduler and records the training state after every epoch."""

    def __init__(self, sched, model, opt, snaps):
        self.s, self.model, self.opt, self.snaps = sched, model, opt, snaps

    last_epoch = property(lambda self: self.s.last_epoch)

    def get_last_lr(self):
        return self.s.get_last_lr()

    def step(self):
        self.s.step()
        self.snaps[self.s.last_epoch - 1] = (copy.deepcopy(self.model.state_dict()), copy.deepcopy(self.opt.state_dict()), [g["lr"] for g in self.opt.param_groups])


class Trainer:
    def __init__(self, c, conf, exp_dir, init, max_epochs, resume=True, resume_epoch=-1, force=False, purge=None, store=True):
        m = mods()
        self.c, self.conf, self.dir, self.snaps = c, conf, exp_dir, {}
        torch.manual_seed(init)
        self.factory = m.MF(model_class_type="VerifToyModel", model_VerifToyModel_args={"width": conf["width"]}, resume=resume, resume_epoch=resume_epoch, force_resume=force)
        self.fresh = copy.deepcopy(self.factory.model.state_dict())
        self.model = self.factory(exp_dir=exp_dir)
        self.loop = m.TL(max_epochs=max_epochs, store_checkpoints=store, store_checkpoints_purge=conf["purge"] if purge is None else purge, validation_interval=conf["val"], clip_grad=conf["clip"], visualize_interval=0,
                         metric_print_interval=conf["print"], evaluator_class_type=None, visdom_server="None")
        self.stats = self.loop.load_stats(log_vars=ListConfig(conf["log"]) if c.p(0.3) else list(conf["log"]), exp_dir=exp_dir, resume=resume, resume_epoch=resume_epoch)
        self.stats.do_plot = False
        self.start = self.stats.epoch + 1
        self.opt, self.sched = m.OF(**conf["opt"])(last_epoch=self.start, model=self.model, exp_dir=exp_dir, resume=resume, resume_epoch=resume_epoch)

    def run(self):
        x, y = self.conf["data"]
        val = self.conf["valdata"]
        self.loop.run(train_loader=Loader(x, y, self.conf["bs"]), val_loader=val and Loader(*val, self.conf["bs"]), test_loader=None, train_dataset=None, model=self.model, optimizer=self.opt,
                      scheduler=Tap(self.sched, self.model, self.opt, self.snaps), accelerator=None, device=torch.device("cpu"), exp_dir=self.dir, stats=self.stats, seed=self.conf["seed"])


def same(a, b, rtol=1e-6, atol=1e-12):
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.shape == b.shape and a.dtype == b.dtype and torch.allclose(a.double(), b.double(), rtol=rtol, atol=1e-9, equal_nan=True)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return (a is None) == (b is None) and (a is None or math.isclose(a, b, rel_tol=rtol, abs_tol=atol) or (math.isnan(a) and math.isnan(b)))
    return a == b


def epochs_in(d):
    got = {}
    for f in os.listdir(d):
        if f.startswith("model_epoch_"):
            e = int(f[12:20])
            got.setdefault(e, set()).add(f[20:])
    return got


def hist(stats, s, v):
    return [list(x) for x in stats.stats[s][v].history] if s in stats.stats and v in stats.stats[s] else None


@monitor(quick=120, thorough=5000, need=("resume", "inside_epoch", "while_saving", "after_epoch", "requested_epoch", "from_scratch", "purged", "kept_all", "lr_decayed", "momentum", "final"))
def training_runs(c):
    n = c.i(2, 6)
    k = c.i(3, 7)
    conf = {"width": c.i(1, 4), "purge": c.pick(-1, 0, 1, 1, 2, 3), "val": c.pick(1, 1, 2), "clip": 0.0, "print": c.i(1, 3), "log": ["objective", "sec/it"] + (["pair"] if c.p(0.5) else []), "opt": optimizer_options(c, n),
            "data": (c.randn(k, 2), c.randn(k, 1)), "valdata": (c.randn(3, 2), c.randn(3, 1)) if c.p(0.6) else None, "bs": c.i(1, 4), "seed": c.i(0, 1000)}
    data = {"epochs": n, **{a: str(b) for a, b in conf.items()}}
    c.sig(conf["opt"]["breed"], conf["opt"]["lr_policy"], conf["opt"]["multistep_lr_milestones"], conf["purge"], conf["val"], n)
    root = tempfile.mkdtemp(prefix="vc39")
    try:
        # the uninterrupted run
        os.makedirs(os.path.join(root, "a"))
        ref = Trainer(c, conf, os.path.join(root, "a"), 1, n, purge=-1)
        if not same(ref.model.state_dict(), ref.fresh) or ref.start != 0:
            c.fail("a run in an empty directory does not start from scratch", start=ref.start, **data)
        ref.run()
        if sorted(epochs_in(ref.dir)) != list(range(n)) or any(v != {".pth", "_opt.pth", "_stats.jgz"} for v in epochs_in(ref.dir).values()):
            c.fail("not every epoch left a complete checkpoint", got=str(epochs_in(ref.dir)), **data)
        check_log(c, ref, n, data)
        for e in range(n):
            lrs = ref.snaps[e][2]
            want = [conf["opt"]["lr"] * schedule(conf["opt"], e + 1), conf["opt"]["group_learning_rates"]["slow"] * schedule(conf["opt"], e + 1)]
            if not same(sorted(lrs), sorted(want)):
                c.fail("learning rate is not on its schedule", epoch=e + 1, got=lrs, want=want, **data)
        # the interrupted one
        d = os.path.join(root, c.pick("b", "b [1] x", "b.c"))
        os.makedirs(d)
        done, init, stops = -1, 2, 0
        first = True
        while done < n - 1:
            stops += 1
            what = c.pick("after_epoch", "after_epoch", "inside_epoch", "while_saving") if stops < 5 else "after_epoch"
            target = c.i(done + 2, n) if stops < 5 else n
            ask = -1
            have = sorted(epochs_in(d))
            if not first and c.p(0.25) and any(e > 0 for e in have):
                ask = c.pick(*[e for e in have if e > 0])
                done = ask
                target = max(target, done + 2) if done < n - 1 else n
                c.count("requested_epoch")
            # epoch 0 of the first process starts from the reference's initial weights, every other process from others
            t = Trainer(c, conf, d, 1 if done < 0 else init, min(target, n), resume_epoch=ask, force=not first and done >= 0 and c.p(0.3))
            init += 1
            first = False
            if t.start != done + 1:
                c.fail("resumed at another epoch", got=t.start, want=done + 1, stop=what, **data)
            if done >= 0:
                c.count("resume")
                ms, os_, lrs = ref.snaps[done]
                if not same(t.model.state_dict(), ms):
                    c.fail("the resumed model differs from the stored one", epoch=done, got=t.model.state_dict(), want=ms, **data)
                if same(t.fresh["a.weight"], ms["a.weight"]):
                    c.fail("the comparison would be vacuous")
                if not same(t.opt.state_dict()["state"], os_["state"]):
                    c.fail("the resumed optimizer state differs from the stored one", epoch=done, **data)
                if os_["state"]:
                    c.count("momentum")
                got = [g["lr"] for g in t.opt.param_groups]
                if not same(got, lrs) or not same(list(t.sched.get_last_lr()), lrs) or t.sched.last_epoch != done + 1:
                    c.fail("the learning rate after resuming is not where it stopped", epoch=done + 1, got=got, want=lrs, **data)
                if schedule(conf["opt"], done + 1) != 1:
                    c.count("lr_decayed")
                for s in ("train", "val"):
                    for v in conf["log"]:
                        if v == "sec/it":
                            continue
                        want = hist(ref.stats, s, v)
                        if want is None or (s == "val" and conf["val"] != 1):
                            continue
                        if not same(hist(t.stats, s, v), want[: done + 1]):
                            c.fail("resumed statistics differ from the logged ones", set=s, var=v, got=hist(t.stats, s, v), want=want[: done + 1], **data)
            else:
                c.count("from_scratch")
            if c.p(0.15) and done >= 0:
                # not resuming ignores what is stored
                f = Trainer(c, conf, d, 77, n, resume=False)
                if f.start != 0 or not same(f.model.state_dict(), f.fresh) or any(float(v.get('step', 0)) for v in f.opt.state_dict()["state"].values()):
                    c.fail("resume=False did not start from scratch", start=f.start, **data)
            before = epochs_in(d)
            patch = None
            if what == "inside_epoch":
                per = len(Loader(*conf["data"], conf["bs"]))
                t.model.bomb = c.i(0, per * (min(target, n) - done - 1))
            elif what == "while_saving":
                real, left = torch.save, [c.i(0, 2 * (min(target, n) - done - 1))]

                def broken(obj, f, *a, **kw):
                    if left[0] == 0:
                        with open(f, "wb") as h:
                            h.write(b"PK half a file")
                        raise OSError("No space left on device")
                    left[0] -= 1
                    return real(obj, f, *a, **kw)
                patch = unittest.mock.patch("torch.save", broken)
            stopped = False
            try:
                if patch:
                    with patch:
                        t.run()
                else:
                    t.run()
            except (RuntimeError, OSError) as e:
                if "bomb" not in str(e) and "No space" not in str(e):
                    raise
                stopped = True
                c.count(what)
            if not stopped:
                c.count("after_epoch")
                done = min(target, n) - 1
            else:
                done = max([done] + list(t.snaps))
            have = epochs_in(d)
            if any(v != {".pth", "_opt.pth", "_stats.jgz"} for v in have.values()):
                c.fail("an incomplete checkpoint is left behind", got=str(have), stop=what, **data)
            # (earlier epochs may have been requested, so later checkpoints of a previous process can exist)
            if done >= 0 and done not in have:
                c.fail("the checkpoint of the last complete epoch is missing", got=sorted(have), want=done, stop=what, **data)
            P = conf["purge"]
            top = max(list(t.snaps) + [-1])
            if P < 0:
                c.count("kept_all")
                if set(have) != set(before) | set(t.snaps):
                    c.fail("checkpoints were purged although purging is off", got=sorted(have), before=sorted(before), **data)
            elif P > 0 and top >= 0:
                reach = top + (1 if stopped and what == "while_saving" else 0)
                for e in set(before) | set(t.snaps):
                    if e in have and e < top - P:
                        c.fail("an old checkpoint was not purged", got=sorted(have), purge=P, last=top, **data)
                    if e not in have:
                        c.count("purged")
                        if e > reach - P:
                            c.fail("a recent checkpoint was purged", got=sorted(have), missing=e, purge=P, last=top, **data)
            if max(have, default=-1) > done:
                # a later checkpoint of an earlier process: the next plain resume takes the newest one
                newest = max(have)
                m = mods()
                if m.io.parse_epoch_from_model_path(m.io.find_last_checkpoint(d)) != newest:
                    c.fail("the newest checkpoint is not found", got=m.io.find_last_checkpoint(d), want=newest)
                done = newest
        c.count("final")
        t = Trainer(c, conf, d, 99, n)
        ms, os_, lrs = ref.snaps[n - 1]
        if t.start != n or not same(t.model.state_dict(), ms) or not same(t.opt.state_dict()["state"], os_["state"]):
            c.fail("interrupted and uninterrupted training end with different states", start=t.start, got=t.model.state_dict(), want=ms, **data)
        if not same([g["lr"] for g in t.opt.param_groups], lrs):
            c.fail("interrupted and uninterrupted training end with different learning rates", got=[g["lr"] for g in t.opt.param_groups], want=lrs, **data)
    finally:
        shutil.rmtree(root)


def check_log(c, t, n, data):
    """Statistics of a run against what the model itself recorded."""
    j = list(t.model.journal)
    per = len(Loader(*t.conf["data"], t.conf["bs"]))
    for e in range(n):
        mine = [j.pop(0) for _ in range(per)]
        want = float(np.mean([v for _, v in mine]))
        avg = t.stats.stats["train"]["objective"].get_epoch_averages(e)
        if not all(tr for tr, _ in mine) or not same(avg, want):
            c.fail("the epoch average is not the mean of the logged losses", epoch=e, got=avg, want=want, **data)
        if "pair" in t.conf["log"]:
            avg = t.stats.stats["train"]["pair"].get_epoch_averages(e)
            if not same(avg, 3 * want):
                c.fail("the epoch average of a tensor is not the mean of its sums", epoch=e, got=avg, want=3 * want, **data)
        if t.conf["valdata"] and e % t.conf["val"] == 0:
            mine = [j.pop(0) for _ in range(len(Loader(*t.conf["valdata"], t.conf["bs"])))]
            avg = t.stats.stats["val"]["objective"].get_epoch_averages(e)
            if any(tr for tr, _ in mine) or not same(avg, float(np.mean([v for _, v in mine]))):
                c.fail("the validation average is not the mean of the logged losses", epoch=e, got=avg, **data)
    if j:
        c.fail("the model was run more often than epochs and loaders ask for", rest=len(j), **data)


@monitor(quick=1200, thorough=60000, need=("reloaded", "status", "all_epochs", "frozen", "missing_value", "added", "synchronized", "tensor", "not_finite"))
def statistics(c):
    """Stats against an independent log, through saves and loads."""
    m = mods()
    names = ["objective", "loss_rgb_mse", "prev_stage_depth", "x"]
    log = names[: c.i(1, 4)]
    s = m.Stats(list(log), do_plot=False)
    book = {}       # set -> var -> epoch -> values
    it = {}
    epoch = -1
    d = tempfile.mkdtemp(prefix="vc39")
    hist_ops = []
    try:
        for _ in range(c.i(3, 25)):
            op = c.pick("update", "update", "update", "update", "epoch", "save", "query", "add", "sync")
            hist_ops.append(op)
            if op == "update":
                st = c.pick("train", "val")
                if epoch < 0:
                    epoch = 0
                frozen = c.p(0.15) and st in it
                it[st] = it.get(st, -1) + (0 if frozen else 1)
                if frozen:
                    c.count("frozen")
                preds = {}
                for v in names:
                    if c.p(0.15):
                        c.count("missing_value")
                        continue
                    kind = c.i(0, 3)
                    if kind == 0:
                        val = c.u(-5, 5)
                        preds[v], want = val, val
                    elif kind == 1:
                        t = c.randn(c.i(1, 3), c.i(1, 3)).requires_grad_(c.p(0.5))
                        preds[v], want = t, float(t.detach().sum())
                        c.count("tensor")
                    elif kind == 2:
                        t = torch.tensor(c.u(-5, 5), dtype=torch.float64)
                        preds[v], want = t, float(t)
                    else:
                        want = c.pick(float("nan"), float("inf"), 3.0, 0.0)
                        preds[v] = c.pick(want, torch.tensor(want))
                        if not math.isfinite(want):
                            c.count("not_finite")
                    if v in log:
                        book.setdefault(st, {}).setdefault(v, {}).setdefault(epoch, []).append(want)
                book.setdefault(st, {})
                s.update({**preds, "other": object()}, stat_set=st, freeze_iter=frozen)
            elif op == "epoch":
                epoch += 1
                if c.p(0.5):
                    s.new_epoch()
                else:
                    with s:
                        pass
                it = {k: -1 for k in it}
            elif op == "save":
                p = os.path.join(d, c.pick("x", "y.jgz", "z.w"))
                s.save(p)
                s = m.Stats.load(p) if c.p(0.7) else m.io.load_stats(p if p.endswith(".jgz") else p + ".jgz")
                c.count("reloaded")
            elif op == "add":
                more = [names[c.i(0, 3)] for _ in range(c.i(1, 2))]
                s.add_log_vars(more)
                log = log + [x for x in dict.fromkeys(more) if x not in log]
                if list(s.log_vars) != log:
                    c.fail("add_log_vars: logged variables", got=s.log_vars, want=log, added=more)
                c.count("added")
            elif op == "sync":
                log = [names[i] for i in c.perm(4)][: c.i(1, 4)]
                s.synchronize_logged_vars(list(log))
                c.count("synchronized")
                nan = float("nan")
                for st in book:
                    old = book[st]
                    book[st] = {}
                    for v in log:
                        hmax = max(old[v], default=-1) if v in old else -1
                        if v in old and hmax == epoch:
                            book[st][v] = old[v]
                        elif v in old and old[v]:
                            book[st][v] = {e: [nan] for e in range(epoch + 1)}      # documented: incomplete statistics are reset
                        elif v not in s.stats[st]:
                            c.fail("synchronize_logged_vars lost a variable", var=v)
                        elif s.stats[st][v].history:
                            book[st][v] = {e: [nan] for e in range(epoch + 1)}
                    if set(s.stats[st]) != set(log):
                        c.fail("synchronized statistics hold other variables", got=list(s.stats[st]), want=log)
            compare(c, s, book, it, epoch, log, hist_ops)
        c.sig(len(log), tuple(hist_ops[:8]))
    finally:
        shutil.rmtree(d)


def mean(x):
    return float(np.mean(np.asarray(x, dtype=np.float64))) if len(x) else float("nan")


def compare(c, s, book, it, epoch, log, ops):
    if s.epoch != epoch:
        c.fail("epoch counter", got=s.epoch, want=epoch, ops=ops)
    if set(s.stats) != set(book):
        c.fail("statistic sets", got=list(s.stats), want=list(book), ops=ops)
    for st in book:
        if s.it[st] != it[st]:
            c.fail("iteration counter", got=s.it[st], want=it[st], ops=ops)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = s.get_epoch_averages()
        for st in book:
            for v, eps in book[st].items():
                meter = s.stats[st][v]
                top = max(eps, default=-1)
                h = meter.get_epoch_averages()
                want = [mean(eps.get(e, [])) for e in range(top + 1)]
                if (h is None) != (top < 0) or (h is not None and not same(list(h), want, 1e-5, 1e-5)):
                    c.fail("epoch averages of a variable", set=st, var=v, got=h, want=want, ops=ops)
                if top >= 0:
                    allv = meter.get_all_values().tolist()
                    if not same(allv, [float(x) for e in range(top + 1) for x in eps.get(e, [])], 1e-5, 1e-5):
                        c.fail("logged values", set=st, var=v, got=allv, ops=ops)
                cur = eps.get(epoch, [])
                if cur and it[st] >= 0:
                    if v not in got[st] or not same(got[st][v], mean(cur), 1e-5, 1e-5):
                        c.fail("average over the current epoch", set=st, var=v, got=got[st].get(v), want=mean(cur), ops=ops)
                    e = c.i(0, epoch)
                    if not same(s.get_epoch_averages(e)[st].get(v), mean(eps.get(e, [])), 1e-5, 1e-5):
                        c.fail("average over a given epoch", set=st, var=v, epoch=e, got=s.get_epoch_averages(e)[st].get(v), want=mean(eps.get(e, [])), ops=ops)
                    if epoch > 0:
                        c.count("all_epochs")
                        a = s.get_epoch_averages(-1)[st]
                        if list(a["epoch"]) != list(range(epoch)) or not same(list(a[v]), [mean(eps.get(e, [])) for e in range(epoch)], 1e-5, 1e-5):
                            c.fail("averages over all finished epochs", set=st, var=v, got=a, ops=ops)
            if st in it and it[st] >= 0:
                c.count("status")
                line = s.get_status_string(stat_set=st, max_it=9)
                if f"[{st}] | epoch {epoch:3d} | it {it[st]:5d}/ 9" not in line:
                    c.fail("status line", got=line, ops=ops)
                for v, eps in book[st].items():
                    cur = eps.get(epoch, [])
                    if cur and not math.isnan(mean(cur)) and s.stats[st][v].count == len(cur):
                        name = f" {v.replace('loss_', '').replace('prev_stage_', 'ps_'):.12}: "
                        part = line.split(name)
                        if len(part) < 2 or abs(float(part[1].split(" |")[0]) - mean(cur)) > 0.00051 + 1e-6 * abs(mean(cur)):
                            if not (len(part) > 1 and math.isinf(mean(cur)) and float(part[1].split(" |")[0]) == mean(cur)):
                                c.fail("status line value", var=v, got=line, want=mean(cur), ops=ops)


@monitor(quick=600, thorough=20000, need=("latest", "none", "listed", "any_path", "purged", "roundtrip", "no_optimizer", "no_stats", "bystander"))
def files(c):
    """Checkpoint names, lookup, purging and a save/load round trip."""
    m = mods()
    io = m.io
    root = tempfile.mkdtemp(prefix="vc39")
    d = os.path.join(root, c.pick("exp", "exp.v2", "a[0-9]b", "sp ace*", "model_epoch_00000009.pth"))
    os.makedirs(d)
    try:
        kinds = [".pth", "_opt.pth", "_stats.jgz"]
        have = {}
        only = c.pick(None, None, "_opt.pth", "_stats.jgz")
        for e in {c.pick(c.i(0, 12), c.i(0, 99999999)) for _ in range(c.i(0, 6))}:
            have[e] = [k for k in kinds if (c.p(0.7) if only is None else k == only or (k != ".pth" and c.p(0.5)))]
            for k in have[e]:
                open(os.path.join(d, f"model_epoch_{e:08d}{k}"), "w").close()
            if io.get_checkpoint(d, e) != os.path.join(d, f"model_epoch_{e:08d}.pth") or io.parse_epoch_from_model_path(io.get_checkpoint(d, e)) != e:
                c.fail("checkpoint name", got=io.get_checkpoint(d, e), epoch=e)
        others = ["model_epoch_000000012.pth", "model_epoch_00000099.pth.tmp", "best_model_epoch_00000099.pth", "model_epoch_xxxxxxxx.pth", "notes.txt", "model_epoch_00000003.json"]
        others = [o for o in others if c.p(0.4)]
        for o in others:
            open(os.path.join(d, o), "w").close()
            c.count("bystander")
        os.makedirs(os.path.join(d, "sub"))
        open(os.path.join(d, "sub", "model_epoch_99999999.pth"), "w").close()
        c.sig(tuple(sorted((e > 12, tuple(v)) for e, v in have.items())), tuple(others), os.path.basename(d))

        def expect(any_path):
            for k in kinds[:1] if not any_path else [".pth", "_stats.jgz", "_opt.pth"]:
                es = sorted(e for e in have if k in have[e])
                if es:
                    return es
            return []
        for any_path in (False, True):
            es = expect(any_path)
            got = io.find_last_checkpoint(d, any_path=any_path)
            c.count("none" if not es else "any_path" if any_path else "latest")
            want = os.path.join(d, f"model_epoch_{es[-1]:08d}.pth") if es else None
            if got != want:
                c.fail("find_last_checkpoint", any_path=any_path, got=got, want=want, have=have)
            got = io.find_last_checkpoint(d, any_path=any_path, all_checkpoints=True)
            want = [os.path.join(d, f"model_epoch_{e:08d}.pth") for e in es] or None
            if got != want:
                c.fail("find_last_checkpoint(all_checkpoints=True)", any_path=any_path, got=got, want=want, have=have)
            c.count("listed")
        # a stored model comes back, next to whatever is there
        e = c.i(0, 20)
        torch.manual_seed(c.i(0, 10**6))
        net = torch.nn.Sequential(torch.nn.Linear(2, 3), torch.nn.BatchNorm1d(3))
        opt = torch.optim.Adam(net.parameters(), lr=0.1) if c.p(0.7) else None
        if opt is None:
            c.count("no_optimizer")
        net(c.randn(4, 2)).pow(2).sum().backward()
        if opt:
            opt.step()
        st = m.Stats(["objective"], do_plot=False)
        st.new_epoch()
        st.update({"objective": c.u(0, 1)})
        fl = io.get_checkpoint(d, e)
        if opt is None and os.path.isfile(io.get_optimizer_path(fl)):
            os.remove(io.get_optimizer_path(fl))
        if c.p(0.5):
            io.safe_save_model(net, st, fl, optimizer=opt)
        else:
            io.save_model(net, st, fl, optimizer=opt)
        have[e] = [".pth", "_stats.jgz"] + (["_opt.pth"] if opt else [])
        if c.p(0.2):
            os.remove(io.get_stats_path(fl))
            have[e].remove("_stats.jgz")
            c.count("no_stats")
        now = sorted(os.listdir(d))
        want = sorted(others + ["sub"] + [f"model_epoch_{a:08d}{k}" for a in have for k in have[a]])
        if now != want:
            c.fail("saving left other files than the checkpoint", got=now, want=want)
        c.count("roundtrip")
        ms, s2, os_ = io.load_model(fl, map_location=c.pick(None, {}))
        if not same(dict(ms), dict(net.state_dict()), 0) or (s2 is None) != ("_stats.jgz" not in have[e]) or (s2 is not None and (s2.epoch != st.epoch or hist(s2, "train", "objective") != hist(st, "train", "objective"))):
            c.fail("a saved model or its statistics do not come back")
        if (os_ is None) != (opt is None) or (opt and not same(os_, opt.state_dict(), 0)):
            c.fail("the optimizer state does not come back")
        # purging an epoch removes its files and nothing else
        e = c.pick(*(list(have) + [c.i(0, 99)]))
        io.purge_epoch(d, e)
        have.pop(e, None)
        c.count("purged")
        now = sorted(os.listdir(d))
        want = sorted(others + ["sub"] + [f"model_epoch_{a:08d}{k}" for a in have for k in have[a]])
        if now != want or os.listdir(os.path.join(d, "sub")) != ["model_epoch_99999999.pth"]:
            c.fail("purging an epoch", epoch=e, got=now, want=want)
    finally:
        shutil.rmtree(root)


@monitor(quick=48, thorough=1500, need=("killed", "complete_file", "before", "previous_intact"))
def killed_while_saving(c):
    """A process killed at a random moment of saving leaves no half-written model file and does not touch earlier ones."""
    m = mods()
    root = tempfile.mkdtemp(prefix="vc39", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) and c.p(0.8) else None)
    try:
        net = torch.nn.Linear(1500, 1000)
        opt = torch.optim.SGD(net.parameters(), lr=0.1, momentum=0.9)
        net.weight.grad = torch.ones_like(net.weight)
        opt.step()
        st = m.Stats(["objective"], do_plot=False)
        st.new_epoch()
        st.update({"objective": 1.0})
        m.io.safe_save_model(net, st, m.io.get_checkpoint(root, 0), optimizer=opt)
        first = {f: open(os.path.join(root, f), "rb").read() for f in os.listdir(root)}
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                tempfile.tempdir = None
                os.write(w, b"x")
                for e in range(1, 1000):
                    m.io.safe_save_model(net, st, m.io.get_checkpoint(root, e), optimizer=opt)
                    m.io.purge_epoch(root, e - 2 if e > 2 else 10**7)
            finally:
                os._exit(1)
        os.close(w)
        os.read(r, 1)
        os.close(r)
        time.sleep(c.u(0.0, 0.12))
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        c.count("killed")
        c.sig(c.index)
        got = [f for f in os.listdir(root) if f.startswith("model_epoch_")]
        new = [f for f in got if f not in first]
        if not new:
            c.count("before")
        for f in first:
            if f not in got or open(os.path.join(root, f), "rb").read() != first[f]:
                c.fail("an interrupted save damaged an earlier checkpoint", file=f)
            c.count("previous_intact")
        for f in new:
            p = os.path.join(root, f)
            try:
                if f.endswith(".jgz"):
                    ok = m.Stats.load(p).epoch == 0
                elif f.endswith("_opt.pth"):
                    ok = same(torch.load(p, weights_only=True), opt.state_dict(), 0)
                else:
                    ok = same(dict(torch.load(p, weights_only=True)), dict(net.state_dict()), 0)
            except Exception as e:
                c.fail("a process killed while saving left a half-written file under its final name", file=f, size=os.path.getsize(p), error=repr(e)[:300])
            if not ok:
                c.fail("a file left by a killed process holds something else", file=f)
            c.count("complete_file")
    finally:
        shutil.rmtree(root)
        # what the killed process left in the temporary directory
        for f in os.listdir(tempfile.gettempdir()):
            p = os.path.join(tempfile.gettempdir(), f)
            if f.startswith("tmp") and os.path.isdir(p) and any(x.startswith("model_epoch_") for x in os.listdir(p)) and time.time() - os.path.getmtime(p) > 20:
                shutil.rmtree(p, ignore_errors=True)


class Node(torch.nn.Module):
    pass


@monitor(quick=800, thorough=30000, need=("self", "member", "parameter", "recursive", "recursive_self", "frozen", "default", "unknown_group", "rates"))
def parameter_groups(c):
    """Learning rates of parameters in module trees with group assignments; schedules entered at any epoch."""
    m = mods()
    rates = {"g1": 0.5, "g2": 0.25, "g3": 0.125}
    mods_, params = [], []

    def build(path, depth):
        mod = Node()
        node = {"path": path, "mod": mod, "holder": True}
        mods_.append(node)
        for j in range(c.i(0, 2)):
            name = c.pick("w", "x", "child") + str(j)
            p = torch.nn.Parameter(torch.zeros(1), requires_grad=c.p(0.85))
            mod.register_parameter(name, p)
            params.append((path + (name,), p))
        for j in range(c.i(0, 2) if depth < 3 else 0):
            name = c.pick("a", "ab", "sub") + str(j)
            if c.p(0.3):
                lin = torch.nn.Linear(1, 1, bias=c.p(0.5))
                mod.add_module(name, lin)
                mods_.append({"path": path + (name,), "mod": lin, "holder": False})
                params.extend((path + (name, k), p) for k, p in lin.named_parameters())
            else:
                mod.add_module(name, build(path + (name,), depth + 1))
        return mod
    root = build((), 0)
    if not any(p.requires_grad for _, p in params):
        p = torch.nn.Parameter(torch.zeros(1))
        root.register_parameter("last", p)
        params.append((("last",), p))
    holders = {n["path"]: n["mod"] for n in mods_ if n["holder"]}
    chosen = {}
    for target in [n["path"] for n in mods_] + [p for p, _ in params]:
        if not c.p(0.35):
            continue
        g = c.pick("g1", "g2", "g3", "default")
        is_mod = any(n["path"] == target for n in mods_)
        ups = [h for h in holders if h == target[: len(h)] and (h != target or is_mod)]
        if not ups:
            continue
        h = c.pick(*ups)
        rel = target[len(h):]
        if not rel:
            key = "self"
            c.count("self")
        else:
            key = ".".join(rel)
            if is_mod and c.p(0.25):
                key += ".self"
                c.count("recursive_self")
            else:
                c.count("recursive" if len(rel) > 1 else "member" if is_mod else "parameter")
        pg = holders[h].__dict__.setdefault("param_groups", {})
        if key in pg:
            continue
        pg[key] = g
        chosen[target] = g
    want = {}
    for path, p in params:
        g = "default"
        for k in range(len(path) + 1):
            g = chosen.get(path[:k], g)
        want[path] = g
    data = {"assignments": {".".join(h) or "<root>": getattr(x, "param_groups", None) for h, x in holders.items()}, "want": {".".join(k): v for k, v in want.items()}}
    used = {g for (path, g), (_, p) in zip(want.items(), params) if p.requires_grad}
    o = optimizer_options(c, 6)
    o["group_learning_rates"] = dict(rates)
    if used - {"default"} and c.p(0.1):
        o["group_learning_rates"].pop(c.pick(*sorted(used - {"default"})))
        c.count("unknown_group")
        c.raises(ValueError, lambda: m.OF(**o)(last_epoch=0, model=root), "a group without a learning rate was accepted")
        return
    last = c.i(0, 12)
    opt, sched = m.OF(**o)(last_epoch=last, model=root)
    c.count("rates")
    c.sig(len(params), tuple(sorted(chosen.values())), last, o["lr_policy"])
    got = {}
    for grp in opt.param_groups:
        for p in grp["params"]:
            if id(p) in got:
                c.fail("a parameter is optimised twice", **data)
            got[id(p)] = grp["lr"]
    f = schedule(o, last)
    for path, p in params:
        if not p.requires_grad:
            c.count("frozen")
            if id(p) in got:
                c.fail("a frozen parameter is optimised", path=path, **data)
            continue
        lr = o["lr"] if want[path] == "default" else rates[want[path]]
        if want[path] == "default":
            c.count("default")
        if id(p) not in got or not same(got.pop(id(p)), lr * f):
            c.fail("a parameter has the learning rate of another group or epoch", path=path, epoch=last, rate=lr * f, group=want[path], options=o, **data)
    if got:
        c.fail("foreign parameters are optimised", **data)
    if type(opt).__name__ != o["breed"] or any(g["weight_decay"] != o["weight_decay"] for g in opt.param_groups):
        c.fail("optimizer options", got=type(opt).__name__, want=o["breed"])
    for k in range(3):
        opt.step()
        sched.step()
        f = schedule(o, last + k + 1)
        lrs = sorted(g["lr"] for g in opt.param_groups)
        lr0 = sorted((o["lr"] if g == "default" else rates[g]) * f for g in used)
        if not same(lrs, lr0):
            c.fail("learning rates leave their schedule", epoch=last + k + 1, got=lrs, want=lr0, options=o)
