"""Random trees of configurable classes against an independent interpretation of their declaration, overrides and builds."""
import copy
import enum
import itertools
import sys
import warnings
from typing import Dict, List, Optional, Tuple

import torch

from lib.harness import monitor

NATIVE = False
RULE = ("random declarations: 1..3 families of replaceable classes with 1..4 implementations (intermediate and unregistered ones too), configurables nested up to "
        "four levels with plain, list, enum, optional and function-argument fields, optional and pluggable members, inheritance with changed defaults, "
        "tweaks, modules; 0..8 overrides by merge, dotlist, update, assignment, yaml or keyword; distinct = distinct (declaration, overrides)")
ASSUMPTIONS = ["families do not contain each other in a cycle (where the order of expansion decides what is excluded)",
               "annotations spell optional members Optional[X]"]

serial = itertools.count()


class Colour(enum.Enum):
    RED = 1
    BLUE = 2
    GREEN = 3


class Decl:
    """one declared class: fields is name -> (kind, ...) including what it inherits"""

    def __init__(self, name, parent=None, family=None):
        self.name, self.parent, self.family = name, parent, family
        self.fields = dict(parent.fields) if parent else {}
        self.tweaks = dict(parent.tweaks) if parent else {}
        self.own, self.own_tweaks = {}, {}
        self.module = parent.module if parent else False
        self.cls = None

    def has_tweaks(self):
        if self.tweaks:
            return True
        for f in self.fields.values():
            if f[0] == "conf" and f[1].has_tweaks() or f[0] == "repl" and any(d.has_tweaks() for d in f[1].impls):
                return True
        return False


class Family:
    def __init__(self):
        self.impls = []   # registered declarations


def plain(c):
    from dataclasses import field
    k = c.i(0, 7)
    if k == 0:
        v = c.i(-5, 100)
        return int, v
    if k == 1:
        return float, c.pick(0.5, -1.25, 1e-3, 3.0)
    if k == 2:
        return str, c.pick("", "a", "some text", "x y", "A1")
    if k == 3:
        return bool, c.p(0.5)
    if k == 4:
        return Optional[int], c.pick(None, 3)
    if k == 5:
        return List[int], [c.i(0, 9) for _ in range(c.i(0, 3))]
    if k == 6:
        return Tuple[float, ...], tuple(c.pick(0.5, 1.0) for _ in range(c.i(1, 3)))
    return Colour, c.pick(*Colour)


def other(c, ty, old):
    """a new value of the same type"""
    if ty is int:
        return c.i(-1000, 1000)
    if ty is float:
        return c.pick(7.5, -2.5, 1e6)
    if ty is str:
        return c.pick("new", "", "1", "true", "b c")
    if ty is bool:
        return not old
    if ty == Optional[int]:
        return c.pick(None, 8)
    if ty == List[int]:
        return [c.i(0, 9) for _ in range(c.i(0, 4))]
    if ty is Colour:
        return c.pick(*Colour)
    return tuple(c.pick(0.25, 4.0) for _ in range(c.i(1, 3)))


def function(c):
    from pytorch3d.implicitron.tools.config import enable_get_default_args
    n = next(serial)
    args = {"q%d" % k: plain(c) for k in range(c.i(1, 3))}
    args = {k: (t, v) for k, (t, v) in args.items() if t is not Colour}
    ns = {"__name__": __name__, "List": List, "Optional": Optional, "Tuple": Tuple}
    sig = ", ".join("%s: %s = %r" % (k, getattr(t, "__name__", None) if t in (int, float, str, bool) else str(t).replace("typing.", ""), v) for k, (t, v) in args.items())
    exec("def fn%d(required, %s):\n    return required" % (n, sig), ns)
    fn = ns["fn%d" % n]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        enable_get_default_args(fn)
    return fn, {k: v for k, (t, v) in args.items()}


def declare(c, d, confs, families, depth, names):
    """adds own fields to d and creates the class"""
    from pytorch3d.implicitron.tools import config as C
    import dataclasses
    for k in range(c.i(0 if d.parent else 1, 3)):
        d.own[c.pick(*names)] = ("plain",) + plain(c)
    if d.parent and c.p(0.6):
        olds = [(n, f) for n, f in d.parent.fields.items() if f[0] == "plain"]
        if olds:
            n, f = c.pick(*olds)
            d.own[n] = ("plain", f[1], other(c, f[1], f[2]))
    taken = set(d.fields) | set(d.own)
    free = [n for n in ("part", "part_more", "unit", "unit_a", "side", "a", "a_b") if n not in taken]
    free = [free[k] for k in c.perm(len(free))][:c.i(0, 3)] if depth else []
    for n in free:
        k = c.i(0, 3)
        if k == 0 and confs:
            d.own[n] = ("conf", c.pick(*confs), None)
        elif k == 1 and confs:
            d.own[n] = ("conf", c.pick(*confs), c.p(0.5))
        elif families and k in (2, 3):
            f = c.pick(*families)
            opt = c.p(0.4)
            default = c.pick(*f.impls).name
            if opt and c.p(0.4):
                default = None
            elif c.p(0.15):
                default = "UNDEFAULTED"
            d.own[n] = ("repl", f, opt, default)
        elif c.p(0.4):
            d.own[n + "_fn"] = ("fn",) + function(c)
    d.new_default = {}
    if d.parent:
        for n, f in d.parent.fields.items():
            if f[0] == "repl" and c.p(0.4):
                d.new_default[n] = c.pick(*f[1].impls).name
    # the attributes of the class
    ann, ns = {}, {"__module__": __name__, "__qualname__": d.name}
    for n, f in d.own.items():
        if f[0] == "plain":
            ann[n] = f[1]
            ns[n] = dataclasses.field(default_factory=lambda v=f[2]: list(v)) if isinstance(f[2], list) else f[2]
        elif f[0] == "conf":
            ann[n] = f[1].cls if f[2] is None else Optional[f[1].cls]
            if f[2] is not None:
                ann[n + "_enabled"], ns[n + "_enabled"] = bool, f[2]
        elif f[0] == "repl":
            ann[n] = Optional[f[1].base] if f[2] else f[1].base
            if f[3] != "UNDEFAULTED":
                ann[n + "_class_type"], ns[n + "_class_type"] = (Optional[str] if f[2] else str), f[3]
        else:
            ann[n], ns[n] = "DictConfig", C.get_default_args_field(f[1])
            from omegaconf import DictConfig
            ann[n] = DictConfig
        d.fields[n] = f
    for n, v in d.new_default.items():
        f = d.fields[n]
        ann[n + "_class_type"], ns[n + "_class_type"] = (Optional[str] if f[2] else str), v
        d.fields[n] = f[:3] + (v,)
    for n, f in list(d.own.items()):
        if f[0] not in ("conf", "repl") or not c.p(0.3):
            continue
        targets = [f[1]] if f[0] == "conf" else [x for x in f[1].impls]
        t = c.pick(*targets)
        pl = [(m, g) for m, g in t.fields.items() if g[0] == "plain" and g[1] in (int, str, bool, float)]
        if not pl:
            continue
        m, g = c.pick(*pl)
        v = other(c, g[1], g[2])

        def tweak(cls, type, args, t=t, m=m, v=v):
            if type is t.cls:
                args[m] = v
        ns[n + "_tweak_args"] = classmethod(tweak)
        d.tweaks[n] = (t, m, v)
    keys = list(ann)
    # dataclass fields with defaults only: any order
    ns["__annotations__"] = {k: ann[k] for k in [keys[i] for i in c.perm(len(keys))]}

    def post(self):
        self.post_ran = getattr(self, "post_ran", 0) + 1
        C.run_auto_creation(self)
    ns["__post_init__"] = post
    bases = (d.parent.cls,) if d.parent else (C.ReplaceableBase,) if d.family else (C.Configurable,)
    if not d.parent and c.p(0.3) and not d.family:
        bases += (torch.nn.Module,)
        d.module = True
    d.cls = type(d.name, bases, ns)
    return d


def world(c):
    """a random set of declarations; the last is the root"""
    from pytorch3d.implicitron.tools.config import registry
    n = next(serial)
    confs, families = [], []
    names = ["x", "y", "n", "name", "values", "a_value"]
    for k in range(c.i(1, 2)):
        p = c.pick(*confs) if confs and c.p(0.3) else None
        confs.append(declare(c, Decl("Leaf%d_%d" % (n, k), p), [], [], 0, names))
    for k in range(c.i(1, 3)):
        f = Family()
        base = declare(c, Decl("Base%d_%d" % (n, k), None, f), [], [], 0, names)
        f.base = base.cls
        f.baseDecl = base
        mid = declare(c, Decl("Mid%d_%d" % (n, k), base, f), [], [], 0, names) if c.p(0.4) else None
        order = []
        for i in range(c.i(1, 4)):
            d = declare(c, Decl("%s%s" % (c.pick("A", "B", "A_b", "Impl"), i), c.pick(base, mid) if mid else base, f), confs, list(families), 1 if c.p(0.5) else 0, names)
            registry.register(d.cls)
            f.impls.append(d)
            order.append(d)
        if c.p(0.3):
            f.unregistered = declare(c, Decl("Unregistered", base, f), [], [], 0, names)
        families.append(f)
    for k in range(c.i(1, 3)):
        p = c.pick(*confs) if c.p(0.4) else None
        confs.append(declare(c, Decl("Node%d_%d" % (n, k), p), list(confs), families, 1, names))
    root = declare(c, Decl("Root%d" % n, confs[-1] if c.p(0.3) else None), confs, families, 1, names)
    if not root.module and not any(f[0] != "plain" for f in root.fields.values()):
        root = confs[-1]
    return root, families


def config_value(v):
    return list(v) if isinstance(v, tuple) else v


def defaults(d):
    """the default configuration as nested dicts, from the declaration"""
    out = {}
    for n, f in d.fields.items():
        if f[0] == "plain":
            out[n] = config_value(f[2])
        elif f[0] == "fn":
            out[n] = {k: config_value(v) for k, v in f[2].items()}
        elif f[0] == "conf":
            out[n + "_args"] = defaults(f[1])
            if n in d.tweaks:
                t, m, v = d.tweaks[n]
                out[n + "_args"][m] = v
            if f[2] is not None:
                out[n + "_enabled"] = f[2]
        else:
            out[n + "_class_type"] = f[3]
            for i in f[1].impls:
                a = defaults(i)
                if n in d.tweaks and d.tweaks[n][0] is i:
                    a[d.tweaks[n][1]] = d.tweaks[n][2]
                out[n + "_" + i.name + "_args"] = a
    return out


def leaves(d, cfg, path=()):
    """-> (path, declared type, value) of everything that can be overridden"""
    for n, f in d.fields.items():
        if f[0] == "plain":
            yield path + (n,), f[1], cfg[n]
        elif f[0] == "conf":
            yield from leaves(f[1], cfg[n + "_args"], path + (n + "_args",))
            if f[2] is not None:
                yield path + (n + "_enabled",), bool, cfg[n + "_enabled"]
        elif f[0] == "repl":
            yield path + (n + "_class_type",), f, cfg[n + "_class_type"]
            for i in f[1].impls:
                k = n + "_" + i.name + "_args"
                yield from leaves(i, cfg[k], path + (k,))


def selected(d, cfg, path=()):
    yield path, d, cfg
    for n, f in d.fields.items():
        if f[0] == "conf" and (f[2] is None or cfg[n + "_enabled"]):
            yield from selected(f[1], cfg[n + "_args"], path + (n + "_args",))
        elif f[0] == "repl" and cfg[n + "_class_type"] not in (None, "UNDEFAULTED"):
            i = next(x for x in f[1].impls if x.name == cfg[n + "_class_type"])
            k = n + "_" + i.name + "_args"
            yield from selected(i, cfg[k], path + (k,))


def container(x):
    from omegaconf import OmegaConf
    x = OmegaConf.to_container(x) if OmegaConf.is_config(x) else x
    if isinstance(x, dict):
        return {k: container(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [container(v) for v in x]
    return x


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def compare(c, obj, d, cfg, path="root"):
    c.check(type(obj) is d.cls, f"{path} is a {type(obj).__name__} instead of a {d.name}")
    c.equal(obj.post_ran, 1, f"{path}: __post_init__ ran once")
    if d.module:
        c.check(isinstance(obj, torch.nn.Module) and obj.training is True, f"{path} is an initialised module")
        kids = dict(obj.named_children())
    for n, f in d.fields.items():
        if f[0] in ("plain", "fn"):
            got = container(getattr(obj, n))
            c.check(same(got, container(cfg[n])), f"{path}.{n} is {got!r} instead of {cfg[n]!r}")
        elif f[0] == "conf":
            if f[2] is None or cfg[n + "_enabled"]:
                compare(c, getattr(obj, n), f[1], cfg[n + "_args"], path + "." + n)
            else:
                c.check(getattr(obj, n) is None, f"{path}.{n} is disabled")
                c.count("disabled")
        else:
            t = cfg[n + "_class_type"]
            if t is None:
                c.check(getattr(obj, n) is None, f"{path}.{n} is None")
                c.count("absent")
            else:
                i = next(x for x in f[1].impls if x.name == t)
                compare(c, getattr(obj, n), i, cfg[n + "_" + t + "_args"], path + "." + n)
                c.count("pluggable")
        if d.module and f[0] in ("conf", "repl"):
            m = getattr(obj, n)
            if isinstance(m, torch.nn.Module):
                c.check(kids.get(n) is m, f"{path}.{n} is a submodule")
                c.count("submodule")
        c.count("members")


def put(d, path, v):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = v


def at(d, path):
    for k in path:
        d = d[k]
    return d


def settle(c, d, want, changes):
    """give every selected member without a default a type; repeated, as a chosen type can bring more"""
    while True:
        todo = [(p, n, f) for p, x, cfg in selected(d, want) for n, f in x.fields.items()
                if f[0] == "repl" and cfg[n + "_class_type"] == "UNDEFAULTED"]
        if not todo:
            return
        for p, n, f in todo:
            v = c.pick(*f[1].impls).name
            at(want, p)[n + "_class_type"] = v
            changes.append((p + (n + "_class_type",), v))


def changes_for(c, d, want, count):
    changes = []
    for _ in range(count):
        path, ty, old = c.pick(*leaves(d, want))
        if isinstance(ty, tuple):
            v = c.pick(*([i.name for i in ty[1].impls] + ([None] if ty[2] else [])))
        else:
            v = other(c, ty, old)
        at(want, path[:-1])[path[-1]] = config_value(v)
        changes.append((path, v))
    settle(c, d, want, changes)
    return changes


def token(v):
    return "null" if v is None else v.name if isinstance(v, enum.Enum) else str(list(v)) if isinstance(v, tuple) else \
        "'%s'" % v if isinstance(v, str) else str(v).lower() if isinstance(v, bool) else str(v)


def apply(c, cfg, changes):
    """-> the configuration with the changes, in one of several ways"""
    from omegaconf import OmegaConf
    how = c.pick("merge", "dotlist", "update", "assign", "yaml")
    if how == "merge":
        tree = {}
        for p, v in changes:
            put(tree, p, config_value(v))
        cfg = OmegaConf.merge(cfg, tree)
    elif how == "dotlist":
        cfg = OmegaConf.merge(cfg, OmegaConf.from_dotlist([".".join(p) + "=" + token(v) for p, v in changes]))
    elif how == "update":
        for p, v in changes:
            OmegaConf.update(cfg, ".".join(p), config_value(v))
    elif how == "assign":
        for p, v in changes:
            x = cfg
            for k in p[:-1]:
                x = x[k]
            if c.p(0.5):
                x[p[-1]] = config_value(v)
            else:
                setattr(x, p[-1], config_value(v))
    else:
        tree = {}
        for p, v in changes:
            put(tree, p, v.name if isinstance(v, enum.Enum) else config_value(v))
        cfg = OmegaConf.merge(cfg, OmegaConf.create(OmegaConf.to_yaml(OmegaConf.create(tree))))
    c.count(how)
    return cfg


@monitor(quick=900, thorough=30000, need=("merge", "dotlist", "update", "assign", "yaml", "pluggable", "absent", "disabled", "submodule", "reduced"))
def build(c):
    from omegaconf import OmegaConf
    from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args, remove_unused_components
    root, families = world(c)
    c.sample(str(defaults(root)))
    want = defaults(root)
    if c.p(0.2) and not any(f[3] == "UNDEFAULTED" for _, d, _ in selected(root, want) for f in d.fields.values() if f[0] == "repl"):
        compare(c, root.cls(), root, want, "directly")   # before anything expanded the classes
        c.count("direct")
    if c.p(0.3):
        c.check(expand_args_fields(root.cls) is root.cls, "expansion returns the class")
    cfg = get_default_args(root.cls)
    c.check(same(container(cfg), container(want)), "default configuration", got=container(cfg), want=container(want))
    changes = changes_for(c, root, want, c.i(0, 8))
    cfg = apply(c, cfg, changes)
    c.check(same(container(cfg), container(want)), "configuration after overrides", changes=changes, got=container(cfg), want=container(want))
    before = container(cfg)
    for name, args in (("configuration", cfg), ("dictionary", copy.deepcopy(want)), ("yaml", None)):
        if name == "yaml":
            if not c.p(0.3):
                continue
            args = OmegaConf.merge(get_default_args(root.cls), OmegaConf.create(OmegaConf.to_yaml(cfg)))
        obj = root.cls(**args)
        compare(c, obj, root, want, "from " + name)
    c.check(same(container(cfg), before), "building leaves the configuration alone")
    # the reduced configuration builds the same
    small = copy.deepcopy(cfg)
    remove_unused_components(small)
    keys = [".".join(p) for p, d, _ in selected(root, want)]

    def used(x, d, w, path):
        expect = set()
        for n, f in d.fields.items():
            if f[0] in ("plain", "fn"):
                expect.add(n)
            elif f[0] == "conf":
                if f[2] is not None:
                    expect.add(n + "_enabled")
                if f[2] is None or w[n + "_enabled"]:
                    expect.add(n + "_args")
                    if n + "_args" in x:
                        used(x[n + "_args"], f[1], w[n + "_args"], path + "." + n)
            else:
                expect.add(n + "_class_type")
                t = w[n + "_class_type"]
                if t is not None:
                    k = n + "_" + t + "_args"
                    expect.add(k)
                    if k in x:
                        used(x[k], next(i for i in f[1].impls if i.name == t), w[k], path + "." + n)
        c.equal(set(x.keys()), expect, f"{path}: what is left of a configuration without its unused components")
    if not ambiguous(root, want):
        used(small, root, want, "reduced")
        compare(c, root.cls(**small), root, want, "from the reduced configuration")
        c.count("reduced")
    c.sig(str(want), str(changes))


def ambiguous(root, want):
    """an argument name does not say whether it belongs to a pluggable member a or to a mandatory member a_b"""
    for _, d, _ in selected(root, want):
        repl = [n for n, f in d.fields.items() if f[0] == "repl"]
        conf = [n for n, f in d.fields.items() if f[0] == "conf" and f[2] is None]
        if any(m.startswith(n + "_") for n in repl for m in conf):
            return True
    return False


@monitor(quick=500, thorough=15000, need=("partial", "kept"))
def sharing(c):
    """instances and default configurations are independent of each other"""
    from omegaconf import OmegaConf, open_dict
    from pytorch3d.implicitron.tools.config import get_default_args
    root, families = world(c)
    want = defaults(root)
    base = container(want)
    changes = []
    settle(c, root, want, changes)
    fix = {}
    for p, v in changes:
        put(fix, p, v)
    if root.has_tweaks() and any(len(p) > 1 for p, _ in changes):
        return
    a = root.cls(**copy.deepcopy(fix))
    b = root.cls(**copy.deepcopy(fix))
    compare(c, a, root, want, "first")
    compare(c, b, root, want, "second")
    one, two = get_default_args(root.cls), get_default_args(root.cls)

    def spoil(x):
        if OmegaConf.is_dict(x):
            with open_dict(x):
                for k in list(x):
                    spoil(x[k]) if OmegaConf.is_config(x[k]) else None
                x["spoiled"] = 1
        elif OmegaConf.is_list(x):
            x.append(77)
        elif isinstance(x, list):
            x.append(77)
        elif isinstance(x, dict):
            x["spoiled"] = 1

    def spoil_object(o, d):
        for k, v in list(vars(o).items()):
            spoil(v)
        for n, f in d.fields.items():
            m = getattr(o, n)
            if f[0] == "conf" and m is not None:
                spoil_object(m, f[1])
            elif f[0] == "repl" and m is not None:
                spoil_object(m, next(i for i in f[1].impls if i.cls is type(m)))
    spoil(one)
    spoil_object(a, root)
    c.check(same(container(two), base), "another default configuration is unchanged", got=container(two), want=base)
    c.check(same(container(get_default_args(root.cls)), base), "new default configuration is unchanged")
    compare(c, b, root, want, "another instance")
    compare(c, root.cls(**copy.deepcopy(fix)), root, want, "a new instance")
    c.count("kept")
    # a partial dictionary of arguments leaves the other arguments at their defaults
    if not root.has_tweaks():
        want2 = defaults(root)
        ch = changes_for(c, root, want2, c.i(1, 6))
        tree = {}
        for p, v in ch:
            put(tree, p, v)
        compare(c, root.cls(**tree), root, want2, "from some arguments")
        c.count("partial")
    c.sig(str(base))


@monitor(quick=600, thorough=20000, need=("unknown key", "unknown type", "type of another family", "unregistered", "wrong value", "not a name", "missing type"))
def rejects(c):
    """unknown keys, unregistered implementations and values of the wrong type never build an object"""
    from omegaconf import OmegaConf
    from pytorch3d.implicitron.tools.config import get_default_args, registry
    root, families = world(c)
    want = defaults(root)
    changes = changes_for(c, root, want, c.i(0, 3))
    cfg = apply(c, get_default_args(root.cls), changes)
    sel = list(selected(root, want))
    p, d, w = c.pick(*sel)
    repl = [(q, n, f) for q, x, _ in sel for n, f in x.fields.items() if f[0] == "repl"]
    kind = c.pick("unknown key", "unknown type", "type of another family", "unregistered", "wrong value", "not a name", "missing type")
    if kind == "unknown key":
        key = c.pick("zzz", "z_args", *[n + "_argsx" for n in d.fields], *[n + "_Nope_args" for n, f in d.fields.items() if f[0] == "repl"])
        path, v = p + (key,), c.pick(1, {"n": 3}, None)
    elif kind == "wrong value":
        typed = [(q + (n,), f[1]) for q, x, _ in sel for n, f in x.fields.items() if f[0] == "plain" and f[1] in (int, float, bool, Colour, List[int])]
        if not typed:
            return
        path, ty = c.pick(*typed)
        v = {int: c.pick("abc", 1.5, [1]), float: c.pick("abc", [1.0]), bool: c.pick("maybe", 7.5), Colour: "PURPLE", List[int]: c.pick("abc", 3, ["x"])}[ty]
    elif not repl:
        return
    else:
        q, n, f = c.pick(*repl)
        path = q + (n + "_class_type",)
        if kind == "unknown type":
            v = c.pick("Nope", "", "a0", f[1].impls[0].name + "x", f[1].impls[0].name.lower())
            if v in [i.name for i in f[1].impls]:
                return
        elif kind == "type of another family":
            names = {i.name for g in families for i in g.impls} - {i.name for i in f[1].impls}
            if not names:
                return
            v = c.pick(*sorted(names))
        elif kind == "unregistered":
            v = c.pick("Unregistered", f[1].baseDecl.name)
        elif kind == "not a name":
            v = c.pick(3, 1.5, True, ["A0"])
        else:
            if f[2]:
                return
            v = "UNDEFAULTED"
    tree = {}
    put(tree, path, v)
    how = c.pick("merge", "dictionary")
    if how == "dictionary" and kind == "wrong value":
        how = "merge"   # dataclasses do not check the types of arguments
    if how == "merge":
        def go():
            return root.cls(**OmegaConf.merge(cfg, tree))
    else:
        full = copy.deepcopy(want)
        put(full, path, v)

        def go():
            return root.cls(**full)
    try:
        obj = go()
    except Exception:
        c.count(kind)
        c.sig(kind, how, path, str(v))
        return
    c.fail(f"{kind} was accepted: {'.'.join(path)} = {v!r} ({how})")


@monitor(quick=600, thorough=20000, need=("optional default", "list", "class"))
def functions(c):
    """the defaulted arguments of functions and plain classes"""
    from pytorch3d.implicitron.tools.config import enable_get_default_args, get_default_args
    n = next(serial)
    args, sig, expect = [], [], {}
    for k in range(c.i(0, 2)):
        sig.append("r%d: int" % k)
    for k in range(c.i(1, 6)):
        t, v = plain(c)
        if t is Colour:
            v2 = "Colour." + v.name
        else:
            v2 = repr(v)
        if c.p(0.15):
            t, v, v2 = Dict[str, int], {"k": 1}, "{'k': 1}"
        name = getattr(t, "__name__", "") if t in (int, float, str, bool, Colour) else str(t).replace("typing.", "")
        sig.append("q%d: %s = %s" % (k, name, v2))
        expect["q%d" % k] = config_value(v)
        if v is None:
            c.count("optional default")
        if isinstance(v, list):
            c.count("list")
    ns = {"__name__": __name__, "List": List, "Optional": Optional, "Tuple": Tuple, "Dict": Dict, "Colour": Colour}
    cls = c.p(0.4)
    if cls:
        exec("class Thing%d:\n    def __init__(self, %s):\n        self.got = dict(locals())" % (n, ", ".join(sig)), ns)
        fn = ns["Thing%d" % n]
        c.count("class")
    else:
        exec("def func%d(%s):\n    return dict(locals())" % (n, ", ".join(sig)), ns)
        fn = ns["func%d" % n]
    c.raises(ValueError, lambda: get_default_args(fn), "a function that was not enabled has no default arguments")
    enable_get_default_args(fn)
    a, b = get_default_args(fn), get_default_args(fn)
    c.check(same(container(a), container(expect)), "defaults", got=container(a), want=expect)
    for k in list(a):
        if isinstance(expect[k], list):
            a[k].append(5)
        elif isinstance(expect[k], dict):
            a[k]["other"] = 5
        elif type(expect[k]) is int:
            a[k] = 12345
    c.check(same(container(b), container(expect)), "another copy of the defaults is unchanged")
    c.check(same(container(get_default_args(fn)), container(expect)), "new defaults are unchanged")
    req = {"r%d" % k: k for k in range(sum(s.startswith("r") for s in sig))}
    got = fn(**req, **b)
    got = got.got if cls else got
    c.check(all(same(container(got[k]), container(v)) for k, v in expect.items()), "calling with the defaults", got=got)
    c.raises(Exception, lambda: b.__setattr__("unknown_argument", 3), "an unknown argument was accepted")
    c.sig(tuple(sig), cls)


@monitor(quick=300, thorough=8000)
def registering(c):
    """the registry returns what was registered, by base class"""
    from pytorch3d.implicitron.tools.config import registry
    root, families = world(c)
    for f in families:
        c.equal([x for x in registry.get_all(f.base)], [i.cls for i in sorted(f.impls, key=lambda i: i.name)], "all implementations, in order of their names")
        for i in f.impls:
            c.check(registry.get(f.base, i.name) is i.cls, "implementation by name")
            want = sorted((j for j in f.impls if issubclass(j.cls, i.cls) and j is not i), key=lambda j: j.name)
            c.equal(registry.get_all(i.cls), [j.cls for j in want], "implementations below an implementation")
            if i.parent.cls is not f.base:
                c.check(registry.get(i.parent.cls, i.name) is i.cls, "implementation by name below an intermediate class")
            for j in f.impls:
                if not issubclass(j.cls, i.cls):
                    c.raises(ValueError, lambda: registry.get(i.cls, j.name), "a class that is no subclass of the wanted one")
        c.raises(ValueError, lambda: registry.get(f.base, "Nope"), "an unregistered name")
        c.raises(ValueError, lambda: registry.get(f.base, None), "no name")
        c.count("families")
    c.sig(tuple((tuple(i.name for i in f.impls)) for f in families), root.name)
