"""Batch samplers and data-loader construction against the sequence table they draw from."""
import math
import warnings

import numpy as np
import torch

from lib.harness import monitor

TECHNIQUE = ("runtime monitoring: the real samplers and loaders run over generated datasets whose sequence table is known, every yielded batch is recorded and an offline checker decides membership, distinctness, "
             "sequence composition, run contiguity, epoch coverage and exactly-once delivery; drawing is repeated until every admissible frame must have been seen")
RULE = "datasets x batch sizes x images-per-sequence options x gap rules x conditioning types x evaluation batches x random states; distinct = distinct (table shape, options)"
ASSUMPTIONS = ["randomness is judged by support (every admissible item is drawn within a number of draws whose failure probability is below 1e-9) and by invariants of every batch, not by exact frequencies",
               "timestamps are non-negative, as the sampler documents constants for absent ones"]

M = None


def mods():
    global M
    if M is None:
        import dataclasses
        import logging
        import types as ty
        logging.disable(logging.WARNING)
        from pytorch3d.implicitron.dataset import data_loader_map_provider as dl, dataset_base, dataset_map_provider, frame_data, scene_batch_sampler as sb
        from pytorch3d.implicitron.dataset import train_eval_data_loader_provider as te
        from pytorch3d.implicitron.tools.config import expand_args_fields
        for k in (dl.SimpleDataLoaderMapProvider, dl.SequenceDataLoaderMapProvider, te.TrainEvalDataLoaderMapProvider):
            expand_args_fields(k)

        @dataclasses.dataclass(eq=False)
        class Toy(dataset_base.DatasetBase):
            rows: list = dataclasses.field(default_factory=list)    # (sequence, category, number, timestamp, frame type)
            tag: int = 0
            evals: object = None

            def __post_init__(self):
                self._seq_to_idx = {}
                for i, r in enumerate(self.rows):
                    self._seq_to_idx.setdefault(r[0], []).append(i)

            def __len__(self):
                return len(self.rows)

            def __getitem__(self, i):
                if not 0 <= int(i) < len(self.rows):
                    raise IndexError(i)
                s, cat, no, ts, kind = self.rows[i]
                return frame_data.FrameData(frame_number=torch.tensor(no), sequence_name=s, sequence_category=cat, frame_timestamp=torch.tensor(ts), frame_type=kind, meta={"at": (self.tag, int(i))})

            def get_frame_numbers_and_timestamps(self, idxs, subset_filter=None):
                return [(self.rows[i][2], self.rows[i][3]) for i in idxs]

            def get_eval_batches(self):
                return self.evals

        M = ty.SimpleNamespace(Toy=Toy, dl=dl, te=te, sb=sb, DM=dataset_map_provider.DatasetMap)
    return M


def mix(c, xs):
    xs = list(xs)
    return [xs[i] for i in c.perm(len(xs))]


TYPES = ["train_known", "train_unseen", "test_known", "test_unseen"]


def rows(c, max_seq=7, max_len=14, types=TYPES):
    cats = [f"c{i}" for i in range(c.i(1, 4))]
    timed = c.p(0.5)
    out = []
    for s in range(c.i(1, max_seq)):
        n = c.pick(1, 2, c.i(1, max_len), c.i(1, max_len), max_len)
        step = c.pick(1, 1, 3)
        no, ts, cat = c.i(0, 3), c.u(0, 1), c.pick(*cats)
        for _ in range(n):
            out.append((f"s{s}", cat, no, round(ts, 4) if timed else 0.0, c.pick(*types)))
            no += c.pick(1, 1, 1, step, 2 * step, 7)
            ts += c.pick(0.05, 0.05, 0.05, 0.08, 0.3, 2.0)
    if c.p(0.6):
        # frames of different sequences may be interleaved; sometimes a sequence is not stored in order
        if c.p(0.5):
            out = mix(c, out)
        else:
            q = {}
            for r in out:
                q.setdefault(r[0], []).append(r)
            order = mix(c, [r[0] for r in out])
            out = [q[s].pop(0) for s in order]
    return out, timed


def runs(table, seq, gap, sec):
    order = sorted((r[3], r[2], i) for i, r in enumerate(table) if r[0] == seq)
    segs = []
    for k, (ts, no, i) in enumerate(order):
        if k and not (gap > 0 and no - order[k - 1][1] > gap) and not (sec > 0 and ts - order[k - 1][0] > sec):
            segs[-1].append(i)
        else:
            segs.append([i])
    return segs


class Composition:
    """The offline checker for one batch."""

    def __init__(self, table, bs, options, consecutive, gap, sec, aware):
        self.t, self.bs, self.options, self.cons, self.aware = table, bs, [int(o) for o in options], consecutive, aware
        self.seqs = list(dict.fromkeys(r[0] for r in table))
        self.cat = {r[0]: r[1] for r in table}
        self.len = {s: sum(r[0] == s for r in table) for s in self.seqs}
        self.ncat = len(set(self.cat.values()))
        self.runs = {s: runs(table, s, gap, sec) for s in self.seqs}

    def size(self, s, n):
        return min(n, max(map(len, self.runs[s])) if self.cons else self.len[s])

    def windows(self, s, n):
        out = []
        for r in self.runs[s]:
            if len(r) >= n:
                out += [tuple(r[a:a + n]) for a in range(len(r) - n + 1)]
        return out or [tuple(r) for r in self.runs[s] if len(r) == self.size(s, n)]

    def problem(self, batch):
        t = self.t
        if not isinstance(batch, list) or not all(isinstance(i, int) for i in batch):
            return "a batch is not a list of ints"
        if not 0 < len(batch) <= self.bs:
            return "wrong number of frames in a batch"
        if not all(0 <= i < len(t) for i in batch):
            return "index outside of the dataset"
        if len(set(batch)) != len(batch):
            return "a frame is repeated in a batch"
        chunks = []
        for i in batch:
            if not chunks or t[i][0] != t[chunks[-1][-1]][0]:
                chunks.append([])
            chunks[-1].append(i)
        names = [t[k[0]][0] for k in chunks]
        if len(set(names)) != len(names):
            return "a sequence was chosen twice in a batch"
        why = [self._fits(batch, chunks, names, n) for n in self.options]
        return None if None in why else f"no choice of images per sequence explains the batch: {dict(zip(self.options, why))}"

    def _fits(self, batch, chunks, names, n):
        k = -(-self.bs // n)
        full = [self.size(s, n) for s in names]
        whole = len(batch) < self.bs
        for j, (ch, f) in enumerate(zip(chunks, full)):
            last = j == len(chunks) - 1 and not whole
            if (len(ch) > f) if last else (len(ch) != f):
                return f"{len(ch)} frames of {names[j]} instead of {f}"
            if self.cons and not any(tuple(ch) == w[: len(ch)] for w in self.windows(names[j], n)):
                return f"frames of {names[j]} are not consecutive in a single admissible run"
        if len(chunks) > k:
            return "too many sequences"
        if not self.aware:
            if whole and len(chunks) != min(k, len(self.seqs)):
                return "wrong number of sequences"
        else:
            cats = [self.cat[s] for s in names]
            if k <= self.ncat and len(set(cats)) != len(cats):
                return "a category repeats although there are enough of them"
            if whole and k <= self.ncat and len(chunks) != k:
                return "wrong number of sequences"
        return None

    def least(self):
        """A lower bound of the probability that one batch contains a given reachable frame."""
        # one option, then a category, then a sequence, then a frame or pivot; truncation never removes the first sequence
        return 1.0 / (len(self.options) * max(1, self.ncat if self.aware else 1) * len(self.seqs))


def describe(table, opts):
    return {"rows": [list(r) for r in table], **opts}


@monitor(quick=900, thorough=40000, need=("batch", "consecutive", "whole_run", "truncated", "short_batch", "by_category", "without_category", "gap", "seconds", "support"))
def scene_batches(c):
    m = mods()
    table, timed = rows(c)
    cons = c.p(0.55)
    gap, sec = c.pick((0, 0.1), (1, 0.0), (3, 0.0), (2, 0.1), (0, 0.0), (0, 0.5), (8, 3.0))
    if cons and not timed and gap > 0 and c.p(0.3):
        sec = 0.1
    ordered = all(not (a[1] >= b[1]) for s in {r[0] for r in table} for o in [sorted((r[3], r[2]) for r in table if r[0] == s)] for a, b in zip(o, o[1:]) if b[0] <= 0.0)
    bs = c.i(1, 9)
    options = tuple(c.pick(1, 2, 3, 4, 6, 10) for _ in range(c.i(1, 3)))
    aware = c.p(0.6)
    num = c.i(1, 6)
    opts = {"batch_size": bs, "num_batches": num, "images_per_seq_options": options if c.p(0.7) else list(options), "sample_consecutive_frames": cons, "consecutive_frames_max_gap": gap, "consecutive_frames_max_gap_seconds": sec,
            "category_aware": aware}
    ds = m.Toy(rows=table)
    data = describe(table, opts)
    if not ordered:
        c.count("unordered")
        return
    comp = Composition(table, bs, options, cons, gap, sec, aware)
    c.sig(bs, options, cons, gap, sec, aware, tuple(sorted(comp.len.values())))
    sampler = m.sb.SceneBatchSampler(ds, **opts)
    if len(sampler) != num:
        c.fail("len(sampler) is not the number of batches", got=len(sampler), **data)
    seed = c.i(0, 2**31)
    epochs = []
    for rep in range(2):
        np.random.seed(seed)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            got = list(sampler)
        epochs.append(got)
        if len(got) != num:
            c.fail("another number of batches than requested", got=len(got), **data)
        for b in got:
            c.count("batch")
            why = comp.problem(b)
            if why:
                c.fail(f"scene batch: {why}", batch=b, **data)
            if len(b) < bs:
                c.count("short_batch")
            if all(-(-bs // n) * n != bs for n in options) and len(b) == bs:
                c.count("truncated")
        warned = any("smaller" in str(w.message) for w in ws)
        if any(len(b) < bs for b in got) and not warned:
            c.fail("a short batch without a warning", **data)
    if epochs[0] != epochs[1]:
        c.fail("the same numpy seed gave other batches", got=epochs, **data)
    c.count("consecutive" if cons else "random_frames")
    if cons and gap == 0 and sec == 0:
        c.count("whole_run")
    if cons and gap > 0:
        c.count("gap")
    if cons and sec > 0:
        c.count("seconds")
    c.count("by_category" if aware else "without_category")
    # support: everything admissible is eventually drawn
    if not c.p(0.25):
        return
    least = comp.least() / max(comp.len.values())
    draws = int(math.ceil(23 / least))
    if draws > 6000:
        return
    c.count("support")
    sampler = m.sb.SceneBatchSampler(ds, **{**opts, "num_batches": draws})
    np.random.seed(seed)
    seen, cats = set(), set()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for b in sampler:
            why = comp.problem(b)
            if why:
                c.fail(f"scene batch: {why}", batch=b, **data)
            # only the first sequence is certain to be complete up to the batch size
            seen.update(b)
    want = set()
    for s in comp.seqs:
        for n in set(comp.options):
            if not cons:
                want |= {i for i, r in enumerate(table) if r[0] == s}
            else:
                w = comp.windows(s, n)
                want |= {i for x in w for i in x[:bs]} if len(w[0]) == n or len(w) == 1 else set()
    if not seen >= want:
        c.fail("frames which the sampler should reach are never drawn", missing=sorted(want - seen)[:10], draws=draws, **data)


@monitor(quick=60, thorough=1500, need=("category", "pivot"))
def uniformity(c):
    """Categories are drawn uniformly; pivots of consecutive runs are drawn uniformly among eligible frames."""
    m = mods()
    n = 1500
    seed = c.i(0, 2**31)
    if c.p(0.5):
        ncat = c.i(2, 4)
        table = []
        for k in range(ncat):
            for s in range(c.pick(1, 2, 9)):
                table += [(f"s{k}_{s}", f"c{k}", j, 0.0, "train_known") for j in range(c.i(1, 6))]
        table = mix(c, table)
        per, k = c.i(1, 3), 1
        np.random.seed(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = list(m.sb.SceneBatchSampler(m.Toy(rows=table), batch_size=per * k, num_batches=n, images_per_seq_options=[per]))
        hist = {f"c{j}": 0 for j in range(ncat)}
        for b in got:
            hist[table[b[0]][1]] += 1
        sd = math.sqrt(n * (1 / ncat) * (1 - 1 / ncat))
        c.count("category")
        c.sig("cat", ncat, per)
        if max(abs(v - n / ncat) for v in hist.values()) > 7 * sd:
            c.fail("categories are not sampled uniformly", got=hist, expected=n / ncat, sd=sd, rows=[list(r) for r in table])
        return
    # runs of several lengths; the expected number of appearances of every window follows from a uniform pivot
    size = c.i(2, 4)
    lens = [c.i(1, 9) for _ in range(c.i(1, 4))]
    if max(lens) < size:
        lens[0] = size + 2
    table, no = [], 0
    for L in lens:
        table += [("s", "c", no + j, 0.0, "train_known") for j in range(L)]
        no += L + 5
    np.random.seed(seed)
    got = list(m.sb.SceneBatchSampler(m.Toy(rows=table), batch_size=size, num_batches=n, images_per_seq_options=(size,), sample_consecutive_frames=True, consecutive_frames_max_gap=c.i(1, 5), consecutive_frames_max_gap_seconds=0.0))
    lo, prob = 0, {}
    ok = [(sum(lens[:k]), L) for k, L in enumerate(lens) if L >= size]
    total = sum(L for _, L in ok)
    # the pivot is the middle of the window except at the borders: each window is centred on one pivot, border windows on several
    hist = {}
    for b in got:
        hist[b[0]] = hist.get(b[0], 0) + 1
    for a, L in ok:
        c.count("pivot")
        seen = sum(v for k, v in hist.items() if a <= k < a + L)
        p = L / total
        sd = math.sqrt(n * p * (1 - p)) + 1e-9
        if abs(seen - n * p) > 7 * sd + 1:
            c.fail("runs are not drawn in proportion to their number of frames", lens=lens, size=size, run=a, got=seen, expected=n * p)
        for s in range(a, a + L - size + 1):
            edge = s in (a, a + L - size)
            p = 1 / total
            v = hist.get(s, 0)
            sd = math.sqrt(n * p)
            if v < n * p - 7 * sd - 1 or (not edge and v > n * p + 7 * sd + 1):
                c.fail("windows are not centred on a uniformly drawn frame", lens=lens, size=size, start=s, got=v, expected=n * p)
    c.sig("pivot", tuple(lens), size)


@monitor(quick=24, thorough=800, need=("json", "sql"))
def real_datasets(c):
    """The sampler over the JSON and SQL frame datasets."""
    from checks import c36
    m, d = mods(), c36.mods()
    tab = c36.Table(c, max_seq=6, max_frames=7)
    try:
        if c.p(0.5):
            c.count("json")
            tab.write_json()
            ds = d.J(frame_annotations_file=tab.fa, sequence_annotations_file=tab.sa, remove_empty_masks=False, **tab.builder_args())
        else:
            c.count("sql")
            tab.write_sql()
            ds = d.S(sqlite_metadata_file=tab.db, dataset_root=tab.dir, remove_empty_masks=False, frame_data_builder_class_type="FrameDataBuilder", frame_data_builder_FrameDataBuilder_args=tab.builder_args())
        table = []
        for i in range(len(ds)):
            f = ds[i]
            row = [r for r in tab.frames if (r["seq"], r["no"]) == (f.sequence_name, int(f.frame_number))][0]
            table.append((row["seq"], row["cat"], row["no"], row["ts"], row["subset"]))
        for _ in range(4):
            cons = c.p(0.6)
            gap, sec = c.pick((0, 0.1), (1, 0.0), (3, 0.0), (0, 0.0), (0, 0.5), (8, 3.0))
            bs, options, aware = c.i(1, 7), tuple(c.pick(1, 2, 3, 5) for _ in range(c.i(1, 2))), c.p(0.5)
            comp = Composition(table, bs, options, cons, gap, sec, aware)
            s = m.sb.SceneBatchSampler(ds, batch_size=bs, num_batches=4, images_per_seq_options=options, sample_consecutive_frames=cons, consecutive_frames_max_gap=gap, consecutive_frames_max_gap_seconds=sec, category_aware=aware)
            np.random.seed(c.i(0, 2**31))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for b in s:
                    why = comp.problem(b)
                    if why:
                        c.fail(f"scene batch over a {type(ds).__name__}: {why}", batch=b, rows=[list(r) for r in table], batch_size=bs, options=options, consecutive=cons, gap=gap, seconds=sec, category_aware=aware)
            c.sig(type(ds).__name__, bs, options, cons, gap, sec, aware)
        np.random.seed(0)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            dl = m.dl.SequenceDataLoaderMapProvider(batch_size=3, images_per_seq_options=(2,), dataset_length_train=3)
            dm = m.DM(train=ds, val=None, test=None)
            for fd in dl.get_data_loader_map(dm).train:
                got = set(zip(fd.sequence_name, [int(x) for x in fd.frame_number]))
                if len(got) != len(fd.sequence_name) or not got <= {(r[0], r[2]) for r in table}:
                    c.fail("a loaded batch is not made of distinct frames of the dataset", got=sorted(got))
    finally:
        tab.close()


@monitor(quick=900, thorough=40000, need=("epoch", "without_replacement", "with_replacement", "fixed_batches", "too_small", "single", "prefix"))
def pool_batches(c):
    m = mods()
    P = m.dl.DoublePoolBatchSampler
    universe = mix(c, range(40))
    nf, nr = c.i(1, 9), c.i(0, 9)
    first = universe[:nf]
    rest = universe[nf: nf + nr] if c.p(0.6) else mix(c, range(40))[:nr]
    bs = c.i(1, 6)
    repl = c.p(0.4)
    num = c.pick(None, 0, c.i(1, 30), c.i(1, 30))
    data = {"first": first, "rest": rest, "batch_size": bs, "replacement": repl, "num_batches": num}
    if bs - 1 > nr:
        c.count("too_small")
        c.raises(ValueError, lambda: P(first_indices=first, rest_indices=rest, batch_size=bs, replacement=repl, num_batches=num), "a pool smaller than the batch was accepted")
        return
    seed = c.i(0, 2**31)
    torch.manual_seed(seed)
    s = P(first_indices=list(first), rest_indices=list(rest), batch_size=bs, replacement=repl, num_batches=num)
    n = num or nf
    if len(s) != n:
        c.fail("len(sampler) is not the length of an epoch", got=len(s), want=n, **data)
    c.sig(nf, nr, bs, repl, num)
    c.count("fixed_batches" if num else "epoch")
    c.count("with_replacement" if repl else "without_replacement")
    epochs = []
    for _ in range(3):
        got = list(s)
        epochs.append(got)
        if len(got) != n:
            c.fail("another number of batches than len(sampler)", got=len(got), **data)
        for b in got:
            if not isinstance(b, list) or len(b) != bs or not all(isinstance(i, int) for i in b):
                c.fail("a pool batch is not a list of batch_size ints", got=b, **data)
            if b[0] not in first or not set(b[1:]) <= set(rest) or len(set(b[1:])) != bs - 1:
                c.fail("a pool batch is not one first index followed by distinct rest indices", got=b, **data)
        if not repl:
            head = [b[0] for b in got]
            for a in range(0, n, nf):
                part = head[a:a + nf]
                if len(set(part)) != len(part):
                    c.fail("first indices repeat before the pool is used up although drawn without replacement", got=head, **data)
    if bs == 1:
        c.count("single")
    # documented: the same program with a larger batch has the same first elements
    if bs > 1:
        torch.manual_seed(seed)
        small = list(P(first_indices=list(first), rest_indices=list(rest), batch_size=c.i(1, bs - 1), replacement=repl, num_batches=num))
        c.count("prefix")
        if [b[0] for b in small] != [b[0] for b in epochs[0]]:
            c.fail("with the same seed and a smaller batch the first elements differ", got=small, want=epochs[0], **data)
    if n * 3 >= 60 and repl and nf <= 3:
        if {b[0] for e in epochs for b in e} != set(first):
            c.fail("first indices never drawn", got=epochs, **data)
    if c.p(0.1) and bs > 1:
        torch.manual_seed(seed)
        k = 40 * nr
        s = P(first_indices=list(first), rest_indices=list(rest), batch_size=bs, replacement=repl, num_batches=k)
        if {i for b in s for i in b[1:]} != set(rest):
            c.fail("rest indices never drawn", draws=k, **data)


def positions(fd):
    """Which frames a collated batch holds: (dataset tag, index)."""
    return [tuple(int(v) for v in x["at"]) for x in fd.meta] if isinstance(fd.meta, (list, tuple)) else list(zip(*[[int(v) for v in t] for t in fd.meta["at"]]))


@monitor(quick=400, thorough=15000, need=("eval_once", "plain_epoch", "plain_fixed", "scene_loader", "train_pool", "known_pool", "missing", "refused", "workers"))
def loaders(c):
    m = mods()
    kind = c.pick("simple", "sequence", "sequence", "sequence", "train_eval")
    tabs, sets = [], {}
    for k, name in enumerate(("train", "val", "test")):
        table, _ = rows(c, max_seq=4, max_len=6)
        tabs.append(table)
        ev = None
        if c.p(0.3):
            ev = [[c.i(0, len(table) - 1) for _ in range(c.i(1, 4))] for _ in range(c.i(1, 5))]
        sets[name] = None if c.p(0.15) else m.Toy(rows=table, tag=k, evals=ev)
    bs = c.i(1, 4)
    lens = [c.pick(0, 0, c.i(1, 6)) for _ in range(3)]
    workers = 1 if c.p(0.01) or c.index == 3 else 0
    kw = {"batch_size": bs, "num_workers": workers, **{f"dataset_length_{n}": v for n, v in zip(("train", "val", "test"), lens)}}
    B = m.dl.BatchConditioningType
    options, conds = (), [B.SAME] * 3
    if kind == "simple":
        provider = m.dl.SimpleDataLoaderMapProvider(**kw)
    else:
        if c.p(0.4):
            options = tuple(c.i(1, 4) for _ in range(c.i(1, 2)))
            kw.update(images_per_seq_options=options, sample_consecutive_frames=c.p(0.3), consecutive_frames_max_gap=c.pick(0, 2), consecutive_frames_max_gap_seconds=c.pick(0.0, 0.5))
        if kind == "sequence":
            conds = [c.pick(B.SAME, B.SAME, B.KNOWN, B.TRAIN) for _ in range(3)]
            if options and c.p(0.8):
                conds = [B.SAME] * 3
            kw.update({f"{n}_conditioning_type": t for n, t in zip(("train", "val", "test"), conds)})
            provider = m.dl.SequenceDataLoaderMapProvider(**kw)
        else:
            provider = m.te.TrainEvalDataLoaderMapProvider(**kw)
    data = {"kind": kind, "tables": [[list(r) for r in t] for t in tabs], "evals": [s and s.evals for s in sets.values()], "args": {k: str(v) for k, v in kw.items()}}
    c.sig(kind, bs, tuple(lens), options, tuple(str(x) for x in conds), tuple(s is None for s in sets.values()))

    def pools(k):
        table = tabs[k]
        if conds[k] is B.TRAIN:
            return [(k, i) for i in range(len(table))], (None if sets["train"] is None else [(0, i) for i in range(len(tabs[0]))])
        return [(k, i) for i, r in enumerate(table) if not r[4].endswith("known")], [(k, i) for i, r in enumerate(table) if r[4].endswith("known")]

    def mode(k):
        name = ("train", "val", "test")[k]
        ds = sets[name]
        if ds is None:
            return "missing"
        if ds.evals is not None and (kind != "train_eval" or name == "test"):
            return "eval"
        if kind == "sequence" and options and conds[k] is not B.SAME:
            return "refused"
        if kind == "train_eval":
            return "scene" if options else "plain" if bs == 1 else "train"
        if kind == "simple" or bs == 1 or (not options and conds[k] is B.SAME):
            return "plain"
        return "scene" if options else "train" if conds[k] is B.TRAIN else "known"

    if kind == "train_eval":
        conds = [B.TRAIN] * 3
    modes = [mode(k) for k in range(3)]
    bad = "refused" in modes
    for k, mo in enumerate(modes):
        if mo in ("train", "known"):
            f, r = pools(k)
            bad = bad or r is None or len(r) < bs - 1
    dm = m.DM(**sets)
    if bad:
        c.count("refused")
        c.raises(ValueError, lambda: provider.get_data_loader_map(dm), "an impossible conditioning was accepted")
        return
    # an order of frames without timestamps which repeats numbers is refused by the sampler itself
    torch.manual_seed(c.i(0, 2**31))
    np.random.seed(c.i(0, 2**31))
    maps = provider.get_data_loader_map(dm)
    for k, name in enumerate(("train", "val", "test")):
        loader, ds, table, mo = getattr(maps, name), sets[name], tabs[k], modes[k]
        if maps[name] is not loader:
            c.fail("a loader map returns another loader by name", name=name)
        if mo == "missing":
            c.count("missing")
            if loader is not None:
                c.fail("a loader for a missing dataset", name=name)
            continue
        if mo == "known" and not pools(k)[0]:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            epochs = [[positions(fd) for fd in loader] for _ in range(1 if workers else 2)]
        if workers:
            c.count("workers")
        n = lens[k]
        for got in epochs:
            if len(got) != len(loader):
                c.fail("len(loader) differs from the number of batches it yields", got=len(got), want=len(loader), name=name, **data)
            if mo == "eval":
                c.count("eval_once")
                if got != [[(k, i) for i in b] for b in ds.evals]:
                    c.fail("evaluation batches are not each delivered once in order", got=got, name=name, **data)
                continue
            if mo == "plain":
                c.count("plain_fixed" if n else "plain_epoch")
                if len(got) != (n or len(table) // bs) or any(len(b) != bs for b in got):
                    c.fail("wrong number or size of batches", got=got, name=name, **data)
                flat = [x for b in got for x in b]
                if not all(t == k and 0 <= i < len(table) for t, i in flat) or (not n and len(set(flat)) != len(flat)):
                    c.fail("an epoch repeats frames or takes them from another dataset", got=got, name=name, **data)
                continue
            if len(got) != (n or (len(table) if mo != "known" else len(pools(k)[0]))):
                c.fail("wrong number of batches", got=got, name=name, mode=mo, **data)
            if mo == "scene":
                c.count("scene_loader")
                comp = Composition(table, bs, options, kw["sample_consecutive_frames"], kw["consecutive_frames_max_gap"], kw["consecutive_frames_max_gap_seconds"], True)
                for b in got:
                    why = "frames of another dataset" if any(t != k for t, _ in b) else comp.problem([i for _, i in b])
                    if why:
                        c.fail(f"scene loader: {why}", batch=b, name=name, **data)
                continue
            c.count(f"{mo}_pool")
            f, r = pools(k)
            for b in got:
                if len(b) != bs or b[0] not in f or not set(b[1:]) <= set(r) or len(set(b[1:])) != bs - 1:
                    c.fail("a conditioned batch is not one target frame followed by distinct conditioning frames", got=b, name=name, mode=mo, **data)
