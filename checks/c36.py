"""Frame datasets over JSON and SQL annotations against a plain Python filter; annotation codecs."""
import contextlib
import dataclasses
import io
import json
import os
import shutil
import tempfile
import typing
import warnings

import numpy as np
import torch

from lib.harness import monitor

TECHNIQUE = ("runtime monitoring: generated annotation tables are stored as JSON or SQLite files, the real datasets and providers are built on them, and every frame, order, index form and iteration they "
             "return is compared with a plain Python filter over the generated table; every image names its frame in its pixels")
RULE = "annotation tables x filter combinations x index forms x joins, subsets and evaluation batches; distinct = distinct (filters, table shape)"
ASSUMPTIONS = ["random per-sequence sampling is judged by counts, membership and repeatability", "where a JSON dataset combines subsets, empty masks and a limit on sequences, sequences without any admissible frame may or may not count towards the limit",
               "timestamps are stored in SQLite for every frame (its schema requires them)"]

M = None


def mods():
    global M
    if M is None:
        import logging
        import types as ty
        logging.disable(logging.WARNING)
        warnings.simplefilter("ignore")
        from pytorch3d.implicitron.dataset import dataset_map_provider, frame_data, json_index_dataset, orm_types, single_sequence_dataset, sql_dataset, types
        from pytorch3d.implicitron.dataset import json_index_dataset_map_provider, json_index_dataset_map_provider_v2, sql_dataset_provider
        from pytorch3d.implicitron.tools.config import expand_args_fields
        for k in (json_index_dataset.JsonIndexDataset, sql_dataset.SqlIndexDataset, json_index_dataset_map_provider.JsonIndexDatasetMapProvider, json_index_dataset_map_provider_v2.JsonIndexDatasetMapProviderV2,
                  sql_dataset_provider.SqlIndexDatasetMapProvider):
            expand_args_fields(k)
        M = ty.SimpleNamespace(J=json_index_dataset.JsonIndexDataset, S=sql_dataset.SqlIndexDataset, t=types, o=orm_types, DM=dataset_map_provider.DatasetMap, P1=json_index_dataset_map_provider.JsonIndexDatasetMapProvider,
                               P2=json_index_dataset_map_provider_v2.JsonIndexDatasetMapProviderV2, PS=sql_dataset_provider.SqlIndexDatasetMapProvider, one=single_sequence_dataset)
    return M


SUBSETS = ["train", "val", "test"]


def mix(c, xs):
    xs = list(xs)
    return [xs[i] for i in c.perm(len(xs))]


def quiet(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **kw)


class Table:
    """A generated table of sequences and frames; rows are plain dicts."""

    def __init__(self, c, images=False, nulls=False, subsets=SUBSETS, max_seq=7, max_frames=7, cats=None, prefix=""):
        self.c = c
        cats = cats or mix(c, ["apple", "car", "hydrant", "b c'd"])[: c.i(1, 3)]
        n_seq = c.i(1, max_seq)
        names = mix(c, [prefix + x for x in ["zeta", "alpha", "seq_10", "seq_9", "110_13051_23361", "o'neil", "Ωmega", "s", "mm"]])[:n_seq]
        self.seqs = [{"name": n, "cat": c.pick(*cats), "quality": c.u(0, 1) if c.p(0.7) else None} for n in names]
        self.frames = []
        timed = c.p(0.75)
        scattered = c.p(0.5)
        for s in self.seqs:
            n = c.i(1, max_frames)
            nos = sorted(mix(c, range(3 * n))[:n]) if scattered else list(range(n))
            ts = sorted(round(c.u(0, 3), 3) for _ in range(n))
            if c.p(0.15):
                ts = mix(c, ts)     # the order of frame numbers and timestamps may differ
            for i, no in enumerate(nos):
                self.frames.append({"seq": s["name"], "no": no, "ts": ts[i] if timed else 0.0, "cat": s["cat"], "path": f"{s['cat']}/{s['name']}/images/frame{no * 5:06d}.png".replace(" ", "_"),
                                    "size": (c.i(2, 5), c.i(2, 5)), "mass": c.pick(*([0.0, 2.0, 5.5, 30.0, 30.0] + ([None] if nulls else []))), "subset": c.pick(*(list(subsets) + ([None] if c.p(0.3) else [])))})
        if c.p(0.6):
            c.rng.shuffle(self.frames)
        for i, f in enumerate(self.frames):
            f["id"] = i
            f["R"] = self.rotation()
            f["T"] = tuple(float(np.float32(c.u(-2, 2))) for _ in range(3))
            f["focal"] = tuple(float(np.float32(c.u(0.5, 2))) for _ in range(2))
        self.dir = tempfile.mkdtemp(prefix="vc36")
        self.images = images
        if images:
            from PIL import Image
            for f in self.frames:
                p = os.path.join(self.dir, f["path"])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                h, w = f["size"]
                Image.fromarray(np.full((h, w, 3), f["id"], np.uint8) + np.array([0, 50, 100], np.uint8)).save(p)

    def rotation(self):
        q = torch.linalg.qr(self.c.randn(3, 3, dtype=torch.float64))[0]
        return tuple(tuple(float(np.float32(x)) for x in r) for r in q.tolist())

    def close(self):
        shutil.rmtree(self.dir)

    def annotation(self, f):
        t = mods().t
        return t.FrameAnnotation(sequence_name=f["seq"], frame_number=f["no"], frame_timestamp=f["ts"], image=t.ImageAnnotation(path=f["path"], size=f["size"]),
                                 mask=t.MaskAnnotation(path=f["path"].replace("images", "masks"), mass=f["mass"]),
                                 viewpoint=t.ViewpointAnnotation(R=f["R"], T=f["T"], focal_length=f["focal"], principal_point=(0.0, 0.0), intrinsics_format="ndc_isotropic"),
                                 meta={"frame_type": f["subset"], "id": f["id"]} if f.get("meta", True) else None)

    def write_json(self, sub=""):
        t = mods().t
        d = os.path.join(self.dir, sub)
        os.makedirs(d, exist_ok=True)
        self.fa, self.sa = os.path.join(d, "frame_annotations.jgz"), os.path.join(d, "sequence_annotations.jgz")
        cat = [s for s in self.seqs if not sub or s["cat"] == sub]
        t.dump_dataclass_jgzip(self.fa, [self.annotation(f) for f in self.frames if not sub or f["cat"] == sub])
        t.dump_dataclass_jgzip(self.sa, [t.SequenceAnnotation(sequence_name=s["name"], category=s["cat"], viewpoint_quality_score=s["quality"]) for s in cat])

    def subset_lists(self, shuffle=False, only=None):
        out = {k: [] for k in SUBSETS}
        for f in (mix(self.c, self.frames) if shuffle else self.frames):
            if f["subset"] is not None and (only is None or f["cat"] == only):
                out.setdefault(f["subset"], []).append((f["seq"], f["no"], f["path"]))
        return out

    def write_lists(self, name="set_lists.json", **kw):
        self.lists = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(self.lists), exist_ok=True)
        with open(self.lists, "w") as h:
            json.dump(self.subset_lists(**kw), h)
        return self.lists

    def write_sql(self, name="metadata.sqlite"):
        import sqlalchemy as sa
        from sqlalchemy.orm import Session
        o, t = mods().o, mods().t
        self.db = os.path.join(self.dir, name)
        e = sa.create_engine("sqlite:///" + self.db)
        o.Base.metadata.create_all(e, tables=[o.SqlFrameAnnotation.__table__, o.SqlSequenceAnnotation.__table__])
        with Session(e) as s:
            for q in self.seqs:
                s.add(o.SqlSequenceAnnotation(sequence_name=q["name"], category=q["cat"], video=t.VideoAnnotation("v", 1.0), point_cloud=t.PointCloudAnnotation("p", 0.5, 3), viewpoint_quality_score=q["quality"]))
                s.flush()
            for f in self.frames:
                a = self.annotation(f)
                s.add(o.SqlFrameAnnotation(sequence_name=f["seq"], frame_number=f["no"], frame_timestamp=f["ts"], image=a.image, depth=t.DepthAnnotation(None, None, None), mask=a.mask, viewpoint=a.viewpoint))
                s.flush()
            s.commit()
        e.dispose()

    def builder_args(self):
        return {"dataset_root": self.dir, "load_images": self.images, "load_depths": False, "load_depth_masks": False, "load_masks": False, "box_crop": False, "image_height": None, "image_width": None}


def key(f):
    return f["seq"], f["no"]


def check_frame(c, tab, fd, f, what, blobs=True, subset=None):
    """One returned frame against its row."""
    c.count("frame")
    got = (fd.sequence_name, int(fd.frame_number))
    if got != key(f):
        c.fail(f"{what} returned another frame", got=got, want=key(f))
    path = os.path.join(tab.dir, f["path"])
    ts = None if f["ts"] is None else torch.tensor(f["ts"], dtype=torch.float)
    same_ts = fd.frame_timestamp is ts if ts is None or fd.frame_timestamp is None else torch.equal(fd.frame_timestamp, ts)
    if fd.sequence_category != f["cat"] or fd.image_path != path or not same_ts or tuple(fd.image_size_hw.tolist()) != tuple(f["size"]):
        c.fail(f"{what}: category, path, timestamp or size of another frame", got=[fd.sequence_category, fd.image_path, fd.frame_timestamp, fd.image_size_hw], want=[f["cat"], path, ts, f["size"]])
    if fd.mask_path != path.replace("images", "masks"):
        c.fail(f"{what}: mask path of another frame", got=fd.mask_path, want=path)
    cam = fd.camera
    c.close(cam.R[0], torch.tensor(f["R"]), f"{what}: camera rotation", atol=1e-6)
    c.close(cam.T[0], torch.tensor(f["T"]), f"{what}: camera translation", atol=1e-6)
    c.close(cam.focal_length[0], torch.tensor(f["focal"]), f"{what}: focal length", atol=1e-6)
    q = [s["quality"] for s in tab.seqs if s["name"] == f["seq"]][0]
    if (fd.camera_quality_score is None) != (q is None) or (q is not None and abs(float(fd.camera_quality_score) - q) > 1e-6):
        c.fail(f"{what}: quality score of another sequence", got=fd.camera_quality_score, want=q)
    want = f["subset"] if subset is None else subset[0]
    if fd.frame_type != want:
        c.fail(f"{what}: frame_type", got=fd.frame_type, want=want)
    if tab.images and blobs:
        v = (fd.image_rgb * 255).round()
        w = torch.tensor([f["id"], f["id"] + 50.0, f["id"] + 100.0])[:, None, None].expand(3, *f["size"])
        if v.shape != w.shape or not torch.equal(v, w):
            c.fail(f"{what}: pixels of another frame's image", got=v, want=w)


def in_order(rows, subset=None):
    """(timestamp, frame number, position) of (position, row) pairs in documented order."""
    return sorted((f["ts"] or 0.0, f["no"], i) for i, f in rows if subset is None or f["subset"] in subset)


def check_sequences(c, ds, rows, typed=True):
    """Iteration by sequence against the rows of the dataset (list in dataset order)."""
    names = list(ds.sequence_names())
    want = []
    for f in rows:
        if f["seq"] not in want:
            want.append(f["seq"])
    if len(names) != len(set(names)) or set(names) != set(want):
        c.fail("sequence_names", got=names, want=want)
    cats = {}
    for n in want:
        cats.setdefault([f["cat"] for f in rows if f["seq"] == n][0], set()).add(n)
    got = ds.category_to_sequence_names()
    if {k: set(v) for k, v in got.items()} != cats or any(len(set(v)) != len(v) for v in got.values()):
        c.fail("category_to_sequence_names", got=got, want=cats)
    present = sorted({f["subset"] for f in rows if f["subset"]})
    for n in names:
        mine = [(i, f) for i, f in enumerate(rows) if f["seq"] == n]
        for sub in [None] + ([mix(c, present)[: c.i(1, len(present))]] if present and typed else []):
            want = in_order(mine, sub)
            got = [tuple(x) for x in ds.sequence_frames_in_order(n, sub)]
            c.count("sequence_subset" if sub else "sequence")
            if [(int(b), int(i)) for _, b, i in got] != [(b, i) for _, b, i in want]:
                c.fail("sequence_frames_in_order lists other frames or another order", seq=n, subset=sub, got=got, want=want)
            if any(a is None or abs(float(a) - b) > 1e-6 for (a, _, _), (b, _, _) in zip(got, want)):
                c.fail("sequence_frames_in_order returned other timestamps", seq=n, subset=sub, got=got, want=want)
            got = [int(i) for i in ds.sequence_indices_in_order(n, sub)]
            if got != [i for _, _, i in want]:
                c.fail("sequence_indices_in_order lists other frames or another order", seq=n, subset=sub, got=got, want=[i for _, _, i in want])
        idx = mix(c, [i for i, _ in mine])
        got = [tuple(x) for x in ds.get_frame_numbers_and_timestamps(idx)]
        want = [(rows[i]["no"], rows[i]["ts"] or 0.0) for i in idx]
        if len(got) != len(want) or any(len(a) != 2 or int(a[0]) != b[0] or abs((a[1] or 0.0) - b[1]) > 1e-6 for a, b in zip(got, want)):
            c.fail("get_frame_numbers_and_timestamps returned other pairs", got=got, want=want)


def limits(c, rows):
    seqs = sorted({f["seq"] for f in rows})
    kw = {}
    if c.p(0.3):
        kw["cats"] = mix(c, sorted({f["cat"] for f in rows}))[: c.i(1, 2)]
    if c.p(0.3):
        kw["pick"] = mix(c, seqs)[: c.i(1, len(seqs))]
    if c.p(0.3):
        kw["exclude"] = mix(c, seqs)[: c.i(1, max(1, len(seqs) - 1))]
    if c.p(0.35):
        kw["n_seq"] = c.i(1, len(seqs) + 1)
    if c.p(0.35):
        kw["per_seq"] = c.i(1, 4)
    if c.p(0.35):
        kw["n"] = c.i(1, len(rows) + 2)
    if c.p(0.4):
        kw["subsets"] = mix(c, SUBSETS)[: c.i(1, 2)]
    kw["masks"] = c.p(0.4)
    return kw


def sampled_ok(c, got, rows, per_seq, n, what):
    """got: keys; rows: admissible rows from which up to per_seq per sequence, then up to n, are taken."""
    if len(set(got)) != len(got):
        c.fail(f"{what} lists a frame twice", got=got)
    extra = set(got) - {key(f) for f in rows}
    if extra:
        c.fail(f"{what} holds frames that were filtered out", extra=extra)
    room = {}
    for f in rows:
        room[f["seq"]] = min(per_seq, room.get(f["seq"], 0) + 1)
    have = {s: sum(1 for k in got if k[0] == s) for s in room}
    total = sum(room.values())
    if any(have[s] > room[s] for s in room):
        c.fail(f"{what} holds more frames of a sequence than asked for", got=have, want=room)
    if len(got) != (min(n, total) if n else total):
        c.fail(f"{what} holds another number of frames than the filters leave", got=len(got), want=min(n, total) if n else total)


@monitor(quick=260, thorough=6000, need=("frame", "sequence", "sequence_subset", "empty", "sampled", "images", "joined", "subset_dataset", "eval_batches", "missing"))
def json_datasets(c):
    m = mods()
    tab = Table(c, images=c.p(0.15))
    try:
        lists = c.p(0.7)
        kw = limits(c, tab.frames)
        if not lists:
            kw.pop("subsets", None)
            for f in tab.frames:
                f["subset"] = None
        if c.p(0.2):
            for f in tab.frames:
                f["ts"] = None if c.p(0.5) else f["ts"]
        tab.write_json()
        srt = c.p(0.4)
        c.sig("json", sorted(kw), srt, len(tab.frames))
        args = dict(frame_annotations_file=tab.fa, sequence_annotations_file=tab.sa, sort_frames=srt, remove_empty_masks=kw["masks"], seed=c.i(0, 3), **tab.builder_args())
        if lists:
            args["subset_lists_file"] = tab.write_lists(shuffle=c.p(0.5))
        names = {"subsets": "subsets", "cats": "limit_category_to", "pick": "pick_sequence", "exclude": "exclude_sequence", "n_seq": "limit_sequences_to", "per_seq": "n_frames_per_sequence", "n": "limit_to"}
        for k, a in names.items():
            if k in kw:
                args[a] = kw[k]
        order = sorted(tab.frames, key=lambda f: (f["seq"], f["ts"] or 0)) if srt else tab.frames

        ok = [f for f in order if not kw["masks"] or f["mass"] > 1]
        ok = [f for f in ok if "subsets" not in kw or f["subset"] in kw["subsets"]]
        variants = []
        for drop in (0, 1, 2):      # sequences counted by the limit: all, those with frames in the subsets, those with admissible frames
            seqs = [s["name"] for s in tab.seqs]
            if drop == 0 and "subsets" in kw:
                continue
            if drop == 1 and "subsets" in kw:
                seqs = [s for s in seqs if any(f["seq"] == s and f["subset"] in kw["subsets"] for f in tab.frames)]
            if drop == 2:
                if "subsets" not in kw:
                    continue
                seqs = [s for s in seqs if any(f["seq"] == s for f in ok)]
            cat = {s["name"]: s["cat"] for s in tab.seqs}
            seqs = [s for s in seqs if ("cats" not in kw or cat[s] in kw["cats"]) and ("pick" not in kw or s in kw["pick"]) and s not in kw.get("exclude", ())]
            if "n_seq" in kw:
                seqs = seqs[: kw["n_seq"]]
            variants.append([f for f in ok if f["seq"] in seqs])
        if "subsets" in kw and not ok:
            c.count("empty")
            return c.raises(ValueError, lambda: m.J(**args), "building a dataset on empty subsets" + " did not raise")
        ds = m.J(**args)
        if len(ds) == 0:
            c.count("empty")
            if all(variants):
                c.fail("the dataset is empty although frames pass the filters", want=[[key(f) for f in v] for v in variants])
            return None
        byk = {key(f): f for f in tab.frames}
        fds = [ds[i] for i in range(len(ds))]
        got = [(fd.sequence_name, int(fd.frame_number)) for fd in fds]
        if "per_seq" in kw:
            c.count("sampled")
            # whichever of the admitted variants matches; the last one reports
            for v in variants:
                try:
                    sampled_ok(c, got, v, kw["per_seq"], kw.get("n"), "the sampled dataset")
                    break
                except Exception:
                    if v is variants[-1]:
                        raise
            if srt and got != [key(f) for f in order if key(f) in set(got)]:
                c.fail("sort_frames with sampled frames: not in order", got=got)
            again = m.J(**args)
            if [(a.sequence_name, int(a.frame_number)) for a in (again[i] for i in range(len(again)))] != got:
                c.fail("building the dataset again sampled other frames", got=got)
        else:
            want = [[key(f) for f in (v[: kw["n"]] if "n" in kw else v)] for v in variants]
            if got not in want:
                c.fail("the dataset holds other frames, or another order, than the filters leave", got=got, want=want[0], filters=kw)
        rows = [byk[k] for k in got]
        for i, fd in enumerate(fds):
            check_frame(c, tab, fd, rows[i], "dataset[i]")
        if tab.images:
            c.count("images")
        c.raises(IndexError, lambda: ds[len(ds)], "dataset[len(dataset)]" + " did not raise")
        check_sequences(c, ds, rows, typed=lists)
        if ds.is_filtered() != bool(set(kw) - {"subsets", "masks"} or kw["masks"]):
            c.fail("is_filtered", got=ds.is_filtered(), filters=kw)
        if c.p(0.5):
            json_lookups(c, ds, rows, tab, kw, args, lists)
        return None
    finally:
        tab.close()


def json_lookups(c, ds, rows, tab, kw, args, lists):
    """Lookups by (sequence, frame), evaluation batches, subsets by frame lists and joins."""
    m = mods()
    pos = {key(f): i for i, f in enumerate(rows)}

    def entry(f):
        return (f["seq"], f["no"], f["path"]) if c.p(0.5) else (f["seq"], f["no"])

    batches = [[entry(f) for f in mix(c, rows)[: c.i(1, 4)]] for _ in range(c.i(1, 4))]
    want = [[pos[e[:2]] for e in b] for b in batches]
    if ds.seq_frame_index_to_dataset_index(batches) != want:
        c.fail("seq_frame_index_to_dataset_index", got=ds.seq_frame_index_to_dataset_index(batches), want=want)
    gone = [f for f in tab.frames if key(f) not in pos]
    absent = [entry(f) for f in gone] + [(rows[0]["seq"], 12345), ("no such sequence", 0)]
    mixed = [mix(c, b + mix(c, absent)[: c.i(0, 2)]) for b in batches] + [[absent[-1]]]
    c.count("missing")
    c.raises(IndexError, lambda: ds.seq_frame_index_to_dataset_index(mixed), "looking up a missing frame" + " did not raise")
    names = list(ds.sequence_names())
    w = [[pos.get(tuple(e[:2])) for e in b] for b in mixed]
    if ds.seq_frame_index_to_dataset_index(mixed, allow_missing_indices=True) != w:
        c.fail("seq_frame_index_to_dataset_index with missing frames allowed", want=w)
    w = [x for x in ([i for i in b if i is not None] for b in w) if x]
    if ds.seq_frame_index_to_dataset_index(mixed, allow_missing_indices=True, remove_missing_indices=True) != w:
        c.fail("seq_frame_index_to_dataset_index with missing frames removed", want=w)
    if list(ds.sequence_names()) != names:
        c.fail("looking up frames changed the sequences of the dataset", got=list(ds.sequence_names()), want=names)
    with_batches = m.J(eval_batch_index=batches, **args)
    c.count("eval_batches")
    if with_batches.get_eval_batches() != want:
        c.fail("get_eval_batches points to other frames", got=with_batches.get_eval_batches(), want=want)

    c.count("subset_dataset")
    some = mix(c, rows)[: c.i(1, len(rows))]
    asked = [entry(f) for f in some]
    if ds.is_filtered() and gone:
        asked = mix(c, asked + [entry(c.pick(*gone))])
    base = with_batches if c.p(0.5) else ds
    sub = base.subset_from_frame_index(asked)
    srows = [f for e in asked for f in some if key(f) == tuple(e[:2])]
    if len(sub) != len(srows):
        c.fail("subset_from_frame_index holds another number of frames", got=len(sub), want=len(srows))
    for i, f in enumerate(srows):
        check_frame(c, tab, sub[i], f, "subset_from_frame_index", subset=(f["subset"] if lists or f.get("meta", True) else None,))
    check_sequences(c, sub, srows, typed=lists)
    eb = sub.get_eval_batches()
    if eb is not None:
        # batches of a subset have to point to frames of the batches that were given
        if any(i >= len(srows) for b in eb for i in b):
            c.fail("get_eval_batches of a subset points outside the subset", got=eb, size=len(srows))
        if any(sorted(key(srows[i]) for i in b) not in [sorted(tuple(e[:2]) for e in x if tuple(e[:2]) in {key(f) for f in srows}) for x in batches] for b in eb):
            c.fail("get_eval_batches of a subset points to other frames than the given batches", got=eb, want=batches)

    # joins: the frames of the second dataset follow those of the first
    tab2 = Table(c, prefix="q_")
    try:
        tab2.images = tab.images = False
        tab2.write_json()
        args2 = dict(frame_annotations_file=tab2.fa, sequence_annotations_file=tab2.sa, remove_empty_masks=False, **{**tab2.builder_args(), "dataset_root": tab.dir, "load_images": False})
        for f in tab2.frames:
            f["subset"] = None
        rows2 = list(tab2.frames)
        b2 = [[(f["seq"], f["no"]) for f in mix(c, rows2)[: c.i(1, 3)]] for _ in range(c.i(1, 3))]
        both = c.p(0.6)
        first = m.J(**{**args, "load_images": False, "eval_batch_index": batches if both else None})
        second = m.J(eval_batch_index=b2 if both else None, **args2)
        third = m.J(eval_batch_index=b2 if both else None, **args2) if c.p(0.3) else None
        if c.p(0.5):
            first.join([second] if third is None else [second, third])
        else:
            dm = m.DM(train=first, val=None, test=first if c.p(0.4) else None)
            other = m.DM(train=second, val=None, test=second if dm.test is first else None)
            dm.join([other])
            third = None
            if dm.train is not first:
                c.fail("DatasetMap.join returned another training set")
        c.count("joined")
        all_rows = rows + rows2 + (rows2 if third is not None else [])
        got = [(x.sequence_name, int(x.frame_number)) for x in (first[i] for i in range(len(first)))]
        if got != [key(f) for f in all_rows]:
            c.fail("a joined dataset does not hold the frames of its parts once each", got=got, want=[key(f) for f in all_rows])
        if both:
            off = len(rows)
            wantb = want + [[off + rows2.index(next(f for f in rows2 if key(f) == e)) for e in b] for b in b2]
            if third is not None:
                off += len(rows2)
                wantb += [[off + rows2.index(next(f for f in rows2 if key(f) == e)) for e in b] for b in b2]
            if first.get_eval_batches() != wantb:
                c.fail("evaluation batches of a joined dataset point to other frames", got=first.get_eval_batches(), want=wantb)
    finally:
        tab2.close()


@monitor(quick=300, thorough=8000, need=("frame", "sequence", "sequence_subset", "sampled", "clause", "subsets", "by_key", "filtered_out", "precomputed", "preloaded"))
def sql_datasets(c):
    m = mods()
    tab = Table(c, images=c.p(0.12), nulls=True)
    try:
        tab.write_sql()
        kw = limits(c, tab.frames)
        args = dict(sqlite_metadata_file=tab.db, remove_empty_masks=kw["masks"], seed=c.i(0, 3), frame_data_builder_FrameDataBuilder_args=tab.builder_args(), preload_metadata=c.p(0.2), precompute_seq_to_idx=c.p(0.25),
                    scoped_session=c.p(0.2), remove_empty_masks_poll_whole_table_threshold=c.pick(*[0, 300000]))
        if c.p(0.5):
            args["dataset_root"] = tab.dir
        names = {"subsets": "subsets", "cats": "pick_categories", "pick": "pick_sequences", "exclude": "exclude_sequences", "n_seq": "limit_sequences_to", "per_seq": "n_frames_per_sequence", "n": "limit_to"}
        for k, a in names.items():
            if k in kw:
                args[a] = kw[k]
        if "subsets" in kw:
            c.count("subsets")
            args["subset_lists_file"] = tab.write_lists(shuffle=c.p(0.6)) if c.p(0.6) else write_sql_lists(tab)
        frame_clause = lambda f: True
        if c.p(0.3):
            t1, t2 = c.u(0, 3), c.u(0, 3)
            if c.p(0.5):
                args["pick_frames_sql_clause"] = f"frame_timestamp < {t1}"
                frame_clause = lambda f: f["ts"] < t1
            else:
                args["pick_frames_sql_clause"] = f"frame_timestamp < {t1} OR _mask_mass > 3"
                frame_clause = lambda f: f["ts"] < t1 or (f["mass"] is not None and f["mass"] > 3)
            c.count("clause")
        seq_clause = lambda s: True
        if c.p(0.25):
            if c.p(0.5):
                args["pick_sequences_sql_clause"] = "sequence_name > 'm'"
                seq_clause = lambda s: s["name"] > "m"
            else:
                args["pick_sequences_sql_clause"] = "sequence_name < 'm' OR viewpoint_quality_score > 0.5"
                seq_clause = lambda s: s["name"] < "m" or (s["quality"] is not None and s["quality"] > 0.5)
            c.count("clause")
        per_cat = c.i(1, 3) if c.p(0.25) else 0
        if per_cat:
            args["limit_sequences_per_category_to"] = per_cat
        if c.p(0.1) and "per_seq" not in kw:
            args["n_frames_per_sequence"] = c.pick(*[0, -1])     # only positive values sample
        c.sig("sql", sorted(kw), sorted(args), len(tab.frames))

        rows = tab.frames
        if "subsets" in kw:
            rows = [f for f in rows if f["subset"] in kw["subsets"]]
        seqs = [s for s in tab.seqs if "subsets" not in kw or any(f["seq"] == s["name"] for f in rows)]
        seqs = [s for s in seqs if ("cats" not in kw or s["cat"] in kw["cats"]) and ("pick" not in kw or s["name"] in kw["pick"]) and s["name"] not in kw.get("exclude", ()) and seq_clause(s)]
        if per_cat:
            seqs = [s for i, s in enumerate(seqs) if sum(q["cat"] == s["cat"] for q in seqs[:i]) < per_cat]
        if "n_seq" in kw:
            seqs = seqs[: kw["n_seq"]]
        keep = {s["name"] for s in seqs}
        rows = [f for f in rows if f["seq"] in keep and frame_clause(f) and (not kw["masks"] or f["mass"] != 0)]
        if "n" in kw:
            rows = sorted(rows, key=key)[: kw["n"]]
        if not rows:
            c.count("empty")
            return c.raises(ValueError, lambda: quiet(m.S, **args), "building a dataset without frames" + " did not raise")
        ds = quiet(m.S, **args)
        fds = [ds[i] for i in range(len(ds))]
        got = [(fd.sequence_name, int(fd.frame_number)) for fd in fds]
        if "per_seq" in kw:
            c.count("sampled")
            sampled_ok(c, got, rows, kw["per_seq"], None, "the sampled dataset")
        elif sorted(got) != sorted(key(f) for f in rows):
            c.fail("the dataset holds other frames than the filters leave", got=sorted(got), want=sorted(key(f) for f in rows), filters=kw)
        elif "n" in kw and got != [key(f) for f in rows]:
            c.fail("the first frames of the dataset are not in order", got=got, want=[key(f) for f in rows])
        again = quiet(m.S, **args)
        if [(a.sequence_name, int(a.frame_number)) for a in (again.meta[i] for i in range(len(again)))] != got:
            c.fail("building the dataset again gave another order or other frames", got=got)
        if args["preload_metadata"]:
            c.count("preloaded")
        if args["precompute_seq_to_idx"]:
            c.count("precomputed")
        byk = {key(f): f for f in tab.frames}
        typed = "subsets" in kw
        out = [byk[k] for k in got]
        sub = None if typed else (None,)
        for i, fd in enumerate(fds):
            check_frame(c, tab, fd, out[i], "dataset[i]", subset=sub)
        for i in mix(c, range(len(out)))[:5]:
            f = out[i]
            for k in (key(f), (f["seq"], torch.tensor(f["no"])), (f["seq"], f["no"], f["path"])):
                c.count("by_key")
                check_frame(c, tab, ds[k], f, "dataset[sequence, frame]", subset=sub)
                check_frame(c, tab, ds.meta[k], f, "dataset.meta[sequence, frame]", blobs=False, subset=sub)
            check_frame(c, tab, ds.meta[i], f, "dataset.meta[i]", blobs=False, subset=sub)
            if ds.meta[i].image_rgb is not None:
                c.fail("dataset.meta loaded an image")
            c.raises(IndexError, lambda f=f: ds[f["seq"], f["no"], "x" + f["path"]], "asking for a frame with another path" + " did not raise")
        c.raises(IndexError, lambda: ds[len(ds)], "dataset[len(dataset)]" + " did not raise")
        for f in tab.frames:
            if key(f) not in set(got):
                c.count("filtered_out")
                c.raises(IndexError, lambda f=f: ds[key(f)], "asking for a frame that was filtered out" + " did not raise")
                break
        if not typed:
            for f in out:
                f["subset"] = None
        check_sequences(c, ds, out, typed=typed)
        filtered = bool(set(kw) - {"subsets", "masks"} or kw["masks"] or per_cat or "pick_frames_sql_clause" in args or "pick_sequences_sql_clause" in args)
        if ds.is_filtered() != filtered:
            c.fail("is_filtered", got=ds.is_filtered(), want=filtered, filters=sorted(args))
        return None
    finally:
        tab.close()


def write_sql_lists(tab, name="set_lists.sqlite"):
    import sqlite3
    p = os.path.join(tab.dir, name)
    db = sqlite3.connect(p)
    db.execute("CREATE TABLE set_lists (sequence_name TEXT, frame_number INTEGER, _image_path TEXT, subset TEXT)")
    for f in mix(tab.c, tab.frames):
        if f["subset"] is not None:
            db.execute("INSERT INTO set_lists VALUES (?, ?, ?, ?)", (f["seq"], f["no"], f["path"], f["subset"]))
    db.commit()
    db.close()
    tab.lists = p
    return p


def frames_of(ds):
    return [(f.sequence_name, int(f.frame_number)) for f in (ds[i] for i in range(len(ds)))]


@monitor(quick=120, thorough=1800, need=("v1", "v2", "v2_known", "v2_many", "sql", "sql_training_frames", "cameras", "unread batches", "only the test set"))
def providers(c):
    """Training, validation and test sets of the dataset providers, their evaluation batches and known frames."""
    m = mods()
    kind = c.pick("v1", "v2", "v2", "sql")
    known = c.i(1, 3) if c.p(0.5) else 0
    train_only = c.p(0.2)
    cats = ["apple", "car"]
    names = ["train_known", "train_unseen", "test_known", "test_unseen"] if kind == "v1" else SUBSETS
    tab = Table(c, subsets=names, cats=cats, max_seq=6, max_frames=9)
    try:
        for f in tab.frames:
            f["mass"] = 30.0
        c.count(kind)
        data_args = {k: v for k, v in tab.builder_args().items() if k != "dataset_root"}
        have = sorted({f["cat"] for f in tab.frames})
        cat = c.pick(*have)
        rows = [f for f in tab.frames if f["cat"] == cat]
        of = lambda *subs: [f for f in rows if f["subset"] in subs]

        if kind == "v1":
            single = c.p(0.6)
            for k in have:
                tab.write_json(k)
            tab.write_lists(f"{cat}/set_lists.json", only=cat)
            task = "singlesequence" if single else "multisequence"
            test = of("test_known", "test_unseen") + ([] if single else of("train_known", "train_unseen"))
            if not test or not of("test_known" if single else "train_known"):
                return c.count("degenerate")
            batches = [[(f["seq"], f["no"], f["path"]) for f in mix(c, [g for g in test if g["seq"] == s])[: c.i(1, 3)]] for s in mix(c, sorted({f["seq"] for f in test})) for _ in range(c.i(1, 2))]
            with open(os.path.join(tab.dir, cat, f"eval_batches_{task}.json"), "w") as h:
                json.dump(batches, h)
            kw = dict(category=cat, task_str=task, dataset_root=tab.dir, test_on_train=train_only, dataset_JsonIndexDataset_args=data_args)
            pick = None
            if single:
                order = list(dict.fromkeys(b[0][0] for b in batches))
                kw["test_restrict_sequence_id"] = c.i(0, len(order) - 1)
                pick = [order[kw["test_restrict_sequence_id"]]]
            elif c.p(0.4):
                pick = mix(c, sorted({f["seq"] for f in rows}))[:2]
                kw["restrict_sequence_name"] = pick
            mine = lambda fs: [f for f in fs if pick is None or f["seq"] in pick]
            want = {"train": mine(of("test_known" if single else "train_known")), "val": mine(test), "test": mine(test)}
            want_batches = [b for b in batches if pick is None or b[0][0] in pick]
            if (pick and not want["train"]) or not want["test"]:
                return c.count("degenerate")
            sets = quiet(m.P1, **kw)
        else:
            many = kind == "v2" and len(have) > 1 and c.p(0.4) and not __import__("multiprocessing").current_process().daemon
            lists, batches = {}, {}
            for k in have:
                lists[k] = tab.subset_lists(only=k, shuffle=c.p(0.5))
                trained = {f["seq"] for f in tab.frames if f["cat"] == k and f["subset"] == "train"}
                test_of = [f for f in tab.frames if f["cat"] == k and f["subset"] == "test" and f["seq"] in trained]
                batches[k] = [[(f["seq"], f["no"], f["path"]) for f in mix(c, [g for g in test_of if g["seq"] == s])[: c.i(1, 3)]] for s in mix(c, sorted({f["seq"] for f in test_of})) for _ in range(c.i(1, 2))]
            subs = {k: [f for f in tab.frames if f["cat"] == k] for k in have}
            if any(not any(f["subset"] == s for f in v) for v in subs.values() for s in SUBSETS) or not all(batches.values()):
                return c.count("degenerate")
            if kind == "v2":
                for k in have:
                    tab.write_json(k)
                    for folder, name, what in (("set_lists", "set_lists_v0.json", lists[k]), ("eval_batches", "eval_batches_v0.json", batches[k])):
                        os.makedirs(os.path.join(tab.dir, k, folder), exist_ok=True)
                        with open(os.path.join(tab.dir, k, folder, name), "w") as h:
                            json.dump(what, h)
                used = have if many else [cat]
                opts = {}
                if c.p(0.2):
                    opts["load_eval_batches"] = False
                    known = 0
                    for k in have:
                        os.remove(os.path.join(tab.dir, k, "eval_batches", "eval_batches_v0.json"))
                if c.p(0.2) and not train_only:
                    opts["only_test_set"] = True
                if many:
                    c.count("v2_many")
                if known and not train_only:
                    c.count("v2_known")
                sets = quiet(m.P2, category=",".join(used), subset_name="v0", dataset_root=tab.dir, test_on_train=train_only, n_known_frames_for_test=known, **opts, dataset_JsonIndexDataset_args=data_args)
                byk = {key(f): f for f in tab.frames}
                want = {s: [byk[tuple(e[:2])] for k in used for e in lists[k][s]] for s in SUBSETS}
                want_batches = [b for k in used for b in batches[k]]
            else:
                tab.write_sql()
                os.makedirs(os.path.join(tab.dir, cat, "set_lists"))
                name = write_sql_lists(tab, os.path.join(cat, "set_lists", "set_lists_v0.sqlite")) if c.p(0.5) else tab.write_lists(os.path.join(cat, "set_lists", "set_lists_v0.json"))
                os.makedirs(os.path.join(tab.dir, cat, "eval_batches"))
                with open(os.path.join(tab.dir, cat, "eval_batches", "eval_batches_v0.json"), "w") as h:
                    json.dump(batches[cat], h)
                kw = {}
                if c.p(0.5):
                    kw["subset_list_name"] = "v0"
                else:
                    kw["subset_lists_path"] = os.path.relpath(name, tab.dir)
                kw["eval_batches_path"] = f"{cat}/eval_batches/eval_batches_v0" + c.pick("", ".json")
                if known and not train_only:
                    c.count("sql_training_frames")
                sets = quiet(m.PS, category=cat, dataset_root=tab.dir, test_on_train=train_only, eval_batch_num_training_frames=known, **kw,
                             dataset_SqlIndexDataset_args={"frame_data_builder_FrameDataBuilder_args": data_args})
                want = {s: [f for f in rows if f["subset"] == s] for s in SUBSETS}
                if known:
                    want["test"] = want["test"] + want["train"]
                want_batches = batches[cat]
        dm = sets.get_dataset_map()
        c.sig(kind, known, train_only, len(tab.frames))
        if train_only:
            if dm.val is not dm.train or dm.test is not dm.train:
                c.fail("test_on_train: the validation and test sets are not the training set")
            want = {"train": want["train"]}
        if kind == "v2" and opts.get("only_test_set"):
            c.count("only the test set")
            if dm.train is not None:
                c.fail("v2: a training set although only the test set was asked for")
            del want["train"]
        for s in want:
            got = frames_of(dm[s])
            w = [key(f) for f in want[s]]
            c.count("set")
            if len(set(got)) != len(got):
                c.fail(f"{kind}: the {s} set lists a frame twice", got=got)
            if kind == "v2" and s == "test" and known:
                if not set(w) <= set(got):
                    c.fail("v2: the test set lacks test frames", got=got, want=w)
            elif sorted(got) != sorted(w):
                c.fail(f"{kind}: the {s} set holds other frames", got=sorted(got), want=sorted(w))
            byk = {key(f): f for f in tab.frames}
            for i, k in enumerate(got[:6]):
                check_frame(c, tab, dm[s][i], byk[k], f"{kind} {s}[i]")
        eb = dm.test.get_eval_batches()
        if kind == "v2" and "load_eval_batches" in opts:
            c.count("unread batches")
            if eb:
                c.fail("v2: evaluation batches although they were not to be loaded", got=eb)
        elif not train_only:
            byk = {key(f): f for f in tab.frames}
            got_all = frames_of(dm.test)
            eb = [[got_all[e] if isinstance(e, int) else tuple(e[:2]) for e in b] for b in eb]
            n = known if kind != "v1" else 0
            if len(eb) != len(want_batches):
                c.fail(f"{kind}: another number of evaluation batches", got=len(eb), want=len(want_batches))
            for b, w in zip(eb, want_batches):
                if b[: len(w)] != [tuple(e[:2]) for e in w]:
                    c.fail(f"{kind}: an evaluation batch lists other frames", got=b, want=w)
                extra = b[len(w):]
                room = [key(f) for f in tab.frames if f["seq"] == w[0][0] and f["subset"] == "train"]
                if len(extra) != min(n, len(room)) or len(set(extra)) != len(extra) or not set(extra) <= set(room):
                    c.fail(f"{kind}: the known frames added to an evaluation batch are not distinct training frames of its sequence", got=extra, want=(n, room))
            if kind == "sql":
                for b in eb:
                    for e in b:
                        check_frame(c, tab, dm.test[e], byk[e], "frame of an evaluation batch")
        else:
            if kind == "v2" and len(frames_of(dm.train)) != len(want["train"]):
                c.fail("v2: joined training sets repeat frames")
        if kind == "v1" and not single:
            if sets.get_all_train_cameras() is not None:
                c.fail("v1: training cameras for a multi-sequence task")
        elif kind == "v1" or kind == "v2" and "train" in want and c.p(0.3):
            if kind == "v2":
                for a in dm.train.frame_annots:
                    a["subset"] = "train_known" if a["frame_annotation"].meta["id"] % 2 else "train_unseen"
                byk = {key(f): f for f in tab.frames}
                w = [byk[k] for k in frames_of(dm.train) if byk[k]["id"] % 2]
                if not w:
                    return None
            else:
                byk = {key(f): f for f in tab.frames}
                w = [byk[k] for k in frames_of(dm.train)]
            c.count("cameras")
            cams = quiet(sets.get_all_train_cameras)
            c.close(cams.R, torch.tensor([f["R"] for f in w]), "rotations of all training cameras", atol=1e-6)
            c.close(cams.T, torch.tensor([f["T"] for f in w]), "translations of all training cameras", atol=1e-6)
        return None
    finally:
        tab.close()


@monitor(quick=120, thorough=3000, need=("known", "plain", "masks"))
def single_scene(c):
    """One-scene datasets: each split holds its own images, masks and poses; known frames follow the test frames."""
    m = mods()
    from pytorch3d.renderer.cameras import PerspectiveCameras
    sizes = [c.i(1, 5) for _ in range(3)]
    n = sum(sizes)
    order = c.perm(n)
    splits = [order[: sizes[0]], order[sizes[0]: sizes[0] + sizes[1]], order[sizes[0] + sizes[1]:]]
    images = torch.arange(n).float()[:, None, None, None].expand(n, 3, 2, 3) / 255
    masks = None if c.p(0.4) else images[:, :1] + 0.25
    poses = [PerspectiveCameras(T=torch.tensor([[float(i), 0, 1]])) for i in range(n)]
    known = None if c.p(0.4) else c.i(0, 4)
    c.count("plain" if known is None else "known")
    if masks is not None:
        c.count("masks")

    class Provider(m.one.SingleSceneDatasetMapProviderBase):
        def _load_data(self):
            self.poses, self.images, self.fg_probabilities, self.i_split = poses, images, masks, [np.array(s) for s in splits]

    from pytorch3d.implicitron.tools.config import expand_args_fields
    expand_args_fields(Provider)
    p = Provider(base_dir="", object_name="lego", n_known_frames_for_test=known)
    dm = p.get_dataset_map()
    c.sig("scene", sizes, known, masks is None)
    for s, name in enumerate(SUBSETS):
        ds = dm[name]
        ids = list(splits[s]) + (list(splits[0]) if s and known is not None else [])
        if len(ds) != len(ids):
            c.fail("length of a split", split=name, got=len(ds), want=len(ids))
        for i, k in enumerate(ids):
            f = ds[i]
            if not torch.equal(f.image_rgb, images[k]) or float(f.camera.T[0, 0]) != k or int(f.frame_number) != i:
                c.fail("an item holds another frame", split=name, index=i, got=float(f.camera.T[0, 0]), want=k)
            if (f.fg_probability is None) != (masks is None) or (masks is not None and not torch.equal(f.fg_probability, masks[k])):
                c.fail("an item holds the mask of another frame", split=name, index=i)
            w = "known" if s == 0 or i >= len(splits[s]) else "unseen"
            if f.frame_type != w:
                c.fail("frame type", split=name, index=i, got=f.frame_type, want=w)
        c.raises(IndexError, lambda: ds[len(ids)], "indexing past the end did not raise")
        name_ = list(ds.sequence_names())
        got = [i for i in ds.sequence_indices_in_order(name_[0])]
        kn = [i for i in ds.sequence_indices_in_order(name_[0], ["known"])]
        if len(name_) != 1 or got != list(range(len(ids))) or kn != [i for i in range(len(ids)) if s == 0 or i >= len(splits[s])]:
            c.fail("sequence iteration", got=got, known=kn)
        eb = ds.get_eval_batches()
        if name != "test":
            if eb is not None:
                c.fail("evaluation batches outside the test set", split=name)
        else:
            k = min(known or 0, sizes[0])
            ok = len(eb) == sizes[2] and all(b[0] == i and len(b) == 1 + k and len(set(b)) == len(b) and all(sizes[2] <= j < len(ids) for j in b[1:]) for i, b in enumerate(eb))
            if not ok:
                c.fail("evaluation batches of a one-scene test set", got=eb, sizes=sizes, known=known)
    cams = p.get_all_train_cameras()
    c.close(cams.T[:, 0], torch.tensor([float(i) for i in splits[0]]), "training cameras")


class Pair(typing.NamedTuple):
    a: int
    b: typing.Optional[str]


@dataclasses.dataclass
class Inner:
    x: float
    y: typing.Optional[typing.List[int]] = None
    z: typing.Tuple[int, str] = (3, "d")


@dataclasses.dataclass
class Outer:
    name: str
    inner: Inner
    maybe: typing.Optional[Inner] = None
    many: typing.List[Inner] = dataclasses.field(default_factory=list)
    named: typing.Dict[str, Inner] = dataclasses.field(default_factory=dict)
    pair: typing.Optional[Pair] = None
    nested: typing.Optional[typing.List[typing.List[float]]] = None
    any: typing.Any = None
    scores: typing.Optional[typing.Dict[str, float]] = None


def text(c):
    return c.pick("", "a", "name with spaces", "Ω\u2028\n", "quote\"'", "x" * 50, "12", "None", "é")


def number(c):
    return c.pick(0.0, -0.0, 1.5, 1e-300, 1e300, -3.25, 0.1, 2.0 ** 53 + 1, 1 / 3) if c.p(0.6) else c.u(-10, 10)


def inner(c):
    return Inner(number(c), None if c.p(0.3) else [c.i(-5, 5) for _ in range(c.i(0, 3))], (c.i(0, 9), text(c)))


def outer(c):
    return Outer(text(c), inner(c), None if c.p(0.4) else inner(c), [inner(c) for _ in range(c.i(0, 3))], {text(c): inner(c) for _ in range(c.i(0, 3))}, None if c.p(0.4) else Pair(c.i(0, 9), None if c.p(0.3) else text(c)),
                 None if c.p(0.3) else [[number(c) for _ in range(c.i(0, 3))] for _ in range(c.i(0, 3))], c.pick(None, 3, [1, {"k": [None]}], "s", {"a": 1}), None if c.p(0.4) else {text(c): number(c) for _ in range(c.i(0, 3))})


@monitor(quick=1500, thorough=40000, need=("annotations", "records", "single", "list", "file"))
def codecs(c):
    """Records written as JSON and read back are unchanged."""
    t = mods().t

    def opt(f, p=0.4):
        return None if c.p(p) else f()

    def mat():
        return tuple(tuple(number(c) for _ in range(3)) for _ in range(3))

    def frame():
        return t.FrameAnnotation(text(c), c.i(0, 10 ** 6), number(c), t.ImageAnnotation(text(c), (c.i(1, 4000), c.i(1, 4000))), opt(lambda: t.DepthAnnotation(text(c), number(c), opt(lambda: text(c)))),
                                 opt(lambda: t.MaskAnnotation(text(c), opt(lambda: number(c)), opt(lambda: tuple(number(c) for _ in range(4))))),
                                 opt(lambda: t.ViewpointAnnotation(mat(), mat()[0], (number(c), number(c)), (number(c), number(c)), c.pick("ndc_norm_image_bounds", "ndc_isotropic"))),
                                 opt(lambda: {text(c): c.pick(None, 1, [1, 2], {"q": 0.5}, "s") for _ in range(c.i(0, 3))}))

    def sequence():
        return t.SequenceAnnotation(text(c), text(c), opt(lambda: t.VideoAnnotation(text(c), number(c))), opt(lambda: t.PointCloudAnnotation(text(c), number(c), opt(lambda: c.i(0, 10 ** 7)))), opt(lambda: number(c)))

    make, cls = c.pick((frame, t.FrameAnnotation), (sequence, t.SequenceAnnotation), (lambda: outer(c), Outer), (lambda: outer(c), Outer))
    c.count("records" if cls is Outer else "annotations")
    if c.p(0.75):
        obj, typ = [make() for _ in range(c.i(0, 6))], typing.List[cls]
        c.count("list")
    else:
        obj, typ = make(), cls
        c.count("single")
    c.sig(cls.__name__, type(obj).__name__, len(obj) if isinstance(obj, list) else 0)
    before = repr(obj)
    if c.p(0.3):
        c.count("file")
        d = tempfile.mkdtemp(prefix="vc36")
        try:
            p = os.path.join(d, "x.jgz")
            t.dump_dataclass_jgzip(p, obj)
            got = t.load_dataclass_jgzip(p, typ)
        finally:
            shutil.rmtree(d)
    elif c.p(0.5):
        b = io.BytesIO()
        t.dump_dataclass(obj, b, binary=True)
        b.seek(0)
        got = t.load_dataclass(b, typ, binary=True)
    else:
        b = io.StringIO()
        t.dump_dataclass(obj, b)
        b.seek(0)
        got = t.load_dataclass(b, typ)
    if repr(obj) != before:
        c.fail("dumping changed the records")
    if got != obj or (isinstance(obj, list) and any(type(a) is not type(b) for a, b in zip(got, obj))):
        c.fail("records changed in a round trip through JSON", got=got, want=obj)
    if isinstance(obj, list) and obj and cls is Outer:
        for a, b in zip(got, obj):
            if type(a.pair) is not type(b.pair) or type(a.inner.z) is not tuple or any(type(x) is not Inner for x in a.many + list(a.named.values())):
                c.fail("records changed their types in a round trip through JSON", got=a, want=b)


@monitor(quick=250, thorough=5000, need=("row", "null", "array"))
def sql_records(c):
    """Annotations written to SQLite and read back: floats in single precision, everything else unchanged."""
    import sqlalchemy as sa
    from sqlalchemy.orm import Session
    o, t = mods().o, mods().t
    e = sa.create_engine("sqlite://")
    o.Base.metadata.create_all(e, tables=[o.SqlFrameAnnotation.__table__])

    def f32(*shape):
        a = np.float32(np.array([c.u(-3, 3) for _ in range(int(np.prod(shape)))])).reshape(shape).tolist()
        return tuple(map(tuple, a)) if len(shape) > 1 else tuple(a)

    rows = []
    for i in range(c.i(1, 5)):
        view = t.ViewpointAnnotation(f32(3, 3), f32(3), f32(2), f32(2), c.pick("ndc_isotropic", "ndc_norm_image_bounds"))
        rows.append(dict(sequence_name=text(c), frame_number=i, frame_timestamp=c.u(0, 9), image=t.ImageAnnotation(text(c), (c.i(1, 9000), c.i(1, 9000))), depth=t.DepthAnnotation(text(c), c.u(0, 2), None if c.p(0.5) else text(c)),
                         mask=t.MaskAnnotation(text(c), None if c.p(0.3) else c.u(0, 100), None if c.p(0.4) else f32(4)), viewpoint=view))
    with Session(e) as s:
        for r in rows:
            s.add(o.SqlFrameAnnotation(**r))
        s.commit()
    with Session(e) as s:
        got = s.scalars(sa.select(o.SqlFrameAnnotation).order_by(o.SqlFrameAnnotation.frame_number)).all()
        for g, r in zip(got, rows):
            c.count("row")
            if r["mask"].mass is None:
                c.count("null")
            for k, v in r.items():
                if getattr(g, k) != v:
                    c.fail(f"the {k} of a stored annotation changed", got=getattr(g, k), want=v)
    # array and tuple types on their own
    shape = tuple(c.i(1, 4) for _ in range(c.i(1, 3)))
    a = np.array([c.u(-3, 3) for _ in range(int(np.prod(shape)))]).reshape(shape).astype(c.pick(np.float32, np.float64))
    c.count("array")
    for typ in (o.ArrayTypeFactory(shape)(), o.ArrayTypeFactory()()):
        b = typ.process_result_value(typ.process_bind_param(a, None), None)
        if b.shape != a.shape or not np.array_equal(b, a.astype(np.float32)) or typ.process_bind_param(None, None) is not None or typ.process_result_value(None, None) is not None:
            c.fail("an array changed in the database", got=b, want=a)
    c.raises(ValueError, lambda: o.ArrayTypeFactory(shape + (1,))().process_bind_param(a, None), "an array of another shape was accepted")
    shape = c.pick((2,), (3,), (2, 3), (3, 3), (2, 2, 2))
    n = int(np.prod(shape))
    for dt, vals in ((int, [c.i(-2 ** 31, 2 ** 31 - 1) for _ in range(n)]), (float, [float(np.float32(c.u(-3, 3))) for _ in range(n)])):
        typ = o.TupleTypeFactory(dt, shape)()
        want = tup(np.array(vals, dtype=object).reshape(shape).tolist())
        got = typ.process_result_value(typ.process_bind_param(want, None), None)
        if got != want:
            c.fail("a tuple changed in the database", got=got, want=want)
    c.sig("sql", len(rows), shape)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x
