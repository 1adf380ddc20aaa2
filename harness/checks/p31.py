"""P31: nothing is read before it is needed, and what is needed is read once."""
import os

import h5py
import numpy as np
from hypothesis import strategies as st

import swiftsimio as sw
from harness import iotrace
from harness import masking as mk
from harness import snap
from harness.checks import p05, p28
from harness.core import SubCheck

RULE = "non-trivial = at least one field is read, through a mask that selects some but not all rows or from a file with other fields"
ASSUMPTIONS = [
    "a chunk of an HDF5 dataset is the smallest unit that can be transferred; contiguous datasets are transferred by row",
    "a property constraint may read the whole of the dataset it names",
]


def step():
    return st.fixed_dictionaries({
        "op": st.sampled_from(["get", "get", "get", "get", "again", "del", "set", "look"]),
        "g": st.integers(0, 3), "f": st.integers(0, 8), "c": st.integers(0, 3),
    })


def common(ways):
    return {
        "way": st.sampled_from(ways),
        "masked": st.sampled_from([0, 1, 1]),
        "spatial_only": st.booleans(),
        "ops": p05.ops(3),
        "steps": st.lists(step(), min_size=1, max_size=8),
    }


def snap_case():
    return st.fixed_dictionaries({"snap": snap.snapshot_case(max_cells=3, orders=("grid", "perm"), big=True),
                                  **common(["handle", "path", "Path"])})


def soap_case():
    return st.fixed_dictionaries({"soap": snap.soap_case(), **common(["handle", "path", "Path"])})


def remote_case():
    return st.sampled_from(["snap", "soap"]).flatmap(lambda k: st.fixed_dictionaries({
        k: snap.snapshot_case(max_cells=3, orders=("grid", "perm")) if k == "snap" else snap.soap_case(),
        **common(["remote"])}))


# ----------------------------------------------------------------------------- tracing of a remote file
class RDataset(p28.RemoteDataset):
    def __init__(self, d, log):
        super().__init__(d)
        self._log = log

    def _note(self, k):
        rows = np.arange(self.shape[0])[k[0] if isinstance(k, tuple) else k]
        for r in np.atleast_1d(rows):
            self._log.append((self.name.strip("/"), int(r)))

    def __getitem__(self, k):
        self._note(k)
        return self._d[...][k]      # remote datasets take every NumPy index

    def __array__(self, dtype=None, copy=None):
        self._note(np.s_[:])
        return super().__array__(dtype, copy)

    def request_slices(self, slices, dest=None):
        for s in slices:
            self._note(s)
        return super().request_slices(slices, dest)


class RGroup(p28.RemoteGroup):
    def __init__(self, g, log):
        super().__init__(g)
        self._log = log

    def __getitem__(self, k):
        o = self._g[k]
        return RDataset(o, self._log) if isinstance(o, h5py.Dataset) else RGroup(o, self._log)


class RFile(RGroup):
    def __init__(self, f, log):
        super().__init__(f, log)
        self.filename = "remote/dir/" + os.path.basename(f.filename)


class RemoteTrace:
    def __init__(self, path, names):
        self.file = h5py.File(path, "r")
        self.names, self.log, self.mark = set(names), [], 0

    def handle(self):
        return RFile(self.file, self.log)

    def new_reads(self):
        out = {}
        for name, r in self.log[self.mark:]:
            if name in self.names:
                out.setdefault(name, []).append((r, r + 1))
        self.mark = len(self.log)
        return out


# ----------------------------------------------------------------------------- the check
def run(case, ctx):
    mk.quiet()
    plain, path = ctx.path("plain.hdf5"), ctx.path("traced.hdf5")
    shared = "soap" in case
    m = snap.build_soap(case["soap"], plain) if shared else snap.build_snapshot(case["snap"], plain)
    names = {f"{m.paths[g]}/{f}": (g, f) for g in m.groups for f in m.groups[g]}
    iotrace.spread(plain, path)
    way = case["way"]
    ctx.label(f"way={way}", f"masked={case['masked']}")
    t = RemoteTrace(path, names) if way == "remote" else iotrace.Traced(path, names)
    chunk = {}
    with h5py.File(path, "r") as f:
        for n in names:
            # a remote server is asked for rows, not for chunks
            chunk[n] = f[n].chunks[0] if f[n].chunks and way != "remote" else 1
    handle = None
    if way in ("handle", "remote"):
        handle = t.handle()
        obj = handle
    else:
        obj = path if way == "path" else __import__("pathlib").Path(path)
    try:
        if way in ("path", "Path"):
            with t.serving():
                go(case, ctx, t, obj, m, plain, shared, names, chunk)
        else:
            go(case, ctx, t, obj, m, plain, shared, names, chunk)
    finally:
        if way == "handle":
            handle.close()
        if way == "remote":
            t.file.close()


def go(case, ctx, t, obj, m, plain, shared, names, chunk):
    def nothing(what):
        r = t.new_reads()
        ctx.check(not r, lambda: f"{what} read rows of {sorted(r)}")

    def only(name, rows, what, spans=()):
        r = t.new_reads()
        others = set(r) - {name}
        ctx.check(not others, lambda: f"{what} also read {sorted(others)}")
        got = {i for a, b in r.get(name, ()) for i in range(a, b)}
        c = chunk[name]
        allowed = {i for k in {int(x) // c for x in rows} for i in range(k * c, (k + 1) * c)}
        # an empty range (a selected cell without particles) may cost the chunk it points into
        allowed |= {i for a, b in spans if a == b for i in range(a // c * c, a // c * c + c)}
        extra = got - allowed
        ctx.check(not extra, lambda: f"{what} transferred rows {sorted(extra)[:10]}, which hold nothing that was asked for "
                  f"(rows {sorted(int(x) for x in rows)[:10]}, {c} rows per chunk)")
        return got

    spans = {g: () for g in m.groups}
    mask, rows = None, {g: np.arange(len(next(iter(m.groups[g].values())))) for g in m.groups}
    if case["masked"]:
        h = p05.Hist(m, plain, shared)
        mask = sw.mask(obj, spatial_only=case["spatial_only"]) if not shared else sw.mask(obj)
        nothing("making a mask")
        asked = []
        real = mask.constrain_property

        def spy(group, field, *a, **k):
            asked.append((group, field))
            return real(group, field, *a, **k)

        mask.constrain_property = spy
        h.mask = mask
        for i, o in enumerate(case["ops"]):
            del asked[:]
            if not case["spatial_only"] and not shared and o[0] in ("bool", "ranges"):
                pass
            p05.apply(h, o, ctx)
            if asked:
                g, f = asked[0]
                path = next(n for n, (gg, ff) in names.items() if gg == g and snap.snake(ff) == f)
                only(path, range(len(rows[g])), f"constraining {g}.{f}")
            else:
                nothing(f"step {i + 1} ({o[0]})")
        # the order in which rows are read follows the mask
    data = sw.load(obj, mask=mask) if mask is not None else sw.load(obj)
    nothing("load()")
    if mask is not None:
        rows = {g: mk.rows_of(mask, g) for g in m.groups}
        ctx.label(f"ranges={mask.range_mask}")
        if mask.range_mask:
            spans = {g: [(int(a), int(b)) for a, b in np.asarray(getattr(mask, g)).reshape(-1, 2)] for g in m.groups}
        ctx.label(*[f"selection={'none' if not len(rows[g]) else 'some' if len(rows[g]) < len(next(iter(m.groups[g].values()))) else 'all'}"
                    for g in rows])
    cached = {}
    read_some = False
    gs = sorted(m.groups)
    for i, s in enumerate(case["steps"]):
        g = gs[s["g"] % len(gs)]
        fs = sorted(m.groups[g])
        f = fs[s["f"] % len(fs)]
        owner, attr, truth = getattr(data, g), snap.snake(f), m.groups[g][f]
        if f in m.named:
            owner = getattr(owner, attr)
            c = s["c"] % len(owner.named_columns)
            attr, truth = owner.named_columns[c], truth[:, c]
        key = (g, f, attr)
        path = f"{m.paths[g]}/{f}"
        what = f"step {i + 1}: {s['op']} {g}.{f}" + (f".{attr}" if f in m.named else "")
        nothing("naming a group or its columns")
        if s["op"] == "look":
            repr(data), str(owner), dir(owner), getattr(data, g)
            data.metadata.present_group_names, getattr(data.metadata, f"{g}_properties").field_names
            hasattr(data, "nothing_of_the_kind")
            nothing("printing and listing")
            continue
        if s["op"] == "set":
            val = np.arange(3) + i
            setattr(owner, attr, val)
            nothing(what)
            cached[key] = val
            continue
        if s["op"] == "del":
            delattr(owner, attr)
            nothing(what)
            cached.pop(key, None)
            continue
        for _ in range(1 + (s["op"] == "again")):
            x = getattr(owner, attr)
            if key in cached:
                nothing(what + ", which is already in memory,")
                ctx.check(x is cached[key], f"{what}: a new object for a field that is already in memory")
            else:
                got = only(path, rows[g], what, spans[g])
                if got and (len(names) > 1 or len(rows[g]) < len(truth)):
                    read_some = True
                cached[key] = x
                want = truth[rows[g]]
                xv = np.asarray(x)
                ctx.check(xv.shape == want.shape and np.array_equal(xv, want), lambda: f"{what}: got {xv[:5]}, the file has {want[:5]}")
    if not read_some:
        ctx.trivial()


CHECKS = [
    SubCheck("snapshot", snap_case, run, quick=420, thorough=12000, weight=3,
             rule="bytes transferred while masking, loading, reading, setting and deleting fields of snapshots, by path and by handle"),
    SubCheck("soap", soap_case, run, quick=200, thorough=6000, weight=1.5, rule="group catalogues"),
    SubCheck("remote", remote_case, run, quick=200, thorough=6000, weight=1.2,
             rule="rows asked of a stand-in for a remote file"),
]
QUICK_BUDGET = 40
