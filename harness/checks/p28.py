"""P28: paths and open handles are interchangeable, and handles are neither leaked nor stolen."""
import contextlib
import gc
import io
import os
import sys
from pathlib import Path

import h5py
import numpy as np
from hypothesis import strategies as st

import swiftsimio as sw
from harness import masking as mk
from harness import snap
from harness.core import Skip, SubCheck

RULE = "non-trivial = at least two different ways of naming the file are used"
ASSUMPTIONS = [
    "the stand-in for a remote file offers what hdfstream's files and datasets offer: keys, attrs, dtype, shape, slicing, request_slices",
    "swiftsnap is given snapshots that hold the metadata groups every SWIFT snapshot has",
]


# ----------------------------------------------------------------------------- remote stand-in
class RemoteDataset:
    def __init__(self, d):
        self._d = d
        self.dtype, self.shape, self.ndim, self.attrs, self.name = d.dtype, d.shape, d.ndim, d.attrs, d.name
        self.size, self.chunks = d.size, d.chunks

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        return self._d[k]

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self._d[...], dtype=dtype)

    def request_slices(self, slices, dest=None):
        out, last = [], -1
        for s in slices:
            r = s[0] if isinstance(s, tuple) else s
            assert r.start < r.stop and r.start >= last, "slices empty, overlapping or out of order"
            last = r.stop
            out.append(self._d[s])
        res = np.concatenate(out)
        if dest is None:
            return res
        dest[...] = res


class RemoteGroup:
    def __init__(self, g):
        self._g = g
        self.attrs = g.attrs
        self.name = g.name

    def __getitem__(self, k):
        o = self._g[k]
        return RemoteDataset(o) if isinstance(o, h5py.Dataset) else RemoteGroup(o)

    def __contains__(self, k):
        return k in self._g

    def keys(self):
        return self._g.keys()

    def items(self):
        return [(k, self[k]) for k in self._g]

    def __iter__(self):
        return iter(self._g)

    def __len__(self):
        return len(self._g)


class RemoteFile(RemoteGroup):
    """A file that is not an h5py.File and whose name is not a local path."""

    def __init__(self, f):
        super().__init__(f)
        self.filename = "remote/dir/" + os.path.basename(f.filename)


# ----------------------------------------------------------------------------- ways to name a file
WAYS = ["str", "path", "rel", "handle", "handle", "core", "remote"]


class Access:
    """One way of naming the file; ``close`` ends what the user opened."""

    def __init__(self, way, path):
        self.way, self.path = way, path
        self.handle = None
        if way == "str":
            self.obj = str(path)
        elif way == "path":
            self.obj = Path(path)
        elif way == "rel":
            self.obj = os.path.relpath(path)
        elif way == "handle":
            self.handle = self.obj = h5py.File(path, "r")
        elif way == "remote":
            self.handle = h5py.File(path, "r")
            self.obj = RemoteFile(self.handle)
        else:
            # a file that exists only in memory
            self.handle = self.obj = h5py.File(path + ".memory", "w", driver="core", backing_store=False)
            with h5py.File(path, "r") as f:
                for k in f:
                    f.copy(k, self.handle)
                for k, v in f.attrs.items():
                    self.handle.attrs[k] = v

    def alive(self):
        return self.handle is None or bool(self.handle)

    def close(self):
        if self.handle is not None and self.handle:
            self.handle.close()


def writable(path):
    """No handle on the file is left open (HDF5 refuses r+ while it is open for reading)."""
    try:
        with h5py.File(path, "r+"):
            return True
    except OSError:
        gc.collect()
        try:
            with h5py.File(path, "r+"):
                return True     # only garbage was still around
        except OSError:
            return False


def build(case, path, seed=0):
    s = dict(case["snap"] if case["kind"] == "snap" else case["soap"])
    s["seed"] = s["seed"] + seed
    if case["kind"] == "snap":
        return snap.build_snapshot(s, path)
    return snap.build_soap(s, path)


def check_loaded(ctx, data, m, rows, what, upto=None):
    todo = [(g, f) for g in m.groups for f in m.groups[g]]
    for g, f in (todo if upto is None else todo[:upto]):
        grp = getattr(data, g)
        truth = m.groups[g][f]
        if rows is not None:
            truth = truth[rows[g]]
        if f in m.named:
            names = [c.lower() for c in m.named[f]] if f == "ElementMassFractions" else m.named[f]
            got = np.stack([np.asarray(getattr(getattr(grp, snap.snake(f)), c)) for c in names], axis=1)
        else:
            got = getattr(grp, snap.snake(f))
            ctx.check(got is not None, lambda: f"{what}: {g}.{f} could not be read")
            got = np.asarray(got)
        ctx.check(got.shape == truth.shape and np.array_equal(got, truth),
                  lambda: f"{what}: {g}.{f} is {got[:4]}, the file has {truth[:4]}")


def handles_case():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["snap", "snap", "soap"]),
        "snap": snap.snapshot_case(max_cells=3, orders=("grid", "perm")),
        "soap": snap.soap_case(max_cells=2),
        "ops": st.lists(st.fixed_dictionaries({
            "op": st.sampled_from(["load", "load", "mask", "mask", "crossed", "meta", "subset", "other"]),
            "way": st.integers(0, len(WAYS) - 1),
            "way2": st.integers(0, len(WAYS) - 1),
            "close": st.sampled_from(["late", "early", "between"]),
            "read": st.integers(0, 3),
        }), min_size=1, max_size=3),
        "lo": st.sampled_from([0.0, 0.2, 0.55]),
        "w": st.sampled_from([0.1, 0.4]),
    })


def constrain(mask, case):
    b = mask.metadata.boxsize
    mask.constrain_spatial([[case["lo"] * b[0], (case["lo"] + case["w"]) * b[0]], None, None])


def all_rows(mask, m):
    return {g: mk.rows_of(mask, g) for g in m.groups}


def run_handles(case, ctx):
    mk.quiet()
    path = ctx.path()
    m = build(case, path)
    other = ctx.path("other.hdf5")
    build(case, other, seed=1)
    used = set()
    ref = sw.mask(path)
    constrain(ref, case)
    ref.convert_masks_to_ranges()
    want = all_rows(ref, m)
    for op in case["ops"]:
        a = Access(WAYS[op["way"]], path)
        b = None
        used.add(a.way)
        what = f"{op['op']} by {a.way} (closing {op['close']})"
        try:
            if op["op"] == "load":
                data = sw.load(a.obj)
                ctx.check(a.alive(), f"{what}: the user's handle was closed")
                check_loaded(ctx, data, m, None, what, op["read"])
                ctx.check(a.alive(), f"{what}: the user's handle was closed by reading")
                if op["close"] == "early" and a.way in ("str", "path", "rel", "handle"):
                    a.close()
                    ctx.check(writable(path), f"{what}: the file is still open after the user's handle was closed")
                check_loaded(ctx, data, m, None, what)
            elif op["op"] == "mask":
                mask = sw.mask(a.obj)
                ctx.check(a.alive(), f"{what}: the user's handle was closed by mask()")
                constrain(mask, case)
                if op["close"] == "between" and a.way in ("str", "path", "rel", "handle"):
                    a.close()
                    data = sw.load(path, mask=mask)
                else:
                    data = sw.load(a.obj, mask=mask)
                got = all_rows(mask, m)
                for g in want:
                    ctx.check(np.array_equal(got[g], want[g]), f"{what}: rows selected differ from those selected by path")
                check_loaded(ctx, data, m, got, what, op["read"])
                if op["close"] == "early" and a.way in ("str", "path", "rel", "handle"):
                    a.close()
                elif op["close"] != "between":
                    ctx.check(a.alive(), f"{what}: the user's handle was closed by load()")
                check_loaded(ctx, data, m, got, what)
            elif op["op"] == "crossed":
                # mask made one way, data loaded another way: the same file on disk
                disk = ["str", "path", "rel", "handle"]
                a.close()
                a = Access(disk[op["way"] % 4], path)
                b = Access(disk[op["way2"] % 4], path)
                used.add(b.way)
                mask = sw.mask(a.obj)
                constrain(mask, case)
                data = sw.load(b.obj, mask=mask)
                check_loaded(ctx, data, m, all_rows(mask, m), f"mask by {a.way}, load by {b.way}")
                ctx.check(a.alive() and b.alive(), f"mask by {a.way}, load by {b.way}: a user's handle was closed")
            elif op["op"] == "meta":
                if a.way == "remote" or a.way == "core":
                    units = sw.SWIFTUnits(a.obj.filename, handle=a.obj)
                else:
                    units = sw.SWIFTUnits(path, handle=a.handle)
                kind = sw.SWIFTSnapshotMetadata if case["kind"] == "snap" else sw.SWIFTSOAPMetadata
                md = kind(a.obj.filename if a.handle is not None else a.obj, units, handle=a.obj if a.handle is not None else None)
                ctx.check(a.alive(), f"{what}: the user's handle was closed by reading metadata")
                ctx.check(np.array_equal(np.asarray(md.boxsize), m.box), f"{what}: box differs")
                md2 = sw.load(a.obj).metadata
                ctx.check(list(md.present_groups) == list(md2.present_groups), f"{what}: groups differ")
                for g in m.groups:
                    p1, p2 = getattr(md, g + "_properties"), getattr(md2, g + "_properties")
                    ctx.check(p1.field_names == p2.field_names, f"{what}: field names of {g} differ")
                # with the handle doing the work, no unit system needs to be given
                md3 = kind(a.obj.filename if a.handle is not None else a.obj, handle=a.obj if a.handle is not None else None)
                ctx.check(str(md3.units.length) == str(units.length), f"{what}: units differ")
            elif op["op"] == "subset":
                mask = sw.mask(a.obj)
                constrain(mask, case)
                if a.way == "remote":
                    raise Skip       # remote objects cannot be copied into a local file
                out = ctx.path("subset.hdf5")
                sw.subset_writer.write_subset(out, mask)
                got = all_rows(mask, m)
                sub = sw.load(out)
                full = sub.metadata.present_group_names     # a group may be absent when nothing of it is left
                lost = [g for g in m.groups if g not in full and len(got[g])]
                ctx.check(not lost, f"{what}: the subset lacks {lost}")
                keep = snap.Model()
                keep.groups = {g: v for g, v in m.groups.items() if g in full}
                keep.named = m.named
                check_loaded(ctx, sub, keep, got, f"{what}: the subset")
                ctx.check(a.alive(), f"{what}: the user's handle was closed by write_subset()")
                ctx.check(writable(out), f"{what}: the subset is left open")
            else:
                # a mask of another file is refused however the files are named
                b = Access(WAYS[op["way2"]], other)
                mask = sw.mask(b.obj)
                constrain(mask, case)
                refused = False
                try:
                    sw.load(a.obj, mask=mask)
                except (AssertionError, OSError):
                    refused = True
                ctx.check(refused, f"a mask of another file ({b.way}) was accepted by load ({a.way})")
                ctx.check(a.alive() and b.alive(), "a refused load closed a user's handle")
        finally:
            a.close()
            if b is not None:
                b.close()
        data = mask = None
        ctx.check(writable(path), f"{what}: the library left the file open")
    if len(used) < 2:
        ctx.trivial()


# ----------------------------------------------------------------------------- validate_file and swiftsnap
def validate_case():
    return st.fixed_dictionaries({
        "snap": snap.snapshot_case(max_cells=1, orders=("grid",)),
        "how": st.sampled_from(["swift", "swift", "nocode", "noattr", "othercode", "nothdf", "empty", "missing"]),
        "way": st.integers(0, len(WAYS) - 1),
        "other": st.sampled_from(["GADGET", "SWIFT2", "Swift", "", "SWIF"]),
    })


def run_validate(case, ctx):
    mk.quiet()
    path = ctx.path()
    snap.build_snapshot(dict(case["snap"]), path)
    how = case["how"]
    ctx.label(how)
    if how == "nothdf":
        with open(path, "w") as f:
            f.write("not an HDF5 file")
    elif how == "empty":
        with h5py.File(path, "w"):
            pass
    elif how == "missing":
        os.unlink(path)
    elif how != "swift":
        with h5py.File(path, "r+") as f:
            if how == "nocode":
                del f["Code"]
            elif how == "noattr":
                del f["Code"].attrs["Code"]
            else:
                f["Code"].attrs["Code"] = np.bytes_(case["other"])
    way = WAYS[case["way"]]
    if how in ("nothdf", "missing") and way not in ("str", "path", "rel"):
        way = "str"
    a = Access(way, path)
    try:
        try:
            got = sw.validate_file(a.obj)
        except IOError:
            got = "IOError"
        ctx.check(a.alive(), "validate_file closed the user's handle")
    finally:
        a.close()
    want = True if how == "swift" else "IOError"
    ctx.check(got is want or got == want, lambda: f"validate_file gave {got} for a file that is {how} (by {way})")
    if how not in ("missing", "nothdf"):
        ctx.check(writable(path), "validate_file left the file open")
    elif how == "missing":
        ctx.check(not os.path.exists(path), "validate_file created the file")


def cli_case():
    return st.fixed_dictionaries({
        "files": st.lists(st.fixed_dictionaries({
            "snap": snap.snapshot_case(max_cells=2, orders=("grid",)),
            "run": st.sampled_from(["Untitled SWIFT simulation", "Ünïcode", "run 12"]),
            "policies": st.lists(st.sampled_from(["hydro", "self gravity", "cosmological integration", "steal", "keep", "stars", "numa affinity"]), unique=True, max_size=7),
            "off": st.lists(st.sampled_from(["rand", "sinks", "mpi"]), unique=True),
            "gravity": st.sampled_from([None, "Default", "With per-particle softening"]),
            "z": st.sampled_from([0.0, 0.5, 1.0, 7.123456, 0.000123456, 12345.678]),
            "models": st.lists(st.sampled_from(["Chemistry Model", "Cooling Model", "Feedback Model", "Tracers"]), unique=True),
        }), min_size=1, max_size=3),
        "mode": st.sampled_from(["-r", "-a", "--redshift", "--scale-factor", "", ""]),
        "bad": st.sampled_from([None, None, None, 0, 1, 2]),
    })


def run_cli(case, ctx):
    mk.quiet()
    from swiftsimio import swiftsnap as cli

    files = []
    for i, fc in enumerate(case["files"]):
        p = ctx.path()
        s = dict(fc["snap"])
        m = snap.build_snapshot(s, p)
        with h5py.File(p, "r+") as f:
            h = f["Header"].attrs
            h["RunName"] = np.bytes_(fc["run"].encode())
            h["Redshift"] = np.array([fc["z"]])
            h["Scale-factor"] = np.array([1 / (1 + fc["z"])])
            for k in list(f["Policy"].attrs):
                del f["Policy"].attrs[k]
            for k in fc["policies"]:
                f["Policy"].attrs[k] = np.array([1], dtype=np.int32)
            for k in fc["off"]:
                f["Policy"].attrs[k] = np.array([0], dtype=np.int32)
            if fc["gravity"] is None:
                del f["GravityScheme"].attrs["Scheme"]
            else:
                f["GravityScheme"].attrs["Scheme"] = np.bytes_(fc["gravity"])
            for j, k in enumerate(fc["models"]):
                f["SubgridScheme"].attrs[k] = np.bytes_(f"model number {j} of file {i}")
        files.append((p, m, fc))
    args = ["swiftsnap"] + ([case["mode"]] if case["mode"] else [])
    names = [p for p, _, _ in files]
    if case["bad"] is not None:
        bad = ctx.path("bad.hdf5")
        with h5py.File(bad, "w") as f:
            f.create_group("Code").attrs["Code"] = np.bytes_("OTHER")
        names.insert(min(case["bad"], len(names)), bad)
    old = sys.argv
    out = io.StringIO()
    code = 0
    try:
        sys.argv = args + names
        with contextlib.redirect_stdout(out):
            try:
                cli.swiftsnap()
            except SystemExit as e:
                code = e.code or 0
    finally:
        sys.argv = old
    text = out.getvalue()
    lines = text.splitlines()
    if case["bad"] is not None:
        ctx.check(code == 1, f"swiftsnap exits with {code} for a file that is not from SWIFT")
        ctx.check(f"{bad} is not a SWIFT snapshot." in lines, "swiftsnap does not name the file that is not from SWIFT")
        ctx.check(len(lines) == 1, "swiftsnap reports something about other files although it refuses")
        return
    ctx.check(code == 0, f"swiftsnap exits with {code}")
    if case["mode"] in ("-r", "--redshift"):
        ctx.check(lines == [f"{fc['z']:.4g}" for _, _, fc in files], f"redshifts printed {lines}")
    elif case["mode"] in ("-a", "--scale-factor"):
        ctx.check(lines == [f"{1 / (1 + fc['z']):.4g}" for _, _, fc in files], f"scale factors printed {lines}")
    else:
        pos = 0
        flat = " ".join(text.split())
        for i, (p, m, fc) in enumerate(files):
            # the report of each file appears, in order
            want = [fc["run"], "Written at: 2023-05-04 15:20:31", "Active policies:"]
            want += ["Output type: FullVolume, Output selection: Default", "Number of particles: "]
            for k, t in enumerate(["Gas", "Dark Matter", "Boundary", "Sinks", "Stars", "Black Holes", "Neutrinos", "Sidm"]):
                want.append(f"{t}: {float(m.nums[k]):.4g}")
            want += ["GCC (13)", "SWIFT (master)", f"Simulation state: z={fc['z']:.4g}, a={1 / (1 + fc['z']):.4g}, t="]
            want += [f"Gravity scheme: {fc['gravity']}", "Hydrodynamics scheme: SPHENIX"]
            for w in want:
                k = flat.find(w, pos)
                ctx.check(k >= 0, lambda: f"report of file {i} lacks {w!r} (after position {pos}): {flat[pos:pos + 300]}")
                pos = k + len(w)
                if w == "Active policies:":
                    end = flat.find("Output type", pos)
                    listed = sorted(x.strip() for x in flat[pos:end].split(",") if x.strip())
                    ctx.check(listed == sorted(fc["policies"]), lambda: f"policies listed {listed}, active {fc['policies']}")
            tail = flat[pos:]
            for j, k in enumerate(fc["models"]):
                w = f"{k.replace('Model', 'model')}: model number {j} of file {i}"
                ctx.check(w in tail, lambda: f"report lacks {w!r}")
        ctx.check(flat.count("Written at:") == len(files), "number of reports")
    for p, _, _ in files:
        ctx.check(writable(p), "swiftsnap left a file open")


CHECKS = [
    SubCheck("handles", handles_case, run_handles, quick=400, thorough=15000, weight=3,
             rule="the ways of naming the file, the moments of closing it and the operations are drawn"),
    SubCheck("validate", validate_case, run_validate, quick=240, thorough=4000, weight=1,
             rule="SWIFT files, damaged files and other files"),
    SubCheck("swiftsnap", cli_case, run_cli, quick=200, thorough=4000, weight=1,
             rule="one to three snapshots with drawn metadata, all modes"),
]
QUICK_BUDGET = 50
