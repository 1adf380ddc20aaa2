"""P08: a written subset holds exactly the selected rows and loads like the masked original."""
import hashlib

import h5py
import numpy as np
from hypothesis import strategies as st

import swiftsimio as sw
from swiftsimio.subset_writer import write_subset
from harness import masking as mk
from harness import snap
from harness.checks import p05
from harness.core import SubCheck

RULE = "non-trivial = the subset is neither empty nor the whole file"
ASSUMPTIONS = ["datasets have one or two dimensions, as SWIFT writes them"]


def case_(kind):
    d = {
        "ops": p05.ops(3),
        "final": st.sampled_from(["asis", "bool", "ranges"]),
        "allow": st.booleans(),
    }
    if kind == "snap":
        d["snap"] = snap.snapshot_case(max_cells=3, orders=("grid", "perm"), big=True)
        d["links"] = st.booleans()
        d["empty"] = st.sampled_from([0, 0, 1])
        d["oldcells"] = st.sampled_from([0, 0, 0, 1])
    else:
        d["soap"] = snap.soap_case()
    return st.fixed_dictionaries(d)


def setup(case, ctx):
    mk.quiet()
    path = ctx.path("orig.hdf5")
    if "snap" in case:
        s = dict(case["snap"])
        s["types"] = [dict(t) for t in s["types"]]
        if case["empty"]:
            if len(s["types"]) > 1:
                s["types"][-1].update(occ=0.0, allow_none=1)
            s["canhave"] = True
            ctx.label("empty type")
        if case["oldcells"]:
            s["oldcells"] = 1
        m = snap.build_snapshot(s, path, links=case["links"])
        h = p05.Hist(m, path, False)
    else:
        m = snap.build_soap(case["soap"], path)
        h = p05.Hist(m, path, True)
    for o in case["ops"]:
        p05.apply(h, o, ctx)
    if case["final"] == "bool":
        h.mask.convert_masks_to_bool()
    elif case["final"] == "ranges":
        h.mask.convert_masks_to_ranges()
    return m, h, path


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def same_attr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return np.array_equal(a, b) or (a.dtype.kind == "f" and np.array_equal(a, b, equal_nan=True)) or str(a) == str(b)


def write(case, ctx, h, path):
    out = ctx.path("subset.hdf5")
    if h.mask.constrained is None:
        ctx.label("unconstrained")
        try:
            write_subset(out, h.mask)
        except ValueError:
            pass
        else:
            ctx.fail("an unconstrained mask was written without allow_unconstrained")
        write_subset(out, h.mask, allow_unconstrained=True)
    else:
        write_subset(out, h.mask, allow_unconstrained=case["allow"])
    return out


def run(case, ctx):
    m, h, path = setup(case, ctx)
    if not m.groups:
        ctx.trivial()
        return
    d0 = digest(path)
    sel0 = {g: np.sort(mk.rows_of(h.mask, g)) for g in m.groups}
    out = write(case, ctx, h, path)
    ctx.check(digest(path) == d0, "writing a subset changed the original file")
    part = False
    with h5py.File(path) as fi, h5py.File(out) as fo:
        for g in m.groups:
            ctx.check(np.array_equal(np.sort(mk.rows_of(h.mask, g)), sel0[g]), "writing a subset changed the mask")
            rows = mk.rows_of(h.mask, g)
            n = len(next(iter(m.groups[g].values())))
            part |= 0 < len(rows) < n
            ctx.check(m.paths[g] in fo, lambda: f"{m.paths[g]} missing from the subset")
            ctx.check(set(fo[m.paths[g]]) == set(fi[m.paths[g]]), lambda: f"{g}: datasets {sorted(fo[m.paths[g]])} vs {sorted(fi[m.paths[g]])}")
            for f, arr in m.groups[g].items():
                p = m.attrs[(g, f)]["path"]
                got = fo[p]
                ctx.check(got.shape == arr[rows].shape, lambda: f"{p}: shape {got.shape}, selected {arr[rows].shape}")
                ctx.check(np.array_equal(got[...], arr[rows]), lambda: f"{p}: wrong rows written: {got[...][:5]} not {arr[rows][:5]}")
                ctx.check(got.dtype.newbyteorder("=") == arr.dtype, lambda: f"{p}: dtype {got.dtype} from {arr.dtype}")
                for k, v in fi[p].attrs.items():
                    ctx.check(k in fo[p].attrs and same_attr(v, fo[p].attrs[k]), lambda: f"{p}: attribute {k!r} lost or changed")
        for name in fi:
            link = fi.get(name, getlink=True)
            if isinstance(link, h5py.SoftLink):
                l2 = fo.get(name, getlink=True)
                ctx.check(isinstance(l2, h5py.SoftLink) and l2.path == link.path, lambda: f"soft link {name} lost or redirected")
                ctx.label("links")
                continue
            if name == "Cells" or name.startswith("PartType") and name != "PartTypeNames" or name in {p.split("/")[0] for p in m.paths.values()}:
                continue
            if isinstance(fi[name], h5py.Dataset):
                ctx.check(name in fo and np.array_equal(fi[name][...], fo[name][...]), lambda: f"dataset {name} lost or changed")
                continue
            ctx.check(name in fo, lambda: f"group {name} missing from the subset")
            for k, v in fi[name].attrs.items():
                if name == "Header" and k in ("OutputType", "NumPart_ThisFile", "NumSubhalos_ThisFile"):
                    continue
                ctx.check(k in fo[name].attrs and same_attr(v, fo[name].attrs[k]), lambda: f"{name} attribute {k!r} lost or changed")
            for sub in fi[name]:
                ctx.check(sub in fo[name], lambda: f"{name}/{sub} lost")
                if isinstance(fi[name][sub], h5py.Group):
                    for ds in fi[name][sub]:
                        ctx.check(ds in fo[name][sub] and np.array_equal(fi[name][sub][ds][...], fo[name][sub][ds][...]),
                                  lambda: f"{name}/{sub}/{ds} lost or changed")
    ref = sw.load(path, mask=h.mask)
    got = sw.load(out)
    for g in m.groups:
        if len(sel0[g]) == 0:
            continue  # may legitimately be absent from the subset
        for f in m.groups[g]:
            A, B = getattr(getattr(ref, g), snap.snake(f)), getattr(getattr(got, g), snap.snake(f))
            pairs = [(A, B)] if f not in m.named else [(getattr(A, c), getattr(B, c)) for c in A.named_columns]
            for x, y in pairs:
                ctx.check(np.array_equal(np.asarray(x), np.asarray(y)), lambda: f"{g}.{f}: subset loads {np.asarray(y)[:4]}, masked original {np.asarray(x)[:4]}")
                ctx.check(x.units == y.units and x.comoving == y.comoving and x.cosmo_factor == y.cosmo_factor
                          and x.valid_transform == y.valid_transform and x.compression == y.compression,
                          lambda: f"{g}.{f}: attributes of the subset differ: {x!r} {y!r}")
    a, b = ref.metadata, got.metadata
    ctx.check(np.array_equal(np.asarray(a.boxsize), np.asarray(b.boxsize)) and a.boxsize.units == b.boxsize.units, "boxsize differs")
    for k in ("a", "z", "scale_factor", "redshift", "run_name", "dimension"):
        ctx.check(np.array_equal(np.asarray(getattr(a, k)), np.asarray(getattr(b, k))), lambda: f"metadata {k} differs")
    if not part:
        ctx.trivial()


CHECKS = [
    SubCheck("snapshot", lambda: case_("snap"), run, quick=360, thorough=12000, weight=3,
             rule="masks from random constraint histories; soft links, empty types, both cell layouts"),
    SubCheck("soap", lambda: case_("soap"), run, quick=150, thorough=5000, weight=1.2, rule="group catalogues, including row selections"),
]
QUICK_BUDGET = 50
