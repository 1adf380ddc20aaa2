"""P09: a written subset is itself a consistent SWIFT file that can be masked and subset again."""
import h5py
import numpy as np
from hypothesis import strategies as st

import swiftsimio as sw
from swiftsimio.subset_writer import write_subset
from harness import masking as mk
from harness import snap
from harness.checks import p05, p08
from harness.core import SubCheck

RULE = "non-trivial = the subset keeps some rows and drops others"
ASSUMPTIONS = ["cells may be listed in any order, each identified by its centre"]
TYPES = {"FullVolume": "VolumeSubset", "VolumeSubset": "VolumeSubset", "SOAP": "SOAPSubset", "SOAPSubset": "SOAPSubset"}


def case_(kind):
    base = p08.case_(kind)
    return st.fixed_dictionaries({
        "first": base,
        "region": mk.region_spec(),
        "ops": p05.ops(2, 0),
    })


def check_file(ctx, m, rows, out, intype):
    """rows: group -> original row number of each row of the subset file, in file order."""
    soap = "shared" in m.cell_of
    with h5py.File(out) as f:
        ot = f["Header"].attrs["OutputType"]
        ot = ot.decode() if hasattr(ot, "decode") else ot
        ctx.check(ot == TYPES[intype], lambda: f"OutputType {ot!r} for a subset of a {intype} file")
        offs = f["Cells/OffsetsInFile"] if "OffsetsInFile" in f["Cells"] else f["Cells/Offsets"]
        centres = f["Cells/Centres"][...]
        # identify the cells by their centres
        d = np.abs(centres[:, None, :] - m.centres[None, :, :]).max(axis=2) / m.box.max()
        orig = d.argmin(axis=1)
        ctx.check(d.min(axis=1).max() < 1e-9 and len(set(orig.tolist())) == len(m.centres) == len(centres), "cell centres changed")
        ctx.check(np.allclose(f["Cells/Meta-data"].attrs["size"], m.size), "cell size changed")
        nums = f["Header"].attrs["NumSubhalos_ThisFile" if soap else "NumPart_ThisFile"]
        for g in m.groups:
            r = rows[g]
            if soap:
                key, cname = "shared", "Subhalos"
                ctx.check(int(np.asarray(nums).ravel()[0]) == len(r), lambda: f"header says {nums} rows, file has {len(r)}")
            else:
                key, cname = g, m.paths[g]
                t = int(m.paths[g][8:])
                ctx.check(int(nums[t]) == len(r), lambda: f"header counts {nums[t]} {g} particles, file has {len(r)}")
            if cname not in f["Cells/Counts"]:
                ctx.check(len(r) == 0, lambda: f"no cell counts for {g}")
                continue
            counts, offsets = f["Cells/Counts"][cname][...], offs[cname][...]
            ctx.check(counts.min() >= 0 and counts.sum() == len(r), lambda: f"{g}: cell counts {counts} do not add up to {len(r)} rows")
            seen = np.zeros(len(r), dtype=int)
            cell_of = m.cell_of[key]
            for c in range(len(counts)):
                sl = slice(int(offsets[c]), int(offsets[c] + counts[c]))
                if counts[c] == 0:
                    continue
                ctx.check(sl.stop <= len(r), lambda: f"{g}: cell range {sl} beyond the {len(r)} rows")
                seen[sl] += 1
                ctx.check((cell_of[r[sl]] == orig[c]).all(),
                          lambda: f"{g}: rows {sl.start}:{sl.stop} belong to cells {cell_of[r[sl]]} but are listed under cell {orig[c]}")
            ctx.check((seen == 1).all(), lambda: f"{g}: the cells do not tile the rows")
            if not soap and m.case["minmax"]:
                for nm in ("MinPositions", "MaxPositions"):
                    with h5py.File(m.path) as fi:
                        want = fi[f"Cells/{nm}/{cname}"][...][orig]
                    ctx.check(np.allclose(f[f"Cells/{nm}/{cname}"][...], want), lambda: f"{g}: {nm} no longer belong to their cells")


def sub_model(m, rows, out):
    m2 = snap.Model()
    m2.case, m2.path, m2.box, m2.size, m2.centres = m.case, out, m.box, m.size, m.centres
    m2.attrs, m2.paths, m2.named = m.attrs, m.paths, m.named
    for g in m.groups:
        if len(rows[g]) or "shared" in m.cell_of:
            m2.groups[g] = {f: a[rows[g]] for f, a in m.groups[g].items()}
            if "shared" not in m.cell_of:
                m2.cell_of[g] = m.cell_of[g][rows[g]]
                m2.home[g] = m.home[g][rows[g]]
    if "shared" in m.cell_of:
        r = rows[next(iter(m.groups))]
        m2.cell_of["shared"], m2.home["shared"] = m.cell_of["shared"][r], m.home["shared"][r]
    return m2


def run(case, ctx):
    c1 = case["first"]
    m, h, path = p08.setup(c1, ctx)
    if not m.groups:
        ctx.trivial()
        return
    out = p08.write(c1, ctx, h, path)
    rows = {g: mk.rows_of(h.mask, g) for g in m.groups}
    if not any(0 < len(rows[g]) < len(next(iter(m.groups[g].values()))) for g in m.groups):
        ctx.trivial()
    soap = "shared" in m.cell_of
    check_file(ctx, m, rows, out, "SOAP" if soap else "FullVolume")
    m2 = sub_model(m, rows, out)
    if not m2.groups or all(len(next(iter(x.values()))) == 0 for x in m2.groups.values()):
        ctx.label("empty subset")
        return
    # the subset supports spatial selection
    mask = sw.mask(out)
    mask.constrain_spatial(mk.to_user_region(case["region"], mask.metadata))
    lo_hi = {}
    for g in m2.groups:
        pos = m2.groups[g]["HaloCentre" if soap and "HaloCentre" in m2.groups[g] else "Coordinates"] if not soap else m2.home["shared"]
        want = mk.inside(case["region"]["axes"], pos, m.box, 1e-9)
        got = mk.rows_of(mask, g)
        ctx.check(len(np.unique(got)) == len(got), "row selected twice in a subset")
        lost = np.setdiff1d(np.where(want)[0], got)
        ctx.check(len(lost) == 0, lambda: f"{g}: {len(lost)} rows of the subset inside the region are not selected")
        key = "shared" if soap else g
        lo, hi = mk.extents(m, "shared" if soap else g, 0.0 if soap else 0.1)
        touched = mk.cells_touched(case["region"]["axes"], lo, hi, m.box, 1e-9)
        ctx.check(touched[m2.cell_of[key][got]].all(), lambda: f"{g}: rows of cells away from the region are selected in a subset")
    # and can be subset again
    h2 = p05.Hist(m2, out, soap)
    for o in case["ops"]:
        p05.apply(h2, o, ctx)
        h2.compare(ctx, f"{o[0]} on the subset")
    out2 = ctx.path("subset2.hdf5")
    write_subset(out2, h2.mask, allow_unconstrained=True)
    rows2 = {g: rows[g][mk.rows_of(h2.mask, g)] if g in m2.groups else rows[g] for g in m.groups}
    check_file(ctx, m, rows2, out2, "SOAPSubset" if soap else "VolumeSubset")
    with h5py.File(out2) as f:
        for g in m.groups:
            for fl, arr in m.groups[g].items():
                p = m.attrs[(g, fl)]["path"]
                if len(rows2[g]) == 0 and p not in f:
                    continue
                ctx.check(np.array_equal(f[p][...], arr[rows2[g]]), lambda: f"{p}: wrong rows in the subset of a subset")
    ctx.label(f"subset of subset, first={h.state}, second={h2.state}")


CHECKS = [
    SubCheck("snapshot", lambda: case_("snap"), run, quick=300, thorough=12000, weight=3,
             rule="histories of constraints, written, masked again and written again"),
    SubCheck("soap", lambda: case_("soap"), run, quick=130, thorough=5000, weight=1.2, rule="group catalogues"),
]
QUICK_BUDGET = 50
