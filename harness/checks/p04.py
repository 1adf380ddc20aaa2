"""P04: a spatial selection consists of whole cells that touch the region, each row once."""
import numpy as np
from hypothesis import strategies as st

import swiftsimio as sw
from harness import masking as mk
from harness import snap
from harness.checks import p03
from harness.core import SubCheck

RULE = "non-trivial = at least one non-empty cell is selected and at least one non-empty cell is not"
ASSUMPTIONS = ["a cell whose extent ends within 1e-9 box lengths of a region face may or may not be selected",
               "without bounding boxes, cell extents are the cells enlarged by the padding fraction"]


def judge(ctx, m, mask, g, regions, pad, key):
    rows = mk.rows_of(mask, g)
    n = len(m.cell_of[key])
    ctx.check(len(np.unique(rows)) == len(rows), lambda: f"{g}: rows selected more than once: {rows}")
    ctx.check(rows.size == 0 or (rows.min() >= 0 and rows.max() < n), lambda: f"{g}: rows outside the file")
    sel = np.zeros(n, dtype=bool)
    sel[rows] = True
    cells = set(m.cell_of[key][sel].tolist())
    for c in cells:
        ctx.check(sel[m.cell_of[key] == c].all(), lambda: f"{g}: cell {c} selected only in part")
    touched = np.zeros(len(m.centres), dtype=bool)
    lo, hi = mk.extents(m, g if key != "shared" else "shared", pad)
    for r in regions:
        touched |= mk.cells_touched(r["axes"], lo, hi, m.box, p03.TOL)
    bad = [c for c in cells if not touched[c]]
    ctx.check(not bad, lambda: f"{g}: cell {bad[0]} with extent {lo[bad[0]]}..{hi[bad[0]]} does not touch the region")
    if any(all(ax is None or abs(ax[1] - ax[0]) > 1 for ax in r["axes"]) for r in regions):
        ctx.check(sel.all(), lambda: f"{g}: region larger than the box does not select everything")
    nonempty = set(m.cell_of[key].tolist())
    return sel, 0 < len(cells) < len(nonempty)


def run(case, ctx):
    m, path, mask = p03.prepare(case, ctx)
    if not m.groups:
        ctx.trivial()
        return
    pad = mk.pad_fraction(case["pad"])
    sels, good = {}, False
    for g in m.groups:
        sels[g], nt = judge(ctx, m, mask, g, case["regions"], pad, g)
        good |= nt
    if len(case["regions"]) > 1 or case["boolafter"]:
        single = {g: np.zeros(len(s), dtype=bool) for g, s in sels.items()}
        for r in case["regions"]:
            mask1 = sw.mask(path, safe_padding=case["pad"])
            mask1.constrain_spatial(mk.to_user_region(r, mask1.metadata))
            for g in m.groups:
                single[g][mk.rows_of(mask1, g)] = True
        for g in m.groups:
            ctx.check(np.array_equal(single[g], sels[g]), lambda: f"{g}: union of regions selects "
                      f"{np.where(sels[g])[0]} but the separate regions select {np.where(single[g])[0]}")
    else:
        g = list(m.groups)[-1]
        ids = np.asarray(getattr(sw.load(path, mask=mask), g).particle_ids)
        ctx.check(np.array_equal(np.sort(ids), m.groups[g]["ParticleIDs"][sels[g]]),
                  lambda: f"{g}: rows loaded differ from the rows selected")
    if not good:
        ctx.trivial()


def run_soap(case, ctx):
    m, path, mask = p03.prepare_soap(case, ctx)
    good = True
    for g in m.groups:
        sel, nt = judge(ctx, m, mask, g, case["regions"], 0.0, "shared")
        good &= nt
    ids = np.asarray(sw.load(path, mask=mask).input_halos.halo_catalogue_index)
    ctx.check(np.array_equal(np.sort(ids), np.where(sel)[0]), "halos loaded differ from the rows selected")
    if not good:
        ctx.trivial()


CHECKS = [
    SubCheck("snapshot", p03.spatial_case, run, quick=520, thorough=20000, weight=4,
             rule="one to three regions, union, boolean conversion in between"),
    SubCheck("soap", p03.soap_spatial, run_soap, quick=160, thorough=5000, rule="group catalogues"),
]
QUICK_BUDGET = 50
