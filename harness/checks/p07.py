"""P07: loading through any mask equals loading everything and indexing with the selected rows."""
import numpy as np
from hypothesis import strategies as st

import swiftsimio as sw
from harness import masking as mk
from harness import snap
from harness.checks import p05
from harness.core import SubCheck

RULE = "non-trivial = some rows are selected and some are not, in at least one group with data fields"
ASSUMPTIONS = ["row order is the order of the ranges / of the boolean array, as exposed by the mask"]


def case_():
    return st.fixed_dictionaries({
        "snap": snap.snapshot_case(max_cells=3, orders=("grid", "perm"), big=True, min_types=1),
        "ops": p05.ops(4),
        "empty": st.sampled_from([0, 0, 0, 1]),
        "final": st.sampled_from(["asis", "bool", "ranges", "bool-ranges"]),
    })


def soap_case():
    return st.fixed_dictionaries({
        "soap": snap.soap_case(),
        "ops": p05.ops(4),
        "final": st.sampled_from(["asis", "bool", "ranges", "bool-ranges"]),
    })


def run(case, ctx):
    mk.quiet()
    path = ctx.path()
    if "snap" in case:
        s = dict(case["snap"])
        if case["empty"] and len(s["types"]) > 1:
            s["types"] = [dict(t) for t in s["types"]]
            s["types"][-1].update(occ=0.0, allow_none=1)
            s["canhave"] = True
        m = snap.build_snapshot(s, path)
        h = p05.Hist(m, path, False)
    else:
        m = snap.build_soap(case["soap"], path)
        h = p05.Hist(m, path, True)
    for o in case["ops"]:
        p05.apply(h, o, ctx)
    mask = h.mask
    for op in {"asis": [], "bool": ["b"], "ranges": ["r"], "bool-ranges": ["b", "r"]}[case["final"]]:
        before = {g: np.sort(mk.rows_of(mask, g)) for g in m.groups}
        mask.convert_masks_to_bool() if op == "b" else mask.convert_masks_to_ranges()
        ctx.check(mask.range_mask == (op == "r"), "conversion did not switch the representation")
        for g in m.groups:
            after = mk.rows_of(mask, g)
            ctx.check(np.array_equal(before[g], np.sort(after)), lambda: f"{g}: conversion changed the selection {before[g]} -> {after}")
    full = sw.load(path)
    part = sw.load(path, mask=mask)
    good = False
    for g in m.groups:
        rows = mk.rows_of(mask, g)
        n = len(m.groups[g][next(iter(m.groups[g]))])
        good |= 0 < len(rows) < n
        for f, arr in m.groups[g].items():
            name = snap.snake(f)
            A, B = getattr(getattr(full, g), name), getattr(getattr(part, g), name)
            if f in m.named:
                pairs = [(f"{f}.{c}", getattr(A, c), getattr(B, c), arr[:, i]) for i, c in
                         enumerate(A.named_columns)]
                ctx.label("named columns")
            else:
                pairs = [(f, A, B, arr)]
            for nm, x, y, truth in pairs:
                what = f"{g}.{nm}"
                xv, yv = np.asarray(x), np.asarray(y)
                ctx.check(yv.shape == (len(rows),) + truth.shape[1:], lambda: f"{what}: shape {yv.shape} for {len(rows)} rows of {truth.shape}")
                ctx.check(np.array_equal(yv, truth[rows]), lambda: f"{what}: masked load gives {yv[:5]}, direct indexing {truth[rows][:5]} (rows {rows[:20]})")
                ctx.check(np.array_equal(yv, xv[rows]), lambda: f"{what}: masked and full load differ")
                ctx.check(x.units == y.units and x.comoving == y.comoving and x.cosmo_factor == y.cosmo_factor
                          and x.cosmo_factor.scale_factor == y.cosmo_factor.scale_factor
                          and x.valid_transform == y.valid_transform and x.compression == y.compression and x.name == y.name,
                          lambda: f"{what}: attributes differ: {x!r} ({x.name}) vs {y!r} ({y.name})")
                ctx.check(yv.dtype.newbyteorder("=") == xv.dtype.newbyteorder("="), lambda: f"{what}: dtype {yv.dtype} vs {xv.dtype}")
    ctx.label(f"final={case['final']}")
    if not good:
        ctx.trivial()


CHECKS = [
    SubCheck("snapshot", case_, run, quick=420, thorough=15000, weight=3,
             rule="random constraint histories, chunked and contiguous datasets of all dtypes, 1D/2D fields and named columns"),
    SubCheck("soap", soap_case, run, quick=180, thorough=6000, weight=1.2, rule="group catalogues"),
]
QUICK_BUDGET = 50
