"""P19: calculations never modify their inputs."""
import hashlib

import numpy as np
from hypothesis import strategies as st

import swiftsimio as sw
from swiftsimio.objects import cosmo_quantity

from .. import cosmo as C, funccheck as fc, masking as mk, snap
from ..core import SubCheck

RULE = "the operands have different frames, or an operand is a view of a larger array"
ASSUMPTIONS = ["inputs of the functions that exist to write into their first argument are covered for their other arguments only"]



def region_case():
    return st.fixed_dictionaries({
        "snap": snap.snapshot_case(max_cells=3, orders=("grid",)), "region": mk.region_spec(), "again": st.booleans(),
        "a": st.sampled_from(["c", "p"]), "ids": st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=1, max_size=4)), "lim": st.lists(st.integers(0, 100), min_size=2, max_size=2), "limf": st.lists(st.sampled_from(["c", "p"]), min_size=2, max_size=2)})


def run_region(case, ctx):
    """Selecting, loading and writing a subset leave the user's region, limits and file as they were."""
    C.quiet()
    path = ctx.path()
    m = snap.build_snapshot(case["snap"], path)
    if not m.groups:
        ctx.trivial()
        return
    digest = hashlib.sha256(open(path, "rb").read()).hexdigest()
    mask = sw.mask(path)
    user = mk.to_user_region(case["region"], mask.metadata)
    snaps = [None if ax is None else C.snapshot(ax) if isinstance(ax, np.ndarray) else [C.snapshot(q) for q in ax] for ax in user]
    n = len(user)

    def same(what):
        now = [None if ax is None else C.snapshot(ax) if isinstance(ax, np.ndarray) else [C.snapshot(q) for q in ax] for ax in user]
        ctx.check(len(user) == n and now == snaps, lambda: f"{what} changed the region of the user from {snaps} to {user}")

    mask.constrain_spatial(user)
    same("constrain_spatial")
    if case["again"]:
        mask.constrain_spatial(user, union=True)
        same("constrain_spatial with union")
    data = sw.load(path, mask=mask)
    g = sorted(m.groups)[0]
    box = data.metadata.boxsize
    bsnap = C.snapshot(box)
    mask2 = sw.mask(path, spatial_only=False)
    full = sw.load(path)
    for g2 in sorted(m.groups):
        for f in sorted(m.groups[g2]):
            vals = m.groups[g2][f]
            if vals.ndim != 1 or not len(vals) or f == "ParticleIDs":
                continue
            like = getattr(getattr(full, g2), snap.snake(f))
            kept = C.snapshot(like)
            lims = []
            for k, fr in zip(sorted(case["lim"]), case["limf"]):
                q = cosmo_quantity(float(np.quantile(vals.astype(np.float64), k / 100)), like.units, comoving=like.comoving, cosmo_factor=like.cosmo_factor, valid_transform=like.valid_transform)
                q = q if not like.valid_transform else q.to_physical() if fr == "p" else q.to_comoving()
                lims.append(q.in_base("cgs") if k % 2 else q)
            ls = [C.snapshot(q) for q in lims]
            call = mask2.constrain_mask if case["again"] else mask2.constrain_property
            call(g2, snap.snake(f), *lims)
            ctx.label("limits")
            ctx.check([C.snapshot(q) for q in lims] == ls, lambda: f"constraining {g2}.{f} changed its limits from {ls} to {lims}")
            ctx.check(C.snapshot(like) == kept, lambda: f"constraining {g2}.{f} changed data that was loaded before")
    if case["ids"] is not None:
        ids = np.array(case["ids"]) if case["again"] else list(case["ids"])
        mask3 = sw.mask(path)
        try:
            mask3.constrain_indices(ids)
        except (RuntimeError, IndexError, ValueError):
            pass
        ctx.check(list(ids) == case["ids"] and type(ids) is (np.ndarray if case["again"] else list), lambda: f"constrain_indices changed {case['ids']} to {ids}")
    x = getattr(data, g).coordinates
    before = C.snapshot(x)
    _ = x.to_physical(), x - x[:1] if len(x) else None, x % box if len(x) else None, np.max(x, axis=0) if len(x) else None
    ctx.check(C.snapshot(x) == before and C.snapshot(box) == bsnap, "arithmetic with loaded data changed it")
    ctx.check(getattr(data, g).coordinates is x, "a field that was read is read again")
    ctx.check(hashlib.sha256(open(path, "rb").read()).hexdigest() == digest, "reading changed the file")


CHECKS = [
    SubCheck("regions", region_case, run_region, quick=320, thorough=8000, weight=2.5, rule="regions and limits given to masks"),
    SubCheck("functions", lambda: fc.case_(list(fc.functable.FUNCS)), fc.run_untouched, quick=8000, thorough=250000, weight=3,
             rule="operands and the arrays they view, before and after functions, ufuncs and methods of the table"),
    SubCheck("assign", fc.assign_case, lambda case, ctx: fc.run_assign(case, ctx, "source"), quick=2500, thorough=40000, rule="sources of functions that write into an array"),
]
QUICK_BUDGET = 50
