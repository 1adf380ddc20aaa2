"""P03: a spatial selection never loses a particle (or halo) that lies in the region."""
import numpy as np
from hypothesis import strategies as st

import swiftsimio as sw
from harness import masking as mk
from harness import snap
from harness.core import SubCheck

RULE = "a case is a synthetic file plus a list of regions; non-trivial = at least one particle lies in a region and at least one lies outside all of them"
ASSUMPTIONS = ["points closer than 1e-9 box lengths to a region face are not judged",
               "without bounding boxes, drift stays below the padding fraction"]
TOL = 1e-9


def spatial_case():
    return st.fixed_dictionaries(
        {
            "snap": snap.snapshot_case(max_cells=4, fields=False, orders=("grid", "perm")),
            "pad": st.sampled_from([True, True, 0.35, 1.0, False]),
            "regions": st.lists(mk.region_spec(), min_size=1, max_size=3),
            "boolafter": st.sampled_from([0, 0, 1, 2]),
            "empty": st.sampled_from([0, 0, 0, 1]),
            "oldcells": st.sampled_from([0, 0, 1]),
            "oldkw": st.sampled_from([0, 0, 0, 1]),
        }
    )


def prepare(case, ctx):
    mk.quiet()
    s = dict(case["snap"])
    if case["oldcells"]:
        s["oldcells"] = 1
    if case["empty"] and len(s["types"]) > 1:
        s["types"] = [dict(t) for t in s["types"]]
        s["types"][-1].update(occ=0.0, allow_none=1)
        s["canhave"] = True
    path = ctx.path()
    m = snap.build_snapshot(s, path, padding=mk.pad_fraction(case["pad"]))
    mask = sw.mask(path, safe_padding=case["pad"])
    for i, r in enumerate(case["regions"]):
        user = mk.to_user_region(r, mask.metadata)
        if case.get("oldkw"):  # the deprecated keyword means the same
            mask.constrain_spatial(user, intersect=i > 0)
        else:
            mask.constrain_spatial(user, union=i > 0)
        if case["boolafter"] == i + 1:
            mask.convert_masks_to_bool()
    ctx.label(f"order={s['order']}", f"minmax={s['minmax']}", f"regions={len(case['regions'])}",
              f"bool={case['boolafter'] > 0}", f"ntypes={len(s['types'])}",
              *[("none" if ax is None else "inverted" if ax[1] < ax[0] else "wide" if ax[1] - ax[0] > 1 else
                 "beyond" if ax[0] < 0 or ax[1] > 1 else "plain") for r in case["regions"] for ax in r["axes"]])
    return m, path, mask


def wanted(m, g, regions, tol=TOL):
    pos = m.groups[g]["Coordinates"] if "Coordinates" in m.groups[g] else m.groups[g]["HaloCentre"]
    w = np.zeros(len(pos), dtype=bool)
    for r in regions:
        w |= mk.inside(r["axes"], pos, m.box, tol)
    return w


def run(case, ctx):
    m, path, mask = prepare(case, ctx)
    if not m.groups:
        ctx.trivial()
        return
    data = sw.load(path, mask=mask)
    nin = nout = 0
    for g in m.groups:
        ids = np.asarray(getattr(data, g).particle_ids)
        pos = np.asarray(getattr(data, g).coordinates.to_comoving_value(data.metadata.boxsize.units))
        want = wanted(m, g, case["regions"])
        nin += int(want.sum())
        nout += int((~want).sum())
        lost = np.setdiff1d(m.groups[g]["ParticleIDs"][want], ids)
        ctx.check(len(lost) == 0, lambda: f"{g}: {len(lost)} of {want.sum()} particles in the region were not loaded, e.g. at "
                  f"{m.groups[g]['Coordinates'][np.isin(m.groups[g]['ParticleIDs'], lost)][0]}")
        # what was loaded for those particles are their own coordinates
        truth = dict(zip(m.groups[g]["ParticleIDs"].tolist(), m.groups[g]["Coordinates"]))
        for i, p in zip(ids.tolist(), pos):
            ctx.check(i in truth and np.array_equal(truth[i], p), lambda: f"{g}: particle {i} loaded with coordinates {p}")
    if not (nin and nout):
        ctx.trivial()


def soap_spatial():
    return st.fixed_dictionaries(
        {"soap": snap.soap_case(), "regions": st.lists(mk.region_spec(), min_size=1, max_size=2),
         "boolafter": st.sampled_from([0, 0, 1])}
    )


def prepare_soap(case, ctx):
    mk.quiet()
    path = ctx.path()
    m = snap.build_soap(case["soap"], path)
    mask = sw.mask(path)
    for i, r in enumerate(case["regions"]):
        mask.constrain_spatial(mk.to_user_region(r, mask.metadata), union=i > 0)
        if case["boolafter"] == i + 1:
            mask.convert_masks_to_bool()
    return m, path, mask


def run_soap(case, ctx):
    m, path, mask = prepare_soap(case, ctx)
    data = sw.load(path, mask=mask)
    ids = np.asarray(data.input_halos.halo_catalogue_index)
    want = wanted(m, "input_halos", case["regions"])
    lost = np.setdiff1d(np.where(want)[0], ids)
    ctx.check(len(lost) == 0, lambda: f"{len(lost)} halos in the region were not loaded: {m.groups['input_halos']['HaloCentre'][lost[0]]}")
    if want.all() or not want.any():
        ctx.trivial()


@st.composite
def outside_case(draw):
    s = draw(snap.snapshot_case(max_cells=2, fields=False, orders=("grid",)))
    axes = draw(mk.region())
    d = draw(st.integers(0, 2))
    bad = draw(st.sampled_from([[-0.51, 0.2], [0.1, 1.51], [-3.0, -2.0], [2.0, 0.5], [0.5, -0.6], [-0.7, 1.7], [1.6, 1.7]]))
    axes[d] = bad
    return {"snap": s, "region": {"axes": axes, "form": draw(st.integers(0, 4)), "unit": draw(st.integers(0, 4))},
            "prior": draw(st.booleans()), "bool": draw(st.booleans()),
            "shape": draw(st.sampled_from([None, None, None, "two axes", "four axes", "one bound", "three bounds"])), "dim": d}


def run_outside(case, ctx):
    mk.quiet()
    path = ctx.path()
    m = snap.build_snapshot(case["snap"], path)
    mask = sw.mask(path)
    if case["prior"]:
        mask.constrain_spatial([[0 * b, 0.4 * b] for b in mask.metadata.boxsize])
    if case["bool"]:
        mask.convert_masks_to_bool()
    before = {g: mk.rows_of(mask, g) for g in m.groups}
    user = mk.to_user_region(case["region"], mask.metadata)
    shape = case.get("shape")
    if shape:  # otherwise valid regions of the wrong shape
        user = [[0.1 * b, 0.7 * b] for b in mask.metadata.boxsize]
        if shape == "two axes":
            user = user[:2]
        elif shape == "four axes":
            user = [*user, None]
        elif shape == "one bound":
            user[case["dim"]] = user[case["dim"]][:1]
        else:
            user[case["dim"]] = [*user[case["dim"]], 0.9 * mask.metadata.boxsize[0]]
        ctx.label(shape)
    try:
        mask.constrain_spatial(user, union=case["prior"])
    except ValueError:
        for g in m.groups:
            ctx.check(np.array_equal(before[g], mk.rows_of(mask, g)), "rejected region changed the mask")
        mask.constrain_spatial([[0 * b, 0.9 * b] for b in mask.metadata.boxsize], union=case["prior"])
        return
    ctx.fail(f"a region with {shape} was accepted" if shape else "a region outside [-L/2, 3L/2] was accepted")


CHECKS = [
    SubCheck("snapshot", spatial_case, run, quick=700, thorough=25000, weight=6,
             rule="cell grids, file order, drift, bounding boxes, units, region spelling and unions are all drawn"),
    SubCheck("soap", soap_spatial, run_soap, quick=180, thorough=6000, rule="group catalogues"),
    SubCheck("outside", outside_case, run_outside, quick=120, thorough=1500,
             rule="regions reaching outside the documented interval must be refused without changing the mask"),
]
QUICK_BUDGET = 50
