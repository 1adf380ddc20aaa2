"""P11: the writer refuses inconsistent input and never damages files by a refused write."""
import os

import h5py
import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw
from swiftsimio.metadata.writer import required_fields
from swiftsimio.objects import cosmo_array
from harness import masking as mk
from harness.checks import p10
from harness.core import SubCheck

RULE = "non-trivial = the case contains at least one refused assignment or write"
ASSUMPTIONS = ["any exception counts as a refusal"]

DEFECTS = ["missing", "length", "shape", "dimension", "notcosmo", "scale", "ids-zero", "ids-repeat", "ids-across",
           "ids-negative", "none"]


def case_():
    return st.fixed_dictionaries({
        "base": p10.case_(),
        "defect": st.sampled_from(DEFECTS),
        "which": st.integers(0, 10),
        "field": st.integers(0, 10),
        "existing": st.booleans(),
        "delta": st.sampled_from([1, -1, 3]),
    })


def refused(ctx, what, fn):
    try:
        fn()
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception:
        return
    ctx.fail(f"{what} was accepted")


def run(case, ctx):
    mk.quiet()
    b = dict(case["base"])
    b["types"] = [dict(t, n=max(t["n"], 2)) for t in b["types"]]
    rng = np.random.default_rng(b["seed"])
    w, box = p10.writer(b)
    nxt = 1
    names = []
    for td in b["types"]:
        td["h"] = "given"
        p10.fill(w, td, b, rng)
        name = p10.NAMES[td["t"]]
        names.append(name)
        getattr(w, name).particle_ids = np.arange(nxt, nxt + td["n"])
        nxt += td["n"]
    k = case["which"] % len(names)
    name, td = names[k], b["types"][k]
    ds = getattr(w, name)
    fields = [f for f in getattr(required_fields, name) if f != "particle_ids"]
    fl = fields[case["field"] % len(fields)]
    old = getattr(ds, fl)
    n = td["n"]
    a = b["a"]
    good = lambda: setattr(ds, fl, old)
    defect = case["defect"]
    ctx.label(defect)
    bad_write = True
    if defect == "missing":
        delattr(ds, fl)
        ctx.check(getattr(ds, fl) is None, "deleted field is still there")
    elif defect == "length":
        m = n + case["delta"] if n + case["delta"] > 0 else n + 1
        setattr(ds, fl, cosmo_array(np.ones((m,) + old.shape[1:]), old.units, comoving=True, scale_factor=a, scale_exponent=1))
    elif defect == "shape":
        fl = "velocities"
        old = getattr(ds, fl)
        setattr(ds, fl, cosmo_array(np.ones((n, 2)), old.units, comoving=True, scale_factor=a, scale_exponent=0))
    elif defect == "dimension":
        wrong = {"coordinates": u.s, "velocities": u.km, "masses": u.K, "smoothing_lengths": u.Msun, "internal_energy": u.km / u.s}[fl]
        refused(ctx, f"{fl} in {wrong}", lambda: setattr(ds, fl, cosmo_array(np.ones(old.shape), wrong, comoving=True, scale_factor=a, scale_exponent=1)))
        bad_write = False
    elif defect == "notcosmo":
        refused(ctx, f"{fl} as a plain array", lambda: setattr(ds, fl, [np.ones(old.shape), u.unyt_array(np.ones(old.shape), old.units)][case["which"] % 2]))
        bad_write = False
    elif defect == "scale":
        refused(ctx, f"{fl} with another scale factor", lambda: setattr(ds, fl, cosmo_array(np.ones(old.shape), old.units, comoving=True, scale_factor=a * 0.5, scale_exponent=1)))
        bad_write = False
    elif defect in ("ids-zero", "ids-negative", "ids-repeat"):
        ids = np.arange(1, n + 1)
        i = case["field"] % n
        if defect == "ids-repeat":
            ids[i] = ids[(i + 1) % n]
        else:
            ids[i] = 0 if defect == "ids-zero" else -ids[i]
        refused(ctx, f"particle_ids {ids}", lambda: setattr(ds, "particle_ids", ids))
        bad_write = False
    elif defect == "ids-across":
        if len(names) < 2:
            bad_write = False
        else:
            other = getattr(w, names[(k + 1) % len(names)])
            oid = np.asarray(other.particle_ids)
            ids = np.asarray(ds.particle_ids).copy()
            ids[case["field"] % n] = oid[case["which"] % len(oid)]
            fl, old = "particle_ids", ds.particle_ids
            ds.particle_ids = ids
    else:
        bad_write = False
    if not bad_write and fl != "particle_ids":
        x = getattr(ds, fl)
        ctx.check(x is not None and np.array_equal(np.asarray(x), np.asarray(old)), "a refused assignment changed the stored field")
    path = ctx.path()
    if case["existing"]:
        with open(path, "wb") as f:
            f.write(b"precious")
    if bad_write:
        refused(ctx, f"writing with defect {defect!r} in {name}.{fl}", lambda: w.write(path))
        if case["existing"]:
            with open(path, "rb") as f:
                ctx.check(f.read() == b"precious", "a refused write destroyed the existing file")
        else:
            ctx.check(not os.path.exists(path), "a refused write left a file behind")
        setattr(ds, fl, old)
    elif defect == "none":
        ctx.trivial()
    w.write(path)
    with h5py.File(path) as f:
        tot = []
        for nm, t in zip(names, b["types"]):
            g = f[f"PartType{t['t']}"]
            for q, info in getattr(required_fields, nm).items():
                ctx.check(g[info["handle"]].shape[0] == t["n"], lambda: f"{nm}.{q} has {g[info['handle']].shape} rows")
            tot.append(g["ParticleIDs"][...])
        tot = np.concatenate(tot)
        ctx.check(len(np.unique(tot)) == len(tot) and tot.min() > 0, "IDs in the file are not unique and positive")


def smooth_case():
    return st.fixed_dictionaries({"base": p10.case_(), "t": st.integers(0, 7), "n": st.integers(1, 30), "sides": st.sampled_from([[1, 1, 1], [1, 2, 1], [1, 1, 3], [5, 5, 5], [2, 1, 1]])})


def run_smooth(case, ctx):
    mk.quiet()
    b = dict(case["base"], box=[float(x) for x in case["sides"]])
    w, box = p10.writer(b)
    name = p10.NAMES[case["t"]]
    ds = getattr(w, name)
    n, dim = case["n"], b["dim"]
    ds.coordinates = p10.make(np.random.default_rng(b["seed"]).random((n, 3)), u.Mpc, 1, False, b["a"])
    side = set(b["box"][:dim])
    if "smoothing_lengths" not in getattr(required_fields, name):
        refused(ctx, f"smoothing lengths for {name}", ds.generate_smoothing_lengths)
        return
    if len(side) > 1:
        refused(ctx, f"smoothing lengths in a box {b['box'][:dim]}", ds.generate_smoothing_lengths)
        ctx.check(ds.smoothing_lengths is None, "smoothing lengths set despite the refusal")
        return
    ds.generate_smoothing_lengths()
    want = 2 * box[0].to_value("Mpc") / n ** (1 / dim)
    got = ds.smoothing_lengths.to_comoving_value("Mpc")
    ctx.check(got.shape == (n,) and np.allclose(got, want, rtol=1e-9), lambda: f"{n} particles in {dim}D: smoothing lengths {got[:3]}, expected {want}")


def box_case():
    return st.fixed_dictionaries({"dim": st.integers(1, 3), "len": st.integers(0, 4), "a": st.sampled_from([1.0, 0.5])})


def run_box(case, ctx):
    mk.quiet()
    val = 3.0 if case["len"] == 0 else np.full(case["len"], 3.0)
    mkw = lambda: sw.Writer(boxsize=cosmo_array(val, u.Mpc, comoving=True, scale_factor=case["a"], scale_exponent=1), dimension=case["dim"], scale_factor=case["a"])
    if case["len"] == case["dim"]:
        mkw()
    else:
        refused(ctx, f"a box of {case['len']} sides in {case['dim']} dimensions", mkw)


CHECKS = [
    SubCheck("validation", case_, run, quick=500, thorough=15000, weight=3,
             rule="one defect out of ten is injected into an otherwise valid set of particle types; the corrected writer must then succeed"),
    SubCheck("smoothing", smooth_case, run_smooth, quick=150, thorough=4000, rule="generated smoothing lengths"),
    SubCheck("box", box_case, run_box, quick=24, thorough=60, rule="box shapes", weight=0.3),
]
QUICK_BUDGET = 50
