"""P02: every field loads with the values, units and cosmology declared in the file."""
import h5py
import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw
from harness import masking as mk
from harness import snap
from harness.core import Skip, SubCheck

RULE = "non-trivial = at least one field carries non-default exponents or flags"
ASSUMPTIONS = ["unit names are rounded to five significant figures by design, so unit factors are compared to 2e-4"]
EXPS = [0, 0, 1, -1, 2, -2, 3, -3, 0.5, -2.0 / 3.0, 5, -4]
AEXPS = [0.0, 1.0, -1.0, -2.0, 3.0, -3.0, 0.5, -0.25, 2.0, -5.0, 1.5]
COLSETS = [
    ["Hydrogen", "Helium", "Carbon", "Nitrogen", "Oxygen", "Neon", "Iron"],
    ["HI", "HII", "HeII", "HeIII", "H2Neutral", "COMol", "OIX"],
]


def override():
    return st.fixed_dictionaries({
        "exps": st.lists(st.sampled_from(EXPS), min_size=5, max_size=5),
        "a": st.sampled_from(AEXPS),
        "phys": st.sampled_from([0, 1, None]),
        "valid": st.sampled_from([0, 1, None]),
        "desc": st.sampled_from([None, "Gas thing", "Ünïcode dést", "x" * 50]),
        "comp": st.sampled_from([None, "None", "FMantissa9", "DScale4"]),
        "iscomp": st.sampled_from([None, 0, 1]),
        "masked": st.sampled_from([None, None, 0, 1, 2]),
    })


def attrs_case():
    return st.fixed_dictionaries({
        "snap": snap.snapshot_case(max_cells=2, orders=("grid",)),
        "kind": st.sampled_from(["snap", "snap", "soap"]),
        "soap": snap.soap_case(max_cells=2),
        "over": st.lists(override(), min_size=1, max_size=4),
        "cols": st.integers(0, 1),
        "ncols": st.integers(2, 7),
    })


def rewrite(f, path, ov):
    d = f[path]
    for k in list(d.attrs):
        del d.attrs[k]
    for nm, e in zip("LMtTI", ov["exps"]):
        d.attrs[f"U_{nm} exponent"] = np.array([float(e)])
    d.attrs["a-scale exponent"] = np.array([float(ov["a"])])
    if ov["phys"] is not None:
        d.attrs["Value stored as physical"] = np.array([ov["phys"]], dtype=np.int32)
    if ov["valid"] is not None:
        d.attrs["Property can be converted to comoving"] = np.array([ov["valid"]], dtype=np.int32)
    if ov["desc"] is not None:
        d.attrs["Description"] = np.bytes_(ov["desc"].encode("utf-8"))
    if ov["comp"] is not None:
        d.attrs["Lossy compression filter"] = np.bytes_(ov["comp"])
    if ov["iscomp"] is not None:
        d.attrs["Is Compressed"] = bool(ov["iscomp"])
    if ov["masked"] is not None:
        d.attrs["Masked"] = bool(ov["masked"])
        if ov["masked"]:
            d.attrs["Mask Datasets"] = ["BoundSubhalo/NumberOfGasParticles", "BoundSubhalo/NumberOfStarParticles"][: ov["masked"]]
            d.attrs["Mask Threshold"] = 100


def mks_factor(usys, exps):
    M, L, t, I, T = snap.UNIT_SYSTEMS[usys]
    eL, eM, et, eT, eI = exps
    return (L / 100) ** eL * (M / 1000) ** eM * t**et * T**eT * I**eI


DIMS = [u.dimensions.length, u.dimensions.mass, u.dimensions.time, u.dimensions.temperature, u.dimensions.current_mks]


def check_units(ctx, what, units, usys, exps):
    want = 1
    for d, e in zip(DIMS, exps):
        want = want * d ** float(e)
    r = units.dimensions / want
    powers = [(b, float(p)) for b, p in getattr(r, "as_powers_dict", lambda: {})().items()] if r != 1 else []
    ctx.check(all(b == 1 or abs(p) < 1e-9 for b, p in powers), lambda: f"{what}: dimensions {units.dimensions}, expected {want}")
    fac = float(units.base_value)
    exp = mks_factor(usys, exps)
    if not 1e-300 < exp < 1e300:
        raise Skip("the file's unit is not a number that can be held")
    ctx.check(abs(fac / exp - 1) < 2e-4 * (1 + sum(abs(e) for e in exps)), lambda: f"{what}: unit {units} is {fac} mks, file says {exp}")


def expected_name(ov):
    desc = ov["desc"] if ov["desc"] is not None else "No description available."
    if ov["masked"]:
        names = ["BoundSubhalo/NumberOfGasParticles", "BoundSubhalo/NumberOfStarParticles"][: ov["masked"]]
        return f"{desc} Only computed for objects where {' + '.join(names)} >= 100."
    return f"{desc} Not masked."


def run_attrs(case, ctx):
    mk.quiet()
    path = ctx.path()
    if case["kind"] == "snap":
        s = dict(case["snap"])
        m = snap.build_snapshot(s, path)
    else:
        s = dict(case["soap"])
        m = snap.build_soap(s, path)
    a = s["a"]
    cols = COLSETS[case["cols"]][: case["ncols"]]
    targets = [(g, f) for g in m.groups for f in m.groups[g] if f not in ("Coordinates", "HaloCentre")]
    overs = {}
    extra = None
    with h5py.File(path, "a") as f:
        for i, (g, fl) in enumerate(targets):
            ov = case["over"][i % len(case["over"])]
            if fl in m.named:
                continue
            rewrite(f, m.attrs[(g, fl)]["path"], ov)
            overs[(g, fl)] = ov
        if case["kind"] == "snap":
            g = next(iter(m.groups))
            n = len(m.groups[g]["ParticleIDs"])
            arr = np.random.default_rng(s["seed"]).random((n, len(cols))).astype("<f4")
            d = f.create_dataset(f"{m.paths[g]}/MyColumnThings", data=arr)
            rewrite(f, d.name, case["over"][0])
            if "MyColumnThings" in f["SubgridScheme/NamedColumns"]:
                del f["SubgridScheme/NamedColumns/MyColumnThings"]
            f["SubgridScheme/NamedColumns"].create_dataset("MyColumnThings", data=np.array([c.encode() for c in cols], dtype="S32"))
            extra = (g, arr)
    data = sw.load(path)

    def check_array(what, x, truth, ov, column=None):
        ctx.check(np.array_equal(np.asarray(x), truth) and np.asarray(x).shape == truth.shape, lambda: f"{what}: values {np.asarray(x)[:4]}, stored {truth[:4]}")
        ctx.check(np.asarray(x).dtype.newbyteorder("=") == truth.dtype.newbyteorder("="), lambda: f"{what}: dtype {x.dtype}, stored {truth.dtype}")
        check_units(ctx, what, x.units, s["usys"], ov["exps"])
        ctx.check(x.comoving == (ov["phys"] != 1), lambda: f"{what}: comoving={x.comoving}, stored as physical={ov['phys']}")
        ctx.check(np.isclose(float(x.cosmo_factor.a_factor), a ** ov["a"], rtol=1e-12), lambda: f"{what}: a-factor {x.cosmo_factor.a_factor}, expected a**{ov['a']}")
        ctx.check(float(x.cosmo_factor.scale_factor) == a, lambda: f"{what}: scale factor {x.cosmo_factor.scale_factor}")
        ctx.check(x.valid_transform == (ov["valid"] != 0), lambda: f"{what}: valid_transform {x.valid_transform} but file says {ov['valid']}")
        ok = x.name == expected_name(ov) if column is None else x.name.startswith(expected_name(ov)) and column in x.name
        ctx.check(ok, lambda: f"{what}: name {x.name!r}, expected {expected_name(ov)!r}")
        wc = "Not compressed." if ov["iscomp"] == 0 else (ov["comp"] if ov["comp"] is not None else "No compression info available")
        ctx.check(x.compression == wc, lambda: f"{what}: compression {x.compression!r}, expected {wc!r}")
        if ov["valid"] != 0 and truth.dtype.kind == "f" and truth.dtype.itemsize > 2:
            fl = truth.astype(np.float64)
            fac = a ** ov["a"]
            ph = fl if ov["phys"] == 1 else fl * fac
            ctx.check(np.allclose(np.asarray(x.to_physical(), dtype=float), ph, rtol=1e-5), lambda: f"{what}: to_physical wrong")
            ctx.check(np.allclose(np.asarray(x.to_comoving(), dtype=float), ph / fac, rtol=1e-5), lambda: f"{what}: to_comoving wrong")

    for (g, fl), ov in overs.items():
        if ov["valid"] == 0 and ov["phys"] != 1:
            ctx.label("contradictory flags skipped")
            continue
        check_array(f"{g}.{fl}", getattr(getattr(data, g), snap.snake(fl)), m.groups[g][fl], ov)
    if extra and not (case["over"][0]["valid"] == 0 and case["over"][0]["phys"] != 1):
        g, arr = extra
        holder = getattr(data, g).my_column_things
        want = [c.lower() for c in cols] if case["cols"] == 0 else cols
        ctx.check(list(holder.named_columns) == want and len(holder) == len(cols), lambda: f"named columns {holder.named_columns}, declared {cols}")
        for i, c in enumerate(want):
            check_array(f"{g}.MyColumnThings.{c}", getattr(holder, c), arr[:, i], case["over"][0], column=c)
    for g in m.groups:
        for fl in ("Coordinates", "HaloCentre"):
            if fl in m.groups[g]:
                x = getattr(getattr(data, g), snap.snake(fl))
                ctx.check(np.array_equal(np.asarray(x), m.groups[g][fl]), f"{fl} differ")
                check_units(ctx, fl, x.units, s["usys"], (1, 0, 0, 0, 0))


# ----------------------------------------------------------------------------- histories
def hist_case():
    op = st.tuples(st.sampled_from(["get", "get", "set", "del", "inplace", "len"]), st.integers(0, 20), st.integers(0, 4)).map(list)
    return st.fixed_dictionaries({
        "snap": snap.snapshot_case(max_cells=2, orders=("grid",), big=True),
        "named": st.booleans(),
        "masked": st.booleans(),
        "ops": st.lists(op, min_size=2, max_size=12),
    })


def run_hist(case, ctx):
    mk.quiet()
    path = ctx.path()
    s = dict(case["snap"])
    s["types"] = [dict(t) for t in s["types"]]
    if case["named"]:
        for t in s["types"]:
            have = {f[0] for f in t["fields"]}
            t["fields"] = t["fields"] + [[n, 0, 0, 0] for n in snap.NAMED_COLUMNS if n not in have]
    m = snap.build_snapshot(s, path)
    mask = None
    if case["masked"]:
        mask = sw.mask(path)
        mask.constrain_spatial([None, None, [0 * mask.metadata.boxsize[2], 0.5 * mask.metadata.boxsize[2]]])
    data = sw.load(path, mask=mask)
    rows = {g: (mk.rows_of(mask, g) if mask is not None else slice(None)) for g in m.groups}
    slots = []
    for g in m.groups:
        for f, arr in m.groups[g].items():
            if f in m.named:
                holder_names = [c.lower() for c in m.named[f]] if f == "ElementMassFractions" else m.named[f]
                slots += [(g, snap.snake(f), c, arr[rows[g]][:, i]) for i, c in enumerate(holder_names)]
            else:
                slots.append((g, snap.snake(f), None, arr[rows[g]]))
    state = {}   # slot index -> overriding array

    def owner(i):
        g, f, c, _ = slots[i]
        return (getattr(data, g), f) if c is None else (getattr(getattr(data, g), f), c)

    kinds = set()
    for kind, i, v in case["ops"]:
        i %= len(slots)
        o, name = owner(i)
        kinds.add(kind)
        if kind == "get":
            getattr(o, name)
        elif kind == "set":
            new = getattr(o, name) * 0 + v
            setattr(o, name, new)
            state[i] = np.asarray(new).copy()
        elif kind == "del":
            delattr(o, name)
            state.pop(i, None)
        elif kind == "inplace":
            x = getattr(o, name)
            x[:1] = x[:1] * 0 + v
            state[i] = np.asarray(x).copy()
        elif kind == "len":
            g, f, c, _ = slots[i]
            if c is not None:
                ctx.check(len(getattr(getattr(data, g), f)) == len(m.named[[k for k in m.named if snap.snake(k) == f][0]]), "wrong number of named columns")
        # everything already touched keeps its value; check this slot and another one
        for j in {i, (i * 7 + v) % len(slots)}:
            o, name = owner(j)
            got = np.asarray(getattr(o, name))
            want = state.get(j, slots[j][3])
            ctx.check(np.array_equal(got, want), lambda: f"after {kind} of slot {slots[i][:3]}: {slots[j][:3]} is {got[:4]}, expected {want[:4]}")
    for j in range(len(slots)):
        o, name = owner(j)
        ctx.check(np.array_equal(np.asarray(getattr(o, name)), state.get(j, slots[j][3])), lambda: f"finally: {slots[j][:3]} differs")
    with h5py.File(path) as f:
        for g in m.groups:
            for fl, arr in m.groups[g].items():
                ctx.check(np.array_equal(f[m.attrs[(g, fl)]["path"]][...], arr), "file changed by reading")
    if not kinds & {"set", "del", "inplace"}:
        ctx.trivial()


CHECKS = [
    SubCheck("attributes", attrs_case, run_attrs, quick=420, thorough=15000, weight=2,
             rule="unit system, exponents, scale factor, flags, descriptions and named columns are drawn"),
    SubCheck("history", hist_case, run_hist, quick=220, thorough=8000, weight=1,
             rule="get/set/delete/modify histories over all the fields and named columns"),
]
QUICK_BUDGET = 50
