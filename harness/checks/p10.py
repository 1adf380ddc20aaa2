"""P10: files written by the writer read back with the same quantities."""
import h5py
import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw
from swiftsimio.metadata.writer import required_fields
from swiftsimio.metadata.writer.unit_systems import cosmo_units
from swiftsimio.objects import cosmo_array, cosmo_quantity
from harness import masking as mk
from harness import snap
from harness.core import SubCheck

RULE = "non-trivial = scale factor different from one, or a unit system different from the units of the arrays"
ASSUMPTIONS = ["unit names are rounded to five significant figures on reading, so values read back are compared to 3e-4; the file itself to 1e-10"]
SYSTEMS = ["cosmo", "cgs", "mks", "galactic", "solar", "custom"]
CHOICES = {
    "coordinates": [u.Mpc, u.kpc, u.cm, u.pc, u.km],
    "smoothing_lengths": [u.Mpc, u.kpc, u.cm, u.AU],
    "velocities": [u.km / u.s, u.cm / u.s, u.Mpc / u.Gyr],
    "masses": [u.Msun, u.g, u.kg, u.Mearth],
    "internal_energy": [u.km**2 / u.s**2, u.erg / u.g, u.J / u.kg],
}
EXPS = {
    "coordinates": [1, 1.0], "smoothing_lengths": [1, 1.0], "velocities": [0, 0.0, 1, -1, 0.5],
    "masses": [0, 0.0], "internal_energy": [-2, 0, -2.0, 1],
}
NAMES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos", "sidm"]


def system(k):
    if k == "cosmo":
        return cosmo_units
    if k == "custom":
        return u.UnitSystem("custom_verif", u.kpc, u.unyt_quantity(3.0, u.Msun), u.Myr)
    return k


def field():
    return st.fixed_dictionaries({"unit": st.integers(0, 4), "exp": st.integers(0, 4), "phys": st.booleans(),
                                  "dtype": st.sampled_from(["f8", "f8", "f4"]),
                                  "via": st.sampled_from([None, None, None, "sqrt", "cbrt", "ratio", "product", "mixed"])})


def computed(via, v, un, ex, phys, a):
    """The quantity as the result of a calculation instead of made directly."""
    one = lambda unit, e: cosmo_quantity(1.0, unit, comoving=not phys, scale_factor=a, scale_exponent=e)
    if via == "sqrt":
        return np.sqrt(make(v**2, un**2, 2 * ex, phys, a))
    if via == "cbrt":
        return make(v**3, un**3, 3 * ex, phys, a) ** (1 / 3)
    if via == "ratio":
        return make(v, un * u.s, ex + 1, phys, a) / one(u.s, 1)
    if via == "product":
        return make(v, un / u.s, ex - 2, phys, a) * one(u.s, 2)
    return make(v, un / u.s, ex - 2, phys, a) * np.sqrt(one(u.s, 2) ** 2)


@st.composite
def case_(draw):
    types = sorted(draw(st.lists(st.integers(0, 7), min_size=1, max_size=3, unique=True)))
    return {
        "system": draw(st.sampled_from(SYSTEMS)),
        "a": draw(st.sampled_from([1.0, 0.5, 0.1, 0.25, 0.731])),
        "box": draw(st.sampled_from([[1.0, 1.0, 1.0], [10.0, 20.0, 30.0], [100.0] * 3])),
        "boxunit": draw(st.integers(0, 4)), "boxphys": draw(st.booleans()),
        "dim": draw(st.sampled_from([3, 3, 3, 2, 1])),
        "compress": draw(st.booleans()),
        "types": [{"t": t, "n": draw(st.sampled_from([1, 2, 5, 17])),
                   "fields": {f: draw(field()) for f in ("coordinates", "velocities", "masses", "smoothing_lengths", "internal_energy")},
                   "h": draw(st.sampled_from(["given", "given", "generate"]))} for t in types],
        "ids": draw(st.sampled_from(["none", "all", "all", "some"])),
        "extra": draw(st.booleans()),
        "rewrite": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
    }


def make(val, unit, exp, phys, a):
    return cosmo_array(val, unit, comoving=not phys, scale_factor=a, scale_exponent=exp)


def writer(case):
    box = np.array(case["box"][: case["dim"]])
    un = CHOICES["coordinates"][case["boxunit"]]
    kw = {"extra_header": {"MyAttribute": np.array([4.5]), "Flag": 3}} if case["extra"] else {}
    b = make(box, un, 1, case["boxphys"], case["a"])
    w = sw.Writer(unit_system=system(case["system"]), boxsize=b, dimension=case["dim"], compress=case["compress"],
                  scale_factor=case["a"], **kw)
    return w, (box if not case["boxphys"] else box / case["a"]) * un


def fill(w, td, case, rng, which=None):
    """Assign the fields of one type; returns {name: (comoving values with units, exponent, dtype)}."""
    name = NAMES[td["t"]]
    ds = getattr(w, name)
    n = td["n"]
    truth = {}
    for f in getattr(required_fields, name):
        if f == "particle_ids":
            continue
        fd = td["fields"][f]
        if f == "smoothing_lengths" and td["h"] == "generate" and len(set(case["box"][: case["dim"]])) == 1:
            truth[f] = None
            continue
        un = CHOICES[f][fd["unit"] % len(CHOICES[f])]
        if f == "masses" and fd["dtype"] == "f4" and un in (u.g, u.kg):
            un = u.Msun  # unyt takes the conversion factor in single precision, which cannot hold 1 g in 1e10 solar masses
        ex = EXPS[f][fd["exp"] % len(EXPS[f])]
        v = rng.uniform(0.1, 5.0, size=(n, 3) if f in ("coordinates", "velocities") else n).astype(fd["dtype"])
        via = fd.get("via") if fd["dtype"] == "f8" and un not in (u.cm, u.km) else None
        x = make(v.copy(), un, ex, fd["phys"], case["a"]) if via is None else computed(via, v.copy(), un, ex, fd["phys"], case["a"])
        setattr(ds, f, x)
        com = v.astype(float) * (case["a"] ** -float(ex) if fd["phys"] else 1.0)
        truth[f] = (com * un, float(ex), fd["dtype"])
    return truth


def run(case, ctx):
    mk.quiet()
    rng = np.random.default_rng(case["seed"])
    w, box = writer(case)
    truth, ids = {}, {}
    nxt = 1
    for i, td in enumerate(case["types"]):
        name = NAMES[td["t"]]
        truth[name] = fill(w, td, case, rng)
        if truth[name].get("smoothing_lengths", 0) is None:
            getattr(w, name).generate_smoothing_lengths()
            h = 2 * box[0] / td["n"] ** (1.0 / case["dim"])
            truth[name]["smoothing_lengths"] = (np.ones(td["n"]) * h, 1.0, "f8")
            ctx.label("generated smoothing lengths")
        if case["ids"] == "all" or (case["ids"] == "some" and i == 0):
            x = rng.permutation(np.arange(nxt, nxt + td["n"]))
            nxt += td["n"]
            getattr(w, name).particle_ids = x.copy()
            ids[name] = x
    path = ctx.path()
    w.write(path)
    if case["rewrite"]:
        path = ctx.path()
        w.write(path)
        ctx.label("written twice")
    regenerated = case["ids"] == "none" or (case["ids"] == "some" and len(case["types"]) > 1)
    # --- the file
    with h5py.File(path) as f:
        U = {k.split("(U_")[1][0]: float(v[0]) for k, v in f["Units"].attrs.items()}
        a = case["a"]
        bs = f["Header"].attrs["BoxSize"]
        ctx.check(np.allclose(bs * U["L"], box.to_value("cm"), rtol=1e-8), lambda: f"BoxSize {bs} x {U['L']} cm, given {box} comoving")
        ctx.check(float(np.atleast_1d(f["Header"].attrs["Scale-factor"])[0]) == a, "scale factor")
        ctx.check(int(np.atleast_1d(f["Header"].attrs["Dimension"])[0]) == case["dim"], "dimension")
        if case["extra"]:
            ctx.check(f["Header"].attrs["MyAttribute"][0] == 4.5 and f["Header"].attrs["Flag"] == 3, "extra header entries lost")
        nums = f["Header"].attrs["NumPart_ThisFile"]
        mt = f["Header"].attrs["MassTable"]
        for t in range(8):
            n = [td["n"] for td in case["types"] if td["t"] == t]
            ctx.check(int(nums[t]) == (n[0] if n else 0) and int(f["Header"].attrs["NumPart_Total"][t]) == int(nums[t]),
                      lambda: f"header counts {nums}")
            ctx.check((f"PartType{t}" in f) == bool(n), lambda: f"PartType{t} present={f'PartType{t}' in f}")
        used = []
        for td in case["types"]:
            name = NAMES[td["t"]]
            g = f[f"PartType{td['t']}"]
            info = getattr(required_fields, name)
            for fl, (com, ex, dt) in truth[name].items():
                d = g[info[fl]["handle"]]
                at = {k: float(np.atleast_1d(v)[0]) for k, v in d.attrs.items()}
                fac = U["L"] ** at["U_L exponent"] * U["M"] ** at["U_M exponent"] * U["t"] ** at["U_t exponent"] * U["T"] ** at["U_T exponent"]
                want = com.in_cgs().value
                tol = 1e-5 if dt == "f4" else 1e-8
                ctx.check(d.shape == want.shape and np.allclose(d[...].astype(float) * fac, want, rtol=tol, atol=0), lambda: f"{name}.{fl}: file says {d[...].astype(float).ravel()[:3] * fac} cgs (comoving), given {want.ravel()[:3]}")
                ctx.check(abs(at["a-scale exponent"] - ex) < 1e-12, lambda: f"{name}.{fl}: a-scale exponent {at['a-scale exponent']}, given {ex}")
                ctx.check(at["h-scale exponent"] == 0, "h-scale exponent")
                c1 = at["Conversion factor to CGS (not including cosmological corrections)"]
                c2 = at["Conversion factor to physical CGS (including cosmological corrections)"]
                ctx.check(np.isclose(c1, fac, rtol=1e-8), lambda: f"{name}.{fl}: CGS factor {c1}, expected {fac}")
                ctx.check(np.isclose(c2, fac * a**ex, rtol=1e-8), lambda: f"{name}.{fl}: physical CGS factor {c2}, expected {fac * a**ex}")
            ctx.check(np.isclose(mt[td["t"]] * U["M"], truth[name]["masses"][0].in_cgs().value[0], rtol=1e-5), lambda: f"mass table {mt}")
            got = g["ParticleIDs"][...]
            used.append(got)
            if name in ids and not regenerated:
                ctx.check(np.array_equal(got, ids[name]), lambda: f"{name}: IDs {got}, given {ids[name]}")
        allids = np.concatenate(used)
        ctx.check(len(np.unique(allids)) == len(allids) and allids.min() >= 1, lambda: f"IDs not unique and positive: {allids}")
        if regenerated:
            ctx.check(np.array_equal(np.sort(allids), np.arange(1, len(allids) + 1)), lambda: f"generated IDs {np.sort(allids)}")
    # --- read back
    data = sw.load(path)
    ctx.check(np.allclose(data.metadata.boxsize.to_comoving_value("cm"), box.to_value("cm"), rtol=3e-4), "box size read back")
    ctx.check(float(data.metadata.a) == case["a"] or case["a"] == float(data.metadata.scale_factor), "scale factor read back")
    for td in case["types"]:
        name = NAMES[td["t"]]
        ctx.check(int(getattr(data.metadata, f"n_{name}")) == td["n"], "particle number read back")
        for fl, (com, ex, dt) in truth[name].items():
            x = getattr(getattr(data, name), fl).astype(np.float64)
            ctx.check(np.allclose(np.asarray(x.to_comoving().to_value(com.units)), com.value, rtol=1e-3), lambda: f"{name}.{fl}: read back {x.to_comoving().to(com.units)[:2]}, written {com[:2]}")
            ctx.check(np.allclose(np.asarray(x.to_physical().to_value(com.units)), com.value * case["a"] ** ex, rtol=1e-3),
                      lambda: f"{name}.{fl}: physical values read back {x.to_physical().to(com.units)[:2]}, written {com[:2] * case['a']**ex}")
    if case["a"] == 1.0 and case["system"] == "cosmo":
        ctx.trivial()


CHECKS = [
    SubCheck("roundtrip", case_, run, quick=700, thorough=25000,
             rule="unit system, box, scale factor, particle types, units, frames, exponents, precision and IDs are drawn"),
]
QUICK_BUDGET = 50
