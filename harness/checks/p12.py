"""P12: units, header, cosmology and column names read from a file are those stored in it."""
import datetime
import math

import h5py
import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw

from .. import cosmo as C
from ..core import SubCheck

RULE = "the file has a unit system with a factor other than one, or optional entries"
ASSUMPTIONS = ["units are rounded to five digits by design, so values with units are compared to 6e-5",
               "mapping tables name each axis with one kind of named column", "cosmologies that astropy cannot represent are not generated"]

TYPES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos", "sidm"]
BASES = {
    "M": [1.0, 1e3, 5.97e27, 1.98848e33, 1.98848e43, 1.98841e43, 1.99e43, 2.5e30, 3.3e36],
    "L": [1.0, 100.0, 1e5, 3.08567758149e18, 3.08567758149e21, 3.08567758149e24, 3.08567758149e27, 6.4e8, 1.7e20, 9.9e23],
    "t": [1.0, 3.15576e7, 3.15576e13, 3.08567758149e19, 3.08567758149e16, 4.4e15, 0.37],
    "I": [1.0, 10.0, 0.5], "T": [1.0, 2.0, 1e4],
}
COLS = [["Hydrogen", "Helium", "Carbon"], ["HI", "HII", "HeI", "HeII"], ["Silicates", "graphite"], ["A", "B", "CC", "d"], ["CarbonMonoxide", "H2O"], ["hydrogen"]]


def species():
    """Massive neutrinos: masses in any order with their degeneracies, and massless ones, at least one neutrino in all."""
    return st.fixed_dictionaries({"m": st.lists(st.tuples(st.sampled_from([0.0, 0.06, 0.2, 0.05, 1.1]), st.integers(0, 3)), min_size=1, max_size=3), "ur": st.integers(0, 2), "frac": st.sampled_from([0.0, 0.02, 0.046, 0.9])}).filter(lambda d: d["ur"] + sum(x[1] for x in d["m"]) > 0)


CODE = ["Code", "Git Branch", "Git Revision", "Git Date", "Compiler Name", "Compiler Version", "MPI library", "FFTW library version", "GSL library version", "HDF5 library version"]
HYDRO_TEXT = ["Scheme", "Kernel function", "Viscosity Model"]
HYDRO_NUM = ["Kernel eta", "Kernel target N_ngb", "CFL parameter", "Alpha viscosity", "Viscosity decay length [internal units]", "Beta viscosity", "Alpha viscosity (min)", "Alpha viscosity (max)", "Diffusion alpha", "Diffusion beta", "Diffusion alpha (min)", "Diffusion alpha (max)"]


def infos(md, code, hydro, dim, ctx):
    """The printed summaries name each stored value, in the documented places."""
    t = lambda k: code[CODE.index(k)]
    h = {k: v for k, v in zip(HYDRO_TEXT + HYDRO_NUM, hydro)}
    x = lambda k: "%4.2f" % h[k]
    ctx.check(md.code_info == f"{t('Code')} ({t('Git Branch')})\n{t('Git Revision')}\n{t('Git Date')}", lambda: f"code_info {md.code_info!r}, stored {code}")
    ctx.check(md.compiler_info == f"{t('Compiler Name')} ({t('Compiler Version')})\n{t('MPI library')}", lambda: f"compiler_info {md.compiler_info!r}, stored {code}")
    want = "\n".join(f"{n} v{t(n + ' library version')}" for n in ("FFTW", "GSL", "HDF5"))
    ctx.check(md.library_info == want, lambda: f"library_info {md.library_info!r}, stored {code}")
    numbers = lambda s: [w.strip("(),$\\") for w in s.replace("\n", " ").split() if w.strip("(),$\\").replace(".", "", 1).replace("-", "", 1).isdigit()]
    text = md.hydro_info
    ctx.check(text.startswith(f"{h['Scheme']}\n{h['Kernel function']} in {dim}D\n") and numbers(text[len(h["Scheme"]) + len(h["Kernel function"]) + 5 + len(str(dim)):]) == [x("Kernel eta"), x("Kernel target N_ngb"), x("CFL parameter")], lambda: f"hydro_info {text!r}, stored {h}")
    text = md.viscosity_info
    ctx.check(text.startswith(h["Viscosity Model"] + "\n") and numbers(text[len(h["Viscosity Model"]):]) == [x("Alpha viscosity"), x("Viscosity decay length [internal units]"), x("Beta viscosity"), x("Alpha viscosity (min)"), x("Alpha viscosity (max)")], lambda: f"viscosity_info {text!r}, stored {h}")
    text = md.diffusion_info
    ctx.check(numbers(text) == [x("Diffusion alpha"), x("Diffusion beta"), x("Diffusion alpha (min)"), x("Diffusion alpha (max)")], lambda: f"diffusion_info {text!r}, stored {h}")


def case_():
    word = st.text(alphabet="abcXYZ019.-_ é", min_size=1, max_size=8)
    f = st.floats(0.1, 0.9).map(lambda x: round(x, 6))
    return st.fixed_dictionaries({
        "units": st.fixed_dictionaries({k: st.sampled_from(v) for k, v in BASES.items()}), "jitter": st.sampled_from([0.0, 0.0, 3e-6]),
        "a": st.sampled_from([1.0, 0.5, 0.25, 0.9, None]), "time": f, "box": st.sampled_from([[1.0], [2.0, 3.0, 4.5], [142.25] * 3, [7.0, 7.0]]), "boxscalar": st.booleans(),
        "counts": st.lists(st.integers(0, 4), min_size=6, max_size=8), "mt": st.sampled_from([None, 6, 7, 8]), "imt": st.sampled_from([None, 7]),
        "seed": st.integers(0, 10**6), "cosmo": st.sampled_from([None, 0, 1, 1, 1]), "tcmb": st.sampled_from([None, 0.0, 2.7255]), "nu": st.one_of(st.sampled_from([None, "massless"]), species()),
        "w": st.lists(f, min_size=4, max_size=4), "H0": st.sampled_from([50.0, 67.77, 100.0]),
        "date": st.datetimes(datetime.datetime(1995, 1, 1), datetime.datetime(2090, 1, 1)).map(lambda d: d.strftime("%H:%M:%S %Y-%m-%d")), "datekey": st.sampled_from(["SnapshotDate", "Snapshot date", "none", "odd"]),
        "strings": st.lists(st.text(st.characters(codec="utf-8", exclude_characters="\x00"), max_size=8), min_size=3, max_size=3), "vlen": st.booleans(), "present": st.lists(st.booleans(), min_size=6, max_size=6),
        "cols": st.lists(st.integers(0, len(COLS) - 1), min_size=2, max_size=2), "mapping": st.sampled_from([None, "DustToElement", "GrainToElement", "ElementToDust"]), "gamma": st.sampled_from([None, 5 / 3, 1.4]),
        "code": st.none() | st.lists(word, min_size=len(CODE), max_size=len(CODE)), "hydro": st.tuples(st.lists(word, min_size=3, max_size=3), st.lists(st.floats(0, 99).map(lambda x: round(x, 4)), min_size=len(HYDRO_NUM), max_size=len(HYDRO_NUM))),
        "extra": st.dictionaries(st.sampled_from(["Parameters", "UnusedParameters", "Policy", "RuntimePars", "StarsScheme", "GravityScheme"]), st.dictionaries(st.sampled_from(["A:b", "x", "Some name"]), st.integers(0, 99), max_size=2), max_size=3)})


def write(case, path):
    r = np.random.default_rng(case["seed"])
    m = {}
    with h5py.File(path, "w") as f:
        g = f.create_group("Units")
        m["units"] = {}
        for k, n in (("M", "mass"), ("L", "length"), ("t", "time"), ("I", "current"), ("T", "temperature")):
            v = case["units"][k] * (1 + case["jitter"])
            g.attrs[f"Unit {n} in cgs (U_{k})"] = np.array([v])
            m["units"][n] = v
        h = f.create_group("Header")
        box = case["box"]
        h.attrs["BoxSize"] = box[0] if case["boxscalar"] else np.array(box)
        if case["a"] is not None:
            h.attrs["Scale-factor"] = np.array([case["a"]])
            h.attrs["Redshift"] = np.array([1 / case["a"] - 1])
        h.attrs["Time"] = np.array([case["time"]])
        h.attrs["Dimension"] = np.array([len(box)])
        h.attrs["NumPart_ThisFile"] = np.array(case["counts"])
        h.attrs["NumPart_Total"] = np.array(case["counts"])
        h.attrs["NumFilesPerSnapshot"] = np.array([1])
        enc = (lambda s: s) if case["vlen"] else (lambda s: np.bytes_(s.encode()))
        for k, s, p in zip(("RunName", "SelectOutput", "System"), case["strings"], case["present"]):
            if p:
                h.attrs[k] = enc(s)
        h.attrs["OutputType"] = enc("FullVolume")
        if case["datekey"] in ("SnapshotDate", "Snapshot date"):
            h.attrs[case["datekey"]] = enc(case["date"] + " GMT")
        elif case["datekey"] == "odd":
            h.attrs["SnapshotDate"] = enc("yesterday")
        for k, key in (("mt", "MassTable"), ("imt", "InitialMassTable")):
            if case[k]:
                m[k] = r.uniform(0, 2, case[k])
                h.attrs[key] = m[k]
        if case["gamma"] is not None:
            f.create_group("HydroScheme").attrs["Adiabatic index"] = case["gamma"]
        if case["code"] is not None:
            for k, v in zip(CODE, case["code"]):
                f.require_group("Code").attrs[k] = np.bytes_(v.encode())
            hs = f.require_group("HydroScheme")
            for k, v in zip(HYDRO_TEXT, case["hydro"][0]):
                hs.attrs[k] = np.bytes_(v.encode())
            for k, v in zip(HYDRO_NUM, case["hydro"][1]):
                hs.attrs[k] = np.array([v])
            hs.attrs["Dimension"] = np.array([len(box)])
        for k, d in case["extra"].items():
            e = f.create_group(k)
            for n, v in d.items():
                e.attrs[n] = v
        if case["cosmo"] is not None:
            c = f.create_group("Cosmology")
            w = case["w"]
            # H0 in 1/internal time for the requested km/s/Mpc
            H0 = case["H0"] * 1e5 / 3.0856775814913673e24 * m["units"]["time"]
            vals = {"Cosmological run": case["cosmo"], "H0 [internal units]": H0, "Omega_b": w[0] / 10, "Omega_lambda": w[1], "Omega_m": w[2], "Omega_r": 9e-5 * w[3] if case["tcmb"] is None or case["tcmb"] == 0 else 0.0,
                    "w_0": -w[3], "w_a": w[0] - 0.5}
            if case["tcmb"] is not None:
                vals["T_CMB_0 [K]"] = case["tcmb"]
            m["cosmo"] = vals
            for k, v in vals.items():
                c.attrs[k] = np.array([v])
            if case["nu"] == "massless":
                c.attrs["N_eff"], c.attrs["N_ur"], c.attrs["M_nu_eV"], c.attrs["deg_nu"] = np.array([3.046]), np.array([3.046]), np.array([0.0]), np.array([0.0])
            elif case["nu"]:
                nu = case["nu"]
                c.attrs["N_eff"] = np.array([nu["ur"] + sum(x[1] for x in nu["m"]) + nu["frac"]])
                c.attrs["N_ur"] = np.array([nu["ur"] + nu["frac"] / 2])
                c.attrs["M_nu_eV"], c.attrs["deg_nu"] = np.array([x[0] for x in nu["m"]]), np.array([float(x[1]) for x in nu["m"]])
        s = f.create_group("SubgridScheme")
        if case["present"][3]:
            m["edges"] = np.sort(r.uniform(0, 10, 4))
            s["PhotonGroupEdges"] = m["edges"]
        if case["present"][4]:
            m["speed"] = float(r.uniform(1, 9))
            s["ReducedLightspeed"] = np.array([m["speed"]])
        if case["present"][5]:
            nc = s.create_group("NamedColumns")
            m["cols"] = {"ElementMassFractions": COLS[case["cols"][0]], "DustMassFractions": COLS[case["cols"][1]]}
            for k, v in m["cols"].items():
                nc.create_dataset(k, data=np.array([np.bytes_(x) for x in v]))
            if case["mapping"]:
                xs = COLS[case["cols"][0 if case["mapping"].startswith("Element") else 1]]
                ys = COLS[case["cols"][1 if case["mapping"].startswith("Element") else 0]]
                m["map"] = (r.uniform(0, 1, (len(xs), len(ys))), xs, ys)
                s.create_dataset(case["mapping"] + "Mapping", data=m["map"][0])
        for t, n in enumerate(case["counts"]):
            if n == 0:
                continue
            p = f.create_group(f"PartType{t}")
            for name, arr in (("ParticleIDs", np.arange(n)), ("Masses", np.ones(n))):
                add(p, name, arr, 1.0 if name == "Masses" else 0.0)
            if t == 0 and "cols" in m:
                for name, cc in m["cols"].items():
                    add(p, name, r.uniform(0, 1, (n, len(cc))), 0.0)
    return m


def add(p, name, arr, um):
    d = p.create_dataset(name, data=arr)
    for k, v in (("U_M", um), ("U_L", 0.0), ("U_t", 0.0), ("U_I", 0.0), ("U_T", 0.0), ("a-scale", 0.0), ("h-scale", 0.0)):
        d.attrs[f"{k} exponent" if k.startswith("U_") else f"{k} exponent"] = np.array([v])
    d.attrs["a-scale exponent"] = np.array([0.0])
    d.attrs["Description"] = np.bytes_(name)
    d.attrs["Conversion factor to CGS (not including cosmological corrections)"] = np.array([1.0])
    d.attrs["Conversion factor to physical CGS (including cosmological corrections)"] = np.array([1.0])


def close(x, y, tol=6e-5):
    return math.isclose(float(x), float(y), rel_tol=tol, abs_tol=0.0) if y else float(x) == 0.0


def run(case, ctx):
    C.quiet()
    path = ctx.path()
    m = write(case, path)
    md = sw.load(path).metadata
    un = m["units"]
    cgs = {"mass": "g", "length": "cm", "time": "s", "current": "A", "temperature": "K"}
    for n, v in un.items():
        q = getattr(md.units, n)
        ctx.check(close(q.to_value(cgs[n]), v, 5.1e-5), lambda: f"unit of {n}: {q!r} for {v} {cgs[n]}")
    a = 1.0 if case["a"] is None else case["a"]
    ctx.check(md.a == a and md.scale_factor == a, lambda: f"scale factor {md.a}, stored {a}")
    if case["a"] is not None:
        ctx.check(md.z == 1 / a - 1 and md.redshift == md.z, lambda: f"redshift {md.z}")
    ctx.check(close(md.t.to_value("s"), case["time"] * un["time"]) and md.time == md.t, lambda: f"time {md.t!r}")
    ctx.check(int(md.dimension) == len(case["box"]), "dimension")
    box = md.boxsize
    want = np.array(case["box"][0] if case["boxscalar"] else case["box"])
    ctx.check(box.shape == want.shape and np.allclose(box.to_value("cm"), want * un["length"], rtol=6e-5), lambda: f"box {box!r}, stored {want}")
    ctx.check(box.comoving is True and box.valid_transform is True and np.allclose(box.to_physical_value("cm"), want * un["length"] * a, rtol=6e-5), lambda: f"box {box!r} at a={a}")
    for t, name in enumerate(TYPES):
        n = case["counts"][t] if t < len(case["counts"]) else 0
        ctx.check(int(getattr(md, "n_" + name)) == n, lambda: f"n_{name} is {getattr(md, 'n_' + name)}, stored {n}")
        for k, tab in (("mt", md.mass_table), ("imt", md.initial_mass_table)):
            q = getattr(tab, name)
            if k not in m:
                ctx.check(q is not None and q.value == 0 or t >= 8, lambda: f"mass table without entry: {q!r}")
            elif t >= len(m[k]):
                ctx.check(q is None, lambda: f"{k} {name}: {q!r}")
            else:
                ctx.check(close(q.to_value("g"), m[k][t] * un["mass"]), lambda: f"{k} {name}: {q!r}, stored {m[k][t]} of {un['mass']} g")
    present = sorted(TYPES[t] for t, n in enumerate(case["counts"]) if n)
    ctx.check(sorted(md.present_group_names) == present, lambda: f"groups {md.present_group_names}, stored {present}")
    for attr, s, p in zip(("run_name", "select_output", "system_name"), case["strings"], case["present"]):
        ctx.check(getattr(md, attr) == (s if p else ""), lambda: f"{attr} is {getattr(md, attr)!r}, stored {s!r}")
    ctx.check(md.output_type == "FullVolume", "output type")
    if case["datekey"] in ("SnapshotDate", "Snapshot date"):
        d = datetime.datetime.strptime(case["date"], "%H:%M:%S %Y-%m-%d")
        ctx.check(md.snapshot_date == d, lambda: f"date {md.snapshot_date!r}, stored {case['date']}")
    else:
        ctx.check(md.snapshot_date == ("yesterday" if case["datekey"] == "odd" else ""), lambda: f"date {md.snapshot_date!r}")
    ctx.check((md.gas_gamma is None) if case["gamma"] is None else md.gas_gamma == case["gamma"], lambda: f"gamma {md.gas_gamma}")
    for attr, key in (("parameters", "Parameters"), ("unused_parameters", "UnusedParameters"), ("policy", "Policy"), ("runtime_pars", "RuntimePars"), ("stars_scheme", "StarsScheme"), ("gravity_scheme", "GravityScheme")):
        v = getattr(md, attr)
        ctx.check(v == case["extra"][key] if key in case["extra"] else v is None, lambda: f"{attr} is {v}")
    # radiation
    if "edges" in m:
        ctx.check(np.allclose(md.photon_group_edges.to_value("1/s"), m["edges"] / un["time"], rtol=6e-5), lambda: f"{md.photon_group_edges!r}")
    else:
        ctx.check(md.photon_group_edges is None, "photon group edges")
    if "speed" in m:
        ctx.check(close(md.reduced_lightspeed.to_value("cm/s"), m["speed"] * un["length"] / un["time"], 1.2e-4), lambda: f"{md.reduced_lightspeed!r}")
    else:
        ctx.check(md.reduced_lightspeed is None, "reduced lightspeed")
    # named columns and mappings
    ctx.check(md.named_columns == m.get("cols", {}), lambda: f"named columns {md.named_columns}")
    if "cols" in m and case["counts"][0]:
        props = md.gas_properties
        for name, cc in m["cols"].items():
            caps = sum(sum(ch.isupper() for ch in s) for s in cc) / len(cc)
            cols = [s.lower() for s in cc] if caps < 1.01 else cc
            ctx.check(props.named_columns[f"PartType0/{name}"] == cols, lambda: f"columns of {name}: {props.named_columns}")
        ctx.check(props.named_columns["PartType0/Masses"] is None, "masses have named columns")
    if "map" in m:
        data, xs, ys = m["map"]
        tab = getattr(md, {"DustToElement": "dust_to_element_mapping", "GrainToElement": "grain_to_element_mapping", "ElementToDust": "element_to_dust_mapping"}[case["mapping"]])
        ctx.check(np.array_equal(tab.data, data), "mapping table data")
        for i, x in enumerate(xs):
            for j, y in enumerate(ys):
                ctx.check(getattr(tab, f"{x.lower()}_to_{y.lower()}") == data[i, j], lambda: f"mapping {x} to {y}")
    # cosmology
    if not case["cosmo"]:
        ctx.check(md.cosmology is None, "cosmology of a run without")
    else:
        c, v = md.cosmology, m["cosmo"]
        ctx.check(close(c.H0.to_value("km/(s Mpc)"), case["H0"]), lambda: f"H0 {c.H0}, stored {case['H0']} km/s/Mpc")
        for attr, key in (("Om0", "Omega_m"), ("Ode0", "Omega_lambda"), ("Ob0", "Omega_b"), ("w0", "w_0"), ("wa", "w_a")):
            ctx.check(math.isclose(getattr(c, attr), v[key], rel_tol=1e-12, abs_tol=1e-15), lambda: f"{attr} {getattr(c, attr)}, stored {v[key]}")
        if case["tcmb"]:
            ctx.check(math.isclose(c.Tcmb0.value, case["tcmb"]), lambda: f"Tcmb0 {c.Tcmb0}")
        else:
            ctx.check(math.isclose(c.Ogamma0, v["Omega_r"], rel_tol=1e-4), lambda: f"radiation density {c.Ogamma0}, stored {v['Omega_r']}")
        nu = case["nu"]
        neff = 3.04 if nu is None else 3.046 if nu == "massless" else nu["ur"] + sum(x[1] for x in nu["m"]) + nu["frac"]
        ctx.check(math.isclose(c.Neff, neff, rel_tol=1e-9), lambda: f"Neff {c.Neff}, stored {neff}")
        masses = sorted(np.atleast_1d(c.m_nu.value).tolist()) if c.m_nu is not None else []
        want = sorted([x[0] for x in nu["m"] for _ in range(x[1])] + [0.0] * nu["ur"]) if isinstance(nu, dict) else [0.0, 0.0, 0.0]
        ctx.check(np.allclose(masses, want) if masses else not any(want), lambda: f"neutrino masses {masses}, stored {want}")
    if case["code"] is not None:
        infos(md, case["code"], case["hydro"][0] + case["hydro"][1], len(case["box"]), ctx)
    else:
        ctx.check(md.code is None, "code")
    with h5py.File(path, "r") as f:
        for attr, key in (("header", "Header"), ("units_raw", "Units"), ("cosmology_raw", "Cosmology"), ("hydro_scheme", "HydroScheme"), ("code", "Code")):
            if not hasattr(md, attr):
                continue
            v = getattr(md, attr)
            ctx.check((v is None) if key not in f else set(v) == set(f[key].attrs) and all(np.array_equal(v[k], f[key].attrs[k]) for k in v), lambda: f"{attr} is {v}")
    if all(v == 1.0 for v in case["units"].values()) and not any(case["present"][3:]):
        ctx.trivial()
    ctx.label(f"cosmology={case['cosmo']}", f"mapping={'map' in m}", f"neutrinos={case['nu'] if isinstance(case['nu'], str) or case['nu'] is None else 'massive'}")


CHECKS = [SubCheck("metadata", case_, run, quick=600, thorough=30000, rule="files with generated headers, unit systems, cosmologies and subgrid tables")]
QUICK_BUDGET = 45
