"""Small snapshots for the visualisation checks, with their contents as plain double arrays."""
import h5py
import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw
from swiftsimio import cosmo_array

LEN = u.Mpc
MASS = 1e10 * u.Msun


def particle(extra=()):
    pos = st.one_of(st.floats(0, 0.9999, allow_subnormal=False), st.integers(0, 15).map(lambda k: k / 16), st.integers(0, 19).map(lambda k: k / 20 + 1e-3), st.sampled_from([0.0, 0.999999, -0.03, 1.02]))
    return st.tuples(pos, pos, pos, st.one_of(st.floats(0.1, 10), st.sampled_from([1.0, 0.0])), st.one_of(st.floats(-2.3, -0.35).map(lambda e: 10**e), st.sampled_from([0.02, 0.1, 0.2])))


def file_case(nmin=0, nmax=8):
    return st.fixed_dictionaries({
        "box": st.sampled_from([[1.0] * 3, [1.0] * 3, [4.0] * 3, [142.0] * 3, [1.0, 2.0, 1.5], [3.0, 1.0, 2.0]]),
        "a": st.sampled_from([1.0, 0.5, 0.5, 0.3]), "parts": st.lists(particle(), min_size=nmin, max_size=nmax),
        "type": st.sampled_from([0, 0, 4]), "f4": st.booleans(), "wphys": st.booleans(), "wvalid": st.booleans(), "wexp": st.sampled_from([0.0, -2.0, 1.0]),
        "cphys": st.sampled_from([False, False, True])})


class Model:
    pass


def field(g, name, data, L=0, M=0, t=0, T=0, a=0.0, physical=False, valid=True):
    d = g.create_dataset(name, data=data)
    for k, v in (("U_I", 0), ("U_L", L), ("U_M", M), ("U_t", t), ("U_T", T)):
        d.attrs[f"{k} exponent"] = np.array([float(v)])
    d.attrs["a-scale exponent"] = np.array([float(a)])
    d.attrs["h-scale exponent"] = np.array([0.0])
    d.attrs["Value stored as physical"] = np.array([int(physical)])
    d.attrs["Property can be converted to comoving"] = np.array([int(valid)])
    d.attrs["Description"] = name
    return d


def write(case, path, hmax=None):
    m = Model()
    a = m.a = case["a"]
    box = m.box = np.array(case["box"])
    n = m.n = len(case["parts"])
    P = np.array(case["parts"], float).reshape(n, 5)
    m.pos = P[:, :3] * box
    m.m = P[:, 3].copy()
    m.h = P[:, 4] * box.min() if hmax is None else np.minimum(P[:, 4] * box.min(), hmax)
    m.w = np.sqrt(1.0 + np.arange(n)) * (1 + P[:, 3])
    ft = np.float32 if case["f4"] else np.float64
    m.h, m.m, m.w = (v.astype(ft).astype(float) for v in (m.h, m.m, m.w))
    cp = case["cphys"]
    t = case["type"]
    m.group = {0: "gas", 4: "stars", 1: "dark_matter"}[t]
    with h5py.File(path, "w") as f:
        g = f.create_group("Units")
        for k, nm, v in (("M", "mass", 1.98841e43), ("L", "length", 3.08567758149e24), ("t", "time", 3.08567758149e19), ("I", "current", 1.0), ("T", "temperature", 1.0)):
            g.attrs[f"Unit {nm} in cgs (U_{k})"] = np.array([v])
        h = f.create_group("Header")
        h.attrs["BoxSize"] = box
        for k, v in (("Scale-factor", a), ("Redshift", 1 / a - 1), ("Time", 0.1)):
            h.attrs[k] = np.array([v])
        h.attrs["Dimension"] = np.array([3])
        h.attrs["NumFilesPerSnapshot"] = np.array([1])
        num = np.zeros(7, int)
        num[t] = n
        for k in ("NumPart_ThisFile", "NumPart_Total"):
            h.attrs[k] = num
        h.attrs["NumPart_Total_HighWord"] = num * 0
        ch = np.zeros(7, int)
        ch[t] = 1
        h.attrs["CanHaveTypes"] = ch
        h.attrs["MassTable"] = np.zeros(7)
        h.attrs["OutputType"] = "FullVolume"
        h.attrs["RunName"] = "vis"
        p = f.create_group(f"PartType{t}")
        field(p, "Coordinates", m.pos * (a if cp else 1.0), L=1, a=1, physical=cp)
        field(p, "Masses", m.m.astype(ft), M=1)
        field(p, "ParticleIDs", np.arange(1, n + 1, dtype=np.int64))
        field(p, "SmoothingLengths", m.h.astype(ft) * (ft(a) if cp else ft(1)), L=1, a=1, physical=cp)
        vol = np.maximum(m.h, 1e-3) ** 3 * 1.7
        m.vol = vol
        if case.get("volumes"):
            m.vol = vol = np.asarray(vol * np.linspace(1, 0.5, n), ft).astype(float)
            field(p, "Volumes", vol.astype(ft) * (ft(a**3) if cp else ft(1)), L=3, a=3, physical=cp)
        field(p, "Densities", np.where(m.m > 0, m.m, 1.0) / vol * (1.0 if not case.get('volumes') else 7.0), M=1, L=-3, a=-3)
        # a field to project: stored comoving, physical, or physical and never comoving
        m.wphys = case["wphys"]
        m.wvalid = case["wvalid"] or not case["wphys"]
        m.wexp = case["wexp"]
        field(p, "Temperatures", m.w.astype(ft), T=1, a=m.wexp, physical=m.wphys, valid=m.wvalid)
    if cp:  # the positions read back are rounded differently
        m.pos = m.pos * a / a
    return m


def q(value, m, frame="comoving", units=LEN):
    """A length (comoving value in file units) as a cosmo array in either frame and another unit."""
    x = cosmo_array(np.asarray(value, float), LEN, comoving=True, scale_factor=m.a, scale_exponent=1)
    if units != LEN:
        x = x.to(units)
    return x if frame == "comoving" else x.to_physical()


def physical(arr, units):
    """Values of a result in physical units (converted without using the library's own frames)."""
    v = np.asarray(u.unyt_array(np.asarray(arr.view(np.ndarray), float), arr.units).to_value(units))
    return v * arr.cosmo_factor.a_factor if arr.comoving else v
