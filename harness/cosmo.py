"""Cosmology-aware operands with a known physical meaning, and how to read the meaning of a result."""
import warnings

import numpy as np
import sympy
import unyt as u
from hypothesis import strategies as st

from swiftsimio.objects import cosmo_array, cosmo_factor, cosmo_quantity
from swiftsimio.objects import a as A_SYMBOL

DIMS = {
    "length": ["Mpc", "kpc", "km", "m"],
    "mass": ["Msun", "g", "kg"],
    "time": ["Gyr", "s", "Myr"],
    "speed": ["km/s", "cm/s", "Mpc/Gyr"],
    "density": ["g/cm**3", "Msun/kpc**3"],
    "none": ["dimensionless"],
}
DIMS = {k: [u.Unit(x) for x in v] for k, v in DIMS.items()}
EXPONENTS = [-3, -2, -1.5, -1, -0.5, 0, 0.5, 1, 2, 1.0, 3]
SCALES = [0.5, 0.25, 0.1, 0.731, 2.0, 1.0]
FRAMES = ["c", "p", "x"]  # comoving, physical, physical and not convertible


def operand(dims=None, frames=FRAMES, exps=EXPONENTS):
    return st.fixed_dictionaries({
        "d": st.sampled_from(list(dims or DIMS)),
        "u": st.integers(0, 3),
        "e": st.sampled_from(list(exps)),
        "f": st.sampled_from(list(frames)),
        "comp": st.sampled_from([None, None, "DScale5", "FMantissa9"]),
        "s": st.integers(0, 10**6),
    })


def numeric(expr_exp, a):
    return float(a) ** float(expr_exp)


class Val:
    """Physical values in SI, unit dimensions, exponent."""

    def __init__(self, phys, dims, exp):
        self.phys, self.dims, self.exp = phys, dims, exp


def build(o, a, shape, lo=0.5, hi=5.0, signed=False, ints=False, quantity=None, like=None):
    """Returns (cosmo object, physical values in SI as float64, dimensions)."""
    rng = np.random.default_rng([o["s"], 3])
    raw = rng.uniform(lo, hi, size=shape)
    if signed:
        raw = raw * rng.choice([-1.0, 1.0], size=shape)
    if ints:
        raw = rng.integers(1, 9, size=shape)
    un = DIMS[o["d"]][o["u"] % len(DIMS[o["d"]])]
    # numbers of comparable physical size whatever the unit: keep the SI magnitude of the first unit
    scale = float((1.0 * DIMS[o["d"]][0]).to_value(un))
    if ints:
        val = raw
    else:
        val = np.asarray(raw * scale)
    return wrap(val, un, o, a), np.asarray(val, dtype=float) * float(un.base_value) * (a ** float(o["e"]) if o["f"] == "c" else 1.0)


def wrap(val, un, o, a):
    kw = dict(units=un, comoving=o["f"] == "c", scale_factor=a, scale_exponent=o["e"],
              valid_transform=o["f"] != "x", compression=o["comp"])
    if np.shape(val) == ():
        return cosmo_quantity(np.asarray(val)[()], **kw)
    return cosmo_array(np.array(val), **kw)


def exponent_of(cf):
    """Exponent of a cosmo_factor read by us: evaluate the expression at two scale factors."""
    if cf is None or cf.expr is None:
        return None
    e = sympy.sympify(cf.expr)
    v = float(e.subs(A_SYMBOL, 0.5))
    w = float(e.subs(A_SYMBOL, 0.25))
    if v <= 0 or w <= 0:
        return float("nan")
    x, y = np.log(v) / np.log(0.5), np.log(w) / np.log(0.25)
    return x if abs(x - y) < 1e-9 else float("nan")


def meaning(res, a):
    """Physical values in SI of a cosmo result (numbers are returned as they are)."""
    v = np.asarray(res.view(np.ndarray) if isinstance(res, np.ndarray) else res)
    if not isinstance(res, cosmo_array):
        return v.astype(float) if v.dtype.kind in "iufb" else v
    f = float(res.units.base_value)
    v = v * f
    if res.comoving:
        e = exponent_of(res.cosmo_factor)
        if e is not None:
            v = v * a**e
    return v


def dimensions(res):
    un = getattr(res, "units", None)
    return sympy.Integer(1) if un is None else un.dimensions


def frames_result(ops):
    """Allowed comoving flags of a result combining operands, by their frames."""
    fs = {o["f"] for o in ops}
    if fs == {"c"}:
        return {True}
    if "c" not in fs:
        return {False}
    if "x" in fs:
        return {False}
    return {True, False}


def snapshot(x):
    """Everything that must not change in an operand."""
    if not isinstance(x, np.ndarray):
        return repr(x)
    out = [np.array(x.view(np.ndarray)).tobytes(), str(x.dtype), x.shape]
    if isinstance(x, u.unyt_array):
        out.append(str(x.units))
    if isinstance(x, cosmo_array):
        out += [x.comoving, x.valid_transform, x.compression, str(x.cosmo_factor), type(x).__name__]
    return out


def same(got, want, tol=1e-9, size=0.0):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if got.size == 0:
        return True
    scale = np.nanmax(np.abs(want)) if want.dtype.kind in "fcu" and np.isfinite(want).any() else 1.0
    scale = max(scale, size)
    return bool(np.allclose(got, want, rtol=1e-7, atol=tol * scale, equal_nan=True))


def quiet():
    warnings.simplefilter("ignore")
