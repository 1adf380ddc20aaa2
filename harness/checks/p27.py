"""P27: rotation matrices turn the chosen direction onto the axis."""
import numpy as np
import unyt as u
from hypothesis import strategies as st

from swiftsimio import cosmo_array
from swiftsimio.visualisation.rotation import rotation_matrix_from_vector

from ..core import Skip, SubCheck

RULE = "the vector is not along the axis"
ASSUMPTIONS = ["the vector is not zero and its norm does not over- or underflow"]
QUICK_BUDGET = 20


def case_():
    comp = st.one_of(st.floats(-1, 1), st.floats(-1, 1), st.integers(-2, 2).map(float), st.floats(-9, -1).map(lambda e: 10**e), st.floats(-9, -1).map(lambda e: -(10**e)), st.just(0.0))
    return st.fixed_dictionaries({"v": st.tuples(comp, comp, comp), "scale": st.sampled_from([1.0, 1.0, 1e-30, 1e30, 3e7]), "axis": st.sampled_from("xyz"), "kind": st.sampled_from(["f8", "f8", "f4", "i8", "list", "unyt", "cosmo", "cosmo4"])})


def run(case, ctx):
    v = np.array(case["v"]) * (1.0 if case["kind"] in ("f4", "cosmo4") else case["scale"])
    kind = case["kind"]
    if kind == "i8":
        v = np.round(np.array(case["v"]) * 5)
    if kind in ("f4", "cosmo4"):
        v = v.astype(np.float32).astype(float)
    with np.errstate(all="ignore"):
        norm = np.sqrt(np.sum(v**2))
    if not norm > 1e-15 * (1.0 if kind in ("f4", "cosmo4", "i8") else min(case["scale"], 1)):
        raise Skip
    x = {"f8": lambda: v, "f4": lambda: v.astype(np.float32), "i8": lambda: v.astype(int), "list": lambda: list(v), "unyt": lambda: u.unyt_array(v, "kpc**2*km/s"),
         "cosmo": lambda: cosmo_array(v, "kpc", comoving=True, scale_factor=0.5, scale_exponent=1), "cosmo4": lambda: cosmo_array(v.astype(np.float32), "kpc", comoving=False, scale_factor=0.5, scale_exponent=1)}[kind]()
    before = np.array(x, copy=True)
    k = "xyz".index(case["axis"])
    R = rotation_matrix_from_vector(x) if case["axis"] == "z" and case["scale"] == 1 else rotation_matrix_from_vector(x, axis=case["axis"])
    ctx.check(np.array_equal(np.asarray(x), before), "the vector was changed")
    ctx.check(R.shape == (3, 3) and not hasattr(R, "units"), f"{R!r} is not a plain 3x3 matrix")
    n = v / norm
    off = np.linalg.norm(np.delete(n, k))
    if off < 1e-12:
        ctx.trivial()
    ctx.label(kind, "small angle" if off < 1e-3 else "")
    tol = 3e-6  # vectors within 1e-6 of the axis may be taken to lie on it
    ctx.check(np.all(np.isfinite(R)), f"{R}")
    ctx.check(np.allclose(R @ R.T, np.eye(3), atol=tol) and np.linalg.det(R) > 0, f"{R} is not a rotation (R R^T = {R @ R.T}, det {np.linalg.det(R)})")
    e = np.zeros(3)
    e[k] = 1
    ctx.check(np.allclose(R @ n, e, atol=tol), f"{x!r} is turned to {R @ n}, not to {case['axis']}")
    # no rotation about the axis itself: a direction at right angles to both stays
    c = np.cross(e, n)
    if off > 1e-4:
        c /= np.linalg.norm(c)
        ctx.check(np.allclose(R @ c, c, atol=1e-5), f"the line of nodes {c} is turned to {R @ c}")


def run_axis(case, ctx):
    try:
        rotation_matrix_from_vector(np.array([0.1, 0.2, 0.3]), axis=case)
    except ValueError:
        return
    ctx.fail(f"axis {case!r} was accepted")


CHECKS = [SubCheck("rotation", case_, run, quick=20000, thorough=600000, weight=4, rule="orthonormal, positive determinant, maps the vector to the axis"),
          SubCheck("axis", lambda: st.text(alphabet="xyzwXYZ ", max_size=3).filter(lambda t: t not in ("x", "y", "z")), run_axis, quick=200, thorough=2000, weight=0.2, rule="axes other than x, y and z are refused")]
