"""P13: conversions between comoving and physical frames and units keep the physical meaning."""
import copy
import pickle

import numpy as np
import unyt as u
from hypothesis import strategies as st

from swiftsimio.objects import InvalidConversionError, cosmo_array, cosmo_quantity

from .. import cosmo as C
from ..core import SubCheck

RULE = "a conversion changes the stored numbers (another unit or another frame)"
ASSUMPTIONS = ["equivalences other than mass-energy are not generated", "in-place conversions of integer arrays are not generated (they raise)"]

OPS = ["to_comoving", "to_physical", "convert_to_comoving", "convert_to_physical", "to", "in_units", "convert_to_units",
       "to_comoving_value", "to_physical_value", "to_value", "in_base", "in_cgs", "in_mks", "copy", "convert_to_base", "to_same"]
SHAPES = [(), (1,), (4,), (2, 3), (0,), (3, 0), (2, 1, 3)]


def op():
    return st.fixed_dictionaries({"op": st.sampled_from(OPS), "u": st.integers(-1, 3), "cm": st.sampled_from([None, True, False])})


def case_():
    return st.fixed_dictionaries({
        "o": C.operand(), "a": st.sampled_from(C.SCALES), "shape": st.sampled_from(SHAPES), "ints": st.booleans(),
        "dtype": st.sampled_from(["f8", "f8", "f4"]), "ops": st.lists(op(), min_size=1, max_size=8)})


def run(case, ctx):
    C.quiet()
    o, a = case["o"], case["a"]
    shape = tuple(case["shape"])
    x, phys = C.build(o, a, shape, signed=True, ints=case["ints"])
    tol = 1e-9
    if case["dtype"] == "f4" and not case["ints"] and shape != ():
        x = x.astype("f4")
        tol = 2e-5
        phys = C.meaning(x, a)
    exp = float(o["e"])
    units = C.DIMS[o["d"]]
    vt = o["f"] != "x"
    cm = o["f"] == "c"
    ctx.check(x.comoving is cm and x.valid_transform is vt, "attributes given at construction are lost")
    ctx.check(x.compatible_with_comoving() == (cm or exp == 0 or a == 1.0), lambda: f"compatible_with_comoving() of {x!r}")
    ctx.check(x.compatible_with_physical() == (not cm or exp == 0 or a == 1.0), lambda: f"compatible_with_physical() of {x!r}")
    unit = x.units
    isint = case["ints"] or x.dtype.kind == "i"
    changed = False
    for k, q in enumerate(case["ops"]):
        nm = q["op"]
        un = None if q["u"] < 0 else units[q["u"] % len(units)]
        inplace = nm.startswith("convert")
        if inplace and x.dtype.kind == "i":
            continue
        if nm in ("in_units", "convert_to_units", "to_value", "to_comoving_value", "to_physical_value") and un is None:
            un = unit
        target = {"to_comoving": True, "convert_to_comoving": True, "to_comoving_value": True,
                  "to_physical": False, "convert_to_physical": False, "to_physical_value": False}.get(nm)
        if nm in ("to", "to_value"):
            target = q["cm"]
        before = C.snapshot(x)
        args = () if un is None else (un if k % 2 else str(un),)
        kw = {"comoving": q["cm"]} if nm in ("to", "to_value") and q["cm"] is not None else {}
        if nm in ("in_base", "convert_to_base", "in_cgs", "in_mks", "copy"):
            args, kw = (), {}
        if nm == "to_same":
            call = lambda: x.to(x.units)
        else:
            call = lambda: getattr(x, nm)(*args, **kw)
        src = x
        if target is True and not cm and not vt:
            try:
                call()
            except InvalidConversionError:
                if not inplace:
                    ctx.check(C.snapshot(x) == before, f"refused {nm} changed the array")
                else:
                    ctx.check(x.comoving is False and x.valid_transform is False and C.same(C.meaning(x, a), phys, tol),
                              f"refused {nm} damaged the array")
                    unit = x.units
                continue
            ctx.fail(f"{nm} of an array that cannot be comoving was not refused")
        res = call()
        what = lambda: f"{nm}{args} {kw}: {src!r} -> {res!r}"
        newcm = cm if target is None else target
        if nm.endswith("value"):
            ctx.check(type(res) in (np.ndarray, np.float64, np.float32, float) or np.isscalar(res) or type(res) is np.ndarray, lambda: what() + " is not a plain number")
            val = np.asarray(res, dtype=float) * float(un.base_value) * (a**exp if newcm else 1.0)
            ctx.check(C.same(val, phys, tol), what)
            ctx.check(C.snapshot(x) == before, lambda: f"{nm} changed the array")
            changed |= un != unit or newcm != cm
            continue
        if inplace:
            ctx.check(res is None, lambda: f"{nm} returned {res!r}")
            res = x
        else:
            ctx.check(C.snapshot(x) == before, lambda: f"{nm} changed the array it was called on: {src!r}")
            ctx.check(res is not x and not np.shares_memory(res, x), lambda: f"the result of {nm} shares memory with the original {src!r}")
        ctx.check(type(res) is (cosmo_quantity if shape == () else cosmo_array), what)
        ctx.check(C.same(C.meaning(res, a), phys, tol), lambda: what() + f": physical values {C.meaning(res, a).ravel()[:3]} instead of {phys.ravel()[:3]}")
        ctx.check(res.comoving is newcm, lambda: what() + ": wrong frame")
        ctx.check(res.valid_transform is vt, lambda: what() + ": valid_transform changed")
        ctx.check(res.compression == o["comp"], lambda: what() + ": compression changed")
        ctx.check(abs(C.exponent_of(res.cosmo_factor) - exp) < 1e-12 and res.cosmo_factor.scale_factor == a, lambda: what() + ": cosmo_factor changed")
        if un is not None and nm not in ("in_base", "convert_to_base", "in_cgs", "in_mks", "copy", "to_same"):
            ctx.check(res.units == un, lambda: what() + ": wrong units")
        elif nm in ("to_comoving", "to_physical", "copy", "convert_to_comoving", "convert_to_physical", "to", "to_same"):
            ctx.check(res.units == unit, lambda: what() + ": units changed")
        changed |= res.units != unit or (newcm != cm and exp != 0 and a != 1)
        x, unit, cm = res, res.units, newcm
    if not changed:
        ctx.trivial()
    ctx.label("refusable" if not vt else "convertible", f"{len(shape)}-d")


def equiv_case():
    return st.fixed_dictionaries({"o": C.operand(dims=["mass"]), "a": st.sampled_from(C.SCALES), "shape": st.sampled_from(SHAPES),
                                  "op": st.sampled_from(["to_comoving", "to_physical", "to", "to_physical_value", "to_comoving_value"])})


def run_equiv(case, ctx):
    """The mass-energy equivalence combined with a frame: energy is mass times c squared in the same frame."""
    C.quiet()
    o, a = case["o"], case["a"]
    x, phys = C.build(o, a, tuple(case["shape"]))
    if case["op"].startswith("to_comoving") and o["f"] == "x":
        ctx.trivial()
        return
    before = C.snapshot(x)
    res = getattr(x, case["op"])("erg", equivalence="mass_energy")
    c2 = float(u.c.to_value("m/s")) ** 2
    ctx.check(C.snapshot(x) == before, lambda: f"{case['op']} with an equivalence changed {x!r}")
    if case["op"].endswith("value"):
        f = a ** float(o["e"]) if "comoving" in case["op"] else 1.0
        got = np.asarray(res) * 1e-7 * f
    else:
        got = C.meaning(res, a)
        want = {"to": o["f"] == "c", "to_comoving": True, "to_physical": False}[case["op"]]
        ctx.check(res.comoving is want, lambda: f"{res!r}")
    ctx.check(C.same(got, phys * c2), lambda: f"{case['op']}('erg', equivalence='mass_energy') of {x!r} gives {res!r}")


CHECKS = [
    SubCheck("sequence", case_, run, quick=3000, thorough=120000, weight=4, rule="histories of conversions applied to one array, against its physical values"),
    SubCheck("equivalence", equiv_case, run_equiv, quick=300, thorough=6000, rule="conversions with the mass-energy equivalence"),
]
QUICK_BUDGET = 40
