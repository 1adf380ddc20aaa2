"""P18: creating cosmology arrays and quantities keeps the given data, and contradictory information is refused."""
import numpy as np
import unyt as u
from hypothesis import strategies as st

from swiftsimio.objects import InvalidConversionError, InvalidScaleFactor, a as A, cosmo_array, cosmo_factor, cosmo_quantity

from .. import cosmo as C
from ..core import SubCheck

RULE = "the input carries units or cosmology of its own, or the combination is contradictory"
ASSUMPTIONS = ["astropy quantities are converted only through from_astropy", "a units argument for an input that has other units is not generated",
               "valid_transform of arrays made from lists of arrays follows the constructor's argument"]

SRC = ["list", "tuple", "ndarray", "nested", "int_list", "unyt", "cosmo", "list_unyt", "list_cosmo", "object", "astropy", "pint", "scalar", "np_scalar", "unyt_scalar", "cosmo_scalar"]


def case_():
    return st.fixed_dictionaries({
        "src": st.sampled_from(SRC), "n": st.integers(1, 5), "a": st.sampled_from(C.SCALES), "e": st.sampled_from(C.EXPONENTS), "f": st.sampled_from(["c", "p", "x"]),
        "d": st.sampled_from(["length", "mass", "speed"]), "u": st.integers(0, 3), "how": st.sampled_from(["scale", "factor", "both"]), "comp": st.sampled_from([None, "DScale5"]),
        "bypass": st.booleans(), "mix": st.lists(st.tuples(st.sampled_from("cp"), st.integers(0, 3)), min_size=5, max_size=5), "to": st.sampled_from([None, True, False]), "s": st.integers(0, 10**6)})


def kwargs(case, comoving=True):
    a, e = case["a"], case["e"]
    kw = {}
    if case["how"] in ("scale", "both"):
        kw.update(scale_factor=a, scale_exponent=e)
    if case["how"] in ("factor", "both"):
        kw["cosmo_factor"] = cosmo_factor(A**e, a)
    kw.update(comoving=case["f"] == "c", valid_transform=case["f"] != "x", compression=case["comp"])
    return kw


def attrs(ctx, x, case, unit, what, comoving=None, vt=True, comp=True):
    ctx.check(x.units == unit, lambda: what() + ": units")
    ctx.check(x.comoving is (case["f"] == "c" if comoving is None else comoving), lambda: what() + ": comoving")
    ctx.check(abs(C.exponent_of(x.cosmo_factor) - float(case["e"])) < 1e-12 and x.cosmo_factor.scale_factor == case["a"], lambda: what() + ": cosmo_factor")
    if vt:
        ctx.check(x.valid_transform is (case["f"] != "x"), lambda: what() + ": valid_transform")
    if comp:
        ctx.check(x.compression == case["comp"], lambda: what() + ": compression")


def run(case, ctx):
    C.quiet()
    src, a = case["src"], case["a"]
    unit = C.DIMS[case["d"]][case["u"] % len(C.DIMS[case["d"]])]
    vals = np.random.default_rng(case["s"]).uniform(1, 9, case["n"]).round(6)
    kw = kwargs(case)
    what = lambda: f"from {src} {inp!r} with {kw}: {x!r}"
    cls = cosmo_array
    want = vals
    ctx.label(src)
    if src in ("scalar", "np_scalar"):
        inp = float(vals[0]) if src == "scalar" else np.float64(vals[0])
        x = cosmo_quantity(inp, unit, **kw)
        attrs(ctx, x, case, unit, what)
        ctx.check(type(x) is cosmo_quantity and x.shape == () and float(x.value) == vals[0], what)
        ctx.trivial()
        return
    if src in ("unyt_scalar", "cosmo_scalar"):
        inp = u.unyt_quantity(vals[0], unit) if src == "unyt_scalar" else cosmo_quantity(vals[0], unit, **kw)
        x = cosmo_quantity(inp, **(kw if src == "unyt_scalar" else {}))
        attrs(ctx, x, case, unit, what, vt=src == "unyt_scalar" or case["f"] != "x")
        ctx.check(type(x) is cosmo_quantity and float(x.value) == vals[0], what)
        if src == "cosmo_scalar" and case["to"] is not None and case["f"] != "x":
            y = cosmo_quantity(inp, comoving=case["to"])
            ctx.check(C.same(C.meaning(y, a), C.meaning(inp, a)) and y.comoving is case["to"], lambda: f"{inp!r} with comoving={case['to']} gives {y!r}")
        return
    if src in ("list", "tuple", "ndarray", "nested", "int_list"):
        if src == "int_list":
            want = np.arange(case["n"])
        inp = {"list": list(vals), "tuple": tuple(vals), "ndarray": np.array(vals), "nested": [list(vals), list(vals)], "int_list": list(range(case["n"]))}[src]
        if src == "nested":
            want = np.array([vals, vals])
        if case["bypass"] and src == "ndarray":
            kw["bypass_validation"] = True
            if case["how"] == "both":
                kw.pop("cosmo_factor")
            keep = inp.copy()
            x = cosmo_array(inp, u.Unit(unit), **kw)
            ctx.check(np.array_equal(inp, keep), "input changed")
        else:
            x = cosmo_array(inp, unit if case["s"] % 2 else str(unit), **kw)
        attrs(ctx, x, case, unit, what)
        ctx.check(type(x) is cosmo_array and np.array_equal(x.view(np.ndarray), want) and (src != "int_list" or x.dtype.kind == "i"), what)
        ctx.trivial()
        return
    if src == "unyt":
        inp = u.unyt_array(vals.copy(), unit)
        x = cosmo_array(inp, **kw)
        attrs(ctx, x, case, unit, what)
        ctx.check(np.array_equal(x.view(np.ndarray), vals), what)
        return
    if src == "pint":
        class Quantity:  # a stand-in: pint itself may not be installed
            magnitude = vals.copy()
            _units = {"megaparsec": 2, "second": -1}
        inp = Quantity()
        k = dict(kw, cosmo_factor=cosmo_factor(A ** case["e"], a))
        k.pop("scale_factor", None), k.pop("scale_exponent", None)
        x = cosmo_array.from_pint(inp, **k)
        attrs(ctx, x, case, u.Mpc**2 / u.s, what)
        ctx.check(isinstance(x, cosmo_array) and np.array_equal(x.view(np.ndarray), vals), what)
        return
    if src == "astropy":
        from astropy import units as au
        inp = vals * au.Mpc
        k = dict(kw, cosmo_factor=cosmo_factor(A ** case["e"], a))
        k.pop("scale_factor", None), k.pop("scale_exponent", None)
        x = cosmo_array.from_astropy(inp, **k)
        attrs(ctx, x, case, u.Mpc, what)
        ctx.check(np.allclose(x.value, vals, rtol=1e-12), what)
        back = x.to_astropy()
        ctx.check(np.allclose(back.to_value("Mpc"), vals, rtol=1e-12), lambda: f"to_astropy gives {back!r}")
        return
    if src == "cosmo":
        inp = cosmo_array(vals.copy(), unit, **kw)
        k = {} if case["to"] is None else {"comoving": case["to"]}
        k["valid_transform"] = case["f"] != "x"
        if case["mix"][0][1] == 1:
            k.update(scale_factor=a, scale_exponent=case["e"])
        elif case["mix"][0][1] == 2:
            k["cosmo_factor"] = cosmo_factor(A ** case["e"], a)
        phys, before = C.meaning(inp, a), C.snapshot(inp)
        try:
            x = cosmo_array(inp, **k)
        except InvalidConversionError:
            ctx.check(case["f"] == "x" and case["to"] is True, lambda: f"refused {inp!r} with {k}")
            ctx.check(C.snapshot(inp) == before, "refused input changed")
            return
        what = lambda: f"from {inp!r} with {k}: {x!r}"
        ctx.check(not (case["f"] == "x" and case["to"] is True), lambda: what() + ": an array without a transform became comoving")
        attrs(ctx, x, case, unit, what, comoving=case["to"])
        ctx.check(C.same(C.meaning(x, a), phys), lambda: what() + ": physical values changed")
        ctx.check(C.snapshot(inp) == before, lambda: what() + f": input changed from {before[1:]} ")
        return
    if src in ("list_cosmo", "object"):
        items, phys, frames = [], [], set()
        for v, (f, k) in zip(vals, case["mix"]):
            o = dict(d=case["d"], u=k, e=case["e"], f=f, s=int(v * 1000), comp=case["comp"])
            q, p = C.build(o, a, ())
            items.append(q)
            phys.append(float(p))
            frames.add(f)
        inp = items
        if src == "object":
            inp = np.empty(len(items), dtype=object)
            inp[:] = items
        before = [C.snapshot(q) for q in items]
        k = {} if case["to"] is None else {"comoving": case["to"]}
        x = cosmo_array(inp, **k)
        what = lambda: f"from {items!r} with {k}: {x!r}"
        ctx.check([C.snapshot(q) for q in items] == before, lambda: what() + ": input changed")
        if True:
            ctx.check(C.same(C.meaning(x, a), np.array(phys)), lambda: what() + f": physical values {C.meaning(x, a)}, expected {phys}")
            ctx.check(x.comoving in (C.frames_result([{"f": f} for f in frames]) if case["to"] is None else {case["to"]}), lambda: what() + ": frame")
            attrs(ctx, x, case, x.units, what, comoving=x.comoving, vt=False)
        if len(frames) > 1 or len({k_ for _, k_ in case["mix"][: case["n"]]}) > 1:
            ctx.label("mixed")
        return
    inp = [u.unyt_quantity(v, unit) for v in vals]
    x = cosmo_array(inp, **kw)
    attrs(ctx, x, case, unit, what)
    ctx.check(np.allclose(x.view(np.ndarray), vals), what)


BAD = ["half_conflict", "comoving_no_transform", "none_transform", "scale_only", "exponent_only", "conflict", "cosmo_conflict", "cosmo_conflict_factor", "mixed_exponent", "mixed_scale", "scalar_array", "array_scalar", "text_quantity", "bad_unit"]


def bad_case():
    return st.fixed_dictionaries({"bad": st.sampled_from(BAD), "a": st.sampled_from([0.5, 0.25, 1.0, 2.0]), "e": st.sampled_from([-3, -1, 0.5, 1, 2]), "f": st.sampled_from(["c", "p"]),
                                  "quantity": st.booleans(), "n": st.integers(2, 4), "s": st.integers(0, 10**6)})


def run_bad(case, ctx):
    """Every contradictory combination raises; the same call without the contradiction succeeds."""
    C.quiet()
    a, e, bad = case["a"], case["e"], case["bad"]
    vals = np.random.default_rng(case["s"]).uniform(1, 9, case["n"])
    q = case["quantity"]
    val = float(vals[0]) if q else vals
    cls = cosmo_quantity if q else cosmo_array
    cm = case["f"] == "c"
    base = dict(units="Mpc", comoving=cm, scale_factor=a, scale_exponent=e)
    good = cls(val, **base)
    refs = (ValueError, InvalidConversionError, InvalidScaleFactor, RuntimeError, u.exceptions.UnitParseError)
    if bad == "comoving_no_transform":
        call = lambda: cls(val, **dict(base, comoving=True, valid_transform=False))
    elif bad == "none_transform":
        x = cls(val, units="Mpc", scale_factor=a, scale_exponent=e)
        ctx.check(x.comoving is None and x.valid_transform is False, lambda: f"array of unknown frame: {x!r}")
        call = [lambda: x.to_physical(), lambda: x.to_comoving(), lambda: x.to("Mpc", comoving=True), lambda: x.to_comoving_value("Mpc")]
    elif bad == "scale_only":
        call = lambda: cls(val, units="Mpc", comoving=cm, scale_factor=a)
    elif bad == "exponent_only":
        call = lambda: cls(val, units="Mpc", comoving=cm, scale_exponent=e)
    elif bad == "half_conflict":
        cf = cosmo_factor.create(a, e)
        refs += (TypeError,)
        call = [lambda: cls(val, units="Mpc", comoving=cm, cosmo_factor=cf, scale_factor=a * 1.5), lambda: cls(val, units="Mpc", comoving=cm, cosmo_factor=cf, scale_exponent=e + 1),
                lambda: cls(good, scale_factor=a * 1.5), lambda: cls(good, scale_exponent=e + 1)]
    elif bad == "conflict":
        call = [lambda: cls(val, **dict(base, cosmo_factor=cosmo_factor.create(a, e + 1))), lambda: cls(val, **dict(base, cosmo_factor=cosmo_factor.create(a * 1.5, e)))]
    elif bad == "cosmo_conflict":
        call = [lambda: cls(good, scale_factor=a * 1.5, scale_exponent=e), lambda: cls(good, scale_factor=a, scale_exponent=e + 1)]
    elif bad == "cosmo_conflict_factor":
        if q:
            ctx.trivial()
            return
        call = [lambda: cls(good, cosmo_factor=cosmo_factor.create(a * 1.5, e)), lambda: cls(good, cosmo_factor=cosmo_factor.create(a, e + 1))]
    elif bad == "mixed_exponent":
        other = cosmo_quantity(1.0, **dict(base, scale_exponent=e + 1))
        call = lambda: cosmo_array([cosmo_quantity(2.0, **base), other])
    elif bad == "mixed_scale":
        other = cosmo_quantity(1.0, **dict(base, scale_factor=a * 1.5))
        call = lambda: cosmo_array([cosmo_quantity(2.0, **base), other])
    elif bad == "scalar_array":
        call = lambda: cosmo_array(3.0, **base)
    elif bad == "array_scalar":
        call = lambda: cosmo_quantity(vals, **base)
    elif bad == "text_quantity":
        call = lambda: cosmo_quantity("3", **base)
    else:
        call = lambda: cls(val, **dict(base, units="nosuchunit"))
    snap = C.snapshot(good)
    for c in call if isinstance(call, list) else [call]:
        try:
            r = c()
        except refs:
            continue
        ctx.fail(f"{bad} (a={a}, exponent {e}, {'quantity' if q else 'array'}) was accepted: {r!r}")
    ctx.check(C.snapshot(good) == snap, "refused call changed its input")


CHECKS = [
    SubCheck("create", case_, run, quick=3000, thorough=60000, weight=3, rule="inputs of every kind with all ways of giving the cosmology"),
    SubCheck("refuse", bad_case, run_bad, quick=1200, thorough=12000, rule="contradictory or incomplete cosmology"),
]
QUICK_BUDGET = 40
