"""P15: arithmetic on cosmology arrays respects their physical meaning."""
import operator
import warnings

import numpy as np
import unyt as u
from hypothesis import strategies as st

from swiftsimio.objects import InvalidConversionError, InvalidScaleFactor, cosmo_array, cosmo_factor, cosmo_quantity

from .. import cosmo as C, funccheck as fc
from ..core import SubCheck

RULE = "an operand is comoving or the operands have different frames"
ASSUMPTIONS = ["divmod and in-place operations on integer arrays are not generated", "the frame of a result mixing convertible operands may be either"]

BIN = {"+": (operator.add, 1, 0), "-": (operator.sub, 1, 0), "*": (operator.mul, 1, 1), "/": (operator.truediv, 1, -1)}
IBIN = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}


def expr_case():
    leaf = st.fixed_dictionaries({"f": st.sampled_from(C.FRAMES), "u": st.integers(0, 3), "s": st.integers(0, 10**6), "sc": st.booleans(),
                                  "dim": st.integers(0, 1)})
    node = st.tuples(st.sampled_from(["*", "/", "sqrt", "sq", "num*", "num/", "neg", "+same", "-same", "idx", "sum", "abs"]), leaf)
    return st.fixed_dictionaries({"a": st.sampled_from(C.SCALES), "d": st.lists(st.sampled_from(["length", "mass", "time", "speed", "density"]), min_size=2, max_size=2),
                                  "e": st.lists(st.sampled_from(C.EXPONENTS), min_size=2, max_size=2), "start": leaf,
                                  "steps": st.lists(node, min_size=1, max_size=5)})


def run_expr(case, ctx):
    """A chain of arithmetic; the reference is the same chain on physical SI numbers."""
    C.quiet()
    a = case["a"]

    def leaf(l, shape):
        k = l["dim"]
        o = dict(d=case["d"][k], e=case["e"][k], f=l["f"], u=l["u"], s=l["s"], comp=None)
        x, p = C.build(o, a, () if l["sc"] else shape)
        return x, p, float(o["e"]), l["f"] != "x", C.DIMS[o["d"]][0].dimensions

    x, p, e, vt, dims = leaf({**case["start"], "sc": False}, (3,))
    frames = {case["start"]["f"]}
    hist = [repr(x)]
    for nm, l in case["steps"]:
        if x.shape == () and nm == "idx":
            continue
        if nm in "*/":
            y, q, e2, vt2, d2 = leaf(l, x.shape)
            frames.add(l["f"])
            x, p = BIN[nm][0](x, y), BIN[nm][0](p, q)
            e, vt = e + BIN[nm][2] * e2, vt and vt2
            dims = dims * d2 if nm == "*" else dims / d2
        elif nm == "sqrt":
            x, p, e, dims = np.sqrt(abs(x)), np.sqrt(abs(p)), e / 2, dims ** 0.5
        elif nm == "sq":
            if abs(e) > 12 or max(np.max(np.abs(z)) for z in (p, np.asarray(x), 1 / p, 1 / np.asarray(x))) > 1e60:
                continue  # (stay away from the range of double precision)
            x, p, e, dims = x**2, p**2, 2 * e, dims**2
        elif nm == "num*":
            x, p = 3.5 * x, 3.5 * p
        elif nm == "num/":
            x, p, e, dims = 2.0 / x, 2.0 / p, -e, 1 / dims
        elif nm == "neg":
            x, p = -x, -p
        elif nm == "abs":
            x, p = abs(x), abs(p)
        elif nm in ("+same", "-same"):
            # the same quantity in another frame and unit
            y = x.to_physical() if x.comoving and l["u"] % 2 else (x.to_comoving() if vt and x.comoving is False and l["u"] % 2 else x.copy())
            q = p
            if nm == "+same":
                x, p = x + y, p + q
            else:
                x, p = 3 * x - y, 3 * p - q
        elif nm == "idx":
            x, p = x[1], p[1]
        elif nm == "sum":
            x, p = x.sum(), p.sum()
        hist.append(f"{nm} -> {x!r}")
        what = lambda: "; ".join(hist)
        if not np.all(np.isfinite(p)) or np.any(np.abs(p) > 1e250) or np.any(np.abs(p) < 1e-250):
            return
        ctx.check(isinstance(x, cosmo_array), what)
        ctx.check(C.same(C.meaning(x, a), p), lambda: what() + f": physical values {C.meaning(x, a)}, expected {p}")
        ee = C.exponent_of(x.cosmo_factor)
        ctx.check(ee is not None and abs(ee - e) < 1e-8, lambda: what() + f": a**{ee}, expected a**{e}")
        ctx.check(x.valid_transform == vt, lambda: what() + f": valid_transform {x.valid_transform}")
        ctx.check(x.comoving in ((True,) if frames == {"c"} and nm not in ("+same", "-same") else (True, False)) or nm, what)
        ctx.check(not (x.comoving and not vt), lambda: what() + ": comoving although it cannot be converted")
    if frames == {"p"} or frames == {"x"}:
        ctx.trivial()
    ctx.label("mixed" if len(frames) > 1 else "one-frame")


def inplace_case():
    return st.fixed_dictionaries({"a": st.sampled_from(C.SCALES), "op": st.sampled_from(["+", "-", "*", "/", "out+", "out-", "out*", "out/", "outsqrt", "outsum", "num*", "num/"]),
                                  "d": st.sampled_from(["length", "mass", "speed"]), "d2": st.sampled_from(["length", "time", "none"]),
                                  "e": st.sampled_from(C.EXPONENTS), "e2": st.sampled_from(C.EXPONENTS),
                                  "f": st.lists(st.sampled_from(C.FRAMES), min_size=3, max_size=3), "u": st.lists(st.integers(0, 3), min_size=3, max_size=3),
                                  "s": st.integers(0, 10**6), "scalar": st.booleans()})


def run_inplace(case, ctx):
    """x op= y and out= leave in the target what the plain operation returns."""
    C.quiet()
    a, f, uu = case["a"], case["f"], case["u"]
    nm = case["op"]
    additive = nm.endswith(("+", "-"))
    o1 = dict(d=case["d"], e=case["e"], f=f[0], u=uu[0], s=case["s"] * 4, comp=None)
    o2 = dict(o1, f=f[1], u=uu[1], s=case["s"] * 4 + 1)
    if not additive:
        o2.update(d=case["d2"], e=case["e2"])
    x, px = C.build(o1, a, (4,))
    y, py = C.build(o2, a, () if case["scalar"] else (4,))
    y0 = C.snapshot(y)
    target = x
    if nm.startswith("num"):
        want = px * 2.5 if nm[-1] == "*" else px / 2.5
        e, rel = float(case["e"]), [o1]
        target = IBIN[nm[-1]](x, 2.5)
    elif not nm.startswith("out"):
        want = BIN[nm][0](px, py)
        e = float(case["e"]) + BIN[nm][2] * float(case["e2"]) if not additive else float(case["e"])
        rel = [o1, o2]
        target = IBIN[nm](x, y)
        ctx.check(C.snapshot(target) == C.snapshot(x), lambda: f"{nm}=: other references to the array show {x!r} instead of {target!r}")
    else:
        oo = dict(o1, f=f[2], u=uu[2], s=case["s"] * 4 + 2)
        x0 = C.snapshot(x)
        if nm == "outsqrt":
            target, _ = C.build(oo, a, (4,))
            want, e, rel = np.sqrt(px), float(case["e"]) / 2, [o1]
            np.sqrt(x, out=target)
        elif nm == "outsum":
            target, _ = C.build(oo, a, (1,))
            want, e, rel = px.reshape(1, 4).sum(axis=1), float(case["e"]), [o1]
            np.sum(x.reshape(1, 4), axis=1, out=target)
        else:
            target, _ = C.build(oo, a, (4,))
            want = BIN[nm[3:]][0](px, py)
            e = float(case["e"]) + BIN[nm[3:]][2] * float(case["e2"]) if not additive else float(case["e"])
            rel = [o1, o2]
            {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.divide}[nm[3:]](x, y, out=target)
        ctx.check(C.snapshot(x) == x0, lambda: f"{nm}: first operand changed")
    what = lambda: f"{nm} with a={a}, x {o1}, y {o2}: {target!r}"
    ctx.check(C.snapshot(y) == y0, lambda: what() + ": second operand changed")
    ctx.check(C.same(C.meaning(target, a), want, 1e-9, float(np.max(np.abs(px)) * (np.max(np.abs(py)) if not additive else 1)) if nm[-1] in "+-" else 0),
              lambda: what() + f": physical values {C.meaning(target, a)}, expected {want}")
    ee = C.exponent_of(target.cosmo_factor)
    ctx.check(ee is not None and abs(ee - e) < 1e-8, lambda: what() + f": expected a**{e}")
    ctx.check(target.comoving in C.frames_result(rel), lambda: what() + ": frame")
    ctx.check(target.valid_transform == all(o["f"] != "x" for o in rel), lambda: what() + ": valid_transform")
    if len({o["f"] for o in rel}) == 1:
        ctx.trivial()
    ctx.label(nm)


REFUSE = {"add": np.add, "subtract": np.subtract, "maximum": np.maximum, "hypot": np.hypot, "less": np.less, "equal": np.equal,
          "concatenate": lambda x, y: np.concatenate([x, y]), "stack": lambda x, y: np.stack([x, y]), "isclose": np.isclose,
          "where": lambda x, y: np.where([True, False, True], x, y), "interp": lambda x, y: np.interp(x, np.sort(y), y), "union1d": np.union1d,
          "linspace": lambda x, y: np.linspace(x, y), "arctan2": np.arctan2, "fmod": np.fmod, "append": np.append,
          "searchsorted": lambda x, y: np.searchsorted(x, y), "digitize": lambda x, y: np.digitize(x, np.sort(y)), "clip": lambda x, y: np.clip(x, y, y + y), "copyto": lambda x, y: np.copyto(x, y)}
REFUSE_SCALE = {"multiply": np.multiply, "divide": np.divide, "dot": np.dot, "outer": np.outer, "cross": np.cross}


def refuse_case():
    return st.fixed_dictionaries({"fn": st.sampled_from(sorted(REFUSE) + sorted(REFUSE_SCALE)), "a": st.sampled_from([0.5, 0.25, 1.0, 2.0]), "kind": st.sampled_from(["exponent", "scale"]),
                                  "e": st.sampled_from([-3, -1, 0, 0.5, 1, 2]), "de": st.sampled_from([1, -1, 0.5, 2]), "f": st.lists(st.sampled_from(["c", "p"]), min_size=2, max_size=2),
                                  "d": st.sampled_from(["length", "mass"]), "s": st.integers(0, 10**6)})


def run_refuse(case, ctx):
    """Operands of different scale-factor dependence (or of different scale factors) do not combine."""
    C.quiet()
    a = case["a"]
    kind = case["kind"] if case["fn"] in REFUSE else "scale"
    o1 = dict(d=case["d"], e=case["e"], f=case["f"][0], u=0, s=case["s"] * 2, comp=None)
    o2 = dict(o1, f=case["f"][1], s=case["s"] * 2 + 1)
    b = a
    if kind == "exponent":
        o2["e"] = case["e"] + case["de"]
    else:
        b = a * 1.5
    x, _ = C.build(o1, a, (3,))
    y, _ = C.build(o2, b, (3,))
    fn = REFUSE.get(case["fn"]) or REFUSE_SCALE[case["fn"]]
    sx, sy = C.snapshot(x), C.snapshot(y)
    try:
        r = fn(x, y)
    except (ValueError, InvalidScaleFactor, InvalidConversionError):
        ctx.check(C.snapshot(x) == sx and C.snapshot(y) == sy, f"refused {case['fn']} changed its operands")
        return
    ctx.fail(f"{case['fn']} of {x!r} and {y!r} gives {r!r} instead of being refused")


def plain_case():
    return st.fixed_dictionaries({"fn": st.sampled_from(["add", "subtract", "maximum", "less", "minimum", "multiply", "divide", "hypot", "fmod"]),
                                  "a": st.sampled_from([0.5, 0.25]), "e": st.sampled_from([-3, -1, 0.5, 1, 2]), "f": st.sampled_from(["c", "p"]),
                                  "swap": st.booleans(), "s": st.integers(0, 10**6), "what": st.sampled_from(["unyt", "unyt_scalar"])})


def run_plain(case, ctx):
    """Data without cosmology is taken to be in the frame of the other operand, with a warning when the result depends on it."""
    a = case["a"]
    o = dict(d="length", e=case["e"], f=case["f"], u=0, s=case["s"], comp=None)
    x, px = C.build(o, a, (3,))
    rng = np.random.default_rng(case["s"] + 1)
    y = u.unyt_array(rng.uniform(0.5, 5, 3), "kpc" if case["fn"] not in ("concatenate", "stack") else "Mpc")
    if case["what"] == "unyt_scalar" and case["fn"] not in ("concatenate", "stack"):
        y = u.unyt_quantity(float(y[0].value), y.units)
    elif case["what"] == "unyt_scalar":
        y = u.unyt_array(y.value, y.units)
    fn = getattr(np, case["fn"])
    args = (y, x) if case["swap"] else (x, y)
    ref = tuple(u.unyt_array(np.asarray(v.view(np.ndarray)), v.units) for v in args)
    ref = tuple(r if r.shape else u.unyt_quantity(float(r.value), r.units) for r in ref)
    call = (lambda z: fn(list(z))) if case["fn"] in ("concatenate", "stack") else (lambda z: fn(*z))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = call(args)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = call(ref)
    mult = case["fn"] in ("multiply", "divide")
    rv = np.asarray(r.view(np.ndarray) if isinstance(r, np.ndarray) else r)
    un = float(getattr(r, "units", u.dimensionless).base_value)
    wu = float(getattr(want, "units", u.dimensionless).base_value)
    ctx.check(C.same(rv * un if rv.dtype.kind == "f" else rv, np.asarray(want) * wu if rv.dtype.kind == "f" else np.asarray(want)), lambda: f"{case['fn']} of {args}: {r!r}, expected {want!r}")
    if not mult:
        ctx.check(any("cosmo_factor" in str(x_.message) for x_ in w), lambda: f"{case['fn']} of {args}: no warning about the missing cosmology")
    if isinstance(want, u.unyt_array) and rv.dtype.kind == "f":
        ctx.check(isinstance(r, cosmo_array) and r.comoving is (case["f"] == "c"), lambda: f"{case['fn']} of {args}: {r!r}")
        e = float(case["e"]) * (-1 if case["fn"] == "divide" and case["swap"] else 1)
        ctx.check(abs(C.exponent_of(r.cosmo_factor) - e) < 1e-9, lambda: f"{case['fn']} of {args}: {r!r}")


def eq_case():
    return st.fixed_dictionaries({"a": st.sampled_from([0.5, 0.25, 2.0, 1.0]), "e": st.sampled_from([-3, -1, 1, 2, 3, 0]), "f": st.sampled_from(["c", "p"]), "ints": st.lists(st.integers(1, 5), min_size=4, max_size=4),
                                  "others": st.lists(st.integers(1, 5), min_size=4, max_size=4), "op": st.sampled_from(["==", "!=", "<", "<=", ">", ">=", "array_equal", "isin", "maximum"])})


def run_eq(case, ctx):
    """Ties: scale factors that are powers of two make the conversion exact, so comparisons across frames are exact."""
    C.quiet()
    a = case["a"]
    mk = lambda v: cosmo_array(np.array(v, dtype=float), u.Mpc, comoving=True, scale_factor=a, scale_exponent=case["e"])
    x, y = mk(case["ints"]), mk(case["others"]).to_physical()
    if case["f"] == "p":
        x, y = y, x
        i, j = np.array(case["others"]), np.array(case["ints"])
    else:
        i, j = np.array(case["ints"]), np.array(case["others"])
    op = case["op"]
    fns = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
           "array_equal": np.array_equal, "isin": np.isin}
    if op == "maximum":
        r = np.maximum(x, y)
        ctx.check(C.same(C.meaning(r, a), np.maximum(i, j) * float(u.Mpc.base_value) * a ** float(case["e"])), lambda: f"{r!r}")
        return
    got, want = fns[op](x, y), fns[op](i, j)
    ctx.check(np.array_equal(np.asarray(got), want), lambda: f"{x!r} {op} {y!r} is {got!r}, expected {want!r}")
    if case["e"] == 0 or a == 1:
        ctx.trivial()


EXP_KINDS = ["int", "float", "np32", "np64", "array0", "unyt", "quantity", "scaled", "length", "equal", "differ", "list"]


def exponent_case():
    return st.fixed_dictionaries({"a": st.sampled_from(C.SCALES), "kind": st.sampled_from(EXP_KINDS), "how": st.sampled_from(["**", "power", "ipow", "out", "number"]),
                                  "d": st.sampled_from(["length", "mass", "speed", "none"]), "e": st.sampled_from(C.EXPONENTS), "f": st.sampled_from(C.FRAMES),
                                  "g": st.sampled_from(["c", "p"]), "p": st.sampled_from([-2, -1, 0, 1, 2, 3, 0.5, 1.5]), "u": st.integers(0, 3), "s": st.integers(0, 10**6), "sc": st.booleans()})


def run_exponent(case, ctx):
    """x**p for every kind of exponent, against the power of the physical values."""
    C.quiet()
    a, kind, how, p = case["a"], case["kind"], case["how"], case["p"]
    shape = () if case["sc"] else (3,)
    q = dict(comoving=case["g"] == "c", scale_factor=a)
    power = {"int": lambda: int(p) if p == int(p) else p, "float": lambda: float(p), "np32": lambda: np.float32(p), "np64": lambda: np.float64(p), "array0": lambda: np.array(float(p)),
             "unyt": lambda: u.unyt_quantity(float(p), "dimensionless"), "quantity": lambda: cosmo_quantity(float(p), "dimensionless", scale_exponent=0, **q),
             "scaled": lambda: cosmo_quantity(float(p), "dimensionless", scale_exponent=1, **q), "length": lambda: cosmo_quantity(float(p), "Mpc", scale_exponent=0, **q),
             "equal": lambda: np.full(3, float(p)), "list": lambda: [float(p)] * 3, "differ": lambda: np.array([p, p + 1.0, p])}[kind]()
    if how == "number":
        # a number to the power of a quantity without dimension or dependence on the scale factor
        exps = cosmo_array([1.0, 2.5, -1.0], "dimensionless", scale_exponent=0, comoving=case["g"] == "c", scale_factor=a)
        r = (2.0 ** exps) if case["sc"] else np.power(3.0, exps)
        want = (2.0 if case["sc"] else 3.0) ** np.array([1.0, 2.5, -1.0])
        ctx.check(C.same(C.meaning(r, a), want), lambda: f"number ** {exps!r} is {r!r}")
        ctx.check(C.exponent_of(r.cosmo_factor) == 0 and r.cosmo_factor.scale_factor == a, lambda: f"number ** {exps!r} is {r!r}")
        bad = cosmo_array([1.0, 2.5, -1.0], "dimensionless", scale_exponent=1, comoving=case["g"] == "c", scale_factor=a)
        try:
            r = 2.0 ** bad
        except ValueError:
            return
        if a == 1:
            return
        ctx.fail(f"2 ** {bad!r} gives {r!r} instead of being refused")
    o = dict(d=case["d"], e=case["e"], f=case["f"], u=case["u"], s=case["s"], comp=None)
    x, px = C.build(o, a, shape if kind not in ("equal", "differ", "list") else (3,))
    sx, sp = C.snapshot(x), repr(power)
    what = lambda: f"{x!r} to the power {sp} ({kind}, {how})"
    refuse = (kind in ("scaled", "length")
              or kind == "differ" and (float(case["e"]) != 0 or case["d"] != "none"))
    try:
        if how == "**" or how in ("ipow", "out") and kind in ("list", "differ", "scaled", "length"):
            r = x**power
        elif how == "power":
            r = np.power(x, power)
        elif how == "ipow":
            r = x.copy()
            r **= power
        else:
            r, _ = C.build(dict(o, s=case["s"] + 1), a, np.shape(x))
            np.power(x, power, out=r) if r.shape else None
            r = r if r.shape else np.power(x, power)
    except (ValueError, u.exceptions.UnitOperationError) as exc:
        ctx.check(refuse, lambda: what() + f" was refused: {type(exc).__name__}: {exc}")
        ctx.check(C.snapshot(x) == sx or how == "ipow", lambda: what() + ": operand changed")
        ctx.label("refused")
        return
    if kind == "scaled" and a == 1:
        return  # the exponent does not depend on its frame
    ctx.check(not refuse, lambda: what() + f" gives {r!r} instead of being refused")
    ctx.check(C.snapshot(x) == sx and repr(power) == sp, lambda: what() + ": operand changed")
    pw = np.array([p, p + 1.0, p]) if kind == "differ" else float(p)
    ctx.check(isinstance(r, cosmo_array), lambda: what() + f" gives {r!r}")
    ctx.check(C.same(C.meaning(r, a), px**pw, 1e-9), lambda: what() + f" gives {r!r}: physical values {C.meaning(r, a)}, expected {px**pw}")
    e = float(case["e"]) * (0.0 if kind == "differ" else float(p))
    ee = C.exponent_of(r.cosmo_factor)
    ctx.check(isinstance(r.cosmo_factor, cosmo_factor) and ee is not None and abs(ee - e) < 1e-8, lambda: what() + f" gives {r!r}, expected a**{e}")
    ctx.check(r.comoving is (case["f"] == "c") or kind == "quantity" and r.comoving in (True, False), lambda: what() + f" gives {r!r}")
    ctx.check(r.valid_transform == (case["f"] != "x"), lambda: what() + f" gives {r!r}")
    if e == 0 or case["f"] != "c":
        ctx.trivial()
    ctx.label(kind)


UNSET = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.divide, "<": np.less, "==": np.equal, "maximum": np.maximum, "hypot": np.hypot, "arctan2": np.arctan2,
         "concatenate": lambda x, y: np.concatenate([x, y]), "hstack": lambda x, y: np.hstack([x, y]), "stack": lambda x, y: np.stack([x, y]), "block": lambda x, y: np.block([x, y]),
         "append": np.append, "where": lambda x, y: np.where([True, False, True], x, y), "isclose": np.isclose, "union1d": np.union1d, "dot": np.dot, "outer": np.outer,
         "allclose": np.allclose, "array_equal": np.array_equal, "searchsorted": lambda x, y: np.searchsorted(np.sort(x), y), "linspace": np.linspace, "copyto": np.copyto,
         "clip": lambda x, y: np.clip(x, y, y + y), "isin": np.isin, "cross": np.cross, "digitize": lambda x, y: np.digitize(x, np.sort(y))}
UNSET_KEEP = {"+": lambda x, y: (x + y, 1), "-": lambda x, y: (x - 3 * y, 1), "*": lambda x, y: (x * y, 2), "/": lambda x, y: (x / y, 0), "sqrt": lambda x, y: (np.sqrt(x), 0.5), "sq": lambda x, y: (x**2, 2),
              "slice": lambda x, y: (x[1:], 1), "item": lambda x, y: (x[1], 1), "sum": lambda x, y: (x.sum(), 1), "max": lambda x, y: (np.max(x), 1), "to": lambda x, y: (x.to("kpc"), 1),
              "concatenate": lambda x, y: (np.concatenate([x, y]), 1), "copy": lambda x, y: (x.copy(), 1), "neg": lambda x, y: (-x, 1), "reshape": lambda x, y: (x.reshape(3, 1), 1),
              "num": lambda x, y: (2.5 * x, 1), "block": lambda x, y: (np.block([x, y]), 1), "sort": lambda x, y: (np.sort(x), 1), "mean": lambda x, y: (x.mean(), 1)}


def unset_case():
    return st.fixed_dictionaries({"a": st.sampled_from(C.SCALES), "fn": st.sampled_from(sorted(UNSET)), "keep": st.sampled_from(sorted(UNSET_KEEP)), "e": st.sampled_from(C.EXPONENTS),
                                  "f": st.sampled_from(C.FRAMES), "swap": st.booleans(), "s": st.integers(0, 10**6)})


def run_unset(case, ctx):
    """Data whose frame was never set stays so, and does not combine with data that has one."""
    C.quiet()
    a = case["a"]
    rng = np.random.default_rng([case["s"], 4])
    v, w = rng.uniform(1, 5, 3), rng.uniform(1, 5, 3)
    n, m = cosmo_array(v.copy(), u.Mpc), cosmo_array(w.copy(), u.Mpc)
    x, _ = C.build(dict(d="length", e=case["e"], f=case["f"], u=0, s=case["s"], comp=None), a, (3,))
    fn = UNSET[case["fn"]]
    y, z = (n, x) if case["swap"] else (x, n)
    before = C.snapshot(y), C.snapshot(z)
    try:
        r = fn(y, z)
    except ValueError:
        ctx.check((C.snapshot(y), C.snapshot(z)) == before, lambda: f"refused {case['fn']} changed its operands")
    else:
        ctx.fail(f"{case['fn']} of {y!r} and {z!r} gives {r!r} instead of being refused")
    r, power = UNSET_KEEP[case["keep"]](n, m)
    want, _ = UNSET_KEEP[case["keep"]](u.unyt_array(v, u.Mpc), u.unyt_array(w, u.Mpc)) if case["keep"] not in ("block",) else (u.unyt_array(np.block([v, w]), u.Mpc), 1)
    what = lambda: f"{case['keep']} of {n!r}, {m!r}: {r!r}"
    ctx.check(isinstance(r, cosmo_array) and r.comoving is None, what)
    ctx.check(r.cosmo_factor is None or r.cosmo_factor.expr is None, what)
    ctx.check(C.same(np.asarray(r.to_value(u.Mpc**power)), np.asarray(want.to_value(u.Mpc**power))), lambda: what() + f", expected {want!r}")
    ctx.label(case["fn"])



CHECKS = [
    SubCheck("ufuncs", lambda: fc.case_(fc.split(True)), fc.run_value, quick=6000, thorough=150000, weight=3, rule="ufuncs, reductions and array methods of the table against the same function of the physical SI values"),
    SubCheck("expressions", expr_case, run_expr, quick=2500, thorough=80000, weight=3, rule="chains of arithmetic against the same chain of physical SI values"),
    SubCheck("inplace", inplace_case, run_inplace, quick=2500, thorough=60000, weight=2, rule="in-place operators and out= arguments"),
    SubCheck("refusals", refuse_case, run_refuse, quick=1200, thorough=20000, rule="operands that must not be combined"),
    SubCheck("plain", plain_case, run_plain, quick=800, thorough=10000, rule="operands without cosmology"),
    SubCheck("exponents", exponent_case, run_exponent, quick=1500, thorough=40000, rule="powers with every kind of exponent against powers of physical SI values"),
    SubCheck("unset", unset_case, run_unset, quick=1000, thorough=15000, rule="operands whose frame was never set"),
    SubCheck("ties", eq_case, run_eq, quick=1000, thorough=10000, rule="exact comparisons across frames"),
]
QUICK_BUDGET = 50
