"""P14: algebra of cosmo_factor."""
import math

import numpy as np
from hypothesis import strategies as st

from swiftsimio.objects import InvalidScaleFactor, cosmo_factor
from swiftsimio.objects import a as A

from .. import cosmo as C
from ..core import SubCheck

RULE = "at least one operation on exponents of different value, or a refusal"
ASSUMPTIONS = ["expressions are powers of the scale factor with a numeric coefficient of one"]
EXPS = [-3, -2, -1, -0.5, 0, 0.5, 1, 2, 3, 1.5, 2.0]


def case_():
    return st.fixed_dictionaries({
        "a": st.sampled_from([1.0, 0.5, 0.2, 0.731, 3.0, 1e-3]),
        "e": st.sampled_from(EXPS),
        "how": st.sampled_from(["create", "expr"]),
        "ops": st.lists(st.tuples(st.sampled_from(["mul", "div", "rmul", "pow", "add", "sub", "rdiv"]), st.sampled_from(EXPS)), max_size=6),
    })


def make(a, e, how="create"):
    return cosmo_factor.create(a, e) if how == "create" else cosmo_factor(A**e, a)


def run(case, ctx):
    C.quiet()
    a, e = case["a"], case["e"]
    cf = make(a, e, case["how"])
    cur = float(e)
    interesting = False
    for nm, x in case["ops"]:
        if abs(cur) > 40:
            break
        other = make(a, x)
        reprs = (repr(cf), repr(other))
        if nm == "mul":
            new, want = cf * other, cur + x
        elif nm == "rmul":
            new, want = other * cf, cur + x
        elif nm == "div":
            new, want = cf / other, cur - x
        elif nm == "rdiv":
            new, want = other / cf, x - cur
        elif nm == "pow":
            new, want = cf**x, cur * x
        else:
            f = (lambda p, q: p + q) if nm == "add" else (lambda p, q: p - q)
            new, want = f(cf, cosmo_factor(cf.expr, a)), cur
            if abs(cur - x) > 1e-9:
                interesting = True
                try:
                    f(cf, other)
                except (InvalidScaleFactor, ValueError):
                    pass
                else:
                    ctx.fail(f"{nm} of {cf} and {other} was not refused")
        interesting |= nm != "pow" and x != cur
        ctx.check((repr(cf), repr(other)) == reprs, "operands changed")
        got = C.exponent_of(new.cosmo_factor if hasattr(new, "cosmo_factor") else new)
        ctx.check(got is not None and abs(got - want) < 1e-9, lambda: f"{nm}: {cf} and {other} give {new}, expected a**{want}")
        ctx.check(new.scale_factor == a, lambda: f"{nm}: scale factor {new.scale_factor}")
        ctx.check(math.isclose(float(new.a_factor), a**want, rel_tol=1e-9), lambda: f"a_factor {new.a_factor} of {new}")
        ctx.check(math.isclose(new.redshift, 1 / a - 1, rel_tol=1e-12, abs_tol=1e-15), lambda: f"redshift {new.redshift} of {new}")
        cf, cur = new, want
    if not interesting:
        ctx.trivial()


def cmp_case():
    return st.fixed_dictionaries({"a": st.sampled_from([1.0, 0.5, 0.2, 0.731, 3.0]), "b": st.sampled_from([None, None, 1.0, 0.5, 0.3]),
                                  "e": st.sampled_from(EXPS), "f": st.sampled_from(EXPS)})


def run_cmp(case, ctx):
    C.quiet()
    a, e, f = case["a"], case["e"], case["f"]
    b = case["b"] or a
    x, y = make(a, e), make(b, f)
    fx, fy = a**e, b**f
    same = a == b and e == f
    ctx.check((x == y) is same and (y == x) is same, lambda: f"{x} == {y} is {x == y}")
    ctx.check((x != y) is (not same), lambda: f"{x} != {y} is {x != y}")
    ctx.check(x == x and not x != x, "not equal to itself")
    if not math.isclose(fx, fy, rel_tol=1e-9):
        ctx.check((x < y) == (fx < fy) and (x <= y) == (fx < fy) and (x > y) == (fx > fy) and (x >= y) == (fx > fy), lambda: f"order of {x} and {y}")
    ctx.check(math.isclose(float(x.a_factor), fx, rel_tol=1e-9), lambda: f"a_factor of {x}")
    if a != b:
        for nm, op in (("*", lambda: x * y), ("/", lambda: x / y), ("+", lambda: x + y), ("-", lambda: x - y)):
            try:
                r = op()
            except InvalidScaleFactor:
                continue
            ctx.fail(f"{x} {nm} {y} gives {r} instead of being refused")
    null = cosmo_factor(None, None)
    ctx.check(null.a_factor is None and null.redshift is None, "undefined factor has a value")
    ctx.check((null == cosmo_factor(None, None)) and not (null == x) and not (x == null), "equality with an undefined factor")
    for op in (lambda: null * x, lambda: x / null):
        try:
            r = op()
        except InvalidScaleFactor:
            continue
        ctx.fail(f"undefined factor combined with {x} gives {r}")
    for op in (lambda: x * 2.0, lambda: x + 1, lambda: x / "a", lambda: x < 3, lambda: x == 1.0):
        try:
            r = op()
        except ValueError:
            continue
        ctx.fail(f"{x} combined with a plain number gives {r}")
    for op in (lambda: 2.0 * x, lambda: 1 + x, lambda: 3 - x, lambda: 1 / x, lambda: x - 1, lambda: x <= 1, lambda: x > 0.1, lambda: x >= 1, lambda: 1 < x, lambda: x != 1.0):
        try:
            r = op()
        except (ValueError, TypeError):
            continue
        ctx.fail(f"{x} combined with a plain number gives {r}")
    if same:
        ctx.check(x <= y and x >= y and not x < y and not x > y, lambda: f"order of {x} and {y}")
        ctx.trivial()


def null_case():
    return st.fixed_dictionaries({"a": st.sampled_from([1.0, 0.5, 0.2, 0.731, 3.0, None]), "b": st.sampled_from([1.0, 0.5, 0.2, None]), "e": st.sampled_from(EXPS)})


def run_null(case, ctx):
    """A factor whose scaling is not set combines only with one that is not set either."""
    a, b, e = case["a"], case["b"], case["e"]
    n = cosmo_factor(None, a)
    x = make(b or 0.4, e)
    ctx.check(n.a_factor is None and (n.redshift is None if a is None else math.isclose(n.redshift, 1 / a - 1, abs_tol=1e-15)), lambda: f"{n}: {n.a_factor}, {n.redshift}")
    ctx.check(not (n == x) and not (x == n) and n != x and x != n and n == cosmo_factor(None, a) and not n != n, lambda: f"equality of {n}, {x}")
    ctx.check((n == cosmo_factor(None, b)) is (a == b), lambda: f"equality of {n} and an unset factor at a={b}")
    for nm, op in (("*", lambda p, q: p * q), ("/", lambda p, q: p / q), ("+", lambda p, q: p + q), ("-", lambda p, q: p - q)):
        for p, q in ((n, x), (x, n), (cosmo_factor(None, x.scale_factor), x), (x, cosmo_factor(None, x.scale_factor)), *([(n, cosmo_factor(None, b))] if a != b else [])):
            try:
                r = op(p, q)
            except InvalidScaleFactor:
                continue
            ctx.fail(f"{p} {nm} {q} gives {r} instead of being refused")
        r = op(n, cosmo_factor(None, a))
        ctx.check(r.expr is None and r.scale_factor == a, lambda: f"{n} {nm} {n} is {r}")
    r = n**e
    ctx.check(r.expr is None and r.scale_factor == a, lambda: f"{n} to the power {e} is {r}")
    r = None if e == 0 else eval(repr(x), {"cosmo_factor": cosmo_factor, "a": A, "sqrt": lambda z: z**0.5})
    ctx.check(r is None or r == x and C.exponent_of(r) == C.exponent_of(x), lambda: f"repr of {x} reads {repr(x)}")


CHECKS = [
    SubCheck("algebra", case_, run, quick=2500, thorough=80000, weight=2, rule="sequences of operations against exponents added and multiplied by hand"),
    SubCheck("comparison", cmp_case, run_cmp, quick=1500, thorough=8000, rule="comparisons and refusals"),
    SubCheck("unset", null_case, run_null, quick=300, thorough=1000, rule="factors without a scaling"),
]
QUICK_BUDGET = 40
