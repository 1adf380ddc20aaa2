"""Runs entries of functable over generated operands."""
import numpy as np
from hypothesis import strategies as st

from swiftsimio.objects import InvalidConversionError, cosmo_array

from . import cosmo as C, functable

GROUPS = ("A", "B", "C")


def split(ufuncs):
    pre = ("ufunc.", "reduce.", "accumulate.", "outer.", "method.", "method2.", "op.", "builtin.")
    return [n for n in functable.FUNCS if n.startswith(pre) == ufuncs]


def case_(names):
    arg = st.fixed_dictionaries({"f": st.sampled_from(C.FRAMES), "u": st.integers(0, 3), "s": st.integers(0, 10**6)})
    grp = st.fixed_dictionaries({"d": st.sampled_from(sorted(C.DIMS)), "e": st.sampled_from(C.EXPONENTS)})
    return st.fixed_dictionaries({
        "fn": st.sampled_from(names), "a": st.sampled_from(C.SCALES), "args": st.lists(arg, min_size=4, max_size=4),
        "mixed": st.booleans(), "groups": st.fixed_dictionaries({g: grp for g in GROUPS}),
        "comp": st.sampled_from([None, "DScale5"]), "view": st.booleans()})


def prepare(case):
    """(table entry, arguments, physical values of the arguments, operands)"""
    f = functable.FUNCS[case["fn"]]
    a = case["a"]
    args, phys, ops = [], [], []
    mixed = case["mixed"] and f["mixed"]
    for j, (sh, g) in enumerate(f["args"]):
        c = case["args"][j]
        if g is None:
            x = np.random.default_rng([c["s"], 5]).uniform(1, 3, sh)
            args.append(x)
            phys.append(x)
            continue
        grp = case["groups"][g]
        o = dict(d="none" if f["dimless"] else grp["d"], u=case["args"][0]["u"] if f["sameunit"] or not f["mixed"] else c["u"],
                 e=grp["e"], f=(c if mixed else case["args"][0])["f"], comp=case["comp"], g=g, s=c["s"] * 8 + j)
        ops.append(o)
        x, p = C.build(o, a, sh, signed=f["signed"])
        if case["view"] and sh != ():
            big = np.concatenate([x.view(np.ndarray), x.view(np.ndarray)])
            big = C.wrap(big, x.units, o, a)
            x = big[: sh[0]]
        args.append(x)
        phys.append(p)
    return f, args, phys, ops


def check_result(f, case, res, want, ops, ctx, phys):
    a = case["a"]
    desc = lambda: f"{case['fn']} at a={a} of " + ", ".join(f"({o['d']}, a**{o['e']}, {o['f']})" for o in ops)
    pws = f["pw"]
    if len(pws) == 1:
        res, want = (res,), (want,)
    ctx.check(len(res) == len(pws), lambda: f"{desc()}: {len(res)} results")
    mags = {}
    for (sh, g), p in zip(f["args"], phys):
        if g is not None:
            mags[g] = max(mags.get(g, 0.0), float(np.max(np.abs(p))))
    expo = {o["g"]: float(o["e"]) for o in ops}
    for i, (r, w, pw) in enumerate(zip(res, want, pws)):
        if f["free"]:
            continue
        if pw is None:
            ctx.check(not isinstance(r, cosmo_array) or r.units.is_dimensionless, lambda: f"{desc()}: result {i} is {r!r}")
            got = C.meaning(r, a) if not isinstance(r, tuple) else r
            ctx.check(C.same(np.asarray(got, dtype=float), np.asarray(w, dtype=float)), lambda: f"{desc()}: result {i} is {r!r}, expected {w}")
            continue
        ctx.check(isinstance(r, cosmo_array), lambda: f"{desc()}: result {i} is {r!r}: not a cosmology array")
        rel = [o for o in ops if not f["split"] or o["g"] in pw]
        got = C.meaning(r, a)
        # (differences of products are compared on the scale of the products)
        size = float(np.prod([mags[g] ** p for g, p in pw.items()])) if pw else 0.0
        ctx.check(C.same(got, w, f["tol"], size), lambda: f"{desc()}: result {i} is {r!r}: physical values {np.asarray(got).ravel()[:4]}, expected {np.asarray(w).ravel()[:4]}")
        ctx.check(type(r).__name__ == ("cosmo_quantity" if r.shape == () else "cosmo_array"), lambda: f"{desc()}: result {i} of shape {r.shape} is a {type(r).__name__}")
        if not pw:
            continue
        e = sum(expo[g] * p for g, p in pw.items())
        ee = C.exponent_of(r.cosmo_factor)
        ctx.check(r.comoving in C.frames_result(rel), lambda: f"{desc()}: result {i} has comoving={r.comoving}")
        ctx.check(ee is not None and abs(ee - e) < 1e-8, lambda: f"{desc()}: result {i} scales as a**{ee}, expected a**{e}")
        ctx.check(r.cosmo_factor.scale_factor == a, lambda: f"{desc()}: scale factor {r.cosmo_factor.scale_factor}")
        ctx.check(r.valid_transform == all(o["f"] != "x" for o in rel), lambda: f"{desc()}: valid_transform={r.valid_transform}")
        ctx.check(r.compression in (None, case["comp"]), lambda: f"{desc()}: compression={r.compression!r}")


def run_value(case, ctx):
    C.quiet()
    f, args, phys, ops = prepare(case)
    frames = {o["f"] for o in ops}
    if len(frames) == 1 and frames != {"c"}:
        ctx.trivial()
    ctx.label("mixed" if len(frames) > 1 else "one-frame", "scalefree" if case["a"] == 1 else "scaled")
    try:
        res = f["call"](*args)
    except InvalidConversionError:
        if case["fn"].startswith("block") and frames >= {"c", "x"}:
            ctx.trivial()
            return
        raise
    want = f["call"](*phys)
    check_result(f, case, res, want, ops, ctx, phys)


def run_untouched(case, ctx):
    C.quiet()
    f, args, phys, ops = prepare(case)
    bases = [x.base if isinstance(x.base, np.ndarray) else None for x in args]
    snaps = [C.snapshot(x) for x in args]
    bsnaps = [None if b is None else np.array(b.view(np.ndarray)).tobytes() for b in bases]
    try:
        f["call"](*args)
    except InvalidConversionError:
        ctx.label("refused")
    for i, (x, s) in enumerate(zip(args, snaps)):
        ctx.check(C.snapshot(x) == s, lambda: f"{case['fn']}: operand {i} changed from {s[1:]} to {x!r}")
    for i, (b, s) in enumerate(zip(bases, bsnaps)):
        ctx.check(b is None or np.array(b.view(np.ndarray)).tobytes() == s, lambda: f"{case['fn']}: array viewed by operand {i} changed")
    if len({o["f"] for o in ops}) < 2 and not case["view"]:
        ctx.trivial()


# ------------------------------------------------------------------ assignment into an array
def _fd(d, s):
    np.fill_diagonal(d, s)


def _along(d, s):
    np.put_along_axis(d, np.array([[0], [2], [1]]), s[:, None], axis=1)


def _set(i):
    def f(d, s):
        d[i] = s
    return f


B3 = np.array([True, False, True])
# name: (call, shape of target, shape of source)
ASSIGN = {
    "copyto": (lambda d, s: np.copyto(d, s), (3, 3), (3, 3)),
    "copyto.where": (lambda d, s: np.copyto(d, s, where=B3), (3, 3), (3, 3)),
    "copyto.broadcast": (lambda d, s: np.copyto(d, s), (3, 3), (3,)),
    "fill_diagonal": (_fd, (3, 3), (3,)),
    "fill_diagonal.scalar": (_fd, (3, 3), ()),
    "place": (lambda d, s: np.place(d, np.array([[True, False, True]] * 3), s), (3, 3), (6,)),
    "put": (lambda d, s: np.put(d, [0, 4, 7], s), (3, 3), (3,)),
    "putmask": (lambda d, s: np.putmask(d, np.array([[True, False, True]] * 3), s), (3, 3), (3, 3)),
    "put_along_axis": (_along, (3, 3), (3,)),
    "setitem.int": (_set(1), (3, 3), (3,)),
    "setitem.scalar": (_set((1, 2)), (3, 3), ()),
    "setitem.slice": (_set(slice(0, 2)), (3, 3), (2, 3)),
    "setitem.mask": (_set(B3), (3, 3), (2, 3)),
    "setitem.fancy": (_set(([0, 1, 2], [2, 0, 1])), (3, 3), (3,)),
    "setitem.all": (_set(Ellipsis), (3, 3), (3, 3)),
    "setitem.broadcast": (_set(slice(None)), (3, 3), ()),
}


def assign_case():
    arg = st.fixed_dictionaries({"f": st.sampled_from(C.FRAMES), "s": st.integers(0, 10**6), "u": st.integers(0, 3)})
    return st.fixed_dictionaries({"fn": st.sampled_from(sorted(ASSIGN)), "a": st.sampled_from(C.SCALES), "d": st.sampled_from(sorted(C.DIMS)),
                                  "e": st.sampled_from(C.EXPONENTS), "dst": arg, "src": arg})


def run_assign(case, ctx, what="value"):
    C.quiet()
    a = case["a"]
    call, sd, ss = ASSIGN[case["fn"]]
    base = dict(d=case["d"], e=case["e"], comp=None)
    od = dict(base, f=case["dst"]["f"], u=case["dst"]["u"], s=case["dst"]["s"] * 2)
    os_ = dict(base, f=case["src"]["f"], u=case["src"]["u"] if case["fn"].startswith("setitem") else case["dst"]["u"], s=case["src"]["s"] * 2 + 1)
    d, pd = C.build(od, a, sd)
    s, ps = C.build(os_, a, ss)
    snap, attrs = C.snapshot(s), C.snapshot(d)[1:]
    model = np.array(pd)
    desc = lambda: f"{case['fn']} with a={a}: target {od}, source {os_}: {d!r}"
    try:
        call(d, s)
    except InvalidConversionError:
        # a source that cannot be comoving cannot be put in a comoving target
        ctx.check(od["f"] == "c" and os_["f"] == "x", lambda: desc() + ": refused")
        ctx.check(C.same(C.meaning(d, a), model), lambda: desc() + ": refused assignment changed the target")
        ctx.check(C.snapshot(s) == snap, lambda: desc() + f": source changed to {s!r}")
        ctx.label("refused")
        return
    if what == "source":
        ctx.check(C.snapshot(s) == snap, lambda: desc() + f": source changed to {s!r}")
    else:
        call(model, ps)
        ctx.check(C.same(C.meaning(d, a), model), lambda: desc() + f": physical values {C.meaning(d, a)}, expected {model}")
        if not case["fn"].startswith("copyto"):
            ctx.check(C.snapshot(d)[1:] == attrs, lambda: desc() + f": attributes of the target changed from {attrs}")
    if od["f"] == os_["f"]:
        ctx.trivial()


# ------------------------------------------------------------------ results written to an array given as out
def _o(fn, **kw):
    return lambda x, o: fn(x, out=o, **kw)


# name: (call of x with shape (3, 4) and an output array of shape (4,), power of x in the result)
OUT = {
    "sum": (_o(np.sum, axis=0), 1), "mean": (_o(np.mean, axis=0), 1), "max": (_o(np.max, axis=0), 1), "min": (_o(np.min, axis=0), 1),
    "median": (_o(np.median, axis=0), 1), "nansum": (_o(np.nansum, axis=0), 1), "nanmax": (_o(np.nanmax, axis=0), 1),
    "cumsum": (lambda x, o: np.cumsum(x[0], out=o), 1), "nan_to_num": (lambda x, o: np.add(np.nan_to_num(x[0]), x[1], out=o), 1),
    "positive": (lambda x, o: np.positive(x[0], out=o), 1), "power": (lambda x, o: np.power(x[0], 2, out=o), 2),
   
    "clip": (lambda x, o: np.clip(x[0], x[1] * 0.9, x[1] * 1.1, out=o), 1), "take": (_o(np.take, indices=1, axis=0), 1),
    "dot": (lambda x, o: np.dot(x[:2].T @ x[:2], x[1], out=o), 3), "matmul": (lambda x, o: np.matmul(x[:2].T @ x[:2], x[1], out=o), 3),
    "choose": (lambda x, o: np.choose([0, 1, 0, 1], (x[0], x[1]), out=o), 1), "einsum": (lambda x, o: np.einsum("ij->j", x, out=o), 1),
    "concatenate": (lambda x, o: np.concatenate([x[0, :2], x[1, :2]], out=o), 1), "stack": (lambda x, o: np.stack(list(x[0]), out=o), 1),
    "add": (lambda x, o: np.add(x[0], x[1], out=o), 1), "subtract": (lambda x, o: np.subtract(x[0], x[1], out=o), 1),
    "multiply": (lambda x, o: np.multiply(x[0], x[1], out=o), 2), "divide": (lambda x, o: np.divide(x[0], x[1], out=o), 0),
    "sqrt": (lambda x, o: np.sqrt(x[0], out=o), 0.5), "square": (lambda x, o: np.square(x[0], out=o), 2), "negative": (lambda x, o: np.negative(x[0], out=o), 1),
    "method.sum": (lambda x, o: x.sum(axis=0, out=o), 1), "method.mean": (lambda x, o: x.mean(axis=0, out=o), 1),
    "method.prod": (lambda x, o: x.prod(axis=0, out=o), 3), "method.max": (lambda x, o: x.max(axis=0, out=o), 1),
    "method.cumsum": (lambda x, o: x[0].cumsum(out=o), 1),
    "reduce": (lambda x, o: np.add.reduce(x, axis=0, out=o), 1), "accumulate": (lambda x, o: np.add.accumulate(x[0], out=o), 1),
}


def out_case():
    arg = st.fixed_dictionaries({"f": st.sampled_from(C.FRAMES), "s": st.integers(0, 10**6), "u": st.integers(0, 3),
                                 "d": st.sampled_from(sorted(C.DIMS)), "e": st.sampled_from(C.EXPONENTS)})
    return st.fixed_dictionaries({"fn": st.sampled_from(sorted(OUT)), "a": st.sampled_from(C.SCALES), "x": arg, "out": arg, "same": st.booleans()})


def run_out(case, ctx):
    C.quiet()
    a = case["a"]
    call, power = OUT[case["fn"]]
    ox = dict(case["x"], comp=None, g="A")
    if case["fn"] == "einsum":
        ox["d"] = "none"
    oo = dict(case["out"], comp=None, g="B")
    if case["same"]:  # the usual case: an array of the same kind of quantity in another frame
        oo.update(d=ox["d"], e=ox["e"])
    x, px = C.build(ox, a, (3, 4))
    o, _ = C.build(oo, a, (4,))
    want = call(px, np.zeros(4))
    snap = C.snapshot(x)
    res = call(x, o)
    e = float(ox["e"]) * power
    size = float(np.max(np.abs(px))) ** power
    desc = lambda: f"{case['fn']} at a={a} of {ox} into {oo}"
    ctx.check(C.snapshot(x) == snap, lambda: f"{desc()}: operand changed to {x!r}")
    for nm, z in (("result", res), ("out", o)):
        ctx.check(isinstance(z, cosmo_array), lambda: f"{desc()}: {nm} is {z!r}")
        ctx.check(C.same(C.meaning(z, a), want, 1e-9, size), lambda: f"{desc()}: {nm} is {z!r}, physical values {C.meaning(z, a)}, expected {want}")
        if power:
            ee = C.exponent_of(z.cosmo_factor)
            ctx.check(ee is not None and abs(ee - e) < 1e-8, lambda: f"{desc()}: {nm} scales as a**{ee}, expected a**{e}")
            ctx.check(z.comoving in C.frames_result([ox]), lambda: f"{desc()}: {nm} has comoving={z.comoving}")
            ctx.check(z.valid_transform == (ox["f"] != "x"), lambda: f"{desc()}: {nm} has valid_transform={z.valid_transform}")
    if ox["f"] == oo["f"] and ox["e"] == oo["e"]:
        ctx.trivial()
