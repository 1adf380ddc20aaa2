"""P17: operations that only rearrange, select or copy data keep units and cosmology attributes."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from swiftsimio.objects import cosmo_array, cosmo_quantity

from .. import cosmo as C
from ..core import SubCheck

RULE = "at least two operations and one that changes the shape or the order"
ASSUMPTIONS = ["numpy functions that do not dispatch on array subclasses (np.array, np.asarray, np.copy without subok) are not covered",
               "copies of record or object arrays are not covered"]


def _iter(x, k):
    return list(x)[k % len(x)] if x.shape and len(x) else x


def _fancy(x, k):
    if not x.shape or not len(x):
        return x
    return x[np.random.default_rng(k).integers(0, len(x), 3)]


def _mask(x, k):
    if not x.shape:
        return x
    return x[np.random.default_rng(k).random(len(x)) < 0.7]


def _bool_full(x, k):
    return x[np.random.default_rng(k).random(x.shape) < 0.7] if x.shape else x


def _take(x, k, np_=False):
    if not x.shape or not len(x):
        return x
    i = np.random.default_rng(k).integers(0, len(x), 4)
    return np.take(x, i, axis=0) if np_ else x.take(i, axis=0)


def need(nd):
    def d(f):
        return lambda x, k: f(x, k) if x.ndim >= nd else x
    return d


# every entry is applied to the cosmology array and to the plain numbers
OPS = {
    "int": need(1)(lambda x, k: x[k % len(x)] if len(x) else x),
    "slice": need(1)(lambda x, k: x[k % 3::1 + k % 2]),
    "reverse": need(1)(lambda x, k: x[::-1]),
    "ellipsis": lambda x, k: x[...],
    "newaxis": lambda x, k: x[None] if x.ndim < 4 else x,
    "column": need(2)(lambda x, k: x[:, k % x.shape[1]] if x.shape[1] else x),
    "tuple": need(2)(lambda x, k: x[0, 0] if x.shape[0] and x.shape[1] else x),
    "fancy": _fancy, "mask": _mask, "mask_full": _bool_full, "take": _take,
    "np.take": lambda x, k: _take(x, k, True), "iter": _iter,
    "reshape": lambda x, k: x.reshape(-1, 1) if x.shape and x.size else x,
    "reshape_t": lambda x, k: x.reshape((x.size,)) if x.shape else x,
    "ravel": lambda x, k: x.ravel() if x.shape else x,
    "flatten": lambda x, k: x.flatten() if x.shape else x,
    "T": lambda x, k: x.T, "transpose": lambda x, k: x.transpose(),
    "swapaxes": need(2)(lambda x, k: x.swapaxes(0, 1)),
    "squeeze": lambda x, k: x.squeeze() if x.shape else x,
    "repeat": need(1)(lambda x, k: x.repeat(2, axis=0) if x.size < 100 else x),
    "copy": lambda x, k: x.copy(), "copy.copy": lambda x, k: copy.copy(x), "deepcopy": lambda x, k: copy.deepcopy(x),
    "pickle": lambda x, k: pickle.loads(pickle.dumps(x, protocol=2 + k % 4)),
    "diagonal": need(2)(lambda x, k: x.diagonal()),
    "compress": need(1)(lambda x, k: x.compress([True] * min(1, len(x)), axis=0)),
    "astype": lambda x, k: x.astype("f8"), "view": lambda x, k: x.view(),
    "np.reshape": need(1)(lambda x, k: np.reshape(x, (1, -1)) if x.size else x),
    "np.ravel": need(1)(lambda x, k: np.ravel(x)), "np.transpose": lambda x, k: np.transpose(x),
    "np.expand_dims": lambda x, k: np.expand_dims(x, 0) if 0 < x.ndim < 4 else x,
    "np.squeeze": need(1)(lambda x, k: np.squeeze(x)), "np.flip": need(1)(lambda x, k: np.flip(x, 0)),
    "np.roll": need(1)(lambda x, k: np.roll(x, k % 5)), "np.tile": need(1)(lambda x, k: np.tile(x, 2) if x.size < 100 else x),
    "np.sort": need(1)(lambda x, k: np.sort(x, axis=0)), "np.moveaxis": need(2)(lambda x, k: np.moveaxis(x, 0, -1)),
    "np.atleast_1d": need(1)(lambda x, k: np.atleast_1d(x)), "np.atleast_2d": need(1)(lambda x, k: np.atleast_2d(x)),
    "np.split": need(1)(lambda x, k: np.array_split(x, 2)[k % 2]), "np.rot90": need(2)(lambda x, k: np.rot90(x)),
    "np.delete": need(1)(lambda x, k: np.delete(x, 0, axis=0) if len(x) else x),
    "np.compress": need(1)(lambda x, k: np.compress([True] * min(1, len(x)), x, axis=0)),
    "np.repeat": need(1)(lambda x, k: np.repeat(x, 2, axis=0) if x.size < 100 else x),
    "np.fliplr": need(2)(lambda x, k: np.fliplr(x)), "np.swapaxes": need(2)(lambda x, k: np.swapaxes(x, 0, 1)),
    "np.triu": need(2)(lambda x, k: np.triu(x)), "np.diagonal": need(2)(lambda x, k: np.diagonal(x)),
    "np.take_along_axis": need(1)(lambda x, k: np.take_along_axis(x, np.argsort(np.asarray(x.view(np.ndarray)), axis=0), axis=0) if len(x) else x),
    "mul_unit": None,
}
OPS.pop("mul_unit")
ROUND = {"byteswap": lambda x, k: x.byteswap().byteswap()}


def case_():
    return st.fixed_dictionaries({
        "o": C.operand(), "a": st.sampled_from(C.SCALES), "shape": st.sampled_from([(), (4,), (3, 2), (2, 3, 2), (1, 3), (0,), (5, 1)]),
        "dtype": st.sampled_from(["f8", "f8", "f4", "i8", ">f8"]), "ops": st.lists(st.tuples(st.sampled_from(sorted(OPS)), st.integers(0, 59)), min_size=1, max_size=7)})


def run(case, ctx):
    C.quiet()
    o, a = case["o"], case["a"]
    shape = tuple(case["shape"])
    if case["dtype"] == "i8" or shape == ():
        x, _ = C.build(o, a, shape, ints=case["dtype"] == "i8")
    else:
        x, _ = C.build(o, a, shape, signed=True)
        x = x.astype(case["dtype"])
        ctx.check(isinstance(x, cosmo_array) and x.dtype == np.dtype(case["dtype"]), f"astype gives {x!r}")
    y = np.array(x.view(np.ndarray))
    units, cf = x.units, (str(x.cosmo_factor.expr), x.cosmo_factor.scale_factor)
    hist = []
    changing = 0
    for nm, k in case["ops"]:
        f = OPS[nm]
        before = C.snapshot(x)
        src = x
        x2, y2 = f(x, k), f(y, k)
        y2 = np.asarray(y2)
        hist.append(f"{nm}({k})")
        what = lambda: f"{' -> '.join(hist)} of a {o} array of shape {shape}: {src!r} -> {x2!r}"
        ctx.check(C.snapshot(src) == before, lambda: what() + ": changed its operand")
        ctx.check(isinstance(x2, cosmo_array), lambda: what() + ": not a cosmology array")
        ctx.check(x2.shape == y2.shape and np.array_equal(np.asarray(x2.view(np.ndarray)), y2), lambda: what() + f": values differ, expected {y2}")
        ctx.check(x2.dtype.newbyteorder("=") == y2.dtype.newbyteorder("="), lambda: what() + f": dtype {x2.dtype}, expected {y2.dtype}")
        ctx.check(x2.units == units, lambda: what() + ": units changed")
        ctx.check(x2.comoving is (o["f"] == "c"), lambda: what() + ": frame changed")
        ctx.check((str(x2.cosmo_factor.expr), x2.cosmo_factor.scale_factor) == cf, lambda: what() + ": cosmo_factor changed")
        ctx.check(x2.valid_transform is (o["f"] != "x"), lambda: what() + ": valid_transform changed")
        # (functions taking several arrays keep the description of the compression only if all have it)
        ctx.check(x2.compression == src.compression or (nm.startswith("np.") and x2.compression is None), lambda: what() + ": compression changed")
        want = cosmo_quantity if x2.shape == () else cosmo_array
        ctx.check(type(x2) is want, lambda: what() + f": type {type(x2).__name__}, expected {want.__name__}")
        if nm in ("copy", "copy.copy", "deepcopy", "pickle", "flatten") and x2.size and x2 is not src:
            ctx.check(not np.shares_memory(x2, src), lambda: what() + ": copy shares memory")
        changing += y2.shape != y.shape or not np.array_equal(y2, y)
        x, y = x2, y2
    if len(hist) < 2 or not changing:
        ctx.trivial()
    ctx.label(f"ends {y.ndim}-d")


def iter_case():
    return st.fixed_dictionaries({"o": C.operand(), "a": st.sampled_from(C.SCALES), "n": st.integers(0, 6), "cols": st.integers(0, 3)})


def run_iter(case, ctx):
    """Iterating and putting the pieces together again gives the same array; printing does not fail."""
    C.quiet()
    o, a = case["o"], case["a"]
    x, phys = C.build(o, a, (case["n"],) if case["cols"] == 0 else (case["n"], case["cols"]))
    parts = list(x)
    ctx.check(len(parts) == case["n"], "wrong number of elements")
    for p in parts:
        ctx.check(type(p) is (cosmo_quantity if case["cols"] == 0 else cosmo_array) and p.comoving is x.comoving and p.units == x.units
                  and p.cosmo_factor == x.cosmo_factor and p.valid_transform is x.valid_transform and p.compression == o["comp"], lambda: f"element {p!r} of {x!r}")
    if parts:
        y = cosmo_array(parts)
        ctx.check(C.same(C.meaning(y, a), phys) and y.comoving is x.comoving and y.cosmo_factor == x.cosmo_factor and y.units == x.units, lambda: f"{x!r} from its elements is {y!r}")
        # (the constructor takes valid_transform from its argument, which defaults to True)
        ctx.check((y.valid_transform is x.valid_transform or o["f"] == "x") and y.compression == x.compression, lambda: f"{x!r} from its elements is {y!r}")
        z = np.stack(parts) if case["cols"] else np.concatenate([p.reshape(1) if hasattr(p, "reshape") else p for p in parts])
        ctx.check(C.same(C.meaning(z, a), phys) and z.comoving is x.comoving and z.cosmo_factor == x.cosmo_factor, lambda: f"{x!r} stacked from its elements is {z!r}")
    else:
        ctx.trivial()
    for s in (str(x), repr(x), np.array2string(x), np.array_str(x), np.array_repr(x)):
        ctx.check(str(x.units) in s, lambda: f"{s} does not show the units")
    ctx.check(("Comoving" in str(x)) == (o["f"] == "c") and ("Physical" in str(x)) == (o["f"] != "c"), lambda: f"printed as {x}")
    q = x.value
    for nm in ("value", "v", "d", "ndview"):
        q = getattr(x, nm)
        ctx.check(type(q) is np.ndarray and np.array_equal(q, x.view(np.ndarray)), lambda: f".{nm} is {q!r}")
    for nm in ("ua", "unit_array"):
        q = getattr(x, nm)
        ctx.check(isinstance(q, cosmo_array) and q.units == x.units and q.comoving is x.comoving and np.all(np.asarray(q.view(np.ndarray)) == 1), lambda: f".{nm} is {q!r}")


CHECKS = [
    SubCheck("sequence", case_, run, quick=4000, thorough=150000, weight=3, rule="chains of structural operations on the array and on its plain numbers"),
    SubCheck("iterate", iter_case, run_iter, quick=500, thorough=8000, rule="iteration, reassembly and printing"),
]
QUICK_BUDGET = 45
