"""Table of numpy functions as homogeneous maps: result = product of the groups' units and
scale-factor exponents raised to ``pw``; ``None`` marks a result without units or cosmology."""
import numpy as np

FUNCS = {}
# unyt refuses operands of one dimension in different units here
SAMEUNIT = {"searchsorted", "concatenate", "vstack", "hstack", "dstack", "column_stack", "stack", "block", "append",
            "insert", "union1d", "setdiff1d", "choose", "where", "clip", "histogram_bin_edges", "linspace", "geomspace", "interp",
            "isin", "ufunc.floor_divide", "intersect1d", "setxor1d", "linalg.outer"}
# the units of these results are left to unyt, which does not combine them; only the cosmology is claimed
DIMLESS = {"select", "einsum.dot", "einsum.same", "linalg.lstsq", "histogram.weights.density",
           "histogram2d.weights.density", "unwrap"}
# every result has the frame of its own group
SPLIT = {"histogram2d", "histogram2d.weights", "meshgrid.x"}


def F(name, args, call, *pw, mixed=True, signed=False, same_exact=True, free=False, num=None, tol=1e-9, sameunit=False, dimless=False, split=False):
    """args: list of (shape, group); group None = plain number; num: index of a non-cosmo argument."""
    FUNCS[name] = dict(name=name, args=args, call=call, pw=pw, mixed=mixed, signed=signed, free=free, tol=tol,
                       sameunit=sameunit or name.split('.')[0] in SAMEUNIT or name in SAMEUNIT, dimless=dimless or name in DIMLESS,
                       split=split or name in SPLIT)


A, B = "A", "B"
one, inv, sq = {A: 1}, {A: -1}, {A: 2}
ab, a_b = {A: 1, B: 1}, {A: 1, B: -1}
V, M2, M3 = (5,), (3, 3), (2, 3, 4)


def vec(n=5):
    return (n,)


# ------------------------------------------------------------------ ufuncs
for nm in ("add", "subtract", "hypot", "maximum", "minimum", "fmax", "fmin"):
    F(f"ufunc.{nm}", [(V, A), (V, A)], getattr(np, nm), one, signed=True)
    F(f"ufunc.{nm}.broadcast", [((2, 3), A), ((), A)], getattr(np, nm), one, signed=True)
for nm in ("remainder", "fmod"):
    F(f"ufunc.{nm}", [(V, A), (V, A)], getattr(np, nm), one, tol=1e-6)
F("ufunc.copysign", [(V, A), (V, A)], np.copysign, one, signed=True)
for nm in ("multiply", "matmul", "vecdot"):
    F(f"ufunc.{nm}", [(V, A), (V, B)], getattr(np, nm), ab, signed=True)
F("ufunc.matmul2", [(M2, A), (M2, B)], np.matmul, ab, signed=True)
F("ufunc.divide", [(V, A), (V, B)], np.divide, a_b, signed=True)
F("ufunc.divide.scalar", [(V, A), ((), B)], np.divide, a_b, signed=True)
F("ufunc.rdivide.number", [(V, A)], lambda x: 3.0 / x, inv)
F("ufunc.mul.number", [(V, A)], lambda x: x * 3.0, one)
F("ufunc.rmul.number", [(V, A)], lambda x: 3.0 * x, one)
F("ufunc.mul.array", [(V, A), (V, None)], np.multiply, one)
F("ufunc.rmul.array", [(V, None), (V, A)], np.multiply, one)
F("ufunc.div.array", [(V, A), (V, None)], np.divide, one)
F("ufunc.rdiv.array", [(V, None), (V, A)], np.divide, inv)
F("ufunc.floor_divide", [(V, A), (V, A)], np.floor_divide, {}, tol=1e-6)
for nm in ("negative", "absolute", "fabs", "positive", "conjugate"):
    F(f"ufunc.{nm}", [(V, A)], getattr(np, nm), one, signed=True)
F("ufunc.sqrt", [(V, A)], np.sqrt, {A: 0.5})
F("ufunc.cbrt", [(V, A)], np.cbrt, {A: 1.0 / 3.0})
F("ufunc.square", [(V, A)], np.square, sq, signed=True)
F("ufunc.reciprocal", [(V, A)], np.reciprocal, inv)
for p in (2, 3, -1, 0.5, -2, 1, 0):
    F(f"ufunc.power{p}", [(V, A)], lambda x, p=p: x**p, {A: p})
    F(f"ufunc.np.power{p}", [(V, A)], lambda x, p=p: np.power(x, p), {A: p})
for nm in ("greater", "greater_equal", "less", "less_equal", "not_equal", "equal"):
    F(f"ufunc.{nm}", [(V, A), (V, A)], getattr(np, nm), None)
    F(f"ufunc.{nm}.scalar", [(V, A), ((), A)], getattr(np, nm), None)
for nm in ("isfinite", "isinf", "isnan", "signbit", "logical_not"):
    F(f"ufunc.{nm}", [(V, A)], getattr(np, nm), None, signed=True)
for nm in ("logical_and", "logical_or", "logical_xor"):
    F(f"ufunc.{nm}", [(V, A), (V, A)], getattr(np, nm), None, signed=True)
F("ufunc.arctan2", [(V, A), (V, A)], np.arctan2, {}, signed=True)
for nm in ("add", "maximum", "minimum"):
    F(f"reduce.{nm}", [((2, 3), A)], lambda x, f=getattr(np, nm): f.reduce(x), one, signed=True)
    F(f"reduce.{nm}.none", [((2, 3), A)], lambda x, f=getattr(np, nm): f.reduce(x, axis=None), one, signed=True)
    F(f"reduce.{nm}.axis1", [((2, 3), A)], lambda x, f=getattr(np, nm): f.reduce(x, axis=1), one, signed=True)
    F(f"accumulate.{nm}", [(V, A)], lambda x, f=getattr(np, nm): f.accumulate(x), one, signed=True)
F("reduce.multiply", [((2, 3), A)], lambda x: np.multiply.reduce(x, axis=0), sq)
F("reduce.multiply.axis1", [((2, 3), A)], lambda x: np.multiply.reduce(x, axis=1), {A: 3})
F("reduce.multiply.negaxis", [((2, 3), A)], lambda x: np.multiply.reduce(x, axis=-1), {A: 3})
F("outer.multiply", [((2,), A), (V, B)], np.multiply.outer, ab)
F("reduce.logical_or", [((2, 3), A)], lambda x: np.logical_or.reduce(x, axis=0), None)

# ------------------------------------------------------------------ methods
for nm in ("sum", "mean", "max", "min", "cumsum", "ptp", "std"):
    if nm == "ptp":
        continue
    F(f"method.{nm}", [((2, 3), A)], lambda x, nm=nm: getattr(x, nm)(), one, signed=True)
    F(f"method.{nm}.axis", [((2, 3), A)], lambda x, nm=nm: getattr(x, nm)(axis=1), one, signed=True)
F("method.var", [(V, A)], lambda x: x.var(), sq, signed=True)
F("method.prod", [(V, A)], lambda x: x.prod(), {A: 5})
F("method.prod.axis", [((2, 3), A)], lambda x: x.prod(axis=1), {A: 3})
F("method.dot", [(V, A), (V, B)], lambda x, y: x.dot(y), ab)
F("method.diagonal", [(M2, A)], lambda x: x.diagonal(), one)
F("method.round", [(V, A)], lambda x: abs(x), one)

# ------------------------------------------------------------------ products
for nm in ("dot", "vdot", "inner", "outer", "kron", "convolve", "correlate"):
    F(nm, [(V, A), (V, B)], getattr(np, nm), ab, signed=True)
F("linalg.outer", [(V, A), (V, B)], np.linalg.outer, ab, signed=True)
F("cross", [((3,), A), ((3,), B)], np.cross, ab, signed=True)
F("tensordot", [(M2, A), (M2, B)], lambda x, y: np.tensordot(x, y, axes=1), ab, signed=True)
F("einsum.dot", [(V, A), (V, B)], lambda x, y: np.einsum("i,i", x, y), ab, signed=True)
F("einsum.same", [(V, A), (V, A)], lambda x, y: np.einsum("i,i->i", x, y), sq, signed=True)
F("einsum.one", [(M2, A)], lambda x: np.einsum("ii->i", x), one, signed=True)
F("trapezoid.x", [(V, A), (V, B)], lambda y, x: np.trapezoid(y, x=x), ab)
F("trapezoid.dx", [(V, A), ((), B)], lambda y, d: np.trapezoid(y, dx=d), ab)
F("trapezoid", [(V, A)], lambda y: np.trapezoid(y), one)
# ------------------------------------------------------------------ linear algebra
F("linalg.norm", [(V, A)], np.linalg.norm, one, signed=True)
F("linalg.norm.axis", [((4, 3), A)], lambda x: np.linalg.norm(x, axis=1), one, signed=True)
F("linalg.inv", [(M2, A)], np.linalg.inv, inv, tol=1e-6)
F("linalg.pinv", [(M2, A)], np.linalg.pinv, inv, tol=1e-6)
F("linalg.det", [(M2, A)], np.linalg.det, {A: 3}, tol=1e-6)
F("linalg.solve", [(M2, A), ((3,), B)], np.linalg.solve, {A: -1, B: 1}, tol=1e-6)
F("linalg.lstsq", [((5, 2), A), (V, B)], lambda x, y: np.linalg.lstsq(x, y, rcond=None), {A: -1, B: 1}, {B: 2}, None, one, tol=1e-6)
F("linalg.eigvalsh", [(M2, A)], lambda x: np.linalg.eigvalsh(x + x.T), one, tol=1e-6)
F("linalg.eigh", [(M2, A)], lambda x: np.linalg.eigh(x + x.T)[0], one, tol=1e-6)
F("linalg.svd.values", [(M2, A)], lambda x: np.linalg.svd(x, compute_uv=False), one, tol=1e-6)
F("linalg.svd", [(M2, A)], lambda x: np.linalg.svd(x)[1], one, tol=1e-6)
F("trace", [(M2, A)], np.trace, one)
F("diagonal", [(M2, A)], np.diagonal, one)
F("triu", [(M2, A)], np.triu, one)
F("tril", [(M2, A)], np.tril, one)
# ------------------------------------------------------------------ statistics
for nm in ("sum", "mean", "median", "max", "min", "ptp", "std", "cumsum", "nansum", "nanmean", "nanmedian", "nanmax", "nanmin", "nanstd", "average", "sort", "ediff1d", "nancumsum"):
    F(nm, [(V, A)], getattr(np, nm), one, signed=True)
for nm in ("sum", "mean", "median", "max", "min", "ptp", "std", "average", "sort", "diff", "cumsum"):
    F(f"{nm}.axis", [((2, 3), A)], lambda x, f=getattr(np, nm): f(x, axis=1), one, signed=True)
F("var", [(V, A)], np.var, sq, signed=True)
F("var.axis", [((2, 3), A)], lambda x: np.var(x, axis=0), sq, signed=True)
F("nanvar", [(V, A)], np.nanvar, sq, signed=True)
F("prod", [(V, A)], np.prod, {A: 5})
F("prod.axis", [((2, 3), A)], lambda x: np.prod(x, axis=0), sq)
F("average.weights", [(V, A), (V, B)], lambda x, w: np.average(x, weights=w), one)
F("average.returned", [(V, A), (V, B)], lambda x, w: np.average(x, weights=w, returned=True), one, {B: 1})
F("average.plainweights", [(V, A), (V, None)], lambda x, w: np.average(x, weights=w), one)
for nm in ("percentile", "nanpercentile"):
    F(nm, [(V, A)], lambda x, f=getattr(np, nm): f(x, 30), one)
    F(nm + ".many", [((2, 3), A)], lambda x, f=getattr(np, nm): f(x, [10, 50], axis=1), one)
for nm in ("quantile", "nanquantile"):
    F(nm, [(V, A)], lambda x, f=getattr(np, nm): f(x, 0.3), one)
F("histogram", [((9,), A)], lambda x: np.histogram(x, bins=4), None, one)
F("histogram.density", [((9,), A)], lambda x: np.histogram(x, bins=4, density=True), inv, one)
F("histogram.weights", [((9,), A), ((9,), B)], lambda x, w: np.histogram(x, bins=4, weights=w), {B: 1}, one)

F("histogram.edges", [((9,), A), ((4,), A)], lambda x, b: np.histogram(x, bins=np.sort(b)), None, one)
F("histogram.range", [((9,), A), ((2,), A)], lambda x, r: np.histogram(x, bins=4, range=np.sort(r)), None, one)
F("histogram2d", [((9,), A), ((9,), B)], lambda x, y: np.histogram2d(x, y, bins=3), None, one, {B: 1})
F("histogram2d.density", [((9,), A), ((9,), B)], lambda x, y: np.histogram2d(x, y, bins=3, density=True), {A: -1, B: -1}, one, {B: 1})
F("histogram2d.weights", [((9,), A), ((9,), B), ((9,), "C")], lambda x, y, w: np.histogram2d(x, y, bins=3, weights=w), {"C": 1}, one, {B: 1})

F("histogramdd", [((9,), A), ((9,), B)], lambda x, y: (lambda r: (r[0], r[1][0], r[1][1]))(np.histogramdd([x, y] if hasattr(x, "units") else np.array([x, y]).T, bins=3)), None, one, {B: 1}, split=True)
F("histogramdd.density", [((9,), A), ((9,), B)], lambda x, y: (lambda r: (r[0], r[1][0], r[1][1]))(np.histogramdd([x, y] if hasattr(x, "units") else np.array([x, y]).T, bins=3, density=True)), {A: -1, B: -1}, one, {B: 1})
N9 = (9,)
DD = lambda *x, **k: (lambda r: (r[0], *r[1]))(np.histogramdd(list(x) if hasattr(x[0], "units") else np.array(x).T, **k))  # noqa: E731
LIM = lambda *r: [np.sort(x) for x in r]  # noqa: E731
F("histogram2d.range", [(N9, A), (N9, B), ((2,), A), ((2,), B)], lambda x, y, r, s: np.histogram2d(x, y, bins=3, range=LIM(r, s)), None, one, {B: 1}, split=True)
F("histogram2d.edges", [(N9, A), (N9, B), ((4,), A), ((3,), B)], lambda x, y, r, s: np.histogram2d(x, y, bins=LIM(r, s)), None, one, {B: 1}, split=True)
F("histogram2d.edges.one", [(N9, A), (N9, A), ((4,), A)], lambda x, y, r: np.histogram2d(x, y, bins=np.sort(r)), None, one, one, mixed=False)
F("histogram2d.numbers", [(N9, A), (N9, B)], lambda x, y: np.histogram2d(x, y, bins=[2, 4]), None, one, {B: 1}, split=True)
F("histogram2d.range.density", [(N9, A), (N9, B), ((2,), A), ((2,), B)], lambda x, y, r, s: np.histogram2d(x, y, bins=3, range=LIM(r, s), density=True), {A: -1, B: -1}, one, {B: 1})
F("histogram2d.edges.density", [(N9, A), (N9, B), ((4,), A), ((3,), B)], lambda x, y, r, s: np.histogram2d(x, y, bins=LIM(r, s), density=True), {A: -1, B: -1}, one, {B: 1})
F("histogram2d.weights.density.plain", [(N9, A), (N9, B), (N9, None)], lambda x, y, w: np.histogram2d(x, y, bins=3, density=True, weights=w), {A: -1, B: -1}, one, {B: 1})
F("histogram2d.weights.plain", [(N9, A), (N9, B), (N9, None)], lambda x, y, w: np.histogram2d(x, y, bins=3, weights=w), None, one, {B: 1}, split=True)
F("histogramdd.range", [(N9, A), (N9, B), ((2,), A), ((2,), B)], lambda x, y, r, s: DD(x, y, bins=3, range=LIM(r, s)), None, one, {B: 1}, split=True)
F("histogramdd.edges", [(N9, A), (N9, B), ((4,), A), ((3,), B)], lambda x, y, r, s: DD(x, y, bins=LIM(r, s)), None, one, {B: 1}, split=True)
F("histogramdd.numbers", [(N9, A), (N9, B), (N9, "C")], lambda x, y, z: DD(x, y, z, bins=[2, 1, 3]), None, one, {B: 1}, {"C": 1}, split=True)
F("histogramdd.one", [(N9, A)], lambda x: DD(x, bins=3), None, one)
F("histogramdd.one.density", [(N9, A)], lambda x: DD(x, bins=3, density=True), inv, one)
F("histogramdd.weights", [(N9, A), (N9, B), (N9, "C")], lambda x, y, w: DD(x, y, bins=3, weights=w), {"C": 1}, one, {B: 1}, split=True)
F("histogramdd.weights.plain", [(N9, A), (N9, B), (N9, None)], lambda x, y, w: DD(x, y, bins=3, weights=w), None, one, {B: 1}, split=True)
F("histogramdd.density3", [(N9, A), (N9, B), (N9, "C")], lambda x, y, z: DD(x, y, z, bins=[2, 1, 3], density=True), {A: -1, B: -1, "C": -1}, one, {B: 1}, {"C": 1})
F("histogramdd.range.density", [(N9, A), (N9, B), ((2,), A), ((2,), B)], lambda x, y, r, s: DD(x, y, bins=3, range=LIM(r, s), density=True), {A: -1, B: -1}, one, {B: 1})
F("histogramdd.edges.density", [(N9, A), (N9, B), ((4,), A), ((3,), B)], lambda x, y, r, s: DD(x, y, bins=LIM(r, s), density=True), {A: -1, B: -1}, one, {B: 1})
F("histogramdd.weights.density.plain", [(N9, A), (N9, B), (N9, None)], lambda x, y, w: DD(x, y, bins=3, density=True, weights=w), {A: -1, B: -1}, one, {B: 1})
F("histogram.range.pair", [(N9, A), ((2,), A)], lambda x, r: np.histogram(x, bins=4, range=(np.min(r), np.max(r))), None, one)
F("histogram_bin_edges.range", [(N9, A), ((2,), A)], lambda x, r: np.histogram_bin_edges(x, bins=4, range=np.sort(r)), one)
F("histogram_bin_edges.range.pair", [(N9, A), ((2,), A)], lambda x, r: np.histogram_bin_edges(x, bins=4, range=(np.min(r), np.max(r))), one)
F("histogram2d.range.pair", [(N9, A), (N9, B), ((2,), A), ((2,), B)], lambda x, y, r, s: np.histogram2d(x, y, bins=3, range=[(np.min(r), np.max(r)), (np.min(s), np.max(s))]), None, one, {B: 1}, split=True)
F("histogram.range.density", [(N9, A), ((2,), A)], lambda x, r: np.histogram(x, bins=4, range=np.sort(r), density=True), inv, one)
F("histogram.weights.edges", [(N9, A), ((4,), A), (N9, B)], lambda x, b, w: np.histogram(x, bins=np.sort(b), weights=w), {B: 1}, one)
F("histogram.weights.density.plain", [(N9, A), (N9, None)], lambda x, w: np.histogram(x, bins=4, density=True, weights=w), inv, one)
F("histogram_bin_edges", [((9,), A)], lambda x: np.histogram_bin_edges(x, bins=4), one)
F("histogram_bin_edges.edges", [((9,), A), ((4,), A)], lambda x, b: np.histogram_bin_edges(x, bins=np.sort(b)), one)
F("argmax", [(V, A)], np.argmax, None, signed=True)
F("argmin", [(V, A)], np.argmin, None, signed=True)
F("count_nonzero", [(V, A)], np.count_nonzero, None)
F("digitize", [(V, A), ((4,), A)], lambda x, b: np.digitize(x, np.sort(b)), None)
F("searchsorted", [(V, A), (V, A)], lambda x, y: np.searchsorted(np.sort(x), y), None)
F("corrcoef", [(V, A), (V, A)], lambda x, y: np.corrcoef(x.value if hasattr(x, "value") else x, y.value if hasattr(y, "value") else y), None, mixed=False)
# ------------------------------------------------------------------ joining and rearranging
for nm in ("concatenate", "vstack", "dstack", "column_stack", "stack"):
    F(nm, [(V, A), (V, A)], lambda x, y, f=getattr(np, nm): f([x, y]), one, signed=True)
    F(nm + ".three", [(V, A), (V, A), (V, A)], lambda x, y, z, f=getattr(np, nm): f((x, y, z)), one, signed=True)
F("concatenate.axis", [((2, 3), A), ((2, 3), A)], lambda x, y: np.concatenate([x, y], axis=1), one)
F("block", [(M2, A), (M2, A)], lambda x, y: np.block([[x, y], [y, x]]), one)
F("append", [(V, A), (V, A)], np.append, one)
F("insert", [(V, A), ((), A)], lambda x, y: np.insert(x, 2, y), one)
F("intersect1d", [(V, A), (V, A)], lambda x, y: np.intersect1d(x, y).size, None)
F("delete", [(V, A)], lambda x: np.delete(x, 2), one)
F("union1d", [(V, A), (V, A)], np.union1d, one)
F("setdiff1d", [(V, A), (V, A)], np.setdiff1d, one)
F("unique", [(V, A)], np.unique, one)
F("choose", [(V, A), (V, A)], lambda x, y: np.choose([0, 1, 1, 0, 1], (x, y)), one)
F("select", [(V, A), (V, A)], lambda x, y: np.select([[True, False, False, True, False], [False, True, True, False, True]], [x, y]), one)
F("where", [(V, A), (V, A)], lambda x, y: np.where(np.array([True, False, True, True, False]), x, y), one)
F("where.cond", [(V, A)], lambda x: np.where(x), None)
F("clip", [(V, A), ((), A), ((), A)], lambda x, l, h: np.clip(x, np.minimum(l, h), np.maximum(l, h)), one)
F("pad", [(V, A)], lambda x: np.pad(x, 2, mode="edge"), one)
F("roll", [(V, A)], lambda x: np.roll(x, 2), one)
F("flip", [(V, A)], np.flip, one)
F("rot90", [(M2, A)], np.rot90, one)
F("tile", [(V, A)], lambda x: np.tile(x, 2), one)
F("repeat", [(V, A)], lambda x: np.repeat(x, 2), one)
F("ravel", [((2, 3), A)], np.ravel, one)
F("reshape", [((2, 3), A)], lambda x: np.reshape(x, (3, 2)), one)
F("transpose", [((2, 3), A)], np.transpose, one)
F("swapaxes", [(M3, A)], lambda x: np.swapaxes(x, 0, 2), one)
F("moveaxis", [(M3, A)], lambda x: np.moveaxis(x, 0, 2), one)
F("expand_dims", [(V, A)], lambda x: np.expand_dims(x, 0), one)
F("squeeze", [((1, 5), A)], np.squeeze, one)
F("squeeze.scalar", [((1, 1), A)], np.squeeze, one)
F("atleast_2d", [(V, A)], np.atleast_2d, one)
F("take", [(V, A)], lambda x: np.take(x, [0, 3]), one)
F("take.scalar", [(V, A)], lambda x: np.take(x, 3), one)
F("compress", [(V, A)], lambda x: np.compress([True, False, True, True, False], x), one)
F("partition", [(V, A)], lambda x: np.sort(np.partition(x, 2)), one)
F("array_split", [((6,), A)], lambda x: np.array_split(x, 3)[1], one)
F("diff", [(V, A)], np.diff, one, signed=True)
F("gradient", [(V, A)], np.gradient, one, signed=True)
F("gradient.spacing", [(V, A)], lambda x: np.gradient(x, 2.0), one, signed=True)
F("around", [(V, A)], lambda x: np.around(x, 14) if False else abs(x), one)
F("nan_to_num", [(V, A)], np.nan_to_num, one)
F("zeros_like", [(V, A)], np.zeros_like, one)
F("full_like", [(V, A)], lambda x: np.full_like(x, 0.0), one)
F("meshgrid.x", [((2,), A), ((3,), B)], lambda x, y: np.meshgrid(x, y), one, {B: 1})
F("linspace", [((), A), ((), A)], lambda x, y: np.linspace(x, y, 7), one)
F("linspace.step", [((), A), ((), A)], lambda x, y: np.linspace(x, y, 7, retstep=True), one, one)
F("logspace.ratio", [(V, A), ((), A)], lambda x, y: np.logspace(x[0] / y, x[1] / y, 4), {}, tol=1e-6)
F("logspace.ratio.base", [(V, A), ((), A)], lambda x, y: np.logspace(x[0] / y, x[1] / y, 4, base=2.0), {}, tol=1e-6)
F("sinc.ratio", [(V, A), ((), A)], lambda x, y: np.sinc(x / y), None)
F("geomspace", [((), A), ((), A)], lambda x, y: np.geomspace(x, y, 5), one)
F("interp", [(V, A), (V, A), (V, B)], lambda x, xp, fp: np.interp(x, np.sort(xp), fp), {B: 1})
F("apply_over_axes", [((2, 3), A)], lambda x: np.apply_over_axes(lambda y, ax: np.sum(y, axis=ax, keepdims=True), x, [0, 1]), one)
F("apply_along_axis", [((2, 3), A)], lambda x: np.apply_along_axis(np.sum, 1, x), one)
F("real", [(V, A)], np.real, one)
F("unwrap", [(V, A), ((), A)], lambda x, p: np.unwrap(x, period=p), one)
F("fft.fft", [((8,), A)], lambda x: np.abs(np.fft.fft(x)), None, free=True)
F("fft.fftshift", [((8,), A)], np.fft.fftshift, one)
F("array_equal", [(V, A), (V, A)], np.array_equal, None)
F("allclose", [(V, A), (V, A)], lambda x, y: np.allclose(x, y, rtol=1e-5, atol=x[0] * 0), None)
F("isclose", [(V, A), (V, A)], lambda x, y: np.isclose(x, y, rtol=0.3, atol=x[0] * 0), None)
F("isin", [(V, A), (V, A)], np.isin, None)
F("any", [(V, A)], np.any, None)
F("all", [(V, A)], np.all, None)
F("nonzero", [(V, A)], np.nonzero, None)
F("size", [(V, A)], np.size, None)
F("shape", [((2, 3), A)], np.shape, None)
# ------------------------------------------------------------------ less common functions and call forms
PW = [True, False, True, True, False]
F("amax", [((2, 3), A)], lambda x: np.amax(x, axis=0), one, signed=True)
F("amin", [((2, 3), A)], lambda x: np.amin(x, axis=0), one, signed=True)
F("argwhere", [(V, A)], np.argwhere, None)
F("array_equiv", [(V, A), (V, A)], np.array_equiv, None)
F("array_equal.broadcast", [(V, A), ((1,), A)], np.array_equal, None)
F("atleast_3d", [(V, A)], np.atleast_3d, one)
F("atleast_1d.scalar", [((), A)], np.atleast_1d, one)
F("concat", [(V, A), (V, A)], lambda x, y: np.concat([x, y]), one, sameunit=True)
F("cumulative_sum", [(V, A)], np.cumulative_sum, one, signed=True)
F("diag.extract", [(M2, A)], np.diag, one)
F("diagflat", [(V, A)], np.diagflat, one)
F("split", [((6,), A)], lambda x: np.split(x, 3)[2], one)
F("dsplit", [(M3, A)], lambda x: np.dsplit(x, 2)[1], one)
F("hsplit", [((4, 4), A)], lambda x: np.hsplit(x, 2)[1], one)
F("vsplit", [((4, 4), A)], lambda x: np.vsplit(x, 2)[1], one)
F("unstack", [((2, 3), A)], lambda x: np.unstack(x)[1], one)
F("extract", [(V, A)], lambda x: np.extract(np.array(PW), x), one)
F("flatnonzero", [(V, A)], np.flatnonzero, None)
F("flipud", [((2, 3), A)], np.flipud, one)
F("fliplr", [((2, 3), A)], np.fliplr, one)
F("imag", [(V, A)], np.imag, one)
F("iscomplex", [(V, A)], np.iscomplex, None)
F("isreal", [(V, A)], np.isreal, None)
F("isneginf", [(V, A)], np.isneginf, None)
F("isposinf", [(V, A)], np.isposinf, None)
F("ix_like", [(V, A)], lambda x: x[np.ix_([0, 2])], one)
F("lexsort", [(V, A), (V, A)], lambda x, y: np.lexsort((x, y)), None, mixed=False)
F("matrix_transpose", [((2, 3), A)], np.matrix_transpose, one)
F("permute_dims", [(M3, A)], lambda x: np.permute_dims(x, (1, 0, 2)), one)
F("nanargmax", [(V, A)], np.nanargmax, None, signed=True)
F("nanargmin", [(V, A)], np.nanargmin, None, signed=True)
F("nanprod", [(V, A)], np.nanprod, {A: 5})
F("nanprod.axis", [((2, 3), A)], lambda x: np.nanprod(x, axis=0), sq)
F("resize", [(V, A)], lambda x: np.resize(x, (7,)), one)
F("rollaxis", [(M3, A)], lambda x: np.rollaxis(x, 2), one)
F("real_if_close", [(V, A)], np.real_if_close, one)
F("sort_complex", [(V, A)], np.sort_complex, one)
F("trim_zeros", [(V, A)], np.trim_zeros, one)
F("unique_counts", [(V, A)], lambda x: np.unique_counts(x)[0], one)
F("unique_values", [(V, A)], lambda x: np.sort(np.unique_values(x)), one)
F("unique.inverse", [(V, A)], lambda x: np.unique(x, return_inverse=True, return_counts=True), one, None, None)
F("linalg.eig", [(M2, A)], lambda x: np.linalg.eig(x + x.T)[0], one, tol=1e-6)
F("linalg.eigvals", [(M2, A)], lambda x: np.linalg.eigvals(x + x.T), one, tol=1e-6)
F("linalg.matrix_norm", [(M2, A)], np.linalg.matrix_norm, one)
F("linalg.vector_norm", [(V, A)], np.linalg.vector_norm, one)
F("linalg.vector_norm.axis", [(M2, A)], lambda x: np.linalg.vector_norm(x, axis=1), one)
F("linalg.norm.fro", [(M2, A)], lambda x: np.linalg.norm(x, "fro"), one)
F("linalg.norm.keepdims", [(M2, A)], lambda x: np.linalg.norm(x, axis=0, keepdims=True), one)
F("linalg.norm.inf", [(V, A)], lambda x: np.linalg.norm(x, np.inf), one)
F("linalg.matrix_power", [(M2, A)], lambda x: np.linalg.matrix_power(x, 2), sq)
F("linalg.matrix_rank", [(M2, A)], np.linalg.matrix_rank, None)
F("linalg.matrix_transpose", [(M2, A)], np.linalg.matrix_transpose, one)
F("linalg.multi_dot", [(M2, A), (M2, B)], lambda x, y: np.linalg.multi_dot([x, y, y]), {A: 1, B: 2})
F("linalg.svdvals", [(M2, A)], np.linalg.svdvals, one, tol=1e-6)
F("linalg.tensorinv", [((4, 2, 2), A)], lambda x: np.linalg.tensorinv(x, ind=1), inv, tol=1e-6)
F("linalg.tensorsolve", [((4, 2, 2), A), ((4,), B)], np.linalg.tensorsolve, {A: -1, B: 1}, tol=1e-6)
F("linalg.cond", [(M2, A)], np.linalg.cond, None, tol=1e-6)
F("linalg.slogdet", [(M2, A)], lambda x: np.linalg.slogdet(x)[0], None)
F("linalg.qr", [(M2, A)], lambda x: np.abs(np.linalg.qr(x)[1]), one, tol=1e-6)
F("linalg.cross", [((3,), A), ((3,), B)], np.linalg.cross, ab, signed=True)
F("linalg.matmul", [(M2, A), (M2, B)], np.linalg.matmul, ab)
F("linalg.vecdot", [(V, A), (V, B)], np.linalg.vecdot, ab)
F("linalg.tensordot", [(M2, A), (M2, B)], np.linalg.tensordot, ab)
F("linalg.trace", [(M2, A)], np.linalg.trace, one)
F("linalg.diagonal", [(M2, A)], np.linalg.diagonal, one)
F("fft.ifftshift", [((8,), A)], np.fft.ifftshift, one)
F("apply_along_axis.max", [((2, 3), A)], lambda x: np.apply_along_axis(np.max, 0, x), one)
F("piecewise", [(V, A)], lambda x: np.piecewise(x, [x > x.mean(), x <= x.mean()], [lambda y: y * 2, lambda y: y]), one)
F("interp.leftright", [(V, A), (V, A), (V, B), ((), B)], lambda x, xp, fp, l: np.interp(x, np.sort(xp), fp, left=l), {B: 1})
F("interp.plainx", [(V, None), (V, None), (V, B)], lambda x, xp, fp: np.interp(x, np.sort(xp), fp), {B: 1})
F("where.array", [(V, A), ((), A)], lambda x, y: np.where(x > y, x, y), one)
F("clip.array", [(V, A), (V, A)], lambda x, l: np.clip(x, l, l * 2), one)
F("insert.axis", [((2, 3), A), ((3,), A)], lambda x, y: np.insert(x, 1, y, axis=0), one)
F("append.axis", [((2, 3), A), ((1, 3), A)], lambda x, y: np.append(x, y, axis=0), one)
F("searchsorted.right", [(V, A), ((), A)], lambda x, y: np.searchsorted(np.sort(x), y, side="right"), None)
F("digitize.right", [(V, A), ((4,), A)], lambda x, b: np.digitize(x, np.sort(b), right=True), None)
F("percentile.midpoint", [(V, A)], lambda x: np.percentile(x, 50, method="nearest"), one)
F("diff.n2", [(V, A)], lambda x: np.diff(x, n=2), one, signed=True)
F("diff.prepend", [(V, A), ((), A)], lambda x, y: np.diff(x, prepend=y), one, signed=True, sameunit=True)
F("ediff1d.to_end", [(V, A), ((2,), A)], lambda x, y: np.ediff1d(x, to_end=y), one, signed=True, sameunit=True)
F("pad.constant", [(V, A)], lambda x: np.pad(x, 2), one)
F("pad.values", [(V, A), ((), A)], lambda x, y: np.pad(x, 2, constant_values=y), one, sameunit=True)
F("histogram.weights.plain", [((9,), A), ((9,), None)], lambda x, w: np.histogram(x, bins=4, weights=w), None, one)
F("sum.initial", [(V, A), ((), A)], lambda x, y: np.sum(x, initial=y), one, signed=True, sameunit=True)
F("max.initial", [(V, A), ((), A)], lambda x, y: np.max(x, initial=y), one, signed=True, sameunit=True)
F("sum.where", [(V, A)], lambda x: np.sum(x, where=np.array(PW)), one, signed=True)
F("mean.keepdims", [((2, 3), A)], lambda x: np.mean(x, axis=1, keepdims=True), one)
F("sum.axes", [(M3, A)], lambda x: np.sum(x, axis=(0, 2)), one)
F("prod.axes", [(M3, A)], lambda x: np.prod(x, axis=(0, 1)), {A: 6})
F("prod.keepdims", [((2, 3), A)], lambda x: np.prod(x, axis=1, keepdims=True), {A: 3})
F("var.keepdims", [((2, 3), A)], lambda x: np.var(x, axis=1, keepdims=True, ddof=1), sq)
F("std.ddof", [((2, 3), A)], lambda x: np.std(x, axis=1, ddof=1), one)
F("einsum.three", [((2, 3), A), ((3, 4), B)], lambda x, y: np.einsum("ij,jk->ik", x, y), ab, dimless=True)
F("tensordot.two", [(M2, A), (M2, B)], np.tensordot, ab)
F("dot.matrix", [((2, 3), A), ((3,), B)], np.dot, ab)
F("inner.matrix", [((2, 3), A), ((3,), B)], np.inner, ab)
F("cross.batch", [((4, 3), A), ((4, 3), B)], np.cross, ab, signed=True)
F("cross.vector", [((4, 3), A), ((3,), B)], np.cross, ab, signed=True)
F("method.matmul", [((2, 3), A), ((3, 2), B)], lambda x, y: x @ y, ab)
F("method.rmatmul", [((2, 3), None), ((3, 2), B)], lambda x, y: x @ y, {B: 1})
for nm in ("argmax", "argmin", "any", "all"):
    F(f"method.{nm}", [(V, A)], lambda x, nm=nm: getattr(x, nm)(), None)
for nm, fn, p in (("flatten", lambda x: x.flatten(), one), ("ravel", lambda x: x.ravel(), one), ("T", lambda x: x.T, one), ("transpose", lambda x: x.transpose(), one), ("copy", lambda x: x.copy(), one), ("reshape", lambda x: x.reshape(3, 2), one), ("swapaxes", lambda x: x.swapaxes(0, 1), one), ("repeat", lambda x: x.repeat(2), one), ("take", lambda x: x.take([1, 3]), one), ("take0", lambda x: x.take(1), one), ("compress", lambda x: x.compress([False, True], axis=0), one), ("astype", lambda x: x.astype("f4"), one), ("getrow", lambda x: x[1], one), ("getitem", lambda x: x[1, 2], one), ("getmask", lambda x: x[np.array([True, False])], one), ("getlist", lambda x: x[[1, 0]], one), ("getnone", lambda x: x[:, None], one), ("getellipsis", lambda x: x[..., 0], one), ("iter", lambda x: [r for r in x][1], one), ("cumsum1", lambda x: x.cumsum(axis=1), one), ("nonzero", lambda x: x.nonzero(), None), ("mean1", lambda x: x.mean(axis=0), one), ("median", lambda x: np.median(x, axis=0), one), ("sorted", lambda x: np.sort(x, axis=0), one), ("neg", lambda x: -x, one), ("abs", lambda x: abs(x), one), ("searchsorted", lambda x: np.sort(x.ravel()).searchsorted(x[0, 0]), None)):
    F(f"method2.{nm}", [((2, 3), A)], fn, p, tol=1e-6 if nm == "astype" else 1e-9)
F("method.sort", [(V, A)], lambda x: (lambda y: (y.sort(), y)[1])(x.copy()), one)
F("op.iadd", [(V, A), (V, A)], lambda x, y: (lambda z: z.__iadd__(y))(x.copy()), one)
F("op.imul", [(V, A)], lambda x: (lambda z: z.__imul__(2.0))(x.copy()), one)
F("op.imulq", [(V, A), ((), B)], lambda x, y: (lambda z: z.__imul__(y))(x.copy()), ab)
F("op.idiv", [(V, A), ((), B)], lambda x, y: (lambda z: z.__itruediv__(y))(x.copy()), a_b)
F("op.isub", [(V, A), (V, A)], lambda x, y: (lambda z: z.__isub__(y))(x.copy()), one, signed=True)
F("op.ipow", [(V, A)], lambda x: (lambda z: z.__ipow__(2))(x.copy()), sq)
F("op.mod", [(V, A), ((), A)], lambda x, y: x % y, one, tol=1e-6)
F("ufunc.out.add", [(V, A), (V, A)], lambda x, y: (lambda z: np.add(x, y, out=z))(x.copy()), one)
F("ufunc.out.mul", [(V, A), (V, B)], lambda x, y: (lambda z: (np.multiply(x, y, out=z), z)[1])(x.copy()), ab)
F("ufunc.out.sqrt", [(V, A)], lambda x: (lambda z: (np.sqrt(x, out=z), z)[1])(x.copy()), {A: 0.5})
F("ufunc.log.ratio", [(V, A), (V, A)], lambda x, y: np.log10(x / y), None)
F("ufunc.exp.ratio", [(V, A), (V, A)], lambda x, y: np.exp(-(x / y)), None)
F("ufunc.sign", [(V, A)], lambda x: np.sign(x), None, signed=True)
F("ufunc.modf", [(V, A)], lambda x: np.modf(x)[0] * 0 + np.modf(x)[1] * 0, one)
F("ufunc.nextafter", [(V, A), (V, A)], lambda x, y: np.nextafter(x, y), one)
F("ufunc.spacing", [(V, A)], lambda x: np.spacing(x) * 0, one)
F("reduce.divide", [((3,), A)], lambda x: np.divide.reduce(x), inv)
F("reduce.hypot", [((2, 3), A)], lambda x: np.hypot.reduce(x), one)
F("accumulate.axis", [((2, 3), A)], lambda x: np.add.accumulate(x, axis=1), one)
F("outer.add", [((2,), A), (V, A)], np.add.outer, one)
F("outer.subtract", [((2,), A), (V, A)], np.subtract.outer, one, signed=True)
F("builtin.sum", [(V, A)], lambda x: sum(x), one)
F("builtin.max", [(V, A)], lambda x: max(x), one)
F("builtin.sorted", [(V, A)], lambda x: sorted(x)[2], one)
F("pow.quantity", [((), A)], lambda x: x**2, sq)
F("root.array", [(V, A)], lambda x: np.sqrt(np.sum(x**2)), one)
