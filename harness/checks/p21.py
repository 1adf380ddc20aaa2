"""P21: projected images are the sum of the particles' kernels, for every backend."""
import numpy as np
from hypothesis import strategies as st

from swiftsimio.visualisation.projection_backends import backends, backends_parallel

from .. import vis
from .. import core
from ..core import SubCheck, Skip

RULE = "a kernel wider than a pixel crosses the edge of the image or the box, or several particles share a pixel"
ASSUMPTIONS = ["kernels are not wider than the periodic box (the backends tile the box once around the image)",
               "the reference backend is given kernels wider than two pixels, which it asks for",
               "the gpu backend needs a CUDA device and is not run"]
NUMBA_THREADS = 2
QUICK_BUDGET = 50


def floats(a, b):
    return st.floats(a, b, allow_nan=False, allow_subnormal=False)


def coordinate():
    return st.one_of(floats(-0.02, 0.9999), st.integers(0, 16).map(lambda k: k / 16), st.integers(0, 24).map(lambda k: k / 24 + 1e-4), st.sampled_from([0.0, 0.999999, 0.5]))


def case_(names, parallel, f4):
    part = st.tuples(coordinate(), coordinate(), st.one_of(floats(0.1, 10), st.sampled_from([1.0, 1.0, 0.0, -2.0])), st.one_of(floats(-1.7, 1.0).map(lambda e: 10**e), st.sampled_from([0.2, 0.26, 0.9, 1.9, 1.99, 2.95])))
    return st.fixed_dictionaries({
        "backend": st.sampled_from(names), "parallel": st.just(parallel), "res": st.one_of(st.integers(1, 9), st.sampled_from([16, 24])),
        "boxes": st.sampled_from([[0.0, 0.0], [0.0, 0.0], [1.0, 1.0], [1.0, 1.0], [2.0, 2.0], [0.5, 1.0], [1.0, 0.7], [5.3, 5.3], [0.37, 0.37], [1.5, 1.0]]),
        "parts": st.lists(part, max_size=7), "f4": st.just(f4)})


def prepare(case, dim=2, G=vis.G2, pos=None):
    res, boxes = case["res"], case["boxes"]
    n = len(case["parts"])
    X = np.zeros((n, dim))
    h = np.zeros(n)
    m = np.zeros(n)
    for i, p in enumerate(case["parts"]):
        for k in range(dim):
            b = boxes[k]
            v = p[k]
            # particles of a periodic box lie in it, others anywhere around the image
            X[i, k] = (v * b if v >= 0 else 0.0) if b else v * 1.4 - 0.2
        m[i] = p[dim]
        H = p[dim + 1] / res
        H = min([H] + [0.999 * b for b in boxes if b])
        h[i] = np.float32(H / G)
    m = np.float32(m) if case["f4"] else m
    return X, m, h.astype(np.float32) if case["f4"] else h


def ambiguous(X, boxes, res, h, G, edges=(1.0,)):
    for x in X:
        if vis.near_edge(vis.places(x, boxes), res):
            return True
    Hr = G * np.asarray(h, float) * res
    return any(np.any(np.abs(Hr - e) < 1e-4) for e in edges)


def run(case, ctx):
    res, (bx, by), name = case["res"], case["boxes"], case["backend"]
    X, m, h = prepare(case)
    if name == "reference":
        Hr = np.maximum(vis.G2 * h * res, 2.01)
        if any(b and np.any(Hr / res > 0.999 * b) for b in (bx, by)):
            raise Skip
        h = (Hr / res / vis.G2).astype(h.dtype)
    if ambiguous(X, (bx, by), res, h, vis.G2, (1.0, 2.0, 0.25)):
        raise Skip
    keep = [a.copy() for a in (X, m, h)]
    f = (backends_parallel if case["parallel"] else backends)[name]
    x, y = X[:, 0].copy(), X[:, 1].copy()
    got = f(x=x, y=y, m=m, h=h, res=res, box_x=bx, box_y=by)
    ctx.check(np.array_equal(x, keep[0][:, 0]) and np.array_equal(y, keep[0][:, 1]) and np.array_equal(m, keep[1]) and np.array_equal(h, keep[2]), "the backend changed its input arrays")
    want, tol = vis.project(X[:, 0], X[:, 1], m.astype(float), h.astype(float), res, bx, by, name)
    ctx.check(got.shape == (res, res), f"image of shape {got.shape}")
    Hr = vis.G2 * h * res
    if len(X) == 0 or (np.all(Hr < 0.2)):
        ctx.trivial()
    ctx.label(name, "parallel" if case["parallel"] else "serial", "periodic" if bx else "open")
    if name.startswith("sub"):
        atol = 0.02 * tol
    else:
        atol = 4e-5 * tol
    d = np.abs(np.asarray(got, float) - want)
    i = np.unravel_index(np.argmax(d), d.shape) if d.size else None
    ctx.check(d.size == 0 or d[i] <= atol + 1e-30, f"{name}: pixel {i} is {got[i]!r}, the kernels sum to {want[i]!r} (tolerance {atol:g})")


SERIAL = ["fast", "renormalised", "histogram", "reference"]
SUB = ["subsampled", "subsampled_extreme"]


def strategies(names, parallel):
    k = core.SHARD
    if parallel:  # compiling a parallel backend takes seconds: each worker drives one
        names = [(SERIAL + SUB + ["fast", "subsampled"])[k % 8]]
    return case_(names, parallel, bool(k % 2))


CHECKS = [SubCheck("kernels", lambda: strategies(SERIAL[:1] * 2 + SERIAL, False), run, quick=12000, thorough=300000, weight=3, rule="pixel values against a direct double-precision sum"),
          SubCheck("subsampled", lambda: strategies(SUB, False), run, quick=4000, thorough=100000, weight=3, rule="pixel values against the integral of the kernel over the pixel"),
          SubCheck("parallel", lambda: strategies(None, True), run, quick=3000, thorough=60000, weight=3, rule="the parallel backends against the same sums")]
