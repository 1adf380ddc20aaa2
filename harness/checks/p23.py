"""P23: slices evaluate the particles' three-dimensional kernels (or nearest particle) on a plane."""
import numpy as np
import unyt as u
from hypothesis import strategies as st

from swiftsimio import cosmo_quantity
from swiftsimio.visualisation.slice import slice_gas, slice_pixel_grid
from swiftsimio.visualisation.slice_backends import backends, backends_parallel

from .. import core, vis
from .. import visfile as vf
from ..core import Skip, SubCheck
from . import p21, p22

RULE = "some particle contributes to the slice"
ASSUMPTIONS = ["kernels are not wider than the periodic box", "nearest-neighbour slices have at least one particle, of non-zero volume", "a plane at the edge of a kernel's support carries nothing"]
NUMBA_THREADS = 2
QUICK_BUDGET = 50


def backend_case(parallel):
    part = st.tuples(p21.coordinate(), p21.coordinate(), p21.coordinate(), st.one_of(p21.floats(0.1, 10), st.sampled_from([1.0, 0.0, -2.0])), st.one_of(p21.floats(-1.0, 1.0).map(lambda e: 10**e), st.sampled_from([0.4, 0.9, 2.95])))
    return st.fixed_dictionaries({
        "backend": st.sampled_from(["sph", "nearest_neighbours"]), "parallel": st.just(parallel), "xres": st.one_of(st.integers(1, 9), st.sampled_from([16])), "yres": st.integers(1, 12),
        "boxes": st.sampled_from([[0.0] * 3, [0.0] * 3, [1.0] * 3, [1.0] * 3, [2.0] * 3, [0.5, 1.0, 0.75], [1.0, 0.7, 1.3], [5.3] * 3, [0.37] * 3, [1.5, 1.0, 1.0]]),
        "parts": st.lists(part, min_size=0, max_size=7), "z": st.one_of(p21.floats(0, 0.999), st.integers(0, 6)), "dz": p21.floats(-1, 1), "f4": st.just(bool(core.SHARD % 2))})


def plane(case, z, h, lo, hi, G=vis.G3):
    """A plane anywhere, or close to one of the particles."""
    k = case["z"]
    if isinstance(k, int) and len(z):
        i = k % len(z)
        v = z[i] + case["dz"] * float(h[i]) * G
        return float(np.clip(v, lo, hi - 1e-9))
    return lo + (hi - lo) * (k if isinstance(k, float) else k / 7)


def clear(zs, z, h, boxz, G=vis.G3):
    for zi, hi in zip(z, h):
        for p in vis.places((zi,), (boxz,)):
            if abs(abs(p[0] - zs) - float(hi) * G) < 1e-7:
                raise Skip


def run_backend(case, ctx):
    boxes, name = case["boxes"], case["backend"]
    xres, yres = case["xres"], case["yres"]
    res = max(xres, yres)
    X, m, h = p21.prepare(dict(case, res=res), 3, vis.G3)
    n = len(X)
    if name == "nearest_neighbours" and n == 0:
        raise Skip
    zs = plane(case, X[:, 2], h, *((0.0, boxes[2]) if boxes[2] else (-0.3, 1.3)))
    clear(zs, X[:, 2], h, boxes[2])
    x, y, z = (X[:, k].copy() for k in range(3))
    keep = [v.copy() for v in (x, y, z, m, h)]
    f = (backends_parallel if case["parallel"] else backends)[name]
    got = np.asarray(f(x=x, y=y, z=z, m=m, h=h, z_slice=zs, xres=xres, yres=yres, box_x=boxes[0], box_y=boxes[1], box_z=boxes[2]), float)
    for v, k in zip((x, y, z, m, h), keep):
        ctx.check(name != "sph" or np.array_equal(v, k), "the backend changed its input arrays")
    ctx.check(got.shape == (xres, yres), f"slice of shape {got.shape} for {xres} x {yres} pixels")
    ctx.label(name, "parallel" if case["parallel"] else "serial", "periodic" if boxes[0] else "open")
    m, h = m.astype(float), h.astype(float)
    if name == "sph":
        want, tol = vis.slice_(x, y, z, m, h, zs, xres, yres, *boxes)
        if not want.any():
            ctx.trivial()
        compare(ctx, got, want, 4e-5 * tol)
    else:
        nn(ctx, got, vis.nearest(x, y, z, zs, xres, yres, boxes), m / h**3)


def compare(ctx, got, want, atol):
    d = np.abs(got - want)
    i = np.unravel_index(np.argmax(d), d.shape)
    ctx.check(d[i] <= atol + 1e-30, f"pixel {i} is {got[i]!r}, the kernels sum to {want[i]!r} (tolerance {atol:g})")


def nn(ctx, got, dist, values):
    ok = dist <= dist.min(axis=2, keepdims=True) + 1e-9
    close = np.abs(got[:, :, None] - values) <= 3e-6 * np.abs(values)
    bad = ~np.any(ok & close, axis=2)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.fail(f"pixel {i} is {got[i]!r}, the nearest particles give {values[ok[i]]!r}")


def api_case(parallel):
    return st.fixed_dictionaries({**p22.common(), "backend": st.sampled_from(["sph", "sph", "nearest_neighbours"]), "parallel": st.just(parallel), "f4": st.just(bool(core.SHARD % 2)),
                                  "volumes": st.booleans(), "z": st.one_of(st.none(), p21.floats(0, 0.999), st.integers(0, 6), st.integers(0, 6), st.integers(0, 6)), "dz": p21.floats(-1, 1)})


def run_api(case, ctx):
    name, res = case["backend"], case["res"]
    fc = dict(case["file"], volumes=case["volumes"])
    if name == "nearest_neighbours":
        fc["parts"] = [(*p[:3], p[3] or 1.0, p[4]) for p in fc["parts"]]
    s = p22.Setup(dict(case, file=fc), ctx)
    m = s.m
    k = s.keep
    if name == "nearest_neighbours" and not k.any():
        raise Skip
    region = None if case["region"] is None else s.q([x for lim in s.lims[:2] for x in lim])
    origin = 0.0 if s.rot is None else s.centre[2]
    zabs, arg = 0.0, None
    if case["z"] is not None:
        zabs = plane(case, s.X[:, 2], m.h, origin * 0, m.box[2]) if case["z"] != 0 else origin
        v = s.q(zabs - origin) if case["extra"] % 2 else vf.q(zabs - origin, m)
        arg = cosmo_quantity(v.view(np.ndarray)[()], v.units, comoving=v.comoving, cosmo_factor=v.cosmo_factor)
    else:
        zabs = origin
    if s.periodic and not 0 <= zabs < m.box[2]:
        raise Skip
    clear(zabs / s.range, s.X[k, 2] / s.range, m.h[k] / s.range, s.box(2))
    kw = dict(resolution=res, z_slice=arg, project=s.project, region=region, mask=s.mask, parallel=case["parallel"], backend=name, periodic=s.periodic, **s.rkw)
    frozen = s.frozen(*([region] if region is not None else []), *([arg] if arg is not None else []), *([s.mask] if s.mask is not None else []), s.g.masses, s.g.densities)
    image = slice_gas(s.data, **kw) if case["extra"] < 3 and m.group == "gas" else slice_pixel_grid(s.g, **kw)
    p22.thaw(ctx, frozen)
    nx, ny = ((s.lims[q][1] - s.lims[q][0]) / s.range for q in (0, 1))
    ctx.check(image.shape[0] in p22.npix(nx, res) and image.shape[1] in p22.npix(ny, res), f"image of shape {image.shape} for a region of relative size {nx} x {ny} at resolution {res}")
    x, y, z = s.normed(0)[k], s.normed(1)[k], s.X[k, 2] / s.range
    boxes = [s.box(q) for q in range(3)]
    ctx.label(name, "parallel" if case["parallel"] else "serial", "periodic" if s.periodic else "rotated" if s.rot is not None else "open", f"project={s.project}", "plane given" if arg is not None else "no plane")
    if name == "sph":
        rx, ry = image.shape
        if max(rx, ry) != res:
            raise Skip  # rounding decided about the last pixel
        want, tol = vis.slice_(x, y, z, s.weights[k], m.h[k] / s.range, zabs / s.range, rx, ry, *boxes)
        if not want.any():
            ctx.trivial()
        p22.result(ctx, s, image, want, tol, 3)
    else:
        f = s.field
        dist = vis.nearest(x, y, z, zabs / s.range, *image.shape, boxes)
        vol = m.vol[k] * (1.0 if f.comoving else m.a**3)
        p22.result(ctx, s, image, np.zeros(image.shape), np.inf, 3)
        got = np.asarray(u.unyt_array(np.asarray(image.view(np.ndarray), float), image.units).to_value(f.units / vf.LEN**3))
        nn(ctx, got, dist, s.weights[k] / vol)


def run_refuse(case, ctx):
    if case["rotation"] is None:
        case = dict(case, rotation=(0.3, 0.4, 0.5))
    s = p22.Setup(case, ctx)
    try:
        slice_pixel_grid(s.g, resolution=case["res"], project=s.project, periodic=True, **s.rkw)
    except ValueError:
        return
    ctx.fail("a rotated periodic slice was not refused")


CHECKS = [SubCheck("backends", lambda: backend_case(False), run_backend, quick=10000, thorough=200000, weight=3, rule="serial backends against direct sums and distances"),
          SubCheck("parallel", lambda: backend_case(True), run_backend, quick=4000, thorough=80000, weight=2, rule="parallel backends"),
          SubCheck("slice", lambda: api_case(False), run_api, quick=5000, thorough=100000, weight=4, rule="slices of datasets: geometry, normalisation, units and frame"),
          SubCheck("slice_parallel", lambda: api_case(True), run_api, quick=1000, thorough=20000, weight=2, rule="the same with parallel=True"),
          SubCheck("refuse", p22.refuse_case, run_refuse, quick=60, thorough=500, weight=0.3, rule="rotation together with periodic wrapping")]
