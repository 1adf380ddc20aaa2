"""P24: volume renders evaluate the particles' three-dimensional kernels on a grid of voxels."""
import importlib

import numpy as np
from hypothesis import strategies as st

from swiftsimio.visualisation.volume_render import render_gas, render_voxel_grid
from swiftsimio.visualisation.volume_render_backends import backends, backends_parallel

from .. import core, vis
from ..core import Skip, SubCheck
from . import p21, p22, p23

sc = importlib.import_module("swiftsimio.visualisation.volume_render_backends.scatter")
RULE = "some particle contributes to the render"
ASSUMPTIONS = ["kernels are not wider than the periodic box"]
NUMBA_THREADS = 2
QUICK_BUDGET = 50


def backend_case(parallel):
    part = st.tuples(p21.coordinate(), p21.coordinate(), p21.coordinate(), st.one_of(p21.floats(0.1, 10), st.sampled_from([1.0, 0.0, -2.0])), st.one_of(p21.floats(-1.7, 0.8).map(lambda e: 10**e), st.sampled_from([0.2, 0.4, 0.52, 0.9, 2.95])))
    res = st.integers(1, 8)
    return st.fixed_dictionaries({
        "parallel": st.just(parallel), "res": res, "ratio": st.sampled_from([1, 1, 1, 2, 3]),
        "boxes": st.sampled_from([[0.0] * 3, [0.0] * 3, [1.0] * 3, [1.0] * 3, [2.0] * 3, [0.5, 1.0, 0.75], [1.0, 0.7, 1.3], [5.3] * 3, [0.37] * 3, [1.5, 1.0, 1.0]]),
        "parts": st.lists(part, min_size=0, max_size=7), "f4": st.just(bool(core.SHARD % 2))})


def steady(x, y, z, h, boxes, dims):
    for i in range(len(x)):
        Hr = vis.G3 * float(h[i]) * min(dims)
        if abs(Hr - 0.5) < 1e-5:
            raise Skip
        if Hr < 0.5:
            p = vis.places((x[i], y[i], z[i]), boxes) * np.array(dims)
            if np.any(np.abs(p - np.round(p)) < 1e-7) and not (np.all(np.array(boxes) == 0) and np.all(p == np.round(p))):
                raise Skip


def run_backend(case, ctx):
    boxes, ratio, par = case["boxes"], case["ratio"], case["parallel"]
    if core.SHARD % 4:
        ratio = 1  # compiling takes time: only some workers drive the flat voxels
    res = case["res"] * ratio
    X, m, h = p21.prepare(dict(case, res=res), 3, vis.G3)
    x, y, z = (X[:, k].copy() for k in range(3))
    rz = res // ratio
    steady(x, y, z, h, boxes, (res, res, rz))
    keep = [v.copy() for v in (x, y, z, m, h)]
    kw = dict(x=x, y=y, z=z, m=m, h=h, res=res, box_x=boxes[0], box_y=boxes[1], box_z=boxes[2])
    if ratio == 1:
        got = (backends_parallel if par else backends)["scatter"](**kw)
    else:
        got = sc.scatter_parallel(res_ratio_z=ratio, **kw) if par else sc.scatter_limited_z(res_ratio_z=ratio, **kw)
    got = np.asarray(got, float)
    for v, k in zip((x, y, z, m, h), keep):
        ctx.check(np.array_equal(v, k), "the backend changed its input arrays")
    ctx.check(got.shape == (res, res, rz), f"render of shape {got.shape}, expected {(res, res, rz)}")
    want, tol = vis.voxels(x, y, z, m.astype(float), h.astype(float), res, *boxes, rz)
    ctx.label("parallel" if par else "serial", "periodic" if boxes[0] else "open", f"flat={ratio > 1}", "single cell" if np.any(vis.G3 * h * rz < 0.5) else "")
    if not want.any():
        ctx.trivial()
    p23.compare(ctx, got, want, 4e-5 * tol)


def api_case(parallel):
    return st.fixed_dictionaries({**p22.common(), "res": st.one_of(st.integers(1, 7), st.just(10)), "z": st.one_of(st.none(), p22.spans()), "parallel": st.just(parallel), "f4": st.just(bool(core.SHARD % 2))})


def limits(s, case):
    """A cubic region: 4 limits (the whole box along z) or 6."""
    m = s.m
    if case["region"] is None:
        s.lims = [(0.0, b) for b in m.box]
        return None
    (x0, w), (y0, _) = case["region"]
    w = w * m.box.min()
    if case["z"] is None:
        w = m.box[2]
        s.lims = [(x0 * m.box[0], x0 * m.box[0] + w), (y0 * m.box[1], y0 * m.box[1] + w), (0.0, m.box[2])]
        lims = s.lims[:2]
    else:
        z0 = case["z"][0] * m.box[2]
        s.lims = [(x0 * m.box[0], x0 * m.box[0] + w), (y0 * m.box[1], y0 * m.box[1] + w), (z0, z0 + w)]
        lims = s.lims
    s.range = w
    return [x for lim in lims for x in lim]


def run_api(case, ctx):
    res = case["res"]
    s = p22.Setup(case, ctx)
    m, k = s.m, s.keep
    lims = limits(s, case)
    region = None if lims is None else s.q(lims)
    kw = dict(resolution=res, project=s.project, region=region, mask=s.mask, parallel=case["parallel"], periodic=s.periodic, **s.rkw)
    sizes = [b - a for a, b in s.lims]
    frozen = s.frozen(*([region] if region is not None else []), *([s.mask] if s.mask is not None else []))
    call = (lambda: render_gas(s.data, **kw)) if case["extra"] < 3 and m.group == "gas" else (lambda: render_voxel_grid(s.g, **kw))
    if not np.allclose(sizes, sizes[0]):
        try:
            call()
        except AttributeError:
            return ctx.trivial()
        ctx.fail(f"a render of a region of size {sizes}, not a cube, was not refused")
    s.range = sizes[0]
    boxes = [s.box(q) for q in range(3)]
    x, y, z = (s.normed(q)[k] for q in range(3))
    h = m.h[k] / s.range
    if s.periodic and np.any(vis.G3 * h > min(boxes)):
        raise Skip
    for i in range(len(x)):
        Hr = vis.G3 * h[i] * res
        if abs(Hr - 0.5) < 1e-4:
            raise Skip
        if Hr < 0.5:
            p = vis.places((x[i], y[i], z[i]), boxes) * res
            if np.any(np.abs(p - np.round(p)) < 1e-7):
                raise Skip
    image = call()
    p22.thaw(ctx, frozen)
    ctx.label("parallel" if case["parallel"] else "serial", "periodic" if s.periodic else "rotated" if s.rot is not None else "open", f"project={s.project}", "whole" if region is None else f"region {len(region)}")
    want, tol = vis.voxels(x, y, z, s.weights[k], h, res, *boxes)
    if not want.any():
        ctx.trivial()
    p22.result(ctx, s, image, want, tol, 3)


def run_refuse(case, ctx):
    if case["rotation"] is None:
        case = dict(case, rotation=(0.3, 0.4, 0.5))
    s = p22.Setup(dict(case, region=None), ctx)
    try:
        render_voxel_grid(s.g, resolution=case["res"], project=s.project, periodic=True, region=s.q([0.0, 1.0] * 3), **s.rkw)
    except ValueError:
        return
    ctx.fail("a rotated periodic render was not refused")


CHECKS = [SubCheck("backends", lambda: backend_case(False), run_backend, quick=8000, thorough=200000, weight=3, rule="serial backends against direct sums"),
          SubCheck("parallel", lambda: backend_case(True), run_backend, quick=3000, thorough=60000, weight=2, rule="parallel backends"),
          SubCheck("render", lambda: api_case(False), run_api, quick=5000, thorough=100000, weight=4, rule="renders of datasets: geometry, normalisation, units and frame"),
          SubCheck("render_parallel", lambda: api_case(True), run_api, quick=1000, thorough=20000, weight=2, rule="the same with parallel=True"),
          SubCheck("refuse", p22.refuse_case, run_refuse, quick=60, thorough=500, weight=0.3, rule="rotation together with periodic wrapping")]
