"""P22: projections of a dataset have the right geometry, normalisation, units and frame."""
import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw
from swiftsimio.visualisation.projection import project_gas, project_pixel_grid

from .. import core, vis
from .. import visfile as vf
from ..core import Skip, SubCheck

RULE = "a region, mask, rotation or other frame is used and some particle contributes to the image"
ASSUMPTIONS = ["kernels are not wider than the periodic box", "the projected field has a frame", "the gpu backend needs a CUDA device and is not run"]
NUMBA_THREADS = 2
QUICK_BUDGET = 50
SERIAL = ["fast", "renormalised", "histogram", "reference", "subsampled", "subsampled_extreme"]


def rotations():
    ang = st.floats(0.1, 6.0).map(lambda v: round(v, 3))
    return st.one_of(st.none(), st.none(), st.tuples(ang, ang, ang))


def rotation(angles):
    a, b, c = angles
    z = lambda t: np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])  # noqa: E731
    x = lambda t: np.array([[1, 0, 0], [0, np.cos(t), -np.sin(t)], [0, np.sin(t), np.cos(t)]])  # noqa: E731
    return z(a) @ x(b) @ z(c)


def spans():
    lo = st.one_of(st.floats(-0.5, 1.0).map(lambda v: round(v, 3) + 0.00137), st.just(0.0))
    return st.tuples(lo, st.one_of(st.floats(0.05, 1.6).map(lambda v: round(v, 3)), st.just(1.0)))


def common():
    return {
        "file": vf.file_case(), "res": st.one_of(st.integers(1, 9), st.sampled_from([12, 17])),
        "region": st.one_of(st.none(), st.tuples(spans(), spans())), "square": st.booleans(), "frame": st.sampled_from(["comoving", "comoving", "physical"]),
        "units": st.sampled_from([u.Mpc, u.Mpc, u.kpc]).map(str), "mask": st.one_of(st.none(), st.lists(st.booleans(), min_size=8, max_size=8)),
        "project": st.sampled_from(["masses", "masses", "temperatures", None, "my_field"]), "periodic": st.booleans(), "rotation": rotations(), "centre": st.tuples(*[st.floats(0, 1).map(lambda v: round(v, 3))] * 3), "extra": st.integers(0, 9)}


def case_(parallel):
    k = core.SHARD
    names = [SERIAL[k % 6]] if parallel else ["fast", SERIAL[(k + 1) % 6]]
    return st.fixed_dictionaries({**common(), "z": st.one_of(st.none(), st.none(), spans()), "backend": st.sampled_from(names), "parallel": st.just(parallel), "f4": st.just(bool(k % 2))})


def freeze(*things):
    out = []
    for t in things:
        if isinstance(t, np.ndarray):
            out.append((t, np.array(t.view(np.ndarray), copy=True), getattr(t, "units", None), getattr(t, "comoving", None), str(getattr(t, "cosmo_factor", ""))))
    return out


def thaw(ctx, frozen):
    for t, v, un, cm, cf in frozen:
        ctx.check(np.array_equal(t.view(np.ndarray), v) and getattr(t, "units", None) == un and getattr(t, "comoving", None) is cm and str(getattr(t, "cosmo_factor", "")) == cf,
                  f"visualising changed an input: {t!r} was {v!r} {un} comoving={cm}")


class Setup:
    """Dataset, arguments and the reference positions in image coordinates."""

    def __init__(self, case, ctx, axes=2, cubic=False):
        fc = dict(case["file"], f4=case["f4"])
        path = ctx.path()
        m = self.m = vf.write(fc, path)
        self.data = sw.load(path)
        g = self.g = getattr(self.data, m.group)
        self.project = case["project"]
        if self.project == "my_field":
            g.my_field = g.masses * g.temperatures
        self.field = g.particle_ids if self.project is None else getattr(g, self.project)
        fa = np.asarray(self.field.view(np.ndarray), float)
        if self.project is None:
            fa = np.ones(m.n)
        self.weights = fa
        box = m.box
        self.rot = None if case["rotation"] is None else rotation(case["rotation"])
        self.periodic = case["periodic"] and self.rot is None
        self.centre = np.array(case["centre"]) * box
        frame, un = case["frame"], u.Unit(case["units"])
        self.q = lambda v: vf.q(v, m, frame, un)
        lims = [(0.0, b) for b in box]
        if case["region"] is not None:
            for k, (lo, w) in enumerate(case["region"]):
                if cubic:
                    w = min(case["region"][0][1], case["region"][-1][1])
                    lims[k] = (lo * box[k], lo * box[k] + w * box.min())
                elif case["square"]:
                    lims[k] = (lo * box[k], lo * box[k] + case["region"][0][1] * box.min())
                else:
                    lims[k] = (lo * box[k], lo * box[k] + w * box[k])
        self.lims = lims
        self.boxq = box
        n = m.n
        self.mask = None if case["mask"] is None else np.array((case["mask"] * 2)[:n], bool)
        self.keep = np.ones(n, bool) if self.mask is None else self.mask.copy()
        X = m.pos.copy()
        if self.rot is not None:
            X = (X - self.centre) @ self.rot.T + self.centre
        if self.periodic:
            X = X % box
        self.X = X
        self.range = max(lims[0][1] - lims[0][0], lims[1][1] - lims[1][0])
        self.rkw = {} if self.rot is None else dict(rotation_matrix=self.rot, rotation_center=self.q(self.centre))

    def normed(self, k):
        v = (self.X[:, k] - self.lims[k][0]) / self.range
        return v % (self.m.box[k] / self.range) if self.periodic else v

    def box(self, k):
        return self.m.box[k] / self.range if self.periodic else 0.0

    def frozen(self, *more):
        g = self.g
        return freeze(g.coordinates, g.smoothing_lengths, self.field, self.data.metadata.boxsize, *(self.rkw.values()), *more)


def result(ctx, s, image, want, tol, dim, rel=4e-5):
    """image against want (per unit of the normalised length to the power dim)."""
    f, L = s.field, s.g.coordinates.units
    ctx.check(image.shape == want.shape, f"image of shape {image.shape}, expected {want.shape}")
    ctx.check(image.units.dimensions == (f.units / L**dim).dimensions, f"units {image.units} for {f.units} per {L}^{dim}")
    ctx.check(image.comoving is f.comoving, f"comoving={image.comoving} for a field with comoving={f.comoving}")
    a = s.m.a
    cf = f.cosmo_factor.a_factor / a**dim
    ctx.check(np.isclose(image.cosmo_factor.a_factor, cf, rtol=1e-6), f"cosmo_factor {image.cosmo_factor} for a field with {f.cosmo_factor}")
    length = s.range * (1.0 if f.comoving else a)
    got = np.asarray(u.unyt_array(np.asarray(image.view(np.ndarray), float), image.units).to_value(f.units / vf.LEN**dim))
    want = want / length**dim
    d = np.abs(got - want)
    if d.size:
        i = np.unravel_index(np.argmax(d), d.shape)
        ctx.check(d[i] <= rel * tol / length**dim + 1e-5 * abs(want[i]) + 1e-300, f"pixel {i} is {got[i]!r}, expected {want[i]!r} (in {f.units} per Mpc^{dim}, comoving={f.comoving}; tolerance {rel * tol / length**dim:g})")


def npix(frac, res):
    n = res * frac
    return {int(np.ceil(n - 1e-6)), int(np.ceil(n + 1e-6))}


def run(case, ctx):
    s = Setup(case, ctx)
    m, res, name = s.m, case["res"], case["backend"]
    region = None
    zlim = None
    if case["region"] is not None:
        v = [x for lim in s.lims[:2] for x in lim]
        if case["z"] is not None:
            lo, w = case["z"]
            zlim = (lo * m.box[2], (lo + w) * m.box[2])
            v += list(zlim)
        region = s.q(v)
    kw = dict(resolution=res, project=s.project, region=region, mask=s.mask, parallel=case["parallel"], backend=name, **s.rkw)
    if zlim is not None:
        z = s.X[:, 2]
        if s.periodic and zlim[1] - zlim[0] > m.box[2] * (1 + 1e-9):
            try:
                project_pixel_grid(s.g, periodic=True, **kw)
            except ValueError:
                return ctx.trivial()
            ctx.fail(f"a projection depth of {zlim[1] - zlim[0]} in a box of {m.box[2]} was not refused")
        full = s.periodic and np.isclose(zlim[1] - zlim[0], m.box[2], rtol=1e-9)
        if full and zlim[0] != 0:
            raise Skip  # rounding decides
        copies = [z + k * m.box[2] for k in range(-3, 4)] if s.periodic else [z]
        if any(np.any(np.abs(c - e) < 1e-9 * m.box[2]) for c in copies for e in zlim):
            raise Skip
        s.keep &= np.ones(m.n, bool) if full else np.any([(c >= zlim[0]) & (c <= zlim[1]) for c in copies], axis=0)
    h = m.h / s.range
    bx, by = s.box(0), s.box(1)
    x, y = s.normed(0), s.normed(1)
    Hr = vis.G2 * h * res
    k = s.keep
    if name == "reference" and np.any(Hr[k] < 2.001):
        raise Skip
    if np.any(np.abs(Hr[k, None] - np.array([1.0, 0.25])) < 1e-4):
        raise Skip
    for i in np.flatnonzero(k):
        if name == "histogram" or Hr[i] < 1:
            f = vis.places((x[i], y[i]), (bx, by)) * res
            if np.any(np.abs(f - np.round(f)) < 1e-7):
                raise Skip
    frozen = s.frozen(*([region] if region is not None else []), *([s.mask] if s.mask is not None else []))
    if case["extra"] == 0 and m.group == "gas":
        image = project_gas(s.data, periodic=s.periodic, **kw)
    else:
        image = project_pixel_grid(s.g, periodic=s.periodic, **kw)
    thaw(ctx, frozen)
    want, tol = vis.project(x[k], y[k], s.weights[k], h[k], res, bx, by, name)
    nx, ny = ((s.lims[q][1] - s.lims[q][0]) / s.range for q in (0, 1))
    ctx.check(image.shape[0] in npix(nx, res) and image.shape[1] in npix(ny, res), f"image of shape {image.shape} for a region of relative size {nx} x {ny} at resolution {res}")
    want = want[:image.shape[0], :image.shape[1]]
    if not want.any() or (case["region"] is None and s.mask is None and s.rot is None and s.field.comoving):
        ctx.trivial()
    ctx.label(name, "parallel" if case["parallel"] else "serial", "periodic" if s.periodic else "rotated" if s.rot is not None else "open", "z" if zlim else "no-z", f"project={s.project}")
    result(ctx, s, image, want, tol, 2, 0.02 if name.startswith("sub") else 4e-5)


def refuse_case():
    return st.fixed_dictionaries({**common(), "f4": st.just(False)})


def run_refuse(case, ctx):
    if case["rotation"] is None:
        case = dict(case, rotation=(0.3, 0.4, 0.5))
    s = Setup(case, ctx)
    frozen = s.frozen()
    try:
        project_pixel_grid(s.g, resolution=case["res"], project=s.project, periodic=True, **s.rkw)
    except ValueError:
        thaw(ctx, frozen)
        return
    ctx.fail("a rotated periodic projection was not refused")


CHECKS = [SubCheck("project", lambda: case_(False), run, quick=4000, thorough=80000, weight=5, rule="serial backends against the direct sum in the frame of the field"),
          SubCheck("parallel", lambda: case_(True), run, quick=800, thorough=20000, weight=2, rule="parallel backends against the direct sum"),
          SubCheck("refuse", refuse_case, run_refuse, quick=60, thorough=500, weight=0.3, rule="rotation together with periodic wrapping")]
