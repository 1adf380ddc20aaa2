"""Shared generators and oracles for the masking properties."""
import warnings

import numpy as np
import unyt as u
from hypothesis import strategies as st

from harness import snap

LEN_UNITS = [None, u.kpc, u.cm, u.Mpc, u.km]


# ----------------------------------------------------------------------------- regions
@st.composite
def axis_region(draw, allow_none=True):
    """[lo, hi] in units of the box length, inside [-0.5, 1.5]; lo > hi is the wrapped form."""
    kind = draw(st.sampled_from((["none"] if allow_none else []) + ["in", "in", "in", "in", "thin", "inv", "inv", "over", "full", "grid", "grid"]))
    if kind == "none":
        return None
    fl = lambda a, b: draw(st.integers(int(round(a * 10000)), int(round(b * 10000)))) / 10000
    if kind == "in":
        a, b = sorted([fl(0, 1), fl(0, 1)])
        return [a, max(b, a + 0.01)]
    if kind == "thin":
        a = fl(-0.49, 1.47)
        return [a, a + 0.003]
    if kind == "inv":
        hi = fl(-0.4, 0.95)
        lo = hi + fl(0.02, 0.95)
        lo = min(lo, 1.499)
        if lo - hi < 0.02:
            hi = lo - 0.02
        return [lo, hi]
    if kind == "over":
        a, b = sorted([fl(-0.499, 1.499), fl(-0.499, 1.499)])
        if b - a < 0.01:
            b = a + 0.01 if a < 1.4 else a
            a = b - 0.01
        return [a, b]
    if kind == "full":
        return draw(st.sampled_from([[0.0, 1.0], [-0.1, 1.1], [-0.499, 1.499], [-0.25, 0.75], [0.5, 1.499]]))
    n = draw(st.sampled_from([2, 3, 4, 6, 8]))
    i = draw(st.integers(-(n // 2), n + n // 2 - 1))
    j = draw(st.integers(i + 1, n + n // 2))
    return [max(i / n, -0.4995), min(j / n, 1.4995)]


def region():
    return st.tuples(axis_region(), axis_region(), axis_region()).map(list)


def region_spec():
    return st.fixed_dictionaries(
        {"axes": region(), "form": st.integers(0, 4), "unit": st.integers(0, len(LEN_UNITS) - 1)}
    )


def to_user_region(spec, metadata):
    """Express the region the way a user might: several equivalent spellings."""
    from swiftsimio.objects import cosmo_array, cosmo_quantity

    axes, form = spec["axes"], spec["form"]
    a = metadata.a
    box = metadata.boxsize
    un = LEN_UNITS[spec["unit"]] or box.units
    if form == 0:
        return [None if ax is None else [ax[0] * b, ax[1] * b] for ax, b in zip(axes, box)]
    bv = box.to_value(un)
    if form == 1 and all(ax is not None for ax in axes):
        return cosmo_array([[ax[0] * b, ax[1] * b] for ax, b in zip(axes, bv)], un, comoving=True,
                           scale_factor=a, scale_exponent=1)
    if form == 2 and all(ax is not None for ax in axes):
        return cosmo_array([[ax[0] * b * a, ax[1] * b * a] for ax, b in zip(axes, bv)], un, comoving=False,
                           scale_factor=a, scale_exponent=1)
    if form == 3:
        return [None if ax is None else
                [cosmo_quantity(x * b * a, un, comoving=False, scale_factor=a, scale_exponent=1) for x in ax]
                for ax, b in zip(axes, bv)]
    return [None if ax is None else
            cosmo_array([x * b for x in ax], un, comoving=True, scale_factor=a, scale_exponent=1)
            for ax, b in zip(axes, bv)]


def interval(ax):
    """Periodic interval (start, width) in units of the box, or None for no constraint."""
    if ax is None:
        return None
    lo, hi = ax
    w = hi - lo
    if w > 1.0:
        return None
    if w < 0:
        w = w % 1.0
    return lo, w


def inside(axes, pos, box, tol):
    """Rows strictly inside the (periodic) region, at least tol (box units) from its faces."""
    ok = np.ones(len(pos), dtype=bool)
    for d, ax in enumerate(axes):
        iv = interval(ax)
        if iv is None:
            continue
        lo, w = iv
        if w >= 1.0 - 1e-12:
            continue
        x = (pos[:, d] / box[d] - lo) % 1.0
        ok &= (x > tol) & (x < w - tol)
    return ok


def cells_touched(axes, ext_lo, ext_hi, box, tol):
    """Cells whose extent meets the closed region (any periodic copy), enlarged by tol."""
    ok = np.ones(len(ext_lo), dtype=bool)
    for d, ax in enumerate(axes):
        iv = interval(ax)
        if iv is None:
            continue
        lo, w = iv
        e0, e1 = ext_lo[:, d] / box[d], ext_hi[:, d] / box[d]
        hit = np.zeros(len(ext_lo), dtype=bool)
        for k in range(-4, 5):
            hit |= (e1 + k >= lo - tol) & (e0 + k <= lo + w + tol)
        ok &= hit
    return ok


def extents(model, group, pad):
    """Extents of the cells as the file (or the padding rule) declares them, grid order."""
    half = model.size / 2
    lo, hi = model.centres - half, model.centres + half
    if group == "shared":
        return lo, hi
    if model.case["minmax"]:
        for c in range(len(lo)):
            sel = model.cell_of[group] == c
            if sel.any():
                lo[c] = np.minimum(lo[c], model.home[group][sel].min(axis=0))
                hi[c] = np.maximum(hi[c], model.home[group][sel].max(axis=0))
        return lo, hi
    return lo - pad * model.size, hi + pad * model.size


def pad_fraction(sp):
    return {True: 0.1, False: 0.0}.get(sp, sp) if isinstance(sp, bool) else sp


def rows_of(mask, group):
    """Selected rows of one group, in the order in which they will be read."""
    arr = np.asarray(getattr(mask, group))
    if mask.range_mask:
        if arr.size == 0:
            return np.zeros(0, dtype=int)
        return np.concatenate([np.arange(s, e) for s, e in arr.reshape(-1, 2)]).astype(int)
    return np.where(arr)[0]


def quiet():
    warnings.simplefilter("ignore")
