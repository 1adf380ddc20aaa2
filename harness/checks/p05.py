"""P05: property constraints select exactly the rows with lower < value <= upper, in any history."""
import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw
from swiftsimio.objects import cosmo_quantity
from harness import masking as mk
from harness import snap
from harness.core import SubCheck

RULE = "non-trivial = at least one property constraint keeps some rows and drops others"
ASSUMPTIONS = ["bounds that coincide with a stored value are only used in the units and frame of the file"]
ALT = {  # dimension exponents -> alternative units understood by users
    (1, 0, 0, 0, 0): [u.kpc, u.cm],
    (0, 1, 0, 0, 0): [u.Msun, u.g],
    (1, 0, -1, 0, 0): [u.km / u.s, u.cm / u.s],
    (0, 0, 0, 1, 0): [u.K, u.mK],
    (-3, 1, 0, 0, 0): [u.g / u.cm**3, u.Msun / u.kpc**3],
    (2, 0, -2, 0, 0): [u.cm**2 / u.s**2],
    (0, 1, -1, 0, 0): [u.Msun / u.yr, u.g / u.s],
    (-1, 1, -2, 0, 0): [u.Pa],
}
SCALARS = [f[0] for f in snap.FIELD_POOL if f[1] == 1]


def ops(max_size, min_size=1):
    """A history; half of them start with a spatial selection."""
    any_ = st.lists(op(), min_size=min_size, max_size=max_size)
    spatial = st.tuples(st.just("spatial"), mk.region_spec(), st.booleans()).map(list)
    first = st.tuples(spatial, st.lists(op(), max_size=max_size - 1)).map(lambda x: [x[0]] + x[1])
    return st.sampled_from([0, 1]).flatmap(lambda k: first if k else any_)


def op():
    prop = st.tuples(st.just("prop"), st.integers(0, 2), st.integers(0, 20), st.integers(0, 1000), st.integers(0, 1000),
                     st.integers(0, 3), st.sampled_from([0, 1, 0]), st.booleans()).map(list)
    spatial = st.tuples(st.just("spatial"), mk.region_spec(), st.booleans()).map(list)
    indices = st.tuples(st.just("indices"), st.lists(st.integers(0, 40), min_size=1, max_size=5, unique=True)).map(list)
    index = st.tuples(st.just("index"), st.integers(0, 40)).map(list)
    return st.sampled_from(["prop", "prop", "prop", "spatial", "bool", "ranges", "indices", "index"]).flatmap(
        lambda k: {"prop": prop, "spatial": spatial, "bool": st.just(["bool"]), "ranges": st.just(["ranges"]),
                   "indices": indices, "index": index}[k])


def history_case():
    return st.fixed_dictionaries(
        {"snap": snap.snapshot_case(max_cells=3, orders=("grid", "perm"), big=True),
         "ops": ops(5)})



def soap_history_case():
    return st.fixed_dictionaries({"soap": snap.soap_case(), "ops": ops(5)})


class Hist:
    """Reference model of the selection: one row set per (independent) mask."""

    def __init__(self, m, path, shared):
        self.m, self.path, self.shared = m, path, shared
        self.mask = sw.mask(path)
        n = lambda g: len(next(iter(m.groups[g].values())))
        self.rows = {g: np.ones(n(g), dtype=bool) for g in m.groups}
        self.state = None      # None | spatial | property | indices
        self.cut = False
        self._full = None

    def full(self):
        if self._full is None:
            self._full = sw.load(self.path)
        return self._full

    def scalars(self, g):
        return [f for f in sorted(self.m.groups[g]) if self.m.groups[g][f].ndim == 1]

    def compare(self, ctx, what):
        for g in self.m.groups:
            got = mk.rows_of(self.mask, g)
            want = np.where(self.rows[g])[0]
            ctx.check(np.array_equal(np.sort(got), want),
                      lambda: f"after {what}: {g} selects rows {got.tolist()} but should select {want.tolist()}")

    def expect_error(self, ctx, what, fn):
        try:
            fn()
        except RuntimeError:
            return
        ctx.fail(f"{what} did not raise RuntimeError")


def bound(q, meta, info, unit_mode, frame_mode):
    """A bound given as (value in file units and stored frame) -> user quantity."""
    fac = file_unit(meta, info["exps"])
    q, un = q * float(fac.value), fac.units
    comoving = not info["physical"]
    a = meta.a
    x = cosmo_quantity(q, un, comoving=comoving, scale_factor=a, scale_exponent=info["aexp"])
    if frame_mode and info["valid"]:
        x = cosmo_quantity(q * a ** info["aexp"] if comoving else q / a ** info["aexp"], un, comoving=not comoving,
                           scale_factor=a, scale_exponent=info["aexp"])
    alts = ALT.get(tuple(info["exps"]))
    if unit_mode and alts:
        x = x.to(alts[(unit_mode - 1) % len(alts)])
    return x


def file_unit(meta, exps):
    """One file unit of the given dimensions, as a plain quantity."""
    L, M, t, T, I = exps
    un = meta.units
    out = 1.0 * u.dimensionless
    for base, e in ((un.length, L), (un.mass, M), (un.time, t), (un.temperature, T), (un.current, I)):
        if e:
            out = out * u.unyt_quantity(float(getattr(base, "value", 1.0)), getattr(base, "units", base)) ** e
    return out


def pick(vals, k1, k2):
    """Two cut values: either exact stored values or points well between two stored ones."""
    v = np.unique(vals.astype(np.float64))
    if len(v) == 1:
        cand = [float(v[0]), float(v[0]) - 1.0, float(v[0]) + 1.0]
        between = cand[1:]
    else:
        gaps = np.diff(v)
        mids = v[:-1] + gaps / 2
        wide = gaps > 1e-4 * np.maximum(np.abs(v[:-1]), np.abs(v[1:]))
        between = [float(v[0] - 1.0), float(v[-1] + 1.0)] + [float(x) for x in mids[wide]]
        cand = [float(x) for x in v]
    return cand, between


def apply(h, o, ctx):
    m, mask = h.m, h.mask
    kind = o[0]
    if kind == "bool":
        mask.convert_masks_to_bool()
    elif kind == "ranges":
        mask.convert_masks_to_ranges()
    elif kind == "prop":
        _, gi, fi, k1, k2, um, exact, frame = o
        gs = sorted(m.groups)
        g = gs[gi % len(gs)]
        fs = h.scalars(g)
        if not fs:
            return "skip"
        f = fs[fi % len(fs)]
        vals = m.groups[g][f]
        if len(vals) == 0:
            return "skip"
        info = m.attrs[(g, f)]
        cand, between = pick(vals, k1, k2)
        exact = exact or vals.dtype == np.float16  # unyt converts units of half precision data in half precision
        if exact:
            um, frame = 0, False
            pool = cand + between
        else:
            pool = between
        if vals.dtype.kind in "iu":
            frame, um = False, 0
        pool = sorted(pool)
        i, j = k1 % len(pool), k2 % len(pool)
        if i == j and k2 % 5:
            j = (i + max(1, len(pool) // 2)) % len(pool)
        lo, hi = sorted([pool[i], pool[j]])
        if exact:
            like = getattr(getattr(h.full(), g), snap.snake(f))
            qlo, qhi = [cosmo_quantity(x, like.units, comoving=like.comoving, cosmo_factor=like.cosmo_factor) for x in (lo, hi)]
        else:
            qlo = bound(lo, mask.metadata, info, um, frame)
            qhi = bound(hi, mask.metadata, info, um, frame)
        ctx.label(f"prop exact={bool(exact)} frame={frame} units={um > 0}")
        mask.constrain_property(g, snap.snake(f), qlo, qhi)
        keep = (vals.astype(np.float64) > lo) & (vals.astype(np.float64) <= hi)
        for gg in ([g] if not h.shared else m.groups):
            if (h.rows[gg] & keep).any() and (h.rows[gg] & ~keep).any():
                h.cut = True
            h.rows[gg] &= keep
        h.state = "property"
    elif kind == "spatial":
        _, r, union = o
        call = lambda: mask.constrain_spatial(mk.to_user_region(r, mask.metadata), union=union)
        if h.state is None or (h.state == "spatial" and union):
            call()
            fresh = sw.mask(h.path)
            fresh.constrain_spatial(mk.to_user_region(r, fresh.metadata))
            for g in m.groups:
                new = np.zeros_like(h.rows[g])
                new[mk.rows_of(fresh, g)] = True
                h.rows[g] = new if h.state is None else (h.rows[g] | new)
            h.state = "spatial"
        else:
            h.expect_error(ctx, f"constrain_spatial after a {h.state} constraint", call)
            ctx.label("order refused")
    elif kind in ("indices", "index"):
        n = len(next(iter(h.rows.values())))
        idx = sorted({i % n for i in o[1]}) if kind == "indices" else [o[1] % n]
        if kind == "indices" and len({i % n for i in o[1]}) == len(o[1]):
            idx = [i % n for i in o[1]]  # user order, possibly unsorted
        call = (lambda: mask.constrain_indices(idx)) if kind == "indices" else (lambda: mask.constrain_index(idx[0]))
        if h.shared and h.state is None:
            call()
            for g in m.groups:
                new = np.zeros_like(h.rows[g])
                new[idx] = True
                h.rows[g] &= new
            h.state = "indices"
        else:
            h.expect_error(ctx, f"selecting rows ({'not ' * (not h.shared)}a group catalogue, after {h.state})", call)
            ctx.label("order refused")
    return kind


def run(case, ctx):
    mk.quiet()
    path = ctx.path()
    if "snap" in case:
        m = snap.build_snapshot(case["snap"], path)
        h = Hist(m, path, False)
    else:
        m = snap.build_soap(case["soap"], path)
        h = Hist(m, path, True)
    for i, o in enumerate(case["ops"]):
        apply(h, o, ctx)
        h.compare(ctx, f"step {i + 1} ({o[0]})")
    # the selection is what gets loaded
    data = sw.load(path, mask=h.mask)
    g = sorted(m.groups)[case.get("snap", case.get("soap"))["seed"] % len(m.groups)]
    for f in h.scalars(g)[:2]:
        got = np.asarray(getattr(getattr(data, g), snap.snake(f)))
        rows = mk.rows_of(h.mask, g)
        ctx.check(np.array_equal(got, m.groups[g][f][rows]), lambda: f"{g}.{f} loaded {got} for rows {rows}")
    if not h.cut:
        ctx.trivial()


CHECKS = [
    SubCheck("snapshot", history_case, run, quick=520, thorough=20000, weight=3,
             rule="up to five constraints / conversions in any order on one mask, compared with a row-set model after each"),
    SubCheck("soap", soap_history_case, run, quick=260, thorough=8000, weight=1.5, rule="same for group catalogues, plus row selections"),
]
QUICK_BUDGET = 50
