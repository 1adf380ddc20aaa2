"""P25: depositions conserve and place particles; power spectra are the binned mode power of the deposition."""
import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw
from swiftsimio import cosmo_array
from swiftsimio.visualisation import power_spectrum as ps

from .. import core
from .. import visfile as vf
from ..core import Skip, SubCheck

RULE = "there are particles, or the deposition is not uniform"
ASSUMPTIONS = ["power spectra are taken of cubic boxes and of depositions with a positive mean", "positions closer than rounding to a pixel edge may go either way", "no mode lies within rounding of an edge of a wavenumber bin"]
NUMBA_THREADS = 2
QUICK_BUDGET = 45
POS = st.one_of(st.floats(0, 0.9999, allow_subnormal=False), st.integers(0, 20).map(lambda k: k / 20 + 1e-3), st.floats(-1.5, 2.5, allow_subnormal=False))


def deposit_case(parallel):
    return st.fixed_dictionaries({"parts": st.lists(st.tuples(POS, POS, POS, st.one_of(st.floats(0.1, 10), st.sampled_from([0.0, -2.0, 1.0]))), max_size=12), "res": st.integers(1, 8),
                                  "fold": st.integers(0, 5), "box": st.sampled_from([[1.0] * 3, [142.3] * 3, [1.0, 2.0, 0.7]]), "parallel": st.just(parallel), "f4": st.just(bool(core.SHARD % 2))})


def deposited(X, m, res, fold, box):
    """Reference deposition; particles within rounding of a pixel edge are out of scope."""
    out = np.zeros((res,) * 3)
    f = np.mod(X * fold / np.asarray(box), 1.0) * res
    d = np.abs(f - np.round(f))
    if np.any((d < 1e-6) & (X != 0)):
        raise Skip
    for p, w in zip(np.floor(f).astype(int), m):
        out[tuple(p)] += w * (float(res) * fold) ** 3
    return out


def run_deposit(case, ctx):
    box, res, fold = np.array(case["box"]), case["res"], 2.0 ** case["fold"]
    P = np.array(case["parts"], float).reshape(-1, 4)
    X = P[:, :3] * box
    m = P[:, 3].astype(np.float32 if case["f4"] else float)
    want = deposited(X, m.astype(float), res, fold, box)
    f = ps.deposit_parallel if case["parallel"] else ps.deposit
    args = [X[:, k].copy() for k in range(3)]
    got = np.asarray(f(x=args[0], y=args[1], z=args[2], m=m, res=res, fold=fold, box_x=box[0], box_y=box[1], box_z=box[2]), float)
    ctx.check(all(np.array_equal(a, X[:, k]) for k, a in enumerate(args)), "deposit changed the positions")
    if not len(P):
        ctx.trivial()
    ctx.label("parallel" if case["parallel"] else "serial", f"fold {case['fold']}")
    same(ctx, got, want, np.abs(m).sum() * (res * fold) ** 3, "deposition")


def same(ctx, got, want, scale, what, rel=3e-6):
    ctx.check(got.shape == want.shape, f"{what} of shape {got.shape}, expected {want.shape}")
    d = np.abs(got - want)
    if d.size:
        i = np.unravel_index(np.argmax(d), d.shape)
        ctx.check(d[i] <= rel * scale + 1e-30, f"{what}: {got[i]!r} at {tuple(map(int, i))}, expected {want[i]!r}")


def dataset_case():
    return st.fixed_dictionaries({"file": vf.file_case(), "res": st.integers(1, 6), "fold": st.integers(0, 3), "project": st.sampled_from(["masses", "masses", "temperatures", "densities"]),
                                  "parallel": st.just(core.SHARD % 4 == 0), "f4": st.just(bool(core.SHARD % 2)), "kpc": st.booleans()})


def run_dataset(case, ctx):
    fc = dict(case["file"], f4=case["f4"])
    path = ctx.path()
    m = vf.write(fc, path)
    data = sw.load(path)
    g = getattr(data, m.group)
    q = getattr(g, case["project"])
    x = g.coordinates
    if not len(m.pos):
        ctx.trivial()
    comoving = x.comoving
    compatible = q.comoving is comoving or np.isclose(q.cosmo_factor.a_factor, 1.0)
    before = [np.array(v.view(np.ndarray), copy=True) for v in (x, q, data.metadata.boxsize)]
    w = before[1].astype(float)
    fold = 2.0 ** case["fold"]
    want = deposited(before[0] if comoving else before[0] / m.a, w, case["res"], fold, m.box)
    try:
        got = ps.render_to_deposit(g, resolution=case["res"], project=case["project"], folding=case["fold"], parallel=case["parallel"])
    except AttributeError:
        ctx.check(not compatible, f"{case['project']} (comoving={q.comoving}, {q.cosmo_factor}) was refused for positions with comoving={comoving}")
        return ctx.trivial()
    ctx.check(compatible, f"{case['project']} (comoving={q.comoving}, {q.cosmo_factor}) was accepted for positions with comoving={comoving}")
    for v, b in zip((x, q, data.metadata.boxsize), before):
        ctx.check(np.array_equal(v.view(np.ndarray), b), "render_to_deposit changed the dataset")
    ctx.label(case["project"], f"comoving={comoving}")
    ctx.check(got.comoving is comoving, f"deposition has comoving={got.comoving} for positions with comoving={comoving}")
    ctx.check(np.isclose(got.cosmo_factor.a_factor, q.cosmo_factor.a_factor / m.a**3), f"deposition has {got.cosmo_factor} for {q.cosmo_factor}")
    vol = np.prod(m.box) * (1.0 if comoving else m.a**3)
    vals = np.asarray(u.unyt_array(np.asarray(got.view(np.ndarray), float), got.units).to_value(q.units / vf.LEN**3))
    same(ctx, vals, want / vol, np.abs(w).sum() * (case["res"] * fold) ** 3 / vol, f"deposition in {q.units}/Mpc**3", 1e-5)


def grid(seed, n, kind):
    r = np.random.default_rng(seed)
    if kind == "ngp":
        g = np.zeros((n,) * 3)
        for p in r.integers(0, n, (2 * n + 3, 3)):
            g[tuple(p)] += r.choice([1.0, 1.0, 3.0])
        return g
    if kind == "wave":
        i = np.indices((n,) * 3)
        k = r.integers(0, n, 3)
        return 1 + r.uniform(0.1, 0.9) * np.cos(2 * np.pi * np.tensordot(k, i, 1) / n + 0.7)
    if kind == "peak":
        g = np.zeros((n,) * 3)
        g[tuple(r.integers(0, n, 3))] = 1.7
        return g
    return r.uniform(0.1, 1, (n,) * 3)


def dft(d):
    n = d.shape[0]
    w = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
    return np.einsum("ai,bj,ck,ijk->abc", w, w, w, d, optimize=True) / n**3


def modes(n):
    f = np.where(np.arange(n) < (n + 1) // 2, np.arange(n), np.arange(n) - n)
    return np.sqrt(f[:, None, None] ** 2 + f[None, :, None] ** 2 + f[None, None, :] ** 2.0)


def spectrum(d, c, L, fold, edges, f4):
    """edges in units of the fundamental mode of the folded box -> counts, mean k, mean power (length^3), size of the rounding errors."""
    k = modes(d.shape[0])
    a = dft(d / d.mean() - 1)
    b = a if c is None else dft(c / c.mean() - 1)
    P = (a * b.conj()).real * L**3
    if np.any(np.abs(k.ravel()[:, None] - edges[None, :]) < 1e-7):
        raise Skip
    cnt, km, pm = [], [], []
    for lo, hi in zip(edges[:-1], edges[1:]):
        s = (k >= lo) & (k < hi)
        cnt.append(s.sum())
        km.append(k[s].mean() * 2 * np.pi * fold / L if s.any() else 0.0)
        pm.append(P[s].mean() if s.any() else 0.0)
    return np.array(cnt), np.array(km), np.array(pm), np.abs(P).max() + (np.abs(a).max() + np.abs(b).max() + (1e-6 if f4 else 1e-15)) * (1e-2 if f4 else 1e-6) * L**3


GRID = st.fixed_dictionaries({"seed": st.integers(0, 10**6), "n": st.integers(1, 9), "kind": st.sampled_from(["ngp", "wave", "peak", "uniform"]), "L": st.sampled_from([1.0, 142.25, 3.7]),
                              "a": st.sampled_from([1.0, 0.5, 0.3]), "comoving": st.booleans(), "f4": st.booleans(), "unit": st.sampled_from(["Mpc", "kpc"]), "dens": st.sampled_from(["Msun/Mpc**3", "dimensionless", "K/kpc**3"]),
                              "shot": st.sampled_from([None, None, 17, 1000.0]), "kunit": st.sampled_from(["Mpc**-1", "kpc**-1"])})


def power_case():
    return st.tuples(GRID, st.fixed_dictionaries({"fold": st.integers(0, 4), "cross": st.one_of(st.none(), st.integers(0, 10**6)), "bins": st.one_of(st.none(), st.lists(st.floats(0.05, 9.7), min_size=2, max_size=6, unique=True)), "workers": st.sampled_from([None, 1, 2])}))


def world(gc):
    box = cosmo_array([gc["L"]] * 3, u.Mpc, comoving=True, scale_factor=gc["a"], scale_exponent=1).to(gc["unit"])
    dt = np.float32 if gc["f4"] else np.float64

    def dep(v):
        d = cosmo_array(v.astype(dt), gc["dens"], comoving=True, scale_factor=gc["a"], scale_exponent=-3)
        return d if gc["comoving"] else d.to_physical()

    L = gc["L"]
    if not gc["comoving"]:
        box, L = box.to_physical(), L * gc["a"]
    return box, dep, L


def check_k(ctx, k, a, comoving, exponent, what, dims):
    ctx.check(k.comoving is comoving, f"{what} has comoving={k.comoving} for a box with comoving={comoving}")
    ctx.check(k.units.dimensions == dims, f"{what} in {k.units}")
    ctx.check(np.isclose(k.cosmo_factor.a_factor, a**exponent), f"{what} has {k.cosmo_factor} at a={a}, expected exponent {exponent}")


def run_power(case, ctx):
    gc, pc = case
    box, dep, L = world(gc)
    n, fold, a = gc["n"], 2.0 ** pc["fold"], gc["a"]
    d = grid(gc["seed"], n, gc["kind"])
    c = None if pc["cross"] is None else grid(pc["cross"], n, "ngp")
    if gc["f4"]:
        d = d.astype(np.float32).astype(float)
        c = None if c is None else c.astype(np.float32).astype(float)
    if pc["bins"] is None:
        edges, bins = np.arange(0.5, n // 2 + 1), None
    else:
        edges = np.array(sorted(pc["bins"]))
        bins = cosmo_array(edges * 2 * np.pi * fold / gc["L"], u.Mpc**-1, comoving=True, scale_factor=a, scale_exponent=-1).to(gc["kunit"])
        if not gc["comoving"]:
            bins = bins.to_physical()
    if len(edges) < 2:
        raise Skip
    cnt, km, pm, big = spectrum(d, c, L, fold, edges, gc["f4"])
    args = [dep(d), None if c is None else dep(c)]
    before = [None if v is None else np.array(v.view(np.ndarray), copy=True) for v in (*args, box, bins)]
    k, P, N = ps.deposition_to_power_spectrum(args[0], box, folding=pc["fold"], cross_deposition=args[1], wavenumber_bins=bins, workers=pc["workers"], shot_noise_norm=gc["shot"])
    ctx.check(all(v is None or np.array_equal(v.view(np.ndarray), b) for v, b in zip((*args, box, bins), before)), "an input was changed")
    if gc["kind"] == "uniform" or not cnt.any():
        ctx.trivial()
    ctx.label(gc["kind"], f"comoving={gc['comoving']}", "cross" if c is not None else "auto", "bins" if bins is not None else "default bins", f"shot={gc['shot']}")
    ctx.check(np.array_equal(N, cnt), f"mode counts {N}, expected {cnt}")
    check_k(ctx, k, a, gc["comoving"], -1, "wavenumbers", (u.Mpc**-1).dimensions)
    check_k(ctx, P, a, gc["comoving"], 3, "power spectrum", (u.Mpc**3).dimensions)
    s = cnt > 0
    same(ctx, np.asarray(k.to_value("Mpc**-1"))[s], km[s], km.max(), "mean wavenumber", 1e-5)
    noise = 0.0 if gc["shot"] is None else L**3 / gc["shot"]
    same(ctx, np.asarray(P.to_value("Mpc**3"))[s], pm[s] - noise, big + noise, "power", 2e-5 if gc["f4"] else 1e-8)


def folded_case():
    return st.tuples(GRID, st.fixed_dictionaries({"folds": st.lists(st.integers(0, 5), min_size=1, max_size=3, unique=True), "cross": st.booleans(), "nb": st.integers(1, 8), "lo": st.floats(0.3, 3), "ratio": st.floats(1.5, 60), "log": st.booleans(),
                                                       "min": st.sampled_from([0, 0, 3, 20]), "frac": st.sampled_from([None, None, 0.75, 0.3])}))


def run_folded(case, ctx):
    gc, pc = case
    box, dep, L = world(gc)
    n, a = gc["n"], gc["a"]
    f4 = (lambda v: v.astype(np.float32).astype(float)) if gc["f4"] else (lambda v: v)
    D = {f: f4(grid(gc["seed"] + f, n, gc["kind"])) for f in pc["folds"]}
    C = {f: f4(grid(gc["seed"] + 100 + f, n, "ngp")) for f in pc["folds"]} if pc["cross"] else None
    k0 = 2 * np.pi / gc["L"]
    q = lambda v: (lambda x: x if gc["comoving"] else x.to_physical())(cosmo_array(v, u.Mpc**-1, comoving=True, scale_factor=a, scale_exponent=-1).to(gc["kunit"]))  # noqa: E731
    lo, hi = pc["lo"] * k0, pc["lo"] * k0 * pc["ratio"]
    nb = pc["nb"]
    edges = (np.geomspace if pc["log"] else np.linspace)(lo, hi, nb + 1) / k0
    bins, centres, P, tracker = ps.folded_depositions_to_power_spectrum(
        depositions={f: dep(v) for f, v in D.items()}, cross_depositions=None if C is None else {f: dep(v) for f, v in C.items()}, boxsize=box, number_of_wavenumber_bins=nb, wavenumber_range=q([lo, hi]),
        log_wavenumber_bins=pc["log"], minimal_sample_modes=pc["min"], cutoff_above_wavenumber_fraction=pc["frac"], shot_noise_norm=gc["shot"])
    for v, e, w in ((bins, -1, "bins"), (centres, -1, "centres")):
        check_k(ctx, v, a, gc["comoving"], e, f"wavenumber {w}", (u.Mpc**-1).dimensions)
    check_k(ctx, P, a, gc["comoving"], 3, "power spectrum", (u.Mpc**3).dimensions)
    kk = 2 * np.pi / L
    same(ctx, np.asarray(bins.to_value("Mpc**-1")), edges * kk, hi, "bins")
    one = {f: spectrum(D[f], None if C is None else C[f], L, 2.0**f, edges / 2.0**f, gc["f4"]) for f in D}
    noise = 0.0 if gc["shot"] is None else L**3 / gc["shot"]
    val, trk, cen, got = np.zeros(nb), np.ones(nb), 0.5 * (edges[1:] + edges[:-1]) * kk, np.zeros(nb, int)
    first, last = min(D), max(D)
    for f in sorted(D):
        cnt, km, pm, _ = one[f]
        use = cnt > (0 if f == first else pc["min"])
        if f != last:
            cut = 2.0**f * n / L
            if pc["frac"] is not None and use.any():
                cut = pc["frac"] * min(km[use].max(), cut)
            if np.any(np.abs(km - cut) < 1e-7 * cut):
                raise Skip
            use &= km < cut
        use &= cnt > got
        val[use], trk[use], cen[use], got[use] = pm[use] - noise, 2.0**f, km[use], cnt[use]
    if len(D) < 2 or not got.any():
        ctx.trivial()
    ctx.label(f"{len(D)} folds", "log" if pc["log"] else "linear", f"fraction={pc['frac']}")
    ctx.check(np.array_equal(tracker, trk), f"foldings used: {tracker}, expected {trk}")
    same(ctx, np.asarray(centres.to_value("Mpc**-1")), cen, cen.max(), "centres", 1e-5)
    big = max(o[3] for o in one.values()) + noise
    same(ctx, np.asarray(P.to_value("Mpc**3")), val, big, "power", 2e-5 if gc["f4"] else 1e-8)


CHECKS = [SubCheck("deposit", lambda: deposit_case(False), run_deposit, quick=5000, thorough=200000, weight=2, rule="particles against pixels, any fold"),
          SubCheck("deposit_parallel", lambda: deposit_case(True), run_deposit, quick=2000, thorough=60000, weight=2, rule="parallel deposits"),
          SubCheck("render_to_deposit", dataset_case, run_dataset, quick=3000, thorough=60000, weight=3, rule="depositions of datasets: values, units and frame"),
          SubCheck("power", power_case, run_power, quick=4000, thorough=100000, weight=3, rule="binned |DFT|^2 by matrix products"),
          SubCheck("folded", folded_case, run_folded, quick=3000, thorough=60000, weight=3, rule="stitching of folded spectra")]
