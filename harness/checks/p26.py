"""P26: generated smoothing lengths."""
import numpy as np
import unyt as u
from hypothesis import strategies as st

from swiftsimio import Writer, cosmo_array
from swiftsimio.visualisation.smoothing_length import generate_smoothing_lengths

from ..core import Skip, SubCheck

RULE = "there are more particles than neighbours searched and some separation crosses the edge of the box"
ASSUMPTIONS = ["coordinates lie inside the box", "at least two neighbours (a particle counts as its own) are searched for", "at least as many particles as neighbours are searched for"]
QUICK_BUDGET = 35
COORD = st.one_of(st.floats(0, 0.9999, allow_subnormal=False), st.integers(0, 15).map(lambda k: k / 16))


def near_case():
    return st.fixed_dictionaries({"pos": st.lists(st.tuples(COORD, COORD, COORD), min_size=1, max_size=14), "box": st.sampled_from([[1.0] * 3, [142.0] * 3, [1.0, 2.0, 0.5]]), "a": st.sampled_from([1.0, 0.5, 0.3]),
                                  "comoving": st.booleans(), "boxframe": st.booleans(), "units": st.sampled_from(["Mpc", "kpc"]), "boxunits": st.sampled_from(["Mpc", "kpc"]), "gamma": st.sampled_from([1.825742, 1.936492, 2.0]),
                                  "k": st.integers(2, 8), "speedup": st.sampled_from([1, 1, 2, 3]), "extra": st.integers(0, 2), "dim": st.sampled_from([3, 3, 2, 1]), "f4": st.booleans()})


def lengths(v, case, comoving, units):
    x = cosmo_array(v, u.Mpc, comoving=True, scale_factor=case["a"], scale_exponent=1)
    x = x if comoving else x.to_physical()
    return x.to(units)


def distances(X, Y, box):
    d = X[:, None, :] - Y[None, :, :]
    d -= box * np.round(d / box)
    return np.sort(np.sqrt((d**2).sum(axis=2)), axis=1), d


def run_near(case, ctx):
    box = np.array(case["box"])
    X = np.array(case["pos"]) * box
    n, k, s = len(X), case["k"], case["speedup"]
    if n < k:
        raise Skip
    neighbours = k * s + min(case["extra"], s - 1)
    dt = np.float32 if case["f4"] else float
    X = X.astype(dt).astype(float)
    x = lengths(X.astype(dt), case, case["comoving"], case["units"])
    b = lengths(box, case, case["boxframe"], case["boxunits"])
    if np.any(x.to_physical_value("Mpc") >= b.to_physical_value("Mpc")):
        raise Skip
    before = [np.array(v.view(np.ndarray), copy=True) for v in (x, b)]
    h = generate_smoothing_lengths(x, b, kernel_gamma=case["gamma"], neighbours=neighbours, speedup_fac=s, dimension=case["dim"])
    ctx.check(np.array_equal(x.view(np.ndarray), before[0]) and np.array_equal(b.view(np.ndarray), before[1]), "an input was changed")
    dist, delta = distances(X, X, box)
    plain = np.abs(X[:, None, :] - X[None, :, :])
    if n <= k or not np.any(np.abs(plain) > np.abs(delta) + 1e-9):
        ctx.trivial()
    ctx.label(f"comoving={case['comoving']}", f"k={k}", "same frame" if case["comoving"] == case["boxframe"] else "box in the other frame")
    ctx.check(h.shape == (n,), f"{h.shape} smoothing lengths for {n} particles")
    ctx.check(h.comoving is case["comoving"], f"comoving={h.comoving} for coordinates with comoving={x.comoving}")
    ctx.check(np.isclose(h.cosmo_factor.a_factor, case["a"]), f"smoothing lengths have {h.cosmo_factor} at a={case['a']}")
    want = dist[:, k - 1] * s ** (1 / case["dim"]) / case["gamma"] * (1.0 if case["comoving"] else case["a"])
    got = np.asarray(h.to_value("Mpc"), float)
    bad = np.abs(got - want) > 3e-6 * want + 4e-7 * box.max()
    ctx.check(not bad.any(), lambda: f"smoothing length of particle {np.argmax(bad)} is {got[np.argmax(bad)]!r} Mpc, the {k}th particle is at {dist[np.argmax(bad), k - 1]!r} (expected {want[np.argmax(bad)]!r})")


def block_case():
    return st.fixed_dictionaries({"n": st.sampled_from([65535, 65536, 65537, 70001, 131072, 131073]), "seed": st.integers(0, 10**6), "k": st.integers(2, 3)})


def run_blocks(case, ctx):
    n, k = case["n"], case["k"]
    r = np.random.default_rng(case["seed"])
    X = r.random((n, 3))
    h = generate_smoothing_lengths(cosmo_array(X, u.Mpc, comoving=True, scale_factor=0.5, scale_exponent=1), cosmo_array([1.0] * 3, u.Mpc, comoving=True, scale_factor=0.5, scale_exponent=1), 1.9, neighbours=k, speedup_fac=1)
    ctx.check(h.shape == (n,), f"{h.shape} smoothing lengths for {n} particles")
    i = np.unique(np.concatenate([[0, 1, n - 1, n - 2], r.integers(0, n, 6), [j for b in (65536, 131072) for j in (b - 1, b, b + 1) if j < n]]))
    for j in i.astype(int):
        d = X - X[j]
        d -= np.round(d)
        r2 = (d**2).sum(axis=1)
        want = np.sqrt(np.partition(r2, k - 1)[k - 1]) / 1.9
        ctx.check(abs(float(h[j].value) - want) <= 3e-6 * want + 1e-7, f"smoothing length of particle {j} of {n} is {h[j]!r}, expected {want!r}")


def writer_case():
    return st.fixed_dictionaries({"n": st.integers(1, 40), "box": st.floats(0.1, 500).map(lambda v: round(v, 3) + 0.05), "unequal": st.booleans(), "dim": st.sampled_from([3, 3, 2, 1]), "a": st.sampled_from([1.0, 0.5]),
                                  "units": st.sampled_from(["Mpc", "kpc"]), "xunits": st.sampled_from(["Mpc", "kpc"]), "type": st.sampled_from(["gas", "stars", "dark_matter"]), "seed": st.integers(0, 99)})


def run_writer(case, ctx):
    box = np.array([case["box"]] * 3)
    if case["unequal"] and case["dim"] > 1:
        box[1] *= 2
    L = lambda v, un: cosmo_array(v, u.Mpc, comoving=True, scale_factor=case["a"], scale_exponent=1).to(un)  # noqa: E731
    w = Writer(unit_system="galactic", boxsize=L(box[:case["dim"]], case["units"]), dimension=case["dim"], scale_factor=case["a"])
    t = getattr(w, case["type"])
    X = np.random.default_rng(case["seed"]).random((case["n"], case["dim"])) * box[:case["dim"]]
    t.coordinates = L(X, case["xunits"])
    ctx.label(case["type"], f"dimension {case['dim']}")
    if case["type"] == "dark_matter":
        try:
            t.generate_smoothing_lengths()
        except RuntimeError:
            return ctx.trivial()
        ctx.fail("smoothing lengths were generated for dark matter, which has none")
    if case["unequal"] and case["dim"] > 1:
        try:
            t.generate_smoothing_lengths()
        except ValueError:
            return ctx.trivial()
        ctx.fail("smoothing lengths were generated for a box with unequal sides")
    t.generate_smoothing_lengths()
    h = t.smoothing_lengths
    want = 2 * case["box"] / case["n"] ** (1 / case["dim"])
    ctx.check(h.shape == (case["n"],) and h.comoving is True and np.isclose(h.cosmo_factor.a_factor, case["a"]), f"{h!r}")
    ctx.check(np.allclose(h.to_value("Mpc"), want, rtol=1e-9), f"smoothing lengths {h!r}, expected {want} Mpc")


CHECKS = [SubCheck("neighbours", near_case, run_near, quick=8000, thorough=300000, weight=4, rule="against all periodic distances"),
          SubCheck("blocks", block_case, run_blocks, quick=30, thorough=300, weight=2, rule="particle numbers around the block size, sampled particles against all distances"),
          SubCheck("writer", writer_case, run_writer, quick=2000, thorough=20000, weight=1, rule="the writer's two mean interparticle spacings")]
