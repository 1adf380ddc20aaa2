"""P30: two-dimensional colour maps and rendering functions."""
import numpy as np
from hypothesis import strategies as st
from matplotlib import colors as mc

from swiftsimio.optional_packages import plt
from swiftsimio.visualisation import volume_render as vr
from swiftsimio.visualisation.tools import cmaps

from ..core import Skip, SubCheck

RULE = "more than one colour or centre, and values that differ"
ASSUMPTIONS = ["values are finite", "colours are looked up in a grid of 256 by 256 cells, rounding down; values within rounding of a cell edge may go either way"]
QUICK_BUDGET = 35
UNIT = st.floats(0, 1).map(lambda v: round(v, 3))
VALUE = st.one_of(st.floats(-0.5, 1.5), st.integers(0, 255).map(lambda k: (k + 0.5) / 255), st.sampled_from([0.0, 1.0, 2.0, -1.0]))


def map_case():
    return st.fixed_dictionaries({"kind": st.sampled_from(["rgb", "hsv", "image", "image", "bower"]), "colors": st.lists(st.one_of(st.tuples(UNIT, UNIT, UNIT), st.tuples(UNIT, UNIT, UNIT, UNIT)), min_size=1, max_size=4),
                                  "coords": st.lists(st.tuples(UNIT, UNIT), min_size=4, max_size=4), "values": st.lists(st.tuples(VALUE, VALUE), min_size=1, max_size=8), "form": st.sampled_from(["array", "array2", "list", "f4", "tuple"]),
                                  "size": st.tuples(st.integers(1, 9), st.integers(1, 9)), "mode": st.sampled_from(["RGBA", "RGB"]), "seed": st.integers(0, 10**6)})


def mixed(kind, cols, coords, x, y):
    """Colour of the grid at coordinate (x, y): distance-weighted mean (in RGBA, or HSV and alpha)."""
    c = np.array([list(k) + [1.0] * (4 - len(k)) for k in cols])
    if kind == "hsv":
        c[:, :3] = mc.rgb_to_hsv(c[:, :3])
    w = np.array([max(1 - np.hypot(x - a, y - b), 0.0) for a, b in coords])
    if w.sum() < 1e-3:
        return None
    v = (c * w[:, None]).sum(axis=0) / w.sum() / 1.0001
    if kind == "hsv":
        v[:3] = mc.hsv_to_rgb(v[:3])
    return v


_BOWER = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, 0.0]], [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]


def run_map(case, ctx):
    kind = case["kind"]
    if kind in ("rgb", "hsv") and case["seed"] % 4:
        raise Skip  # building a grid takes a second
    n = len(case["colors"])
    cols, coords = [list(c) for c in case["colors"]], [list(c) for c in case["coords"][:n]]
    size = (256, 256)
    if kind == "bower":
        m, (cols, coords) = cmaps.bower, _BOWER
    elif kind == "image":
        from PIL import Image
        img = np.random.default_rng(case["seed"]).integers(0, 256, (*case["size"], len(case["mode"])), dtype=np.uint8)
        path = ctx.path() + ".png"
        Image.fromarray(img).save(path)
        m = cmaps.ImageCmap2D(path, name="x")
        size = case["size"]
    else:
        m = {"rgb": cmaps.LinearSegmentedCmap2D, "hsv": cmaps.LinearSegmentedCmap2DHSV}[kind](colors=cols, coordinates=coords, name="n", description="d")
    V = np.array(case["values"])
    if case["form"] == "f4":
        V = V.astype(np.float32).astype(float)
    sh = (len(V), 1) if case["form"] == "array2" else (len(V),)
    f = {"list": list, "tuple": tuple, "f4": lambda v: v.astype(np.float32)}.get(case["form"], lambda v: v.reshape(sh))
    a, b = f(V[:, 0]), f(V[:, 1])
    got = m(a, b)
    ctx.label(kind, case["form"])
    if n < 2 and kind in ("rgb", "hsv"):
        ctx.trivial()
    ctx.check(got.shape == (*sh, 4), f"colours of shape {got.shape} for values of shape {sh}")
    for (p, q), c in zip(V, got.reshape(-1, 4)):
        i, j = ((s - 1) * np.clip(t, 0, 1) for s, t in zip(size, (p, q)))
        cand = {(int(k), int(l)) for k in (i - 1e-5 if i > 1e-5 else i, min(i + 1e-5, size[0] - 1)) for l in (j - 1e-5 if j > 1e-5 else j, min(j + 1e-5, size[1] - 1))}
        if kind == "image":
            want = [np.append(img[k], 255)[:4] / 255 for k in cand]
        else:
            want = [mixed(kind, cols, coords, l / 255, k / 255) for k, l in cand]
            if any(w is None for w in want):
                continue
            if kind == "hsv" and any(np.ptp(w[:3]) < 1e-3 for w in want):
                continue
        ctx.check(any(np.allclose(c, w, atol=2e-5 if kind != "hsv" else 3e-4) for w in want), f"{kind}: values ({p}, {q}) give {c}, expected {want}")


def render_case():
    return st.fixed_dictionaries({"shape": st.tuples(*[st.integers(1, 5)] * 3), "cube": st.booleans(), "seed": st.integers(0, 10**6), "f4": st.booleans(), "centers": st.lists(st.floats(-1, 3), min_size=1, max_size=4, unique=True),
                                  "widths": st.one_of(st.floats(0.05, 2), st.lists(st.floats(0.05, 2), min_size=4, max_size=4)), "type": st.sampled_from(["all", "lighten", "add"]), "cmap": st.sampled_from(["viridis", "magma"]),
                                  "norm": st.sampled_from(["none", "one", "list"])})


def run_render(case, ctx):
    s = case["shape"] if not case["cube"] else (case["shape"][0],) * 3
    d = np.random.default_rng(case["seed"]).normal(1, 1, s).astype(np.float32 if case["f4"] else float)
    centers = case["centers"]
    widths = case["widths"] if isinstance(case["widths"], float) else case["widths"][:len(centers)]
    W = [widths] * len(centers) if isinstance(widths, float) else widths
    raw = [(np.exp(-0.5 * ((c - d.astype(float)) / w) ** 2) / (w * np.sqrt(2 * np.pi))).sum(axis=2) for c, w in zip(centers, W)]
    one = np.asarray(vr.render_voxels_to_array(d, centers[0], W[0]))
    ctx.check(one.shape == raw[0].T.shape and np.allclose(one, raw[0].T, rtol=1e-5, atol=1e-9), f"render_voxels_to_array gave {one}, expected {raw[0].T}")
    if case["norm"] == "none" and any(np.ptp(r) < 1e-6 for r in raw):
        raise Skip
    norm = {"none": None, "one": plt.Normalize(0.0, 2.0), "list": [plt.Normalize(0.0, 1.0 + k) for k in range(len(centers))]}[case["norm"]]
    out, norms = vr.visualise_render(d, centers, widths, cmap=case["cmap"], return_type=case["type"], norm=norm)
    col = plt.get_cmap(case["cmap"])(np.linspace(0, 1, len(centers)))[:, :3]
    want = []
    for k, (r, c) in enumerate(zip(raw, col)):
        lo, hi = {"none": (r.min(), r.max()), "one": (0.0, 2.0), "list": (0.0, 1.0 + k)}[case["norm"]]
        want.append((r - lo)[:, :, None] / (hi - lo) * c)
        if case["norm"] == "none":
            ctx.check(np.isclose(norms[k].vmin, lo, rtol=1e-4, atol=1e-6) and np.isclose(norms[k].vmax, hi, rtol=1e-4), f"norm {k} covers {norms[k].vmin} to {norms[k].vmax}, image {lo} to {hi}")
    ctx.check(len(norms) == len(centers), f"{len(norms)} norms for {len(centers)} centres")
    if len(centers) < 2:
        ctx.trivial()
    ctx.label(case["type"], case["norm"])
    spread = max([1.0] + [r.max() / np.ptp(r) for r in raw if case["norm"] == "none"])
    if case["type"] == "all":
        ctx.check(len(out) == len(want) and all(np.allclose(o, w, atol=1e-5 * spread, rtol=1e-4) for o, w in zip(out, want)), f"images {out}, expected {want}")
    else:
        w = np.max(want, axis=0) if case["type"] == "lighten" else np.sum(want, axis=0)
        ctx.check(np.asarray(out).shape == w.shape and np.allclose(out, w, atol=1e-5 * spread, rtol=1e-4), f"{case['type']}: {out}, expected {w}")


CHECKS = [SubCheck("maps", map_case, run_map, quick=2500, thorough=30000, weight=3, rule="colours against the weighted mean of the map's colours, or the pixels of its image"),
          SubCheck("render", render_case, run_render, quick=5000, thorough=100000, weight=2, rule="rendering functions against their Gaussian sums")]
