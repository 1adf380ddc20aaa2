"""P01: reading row ranges returns exactly the requested rows, in the requested order."""
import h5py
import numpy as np
from hypothesis import strategies as st

from harness.core import SubCheck
from swiftsimio import accelerated

RULE = "a case is a dataset layout plus a list of row ranges; non-trivial = at least two non-empty ranges or a range that is not the whole dataset"
ASSUMPTIONS = ["ranges handed to the HDF5 readers are sorted and do not overlap (what masks produce)"]

DT = ["<f8", "<f4", ">f8", "<i8", "|u1", ">f4", "<f2", "<u8", "<i4", ">u8", "|b1", ">f2", "<i2"]


@st.composite
def layout(draw, unsorted=False):
    # alternating gap/length runs; zero-length ranges and adjacent ranges included
    runs = draw(
        st.lists(
            st.tuples(st.integers(0, 6), st.sampled_from([0, 1, 1, 2, 3, 5, 9, 17])), min_size=1, max_size=14
        )
    )
    scale = draw(st.sampled_from([1, 1, 1, 7, 40]))
    tail = draw(st.integers(0, 20))
    ranges, pos = [], 0
    for gap, ln in runs:
        pos += gap * scale
        ranges.append([pos, pos + ln * scale])
        pos += ln * scale
    n = max(pos + tail, 1)
    if unsorted:
        ranges = draw(st.permutations(ranges))
        ranges = [list(r) for r in ranges]
    return {
        "ranges": ranges,
        "n": n,
        "ncol": draw(st.sampled_from([0, 0, 1, 2, 3, 5])), "colchunk": draw(st.booleans()),
        "col": draw(st.sampled_from([-1, -1, 0, 1])),
        "dtype": draw(st.integers(0, len(DT) - 1)),
        "chunk": draw(st.sampled_from([0, 1, 2, 3, 4, 7, 16, 100])),
    }


def make_data(case):
    n, ncol = case["n"], case["ncol"]
    size = n * max(ncol, 1)
    dt = np.dtype(DT[case["dtype"]])
    k = np.arange(size, dtype=np.uint64)
    if dt.kind == "f":
        d = ((k % 251 + 1) + 0.5).astype(dt)
    elif dt.kind == "b":
        d = (k * 7 % 5) < 2
    else:
        # every bit of the type is used, so that a detour through another type shows
        d = (k * np.uint64(0x9E3779B97F4A7C15) ^ (k << np.uint64(1))).astype(dt.newbyteorder("=")).astype(dt)
    return d if ncol == 0 else d.reshape(n, ncol)


def expected(data, ranges, col):
    parts = [data[s:e] if data.ndim == 1 else (data[s:e] if col < 0 else data[s:e, col]) for s, e in ranges]
    return np.concatenate(parts)


def args_for(case, data):
    n = sum(e - s for s, e in case["ranges"])
    if data.ndim == 1:
        return n, np.s_[:], -1
    if case["col"] < 0:
        return (n, data.shape[1]), np.s_[:], -1
    col = min(case["col"], data.shape[1] - 1)
    return n, col, col


def classify(case, ctx):
    ne = [r for r in case["ranges"] if r[1] > r[0]]
    ctx.label(f"chunked={case['chunk'] > 0}", f"2d={case['ncol'] > 0}", f"empty_range={len(ne) < len(case['ranges'])}",
              f"bigendian={DT[case['dtype']][0] == '>'}")
    if len(ne) < 2 and (not ne or ne[0] == [0, case["n"]]):
        ctx.trivial()


def run_h5(case, ctx):
    data = make_data(case)
    classify(case, ctx)
    ranges = np.array(case["ranges"], dtype=np.int64)
    shape, columns, col = args_for(case, data)
    want = expected(data, case["ranges"], col)
    with h5py.File("x", "w", driver="core", backing_store=False) as f:
        kw = {}
        if case["chunk"]:
            kw["chunks"] = (min(case["chunk"], case["n"]),) + ((1,) if data.ndim > 1 and case.get("colchunk") else data.shape[1:])
        d = f.create_dataset("d", data=data, **kw)
        fns = [("auto", accelerated.read_ranges_from_file), ("unchunked", accelerated.read_ranges_from_file_unchunked)]
        if case["chunk"]:
            fns.append(("chunked", accelerated.read_ranges_from_file_chunked))
        for nm, fn in fns:
            rcopy = ranges.copy()
            got = fn(d, ranges, output_shape=shape, output_type=data.dtype, columns=columns)
            ctx.check(np.array_equal(ranges, rcopy), f"{nm}: ranges argument modified")
            compare(ctx, nm, got, want)


def compare(ctx, nm, got, want):
    ctx.check(got.shape == want.shape, lambda: f"{nm}: shape {got.shape} != {want.shape}")
    ctx.check(got.dtype.isnative, lambda: f"{nm}: result dtype {got.dtype} is not native")
    ctx.check(np.array_equal(got, want),
              lambda: f"{nm}: values differ from direct indexing\n got={got.ravel()[:12]}\nwant={want.ravel()[:12]}")


class FakeRemote:
    """Stand-in for a remote dataset that enforces the documented request contract."""

    def __init__(self, data, chunk):
        self.data, self.ndim, self.dtype, self.shape = data, data.ndim, data.dtype, data.shape
        self.chunks = (chunk,) + data.shape[1:] if chunk else None
        self.requests = []

    def request_slices(self, slices, dest=None):
        out, last = [], -1
        for s in slices:
            rows = s[0] if isinstance(s, tuple) else s
            assert rows.start < rows.stop, "empty slice requested"
            assert rows.start >= last, "slices requested out of order or overlapping"
            last = rows.stop
            out.append(self.data[s])
        res = np.concatenate(out).astype(self.dtype)
        self.requests.append(slices)
        if dest is None:
            return res
        assert dest.shape == res.shape, (dest.shape, res.shape)
        assert dest.dtype == res.dtype
        dest[...] = res
        return dest


def run_remote(case, ctx):
    data = make_data(case)
    classify(case, ctx)
    srt = all(a[1] <= b[0] for a, b in zip(case["ranges"], case["ranges"][1:]))
    ctx.label(f"sorted={srt}")
    ranges = np.array(case["ranges"], dtype=np.int64)
    shape, columns, col = args_for(case, data)
    want = expected(data, case["ranges"], col)
    d = FakeRemote(data, case["chunk"])
    got = accelerated.read_ranges_from_file(d, ranges, output_shape=shape, output_type=data.dtype, columns=columns)
    compare(ctx, "remote", got, want)
    ctx.check(len(d.requests) <= 1, f"{len(d.requests)} requests for one read")


@st.composite
def overlap_case(draw):
    c = draw(layout())
    ne = [i for i, r in enumerate(c["ranges"]) if r[1] > r[0]]
    if not ne:
        c["ranges"] = [[0, 1]]
        ne = [0]
    i = draw(st.sampled_from(ne))
    s, e = c["ranges"][i]
    a = draw(st.integers(s, e - 1))
    b = draw(st.integers(a + 1, e))
    k = draw(st.integers(0, len(c["ranges"])))
    c["ranges"].insert(k, [a, b])
    return c


def run_overlap(case, ctx):
    data = make_data(case)
    d = FakeRemote(data, 0)
    shape, columns, col = args_for(case, data)
    try:
        accelerated.read_ranges_from_file(
            d, np.array(case["ranges"], dtype=np.int64), output_shape=shape, output_type=data.dtype, columns=columns)
    except RuntimeError:
        return
    ctx.fail("overlapping ranges were accepted for a remote request")


def run_ids(case, ctx):
    ids = np.array(case["ids"], dtype=np.int64)
    r = accelerated.ranges_from_array(ids)
    if len(ids) < 2:
        ctx.trivial()
    r = np.asarray(r)
    ctx.check(r.ndim == 2 and r.shape[1] == 2, lambda: f"shape {r.shape}")
    exp = np.concatenate([np.arange(a, b) for a, b in r]) if len(r) else np.array([], int)
    ctx.check(np.array_equal(exp, ids), lambda: f"ranges {r.tolist()} do not enumerate {ids.tolist()}")
    if len(ids):
        ctx.check(bool(np.all(r[:, 1] > r[:, 0])) and bool(np.all(r[1:, 0] > r[:-1, 1])),
                  lambda: f"ranges {r.tolist()} are not maximal and increasing")
    else:
        ctx.check(r.tolist() == [[0, 0]], lambda: f"empty id list gives {r.tolist()}")
    e2 = accelerated.expand_ranges(r)
    ctx.check(np.array_equal(e2, ids), lambda: f"expand_ranges(ranges_from_array(x)) != x: {e2} vs {ids}")
    n = (int(ids.max()) if len(ids) else 0) + 3
    data = (np.arange(n) * 3 + 1).astype([">f4", "<f8", "<i8"][case["dt"]])
    with h5py.File("x", "w", driver="core", backing_store=False) as f:
        d = f.create_dataset("d", data=data, chunks=(min(case["chunk"], n),) if case["chunk"] else None)
        if len(ids):
            got = accelerated.index_dataset(d, ids)
            ctx.check(np.array_equal(got, data[ids]), "index_dataset differs from fancy indexing")


@st.composite
def ids_case(draw):
    gaps = draw(st.lists(st.sampled_from([1, 1, 1, 1, 2, 3, 50]), max_size=40))
    start = draw(st.integers(0, 5))
    return {"ids": (start + np.cumsum([0] + gaps)).tolist() if draw(st.integers(0, 12)) else [],
            "chunk": draw(st.sampled_from([0, 1, 3, 8])), "dt": draw(st.integers(0, 2))}


def run_big(case, ctx):
    """Mean range length around the chunked/unchunked cross-over (5e5 rows)."""
    n = 1_300_000
    data = (np.arange(n) % 251).astype("|u1")
    a, ln, gap, ln2 = case["start"], case["len"], case["gap"], case["len2"]
    ranges = [[a, a + ln], [a + ln + gap, min(a + ln + gap + ln2, n)]]
    ctx.label(f"above={np.diff(ranges).mean() >= 5e5}")
    with h5py.File("x", "w", driver="core", backing_store=False) as f:
        d = f.create_dataset("d", data=data, chunks=(case["chunk"],))
        r = np.array(ranges)
        got = accelerated.read_ranges_from_file(d, r, output_shape=int(np.diff(r).sum()), output_type=data.dtype)
        compare(ctx, "big", got, np.concatenate([data[s:e] for s, e in ranges]))


CHECKS = [
    SubCheck("h5_ranges", layout, run_h5, quick=2400, thorough=60000, weight=3,
             rule="sorted ranges (zero-length, adjacent, gapped) x 1D/2D/column x dtype/endianness x chunking, all three readers vs direct indexing"),
    SubCheck("remote_ranges", lambda: layout(unsorted=True), run_remote, quick=1600, thorough=30000, weight=2,
             rule="ranges in any order through a contract-enforcing remote dataset"),
    SubCheck("remote_overlap", overlap_case, run_overlap, quick=300, thorough=5000,
             rule="one range overlapped by another must be refused"),
    SubCheck("ids_to_ranges", ids_case, run_ids, quick=800, thorough=20000,
             rule="sorted unique ids <-> ranges round trip"),
    SubCheck("crossover", lambda: st.fixed_dictionaries({
        "start": st.integers(0, 1000), "len": st.integers(1, 640000), "gap": st.sampled_from([0, 1, 777]),
        "len2": st.integers(1, 640000), "chunk": st.sampled_from([1000, 4096, 65536])}), run_big, quick=24, thorough=400,
        rule="ranges around the size where the reading strategy switches"),
]
