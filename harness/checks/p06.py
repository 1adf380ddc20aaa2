"""P06: selecting rows of a group catalogue returns exactly those rows of every dataset."""
import warnings

import h5py
import numpy as np
from hypothesis import strategies as st

import swiftsimio as sw
from harness import masking as mk
from harness import snap
from harness.core import SubCheck

RULE = "non-trivial = the selection is neither empty nor the whole catalogue"
ASSUMPTIONS = ["row numbers are distinct and inside the catalogue (the documented domain)"]


def case_():
    return st.fixed_dictionaries({
        "soap": st.one_of(snap.soap_case(), snap.soap_case().map(lambda s: dict(s, occ=1.0, maxc=max(s["maxc"], 6)))),
        "idx": st.lists(st.integers(0, 10**6), min_size=1, max_size=8) | st.permutations(list(range(30))).map(lambda p: p[:6]),
        "how": st.sampled_from(["indices", "indices", "indices", "index"]),
        "container": st.sampled_from(["list", "array", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "int8"]),
        "sort": st.sampled_from([False, False, True]),
        "repr": st.sampled_from(["range", "range", "range", "bool-before", "bool-after", "bool-range"]),
    })


def run(case, ctx):
    mk.quiet()
    path = ctx.path()
    m = snap.build_soap(case["soap"], path)
    idx = list(dict.fromkeys(i % m.n for i in case["idx"]))
    if case["sort"]:
        idx = sorted(idx)
    mask = sw.mask(path)
    if case["repr"] == "bool-before":
        mask.convert_masks_to_bool()
    if case["how"] == "index":
        idx = idx[:1]
        mask.constrain_index(idx[0])
    else:
        user = {"list": list, "array": np.array}.get(case["container"], lambda x: np.array(x, dtype=case["container"] if max(x) < 128 else "int64"))(idx)
        before = list(idx)
        mask.constrain_indices(user)
        ctx.check(list(user) == before, "the list of rows given by the user was modified")
    if case["repr"].startswith("bool-") and case["repr"] != "bool-before":
        mask.convert_masks_to_bool()
    if case["repr"] == "bool-range":
        mask.convert_masks_to_ranges()
    want = np.sort(idx)
    rows = mk.rows_of(mask, "input_halos")
    ctx.check(np.array_equal(rows, want), lambda: f"mask selects {rows.tolist()}, not {want.tolist()}")
    data = sw.load(path, mask=mask)
    for g in m.groups:
        for f, arr in m.groups[g].items():
            got = getattr(getattr(data, g), snap.snake(f))
            ctx.check(np.array_equal(np.asarray(got), arr[want]) and got.shape == arr[want].shape,
                      lambda: f"{g}.{f}: rows {want.tolist()} gave {np.asarray(got)} not {arr[want]}")
    for again in (lambda: mask.constrain_index(0), lambda: mask.constrain_indices([0]),
                  lambda: mask.constrain_spatial([[0 * b, 0.5 * b] for b in mask.metadata.boxsize], union=True)):
        try:
            again()
        except RuntimeError:
            continue
        ctx.fail("a second selection on top of a row selection was accepted")
    ctx.check(np.array_equal(mk.rows_of(mask, "input_halos"), want), "a refused selection changed the mask")
    if len(want) == m.n:
        ctx.trivial()


def refused_case():
    return st.fixed_dictionaries({"kind": st.sampled_from(["snapshot", "soap-subset", "snapshot"]), "snap": snap.snapshot_case(max_cells=2, fields=False),
                                  "soap": snap.soap_case(max_cells=2),
                                  "idx": st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True), "one": st.booleans(), "bool": st.booleans()})


def run_refused(case, ctx):
    """Snapshots have no common rows (refused); subset catalogues do (accepted)."""
    mk.quiet()
    path = ctx.path()
    if case["kind"] == "snapshot":
        m = snap.build_snapshot(case["snap"], path)
    else:
        m = snap.build_soap(case["soap"], path, output_type="SOAPSubset")
    mask = sw.mask(path)
    if case["bool"]:
        mask.convert_masks_to_bool()
    before = {g: mk.rows_of(mask, g) for g in m.groups}
    idx = case["idx"]
    if case["kind"] != "snapshot":
        idx = sorted({i % m.n for i in idx})
    try:
        mask.constrain_index(idx[0]) if case["one"] else mask.constrain_indices(idx)
    except RuntimeError:
        ctx.check(case["kind"] == "snapshot", "row selection refused for a group catalogue")
        for g in m.groups:
            ctx.check(np.array_equal(before[g], mk.rows_of(mask, g)), "refused row selection changed the mask")
        mask.constrain_spatial([[0 * b, 0.9 * b] for b in mask.metadata.boxsize])
        return
    ctx.check(case["kind"] != "snapshot", "row selection accepted for a snapshot, whose arrays differ in length")
    want = np.array(idx[:1] if case["one"] else idx)
    ctx.check(np.array_equal(mk.rows_of(mask, "input_halos"), want), "wrong rows in a subset catalogue")


CHECKS = [
    SubCheck("rows", case_, run, quick=500, thorough=12000, weight=3,
             rule="lists and arrays of several integer types, unsorted, before/after conversion between the two representations"),
    SubCheck("refused", refused_case, run_refused, quick=120, thorough=1500, weight=1, rule="files without common rows"),
]
QUICK_BUDGET = 50
