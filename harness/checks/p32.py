"""P32: datasets open at the same time, and files replaced between loads, do not influence one another."""
import os

import h5py
import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw
from harness import masking as mk
from harness import snap
from harness.checks import p02
from harness.core import SubCheck

RULE = "non-trivial = fields or metadata are checked while datasets of at least two different files (or versions of one) have been opened"
ASSUMPTIONS = ["a dataset whose file has been replaced since it was opened is no longer used"]
H0S = [2.0, 70.0, 0.3]


def one_file():
    kind = st.sampled_from(["snap", "snap", "soap"])
    return kind.flatmap(lambda k: st.fixed_dictionaries({
        "kind": st.just(k),
        "c": snap.snapshot_case(max_cells=2, orders=("grid", "perm")) if k == "snap" else snap.soap_case(max_cells=2),
        "named": st.integers(0, 2),
        "h0": st.integers(0, 2),
    }))


def op():
    return st.fixed_dictionaries({
        "op": st.sampled_from(["open", "open", "get", "get", "get", "edit", "convert", "del", "meta", "meta", "mask", "replace"]),
        "s": st.integers(0, 3), "file": st.integers(0, 2), "how": st.integers(0, 3),
        "g": st.integers(0, 3), "f": st.integers(0, 8), "c": st.integers(0, 3),
    })


def case_():
    return st.fixed_dictionaries({
        "files": st.lists(one_file(), min_size=2, max_size=4),
        "ops": st.lists(op(), min_size=4, max_size=16),
    })


def build(spec, path):
    c = spec["c"]
    if spec["kind"] == "soap":
        m = snap.build_soap(c, path)
    else:
        if spec["named"]:
            c = dict(c)
            c["types"] = [dict(t) for t in c["types"]]
            for t in c["types"]:
                if not any(f[0] == "ElementMassFractions" for f in t["fields"]):
                    t["fields"] = t["fields"] + [["ElementMassFractions", 0, 0, 0]]
        m = snap.build_snapshot(c, path)
    m.usys, m.a, m.spec = c["usys"], c["a"], spec
    m.columns = {}
    with h5py.File(path, "r+") as f:
        f["Cosmology"].attrs["H0 [internal units]"] = np.array([H0S[spec["h0"]]])
        if spec["kind"] == "snap" and m.named:
            nc = f["SubgridScheme/NamedColumns"]
            for k, v in m.named.items():
                v = list(v)
                if spec["named"] == 2:      # another order of the same names
                    v = v[::-1]
                    del nc[k]
                    nc.create_dataset(k, data=np.array([x.encode() for x in v], dtype="S32"))
                m.columns[k] = [x.lower() for x in v] if k == "ElementMassFractions" else v
    return m


class Slot:
    pass


def compare(ctx, what, s, g, f, column):
    m = s.m
    owner = getattr(s.data, g)
    attr, truth = snap.snake(f), m.groups[g][f]
    if f in m.columns:
        owner = getattr(owner, attr)
        ctx.check(list(owner.named_columns) == m.columns[f], lambda: f"{what}: columns {owner.named_columns}, the file has {m.columns[f]}")
        i = column % len(m.columns[f])
        attr, truth = m.columns[f][i], truth[:, i]
    if s.rows is not None:
        truth = truth[s.rows[g]]
    key = (g, f, attr)
    if key in s.edited:
        got = getattr(owner, attr)
        ctx.check(got is s.edited[key][0] and np.asarray(got).tobytes() == s.edited[key][1].tobytes(),
                  lambda: f"{what}: the user's own values were lost: {np.asarray(got)} for {s.edited[key][1]}, {got is s.edited[key][0]}")
        return owner, attr, key, got
    x = getattr(owner, attr)
    xv = np.asarray(x)
    ctx.check(xv.shape == truth.shape and np.array_equal(xv, truth), lambda: f"{what}: {xv[:4]}, this file has {truth[:4]}")
    i = m.attrs[(g, f)]
    p02.check_units(ctx, what, x.units, m.usys, i["exps"])
    ctx.check(x.comoving == (not i["physical"]) and x.valid_transform == i["valid"], lambda: f"{what}: flags of {x!r}")
    ctx.check(float(x.cosmo_factor.scale_factor) == m.a and np.isclose(float(x.cosmo_factor.a_factor), m.a ** i["aexp"], rtol=1e-12),
              lambda: f"{what}: {x.cosmo_factor}, this file has a={m.a} exponent {i['aexp']}")
    ctx.check(i["description"] in str(x.name), lambda: f"{what}: described as {x.name!r}")
    return owner, attr, key, x


def check_meta(ctx, what, s):
    m, md = s.m, s.data.metadata
    ctx.check(sorted(md.present_group_names) == sorted(m.groups), lambda: f"{what}: groups {md.present_group_names}, this file has {sorted(m.groups)}")
    ctx.check(np.array_equal(np.asarray(md.boxsize), m.box), lambda: f"{what}: box {md.boxsize}, this file has {m.box}")
    p02.check_units(ctx, what + " box", md.boxsize.units, m.usys, (1, 0, 0, 0, 0))
    ctx.check(float(md.a) == m.a and float(md.boxsize.cosmo_factor.scale_factor) == m.a, lambda: f"{what}: a={md.a}, this file has {m.a}")
    for nm, e in (("length", (1, 0, 0, 0, 0)), ("mass", (0, 1, 0, 0, 0)), ("time", (0, 0, 1, 0, 0))):
        un = getattr(md.units, nm)
        fac = float(un.in_base("mks").value)
        ctx.check(abs(fac / p02.mks_factor(m.usys, e) - 1) < 2e-4, lambda: f"{what}: unit of {nm} is {un}")
    ctx.check(float(md.cosmology_raw["H0 [internal units]"][0]) == H0S[m.spec["h0"]], lambda: f"{what}: H0 {md.cosmology_raw['H0 [internal units]']}")
    for g in m.groups:
        n = len(next(iter(m.groups[g].values())))
        fields = getattr(md, f"{g}_properties").field_names
        ctx.check(sorted(fields) == sorted(snap.snake(f) for f in m.groups[g]), lambda: f"{what}: fields of {g} {fields}")
        if m.spec["kind"] == "snap":
            ctx.check(int(getattr(md, f"n_{g}")) == n, lambda: f"{what}: n_{g}={getattr(md, f'n_{g}')}, this file has {n}")
    if s.mask is not None:
        for g in m.groups:
            got = mk.rows_of(s.mask, g)
            ctx.check(np.array_equal(got, s.rows[g]), lambda: f"{what}: the mask now selects other rows of {g}")


def run(case, ctx):
    mk.quiet()
    specs = case["files"]
    nfiles = min(2, len(specs))
    paths = [ctx.path(f"file{i}.hdf5") for i in range(nfiles)]
    models = [build(specs[i], paths[i]) for i in range(nfiles)]
    version = list(range(nfiles))
    slots, opened, handles = {}, set(), []
    settings = (np.geterr(), os.getcwd(), u.unyt_quantity(1, "Mpc").to_value("m"), u.unyt_quantity(1, "Msun").to_value("kg"))
    rich = False

    def drop(fi):
        for k in [k for k, s in slots.items() if s.file == fi]:
            s = slots.pop(k)
            if s.handle is not None:
                s.handle.close()

    try:
        for n, o in enumerate([{"op": "open", "s": 0, "file": 0, "how": 0}, {"op": "open", "s": 1, "file": 1, "how": 1}] + case["ops"]):
            fi = o["file"] % nfiles
            if o["op"] == "open":
                old = slots.pop(o["s"], None)
                if old is not None and old.handle is not None:
                    old.handle.close()
                s = Slot()
                s.file, s.m, s.mask, s.rows, s.handle, s.edited = fi, models[fi], None, None, None, {}
                obj = paths[fi]
                if o["how"] >= 2:
                    obj = s.handle = h5py.File(paths[fi], "r")
                if o["how"] % 2:
                    s.mask = sw.mask(obj)
                    b = s.mask.metadata.boxsize
                    k = (n % 3) * 0.3
                    s.mask.constrain_spatial([[k * b[0], (k + 0.35) * b[0]], None, None])
                    s.mask.convert_masks_to_ranges()
                    s.rows = {g: mk.rows_of(s.mask, g).copy() for g in s.m.groups}
                s.data = sw.load(obj, mask=s.mask) if s.mask is not None else sw.load(obj)
                slots[o["s"]] = s
                opened.add((fi, version[fi]))
                continue
            if o["op"] == "replace":
                drop(fi)
                alt = specs[(version[fi] + 1) % len(specs)]
                version[fi] += 1
                models[fi] = build(alt, paths[fi])
                ctx.label("file replaced")
                continue
            if o["op"] == "mask":
                other = sw.mask(paths[fi])
                b = other.metadata.boxsize
                other.constrain_spatial([None, [0 * b[1], 0.3 * b[1]], None])
                other.convert_masks_to_bool()
                continue
            if o["s"] not in slots:
                if not slots:
                    continue
                s = slots[sorted(slots)[o["s"] % len(slots)]]
            else:
                s = slots[o["s"]]
            rich |= len(opened) > 1
            g = sorted(s.m.groups)[o["g"] % len(s.m.groups)]
            f = sorted(s.m.groups[g])[o["f"] % len(s.m.groups[g])]
            what = f"step {n + 1} ({o['op']}), {g}.{f} of file {s.file} version {version[s.file]}"
            if o["op"] == "meta":
                check_meta(ctx, what, s)
                continue
            owner, attr, key, x = compare(ctx, what, s, g, f, o["c"])
            if o["op"] == "edit":
                x[...] = x[...] * 0
                s.edited[key] = (x, np.asarray(x).copy())
            elif o["op"] == "convert" and x.dtype.kind == "f" and x.dtype.itemsize > 2 and x.valid_transform:
                x.convert_to_physical()
                x.convert_to_base("mks")
                s.edited[key] = (x, np.asarray(x).copy())
            elif o["op"] == "del":
                delattr(owner, attr)
                s.edited.pop(key, None)
        for k, s in sorted(slots.items()):
            check_meta(ctx, f"finally, slot {k}", s)
            for g in s.m.groups:
                for f in s.m.groups[g]:
                    for c in range(len(s.m.columns.get(f, [0]))):
                        compare(ctx, f"finally, slot {k}: {g}.{f} of file {s.file}", s, g, f, c)
        now = (np.geterr(), os.getcwd(), u.unyt_quantity(1, "Mpc").to_value("m"), u.unyt_quantity(1, "Msun").to_value("kg"))
        ctx.check(now == settings, lambda: f"settings of the process changed: {settings} -> {now}")
    finally:
        for s in slots.values():
            if s.handle is not None:
                s.handle.close()
    ctx.label(f"versions={len(opened)}", *[f"kind={s['kind']}" for s in specs[:2]])
    if not rich:
        ctx.trivial()


CHECKS = [
    SubCheck("interleaved", case_, run, quick=320, thorough=10000,
             rule="histories over two paths: open (masked or not, by path or handle), read, edit, convert, delete, mask again, replace the file; every dataset checked against its own file"),
]
QUICK_BUDGET = 45
