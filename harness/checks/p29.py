"""P29: each kind of output is recognised and offers exactly the groups, fields and attributes it has."""
import h5py
import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw
import swiftsimio.metadata.particle as particle_metadata
from harness import masking as mk
from harness import snap
from harness.checks.p02 import check_units
from swiftsimio.objects import InvalidSnapshot
from harness.core import SubCheck

RULE = "non-trivial = more than one group, or group attributes, named columns or mappings are present"
ASSUMPTIONS = ["catalogues and sightlines follow the layout of SWIFT's FOF and line-of-sight files and of SOAP"]

CLASSES = {
    "FullVolume": "SWIFTSnapshotMetadata", "VolumeSubset": "SWIFTSnapshotMetadata",
    "LineOfSight": "SWIFTLineOfSightMetadata", "SOAP": "SWIFTSOAPMetadata", "SOAPSubset": "SWIFTSOAPMetadata",
    "FOF": "SWIFTFOFMetadata", "FOFSubset": "SWIFTFOFMetadata", None: "SWIFTSnapshotMetadata",
}
KINDS = [None] + [k for k in CLASSES if k]
FOF_FIELDS = [("Centres", 3, (1, 0, 0, 0, 0), 1.0), ("Masses", 1, (0, 1, 0, 0, 0), 0.0), ("Radii", 1, (1, 0, 0, 0, 0), 1.0)]


def field(draw_names):
    return st.tuples(st.sampled_from(draw_names), st.integers(0, 3), st.sampled_from([0, 0, 1, 2])).map(list)


def kinds_case():
    names = [f[0] for f in snap.FIELD_POOL if f[0] not in snap.NAMED_COLUMNS]
    return st.fixed_dictionaries({
        "kind": st.sampled_from(KINDS + ["LineOfSight", "FOF"]),
        "unknown": st.sampled_from([None] * 7 + ["Other", "fullvolume", "Snapshot", "FOFs", ""]),
        "spelling": st.sampled_from(["bytes", "str", "fixed"]),
        "snap": snap.snapshot_case(max_cells=2, orders=("grid",)),
        "soap": snap.soap_case(max_cells=2),
        "los": st.lists(st.fixed_dictionaries({
            "n": st.integers(0, 9),
            "idx": st.integers(0, 12),
            "xpos": st.floats(0.0, 1.0), "ypos": st.floats(0.0, 1.0),
            "which": st.sampled_from(["xy", "yz", "xz", "xyz"]),
            "axes": st.permutations([0, 1, 2]),
            "extra": st.sampled_from([None, None, "scalar", "vector", "int"]),
            "fields": st.lists(field(names), max_size=4, unique_by=lambda f: f[0]),
        }), min_size=1, max_size=4, unique_by=lambda l: l["idx"]),
        "fof": st.fixed_dictionaries({
            "n": st.integers(0, 12), "fields": st.lists(field(names), max_size=3, unique_by=lambda f: f[0]),
        }),
        "a": st.sampled_from([1.0, 0.5, 0.2]),
        "parts": st.sampled_from([1, 1, 2, 16]),
        "usys": st.integers(0, len(snap.UNIT_SYSTEMS) - 1),
        "seed": st.integers(0, 10**6),
        "hist": st.lists(st.tuples(st.sampled_from(["get", "set", "del"]), st.integers(0, 30), st.integers(0, 5)).map(list), max_size=6),
    })


def write_fields(f, gname, sname, flds, n, rng, m):
    g = f.require_group(gname)
    m.groups[sname], m.paths[sname] = {}, gname
    for fname, dt, phys in flds:
        _, ncol, kind, exps, aexp = snap.FIELD[fname]
        dtype = snap.FLOAT_DTYPES[dt] if kind == "f" else (snap.INT_DTYPES[dt % 4] if kind == "i" else "|u1")
        put_field(g, sname, fname, snap.field_values(fname, ncol, dtype, n, rng), exps, aexp, phys, m)


def put_field(g, sname, fname, arr, exps, aexp, phys, m):
    d = g.create_dataset(fname, data=arr)
    snap.write_field_attrs(d, exps, aexp, phys > 0, phys != 2, f"{fname} of {g.name}")
    m.groups[sname][fname] = arr.astype(arr.dtype.newbyteorder("="))
    m.attrs[(sname, fname)] = dict(exps=exps, aexp=aexp, physical=phys > 0, valid=phys != 2, description=f"{fname} of {g.name}")


def base(f, case, kind, extra):
    snap.write_units(f, case["usys"])
    snap.header(f, {"a": case["a"], "box": [2.0, 3.0, 5.0]}, kind, extra)
    snap.cosmology_group(f, case["a"])
    f.create_group("Parameters").attrs["x"] = np.bytes_("y")


def build_los(case, path):
    m = snap.Model()
    rng = np.random.default_rng(case["seed"])
    m.gattrs = {}
    with h5py.File(path, "w") as f:
        base(f, case, "LineOfSight", {"NumPart_ThisFile": np.zeros(8, dtype=np.int64)})
        for l in case["los"]:
            gname = f"LOS_{l['idx']:04d}"
            sname = gname.lower()
            write_fields(f, gname, sname, l["fields"], l["n"], rng, m)
            put_field(f[gname], sname, "Coordinates", rng.random((l["n"], 3)), (1, 0, 0, 0, 0), 1.0, 0, m)
            at = {"NumParts": np.array([l["n"]], dtype=np.int32)}
            for k, ax in zip(["Xaxis", "Yaxis", "Zaxis"], l["axes"]):
                at[k] = np.array([ax], dtype=np.int32)
            for c in l["which"]:
                at[f"{c.upper()}pos"] = np.array([{"x": l["xpos"], "y": l["ypos"], "z": 0.25}[c]])
            if l["extra"] == "scalar":
                at["SomeThing"] = 2.5
            elif l["extra"] == "vector":
                at["DirectionVector"] = np.array([0.0, 1.0, 2.0])
            elif l["extra"] == "int":
                at["RayID"] = np.int64(7)
            for k, v in at.items():
                f[gname].attrs[k] = v
            m.gattrs[sname] = at
    return m


def build_fof(case, path, kind):
    m = snap.Model()
    rng = np.random.default_rng(case["seed"])
    n = case["fof"]["n"]
    with h5py.File(path, "w") as f:
        base(f, case, kind, {"NumGroup_ThisFile": np.array([n], dtype=np.int64), "NumPart_ThisFile": np.zeros(8, dtype=np.int64)})
        write_fields(f, "Groups", "fof_groups", [x for x in case["fof"]["fields"] if x[0] != "Masses"], n, rng, m)
        for fname, nc, exps, aexp in FOF_FIELDS:
            put_field(f["Groups"], "fof_groups", fname, rng.random((n, nc) if nc > 1 else n), exps, aexp, 0, m)
        put_field(f["Groups"], "fof_groups", "GroupIDs", np.arange(n, dtype=np.int64), (0,) * 5, 0.0, 0, m)
    m.n = n
    return m


def run_kinds(case, ctx):
    mk.quiet()
    path = ctx.path()
    kind = case["kind"]
    ctx.label(kind)
    a, usys = case["a"], case["usys"]
    if kind in (None, "FullVolume", "VolumeSubset"):
        m = snap.build_snapshot(dict(case["snap"]), path)
        a, usys = case["snap"]["a"], case["snap"]["usys"]
    elif kind in ("SOAP", "SOAPSubset"):
        m = snap.build_soap(dict(case["soap"]), path)
        a, usys = case["soap"]["a"], case["soap"]["usys"]
    elif kind == "LineOfSight":
        m = build_los(case, path)
    else:
        m = build_fof(case, path, kind)
    value = case["unknown"] if case["unknown"] is not None else kind
    with h5py.File(path, "r+") as f:
        h = f["Header"].attrs
        if value is None:
            del h["OutputType"]
        else:
            h["OutputType"] = {"bytes": np.bytes_(value), "str": str(value), "fixed": np.array(value.encode(), dtype="S24")}[case["spelling"]] \
                if value != "" else ""
    if case["unknown"] is not None:
        for call in (sw.load, sw.mask):
            try:
                call(path)
            except ValueError:
                continue
            ctx.fail(f"{call.__name__} accepted a file of the unknown kind {value!r}")
        return
    data = sw.load(path)
    md = data.metadata
    ctx.check(type(md) is getattr(sw, CLASSES[kind]), lambda: f"a {kind} file got metadata {type(md).__name__}")
    ctx.check(md.output_type == ("" if kind is None else kind), lambda: f"output type {md.output_type!r} of a {kind} file")
    ctx.check(float(md.a) == a and float(md.scale_factor) == a, "scale factor")
    names = list(m.groups)
    want_paths = [m.paths[g] for g in names]
    if kind == "LineOfSight":
        order = np.argsort(want_paths)
        names, want_paths = [names[i] for i in order], [want_paths[i] for i in order]
    ctx.check(list(md.present_groups) == want_paths, lambda: f"groups {md.present_groups}, the file has {want_paths}")
    ctx.check(list(md.present_group_names) == names, lambda: f"group names {md.present_group_names}, expected {names}")
    ctx.check(str(path) in str(data) and all(g in str(data).split("Available groups:")[1].replace(" ", "").split(",") for g in names)
              and repr(data) == str(data), lambda: f"listing {str(data)!r} lacks groups of {names}")
    if kind in ("SOAP", "SOAPSubset"):
        ctx.check(md.n_subhalos == m.n, lambda: f"n_subhalos {md.n_subhalos}, {m.n} in the file")
    if kind in ("FOF", "FOFSubset"):
        ctx.check(int(md.num_group[0]) == m.n, lambda: f"num_group {md.num_group}, {m.n} in the file")
    ngattr = 0
    for g in names:
        grp, props = getattr(data, g), getattr(md, g + "_properties")
        ctx.check(props.group == m.paths[g] and props.group_name == g, "group of the properties")
        want = sorted(snap.snake(x) for x in m.groups[g])
        ctx.check(sorted(props.field_names) == want, lambda: f"fields of {g}: {props.field_names}, the file has {want}")
        for fn, fp in zip(props.field_names, props.field_paths):
            ctx.check(snap.snake(fp.split("/")[-1]) == fn and fp.startswith(m.paths[g] + "/"), lambda: f"{fn} is read from {fp}")
        ctx.check(all(x in str(grp) for x in want), "listing of the group lacks fields")
        for fname, truth in m.groups[g].items():
            if fname in m.named:
                continue
            i = m.attrs[(g, fname)]
            x = getattr(grp, snap.snake(fname))
            what = f"{g}.{fname}"
            ctx.check(x is not None and x.shape == truth.shape and np.array_equal(np.asarray(x), truth), lambda: f"{what}: {x}, the file has {truth}")
            check_units(ctx, what, x.units, usys, i["exps"])
            ctx.check(x.comoving == (not i["physical"]) and x.valid_transform == i["valid"], lambda: f"{what}: frame {x.comoving} {x.valid_transform}")
            ctx.check(np.isclose(float(x.cosmo_factor.a_factor), a ** i["aexp"], rtol=1e-12), lambda: f"{what}: a-factor {x.cosmo_factor}")
            ctx.check((i["description"] in x.name if kind in ("SOAP", "SOAPSubset") else x.name == i["description"] + " Not masked."), lambda: f"{what}: name {x.name!r}")
        at = getattr(m, "gattrs", {}).get(g, {})
        ctx.check(sorted(props.group_attributes) == sorted(snap.snake(k) for k in at), lambda: f"group attributes {props.group_attributes}, the file has {list(at)}")
        for k, v in at.items():
            ngattr += 1
            x = getattr(grp, snap.snake(k))
            what = f"{g} attribute {k}"
            flat = np.atleast_1d(np.asarray(v))
            got = np.atleast_1d(np.asarray(x))
            ctx.check(got.shape == flat.shape and np.array_equal(got, flat), lambda: f"{what}: {x}, the file has {v}")
            ctx.check(isinstance(x, sw.cosmo_quantity if flat.size == 1 else sw.cosmo_array), lambda: f"{what}: {type(x)}")
            pos = k in ("Xpos", "Ypos", "Zpos")
            check_units(ctx, what, x.units, usys, (1 if pos else 0, 0, 0, 0, 0))
            ctx.check(bool(x.comoving) == pos, lambda: f"{what}: comoving={x.comoving}")
            ctx.check(np.isclose(float(x.cosmo_factor.a_factor), a if pos else 1.0), lambda: f"{what}: a-factor {x.cosmo_factor}")
            ctx.check(np.allclose(np.atleast_1d(np.asarray(x.to_physical(), dtype=float)), flat * (a if pos else 1.0), rtol=1e-12),
                      lambda: f"{what}: physical {x.to_physical()}")
    # group attributes keep their own values through any history
    slots = [(g, k) for g in names for k in getattr(m, "gattrs", {}).get(g, {})]
    state = {}
    for op, i, v in case["hist"] if slots else []:
        g, k = slots[i % len(slots)]
        s = snap.snake(k)
        if op == "get":
            getattr(getattr(data, g), s)
        elif op == "set":
            setattr(getattr(data, g), s, v + 0.5)
            state[(g, k)] = v + 0.5
        else:
            delattr(getattr(data, g), s)
            state.pop((g, k), None)
        for (g2, k2) in slots:
            got = np.asarray(getattr(getattr(data, g2), snap.snake(k2)))
            want = state.get((g2, k2), np.asarray(m.gattrs[g2][k2]))
            ctx.check(np.array_equal(np.atleast_1d(got), np.atleast_1d(want)), lambda: f"after {op} of {g}.{k}: {g2}.{k2} is {got}, expected {want}")
    # masks exist exactly for the kinds that have cells
    if kind in ("LineOfSight", "FOF", "FOFSubset"):
        try:
            sw.mask(path)
            refused = False
        except NotImplementedError:
            refused = True
        ctx.check(refused, f"a mask of a {kind} file was made")
    else:
        ctx.check(type(sw.mask(path).metadata) is type(md), "metadata of the mask")
        parts = case.get("parts", 1)
        if parts > 1 and type(md).__name__ == "SWIFTSnapshotMetadata":
            # one part of a snapshot in several files: it can be read, but its cells cannot select rows
            with h5py.File(path, "r+") as f:
                f["Header"].attrs["NumFilesPerSnapshot"] = np.array([parts], dtype=np.int32)
            ctx.check(int(np.ravel(sw.load(path).metadata.num_files_per_snapshot)[0]) == parts, "number of files of the snapshot")
            try:
                sw.mask(path)
            except InvalidSnapshot:
                pass
            else:
                ctx.fail(f"a mask of one of {parts} parts of a snapshot was made")
    if len(names) < 2 and not ngattr:
        ctx.trivial()


# ----------------------------------------------------------------------------- mapping tables
ELEMENTS = ["Hydrogen", "Helium", "Carbon", "Nitrogen", "Oxygen", "Iron"]
DUST = ["Graphite", "MgSilicate", "FeSilicate", "Olivine"]
SPECIES = ["HI", "HII", "H2", "COMol", "elec"]


def mapping_case():
    return st.fixed_dictionaries({
        "snap": snap.snapshot_case(max_cells=1, orders=("grid",), fields=False),
        "ne": st.integers(1, 6), "nd": st.integers(1, 4), "ns": st.integers(1, 5),
        "maps": st.lists(st.sampled_from(["DustToElementMapping", "ElementToDustMapping", "SpeciesToElementMapping", "GrainToElementMapping",
                                           "SpeciesToDustMapping", "ElementToElementMapping", "Mapping", "OtherMapping"]), unique=True, max_size=5),
        "seed": st.integers(0, 1000),
        "named": st.booleans(),
    })


def run_mapping(case, ctx):
    mk.quiet()
    path = ctx.path()
    snap.build_snapshot(dict(case["snap"]), path)
    cols = {"Element": ELEMENTS[: case["ne"]], "Dust": DUST[: case["nd"]], "Species": SPECIES[: case["ns"]]}
    keys = {"Element": "ElementMassFractions", "Dust": "DustMassFractions", "Species": "SpeciesFractions"}
    rng = np.random.default_rng(case["seed"])
    tables = {}
    with h5py.File(path, "r+") as f:
        nc = f["SubgridScheme/NamedColumns"]
        for k in list(nc):
            del nc[k]
        for x, names in cols.items():
            nc.create_dataset(keys[x], data=np.array([c.encode() for c in names], dtype="S32"))
        for mp in case["maps"]:
            x, _, y = mp[: -len("Mapping")].partition("To")
            x = "Dust" if x == "Grain" else x
            shape = (len(cols[x]), len(cols[y])) if x in cols and y in cols else (2, 2)
            tables[mp] = (x, y, rng.random(shape))
            f["SubgridScheme"].create_dataset(mp, data=tables[mp][2])
    md = sw.load(path).metadata
    ctx.check(md.named_columns == {keys[x]: names for x, names in cols.items()}, lambda: f"named columns {md.named_columns}")
    for mp, (x, y, arr) in tables.items():
        attr = snap.snake(mp)
        if x not in cols or y not in cols:
            ctx.check(not hasattr(md, attr), f"{mp} is not a mapping between columns")
            continue
        t = getattr(md, attr)
        ctx.check(np.array_equal(np.asarray(t.data), arr), f"{mp}: table differs")
        ctx.check(t.named_columns_x == cols[x] and t.named_columns_y == cols[y], f"{mp}: columns")
        ctx.check(t.named_columns_x_name == keys[x] and t.named_columns_y_name == keys[y], f"{mp}: names")
        for i, cx in enumerate(cols[x]):
            for j, cy in enumerate(cols[y]):
                got = getattr(t, f"{cx.lower()}_to_{cy.lower()}")
                ctx.check(got == arr[i, j], lambda: f"{mp}: {cx} to {cy} is {got}, the table says {arr[i, j]}")
        ctx.check(keys[x] in str(t) and keys[y] in str(t) and str(arr) in repr(t), f"{mp}: listing {t!r}")
    if not tables:
        ctx.trivial()


# ----------------------------------------------------------------------------- user-defined particle types
def user_case():
    return st.fixed_dictionaries({
        "snap": snap.snapshot_case(max_cells=3, types=[6, 7, 0, 4], orders=("grid", "perm")),
        "rename": st.lists(st.sampled_from([0, 4, 6, 7]), unique=True, min_size=1, max_size=3),
        "new": st.booleans(),
        "n": st.integers(1, 8),
        "lo": st.sampled_from([0.0, 0.3, 0.7]),
    })


TABLES = ("particle_name_underscores", "particle_name_class", "particle_name_text")


def run_user(case, ctx):
    mk.quiet()
    path = ctx.path()
    m = snap.build_snapshot(dict(case["snap"]), path)
    saved = [dict(getattr(particle_metadata, t)) for t in TABLES]
    try:
        names = {}
        for i in case["rename"]:
            names[f"PartType{i}"] = f"my_type{i}"
        if case["new"]:
            names["PartType8"] = "ninth_type"
            rng = np.random.default_rng(case["snap"]["seed"])
            with h5py.File(path, "r+") as f:
                g = f.create_group("PartType8")
                new = rng.random((case["n"], 3))
                d = g.create_dataset("Coordinates", data=new)
                snap.write_field_attrs(d, (1, 0, 0, 0, 0), 1.0, False, True, "Positions")
                h = f["Header"].attrs
                for k in ("NumPart_ThisFile", "NumPart_Total", "CanHaveTypes"):
                    if k in h:
                        v = np.append(h[k], 1 if k == "CanHaveTypes" else case["n"])
                        del h[k]
                        h[k] = v
        for p, n in names.items():
            particle_metadata.particle_name_underscores[p] = n
            particle_metadata.particle_name_class[p] = n.title()
            particle_metadata.particle_name_text[p] = n.title()
        data = sw.load(path)
        want = []
        for g0 in m.groups:
            g = names.get(m.paths[g0], g0)
            want.append(g)
            for fname, truth in m.groups[g0].items():
                if fname in m.named:
                    continue
                got = np.asarray(getattr(getattr(data, g), snap.snake(fname)))
                ctx.check(np.array_equal(got, truth), lambda: f"{g}.{fname} differs")
            ctx.check(getattr(data.metadata, "n_" + g) == len(m.groups[g0]["ParticleIDs"]), f"number of {g}")
        if case["new"]:
            want.append("ninth_type")
            ctx.check(np.array_equal(np.asarray(data.ninth_type.coordinates), new), "coordinates of the new type differ")
            ctx.check(data.metadata.n_ninth_type == case["n"], lambda: f"number of the new type {data.metadata.n_ninth_type}")
        ctx.check(list(data.metadata.present_group_names) == want, lambda: f"groups {data.metadata.present_group_names}, expected {want}")
        if not case["new"]:
            mask = sw.mask(path)
            b = mask.metadata.boxsize
            mask.constrain_spatial([[case["lo"] * b[0], (case["lo"] + 0.2) * b[0]], None, None])
            sub = sw.load(path, mask=mask)
            for g0 in m.groups:
                g = names.get(m.paths[g0], g0)
                rows = mk.rows_of(mask, g)
                ctx.check(np.array_equal(np.asarray(getattr(sub, g).particle_ids), m.groups[g0]["ParticleIDs"][rows]), f"masked {g} differ")
    finally:
        for t, v in zip(TABLES, saved):
            d = getattr(particle_metadata, t)
            d.clear()
            d.update(v)


CHECKS = [
    SubCheck("kinds", kinds_case, run_kinds, quick=600, thorough=16000, weight=3,
             rule="every kind of file, spelling of the kind, group and field is drawn"),
    SubCheck("mappings", mapping_case, run_mapping, quick=160, thorough=3000, weight=1,
             rule="mapping tables between named columns of drawn sizes"),
    SubCheck("usertypes", user_case, run_user, quick=160, thorough=4000, weight=1,
             rule="renamed and added particle types"),
]
QUICK_BUDGET = 50
