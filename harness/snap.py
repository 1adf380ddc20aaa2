"""Synthetic SWIFT snapshot / SOAP / FOF / line-of-sight files and an in-memory model.

``snapshot_case`` is a hypothesis strategy for a JSON description; ``build_snapshot``
turns a description into an HDF5 file plus a Model holding the ground truth as plain
numpy arrays.  All bulk data is a pure function of the description.
"""
import h5py
import numpy as np

PTYPES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos", "sidm"]

MSUN_G = 1.98840987e33
UNIT_SYSTEMS = [
    # U_M [g], U_L [cm], U_t [s], U_I [A], U_T [K]
    (1.98848e43, 3.08567758e24, 3.08567758e19, 1.0, 1.0),   # 1e10 Msun, Mpc, Mpc/(km/s)
    (1.0, 1.0, 1.0, 1.0, 1.0),                              # cgs
    (1.0e3, 1.0e2, 1.0, 1.0, 1.0),                          # SI
    (1.98848e33, 3.08567758e18, 3.1557e13, 1.0, 1.0),       # Msun, pc, Myr
    (1.98848e43, 3.08567758e21, 3.08567758e16, 1.0, 1.0),   # gadget: kpc
    (5.9722e27, 6.3781e8, 1.0, 1.0, 1.0),                   # planetary (Earth)
    (1.98848e48, 3.08567758e27, 3.1557e16, 2.5, 3.0),       # Gpc, Gyr, odd I and T
]

# name, columns, dtype-kind choices, (L, M, t, T, I) exponents, a-exponent
FIELD_POOL = [
    ("Masses", 1, "f", (0, 1, 0, 0, 0), 0.0),
    ("Velocities", 3, "f", (1, 0, -1, 0, 0), 0.0),
    ("Densities", 1, "f", (-3, 1, 0, 0, 0), -3.0),
    ("SmoothingLengths", 1, "f", (1, 0, 0, 0, 0), 1.0),
    ("InternalEnergies", 1, "f", (2, 0, -2, 0, 0), -2.0),
    ("Temperatures", 1, "f", (0, 0, 0, 1, 0), 0.0),
    ("Potentials", 1, "f", (2, 0, -2, 0, 0), -1.0),
    ("FOFGroupIDs", 1, "i", (0, 0, 0, 0, 0), 0.0),
    ("VelocityDispersionTensor", 6, "f", (2, 0, -2, 0, 0), 0.0),
    ("ElementMassFractions", 4, "f", (0, 0, 0, 0, 0), 0.0),
    ("SpeciesFractions", 3, "f", (0, 0, 0, 0, 0), 0.0),
    ("Entropies", 1, "f", (2, -2.0 / 3.0, -2, 0, 0), 0.0),
    ("MagneticFluxDensities", 3, "f", (0, 1, -2, 0, -1), -2.0),
    ("Pressures", 1, "f", (-1, 1, -2, 0, 0), -5.0),
    ("StarFormationRates", 1, "f", (0, 1, -1, 0, 0), 0.0),
    ("CompressionFlags", 1, "u1", (0, 0, 0, 0, 0), 0.0),
    # two-dimensional with a single column (0)
    ("MetalDiffusionRates", 0, "f", (2, 0, -1, 0, 0), -2.0),
    ("GrainAbundances", 0, "f", (0, 0, 0, 0, 0), 0.0),
]
# fields of a catalogue that are named like (parts of) its groups
GROUPISH_POOL = [
    ("200_crit", 1, "f", (1, 0, 0, 0, 0), 1.0),
    ("InputHalos", 1, "i", (0, 0, 0, 0, 0), 0.0),
    ("100kpc", 1, "f", (0, 1, 0, 0, 0), 0.0),
    ("SOAP", 3, "f", (0, 0, 0, 0, 0), 0.0),
]
FIELD = {f[0]: f for f in FIELD_POOL + GROUPISH_POOL}
NAMED_COLUMNS = {
    "ElementMassFractions": ["Hydrogen", "Helium", "Carbon", "Iron"],
    "SpeciesFractions": ["HI", "HII", "HeII"],
    "GrainAbundances": ["MgSiO4"],
}
FLOAT_DTYPES = ["<f4", "<f8", ">f4", ">f8", "<f2"]
INT_DTYPES = ["<i4", "<i8", ">i8", "<u8"]


def snake(name):
    import re

    return re.sub("([a-z0-9])([A-Z])", r"\1_\2", name).lower()


def unit_value_cgs(usys, exps):
    """cgs-like factor (g, cm, s, A, K) of one internal unit of dimensions exps."""
    M, L, t, I, T = UNIT_SYSTEMS[usys]
    eL, eM, et, eT, eI = exps
    return L**eL * M**eM * t**et * T**eT * I**eI


# ----------------------------------------------------------------------------- strategies
def snapshot_case(max_cells=4, types=None, min_types=1, fields=True, allow_empty_cells=True,
                  noncubic=True, orders=("grid", "perm", "permtype"), big=False, drift=True):
    from hypothesis import strategies as st

    n = st.sampled_from([k for k in (1, 2, 3, 4, 5, 3, 4, 2) if k <= max_cells])
    tchoice = types if types is not None else [0, 1, 2, 3, 4, 5, 6, 7]
    fnames = [f[0] for f in FIELD_POOL]

    def typ(t):
        return st.fixed_dictionaries(
            {
                "t": st.just(t),
                "occ": st.sampled_from([1.0, 0.6, 0.25] if allow_empty_cells else [1.0]),
                "maxc": st.sampled_from([1, 3, 8, 30] if big else [1, 3, 8, 5]),
                "chunk": st.sampled_from([0, 1, 2, 3, 5, 16, 64]),
                "fields": st.lists(
                    st.tuples(
                        st.sampled_from(fnames),
                        st.integers(0, 4),          # dtype
                        st.sampled_from([0, 0, 0, 1, 2]),  # 0 comoving, 1 physical, 2 physical+not convertible
                        st.integers(0, 2),          # chunk variant
                    ).map(list),
                    max_size=4,
                    unique_by=lambda x: x[0],
                )
                if fields
                else st.just([]),
            }
        )

    return st.fixed_dictionaries(
        {
            "ncell": st.tuples(n, n, n).map(list),
            "box": st.sampled_from([[1.0, 1.0, 1.0], [142.25, 142.25, 142.25], [3.0, 3.0, 3.0]]
                                   + ([[1.0, 2.0, 4.0], [10.0, 3.5, 7.25]] if noncubic else [])),
            "a": st.sampled_from([1.0, 0.5, 0.25, 0.1, 0.9]),
            "usys": st.integers(0, len(UNIT_SYSTEMS) - 1),
            "seed": st.integers(0, 10**6),
            "order": st.sampled_from(list(orders)),
            "minmax": st.booleans(),
            "drift": st.sampled_from([0.0, 0.05, 0.3, 1.2]) if drift else st.just(0.0),
            "lattice": st.booleans(),
            "canhave": st.booleans(),
            "types": st.lists(st.sampled_from(tchoice), min_size=min_types, max_size=3, unique=True)
            .map(sorted)
            .flatmap(lambda ts: st.tuples(*[typ(t) for t in ts]).map(list)),
        }
    )


# ----------------------------------------------------------------------------- model
class Model:
    """Ground truth of a file: groups -> {HDF5 field name: raw array}."""

    def __init__(self):
        self.groups = {}      # swiftsimio group name -> dict field -> raw (native) array
        self.attrs = {}       # (group, field) -> dict of expected info
        self.paths = {}       # swiftsimio group name -> hdf5 group
        self.cell_of = {}     # group -> cell index (grid order) of each row in file order
        self.home = {}        # group -> unwrapped positions in file order
        self.counts = {}      # group -> counts per cell in grid order
        self.offsets = {}
        self.named = {}


def write_units(f, usys):
    g = f.create_group("Units")
    M, L, t, I, T = UNIT_SYSTEMS[usys]
    g.attrs["Unit mass in cgs (U_M)"] = np.array([M])
    g.attrs["Unit length in cgs (U_L)"] = np.array([L])
    g.attrs["Unit time in cgs (U_t)"] = np.array([t])
    g.attrs["Unit current in cgs (U_I)"] = np.array([I])
    g.attrs["Unit temperature in cgs (U_T)"] = np.array([T])


def write_field_attrs(d, exps, aexp, physical, valid, description, lossy="None", soap=False):
    eL, eM, et, eT, eI = exps
    d.attrs["U_L exponent"] = np.array([float(eL)])
    d.attrs["U_M exponent"] = np.array([float(eM)])
    d.attrs["U_t exponent"] = np.array([float(et)])
    d.attrs["U_T exponent"] = np.array([float(eT)])
    d.attrs["U_I exponent"] = np.array([float(eI)])
    d.attrs["a-scale exponent"] = np.array([float(aexp)])
    d.attrs["h-scale exponent"] = np.array([0.0])
    d.attrs["Description"] = np.bytes_(description)
    d.attrs["Lossy compression filter"] = np.bytes_(lossy)
    d.attrs["Value stored as physical"] = np.array([1 if physical else 0], dtype=np.int32)
    d.attrs["Property can be converted to comoving"] = np.array([1 if valid else 0], dtype=np.int32)


def field_values(name, ncol, dtype, n, rng, lo=0.0):
    kind = np.dtype(dtype).kind
    shape = (n,) if ncol == 1 else (n, max(ncol, 1))
    if kind == "f":
        v = rng.uniform(0.1, 10.0, size=shape)
        if name in ("Velocities", "Potentials", "MagneticFluxDensities"):
            v = v * rng.choice([-1.0, 1.0], size=shape)
        return v.astype(dtype)
    if np.dtype(dtype).itemsize < 8 or rng.integers(2):
        return rng.integers(0, 200, size=shape).astype(dtype)
    # numbers that double precision cannot hold
    return (rng.integers(0, 2**61, size=shape) | 1).astype(dtype)


def create_dataset(g, name, data, chunk):
    kw = {}
    if chunk and data.shape[0] > 0:
        c = min(chunk, data.shape[0])
        kw["chunks"] = (c,) + data.shape[1:]
    return g.create_dataset(name, data=data, **kw)


def cosmology_group(f, a, H0=2.0, neutrinos=False):
    g = f.create_group("Cosmology")
    for k, v in {
        "Cosmological run": 1, "H0 [internal units]": H0, "Omega_b": 0.0486, "Omega_lambda": 0.693,
        "Omega_r": 0.0, "Omega_m": 0.307, "w_0": -1.0, "w_a": 0.0, "Omega_k": 0.0, "w": -1.0,
        "Critical density [internal units]": 12.0, "Redshift": 1 / a - 1, "Scale-factor": a, "h": 0.6777,
    }.items():
        g.attrs[k] = np.array([v])


def header(f, case, output_type="FullVolume", extra=None):
    g = f.create_group("Header")
    a = case["a"]
    g.attrs["BoxSize"] = np.array(case["box"], dtype=float)
    g.attrs["Scale-factor"] = np.array([a])
    g.attrs["Redshift"] = np.array([1.0 / a - 1.0])
    g.attrs["Time"] = np.array([0.125])
    g.attrs["Dimension"] = np.array([3], dtype=np.int32)
    g.attrs["NumFilesPerSnapshot"] = np.array([1], dtype=np.int32)
    g.attrs["OutputType"] = np.bytes_(output_type)
    g.attrs["RunName"] = np.bytes_("synthetic run")
    g.attrs["SelectOutput"] = np.bytes_("Default")
    g.attrs["SnapshotDate"] = np.bytes_("15:20:31 2023-05-04 GMT")
    g.attrs["Code"] = np.bytes_("SWIFT")
    c = f.create_group("Code")
    for k, v in {
        "Code": "SWIFT", "Git Branch": "master", "Git Revision": "v1.0.0-1", "Git Date": "2023-01-01",
        "Compiler Name": "GCC", "Compiler Version": "13", "MPI library": "none",
        "FFTW library version": "3", "GSL library version": "2", "HDF5 library version": "1.14",
    }.items():
        c.attrs[k] = np.bytes_(v)
    if extra:
        for k, v in extra.items():
            g.attrs[k] = v


def cell_grid(case):
    box = np.array(case["box"], dtype=float)
    nc = np.array(case["ncell"])
    size = box / nc
    ii, jj, kk = np.meshgrid(*[np.arange(x) for x in nc], indexing="ij")
    idx = np.stack([ii.ravel(), jj.ravel(), kk.ravel()], axis=1)
    centres = (idx + 0.5) * size
    return box, nc, size, idx, centres


def file_layout(case, counts, rng_perm, tindex):
    """Offsets of each cell in the file for one type."""
    ncells = len(counts)
    if case["order"] == "grid":
        order = np.arange(ncells)
    else:
        # one permutation shared by all the types (as written by an MPI run), or, for
        # "permtype", a different one for each type
        order = rng_perm(tindex if case["order"] == "permtype" else 0)
    offsets = np.zeros(ncells, dtype=np.int64)
    off = 0
    for c in order:
        offsets[c] = off
        off += counts[c]
    return order, offsets


def max_drift(case, padding=0.1):
    """Drift that the file format allows: unlimited with bounding boxes, else < padding."""
    return case["drift"] if case["minmax"] else min(case["drift"], 0.9 * padding)


def build_snapshot(case, path, padding=0.1, extra_groups=True, links=False):
    m = Model()
    m.case = case
    m.path = path
    box, nc, size, cidx, centres = cell_grid(case)
    ncells = len(centres)
    m.box, m.size, m.centres = box, size, centres
    rng = np.random.default_rng([case["seed"], 17])
    perms = {}

    def rng_perm(i):
        if i not in perms:
            perms[i] = np.random.default_rng([case["seed"], 99, i]).permutation(ncells)
        return perms[i]

    drift = max_drift(case, padding)
    m.drift = drift
    with h5py.File(path, "w") as f:
        write_units(f, case["usys"])
        nums = np.zeros(8, dtype=np.int64)
        has = np.zeros(8, dtype=np.int32)
        cells = f.create_group("Cells")
        cells.create_dataset("Centres", data=centres)
        meta = cells.create_group("Meta-data")
        meta.attrs["size"] = size
        meta.attrs["dimension"] = nc.astype(np.int32)
        gc = cells.create_group("Counts")
        go = cells.create_group("OffsetsInFile" if not case.get("oldcells") else "Offsets")
        if case["minmax"]:
            gmin = cells.create_group("MinPositions")
            gmax = cells.create_group("MaxPositions")
        next_id = 1
        named = {}
        for ti, td in enumerate(case["types"]):
            t = td["t"]
            name = PTYPES[t]
            has[t] = 1
            counts = rng.integers(1, td["maxc"] + 1, size=ncells) * (rng.random(ncells) < td["occ"])
            if counts.sum() == 0 and not td.get("allow_none"):
                counts[int(rng.integers(ncells))] = 1
            counts = counts.astype(np.int64)
            order, offsets = file_layout(case, counts, rng_perm, ti)
            n = int(counts.sum())
            nums[t] = n
            cell_of = np.concatenate([np.full(counts[c], c) for c in order]).astype(int) if n else np.zeros(0, int)
            # unwrapped positions
            if case["lattice"]:
                u = rng.integers(0, 4, size=(n, 3)) / 4.0
            else:
                u = rng.random((n, 3))
            if drift > 0 and n:
                move = rng.random((n, 3)) < 0.3
                d = rng.uniform(-drift, drift, size=(n, 3))
                u = np.where(move, u + d, u)
                if not case["minmax"]:
                    u = np.clip(u, -drift, 1 + drift)
            home = (cidx[cell_of] + u) * size if n else np.zeros((0, 3))
            wrapped = home % box
            wrapped[wrapped >= np.broadcast_to(box, wrapped.shape)] = 0.0
            gname = f"PartType{t}"
            g = f.create_group(gname)
            ids = np.arange(next_id, next_id + n, dtype=np.int64)
            next_id += n
            fields = {"Coordinates": wrapped.astype(np.float64), "ParticleIDs": ids}
            info = {
                "Coordinates": dict(exps=(1, 0, 0, 0, 0), aexp=1.0, physical=False, valid=True),
                "ParticleIDs": dict(exps=(0, 0, 0, 0, 0), aexp=0.0, physical=False, valid=True),
            }
            chunks = {"Coordinates": td["chunk"], "ParticleIDs": td["chunk"]}
            for fname, dt, phys, cv in td["fields"]:
                _, ncol, kind, exps, aexp = FIELD[fname]
                dtype = FLOAT_DTYPES[dt] if kind == "f" else (INT_DTYPES[dt % 4] if kind == "i" else "|u1")
                fields[fname] = field_values(fname, ncol, dtype, n, rng)
                info[fname] = dict(exps=exps, aexp=aexp, physical=phys > 0, valid=phys != 2)
                chunks[fname] = [0, td["chunk"], 4][cv]
                if fname in NAMED_COLUMNS:
                    named[fname] = NAMED_COLUMNS[fname]
            for fname, arr in fields.items():
                d = create_dataset(g, fname, arr, chunks[fname])
                i = info[fname]
                i["description"] = f"Description of {fname} of {name}"
                write_field_attrs(d, i["exps"], i["aexp"], i["physical"], i["valid"], i["description"], "DScale4")
                i["path"] = f"{gname}/{fname}"
                m.attrs[(name, fname)] = i
            m.groups[name] = {k: v.astype(v.dtype.newbyteorder("=")) for k, v in fields.items()}
            m.paths[name] = gname
            m.cell_of[name] = cell_of
            m.home[name] = home
            m.counts[name] = counts
            m.offsets[name] = offsets
            gc.create_dataset(gname, data=counts)
            go.create_dataset(gname, data=offsets)
            if case["minmax"]:
                mn, mx = centres.copy(), centres.copy()
                for c in range(ncells):
                    sel = cell_of == c
                    if sel.any():
                        mn[c] = home[sel].min(axis=0)
                        mx[c] = home[sel].max(axis=0)
                gmin.create_dataset(gname, data=mn)
                gmax.create_dataset(gname, data=mx)
        ex = {
            "NumPart_ThisFile": nums,
            "NumPart_Total": nums.astype(np.uint32),
            "NumPart_Total_HighWord": np.zeros(8, dtype=np.uint32),
            "TotalNumberOfParticles": nums.astype(np.int64),
            "MassTable": np.linspace(0.5, 4.0, 8),
            "InitialMassTable": np.linspace(1.5, 5.0, 8),
        }
        if case["canhave"]:
            ex["CanHaveTypes"] = has
        header(f, case, "FullVolume", ex)
        cosmology_group(f, case["a"])
        sg = f.create_group("SubgridScheme")
        sg.attrs["Chemistry Model"] = np.bytes_("EAGLE")
        nd = sg.create_group("NamedColumns")
        for k, v in named.items():
            nd.create_dataset(k, data=np.array([x.encode() for x in v], dtype="S32"))
        if extra_groups:
            h = f.create_group("HydroScheme")
            h.attrs["Scheme"] = np.bytes_("SPHENIX")
            h.attrs["Adiabatic index"] = np.array([5.0 / 3.0])
            h.attrs["Kernel gamma"] = np.array([1.936492])
            p = f.create_group("Parameters")
            p.attrs["Snapshots:basename"] = np.bytes_("snap")
            p.attrs["SPH:resolution_eta"] = np.bytes_("1.2348")
            po = f.create_group("Policy")
            po.attrs["hydro"] = np.array([1], dtype=np.int32)
            f.create_group("GravityScheme").attrs["Scheme"] = np.bytes_("Default")
        if links:
            for td in case["types"]:
                t = td["t"]
                f[{0: "GasParticles", 1: "DMParticles", 2: "DMBackgroundParticles", 3: "SinkParticles",
                   4: "StarsParticles", 5: "BHParticles", 6: "NeutrinoParticles", 7: "SIDMParticles"}[t]] = \
                    h5py.SoftLink(f"/PartType{t}")
            tn = f.create_dataset("PartTypeNames", data=np.array([b"Gas", b"DM"], dtype="S16"))
    m.nums = nums
    m.named = named
    return m


# ----------------------------------------------------------------------------- SOAP
SOAP_GROUPS = {
    "BoundSubhalo": "bound_subhalo",
    "InputHalos": "input_halos",
    "SO/200_crit": "spherical_overdensity_200_crit",
    "SO/500_mean": "spherical_overdensity_500_mean",
    "ExclusiveSphere/100kpc": "exclusive_sphere_100kpc",
    "InclusiveSphere/50kpc": "inclusive_sphere_50kpc",
    "ProjectedAperture/30kpc/projx": "projected_aperture_30kpc_projx",
    "SOAP": "soap",
}


def soap_case(max_cells=3):
    from hypothesis import strategies as st

    n = st.integers(1, max_cells)
    fnames = [f[0] for f in FIELD_POOL + GROUPISH_POOL + GROUPISH_POOL if f[0] not in NAMED_COLUMNS]
    return st.fixed_dictionaries(
        {
            "ncell": st.tuples(n, n, n).map(list),
            "box": st.sampled_from([[1.0, 1.0, 1.0], [142.25, 142.25, 142.25], [1.0, 2.0, 4.0]]),
            "a": st.sampled_from([1.0, 0.5, 0.1]),
            "usys": st.integers(0, len(UNIT_SYSTEMS) - 1),
            "seed": st.integers(0, 10**6),
            "order": st.sampled_from(["grid", "perm"]),
            "occ": st.sampled_from([1.0, 0.6, 0.25]),
            "maxc": st.sampled_from([1, 3, 12]),
            "chunk": st.sampled_from([0, 1, 2, 5, 16]),
            "lattice": st.booleans(),
            "groups": st.lists(
                st.tuples(
                    st.sampled_from([g for g in SOAP_GROUPS if g != "InputHalos"]),
                    st.lists(
                        st.tuples(st.sampled_from(fnames), st.integers(0, 3), st.sampled_from([0, 1, 2])).map(list),
                        min_size=1, max_size=3, unique_by=lambda x: x[0],
                    ),
                ).map(list),
                max_size=3, unique_by=lambda x: x[0],
            ),
        }
    )


def build_soap(case, path, output_type="SOAP"):
    m = Model()
    m.case, m.path = case, path
    box, nc, size, cidx, centres = cell_grid(case)
    m.box, m.size, m.centres = box, size, centres
    ncells = len(centres)
    rng = np.random.default_rng([case["seed"], 23])
    counts = rng.integers(1, case["maxc"] + 1, size=ncells) * (rng.random(ncells) < case["occ"])
    if counts.sum() == 0:
        counts[0] = 1
    counts = counts.astype(np.int64)
    order, offsets = file_layout(
        case, counts, lambda i: np.random.default_rng([case["seed"], 5]).permutation(ncells), 0)
    n = int(counts.sum())
    cell_of = np.concatenate([np.full(counts[c], c) for c in order]).astype(int)
    u = rng.integers(0, 4, size=(n, 3)) / 4.0 if case["lattice"] else rng.random((n, 3))
    pos = (cidx[cell_of] + u) * size
    groups = [["InputHalos", []]] + case["groups"]
    with h5py.File(path, "w") as f:
        write_units(f, case["usys"])
        cells = f.create_group("Cells")
        cells.create_dataset("Centres", data=centres)
        meta = cells.create_group("Meta-data")
        meta.attrs["size"] = size
        meta.attrs["dimension"] = nc.astype(np.int32)
        cells.create_group("Counts").create_dataset("Subhalos", data=counts)
        cells.create_group("OffsetsInFile").create_dataset("Subhalos", data=offsets)
        for gname, flds in groups:
            g = f.require_group(gname)
            sname = SOAP_GROUPS[gname]
            fields, info = {}, {}
            if gname == "InputHalos":
                fields["HaloCentre"] = pos
                info["HaloCentre"] = dict(exps=(1, 0, 0, 0, 0), aexp=1.0, physical=False, valid=True)
                fields["HaloCatalogueIndex"] = np.arange(n, dtype=np.int64)
                info["HaloCatalogueIndex"] = dict(exps=(0,) * 5, aexp=0.0, physical=True, valid=False)
            for fname, dt, phys in flds:
                _, ncol, kind, exps, aexp = FIELD[fname]
                dtype = FLOAT_DTYPES[dt] if kind == "f" else (INT_DTYPES[dt % 4] if kind == "i" else "|u1")
                fields[fname] = field_values(fname, ncol, dtype, n, rng)
                info[fname] = dict(exps=exps, aexp=aexp, physical=phys > 0, valid=phys != 2)
            for fname, arr in fields.items():
                d = create_dataset(g, fname, arr, case["chunk"])
                i = info[fname]
                i["description"] = f"{fname} of {gname}"
                write_field_attrs(d, i["exps"], i["aexp"], i["physical"], i["valid"], i["description"])
                d.attrs["Masked"] = False
                d.attrs["Is Compressed"] = False
                i["path"] = f"{gname}/{fname}"
                m.attrs[(sname, fname)] = i
            m.groups[sname] = {k: v.astype(v.dtype.newbyteorder("=")) for k, v in fields.items()}
            m.paths[sname] = gname
        ex = {
            "NumPart_ThisFile": np.zeros(8, dtype=np.int64),
            "NumSubhalos_ThisFile": np.array([n], dtype=np.int64),
            "NumSubhalos_Total": np.array([n], dtype=np.int64),
            "SubhaloTypes": np.array([g[0] for g in groups], dtype=object),
        }
        header(f, case, output_type, None)
        for k, v in ex.items():
            if k == "SubhaloTypes":
                f["Header"].attrs.create(k, [g[0] for g in groups], dtype=h5py.string_dtype())
            else:
                f["Header"].attrs[k] = v
        cosmology_group(f, case["a"])
        f.create_group("Parameters").attrs["calc"] = np.bytes_("x")
    m.n = n
    m.counts["shared"], m.offsets["shared"], m.cell_of["shared"] = counts, offsets, cell_of
    m.home["shared"] = pos
    return m


# ----------------------------------------------------------------------------- helpers
def comparable(arr):
    return np.asarray(arr).view(np.ndarray)
