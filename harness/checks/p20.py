"""P20: statistics files are read column by column with their names and units."""
import math
import re

import numpy as np
import unyt as u
from hypothesis import strategies as st

import swiftsimio as sw
from swiftsimio.accelerated import list_of_strings_to_arrays

from ..core import SubCheck

RULE = "several columns and lines, and a unit or a value that is not a plain decimal"
ASSUMPTIONS = ["at least one line of data, as many values on each line as columns", "column names are distinct and separated by two spaces or more"]
QUICK_BUDGET = 25
WORD = st.text(alphabet="abcdefgxyzABCKZ", min_size=1, max_size=6)
INT = st.one_of(st.integers(-5, 12), st.integers(-(10**15), 10**15))
FLOAT = st.one_of(st.floats(allow_nan=False), st.floats(-1e3, 1e3), st.sampled_from([math.nan, math.inf, -math.inf, 0.0, 1.0]))
FORMS = ["%14e", "%.9g", "%.17e", "%g", "%.17E", "%f"]


def column():
    value = st.one_of(st.tuples(st.just("%d"), st.lists(INT, min_size=6, max_size=6)), st.tuples(st.sampled_from(FORMS), st.lists(FLOAT, min_size=6, max_size=6)))
    return st.fixed_dictionaries({"name": st.lists(WORD, min_size=1, max_size=3).map(" ".join), "dot": st.booleans(), "text": st.lists(WORD, min_size=1, max_size=5).map(" ".join), "more": st.sampled_from(["", ".", ". See the manual (2)", ". "]),
                                  "unit": st.sampled_from([None, "dimensionless", "g", "cm", "g * cm**2 / s**2", "K", "g * cm**-1 * s**-2", "s "]), "factor": st.sampled_from(["1.98841e+43", "3.08568e+24", "1.000000e+00", "3.155760e+16"]), "data": value})


def case_():
    return st.fixed_dictionaries({"cols": st.lists(column(), min_size=1, max_size=7, unique_by=(lambda c: c["name"].lower(), lambda c: c["text"])), "n": st.integers(1, 6), "pad": st.integers(2, 9), "title": st.booleans(), "eol": st.booleans()})


def run(case, ctx):
    cols, n, pad = case["cols"], case["n"], " " * case["pad"]
    L = ["# Global statistics file", "#" * 40] if case["title"] else []
    for k, c in enumerate(cols):
        L.append(f"# ({k})  {c['text']}{c['more']}")
        if c["unit"] is not None:
            L.append("#      Unit = " + (c["unit"] if c["unit"] == "dimensionless" else f"{c['factor']} {c['unit']}"))
    L += ["#", "#" + pad + pad.join(f"({k})" for k in range(len(cols)))]
    shown = [c["name"].replace(" ", ". ") if c["dot"] else c["name"] for c in cols]
    L.append("#" + pad + pad.join(shown))
    rows = [[c["data"][0] % c["data"][1][r] for c in cols] for r in range(n)]
    L += [" " + pad.join(r) for r in rows]
    text = "\n".join(L) + ("\n" if case["eol"] else "")
    path = ctx.path()
    with open(path, "w") as f:
        f.write(text)
    data = sw.load_statistics(path) if n % 2 else sw.statistics.SWIFTStatisticsFile(path)
    if len(cols) < 2 or n < 2:
        ctx.trivial()
    for k, c in enumerate(cols):
        attr = re.sub(r"\s", "_", c["name"]).lower()
        ctx.check(hasattr(data, attr), f"no column {attr!r}: {data}")
        x = getattr(data, attr)
        want = np.array([float(r[k]) for r in rows])
        ctx.check(np.array_equal(x.view(np.ndarray), want, equal_nan=True) if c["data"][0] != "%d" else x.view(np.ndarray).tolist() == [int(r[k]) for r in rows], f"{attr} is {x!r}, the file holds {[r[k] for r in rows]}")
        ctx.check(x.name == c["text"], f"{attr} is named {x.name!r}, the file says {c['text']!r}")
        un = u.dimensionless if c["unit"] in (None, "dimensionless") else u.Unit(f"{float(c['factor'])!r} * {c['unit'].strip()}")
        ctx.check(x.units.dimensions == un.dimensions and np.isclose(x.units.base_value, float(un.base_value), rtol=1e-12), f"{attr} has units {x.units}, the file says {un}")
        ctx.check(attr in str(data) and path in str(data), f"{data}")
        ctx.label(f"format {c['data'][0]}", f"unit {c['unit']}")
    ctx.check(list(data.header_names) == [c["text"] for c in cols], f"names {data.header_names}")
    with open(path) as f:
        ctx.check(f.read() == text, "the file was changed")


def run_lines(case, ctx):
    rows = [[c["data"][0] % c["data"][1][r] for c in case["cols"]] for r in range(case["n"])]
    got = list_of_strings_to_arrays([("  ".join(r)) + "\n" * (k % 2) for k, r in enumerate(rows)])
    ctx.check(len(got) == len(case["cols"]), f"{len(got)} columns")
    for k, (g, c) in enumerate(zip(got, case["cols"])):
        col = [r[k] for r in rows]
        ctx.check(g.shape == (len(rows),) and np.array_equal(g.astype(float), np.array([float(v) for v in col]), equal_nan=True), f"column {k} is {g!r}, the lines hold {col}")
        if c["data"][0] == "%d":
            ctx.check(g.dtype.kind == "i" and g.tolist() == [int(v) for v in col], f"column {k} of integers {col} was read as {g!r}")
        if any("." in v for v in col):
            ctx.check(g.dtype == np.float64, f"column {k} has type {g.dtype}")


CHECKS = [SubCheck("file", case_, run, quick=8000, thorough=200000, weight=3, rule="files written column by column, any number format"),
          SubCheck("lines", case_, run_lines, quick=6000, thorough=150000, weight=1, rule="lines of numbers to arrays and their types")]
