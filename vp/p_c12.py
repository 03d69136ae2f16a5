"""C12: conversion from NetCDF conserves every variable."""
import os

from hypothesis import strategies as st

from . import ncgen
from .core import Sub, Violation, fmt_short

FORMATS = [None, None, "%.17g", "%.6f", "%s"]


def s_all():
    return st.fixed_dictionaries({
        "ds": ncgen.dataset(strings=True, wild=True),
        "fmt": st.sampled_from(FORMATS), "csv": st.sampled_from([False, False, False, True]),
        "select": st.one_of(st.none(), st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=4)),
        "select_str": st.booleans(), "with_dims": st.booleans(),
        "exclude": st.one_of(st.just([]), st.lists(st.integers(0, 9), min_size=1, max_size=2)),
    })


def s_deep():
    return st.fixed_dictionaries({
        "ds": ncgen.dataset(max_rank=4, min_rank=4, max_vars=3, max_len=3, wild=True), "fmt": st.just("%.17g"), "csv": st.just(False), "select": st.none(),
        "select_str": st.just(False), "with_dims": st.just(False), "exclude": st.just([]),
    })


def s_one_d():
    return st.fixed_dictionaries({
        "ds": ncgen.dataset(one_d=True, max_vars=6, wild=True),
        "fmt": st.sampled_from(FORMATS), "csv": st.just(False), "select": st.none(), "select_str": st.just(False), "with_dims": st.just(False),
        "exclude": st.just([]),
    })


def selection(case):
    """(keyword arguments, selected variables, selected scalars)."""
    d = case["ds"]
    every = d["vars"] + d["scalars"]
    names = [v["name"] for v in every]
    sel, args = set(names), {}
    if case["select"] is not None:
        pick = [names[i % len(names)] for i in case["select"]]
        sel = set(pick)
        args["var_ids"] = list(dict.fromkeys(pick))
        if case["with_dims"]:
            args["var_ids"] += sorted(d["coords"])[:1]
        elif len(sel) == 1 and case["select_str"]:
            args["var_ids"] = pick[0]
    if case["exclude"]:
        ex = list(dict.fromkeys(names[i % len(names)] for i in case["exclude"]))
        args["exclude_vars"] = ex
        sel -= set(ex)
    return args, [v for v in d["vars"] if v["name"] in sel], [s for s in d["scalars"] if s["name"] in sel]


def check(case, ctx):
    import nappy
    d = case["ds"]
    path = ctx.path("in.nc")
    ncgen.write(d, path)
    args, sel, scal = selection(case)
    fmt = case["fmt"] or "%.10g"
    if case["fmt"]:
        args["float_format"] = case["fmt"]
    clash = any(ncgen.has_clash(s, fmt) for s in sel)
    ctx.note(len(sel) >= 2 and not clash, "selection" if case["select"] or case["exclude"] else "", "value like the missing value" if clash else "",
             "missing" if any(None in ncgen.values(s) for s in sel) else "", "scalars" if scal else "", "bounds" if d["bounds"] else "", *{s["dtype"] for s in sel})
    if clash:
        return
    out = ctx.path("out.csv" if case["csv"] else "out.na")
    with ctx.sut("converting NetCDF"):
        files = (nappy.convertNCToCSV if case["csv"] else nappy.convertNCToNA)(path, out, **args)
    files = list(files or [])
    written = sorted(f for f in os.listdir(ctx.dir) if f != "in.nc")
    if written != sorted(os.path.basename(f) for f in files):
        raise Violation("files %r are on disk, %r are reported" % (written, files))
    if not sel:
        if files:
            raise Violation("nothing was selected, but %r are written" % files)
        return
    outs, parsed = ncgen.collect(files, "," if case["csv"] else None)
    ctx.note(None, *["FFI%d" % p["FFI"] for p in parsed], "auxiliary" if any(p.get("NAUXV") for p in parsed) else "", "%d files" % min(len(files), 4))
    ncgen.check_conservation(sel, outs, d["coords"], fmt)
    ncgen.check_intervals(parsed, fmt)
    ncgen.check_scalars(d, scal, parsed)


SUBS = [
    Sub("conserve", s_all, check, 1200, 30000, "datasets of 1 to 3 dimensions with selections and exclusions; non-trivial = two or more variables selected"),
    Sub("conserve_4d", s_deep, check, 200, 6000, "as above with up to 4 dimensions"),
    Sub("conserve_1d", s_one_d, check, 700, 15000, "datasets of one main dimension with second axes and every-nth axes; non-trivial = as above"),
]
ASSUMPTIONS = ["Coordinates are numeric or times, arrays are of rank 1 to 4 and hold at least one value; variable names differ by more than case and blanks.",
               "Valid values that the chosen float format cannot tell from the missing value are left out."]
