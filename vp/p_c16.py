"""C16: a requested output format is honoured exactly or refused."""
import os

from hypothesis import strategies as st

from . import ncgen
from .core import Sub, Violation

FFIS = [1001, 1010, 1020, 2010, 2110, 2310, 3010, 4010]


def drop_mixed(d):
    """Only variables on the main grid, and one-dimensional ones on its first axis."""
    grid = d["vars"][0]["dims"]
    keep = [v for v in d["vars"] if v["dims"] == grid or v["dims"] == grid[:1]]
    return dict(d, vars=keep)


def s_case():
    two = ncgen.dataset(max_rank=2, min_rank=2, extra_dims=False, scalars=True, wild=True)
    return st.fixed_dictionaries({
        "ds": st.one_of(ncgen.dataset(max_vars=4, wild=True), ncgen.dataset(max_rank=1, max_vars=4), two, two.map(drop_mixed), two.map(drop_mixed), two.map(drop_mixed)),
        "ffi": st.one_of(st.sampled_from([2110, 2310, 2010]), st.sampled_from(FFIS + [2160, 999])),
        "fmt": st.sampled_from(["%.17g", "%.17g", "%.10g", "%.12e"]),
        "delim": st.sampled_from(["    ", "\t", ","]),
        "default": st.booleans(),
    })


def s_same():
    """The format the default output has."""
    return st.fixed_dictionaries({"ds": st.one_of(ncgen.dataset(max_vars=3, extra_dims=False), ncgen.dataset(max_vars=3, one_d=True), ncgen.dataset(min_rank=2, max_rank=4, max_len=3, max_vars=2).map(drop_mixed)),
                                  "fmt": st.just("%.17g"), "delim": st.just("    "), "default": st.just(True), "ffi": st.none()})


def evenly(c):
    v = c["values"]
    from fractions import Fraction as F
    e = [F(x) for x in v]
    n = len(e)
    return n > 1 and all(e[i] * (n - 1) == e[0] * (n - 1) + i * (e[-1] - e[0]) for i in range(n)) and all((x * 8).denominator == 1 for x in e)


def check(case, ctx):
    import nappy
    d = case["ds"]
    path = ctx.path("in.nc")
    ncgen.write(d, path)
    os.mkdir(ctx.path("d"))
    os.mkdir(ctx.path("r"))
    args = {"float_format": case["fmt"], "delimiter": case["delim"]}
    delim = None if case["delim"].isspace() else case["delim"]
    if any(ncgen.has_clash(s, case["fmt"]) for s in d["vars"]):
        ctx.note(False, "value like the missing value")
        return
    want, must = case["ffi"], False
    if case["default"]:
        with ctx.sut("converting NetCDF"):
            files = nappy.convertNCToNA(path, ctx.path("d/out.na"), **args)
        outs, parsed = ncgen.collect(files, delim)
        ffis = sorted({p["FFI"] for p in parsed})
        if want is None:
            want = ffis[0]
        if ffis == [want]:
            must = True
    grid = d["vars"][0]["dims"]
    if len(grid) == 2 and want in (2010, 2110, 2310) and all(s["dims"] in (grid, grid[:1]) for s in d["vars"]) and not d.get("coordinates"):
        if want != 2310 or evenly(d["coords"][grid[1]]):
            must = True
    out = ctx.path("r/out.na")
    err = None
    with ctx.sut("converting NetCDF to FFI %d" % want, allow=(Exception,)):
        try:
            files = nappy.convertNCToNA(path, out, requested_ffi=want, **args)
        except (MemoryError, RecursionError):
            raise Violation("the request for FFI %d ended with an exhausted resource" % want)
        except Exception as e:
            err = e
    if err is not None:
        ctx.note(must, "refused")
        if must:
            raise Violation("FFI %d was refused for data that fit it: %s" % (want, str(err)[:200]))
        if os.listdir(ctx.path("r")):
            raise Violation("refused, but files %r were written" % os.listdir(ctx.path("r")))
        return
    outs, parsed = ncgen.collect(files, delim)
    ctx.note(True, "accepted", "FFI%d" % want, "%d files" % min(len(files), 3), "not the default" if not must or want in (2110, 2310) else "",
             "auxiliary" if any(o.kind == "A" for o in outs) else "")
    for p in parsed:
        if p["FFI"] != want:
            raise Violation("FFI %d was requested, FFI %d is written" % (want, p["FFI"]))
    ncgen.check_conservation(d["vars"], outs, d["coords"], case["fmt"])
    ncgen.check_scalars(d, d["scalars"], parsed)
    with ctx.sut("asking for the names of FFI %d" % want):
        names = nappy.convertNCToNA(path, out, requested_ffi=want, only_return_file_names=True, **args)
    if list(names) != list(files):
        raise Violation("names %r are predicted for FFI %d, %r are written" % (names, want, files))


SUBS = [
    Sub("request", s_case, check, 1500, 40000, "datasets and requested formats; non-trivial = the request was accepted, or data that fit the format were refused"),
    Sub("same", s_same, check, 400, 10000, "requests for the format that the default output has"),
]
ASSUMPTIONS = ["Any exception is a refusal.",
               "Data that fit a format without doubt: the default output has it, or FFI 2110 (2310 with an evenly spaced second axis) for variables on one two-dimensional grid and its first axis."]
