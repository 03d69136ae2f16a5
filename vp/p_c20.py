"""C20: axis predicates against reference predicates on exactly representable values."""
import datetime
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .core import Sub, Violation, fmt_short

NAMES = ["time", "t", "lat", "latitude", "lev", "x", "T", "Lat"]
UNITS = [None, None, "m", "hPa", "", "degrees_north", "mPa", "MPa"]
CF = [{}, {}, {"standard_name": "latitude"}, {"standard_name": "longitude"}, {"axis": "T"}, {"axis": "Z"}, {"positive": "down"}, {"standard_name": "time"},
      {"long_name": "An axis"}]
KINDS = ["f8", "f8", "f4", "i4", "i8", "datetime64", "cftime", "cftime360"]


@st.composite
def s_values(draw, n):
    """n numbers that every kind represents exactly (multiples of 1/8)."""
    how = draw(st.sampled_from(["uniform", "uniform", "uniform", "irregular", "any", "constant", "repeat", "almost"]))
    start = draw(st.integers(-4000, 4000))
    if how in ("uniform", "almost"):
        step = draw(st.sampled_from([1, 2, 3, 5, 8, 10, 24, 100, -1, -7, -8]))
        v = [start + i * step for i in range(n)]
        if how == "almost" and n:
            v[draw(st.integers(0, n - 1))] += draw(st.sampled_from([1, -1, 2]))
    elif how == "irregular":
        steps = draw(st.lists(st.integers(1, 50), min_size=n, max_size=n))
        v = [start + sum(steps[:i]) for i in range(n)]
    elif how == "constant":
        v = [start] * n
    elif how == "repeat":
        v = [start + draw(st.integers(0, 2)) for _ in range(n)]
    else:
        v = draw(st.lists(st.integers(-4000, 4000), min_size=n, max_size=n))
    return v


def s_axis(n):
    """An axis; tiny: [[index, bits]] adds 2**-bits to that value of an axis of double precision."""
    return st.fixed_dictionaries({"name": st.sampled_from(NAMES), "units": st.sampled_from(UNITS), "cf": st.sampled_from(CF),
                                  "kind": st.sampled_from(KINDS), "values": s_values(n),
                                  "tiny": st.one_of(st.just([]), st.just([]), st.just([]), s_tiny())})


def s_tiny():
    return st.lists(st.tuples(st.integers(0, 400), st.integers(5, 30)), min_size=1, max_size=1)


EDITS = ["none", "none", "value", "value", "swap", "name", "units", "drop last", "extend", "attrs", "offset", "reverse", "copy dtype", "tiny", "double", "case", "blank"]


@st.composite
def s_identical(draw):
    n = draw(st.integers(1, 7)) if draw(st.integers(0, 9)) else draw(st.integers(20, 60))
    a = draw(s_axis(n))
    b = dict(a, values=list(a["values"]))
    for e in draw(st.lists(st.sampled_from(EDITS), min_size=1, max_size=2)):
        if e == "value":
            i = draw(st.integers(0, len(b["values"]) - 1))
            b["values"][i] += draw(st.sampled_from([1, -1, 8, 1000]))
        elif e == "swap" and n > 1:
            i = draw(st.integers(0, len(b["values"]) - 1))
            j = draw(st.integers(0, len(b["values"]) - 1))
            b["values"][i], b["values"][j] = b["values"][j], b["values"][i]
        elif e == "name":
            b["name"] = draw(st.sampled_from(NAMES))
        elif e == "units":
            b["units"] = draw(st.sampled_from(UNITS))
        elif e == "case":
            k = draw(st.sampled_from(["name", "units", "units"]))
            b[k] = b[k] and b[k].swapcase()
        elif e == "blank" and b["units"] is not None:
            b["units"] += " "
        elif e == "drop last" and len(b["values"]) > 1:
            b["values"] = b["values"][:-1]
        elif e == "extend":
            b["values"] = b["values"] + [b["values"][-1] + 8]
        elif e == "attrs":
            b["cf"] = draw(st.sampled_from(CF))
        elif e == "offset":
            b["values"] = [v + 8 for v in b["values"]]
        elif e == "reverse":
            b["values"] = b["values"][::-1]
        elif e == "tiny":
            b["tiny"] = draw(s_tiny())
        elif e == "double":
            a["kind"] = b["kind"] = "f8"
        elif e == "copy dtype" and b["kind"] in ("f8", "f4", "i4", "i8"):
            b["kind"] = draw(st.sampled_from(["f8", "f4"])) if b["kind"] in ("f8", "f4") else draw(st.sampled_from(["i4", "i8"]))
    return {"a": a, "b": b}


@st.composite
def s_subset(draw):
    n = draw(st.integers(1, 6))
    m = draw(st.integers(1, 6))
    big = draw(s_axis(n * m))
    start = draw(st.sampled_from([0, 0, 0, 0, 1]))
    big["tiny"] = []
    small = dict(big, values=big["values"][start::n] or big["values"][:1])
    if draw(st.booleans()):
        small["name"] = draw(st.sampled_from(NAMES))
    for e in draw(st.lists(st.sampled_from(["value", "last", "drop", "units", "more", "bigger", "attrs", "random", "tiny"]), max_size=1)):
        k = draw(st.integers(0, len(small["values"]) - 1))
        small["values"] = list(small["values"])
        if e == "value":
            small["values"][k] += draw(st.sampled_from([1, -1, 8]))
        elif e == "tiny":
            small["tiny"] = draw(s_tiny())
        elif e == "last":
            small["values"][-1] += 8
        elif e == "drop" and len(small["values"]) > 1:
            small["values"].pop(k)
        elif e == "units":
            small["units"] = draw(st.sampled_from(UNITS))
        elif e == "more":
            small["values"].append(small["values"][-1] + 8)
        elif e == "bigger":
            big = dict(big, values=big["values"] + [big["values"][-1] + 8])
        elif e == "attrs":
            small["cf"] = draw(st.sampled_from(CF))
        elif e == "random":
            small["values"] = draw(s_values(len(small["values"])))
    return {"small": small, "big": big}


def exact(a):
    """The values as fractions, in the resolution the kind can hold."""
    if a["kind"] in ("i4", "i8"):
        return [Fraction(v) for v in a["values"]]
    v = [Fraction(v, 8) for v in a["values"]]
    if a["kind"] == "f8" and v:
        for i, bits in a.get("tiny", []):
            v[i % len(v)] += Fraction(1, 2 ** bits)
    return v


def build(a):
    import cftime
    import xarray as xr
    enc = None
    v = [float(x) for x in exact(a)]         # exact: at most 10 bits before and 30 behind the point
    attrs = dict(a["cf"])
    if a["units"] is not None and a["kind"] not in ("datetime64", "cftime", "cftime360"):
        attrs["units"] = a["units"]
    if a["kind"] in ("i4", "i8"):
        arr = np.array(a["values"], dtype=a["kind"])
    elif a["kind"] in ("f4", "f8"):
        arr = np.array(v, dtype=a["kind"])
    elif a["kind"] == "datetime64":
        arr = np.array([np.datetime64("2000-01-01T00:00:00", "ns") + np.timedelta64(int(x * 3600), "s") for x in v])
        enc = {"units": "hours since 2000-01-01 00:00:00", "calendar": "proleptic_gregorian"}
    else:
        cal = "noleap" if a["kind"] == "cftime" else "360_day"
        base = cftime.datetime(2000, 1, 1, calendar=cal)
        arr = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            arr[i] = base + datetime.timedelta(seconds=int(x * 3600))
        enc = {"units": "hours since 2000-01-01 00:00:00", "calendar": cal}
    da = xr.DataArray(arr, dims=[a["name"]], coords={a["name"]: arr}, name=a["name"])[a["name"]]
    da.attrs.update(attrs)
    if enc:
        da.encoding.update(enc)
    return da


def units(a):
    return a["units"] if a["kind"] not in ("datetime64", "cftime", "cftime360") else None


def check_identical(case, ctx):
    from nappy.nc_interface.xarray_utils import areAxesIdentical
    a, b = case["a"], case["b"]
    want = a["name"] == b["name"] and units(a) == units(b) and exact(a) == exact(b)
    same_len = len(a["values"]) == len(b["values"])
    ctx.note(not want or len(a["values"]) > 1, "identical" if want else "different", a["kind"],
             "some values equal" if same_len and exact(a) != exact(b) and any(x == y for x, y in zip(exact(a), exact(b))) else "")
    A, B = build(a), build(b)
    va, vb = A.values.tolist(), B.values.tolist()
    for x, y, n in ((A, B, "forwards"), (B, A, "backwards")):
        with ctx.sut("comparing axes"):
            got = areAxesIdentical(x, y)
        if bool(got) != want:
            raise Violation("areAxesIdentical %s is %r for axes %s and %s" % (n, got, describe(a), describe(b)))
    if A.values.tolist() != va or B.values.tolist() != vb:
        raise Violation("comparing axes changed their values")


def describe(a):
    return fmt_short("%s [%s] %s %r" % (a["name"], units(a), a["kind"], [float(x) for x in exact(a)]), 200)


def check_subset(case, ctx):
    from nappy.nc_interface.xarray_utils import isAxisRegularlySpacedSubsetOf
    s, b = case["small"], case["big"]
    es, eb = exact(s), exact(b)
    n = len(eb) // len(es) if len(eb) % len(es) == 0 else 0
    want = n if n and units(s) == units(b) and es == eb[::n] else False
    ctx.note(len(eb) > 1, "subset %s" % (want if want is False or want < 3 else ">=3"), s["kind"], "other name" if s["name"] != b["name"] else "")
    with ctx.sut("looking for a regular subset"):
        got = isAxisRegularlySpacedSubsetOf(build(s), build(b))
    if (got != want) or (want is False and got):
        raise Violation("isAxisRegularlySpacedSubsetOf is %r instead of %r for %s of %s" % (got, want, describe(s), describe(b)))


@st.composite
def s_uniform(draw):
    n = draw(st.integers(1, 8)) if draw(st.integers(0, 9)) else draw(st.integers(20, 300))
    a = draw(s_axis(n))
    if draw(st.integers(0, 3)) == 0:
        a["kind"], a["tiny"] = "f8", draw(s_tiny())
    return {"axis": a, "as": draw(st.sampled_from(["DataArray", "DataArray", "list", "array"]))}


def check_uniform(case, ctx):
    from nappy.nc_interface.xarray_utils import isUniformlySpaced
    import xarray as xr
    a = case["axis"]
    e = exact(a)
    n = len(e)
    want = n == 1 or all(e[i] * (n - 1) == e[0] * (n - 1) + i * (e[-1] - e[0]) for i in range(n))
    # on axes of a step that is no multiple of 1/8 the sequence itself cannot be represented
    ctx.note(n > 2, "uniform" if want else "not uniform", a["kind"])
    x = build(a)
    if case["as"] != "DataArray" and a["kind"] in ("f8", "f4", "i4", "i8"):
        # the predicate is documented for arrays of values: hand them over without any metadata
        x = xr.DataArray(x.values)
    with ctx.sut("testing an axis for uniform spacing"):
        got = isUniformlySpaced(x)
    if bool(got) != want:
        raise Violation("isUniformlySpaced is %r for %s" % (got, describe(a)))


SUBS = [
    Sub("identical", s_identical, check_identical, 4000, 120000, "pairs of axes differing in a generated way or not at all; non-trivial = different, or more than one value"),
    Sub("subset", s_subset, check_subset, 4000, 120000, "pairs of axes, one derived from the other by taking every n-th value and at most one edit; non-trivial = more than one value"),
    Sub("uniform", s_uniform, check_uniform, 4000, 120000, "axes of all kinds; non-trivial = more than two values"),
]
ASSUMPTIONS = ["Values are multiples of 1/8 (hours for times), in double precision plus at most a small power of two, exact in every representation, so that equality has one meaning.",
               "Axes of different calendars are not compared with each other.",
               "Units of decoded time axes are not compared, only the times."]
