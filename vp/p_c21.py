"""C21: in-memory and file based interfaces agree."""
import copy
import os
import sys

import numpy as np
from hypothesis import strategies as st

from . import gen, ncgen, ncmodel, outputs, spec
from .core import Sub, Violation, fmt_short
from .p_c01 import n_values
from .p_c10 import na_for_nc, write_na
from .p_c15 import changed, snapshot


class quiet_stdin:
    """Nobody answers questions."""

    def __enter__(self):
        self.old = sys.stdin
        sys.stdin = open(os.devnull)

    def __exit__(self, *a):
        sys.stdin.close()
        sys.stdin = self.old


def layouts():
    return st.lists(st.integers(0, 119), min_size=1, max_size=8)


def plain(v):
    """Comparable form of an attribute value."""
    if isinstance(v, str):
        return outputs.norm_text(v)
    a = np.atleast_1d(np.asarray(v))
    if a.dtype.kind in "SU":
        return [str(x) for x in a.ravel()]
    return [float(x) for x in a.ravel()]


IGNORED = {"_FillValue", "coordinates", "name"}


def attrs_form(attrs):
    return {str(k): plain(v) for k, v in dict(attrs).items() if k not in IGNORED and not (isinstance(v, str) and v == "")}


def same_attrs(what, a, b):
    fa, fb = attrs_form(a), attrs_form(b)
    if fa != fb:
        k = sorted(k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k))[0]
        raise Violation("%s: attribute %s is %s in memory, %s in the file" % (what, k, fmt_short(fa.get(k, "<absent>")), fmt_short(fb.get(k, "<absent>"))))


def same_numbers(what, got, exp, fill):
    """got: array in memory; exp: stored numbers, fill marks missing ones."""
    if got.shape != exp.shape:
        raise Violation("%s has shape %r in memory, %r in the file" % (what, got.shape, exp.shape))
    g, e = np.ma.filled(np.ma.asarray(got), np.nan if got.dtype.kind == "f" else None).ravel().tolist(), exp.ravel().tolist()
    for i, (x, y) in enumerate(zip(g, e)):
        missing = fill is not None and (y == fill or y != y)
        if missing != (x != x or (fill is not None and x == fill)):
            raise Violation("%s value %d is %r in memory, %r in the file (missing value %r)" % (what, i, x, y, fill))
        if not missing and x != y:
            raise Violation("%s value %d is %r in memory, %r in the file" % (what, i, x, y))


def same_array(da, nc, name=None, what=None, dims=None):
    """The DataArray is the variable of the file (read_nc)."""
    name = name or da.name
    what = what or "variable %r" % name
    if name not in nc["vars"]:
        raise Violation("%s is not in the file, which holds %r" % (what, sorted(nc["vars"])))
    v = nc["vars"][name]
    if tuple(da.dims) != tuple(v["dims"]):
        raise Violation("%s has dimensions %r in memory, %r in the file" % (what, da.dims, v["dims"]))
    fill = v["attrs"].get("_FillValue")
    same_numbers(what, np.asarray(da.data), v["data"], fill)
    mine = da.encoding.get("_FillValue", da.attrs.get("_FillValue"))
    if (fill is None) != (mine is None) or (fill is not None and not (float(mine) == float(fill) or (mine != mine and fill != fill))):
        raise Violation("%s has missing value %r in memory, %r in the file" % (what, mine, fill))
    same_attrs(what, da.attrs, v["attrs"])
    for d in da.dims:
        if d not in da.coords:
            raise Violation("%s has no coordinates for its dimension %r" % (what, d))
        c, w = da.coords[d], nc["vars"][d]
        same_numbers("axis %r of %s" % (d, what), np.asarray(c.data), w["data"], None)
        same_attrs("axis %r of %s" % (d, what), c.attrs, w["attrs"])


def s_read(ffis):
    return lambda: st.fixed_dictionaries({"na": na_for_nc(ffis), "layout": layouts(), "pick": st.integers(0, 99), "by": st.sampled_from(["index", "name", "name", "digits"])})


def c_read(case, ctx):
    import nappy
    na = case["na"]
    path, out = ctx.path("in.na"), ctx.path("out.nc")
    nhead = write_na(na, case["layout"], path)
    ctx.note(n_values(na) >= 2, "FFI%d" % na["FFI"], "auxiliary" if na.get("NAUXV") else "", "scaled" if any(float(s) != 1 for s in na["VSCAL"]) else "")
    before = snapshot(ctx.dir)
    with quiet_stdin():
        with ctx.sut("readXarrayObjectsFromNA of FFI %d" % na["FFI"]):
            prim, aux, attrs = nappy.readXarrayObjectsFromNA(path)
        names = na["VNAME"]
        i = case["pick"] % len(names)
        by = case["by"]
        if by == "name" and (names.count(names[i]) > 1 or names[i].isdigit() or not names[i]):
            by = "index"
        if by == "digits" and any(n.isdigit() for n in names):
            by = "index"
        with ctx.sut("getXarrayVariableFromNA by %s" % by):
            one = nappy.getXarrayVariableFromNA(path, {"index": i, "name": names[i], "digits": str(i)}[by])
    diff = changed(before, snapshot(ctx.dir))
    if diff:
        raise Violation("reading into memory touched files: %r" % (diff,))
    with ctx.sut("convertNAToNC of FFI %d" % na["FFI"]):
        nappy.convertNAToNC(path, out, time_warning=False)
    nc = ncmodel.read_nc(out)
    if len(prim) != na["NV"] or len(aux) != (na.get("NAUXV") or 0):
        raise Violation("%d primary and %d auxiliary objects for %d and %d variables" % (len(prim), len(aux), na["NV"], na.get("NAUXV") or 0))
    for kind, objs in (("primary", prim), ("auxiliary", aux)):
        for k, da in enumerate(objs):
            same_array(da, nc, what="%s variable %d (%r)" % (kind, k, da.name))
    every = {da.name for da in prim + aux} | {d for da in prim + aux for d in da.dims}
    if every != set(nc["vars"]):
        raise Violation("objects %r in memory, %r in the file" % (sorted(every), sorted(nc["vars"])))
    same_attrs("global attributes", attrs, nc["attrs"])
    # one variable alone: the same object, if not its unique name
    ctx.note(None, "by " + by)
    if not ncmodel.same_name(one.name, prim[i].name) and not ncmodel.same_name(prim[i].name, one.name):
        raise Violation("variable %d alone is called %r, %r among all" % (i, one.name, prim[i].name))
    # the NASA Ames header line is recorded whatever was selected
    same_array(one, nc, name=prim[i].name, what="variable %d alone" % i)


def s_dict():
    return st.fixed_dictionaries({"na": na_for_nc(), "layout": layouts(), "how": st.sampled_from(["own", "own", "own", "read"]), "ffi": st.booleans(),
                                  "numpy": st.booleans(), "ints": st.booleans()})


def own_dict(na, case):
    """The contents dictionary as a user would write it."""
    d = {k: v for k, v in copy.deepcopy(na).items() if k not in ("style",)}
    if not case["ffi"]:
        d.pop("FFI", None)
    if case["ints"]:
        def conv(v):
            return [conv(x) for x in v] if isinstance(v, list) else int(v) if float(v) == int(v) and abs(v) < 2**31 else v
        for k in ("V", "A"):
            if k in d:
                d[k] = conv(d[k])
    if case["numpy"]:
        d["V"] = [np.array(v) for v in d["V"]]
        if "A" in d:
            d["A"] = [np.array(v) for v in d["A"]]
    return d


def c_dict(case, ctx):
    import nappy
    na = case["na"]
    path, out, ref = ctx.path("in.na"), ctx.path("out.nc"), ctx.path("ref.nc")
    write_na(na, case["layout"], path)
    ctx.note(n_values(na) >= 2, "FFI%d" % na["FFI"], case["how"], "ints" if case["ints"] and case["how"] == "own" else "", "no FFI" if not case["ffi"] and case["how"] == "own" else "")
    sets = [(na["V"][n], na["VSCAL"][n], na["VMISS"][n]) for n in range(na["NV"])]
    sets += [(na["A"][n], na["ASCAL"][n], na["AMISS"][n]) for n in range(na.get("NAUXV") or 0)]
    if any(ncmodel.collides(spec.flatten(v), s, m) for v, s, m in sets):
        ctx.note(False, "scaled value equals scaled missing value")
        return
    if case["how"] == "read":
        with ctx.sut("reading the file"):
            f = nappy.openNAFile(path)
            f.readData()
            d = f.getNADict()
            f.close()
    else:
        d = own_dict(na, case)
    with quiet_stdin(), ctx.sut("writeNADictToNC for FFI %d" % na["FFI"]):
        nappy.writeNADictToNC(d, out)
    with ctx.sut("convertNAToNC"):
        nappy.convertNAToNC(path, ref, time_warning=False)
    a, b = ncmodel.read_nc(out), ncmodel.read_nc(ref)
    if set(a["vars"]) != set(b["vars"]):
        raise Violation("variables %r from the dictionary, %r from the file" % (sorted(a["vars"]), sorted(b["vars"])))
    for name in a["vars"]:
        v, w = a["vars"][name], b["vars"][name]
        if v["dims"] != w["dims"]:
            raise Violation("variable %r has dimensions %r from the dictionary, %r from the file" % (name, v["dims"], w["dims"]))
        fa, fb = v["attrs"].get("_FillValue"), w["attrs"].get("_FillValue")
        if name not in v["dims"] and (fa is None) != (fb is None) or (fa is not None and fb is not None and float(fa) != float(fb) and fa == fa and fb == fb):
            raise Violation("variable %r has missing value %r from the dictionary, %r from the file" % (name, fa, fb))
        same_numbers("variable %r" % name, np.asarray(v["data"], dtype="f8"), np.asarray(w["data"], dtype="f8"), fb)
        same_attrs("variable %r" % name, v["attrs"], w["attrs"])
    skip = {"no_of_nasa_ames_header_lines"} if case["how"] == "own" else set()
    same_attrs("global attributes", {k: v for k, v in a["attrs"].items() if k not in skip}, {k: v for k, v in b["attrs"].items() if k not in skip})


def second_of(na, shared, seed):
    """Another dictionary, to be added to a file that holds na."""
    d = copy.deepcopy(na)
    d["VNAME"] = [("Second %s" % s)[:60] if s else "Second" for s in d["VNAME"]]
    if d.get("NAUXV"):
        d["ANAME"] = [("Second aux %s" % s)[:60] if s else "Second aux" for s in d["ANAME"]]
    return d


@st.composite
def s_append(draw):
    case = {"na": draw(na_for_nc(names=ncmodel.distinct_names)), "layout": draw(layouts()), "how": draw(st.sampled_from(["other", "same axes", "parts", "parts"])),
            "api": draw(st.sampled_from(["file", "file", "dict"])), "cut": draw(st.integers(0, 99)), "units": draw(st.sampled_from([None, None] + ncmodel.TIME_UNITS))}
    if case["how"] == "other":
        case["na2"] = draw(na_for_nc(names=ncmodel.distinct_names))
    return case


def put(case, na, path, layout, out, mode, ctx, **args):
    import nappy
    write_na(na, layout, path)
    what = "%s with mode %s" % (case["api"], mode)
    if case["api"] == "dict" and not args:
        d = copy.deepcopy(na)
        with quiet_stdin(), ctx.sut("writeNADictToNC, " + what):
            nappy.writeNADictToNC(d, out, **({"mode": mode} if mode != "w" else {}))
    else:
        if case["units"]:
            args["time_units"] = case["units"]
        with ctx.sut("convertNAToNC, " + what):
            nappy.convertNAToNC(path, out, time_warning=False, **({"mode": mode} if mode != "w" else {}), **args)


def c_append(case, ctx):
    na = case["na"]
    out = ctx.path("out.nc")
    a1, a2 = {}, {}
    if case["how"] == "other":
        na2 = second_of(case["na2"], False, 0)
        na2["XNAME"] = ["Axis of the second %d" % i for i in range(na2["NIV"])]
    elif case["how"] == "same axes":
        na2 = second_of(na, True, 0)
    else:
        if na["NV"] < 2:
            ctx.note(False, "one variable")
            return
        na2 = na
        k = 1 + case["cut"] % (na["NV"] - 1)
        a1, a2 = {"variables": list(range(k))}, {"variables": list(range(k, na["NV"]))}
    ctx.note(True, case["how"], case["api"], "FFI%d" % na["FFI"])
    put(case, na, ctx.path("1.na"), case["layout"], out, "w", ctx, **a1)
    one = outputs.nc_form(out)
    put(case, na2, ctx.path("2.na"), case["layout"][::-1], out, "a", ctx, **a2)
    both = outputs.nc_form(out)
    alone = ctx.path("alone.nc")
    put(case, na2, ctx.path("2.na"), case["layout"][::-1], alone, "w", ctx, **a2)
    two = outputs.nc_form(alone)
    for what, part in (("first", one), ("added", two)):
        for name, v in part["vars"].items():
            if name not in both["vars"]:
                raise Violation("variable %r of the %s data is not in the file with both: %r" % (name, what, sorted(both["vars"])))
            if both["vars"][name] != v:
                raise Violation("variable %r of the %s data differs in the file with both: %s" % (name, what, outputs.first_difference({"v": dict(enumerate(v))}, {"v": dict(enumerate(both["vars"][name]))})))
    extra = set(both["vars"]) - set(one["vars"]) - set(two["vars"])
    if extra:
        raise Violation("unexpected variables %r" % sorted(extra))
    for k, v in two["attrs"].items():
        if k not in both["attrs"]:
            raise Violation("global attribute %r is lost" % k)


# ---- objects to NASA Ames

def s_objects():
    return st.fixed_dictionaries({
        "ds": st.one_of(ncgen.dataset(max_vars=4), ncgen.dataset(max_vars=4, strings=True, wild=True), ncgen.dataset(one_d=True), ncgen.dataset(max_rank=2, min_rank=2, extra_dims=False)),
        "opened": st.sampled_from(["like the converter", "cftime", "datetime64"]),
        "fmt": st.sampled_from([None, "%.17g", "%.12e"]),
        "delim": st.sampled_from([None, "\t", ",", ", "]),
        "annotation": st.booleans(), "no_header": st.sampled_from([False, False, True]),
        "limit": st.one_of(st.none(), st.none(), st.integers(1, 12)),
        "override": st.one_of(st.none(), st.none(), st.sampled_from([{"MNAME": "My mission"}, {"ORG": "Own", "SCOM": ["one", "two"]}, {"DATE": [2001, 2, 3]}, {"NCOM": ["n"]}])),
        "ffi": st.sampled_from([None, None, None, 1001, 2010, 2110, 2310, 1020]),
        "api": st.sampled_from(["na", "na", "csv", "class", "dataset"]),
        "attrs": st.sampled_from(["items", "dict", "list"]),
        "again": st.booleans(),
    })


def open_ds(path, how, d):
    import xarray as xr
    if how == "like the converter":
        with xr.open_dataset(path, decode_times=False) as raw:
            dec = {v: v in raw.dims or raw[v].ndim == 0 for v in raw.variables}
        return xr.open_dataset(path, decode_times=dec, use_cftime=True, decode_timedelta=False)
    coder = xr.coders.CFDatetimeCoder(use_cftime=how == "cftime")
    return xr.open_dataset(path, decode_times=coder, decode_timedelta=False)


def time_like(attrs):
    return "since" in attrs.get("units", "")


def c_objects(case, ctx):
    import nappy
    from nappy.nc_interface import xarray_objs_to_na_files, xarray_to_na
    d = case["ds"]
    how = case["opened"]
    if how != "like the converter":
        # times of data variables are for the reader of the file to decode
        d = dict(d, vars=[dict(v, attrs={k: w for k, w in v["attrs"].items() if k not in ("units", "calendar")}) if time_like(v["attrs"]) else v for v in d["vars"]])
    if how == "datetime64" and any(c["attrs"].get("calendar", "standard") not in ("standard", "gregorian", "proleptic_gregorian") or "1582" in c["attrs"].get("units", "") for c in d["coords"].values()):
        how = "cftime"
    if any(ncgen.has_clash(s, case["fmt"] or "%.10g") for s in d["vars"]):
        ctx.note(False, "value like the missing value")
        return
    path = ctx.path("in.nc")
    ncgen.write(d, path)
    args = {}
    for key, name in (("fmt", "float_format"), ("annotation", "annotation"), ("no_header", "no_header"), ("limit", "size_limit"), ("override", "na_items_to_override"), ("ffi", "requested_ffi")):
        if case[key]:
            args[name] = copy.deepcopy(case[key])
    if case["delim"] and case["api"] != "csv":
        args["delimiter"] = case["delim"]
    name = "out.csv" if case["api"] == "csv" else "out.na"
    for k in ("f", "m", "m2"):
        os.mkdir(ctx.path(k))
    refused = None
    try:
        with ctx.sut("converting the file", allow=Exception if case["ffi"] else ()):
            files = (nappy.convertNCToCSV if case["api"] == "csv" else nappy.convertNCToNA)(path, ctx.path("f/" + name), **copy.deepcopy(args))
    except Violation:
        raise
    except Exception as e:
        refused = e
    ds = open_ds(path, how, d)
    try:
        bounds = {v.attrs.get("bounds") for v in ds.variables.values()}
        objs = [ds[v] for v in ds.variables if v not in bounds]
        gattrs = dict(ds.attrs) if case["attrs"] == "dict" else list(ds.attrs.items()) if case["attrs"] == "list" else ds.attrs.items()
        ctx.note(not refused and len(d["vars"]) > 0, how, case["api"], "refused" if refused else "", "split" if case["limit"] else "", "scalars" if d["scalars"] else "")

        def run(top):
            target = ctx.path(top + "/" + name)
            a = copy.deepcopy(args)
            if case["api"] == "na":
                return nappy.convertXarrayObjectsToNA(objs, gattrs, target, **a)
            if case["api"] == "csv":
                return nappy.convertXarrayObjectsToCSV(objs, gattrs, target, **a)
            w = {k: a.pop(k) for k in ("delimiter", "float_format", "annotation", "no_header", "size_limit") if k in a}
            if case["api"] == "class":
                c = xarray_objs_to_na_files.XarrayObjectsToNAFile(objs, global_attributes=gattrs, **a)
            else:
                keep = ds.drop_vars([b for b in bounds if b in ds.variables])
                c = xarray_to_na.XarrayDatasetToNA(keep, **a)
                # its data variables in their order, then the coordinates that are not axes
                own = [keep[k] for k in keep.data_vars]
                aux = [k for v in own for k in v.coords if k not in v.dims]
                own += [keep[k] for k in dict.fromkeys(aux) if k not in keep.data_vars]
                os.mkdir(ctx.path(top + "o"))
                if not refused:
                    nappy.convertXarrayObjectsToNA(own, dict(keep.attrs), ctx.path(top + "o/" + name), **copy.deepcopy(args))
            c.convert()
            c.writeNAFiles(target, **w)
            return c.output_files_written
        if refused:
            with ctx.must_raise("converting objects to a format the file conversion refuses (%s)" % refused):
                run("m")
            return
        with ctx.sut("converting objects"):
            got = run("m")
        if case["again"]:
            with ctx.sut("converting the same objects again"):
                run("m2")
    finally:
        ds.close()
    if case["api"] == "dataset":
        # the dataset lists its variables in an order of its own
        diff = outputs.first_difference(outputs.files_form(ctx.path("mo")), outputs.files_form(ctx.path("m")))
        if diff:
            raise Violation("files from a dataset differ from those of its variables, in their order, as objects: %s" % diff)
        if case["no_header"] or case["annotation"] or case["limit"] or case["ffi"]:
            ctx.note(False)
            return
        delim = case["delim"] and case["delim"].strip() or None
        outs, parsed = ncgen.collect([os.path.join(ctx.path("m"), os.path.basename(f)) for f in got], delim)
        if "VNAME" not in (case["override"] or {}):
            ncgen.check_conservation(d["vars"], outs, d["coords"], case["fmt"] or "%.10g")
        if "SCOM" not in (case["override"] or {}):
            ncgen.check_scalars(d, d["scalars"], parsed)
        return
    if sorted(os.path.basename(f) for f in got) != sorted(os.path.basename(f) for f in files):
        raise Violation("files %r from objects, %r from the file" % (got, files))
    want = outputs.files_form(ctx.path("f"))
    for top in ("m", "m2") if case["again"] else ("m",):
        diff = outputs.first_difference(want, outputs.files_form(ctx.path(top)))
        if diff:
            raise Violation("files from objects%s differ from those of the file conversion: %s" % (" (second time)" if top == "m2" else "", diff))


SUBS = [
    Sub("read_1d", s_read([1001, 1010, 1020]), c_read, 500, 15000, "files of one independent variable read into memory and converted; non-trivial = two or more values"),
    Sub("read_nd", s_read([2010, 3010, 4010]), c_read, 500, 15000, "as above for 2 to 4 independent variables"),
    Sub("dictionary", s_dict, c_dict, 600, 15000, "contents dictionaries, as read and as written by a user, against the file; non-trivial = two or more values"),
    Sub("append", s_append, c_append, 400, 10000, "pairs of files (other data, same axes, parts of one) put into one NetCDF file; non-trivial = both were written"),
    Sub("objects", s_objects, c_objects, 800, 20000, "datasets opened in three ways handed over as objects, all options; non-trivial = converted"),
]
ASSUMPTIONS = ["Empty text attributes and the helper attribute 'name' are not compared.",
               "Data variables holding times are handed over undecoded, as the file conversion reads them.",
               "Appended data bring variable names of their own; axes of the same name are the same axes."]
