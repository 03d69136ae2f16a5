"""C10: conversion to NetCDF preserves all data and metadata."""
import os

from hypothesis import strategies as st

from . import gen, ncmodel, spec
from .core import Sub, Violation, fmt_short
from .p_c01 import n_values

USER_KEYS = ["Project", "Errata", "my_number", "PI", "campaign id", "x-version", "numbers"]


def na_for_nc(ffis=tuple(gen.CONVERTIBLE), names=ncmodel.nc_names, **kw):
    kw.setdefault("style", None)
    return st.one_of(*[gen.na_dict([f], names=names, min_marks=1, **kw) for f in ffis])


EDGES = [s * (2 ** b + d) for b in (7, 8, 15, 16, 31, 32, 53) for d in (-1, 0, 1) for s in (1, -1)]


def user_value():
    return st.one_of(st.text(alphabet=gen.TEXT_ALPHABET, min_size=1, max_size=20).map(lambda s: s.strip() or "v"), st.integers(-10**6, 10**6),
                     st.sampled_from(EDGES), st.lists(st.integers(-100, 100) | st.sampled_from(EDGES), min_size=2, max_size=4), st.floats(-1e6, 1e6))


def s_convert(ffis):
    return lambda: st.fixed_dictionaries({
        "na": na_for_nc(ffis),
        "layout": st.lists(st.integers(0, 119), min_size=1, max_size=12),
        "attrs": st.lists(st.tuples(st.sampled_from(USER_KEYS), user_value()), max_size=3, unique_by=lambda t: t[0]),
        "vars": st.one_of(st.none(), st.none(), st.fixed_dictionaries({"how": st.sampled_from(["index", "name", "digits"]),
                                                                       "pick": st.lists(st.integers(0, 99), min_size=1, max_size=4)})),
        "aux": st.one_of(st.none(), st.none(), st.fixed_dictionaries({"how": st.sampled_from(["index", "name"]),
                                                                      "pick": st.lists(st.integers(0, 99), min_size=1, max_size=4)})),
        "rename": st.lists(st.tuples(st.sampled_from(["v", "v", "a"]), st.integers(0, 99), st.sampled_from(["lower", "recorded", "upper"])), max_size=3),
        "time_units": st.one_of(st.none(), st.sampled_from(ncmodel.TIME_UNITS)),
        "nc_name": st.sampled_from([None, "out.nc", "result.dat"]),
        "old": st.booleans(),
    })


def write_na(na, layout, path):
    text, nhead = spec.emit(na, spec.Layout(layout))
    with open(path, "w", newline="") as f:
        f.write(text)
    return nhead


def selection(s, names):
    """(argument for the call, selected indices) or (None, None)."""
    if s is None or not names:
        return None, None
    idx = []
    for k in s["pick"]:
        if k % len(names) not in idx:
            idx.append(k % len(names))
    if s["how"] == "name":
        if all(names.count(names[i]) == 1 for i in idx) and not names[idx[0]].isdigit():
            return [names[i] for i in idx], idx
        return idx, idx
    if s["how"] == "digits" and not any(n.isdigit() for n in names):
        return [str(i) for i in idx], idx
    return idx, idx


def renaming(na, wanted):
    """{ID: (new name, comparable spelling of the name)} for variables whose name is unique."""
    bases = {"v": na["VNAME"], "a": na.get("ANAME") or []}
    ids = {k: [ncmodel.norm(ncmodel.split_default(s)[0]) for s in v] for k, v in bases.items()}
    every = ids["v"] + ids["a"]
    out = {}
    for which, k, case in wanted:
        if not ids[which]:
            continue
        i = k % len(ids[which])
        if every.count(ids[which][i]) > 1 or any(v[1] == ids[which][i] for v in out.values()):
            continue
        name = ncmodel.split_default(bases[which][i])[0].strip()
        if not name or len(name) >= 64:
            key = ("naVariable_%d" if which == "v" else "naAuxVariable_%d") % i
        elif name.replace(" ", "a").replace("_", "a").isalnum() and "  " not in name and name.isascii():
            key = name.replace(" ", "_")
        else:
            continue
        key = {"lower": key.lower(), "recorded": key, "upper": key.upper()}[case]
        out[key] = ("renamed_%s%d" % (which, i), ids[which][i])
    return out


def check(case, ctx):
    import nappy
    na = case["na"]
    path = ctx.path("in.na")
    nhead = write_na(na, case["layout"], path)
    args = {"time_warning": False}
    varg, vsel = selection(case["vars"], na["VNAME"])
    if varg is not None:
        args["variables"] = varg
    aarg, asel = selection(case["aux"], na.get("ANAME") or [])
    if aarg is not None:
        args["aux_variables"] = aarg
    user = [tuple(t) for t in case["attrs"]]
    if user:
        args["global_attributes"] = user
    ren = renaming(na, case["rename"])
    if ren:
        args["rename_variables"] = {k: v[0] for k, v in ren.items()}
    if case["time_units"]:
        args["time_units"] = case["time_units"]
    sets = [(na["V"][n], na["VSCAL"][n], na["VMISS"][n]) for n in range(na["NV"])]
    sets += [(na["A"][n], na["ASCAL"][n], na["AMISS"][n]) for n in range(na.get("NAUXV") or 0)]
    ctx.note(n_values(na) >= 2, "FFI%d" % na["FFI"], "selection" if varg is not None or aarg is not None else "", "renaming" if ren else "",
             "user attributes" if user else "", "time units" if case["time_units"] else "",
             "scaled missing" if any(s != 1 and any(float(x) == float(m) for x in spec.flatten(v)) for v, s, m in sets) else "")
    if any(ncmodel.collides(spec.flatten(v), s, m) for v, s, m in sets):
        ctx.note(False, "scaled value equals scaled missing value")
        return
    out = ctx.path(case["nc_name"] or "in.nc")
    if case["old"]:
        with open(out, "w") as f:
            f.write("something else")
    before = open(path, "rb").read()
    with ctx.sut("convertNAToNC of FFI %d" % na["FFI"]):
        ret = nappy.convertNAToNC(path, *([out] if case["nc_name"] else []), **args)
    if ret is not None and os.path.abspath(str(ret)) != out:
        raise Violation("convertNAToNC reports %r, expected %r" % (ret, out))
    if open(path, "rb").read() != before:
        raise Violation("the input file was modified")
    nc = ncmodel.read_nc(out)
    ncmodel.check_nc(nc, na, ctx, vsel, asel, case["time_units"], {v[1]: v[0] for v in ren.values()})
    ncmodel.check_globals(nc["attrs"], na, nhead, user)


def s_refuse():
    return st.fixed_dictionaries({"na": gen.na_dict([2110, 2160, 2310], names=None),
                                  "layout": st.lists(st.integers(0, 119), min_size=1, max_size=12),
                                  "how": st.sampled_from(["file", "xarray", "variable"])})


def c_refuse(case, ctx):
    import nappy
    na = case["na"]
    path = ctx.path("in.na")
    write_na(na, case["layout"], path)
    ctx.note(True, "FFI%d" % na["FFI"])
    out = ctx.path("out.nc")
    msg = None
    with ctx.must_raise("converting FFI %d to NetCDF" % na["FFI"]):
        try:
            if case["how"] == "file":
                nappy.convertNAToNC(path, out, time_warning=False)
            elif case["how"] == "xarray":
                nappy.readXarrayObjectsFromNA(path)
            else:
                nappy.getXarrayVariableFromNA(path, 0)
        except Exception as e:
            msg = str(e)
            raise
    if str(na["FFI"]) not in (msg or ""):
        raise Violation("the refusal does not name the format %d: %r" % (na["FFI"], msg))
    if os.path.exists(out):
        raise Violation("refused, but an output file was left behind")


def s_unknown():
    return st.fixed_dictionaries({"na": na_for_nc(), "layout": st.lists(st.integers(0, 119), min_size=1, max_size=5),
                                  "which": st.sampled_from(["variables", "aux_variables"]),
                                  "name": st.sampled_from(["no such variable", "Temperatur", "Temperature ( K)", "?"]),
                                  "after": st.booleans()})


def c_unknown(case, ctx):
    import nappy
    na = case["na"]
    names = na["VNAME"] if case["which"] == "variables" else na.get("ANAME") or []
    if not names or case["name"] in names:
        ctx.note(False)
        return
    path = ctx.path("in.na")
    write_na(na, case["layout"], path)
    sel = ([names[0]] if case["after"] and not names[0].isdigit() else []) + [case["name"]]
    ctx.note(True, case["which"])
    with ctx.must_raise("selecting the unknown name %r from %r" % (case["name"], names)):
        nappy.convertNAToNC(path, ctx.path("out.nc"), time_warning=False, **{case["which"]: sel})


SUBS = [
    Sub("convert_1d", s_convert([1001, 1010, 1020]), check, 1400, 30000,
        "files of one independent variable in any legal layout, selections, renamings, user attributes, time units; non-trivial = two or more values"),
    Sub("convert_nd", s_convert([2010, 3010, 4010]), check, 1400, 30000, "as above for 2 to 4 independent variables"),
    Sub("refused", s_refuse, c_refuse, 160, 3000, "files of formats without a NetCDF mapping"),
    Sub("unknown_names", s_unknown, c_unknown, 120, 3000, "selections holding a name the file does not have; non-trivial = such a selection was made"),
]
ASSUMPTIONS = ["A value whose scaled number equals the scaled missing value (or overflows) cannot be told from it in NetCDF: such cases are left out.",
               "Names may be sanitised (lower case, '_' for special characters, '_N' to keep them apart); names of 64 characters or more get a default ID.",
               "Blank comment lines and the package's own marker lines need not be carried over."]
