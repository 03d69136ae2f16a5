"""Reference model of the NASA Ames -> NetCDF mapping, and an independent reader of NetCDF files."""
import re

import numpy as np
from hypothesis import strategies as st

from . import gen, spec
from .core import Violation, fmt_short
from .p_c07 import split_default

VBASE = ["Temperature", "Ozone", "wind speed", "NO2 mixing-ratio", "x", "Pressure at 10.5 m", "H2O", "2m temperature", "a/b ratio", "Flux [net] up",
         "Day number", "Name, with comma", "rel. humidity 100%", "A+B", "u:v", "temperature", "TEMPERATURE", "Density of the air", "5", "Concentration*10 & more",
         "Time of flight", "Altitude", "Latitude of aircraft"]
XBASE = ["UT", "Height", "x", "Range gate", "Distance along track", "Day number", "Pressure", "Station index", "Radius/2", "North-South distance"]
AXTYPES = ["longitude", "latitude", "level", "time"]
UNITS = ["K", "ppmv", "m s-1", "%", "hPa", "W/m**2", "degrees", "1", "none", "10^6 cm-3"]
TIME_UNITS = ["days since 2000-01-01 00:00:00", "hours since 1999-02-28 12:00:00", "seconds since 1970-1-1 00:00:00", "days since 1950-01-01"]


def with_units(base, unit):
    return base if unit is None else ("%s (%s)" % (base, unit)).strip()


def var_name():
    long = st.integers(64, 75).map(lambda n: ("long name " * 8)[:n].strip().ljust(n, "x"))
    base = st.one_of(st.sampled_from(VBASE), st.sampled_from(VBASE), st.sampled_from(VBASE), st.text(alphabet=gen.ALPHA + " _", min_size=1, max_size=12).map(str.strip)
                     .map(lambda s: s.lstrip("_") or "v"), long, st.just(""))
    return st.tuples(base, st.one_of(st.none(), st.sampled_from(UNITS))).map(lambda t: with_units(*t))


def axis_name(kind):
    if kind == "other":
        long = st.integers(64, 75).map(lambda n: ("axis name " * 8)[:n].strip().ljust(n, "x"))
        base = st.one_of(*([st.sampled_from(XBASE)] * 5 + [long, st.just("")]))
        return st.tuples(base, st.one_of(st.none(), st.sampled_from(UNITS))).map(lambda t: with_units(*t))
    if kind == "time":
        return st.one_of(st.sampled_from(TIME_UNITS).map(lambda u: "Time (%s)" % u), st.sampled_from(["Time", "time", "Julian time (days)", "Elapsed time (s)"]))
    if kind == "latitude":
        return st.sampled_from(["Latitude (degrees_north)", "latitude", "Geodetic latitude (degrees)"])
    if kind == "longitude":
        return st.sampled_from(["Longitude (degrees_east)", "longitude", "Longitude"])
    return st.sampled_from(["level (hPa)", "Pressure level (hPa)", "Level"])


@st.composite
def nc_names(draw, nv, niv, naux):
    kinds = draw(st.permutations(["time", "latitude", "longitude", "level"]))
    xs = []
    for i in range(niv):
        kind = kinds[i] if draw(st.integers(0, 2)) else "other"
        xs.append(draw(axis_name(kind)))
    if niv > 1 and draw(st.integers(0, 6)) == 0:
        xs[1] = xs[0]
    vs = draw(st.lists(var_name(), min_size=nv, max_size=nv))
    an = draw(st.lists(var_name(), min_size=naux, max_size=naux))
    k = draw(st.integers(0, 9))
    if k == 0 and nv > 1:
        vs[1] = vs[0]
    elif k == 1 and nv and naux:
        an[0] = vs[0]
    elif k == 2:
        vs[0] = xs[0]
    return vs, xs, an


@st.composite
def distinct_names(draw, nv, niv, naux):
    """Names that differ from each other in every spelling NetCDF keeps."""
    vs, xs, an = draw(nc_names(nv, niv, naux))
    seen = set()

    def fix(lst, tag):
        out = []
        for i, s in enumerate(lst):
            b, u = split_default(s)
            key = norm(b)
            kind = axis_kind(b)
            if not key or key in seen or kind in seen:
                s = with_units("%s %s%d" % (b.strip() or "Var", tag, i), u)
                key = norm(split_default(s)[0])
                kind = None
            seen.add(key)
            if tag == "i" and kind:
                seen.add(kind)
            out.append(s)
        return out
    xs = fix(xs, "i")
    return fix(vs, "v"), xs, fix(an, "a")


def norm(s):
    return re.sub(r"[^0-9a-z]+", "_", s.lower()).strip("_")


def axis_kind(base):
    for t in AXTYPES:
        if t in base.lower():
            return t
    return None


def same_name(got, base):
    """got is the NetCDF spelling of base, possibly made unique by a number."""
    g, b = norm(got), norm(base)
    return g == b or re.fullmatch(re.escape(b) + r"_\d+", g) is not None


def full_axis(d, k):
    """All values of independent variable k, implied ones included."""
    if d["NIV"] == 1:
        if d["FFI"] == 1020:
            return [x + i * d["DX"][0] for x in d["X"] for i in range(d["NVPM"])]
        return list(d["X"])
    if k == 0:
        return list(d["X"][0])
    if d["NXDEF"][k - 1] != d["NX"][k - 1]:
        return [d["X"][k][0] + i * d["DX"][k] for i in range(d["NX"][k - 1])]
    return list(d["X"][k])


def close(a, b):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def read_nc(path):
    """Variables (unmasked, unscaled), dimensions and attributes as stored."""
    import netCDF4
    out = {"vars": {}, "dims": {}, "attrs": {}}
    ds = netCDF4.Dataset(path)
    try:
        ds.set_auto_maskandscale(False)
        out["attrs"] = {k: ds.getncattr(k) for k in ds.ncattrs()}
        out["dims"] = {k: len(v) for k, v in ds.dimensions.items()}
        for name, v in ds.variables.items():
            out["vars"][name] = {"dims": v.dimensions, "data": np.array(v[...]), "attrs": {k: v.getncattr(k) for k in v.ncattrs()}}
    finally:
        ds.close()
    return out


def check_values(what, got, exp, scal, miss, fill):
    """got: stored numbers; exp: recorded numbers (flat, same order)."""
    if len(got) != len(exp):
        raise Violation("%s has %d values, %d were recorded" % (what, len(got), len(exp)))
    if fill is None:
        raise Violation("%s declares no fill value" % what)
    for i, (g, e) in enumerate(zip(got, exp)):
        if float(e) == float(miss):
            if not (g == fill or g != g):
                raise Violation("%s value %d is missing in the NASA Ames file (%r) but %r in the NetCDF file (fill %r)" % (what, i, e, g, fill))
        else:
            if not close(g, e * scal):
                raise Violation("%s value %d is %r, recorded %r times scale %r" % (what, i, g, e, scal))
            if g == fill:
                raise Violation("%s value %d (%r) is marked missing but the recorded %r is not the missing value %r" % (what, i, g, e, miss))


def collides(values, scal, miss):
    """A valid value whose scaled number equals the scaled missing value: the file cannot tell them apart."""
    m = miss * scal
    return any(float(v) != float(miss) and (v * scal == m or not np.isfinite(v * scal)) for v in values)


def check_axis(nc, dim, d, k, ctx, time_units=None, recorded=False):
    base, units = split_default(d["XNAME"][k])
    base = base.strip()
    if dim not in nc["vars"]:
        raise Violation("no coordinate variable for dimension %r" % dim)
    v = nc["vars"][dim]
    exp = list(d["X"]) if recorded else full_axis(d, k)
    got = v["data"].tolist()
    if len(got) != len(exp) or not all(close(a, b) for a, b in zip(got, exp)):
        raise Violation("axis %r holds %s, recorded %s" % (dim, fmt_short(got), fmt_short(exp)))
    kind = axis_kind(base)
    plain = dim[:-len("_recorded")] if recorded and dim.endswith("_recorded") else dim
    if not (same_name(plain, base) or (kind and same_name(plain, kind)) or
            ((not base or len(base) >= 64) and plain.lower().startswith("naindvariable_%d" % k)) or (kind == "time" and same_name(plain, "time"))):
        raise Violation("axis %d is called %r in NetCDF, %r in the NASA Ames file" % (k, dim, d["XNAME"][k]))
    got_units = v["attrs"].get("units", "")
    want = units
    if kind == "time" and not re.match(r"\w+\s+since\s+\d", units or ""):
        want = time_units or units
    if (want and got_units.strip() != want.strip()) or (not want and got_units not in ("", "Not known")):
        raise Violation("axis %d has units %r, recorded name is %r, time units %r" % (k, got_units, d["XNAME"][k], time_units))


def check_nc(nc, d, ctx, variables=None, aux=None, time_units=None, rename=None, complete=True):
    """nc (read_nc) holds exactly the selected variables of the dictionary d."""
    rename = rename or {}
    sel = list(range(d["NV"])) if variables is None else variables
    naux = d.get("NAUXV") or 0
    asel = list(range(naux)) if aux is None else aux
    if not naux:
        asel = []
    prim, auxs, coords = {}, {}, set()
    for name, v in nc["vars"].items():
        a = v["attrs"]
        if "nasa_ames_aux_var_number" in a:
            auxs.setdefault(int(a["nasa_ames_aux_var_number"]), []).append(name)
        elif "nasa_ames_var_number" in a:
            prim.setdefault(int(a["nasa_ames_var_number"]), []).append(name)
        else:
            coords.add(name)
    for what, got, want in (("primary", prim, sel), ("auxiliary", auxs, asel)):
        have = sorted(n for n, names in got.items() for _ in names)
        if have != sorted(want):
            raise Violation("%s variables %r are in the NetCDF file, asked for %r" % (what, have, sorted(want)))
    used = set()
    for n in sel:
        for name in prim[n]:
            v = nc["vars"][name]
            check_var(v, name, d, "VNAME", "VSCAL", "VMISS", n, list(spec.flatten(d["V"][n])), rename, "navariable_%d" % n)
            if len(v["dims"]) != d["NIV"]:
                raise Violation("variable %r has dimensions %r for %d independent variables" % (name, v["dims"], d["NIV"]))
            for k, dim in enumerate(v["dims"]):
                if dim not in used:
                    check_axis(nc, dim, d, k, ctx, time_units)
                    used.add(dim)
            if sel.index(n) and v["dims"] != first:
                raise Violation("variables have different dimensions %r and %r" % (first, v["dims"]))
            first = v["dims"]
    for n in asel:
        for name in auxs[n]:
            v = nc["vars"][name]
            check_var(v, name, d, "ANAME", "ASCAL", "AMISS", n, list(spec.flatten(d["A"][n])), rename, "naauxvariable_%d" % n)
            if len(v["dims"]) != 1:
                raise Violation("auxiliary variable %r has dimensions %r" % (name, v["dims"]))
            rec = d["FFI"] == 1020
            if sel and not rec and v["dims"][0] != first[0]:
                raise Violation("auxiliary variable %r is on %r, primary ones on %r" % (name, v["dims"], first))
            if v["dims"][0] not in used:
                check_axis(nc, v["dims"][0], d, 0, ctx, time_units, recorded=rec)
                used.add(v["dims"][0])
    extra = coords - used
    if complete and extra:
        raise Violation("unexpected variables %r" % sorted(extra))
    return first if sel else None


def check_var(v, name, d, kn, ks, km, n, exp, rename, default):
    base, units = split_default(d[kn][n])
    base = base.strip()
    full = norm(base)
    got = v["data"].ravel().tolist()
    check_values("%s %r" % (kn, name), got, exp, d[ks][n], d[km][n], v["attrs"].get("_FillValue"))
    new = rename.get(full)
    want = new if new is not None else base
    if not (same_name(name, want) or (new is None and (not base or len(base) >= 64) and same_name(name, default))):
        raise Violation("%s %d %r is called %r in the NetCDF file (renamings %r)" % (kn, n, d[kn][n], name, rename))
    for key in ("long_name", "title"):
        label = v["attrs"].get(key)
        if label is not None and not (same_name(label, want) or (new is None and (not base or len(base) >= 64) and same_name(label, default))):
            raise Violation("%s %d %r has the %s %r in the NetCDF file (renamings %r)" % (kn, n, d[kn][n], key, label, rename))
    gu = str(v["attrs"].get("units", ""))
    if gu.strip() != (units or "").strip():
        raise Violation("%s %d %r has units %r in the NetCDF file" % (kn, n, d[kn][n], gu))


MARKS = {"sc": ["==== Special Comments follow ====", "==== Special Comments end ===="],
         "nc": ["==== Normal Comments follow ====", "==== Normal Comments end ===="]}
ALL_MARKS = MARKS["sc"] + MARKS["nc"] + ["=== Data Section begins on the next line ===",
                                          "=== Additional Global Attributes defined in the source file ===",
                                          "=== Additional Variable Attributes defined in the source file ==="]


def check_globals(attrs, d, nlhead, user=()):
    """The documented global attributes hold the header."""
    def text(key, exp):
        if str(attrs.get(key, "<absent>")).strip() != exp.strip():
            raise Violation("global attribute %s is %s, the file records %r" % (key, fmt_short(attrs.get(key, "<absent>")), exp))

    def ints(key, exp):
        if key not in attrs or [int(x) for x in np.atleast_1d(attrs[key])] != exp or np.asarray(attrs[key]).dtype.kind != "i":
            raise Violation("global attribute %s is %r, the file records %r" % (key, attrs.get(key, "<absent>"), exp))

    text("source", d["SNAME"])
    text("title", d["MNAME"])
    ints("file_number_in_set", [d["IVOL"]])
    ints("total_files_in_set", [d["NVOL"]])
    ints("first_valid_date_of_data", list(d["DATE"]))
    ints("file_format_index", [d["FFI"]])
    if nlhead is not None:
        ints("no_of_nasa_ames_header_lines", [nlhead])
    inst = str(attrs.get("institution", ""))
    if inst.strip() != ("%s (ONAME from NASA Ames file); %s (ORG from NASA Ames file)." % (d["ONAME"], d["ORG"])).strip():
        raise Violation("institution %r does not hold ONAME %r and ORG %r" % (inst, d["ONAME"], d["ORG"]))
    hist = str(attrs.get("history", ""))
    if "%04d-%02d-%02d" % tuple(d["RDATE"]) not in hist:
        raise Violation("history %r does not hold the revision date %r" % (hist, d["RDATE"]))
    got = [x.strip() for x in str(attrs.get("comment", "")).split("\n")]
    got = [x for x in got if x and x not in ALL_MARKS]
    exp = [x.strip() for x in d["SCOM"] + d["NCOM"]]
    exp = [x for x in exp if x and x not in ALL_MARKS]
    if got != exp:
        raise Violation("comment lines %s, the file records %s" % (fmt_short(got), fmt_short(exp)))
    for key, value in user:
        g = attrs.get(key)
        if g is None or (str(g) != value if isinstance(value, str) else [float(x) for x in np.atleast_1d(g)] != [float(x) for x in np.atleast_1d(value)]):
            raise Violation("user-supplied global attribute %s = %r is %r in the file" % (key, value, g))
