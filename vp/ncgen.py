"""Generator of NetCDF datasets (JSON-able descriptions), a writer for them, and the reference model of what
NASA Ames files made from them have to hold."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ncmodel, spec
from .core import Violation, fmt_short

DIMS = [("time", "time"), ("t", "time"), ("lat", "latitude"), ("lon", "longitude"), ("lev", "level"), ("x", None), ("station", None), ("gate", None)]
LONG = ["Air temperature", "Ozone mixing ratio", "wind speed", "Temperature (K)", "Name: with colon", "NO2, column", "a  b", "Potential temperature of the air",
        "x", "42", "Flux (upward)", "%s format", "q {note}", "Energy [J]"]
UNITS = ["K", "ppmv", "m s-1", "%", "hPa", "1", "W m-2", "degrees_north", "kg/m**3", "days", "s"]
TIMEUNITS = [("days since 2000-01-01 00:00:00", "standard"), ("hours since 1999-02-27 12:00:00", "gregorian"), ("seconds since 1970-01-01", None),
             ("days since 1950-01-01", "noleap"), ("days since 2000-02-28", "360_day"), ("hours since 1985-12-31 00:00:00", "proleptic_gregorian"),
             ("minutes since 2004-02-28 23:00:00", "365_day"), ("days since 1999-12-31", "366_day"), ("days since 1582-10-01", "standard"),
             ("days since 1900-02-28", "julian")]
ATTRS = [("comment", "measured twice"), ("cell_methods", "time: mean"), ("valid_min", -5.5), ("valid_max", 100), ("source", "model run"), ("flag", "a\nb\nc"),
         ("note", "ends with blank "), ("number", 3), ("empty", ""),
         ("description", "Measured on board of the aircraft by an instrument with a rather long description; " * 3 + "see there"),
         ("steps", "\n".join("step %d" % i for i in range(14))),
         ("levels", [1.5, 2.5]), ("valid_range", [0, 100])]
GKEYS = ["title", "source", "institution", "history", "comment", "references", "Conventions", "project", "version", "contact", "my number", "license"]


def text_attr():
    return st.one_of(st.sampled_from(["A title", "first line\nsecond line", "a: b; c", "x", "Tab\there", "line\r\nother", "é", "1.5", "100%", "{braces}",
                                      "\n".join("2001-02-%02d step %d of the processing" % (i + 1, i) for i in range(15)),
                                  "History of the data. " * 12 + "end", "w" * 140, "a\n" * 24 + "z", "  indented", "para\n\npara 2", "ends\n", "page one\x0cpage two",
                                      "line\u2028sep\x85and\x1fmore"]),
                     st.text(alphabet=gen.TEXT_ALPHABET, min_size=1, max_size=40).map(lambda s: s.strip() or "x"))


def key(s):
    """The spelling variables are told apart by when they are selected."""
    return s.lower().replace(" ", "_")


@st.composite
def coord(draw, name, kind, n):
    c = {"name": name, "n": n, "kind": kind, "attrs": {}, "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i4"]))}
    if kind == "time":
        how = draw(st.sampled_from(["since", "since", "since", "plain", "none"]))
        style = draw(st.sampled_from(["uniform", "irregular", "quarter"]))
        start = draw(st.integers(0, 4000))
        steps = draw(st.lists(st.integers(1, 40), min_size=n, max_size=n))
        if style != "irregular":
            steps = [steps[0]] * n
        vals = [float(start + sum(steps[:i])) for i in range(n)]
        if style == "quarter":
            vals = [v / 4 for v in vals]
        c["values"], c["dtype"] = vals, draw(st.sampled_from(["f8", "f8", "i4"])) if style != "quarter" else "f8"
        if how == "since":
            u, cal = draw(st.sampled_from(TIMEUNITS))
            c["attrs"]["units"] = u
            if cal:
                c["attrs"]["calendar"] = cal
        elif how == "plain":
            c["attrs"]["units"] = draw(st.sampled_from(["days", "hour", "s"]))
        if draw(st.booleans()):
            c["attrs"]["standard_name"] = "time"
        if draw(st.integers(0, 2)) == 0:
            c["attrs"]["axis"] = "T"
        if draw(st.integers(0, 2)) == 0:
            c["attrs"]["long_name"] = draw(st.sampled_from(["time", "Time of observation", "time (hours)"]))
        return c
    vals, dx = draw(gen.axis(n))
    if c["dtype"] == "i4":
        vals = [float(int(v)) for v in vals]
        if len(set(vals)) < n:
            vals = [float(i * 3) for i in range(n)]
    if c["dtype"] == "f4":
        vals = [float(np.float32(v)) for v in vals]
        if len(set(vals)) < n:
            c["dtype"] = "f8"
            vals = [float(i) for i in range(n)]
    c["values"] = vals
    if kind and draw(st.booleans()):
        c["attrs"].update({"latitude": {"standard_name": "latitude", "units": "degrees_north"}, "longitude": {"standard_name": "longitude", "units": "degrees_east"},
                           "level": {"units": "hPa", "positive": "down", "axis": "Z"}}[kind])
    elif draw(st.booleans()):
        c["attrs"]["units"] = draw(st.sampled_from(UNITS[:7]))
    if draw(st.integers(0, 2)) == 0:
        c["attrs"]["long_name"] = draw(st.sampled_from(["Range gate", "Height above ground", "axis (m)", name.upper()]))
    return c


FILLS = {"f8": [None, None, -9999.999, 1e20, 9.969209968386869e+36, "nan", -999.9, 99999.0, 0.1, 0.0, -1.0],
         "f4": [None, -9999.999, 9.969209968386869e+36, 1e20, "nan", -999.9, 0.0],
         "i4": [None, None, -9999, 2147483647, 0], "i2": [None, -32767, -999, -1], "i1": [None, -127], "i8": [None, -9223372036854775806, -9999],
         "u1": [None, 255, 0], "u2": [None, 65535], "u4": [None, 4294967295, 0]}


@st.composite
def variable(draw, name, dims, coords, uniq, wild=False):
    n = gen.prod([coords[d]["n"] for d in dims])
    dtype = draw(st.sampled_from(["f8", "f8", "f8", "f4", "f4", "i4", "i2", "i1", "i8"] + (["u1", "u2", "u4"] if wild else [])))
    fill = draw(st.sampled_from(FILLS[dtype]))
    v = {"name": name, "dims": dims, "dtype": dtype, "fill": fill, "attrs": {}}
    if dtype in ("f8", "f4"):
        num = gen.number("decimal") if draw(st.integers(0, 3)) else gen.number("mixed").filter(lambda x: abs(x) < 1e30)
    elif dtype == "i8":
        num = st.integers(-2**53, 2**53)
    elif dtype[0] == "u":
        num = st.integers(0, {"u1": 255, "u2": 65535, "u4": 4294967295}[dtype])
    else:
        lim = {"i4": 10**6, "i2": 30000, "i1": 120}[dtype]
        num = st.integers(-lim, lim)
    data = draw(st.lists(num, min_size=n, max_size=n))
    can_miss = fill is not None or dtype in ("f8", "f4")
    if can_miss and n:
        miss = draw(st.lists(st.integers(0, n - 1), max_size=3))
        if draw(st.integers(0, 2)) == 0:
            for i in miss:
                data[i] = None
    v["data"] = data
    v["fill_attr"] = draw(st.sampled_from(["_FillValue", "_FillValue", "missing_value", "both"]))
    if wild and dtype == "f8" and fill not in (None, "nan") and draw(st.integers(0, 2)) == 0:
        v["alt"], v["fill_attr"] = -77.5, "_FillValue"        # a second value that stands for missing ones
        if n and draw(st.booleans()):
            data[draw(st.integers(0, n - 1))] = -77.5
    if dtype == "i2" and draw(st.integers(0, 2)) == 0:
        v["packed"] = {"scale_factor": draw(st.sampled_from([0.01, 0.5, 2.0, 1e-3])), "add_offset": draw(st.sampled_from([0.0, 273.15, -10.0]))}
    if draw(st.integers(0, 3)):
        v["attrs"]["long_name"] = draw(st.sampled_from(LONG)) + (" " + uniq if draw(st.integers(0, 3)) else "")
    if draw(st.integers(0, 4)) == 0:
        v["attrs"]["standard_name"] = draw(st.sampled_from(["air_temperature", "wind_speed"])) + uniq
    if draw(st.integers(0, 6)) == 0:
        v["attrs"]["title"] = "Title " + uniq
    if draw(st.integers(0, 9)) == 0:
        v["attrs"]["long_name"] = ""
    if draw(st.integers(0, 4)):
        v["attrs"]["units"] = draw(st.sampled_from(UNITS))
    for k, val in draw(st.lists(st.sampled_from(ATTRS), max_size=2, unique_by=lambda t: t[0])):
        v["attrs"][k] = val
    if draw(st.integers(0, 4)) == 0:
        v["attrs"][draw(st.sampled_from(["id", "id", "short_name", "var_id"]))] = "T0" + uniq
    if draw(st.integers(0, 5)) == 0:
        v["attrs"][draw(st.sampled_from(["nasa_ames_var_number", "nasa_ames_var_number", "nasa_ames_aux_var_number"]))] = draw(st.integers(0, 3))
    if dtype == "f8" and draw(st.integers(0, 11)) == 0:
        v["attrs"]["units"] = draw(st.sampled_from(TIMEUNITS[:3]))[0]
        v["data"] = [float(i) for i in draw(st.lists(st.integers(0, 9000), min_size=n, max_size=n))]
        v["fill"] = draw(st.sampled_from([None, -9999.999, "nan"]))
        if draw(st.booleans()):
            v["attrs"]["calendar"] = draw(st.sampled_from(["standard", "noleap", "360_day"]))
        if v["fill"] and n and draw(st.booleans()):
            v["data"][draw(st.integers(0, n - 1))] = None
    return v


VNAMES = ["temp", "ozone", "Wind Speed", "q", "T2M", "pressure_x", "NO2", "var-1", "b.c", "flux", "count", "humidity", "speed", "z0", "z_1", "temp2", "speed_1", "q2"]


@st.composite
def dataset(draw, max_vars=5, max_rank=3, min_rank=1, gattrs=True, one_d=False, scalars=True, extra_dims=True, max_len=5, strings=False, wild=False):
    ndim = draw(st.integers(min_rank, max_rank))
    if one_d:
        ndim = 1
    names = draw(st.lists(st.sampled_from(DIMS), min_size=ndim, max_size=ndim, unique_by=lambda t: t[1] or t[0]))
    big = draw(st.integers(0, 14)) == 0
    coords = {}
    order = []
    for i, (name, kind) in enumerate(names):
        n = draw(st.integers(1, max_len))
        if big and i == 0:
            n = draw(st.integers(10, 25))
        coords[name] = draw(coord(name, kind, n))
        order.append(name)
    main = list(order)
    if wild:
        for name in main:
            k = draw(st.integers(0, 9))
            if k == 0:                                        # a dimension without coordinate variable
                coords[name].update(values=[float(i) for i in range(coords[name]["n"])], attrs={}, dtype="i8", bare=True)
            elif k == 1 and not coords[name]["kind"]:         # a packed coordinate
                a, b = draw(st.sampled_from([(0.5, 10.0), (0.25, 0.0), (2.0, -100.0)]))
                coords[name].update(values=[(3 * i + i % 2) * a + b for i in range(coords[name]["n"])], dtype="i2", packed=[a, b])
    extra = []
    if extra_dims and draw(st.integers(0, 3)) == 0:           # a second axis of the same length as the first
        c = draw(coord("second", None, coords[main[0]]["n"]))
        coords["second"] = c
        extra.append("second")
    if extra_dims and not ("bare" in coords[main[0]] or "packed" in coords[main[0]]) and draw(st.integers(0, 2)) == 0:           # every n-th value of the first axis
        c0 = coords[main[0]]
        n = draw(st.integers(2, 3))
        if c0["n"] % n:
            c0 = coords[main[0]] = draw(coord(main[0], c0["kind"], n * draw(st.integers(1, 4))))
        if draw(st.integers(0, 2)) and not c0["attrs"].get("units", "").count("since"):
            k = 3.0
            c0["values"] = [c0["values"][0] + i * k for i in range(c0["n"])]
            c0["dtype"] = "f8"
        sub = {"name": main[0] + "_sub", "n": c0["n"] // n, "kind": c0["kind"], "attrs": {k: v for k, v in c0["attrs"].items() if k not in ("long_name",)},
               "dtype": c0["dtype"], "values": c0["values"][::n]}
        if draw(st.integers(0, 3)) == 0 and sub["n"] > 1:
            sub["values"] = sub["values"][:-1] + [sub["values"][-1] + 1.0]
        coords[sub["name"]] = sub
        extra.append(sub["name"])
    nv = draw(st.integers(1, max_vars))
    vnames = draw(st.lists(st.sampled_from(VNAMES), min_size=nv, max_size=nv, unique=True))
    vs = []
    for i, name in enumerate(vnames):
        k = draw(st.integers(0, 9))
        if k < 5 or i == 0:
            dims = list(main)
        elif k < 7:
            dims = [main[0]]
        elif k == 7 and extra:
            dims = [draw(st.sampled_from(extra))]
        elif k == 8 and len(main) > 1:
            dims = draw(st.permutations(main))[:draw(st.integers(1, len(main)))]
        else:
            dims = [draw(st.sampled_from(sorted(coords)))]
        vs.append(draw(variable(name, list(dims), coords, "v%d" % i, wild)))
    d = {"coords": coords, "vars": vs, "scalars": [], "bounds": [], "gattrs": []}
    if wild and draw(st.integers(0, 4)) == 0:                 # texts, as strings or arrays of characters
        d["texts"] = [{"name": "caption", "dim": draw(st.sampled_from(main)), "how": draw(st.sampled_from(["str", "char"])),
                       "first": draw(st.booleans()), "value": draw(st.sampled_from(["Oslo", "a b", "x1"]))}]
    if scalars and draw(st.integers(0, 2)) == 0:
        snames = draw(st.sampled_from([("scalar0", "scalar1"), ("scalar0", "scalar1"), ("q0", "speed_of_ship"), ("temperature", "a_ozone"),
                                       ("humidity_2m", "timex"), ("fluxes", "counter"), ("z", "speed_"), ("te", "wind"), ("t_", "ozon")]))
        for i in range(draw(st.integers(1, 2))):
            kind = draw(st.sampled_from(["f8", "i4", "f4", "time"] + (["str"] if strings else [])))
            val = draw(st.integers(-500, 500)) if kind == "i4" else draw(st.integers(-4000, 4000)) / 8.0
            a = {}
            if draw(st.booleans()):
                a["long_name"] = "Scalar number %d" % i
            if kind == "time":
                a["units"], val = "hours since 2000-01-01 00:00:00", abs(val)
            elif draw(st.booleans()):
                a["units"] = "m"
            if draw(st.integers(0, 2)) == 0:
                a.update(draw(st.sampled_from([{"standard_name": "time"}, {"axis": "T"}, {"axis": "Z", "positive": "up"}, {"standard_name": "latitude"},
                                               {"standard_name": "height"}])))
            d["scalars"].append({"name": snames[i], "dtype": "f8" if kind == "time" else kind, "value": val, "attrs": a})
    for name in main:
        if "bare" not in coords[name] and draw(st.integers(0, 5)) == 0:
            d["bounds"].append(name)
    if draw(st.integers(0, 6)) == 0:                          # bounds of a variable that is no dimension coordinate
        v = draw(st.sampled_from(vs))
        v["attrs"]["bounds"] = v["name"] + draw(st.sampled_from(["_bnds", "_bounds", "_edges"]))
    if draw(st.integers(0, 4)) == 0 and len(vs) > 1:
        d["coordinates"] = vs[-1]["name"] if set(vs[-1]["dims"]) <= set(vs[0]["dims"]) else None
    if d["scalars"] and draw(st.booleans()):
        d["coordinates"] = " ".join(([d["coordinates"]] if d.get("coordinates") else []) + [x["name"] for x in d["scalars"]])
    if gattrs:
        d["gattrs"] = draw(st.lists(st.tuples(st.sampled_from(GKEYS), st.one_of(text_attr(), text_attr(), st.integers(-1000, 1000), st.floats(-100, 100).map(lambda f: round(f, 3)))),
                                    max_size=5, unique_by=lambda t: t[0]))
        d["gattrs"] = [[k, v if k not in ("title", "source", "institution", "history", "comment", "references", "Conventions") or isinstance(v, str) else str(v)] for k, v in d["gattrs"]]
    d["order"] = draw(st.sampled_from(["coords first", "vars first"]))
    return d


def np_attr(v):
    return np.int32(v) if isinstance(v, int) and not isinstance(v, bool) else v


def write(d, path):
    """Writes the described dataset with netCDF4, independently of the code under test."""
    import netCDF4
    ds = netCDF4.Dataset(path, "w")
    try:
        for name, c in d["coords"].items():
            ds.createDimension(name, c["n"])
        if d["bounds"] or any("bounds" in s["attrs"] for s in d["vars"]):
            ds.createDimension("nbnds", 2)

        def mk_coords():
            for name, c in d["coords"].items():
                if c.get("bare"):
                    continue
                v = ds.createVariable(name, c["dtype"], (name,))
                if c.get("packed"):
                    v.set_auto_maskandscale(False)
                    v.scale_factor, v.add_offset = c["packed"]
                    v[:] = np.array([round((x - c["packed"][1]) / c["packed"][0]) for x in c["values"]])
                else:
                    v[:] = np.array(c["values"])
                for k, val in c["attrs"].items():
                    v.setncattr(k, np_attr(val))
                if name in d["bounds"]:
                    v.bounds = name + "_bnds"
                    b = ds.createVariable(name + "_bnds", "f8", (name, "nbnds"))
                    vals = np.array(c["values"], dtype="f8")
                    b[:] = np.stack([vals, vals + 1], axis=1)

        def mk_vars():
            for i, s in enumerate(d["vars"]):
                f = fill_number(s)
                both = s["fill_attr"]
                v = ds.createVariable(s["name"], s["dtype"], tuple(s["dims"]), fill_value=False if f is None or both == "missing_value" else f)
                v.set_auto_maskandscale(False)
                if f is not None and both != "_FillValue":
                    v.missing_value = f
                if s.get("alt") is not None:
                    v.missing_value = s["alt"]
                for k, val in (s.get("packed") or {}).items():
                    v.setncattr(k, val)
                for k, val in s["attrs"].items():
                    v.setncattr(k, np_attr(val))
                if d.get("coordinates") and i == 0:
                    v.coordinates = d["coordinates"]
                hole = f if f is not None else np.nan
                arr = np.array([hole if x is None else x for x in s["data"]], dtype=s["dtype"])
                shape = [d["coords"][k]["n"] for k in s["dims"]]
                v[...] = arr.reshape(shape)
                if "bounds" in s["attrs"]:
                    b = ds.createVariable(s["attrs"]["bounds"], "f8", tuple(s["dims"]) + ("nbnds",))
                    b[...] = np.arange(arr.size * 2).reshape(shape + [2]) + 0.25
            for s in d["scalars"]:
                if s["dtype"] == "str":
                    v = ds.createVariable(s["name"], str, ())
                    v[...] = np.array(str(s["value"]), dtype=object)
                else:
                    v = ds.createVariable(s["name"], s["dtype"], ())
                    v[...] = s["value"]
                for k, val in s["attrs"].items():
                    v.setncattr(k, val)
        def mk_texts(first):
            for t in d.get("texts", []):
                if t["first"] == first:
                    n = d["coords"][t["dim"]]["n"]
                    texts = [t["value"] + str(i) for i in range(n)]
                    if t["how"] == "str":
                        v = ds.createVariable(t["name"], str, (t["dim"],))
                        v[:] = np.array(texts, dtype=object)
                    else:
                        ds.createDimension("strlen", 8)
                        v = ds.createVariable(t["name"], "S1", (t["dim"], "strlen"))
                        v[:] = netCDF4.stringtochar(np.array(texts, dtype="S8"))
                    v.long_name = "Caption of the values"

        mk_texts(True)
        if d["order"] == "coords first":
            mk_coords()
            mk_vars()
        else:
            mk_vars()
            mk_coords()
        mk_texts(False)
        for k, val in d["gattrs"]:
            ds.setncattr(k, np_attr(val))
    finally:
        ds.close()


def fill_number(s):
    if s["fill"] is None:
        return None
    if s["fill"] == "nan":
        return np.dtype(s["dtype"]).type(np.nan)
    return np.dtype(s["dtype"]).type(s["fill"])


def values(s):
    """The numbers a variable holds (float), None where missing."""
    out = []
    f = fill_number(s)
    for x in s["data"]:
        if x is None:
            out.append(None)
            continue
        y = np.dtype(s["dtype"]).type(x)
        if (f is not None and y == f) or (s.get("alt") is not None and y == s["alt"]):
            out.append(None)
            continue
        p = s.get("packed")
        out.append(float(y) * p["scale_factor"] + p["add_offset"] if p else float(y))
    return out


def best_name(name, attrs):
    base = ""
    for k in ("long_name", "standard_name", "title"):
        if attrs.get(k):
            base = attrs[k]
            break
    return header_name(base or name, attrs.get("units", "").strip())


def header_name(base, units):
    """Comparable form of the header name of something called base with these units."""
    if units:
        base = base.replace("(%s)" % units, "") + "(%s)" % units
    return "".join(base.split())


def squeeze(s):
    return "".join(s.split())


def comparable(a, b, rel, ab=0.0):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + ab


class Out:
    """One primary or auxiliary variable found in an output file."""

    def __init__(self, f, kind, n, d):
        self.file, self.kind, self.n, self.d = f, kind, n, d
        k = "V" if kind == "V" else "A"
        self.name = d[k + "NAME"][n]
        self.miss = d[k + "MISS"][n]
        self.scal = d[k + "SCAL"][n]
        self.values = list(spec.flatten(d[k][n]))

    def axes(self):
        """[(name, values)] of its dimensions."""
        d = self.d
        if self.kind == "A":
            x0 = d["X"] if d["NIV"] == 1 else (d["X"][0] if d["FFI"] in (2010, 3010, 4010) else [x[0] for x in d["X"]])
            return [(d["XNAME"][0], list(x0))]
        if d["FFI"] in (2110, 2310):
            ind = [tuple(x[1]) if d["FFI"] == 2110 else tuple(x[1][0] + i * d["A"][2][m] for i in range(d["NX"][m])) for m, x in enumerate(d["X"])]
            return [(d["XNAME"][0], [x[0] for x in d["X"]]), (d["XNAME"][1], ind)]
        return [(d["XNAME"][k], ncmodel.full_axis(d, k)) for k in range(d["NIV"])]


def collect(files, delimiter=None):
    outs, parsed = [], []
    for f in files:
        with open(f, newline="") as fh:
            text = fh.read()
        try:
            d = spec.parse(text, delimiter)
        except spec.SpecError as e:
            raise Violation("output file %s is not a legal NASA Ames file: %s" % (f.split("/")[-1], e))
        parsed.append(d)
        outs += [Out(f, "V", n, d) for n in range(d["NV"])]
        skip = {2110: 1, 2310: 3}.get(d["FFI"], 0)
        outs += [Out(f, "A", n, d) for n in range(skip, d.get("NAUXV") or 0)]
    return outs, parsed


TOL = {"%.10g": (2e-9, 0.0), "%.17g": (1e-11, 0.0), "%.6f": (1e-11, 3e-6), "%s": (1e-11, 0.0), "%.12e": (1e-11, 0.0)}


def match(s, o, coords, fmt):
    """None if the output variable o holds the dataset's variable s, else what differs."""
    rel, ab = TOL[fmt]
    if squeeze(o.name) != best_name(s["name"], s["attrs"]):
        return "name %r" % o.name
    exp = values(s)
    if len(exp) != len(o.values):
        return "%d values instead of %d" % (len(o.values), len(exp))
    packed = 1e-5 if s.get("packed") else 0
    f = fill_number(s)
    if f is not None and f == f and not s.get("packed") and not comparable(float(f), o.miss, max(rel, 1e-6), ab):
        return "declared missing value %r, the fill value is %r" % (o.miss, f)
    for i, (e, g) in enumerate(zip(exp, o.values)):
        if e is None:
            if g != o.miss:
                return "value %d is missing but %r (missing value %r) is written" % (i, g, o.miss)
        else:
            if not comparable(e, g * o.scal, max(rel, packed), ab + packed):
                return "value %d is %r instead of %r" % (i, g, e)
            if g == o.miss and not clashes(e, o.miss, rel, ab):
                return "value %d (%r) is written as missing" % (i, e)
    axes = o.axes()
    if len(axes) != len(s["dims"]):
        return "%d axes instead of %d" % (len(axes), len(s["dims"]))
    for dim, (name, vals) in zip(s["dims"], axes):
        c = coords[dim]
        want = c["values"]
        if vals and isinstance(vals[0], tuple):
            if any(list(t) != list(vals[0]) for t in vals):
                return "values of axis %s differ from mark to mark" % dim
            vals = list(vals[0])
        single = 1e-6 if c["dtype"] == "f4" else 1e-9
        if len(vals) != len(want) or not all(comparable(a, b, max(rel, single), ab + single) for a, b in zip(want, vals)):
            return "axis %s is %s instead of %s" % (dim, fmt_short(vals, 120), fmt_short(want, 120))
        if o.kind == "A" and o.d["FFI"] == 1020:
            # recorded values of the axis of the primary variables: units have to agree
            u = c["attrs"].get("units", "")
            if u and "(%s)" % u not in name:
                return "axis %s with units %s is recorded as %r" % (dim, u, name)
        elif squeeze(name) != best_name(dim, c["attrs"]):
            return "axis %s is called %r" % (dim, name)
    return None


def check_intervals(parsed, fmt):
    """The declared interval of an axis is that of its values, or zero where it is not constant."""
    rel, ab = TOL[fmt]
    for d in parsed:
        if d["FFI"] not in (1001, 1010, 1020, 2010, 3010, 4010):
            continue
        for k in range(d["NIV"]):
            vals = ncmodel.full_axis(d, k)
            dx = d["DX"][k]
            tol = max(rel, 1e-6) * max(map(abs, vals)) + 2 * ab
            steps = [b - a for a, b in zip(vals, vals[1:])]
            if dx and not all(abs(x - dx) <= tol for x in steps):
                raise Violation("the interval of axis %r is declared as %r, its values are %s" % (d["XNAME"][k], dx, fmt_short(vals, 120)))
            if not dx and len(vals) > 2 and all(float(v).is_integer() for v in vals) and len(set(steps)) == 1 and fmt == "%.17g":
                raise Violation("no interval is declared for axis %r with the values %s" % (d["XNAME"][k], fmt_short(vals, 120)))


def clashes(value, miss, rel, ab):
    return comparable(value, miss, max(rel, 1e-6), ab)


def has_clash(s, fmt):
    """A valid value that the float format cannot tell from the missing value."""
    rel, ab = TOL[fmt]
    f = fill_number(s)
    m = float(f) if f is not None and f == f else -1e20
    return any(v is not None and clashes(v, m, rel, ab) for v in values(s))


def check_conservation(selected, outs, coords, fmt):
    """Every selected variable is in exactly one place of the outputs, and nothing else is."""
    left = list(outs)
    for s in selected:
        why = []
        for o in left:
            r = match(s, o, coords, fmt)
            if r is None:
                left.remove(o)
                break
            why.append((0 if squeeze(o.name) == best_name(s["name"], s["attrs"]) else 1, r))
        else:
            why.sort(key=lambda t: t[0])
            raise Violation("variable %r %r is not in the output: %s" % (s["name"], s["attrs"].get("long_name"), why[0][1] if why else "no variable left to match"))
    if left:
        raise Violation("the output holds %r, which is not (or not again) in the input selection" % [o.name for o in left])


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


def check_scalars(d, selected, parsed):
    lines = [x.strip() for p in parsed for x in p["SCOM"]]
    for s in selected:
        for i, line in enumerate(lines):
            if line.startswith("Variable ") and squeeze(line).endswith(best_name(s["name"], {k: v for k, v in s["attrs"].items() if k != "units" or "since" not in v})):
                block = []
                for x in lines[i + 1:]:
                    if x.startswith("Variable ") or x.startswith("=="):
                        break
                    block.append(x)
                val = [x.split("=", 1)[1].strip() for x in block if x.startswith("value =")]
                if "since" in s["attrs"].get("units", ""):
                    if val and val[0]:
                        break
                elif s["dtype"] == "str":
                    if val == [str(s["value"])]:
                        break
                elif val and number(val[0]) == float(np.dtype(s["dtype"]).type(s["value"])):
                    break
        else:
            raise Violation("scalar variable %r (value %r) is not reported in the special comments %s" % (s["name"], s["value"], fmt_short(lines)))
