"""C11: NASA Ames -> NetCDF -> NASA Ames keeps the data."""
import re

from hypothesis import strategies as st

from . import gen, ncgen, ncmodel, spec
from .core import Sub, Violation, fmt_short
from .p_c01 import n_values
from .p_c07 import split_default
from .p_c10 import na_for_nc, write_na
from .p_c13 import first_date, has_lines, packaged_attributes

FORMATS = [None, "%.17g", "%.17g", "%.12e"]
REL = {None: 2e-9, "%.17g": 1e-12, "%.12e": 1e-11}


def plain_comments(na):
    """Comment lines that are not the package's own section markers."""
    na = dict(na)
    for k, n in (("SCOM", "NSCOML"), ("NCOM", "NNCOML")):
        na[k] = [x for x in na[k] if not x.lstrip().startswith("=")]
        na[n] = len(na[k])
    return na


def s_trip(ffis):
    return lambda: st.fixed_dictionaries({
        "na": na_for_nc(ffis, names=ncmodel.distinct_names).map(plain_comments),
        "layout": st.lists(st.integers(0, 119), min_size=1, max_size=8),
        "fmt": st.sampled_from(FORMATS),
        "twice": st.sampled_from([False, False, False, True]),
        "csv": st.sampled_from([False, False, False, False, True]),
    })


def sets(na):
    out = [(na["V"][n], na["VSCAL"][n], na["VMISS"][n]) for n in range(na["NV"])]
    return out + [(na["A"][n], na["ASCAL"][n], na["AMISS"][n]) for n in range(na.get("NAUXV") or 0)]


def clash(na, rel):
    for v, s, m in sets(na):
        if ncmodel.collides(spec.flatten(v), s, m):
            return True
        if any(float(x) != float(m) and ncgen.comparable(x * s, m * s, max(rel, 1e-6)) for x in spec.flatten(v)):
            return True
    return False


def check(case, ctx):
    na = case["na"]
    rel = REL[case["fmt"]]
    ctx.note(n_values(na) >= 2, "FFI%d" % na["FFI"], "missing" if any(any(float(x) == float(m) for x in spec.flatten(v)) for v, s, m in sets(na)) else "",
             "scaled" if any(float(s) != 1 for v, s, m in sets(na)) else "", "auxiliary" if na.get("NAUXV") else "")
    if clash(na, rel):
        ctx.note(False, "value like the missing value")
        return
    path = ctx.path("in.na")
    write_na(na, case["layout"], path)
    parsed = trip(na, path, ctx, case, rel, "", True)
    if case["twice"] and len(parsed) == 1 and not clash(parsed[0], rel):
        ctx.note(None, "twice")
        p = parsed[0]
        trip(p, ctx.path("out.na"), ctx, dict(case, csv=False), rel, "2", False)


def trip(na, path, ctx, case, rel, tag, header):
    import nappy
    nc = ctx.path("mid%s.nc" % tag)
    with ctx.sut("converting FFI %d to NetCDF" % na["FFI"]):
        nappy.convertNAToNC(path, nc, time_warning=False)
    args = {"float_format": case["fmt"]} if case["fmt"] else {}
    csv = case["csv"]
    with ctx.sut("converting the NetCDF file back"):
        files = (nappy.convertNCToCSV if csv else nappy.convertNCToNA)(nc, ctx.path("out%s.%s" % (tag, "csv" if csv and not case["twice"] else "na")), **args)
    outs, parsed = ncgen.collect(list(files or []), "," if csv else None)
    ctx.note(None, *["back as FFI%d" % p["FFI"] for p in parsed])
    left = list(outs)
    order = []
    for kind, n in [("V", n) for n in range(na["NV"])] + [("A", n) for n in range(na.get("NAUXV") or 0)]:
        why = []
        for o in left:
            r = differs(na, kind, n, o, rel)
            if r is None:
                left.remove(o)
                order.append((kind, n, o))
                break
            why.append((0 if names_agree(na, kind, n, o.name) else 1, r))
        else:
            why.sort(key=lambda t: t[0])
            raise Violation("%s variable %d %r did not come back: %s" % ("primary" if kind == "V" else "auxiliary", n, na[kind + "NAME"][n], why[0][1] if why else "nothing left"))
    if left:
        raise Violation("%r came back, which the file did not hold" % [o.name for o in left])
    # original order
    if csv and case["twice"]:
        parsed = []
    for kind in "VA":
        seen = [(o.file, o.kind, o.n) for k, n, o in order if k == kind]
        for a, b in zip(seen, seen[1:]):
            if a[0] == b[0] and a[1] == b[1] and a[2] > b[2]:
                raise Violation("the %s variables came back in another order: %r" % ("primary" if kind == "V" else "auxiliary", [s[2] for s in seen]))
    firstv = [o.n for k, n, o in order if k == "V" and o.kind == "V"]
    for k, n, o in order:
        if k == "A" and o.kind == "V" and any(o.file == q.file and o.n < q.n for kk, nn, q in order if kk == "V"):
            raise Violation("auxiliary variable %r came back before the primary variables" % o.name)
    for p in parsed:
        check_header(na, p, header)
    return parsed


def names_agree(na, kind, n, got):
    base, units = split_default(na[kind + "NAME"][n])
    base = base.strip()
    gb, gu = split_default(got)
    if (units or "").strip() != (gu or "").strip():
        return False
    if not base or len(base) >= 64:
        return ncmodel.same_name(gb, ("naVariable_%d" if kind == "V" else "naAuxVariable_%d") % n) or ncmodel.same_name(gb, base)
    return ncmodel.same_name(gb, base)


def differs(na, kind, n, o, rel):
    if not names_agree(na, kind, n, o.name):
        return "name %r" % o.name
    scal, miss = na[kind + "SCAL"][n], na[kind + "MISS"][n]
    exp = list(spec.flatten(na[kind][n]))
    if len(exp) != len(o.values):
        return "%d values instead of %d" % (len(o.values), len(exp))
    for i, (e, g) in enumerate(zip(exp, o.values)):
        if float(e) == float(miss):
            if g != o.miss:
                return "value %d was missing (%r), now %r (missing value %r)" % (i, e, g, o.miss)
        elif g == o.miss:
            return "value %d (%r) is missing now" % (i, e)
        elif not ncgen.comparable(e * scal, g * o.scal, rel):
            return "value %d is %r, was %r times %r" % (i, g * o.scal, e, scal)
    if kind == "A":
        want = [list(na["X"]) if na["NIV"] == 1 else list(na["X"][0])]
        if na["FFI"] != 1020 and na["NIV"] == 1:
            want = [ncmodel.full_axis(na, 0)]
    else:
        want = [ncmodel.full_axis(na, k) for k in range(na["NIV"])]
    axes = o.axes()
    if len(axes) != len(want):
        return "%d axes instead of %d" % (len(axes), len(want))
    for k, ((name, vals), w) in enumerate(zip(axes, want)):
        if vals and isinstance(vals[0], tuple):
            return "an axis that depends on another"
        if len(vals) != len(w) or not all(ncgen.comparable(a, b, max(rel, 1e-9), 1e-6) for a, b in zip(vals, w)):
            return "axis %d is %s instead of %s" % (k, fmt_short(vals, 120), fmt_short(w, 120))
        base, units = split_default(na["XNAME"][k])
        base = base.strip()
        gb, gu = split_default(name)
        kind_ = ncmodel.axis_kind(base)
        gb = re.sub(r"_recorded$", "", gb.strip())
        if not (ncmodel.same_name(gb, base) or (kind_ and ncmodel.same_name(gb, kind_)) or not base or len(base) >= 64):
            return "axis %d is called %r instead of %r" % (k, name, na["XNAME"][k])
        if (units or "Not known").strip() != (gu or "Not known").strip():
            return "axis %d has units %r instead of %r" % (k, gu, units)
    return None


def check_header(na, p, header):
    def text(k):
        if gen.clean_quoted(" ".join(p[k].split())) != gen.clean_quoted(" ".join(na[k].split())):
            raise Violation("%s came back as %r, was %r" % (k, p[k], na[k]))
    packaged = packaged_attributes()
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        if k not in packaged:
            text(k)
    base, units = split_default(na["XNAME"][0])
    if "time" in base.lower() and "since" in (units or ""):
        want = first_date(re.sub(r"since (\d+)-(\d+)-(\d+)", r"since \1-\2-\3", units), "standard", ncmodel.full_axis(na, 0)[0])
        what = "the first time"
    else:
        want, what = na["DATE"], "the original"
    if list(p["DATE"]) != list(want):
        raise Violation("DATE came back as %r, %s is %r" % (p["DATE"], what, want))
    if not header:
        return
    for k in ("SCOM", "NCOM"):
        lines = [x.strip() for x in na[k] if x.strip()]
        got = [x.strip() for x in p[k]]
        if has_lines(got, lines) is None:
            raise Violation("%s lines %s came back as %s" % (k, fmt_short(lines), fmt_short(got)))
    r = "%04d-%02d-%02d" % tuple(na["RDATE"])
    if not any(r in x for x in p["NCOM"] + p["SCOM"]):
        raise Violation("the revision date %s is nowhere in the comments" % r)


SUBS = [
    Sub("one_d", s_trip([1001, 1010, 1020]), check, 700, 20000, "files of one independent variable; non-trivial = two or more values, none like the missing value"),
    Sub("n_d", s_trip([2010, 3010, 4010]), check, 700, 20000, "files of 2 to 4 independent variables; non-trivial = as above"),
]
ASSUMPTIONS = ["Variable names stay distinct in lower case without special characters; comment lines are not the package's own markers.",
               "ORG comes from the packaged local attributes.",
               "Values that scaling or the float format makes equal to the missing value are left out."]
