"""C05: presentation options change presentation only."""
import copy
import os
import re

from hypothesis import strategies as st

from . import gen, ncgen, outputs, spec
from .core import REPO, Sub, Violation, fmt_short
from .p_c01 import FORMATS, n_values
from .p_c03 import emit

DELIMS = ["    ", " ", "\t", ",", ", ", " , "]


def labels():
    """The packaged labels, read without the package's own configuration reader."""
    out, sect = {}, None
    with open(os.path.join(REPO, "nappy", "config", "annotations.ini")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("["):
                sect = line
            elif sect == "[annotations]" and "=" in line:
                k, v = line.split("=", 1)
                out[k.strip()] = v.strip()
    return out


def header_items(d):
    """The item recorded on each header line of a file as the package lays it out (one record per line)."""
    ffi, niv = d["FFI"], d["NIV"]
    it = [("NLHEAD_FFI", 0)] + [(k, 0) for k in ("ONAME", "ORG", "SNAME", "MNAME", "IVOL_NVOL", "DATE_RDATE", "DX")]
    if ffi == 1020:
        it.append(("NVPM", 0))
    if ffi in (2010, 3010, 4010):
        it += [("NX", 0), ("NXDEF", 0)] + [("X", 0)] * (niv - 1)
    if ffi == 2160:
        it.append(("LENX", 0))
    it += [("XNAME", i + 1) for i in range(niv)]
    it += [("NV", 0), ("VSCAL", 0), ("VMISS", 0)] + [("VNAME", i + 1) for i in range(d["NV"])]
    if ffi != 1001:
        it.append(("NAUXV", 0))
        nr, nc = d["NAUXV"], 0
        if ffi == 2160:
            it.append(("NAUXC", 0))
            nc = d["NAUXC"]
            nr -= nc
        if d["NAUXV"]:
            it += [("ASCAL", 0), ("AMISS", 0)]
            if nc:
                it += [("LENA", 0)] + [("AMISS", i + 1) for i in range(nc)]
            it += [("ANAME", i + 1) for i in range(d["NAUXV"])]
    it += [("NSCOML", 0)] + [("SCOM", i + 1) for i in range(len(d["SCOM"]))]
    it += [("NNCOML", 0)] + [("NCOM", i + 1) for i in range(len(d["NCOM"]))]
    return it


def check_annotated(plain, annotated, d, delim, no_header, ctx):
    lab = labels()
    p, a = plain.split("\n"), annotated.split("\n")
    if len(p) != len(a):
        raise Violation("annotated file has %d lines, the plain one %d" % (len(a) - 1, len(p) - 1))
    items = [] if no_header else header_items(d)
    for i, (x, y) in enumerate(zip(p[:-1], a[:-1])):
        item, n = items[i] if i < len(items) else ("Data", 0)
        ok = [lab[item] + delim + x]
        if n:
            ok.append("%s %d%s%s" % (lab[item], n, delim, x))
        if y not in ok:
            raise Violation("annotated line %d (%s) is %r, expected %r" % (i + 1, item, y[:200], ok[-1][:200]))


def write_case(ffis):
    return lambda: st.fixed_dictionaries({
        "na": gen.na_dict(ffis),
        "fmt": st.sampled_from(FORMATS),
        "delim": st.sampled_from(DELIMS),
    })


def check_write(case, ctx):
    import nappy
    na, fmt, delim = case["na"], case["fmt"], case["delim"]

    def write(name, **kw):
        path = ctx.path(name)
        with ctx.sut("writing FFI %s with %r" % (na["FFI"], kw)):
            f = nappy.openNAFile(path, "w", na_dict=copy.deepcopy(na))
            f.write(float_format=fmt, **kw)
            f.close()
        with open(path, newline="") as fh:
            return fh.read()

    base = write("base.na", delimiter="    ")
    plain = write("plain.na", delimiter=delim)
    nhead = int(base.split()[0])
    lines = plain.split("\n")
    data = "\n".join(lines[nhead:])
    ctx.note(n_values(na) >= 2, "FFI%d" % na["FFI"], "delim%r" % delim, "aux" if na.get("NAUXV") else "")
    # header suppression
    bare = write("bare.na", delimiter=delim, no_header=True)
    if bare != data:
        raise Violation("header-less file is not the data section of the full file: %s instead of %s" % (fmt_short(bare), fmt_short(data)))
    # annotation
    check_annotated(plain, write("ann.na", delimiter=delim, annotation=True), na, delim, False, ctx)
    check_annotated(bare, write("annbare.na", delimiter=delim, annotation=True, no_header=True), na, delim, True, ctx)
    # delimiter
    b = base.split("\n")
    if len(b) != len(lines):
        raise Violation("with delimiter %r the file has %d lines instead of %d" % (delim, len(lines) - 1, len(b) - 1))
    for i, (x, y) in enumerate(zip(b, lines)):
        if toks(x) != toks(y):
            raise Violation("with delimiter %r line %d holds %r, with blanks %r" % (delim, i + 1, y[:200], x[:200]))
    spec.diff_contents(na, spec.parse(plain, "," if "," in delim else None), fmt, "file with delimiter %r" % delim)


def toks(line):
    return [t for t in re.split(r"[\s,]+", line) if t]


EXT = ["na", "NA", "dat", "txt", "n"]
stem = st.one_of(st.sampled_from(["in", "my_file", "a.b-long_name", "data 2001", "x"]),
                 st.text(alphabet="abcXYZ019_-", min_size=1, max_size=8))


def csv_case(ffis):
    return lambda: st.fixed_dictionaries({
        "na": gen.na_dict(ffis),
        "layout": st.lists(st.integers(0, 119), min_size=1, max_size=30),
        "crlf": st.just(False), "blank_tail": st.just(0), "final_eol": st.just(True), "extra": st.just([]),
        "stem": stem, "ext": st.sampled_from(EXT), "named": st.booleans(),
        "annotation": st.booleans(), "no_header": st.booleans(),
    })


def check_csv(case, ctx):
    import nappy
    na = case["na"]
    text, _ = emit(case, spec.Layout(case["layout"]))
    src = ctx.path(case["stem"] + "." + case["ext"])
    with open(src, "w", newline="") as f:
        f.write(text)
    kw = {}
    if case["annotation"]:
        kw["annotation"] = True
    if case["no_header"]:
        kw["no_header"] = True
    out = ctx.path("named_out.txt") if case["named"] else ctx.path(case["stem"] + ".csv")
    with ctx.sut("convertNAToCSV FFI %s" % na["FFI"]):
        if case["named"]:
            nappy.convertNAToCSV(src, out, **kw)
        else:
            nappy.convertNAToCSV(src, **kw)
    left = sorted(os.listdir(ctx.dir))
    if left != sorted({os.path.basename(src), os.path.basename(out)}):
        raise Violation("convertNAToCSV left the files %s, expected %s" % (left, os.path.basename(out)))
    with open(src, newline="") as f:
        if f.read() != text:
            raise Violation("convertNAToCSV changed its input file")
    with open(out, newline="") as f:
        got = f.read()
    ctx.note(n_values(na) >= 2, "FFI%d" % na["FFI"], "annotation" if kw.get("annotation") else "", "no header" if kw.get("no_header") else "",
             "named" if case["named"] else "default name")
    full = got
    if kw.get("annotation"):
        # take the labels off, then judge the rest
        lab = labels()
        items = [] if kw.get("no_header") else header_items(na)
        lines = got.split("\n")[:-1]
        out_lines = []
        for i, y in enumerate(lines):
            item, n = items[i] if i < len(items) else ("Data", 0)
            for pre in ([lab[item] + " %d," % n] if n else []) + [lab[item] + ","]:
                if y.startswith(pre):
                    out_lines.append(y[len(pre):])
                    break
            else:
                raise Violation("line %d of the annotated CSV file (%s) is %r" % (i + 1, item, y[:200]))
        full = "\n".join(out_lines) + ("\n" if out_lines else "")
    if kw.get("no_header"):
        # put an independent header in front
        head, nh = spec.emit(na, spec.Layout([0], notation=False))
        n_items = len(header_items(na))
        assert nh == n_items, (nh, n_items)
        plain = head.split("\n")[:nh]
        hd = commas(plain, na)
        full = "\n".join(hd) + "\n" + full
    spec.diff_contents(na, spec.parse(full, ","), "%.10g", "CSV file of FFI %s" % na["FFI"])


TEXT_ITEMS = {"ONAME", "ORG", "SNAME", "MNAME", "XNAME", "VNAME", "ANAME", "SCOM", "NCOM"}


def commas(lines, na):
    out = []
    for line, (item, n) in zip(lines, header_items(na)):
        text = item in TEXT_ITEMS or (item == "AMISS" and n)
        out.append(line if text else ",".join(line.split()))
    return out


def nc_case():
    return st.fixed_dictionaries({
        "ds": st.one_of(ncgen.dataset(max_vars=4), ncgen.dataset(one_d=True), ncgen.dataset(max_rank=2, min_rank=2, extra_dims=False)),
        "fmt": st.sampled_from(FORMATS), "delim": st.sampled_from(DELIMS), "ffi": st.sampled_from([None, None, 2110, 2310, 1020]),
        "limit": st.one_of(st.none(), st.none(), st.integers(1, 6)), "api": st.sampled_from(["file", "file", "objects"]),
    })


def check_nc(case, ctx):
    import nappy
    import xarray as xr
    path = ctx.path("in.nc")
    ncgen.write(case["ds"], path)
    delim = case["delim"]
    keep = {"float_format": case["fmt"]}
    if case["limit"]:
        keep["size_limit"] = case["limit"]
    if case["ffi"]:
        try:
            nappy.convertNCToNA(path, ctx.path("try.na"), requested_ffi=case["ffi"])
            keep["requested_ffi"] = case["ffi"]
        except Exception:       # refused: decided by C16
            ctx.note(None, "default format")
    variables = [v for v in case["ds"]["vars"] if "since" not in v["attrs"].get("units", "")]
    by_objects = case["api"] == "objects" and len(variables) == len(case["ds"]["vars"])

    def convert(tag, **kw):
        top = ctx.path(tag)
        os.mkdir(top)
        with ctx.sut("converting NetCDF with %r" % kw):
            if by_objects:
                with xr.open_dataset(path, decode_times=xr.coders.CFDatetimeCoder(use_cftime=True), decode_timedelta=False) as ds:
                    bounds = {v.attrs.get("bounds") for v in ds.variables.values()}
                    fn = nappy.convertXarrayObjectsToCSV if kw.pop("csv", False) else nappy.convertXarrayObjectsToNA
                    files = fn([ds[v] for v in ds.variables if v not in bounds], list(ds.attrs.items()), os.path.join(top, "out.na"), **keep, **kw)
            else:
                files = (nappy.convertNCToCSV if kw.pop("csv", False) else nappy.convertNCToNA)(path, os.path.join(top, "out.na"), **keep, **kw)
        out = {}
        for f in files:
            with open(f, newline="") as fh:
                out[os.path.basename(f)] = outputs.norm_text(fh.read())
        return out

    base = convert("base", delimiter="    ")
    plain = convert("plain", delimiter=delim)
    others = {"header-less": convert("bare", delimiter=delim, no_header=True), "annotated": convert("ann", delimiter=delim, annotation=True),
              "annotated header-less": convert("annbare", delimiter=delim, annotation=True, no_header=True)}
    if delim == ",":
        others["CSV"] = convert("csv", csv=True)
    ctx.note(bool(base), "objects" if by_objects else "file", "%d files" % min(len(base), 4), "split" if case["limit"] else "", "delim%r" % delim)
    for what, got in [("plain", plain)] + sorted(others.items()):
        if sorted(got) != sorted(base):
            raise Violation("%s output consists of the files %r, of %r with blanks" % (what, sorted(got), sorted(base)))
    for f in base:
        d = spec.parse(base[f], None)
        ctx.note(None, "FFI%d" % d["FFI"])
        nhead = int(base[f].split()[0])
        b, p = base[f].split("\n"), plain[f].split("\n")
        if len(b) != len(p):
            raise Violation("with delimiter %r %s has %d lines instead of %d" % (delim, f, len(p) - 1, len(b) - 1))
        for i, (x, y) in enumerate(zip(b, p)):
            if toks(x) != toks(y):
                raise Violation("with delimiter %r line %d of %s holds %r, with blanks %r" % (delim, i + 1, f, y[:200], x[:200]))
        bare = "\n".join(p[nhead:])
        if others["header-less"][f] != bare:
            raise Violation("header-less %s is not the data section of the full file: %s instead of %s" % (f, fmt_short(others["header-less"][f]), fmt_short(bare)))
        check_annotated(plain[f], others["annotated"][f], d, delim, False, ctx)
        check_annotated(bare, others["annotated header-less"][f], d, delim, True, ctx)
        if "CSV" in others and others["CSV"][f] != plain[f]:
            raise Violation("the CSV conversion of %s is not the conversion with commas" % f)


R1 = "contents dictionaries written plain, annotated, without header and with another delimiter; non-trivial = at least two primary values"
R2 = "independently laid out files converted to CSV with random options and names; non-trivial = at least two primary values"
SUBS = [
    Sub("write", write_case(gen.FFIS), check_write, 2400, 60000, R1),
    Sub("write_varying", write_case([2110, 2160, 2310]), check_write, 800, 20000, R1),
    Sub("csv", csv_case(gen.FFIS), check_csv, 2000, 50000, R2),
    Sub("netcdf", nc_case, check_nc, 320, 10000, "datasets converted from files and from objects with blanks, another delimiter, annotated and without header; non-trivial = some output was written"),
]
ASSUMPTIONS = ["Delimiters are blanks, a tab, or a comma with optional blanks.",
               "The line number some labels carry (\" 1\", \" 2\") may be present or not, but must be right when present."]
