"""C14: splitting by size limit partitions the data exactly."""
import os
import re

from hypothesis import strategies as st

from . import gen, ncgen, spec
from .core import Sub, Violation, fmt_short

STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")
NAMES = ["out.na", "out", "sub.dir/out.na", "sub.dir/out", "a.b.c", "res-001.na", "x_1.txt", "with space.na"]
DELIMS = ["    ", " ", "\t", ",", ", "]


@st.composite
def s_dataset(draw):
    """Mostly one-dimensional variables, several axes, any number of rows."""
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 60)))
    m = draw(st.integers(1, 9))
    coords = {}
    for name, size in (("time", n), ("second", m), ("lev", 2)):
        c = draw(ncgen.coord(name, "time" if name == "time" else None, 1))
        step = draw(st.sampled_from([1.0, 2.0, 10.0]))
        c["values"] = [float(i * step) for i in range(size)]
        if draw(st.booleans()) and size > 2:
            c["values"][-1] += 1.0
        c["n"], c["dtype"] = size, "f8"
        coords[name] = c
    vs = []
    k = draw(st.integers(1, 4))
    for i in range(k):
        dims = ["time"] if i == 0 else draw(st.sampled_from([["time"], ["time"], ["time"], ["second"], ["time", "lev"]]))
        size = gen.prod([coords[d]["n"] for d in dims])
        base = draw(st.integers(-500, 500))
        style = draw(st.sampled_from(["count", "count", "same", "frac"]))
        data = [float(base + (j if style != "same" else 0)) / (8 if style == "frac" else 1) for j in range(size)]
        fill = draw(st.sampled_from([None, -9999.0]))
        if fill and draw(st.booleans()):
            data[draw(st.integers(0, size - 1))] = None
        vs.append({"name": "v%d" % i, "dims": dims, "dtype": draw(st.sampled_from(["f8", "f4", "i4" if style != "frac" and None not in data else "f8"])),
                   "fill": fill, "fill_attr": "_FillValue", "attrs": draw(st.sampled_from([{}, {"units": "K"}, {"long_name": "Variable number %d" % i, "note": "a\nb"}])),
                   "data": data})
    used = {d for v in vs for d in v["dims"]}
    return {"coords": {k: v for k, v in coords.items() if k in used}, "vars": vs, "scalars": [], "bounds": [], "order": "coords first",
            "gattrs": draw(st.sampled_from([[], [["title", "T"]], [["comment", "one\ntwo"], ["project", "p"]]]))}


@st.composite
def s_case(draw):
    ds = draw(s_dataset())
    n = ds["coords"]["time"]["n"]
    limit = draw(st.one_of(st.sampled_from([1, 2, 3, n - 1, n, n + 1, 2 * n, max(1, n // 2), max(1, n // 2 + 1)]), st.integers(1, 70)))
    return {"ds": ds, "limit": max(1, limit), "name": draw(st.sampled_from(NAMES)), "delim": draw(st.sampled_from(DELIMS)),
            "fmt": draw(st.sampled_from([None, "%.17g", "%.6f", "%s"])),
            "annotation": draw(st.booleans()) and draw(st.booleans()), "no_header": draw(st.booleans()) and draw(st.booleans()),
            "api": draw(st.sampled_from(["na", "na", "csv"])), "scom": draw(st.sampled_from([None, None, ["over", "1 1"]]))}


def convert(case, path, out, limit, ctx, what):
    import nappy
    args = {"annotation": case["annotation"], "no_header": case["no_header"]}
    if case["fmt"]:
        args["float_format"] = case["fmt"]
    if case["scom"]:
        args["na_items_to_override"] = {"SCOM": list(case["scom"])}
    if limit is not None:
        args["size_limit"] = limit
    with ctx.sut(what):
        if case["api"] == "csv":
            return nappy.convertNCToCSV(path, out, **args)
        return nappy.convertNCToNA(path, out, delimiter=case["delim"], **args)


def text(path):
    with open(path, newline="") as f:
        return STAMP.sub("<now>", f.read())


def all_files(top):
    return sorted(os.path.relpath(os.path.join(d, f), top) for d, _, fs in os.walk(top) for f in fs)


def check(case, ctx):
    path = ctx.path("in.nc")
    ncgen.write(case["ds"], path)
    tops = {}
    for k in ("whole", "split"):
        tops[k] = ctx.path(k)
        os.makedirs(os.path.join(tops[k], "sub.dir"))
    whole = convert(case, path, os.path.join(tops["whole"], case["name"]), None, ctx, "converting NetCDF")
    files = convert(case, path, os.path.join(tops["split"], case["name"]), case["limit"], ctx, "converting NetCDF with a size limit of %d" % case["limit"])
    delim = "," if case["api"] == "csv" else case["delim"]
    limit = case["limit"]
    todo = [os.path.relpath(f, tops["split"]) for f in files]
    if len(set(todo)) != len(todo):
        raise Violation("files are reported twice: %r" % todo)
    if sorted(todo) != all_files(tops["split"]):
        raise Violation("files %r are reported, %r are on disk" % (sorted(todo), all_files(tops["split"])))
    split_any = False
    for f in whole:
        rel = os.path.relpath(f, tops["whole"])
        lines = text(f).split("\n")
        if lines[-1] != "":
            raise Violation("file does not end with a line end")
        lines.pop()
        # rows and index of the whole file come from an unsuppressed header
        ffi, rows, nhead = shape(case, path, rel, tops, ctx)
        head, body = ([], lines) if case["no_header"] else (lines[:nhead], lines[nhead:])
        if ffi != 1001 or rows <= limit:
            if rel not in todo:
                raise Violation("%s (FFI %d, %d rows, limit %d) is not among the files %r" % (rel, ffi, rows, limit, todo))
            if text(os.path.join(tops["split"], rel)) != text(f):
                raise Violation("%s is within the limit (or of another format) but changed" % rel)
            todo.remove(rel)
            continue
        split_any = True
        base, ext = os.path.splitext(rel)
        nvol = -(-rows // limit)
        got = []
        for k in range(1, nvol + 1):
            name = "%s-%03d%s" % (base, k, ext)
            if name not in todo:
                raise Violation("volume %d of %d is not called %s: %r" % (k, nvol, name, todo))
            if todo.index(name) != 0 and k > 1:
                raise Violation("the files are not reported in the order of volumes: %r" % [os.path.basename(x) for x in files])
            todo.remove(name)
            part = text(os.path.join(tops["split"], name)).split("\n")
            if part.pop() != "":
                raise Violation("%s does not end with a line end" % name)
            if not case["no_header"]:
                ph, part = part[:nhead], part[nhead:]
                want = list(head)
                # the line of volume numbers
                w = want[5].rstrip()
                if not w.endswith("1%s1" % delim):
                    raise Violation("line 6 of the whole file is %r" % w)
                label = w[:len(w) - 2 - len(delim)]
                want[5] = "%s%d%s%d" % (label, k, delim, nvol)
                if norm(ph, delim) != norm(want, delim):
                    i = next((i for i, (a, b) in enumerate(zip(norm(ph, delim), norm(want, delim))) if a != b), None)
                    raise Violation("header of %s differs in line %s: %s instead of %s" % (name, i, fmt_short(ph[i] if i is not None else ph), fmt_short(want[i] if i is not None else want)))
            n = limit if k < nvol else rows - limit * (nvol - 1)
            if len(part) != n:
                raise Violation("%s holds %d rows instead of %d" % (name, len(part), n))
            got += part
        if got != body:
            raise Violation("the rows of the parts of %s are not the rows of the whole in order" % rel)
    if todo:
        raise Violation("unexpected files %r" % todo)
    ctx.note(split_any, "split" if split_any else "within the limit", "annotated" if case["annotation"] else "", "no header" if case["no_header"] else "",
             "%d outputs" % min(len(whole), 3))


def norm(lines, delim):
    return [line.rstrip() for line in lines]


def shape(case, path, rel, tops, ctx):
    """(FFI, number of rows, number of header lines) of a whole output, read by the independent parser."""
    key = "plain"
    if key not in tops:
        tops[key] = ctx.path("plain")
        os.makedirs(os.path.join(tops[key], "sub.dir"))
        convert(dict(case, annotation=False, no_header=False), path, os.path.join(tops[key], case["name"]), None, ctx, "converting NetCDF")
    f = os.path.join(tops[key], rel)
    delim = "," if case["api"] == "csv" else case["delim"]
    p = ncgen.collect([f], None if delim.isspace() else delim.strip() if "," in delim else delim)[1][0]
    with open(f) as fh:
        nhead = int(fh.readline().replace(",", " ").split()[0])
    return p["FFI"], len(p["V"][0]) if p["FFI"] == 1001 else 0, nhead


def s_bad():
    return st.fixed_dictionaries({"ds": s_dataset(), "limit": st.integers(-5, 0)})


def c_bad(case, ctx):
    import nappy
    path = ctx.path("in.nc")
    ncgen.write(case["ds"], path)
    ctx.note(True)
    with ctx.must_raise("a size limit of %d rows" % case["limit"]):
        if not nappy.convertNCToNA(path, ctx.path("plain.na")):
            raise ValueError
        files = nappy.convertNCToNA(path, ctx.path("out.na"), size_limit=case["limit"])
        # data that no FFI 1001 file holds are not concerned
        if all(open(f).readline().split()[1] != "1001" for f in files):
            raise ValueError


SUBS = [
    Sub("split", s_case, check, 900, 30000, "datasets of mostly one-dimensional variables, row limits around and below the number of rows, all options; non-trivial = some output was split"),
    Sub("bad_limit", s_bad, c_bad, 60, 1000, "row limits below one", cpu=5.0),
]
ASSUMPTIONS = ["The content of the unsplit output is decided by C12 and C05; here the parts are compared with it line by line (times of conversion aside)."]
