"""C15: output file names are predicted correctly and never collide."""
import contextlib
import os

from hypothesis import strategies as st

from . import gen, ncgen
from .core import Sub, Violation
from .p_c10 import na_for_nc, write_na
from .p_c14 import all_files

IN_NAMES = ["in.nc", "data.v2.nc", "input", "my file.nc", "a.cdf", "x.nc.nc", "archive.2004", "in-001.nc", "in_1.nc"]
OUT_NAMES = [None, None, "out.na", "out", "res.v1.na", "out.dat", "a b.na", ".hidden", "new_2.na", "n.long_extension", "out.na.na", "out."]
DIRS = ["", "", "sub", "sub.dir", "sub/deep.er"]


@contextlib.contextmanager
def cwd(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def default_name(name, ext):
    """The extension (up to three characters) is replaced, or the new one appended."""
    head, base = os.path.split(name)
    root, old = os.path.splitext(base)
    if old and len(old) <= 4:
        base = root
    return os.path.join(head, base + "." + ext)


def s_case():
    return st.fixed_dictionaries({
        "ds": ncgen.dataset(max_vars=5, gattrs=False, wild=True),
        "in_name": st.sampled_from(IN_NAMES), "in_dir": st.sampled_from(DIRS),
        "out_name": st.sampled_from(OUT_NAMES), "out_dir": st.sampled_from(DIRS), "relative": st.booleans(),
        "api": st.sampled_from(["na", "na", "csv", "class"]),
        "limit": st.sampled_from([None, None, None, 1, 2, 3]),
        "one": st.booleans(), "no_header": st.booleans(),
    })


def check(case, ctx):
    import nappy
    import nappy.nc_interface.nc_to_na
    top = ctx.dir
    for d in DIRS:
        os.makedirs(os.path.join(top, d), exist_ok=True)
    rel_in = os.path.join(case["in_dir"], case["in_name"])
    ncgen.write(case["ds"], os.path.join(top, rel_in))
    lead = "" if case["relative"] else top + "/"
    src = lead + rel_in
    out = None if case["out_name"] is None else lead + os.path.join(case["out_dir"], case["out_name"])
    ext = "csv" if case["api"] == "csv" else "na"
    if case["api"] == "class" and out is None and not src.endswith(".nc"):
        out = lead + "given.na"                  # the class documents a default for .nc files only
    base = out if out is not None else default_name(src, ext)
    if os.path.normpath(os.path.join(top, base)) == os.path.normpath(os.path.join(top, rel_in)):
        ctx.note(False)
        return
    args = {"size_limit": case["limit"]} if case["limit"] else {}
    sel = {"var_ids": [case["ds"]["vars"][0]["name"]]} if case["one"] else {}
    other = {"no_header": case["no_header"]}
    with open(os.path.join(top, "bystander"), "w") as f:
        f.write("x")
    before = snapshot(top)

    def convert(names_only):
        if case["api"] == "class":
            c = nappy.nc_interface.nc_to_na.NCToNA(src, **sel)
            if names_only:
                c.convert()
                return c.constructNAFileNames(*([out] if out is not None else []), **args)
            c.writeNAFiles(*([out] if out is not None else []), **args, **other)
            return c.output_files_written
        f = nappy.convertNCToCSV if case["api"] == "csv" else nappy.convertNCToNA
        a = dict(args, **sel, **other)
        if names_only:
            a["only_return_file_names"] = True
        return f(src, *([out] if out is not None else []), **a)

    with cwd(top):
        with ctx.sut("asking for the output names"):
            names = list(convert(True))
        if snapshot(top) != before:
            raise Violation("asking for the output names changed files: %r" % changed(before, snapshot(top)))
        with ctx.sut("converting"):
            files = list(convert(False))
        after = snapshot(top)
        new = changed(before, after)
        want = sorted(os.path.relpath(os.path.join(top, n), top) for n in names)
    ctx.note(len(names) > 1, case["api"], "%d names" % min(len(names), 5), "default name" if out is None else "", "size limit" if args else "")
    if len(set(want)) != len(want):
        raise Violation("output names collide: %r" % names)
    if files != names:
        raise Violation("names %r were predicted, %r are reported" % (names, files))
    if new != want:
        raise Violation("names %r were predicted, %r were written" % (want, new))
    # running numbers and volumes
    root, e = os.path.splitext(base)
    groups = {}
    whole = [base] + ["%s_%d%s" % (root, i + 1, e) for i in range(len(names))]
    for n in names:
        r, x = os.path.splitext(n)
        if n not in whole and r[-4:-3] == "-" and r[-3:].isdigit():
            groups.setdefault(r[:-4] + x, []).append(int(r[-3:]))
        else:
            groups.setdefault(n, []).append(None)
    got = list(groups)
    want = [base] if len(got) == 1 else ["%s_%d%s" % (root, i + 1, e) for i in range(len(got))]
    if got != want:
        raise Violation("the outputs are called %r, the base name is %r" % (names, base))
    for k, v in groups.items():
        if v != [None] and v != list(range(1, len(v) + 1)):
            raise Violation("the parts of %r are numbered %r" % (k, v))


def snapshot(top):
    out = {}
    for f in all_files(top):
        with open(os.path.join(top, f), "rb") as fh:
            out[f] = (hash(fh.read()), os.stat(os.path.join(top, f)).st_mtime_ns)
    return out


def changed(a, b):
    return sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))


NA_NAMES = ["in.na", "data.v2.na", "input", "a b.dat", "in", "in.txt", "x.na.na", "in_1.na"]


def s_na():
    return st.fixed_dictionaries({"na": na_for_nc(wide=False), "name": st.sampled_from(NA_NAMES), "dir": st.sampled_from(DIRS), "relative": st.booleans(),
                                  "to": st.sampled_from(["nc", "csv"]), "out": st.sampled_from([None, None, "out.xyz", "sub.dir/out"])})


def check_na(case, ctx):
    import nappy
    top = ctx.dir
    for d in DIRS:
        os.makedirs(os.path.join(top, d), exist_ok=True)
    rel = os.path.join(case["dir"], case["name"])
    write_na(case["na"], [0], os.path.join(top, rel))
    lead = "" if case["relative"] else top + "/"
    before = snapshot(top)
    out = lead + case["out"] if case["out"] else None
    args = [lead + rel] + ([out] if out else [])
    with cwd(top):
        with ctx.sut("converting to " + case["to"]):
            if case["to"] == "nc":
                nappy.convertNAToNC(*args, time_warning=False)
            else:
                nappy.convertNAToCSV(*args)
        new = changed(before, snapshot(top))
    ctx.note(out is None, case["to"])
    want = os.path.normpath(case["out"] if out else default_name(rel, case["to"]))
    if new != [want]:
        raise Violation("%r was converted to %r, expected %r" % (rel, new, want))


SUBS = [
    Sub("names", s_case, check, 1000, 25000, "datasets, input and output names and directories, size limits; non-trivial = several output files"),
    Sub("defaults", s_na, check_na, 400, 10000, "NASA Ames files converted under given and default names; non-trivial = default name"),
]
ASSUMPTIONS = ["An extension has at most three characters after the dot.", "The output is not the input file itself."]
