"""C17: the command-line tools do what the API does with the same options."""
import contextlib
import io
import os
import runpy
import shutil
import sys
import warnings

from hypothesis import strategies as st

from . import gen, ncgen, ncmodel, spec
from .core import Sub, Violation, fmt_short
from .outputs import files_form, first_difference
from .p_c10 import na_for_nc, renaming, write_na
from .p_c15 import cwd

WAYS = ["call", "console", "module"]
TEXT = ["Somebody", "A longer text; with marks", "x=1", "-dash", "12", " spaced out ", "'quoted'", '"', "UPPER lower", "a\\tb", "a\tb", "100%", "é", "", "[1]", "None", "1e3", "=", "a=b", "--ffi"]
FORMATS = ["%s", "%g", "%5.2f", "%.10g", "%12.4e", "%.4E", "%G", " %.2f", "% .3f", "%g ", "\t%g", "%+g", "%-9.3g", "%010.3f", "%r", "%.3f%%"]
DELIMS = ["   ", "    ", " ", "\t", "\\t", ",", ", ", ";", "|", " ; ", "\\t\\t", "\t ", ",\\t", "\\n"]


def run_tool(tool, argv, way, top):
    """Runs a tool in-process as one of the ways it can be started.
    Returns ("done", value) or ("exit", code) or ("error", exception) and the text it wrote."""
    out = io.StringIO()
    with cwd(top), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        old, old_in = sys.argv, sys.stdin
        sys.argv, sys.stdin = [tool] + list(argv), io.StringIO("")
        try:
            if way == "module":
                runpy.run_module("nappy.script." + tool, run_name="__main__")
                res = ("done", None)
            else:
                f = getattr(__import__("nappy.script." + tool, fromlist=[tool]), tool)
                if way == "console":
                    v = f()
                    res = ("done", v) if v is None or v == 0 else ("exit", v)
                else:
                    res = ("done", f(list(argv)))
        except SystemExit as e:
            res = ("exit", e.code)
        except Exception as e:
            res = ("error", e)
        finally:
            sys.argv, sys.stdin = old, old_in
    return res, out.getvalue()


def run_api(f, args, kw, top):
    with cwd(top), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        old, sys.stdin = sys.stdin, io.StringIO("")
        try:
            return ("done", f(*args, **kw))
        except Exception as e:
            return ("error", e)
        finally:
            sys.stdin = old


def order(draw_order, opts):
    """The options in the drawn order."""
    keyed = sorted(range(len(opts)), key=lambda i: (draw_order[i % len(draw_order)], i))
    return [x for i in keyed for x in opts[i]]


def pairs(keys):
    return st.lists(st.tuples(st.sampled_from(keys), st.sampled_from(TEXT)), min_size=1, max_size=3, unique_by=lambda t: t[0])


def s_nc():
    return st.fixed_dictionaries({
        "tool": st.sampled_from(["nc2na", "nc2csv"]), "way": st.sampled_from(WAYS),
        "ds": ncgen.dataset(max_vars=5),
        "in": st.sampled_from(["in.nc", "data.v2.nc", "input", "in file.nc", "IN.NC", " in.nc", "./in.nc"]),
        "out": st.sampled_from([None, "out.na", "res", "sub/o.csv", "Out File.NA", "out.na ", "./sub/../o.na", "out,1.na", "-o.na", "o=1.na"]),
        "vars": st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=3, unique=True)),
        "exclude": st.one_of(st.none(), st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=2, unique=True)),
        "overlap": st.booleans(),
        "ffi": st.sampled_from([None, None, None, 1001, 1010, 2010, 2110, 3010, 1020, 77]),
        "fmt": st.sampled_from([None, None] + FORMATS), "delim": st.sampled_from([None, None] + DELIMS),
        "limit": st.sampled_from([None, None, None, 1, 2, 3, 5, -1]),
        "over": st.one_of(st.none(), st.none(), pairs(["ONAME", "ORG", "SNAME", "MNAME", "SCOM", "NCOM"])),
        "names_only": st.integers(0, 5).map(lambda i: i == 0), "no_header": st.booleans(), "annotated": st.booleans(),
        "order": st.lists(st.integers(0, 9), min_size=12, max_size=12),
    })


def tops(ctx):
    out = []
    for k in ("tool", "api"):
        t = ctx.path(k)
        os.makedirs(os.path.join(t, "sub"))
        out.append(t)
    return out


def compare(res, text, api, a, b, what):
    """Both ended the same way with the same files."""
    if api[0] == "error":
        if res[0] == "done":
            raise Violation("%s succeeds where the API refuses (%s)" % (what, fmt_short(str(api[1]))))
        if res[0] == "error" and str(res[1]) != str(api[1]):
            raise Violation("%s fails with %s, the API with %s" % (what, fmt_short(repr(res[1])), fmt_short(repr(api[1]))))
    elif res[0] != "done":
        raise Violation("%s ends with %s %s where the API call works; it says %s" % (what, res[0], fmt_short(repr(res[1])), fmt_short(text[-300:])))
    d = first_difference(files_form(a), files_form(b))
    if d:
        raise Violation("%s and the API call leave different files: %s" % (what, d))


def check_nc(case, ctx):
    import nappy
    tool = case["tool"]
    a, b = tops(ctx)
    ncgen.write(case["ds"], os.path.join(a, case["in"]))
    shutil.copyfile(os.path.join(a, case["in"]), os.path.join(b, case["in"]))
    names = [v["name"] for v in case["ds"]["vars"]] + [s["name"] for s in case["ds"]["scalars"]]
    opts, kw = [["-i", case["in"]]], {}
    args = [case["in"]]
    if case["out"]:
        opts.append(["-o", case["out"]])
        args.append(case["out"])
    chosen = []
    if case["vars"]:
        sel = chosen = [names[i] for i in case["vars"] if i < len(names)]
        if sel:
            opts.append(["-v", ",".join(sel)])
            kw["var_ids"] = sel
    if case["exclude"]:
        sel = [names[i] for i in case["exclude"] if i < len(names)]
        if case.get("overlap") and len(chosen) > 1:
            sel = [chosen[case["exclude"][0] % len(chosen)]]    # a variable asked for and excluded
        if sel:
            opts.append(["-e", ",".join(sel)])
            kw["exclude_vars"] = sel
    if case["ffi"]:
        opts.append(["--ffi=%d" % case["ffi"]] if case["order"][0] % 2 else ["--ffi", str(case["ffi"])])
        kw["requested_ffi"] = case["ffi"]
    if case["fmt"]:
        opts.append(["-f", case["fmt"]])
        kw["float_format"] = case["fmt"]
    if case["delim"] and tool == "nc2na":
        opts.append(["-d", case["delim"]])
        kw["delimiter"] = case["delim"].replace("\\t", "\t")
    if case["limit"]:
        opts.append(["-l", str(case["limit"])])
        kw["size_limit"] = case["limit"]
    if case["over"]:
        s = ",".join(x for t in case["over"] for x in t)
        opts.append(["--overwrite-metadata=" + s] if case["order"][1] % 2 else ["--overwrite-metadata", s])
        kw["na_items_to_override"] = dict(case["over"])
    for k, o, name in (("names_only", "--names-only", "only_return_file_names"), ("no_header", "--no-header", "no_header"), ("annotated", "--annotated", "annotation")):
        if case[k]:
            opts.append([o])
            kw[name] = True
    argv = order(case["order"], opts)
    ctx.entered = True
    res, text = run_tool(tool, argv, case["way"], a)
    api = run_api(nappy.convertNCToCSV if tool == "nc2csv" else nappy.convertNCToNA, args, kw, b)
    ctx.note(len(opts) >= 3 and api[0] == "done", tool, case["way"], "refused" if api[0] == "error" else "", "names only" if case["names_only"] else "",
             *["%s" % o[0].split("=")[0] for o in opts])
    what = "%s %s" % (tool, " ".join(map(repr, argv)))
    compare(res, text, api, a, b, what)
    if api[0] == "done":
        if case["way"] == "call" and list(res[1] or []) != list(api[1] or []):
            raise Violation("%s returns %r, the API %r" % (what, res[1], api[1]))
        shown = [x.strip() for x in text.split("\n")]
        missing = [n for n in api[1] or [] if n.strip() not in shown]
        if missing:
            raise Violation("%s does not display %r: %s" % (what, missing, fmt_short(text)))


def s_na():
    return st.fixed_dictionaries({
        "way": st.sampled_from(WAYS), "na": na_for_nc(wide=False), "layout": st.lists(st.integers(0, 119), min_size=1, max_size=4),
        "in": st.sampled_from(["in.na", "data.v2.na", "in.txt", "in", "in file.na", "IN.NA", " in.na", "./in.na"]),
        "out": st.sampled_from([None, "out.nc", "res", "sub/o.nc", "Out File.NC", "out.nc ", "./sub/../o.nc", "out,1.nc", "-o.nc"]),
        "mode": st.sampled_from([None, "w", "a"]), "old": st.booleans(),
        "attrs": st.one_of(st.none(), pairs(["Project", "Errata", "PI", "my key", "UPPER", "upper", " blank", "title"])),
        "rename": st.lists(st.tuples(st.sampled_from(["v", "v", "a"]), st.integers(0, 99), st.sampled_from(["lower", "recorded", "upper"])), max_size=2),
        "units": st.one_of(st.none(), st.sampled_from(ncmodel.TIME_UNITS + ["hours since midnight"])), "quiet": st.booleans(),
        "order": st.lists(st.integers(0, 9), min_size=12, max_size=12),
    })


def check_na(case, ctx):
    import nappy
    a, b = tops(ctx)
    for t in (a, b):
        write_na(case["na"], case["layout"], os.path.join(t, case["in"]))
    opts, kw = [["-i", case["in"]]], {}
    args = [case["in"]]
    if case["out"]:
        opts.append(["-o", case["out"]])
        args.append(case["out"])
    if case["old"] and case["out"] and case["mode"] == "a":
        for t in (a, b):
            ncgen.write({"coords": {"other_axis": {"n": 2, "dtype": "f8", "values": [1.0, 2.0], "attrs": {"units": "m"}}},
                         "vars": [{"name": "kept", "dims": ["other_axis"], "dtype": "f8", "fill": None, "fill_attr": "_FillValue", "attrs": {}, "data": [5.0, 6.0]}],
                         "scalars": [], "bounds": [], "order": "coords first", "gattrs": [["kept_attribute", "yes"]]}, os.path.join(t, case["out"]))
    if case["mode"]:
        opts.append(["-m", case["mode"]])
        kw["mode"] = case["mode"]
    if case["attrs"]:
        opts.append(["-g", ",".join(x for t in case["attrs"] for x in t)])
        kw["global_attributes"] = [tuple(t) for t in case["attrs"]]
    ren = {k: v[0] for k, v in renaming(case["na"], case["rename"]).items() if "," not in k}
    if ren:
        opts.append(["-r", ",".join(x for t in sorted(ren.items()) for x in t)])
        kw["rename_variables"] = ren
    if case["units"]:
        opts.append(["-t", case["units"]])
        kw["time_units"] = case["units"]
    if case["quiet"]:
        opts.append(["-n"])
        kw["time_warning"] = False
    argv = order(case["order"], opts)
    ctx.entered = True
    res, text = run_tool("na2nc", argv, case["way"], a)
    api = run_api(nappy.convertNAToNC, args, kw, b)
    ctx.note(len(opts) >= 2 and api[0] == "done", case["way"], "refused" if api[0] == "error" else "", "appended" if case["mode"] == "a" else "", *[o[0] for o in opts])
    what = "na2nc %s" % " ".join(map(repr, argv))
    compare(res, text, api, a, b, what)
    if api[0] == "done" and case["way"] == "call" and res[1] != api[1]:
        raise Violation("%s returns %r, the API %r" % (what, res[1], api[1]))


BAD = [["-z"], ["--unknown"], ["--ffi", "abc"], ["--ffi=1001.5"], ["-l", "many"], ["-l", "2.5"], ["--overwrite-metadata", "ORG"], ["--overwrite-metadata=ORG,a,SNAME"],
       ["--names-only=yes"], ["-o"], ["-f"], ["-h"], ["--help"], None]
BAD_CSV = [["-d", ","], ["-d", " "]]
BAD_NA = [["-z"], ["--unknown"], ["-m", "x"], ["-m", "append"], ["-g", "Project"], ["-g", "a,b,c"], ["-r", "old"], ["-r", "a,b,c"], ["-o"], ["-h"], ["-l", "3"], None]


@st.composite
def s_bad(draw):
    tool = draw(st.sampled_from(["nc2na", "nc2csv", "na2nc"]))
    pool = BAD_NA if tool == "na2nc" else BAD + BAD_CSV if tool == "nc2csv" else BAD
    return {"tool": tool, "way": draw(st.sampled_from(WAYS)), "bad": draw(st.sampled_from(pool)), "before": draw(st.booleans()),
            "out": draw(st.booleans()), "na": draw(na_for_nc(wide=False)) if tool == "na2nc" else None,
            "ds": draw(ncgen.dataset(max_vars=2)) if tool != "na2nc" else None}


def check_bad(case, ctx):
    tool, bad = case["tool"], case["bad"]
    top = ctx.path("t")
    os.makedirs(top)
    if tool == "na2nc":
        write_na(case["na"], [0], os.path.join(top, "in.na"))
        good = ["-i", "in.na", "-n"]
    else:
        ncgen.write(case["ds"], os.path.join(top, "in.nc"))
        good = ["-i", "in.nc"]
    if case["out"]:
        good += ["-o", "out"]
    if bad is None:                      # the input file is missing
        argv = [x for x in good if x != "-i" and not x.startswith("in.")]
    else:
        last = len(bad) == 1 and bad[0] in ("-o", "-f")
        argv = bad + good if case["before"] and not last else good + bad
    before = files_form(top)
    ctx.note(True, tool, case["way"], "no input" if bad is None else bad[0].split("=")[0])
    ctx.entered = True
    res, text = run_tool(tool, argv, case["way"], top)
    what = "%s %s" % (tool, " ".join(map(repr, argv)))
    if res[0] != "exit":
        raise Violation("%s does not end with a usage message but %s %s" % (what, res[0], fmt_short(repr(res[1]))))
    if "usage" not in text.lower() or tool not in text:
        raise Violation("%s ends without a usage message: %s" % (what, fmt_short(text)))
    if files_form(top) != before:
        raise Violation("%s has bad options and still writes files" % what)


SUBS = [
    Sub("from_netcdf", s_nc, check_nc, 700, 20000, "datasets and combinations of the options of nc2na and nc2csv, in any order, started in three ways; non-trivial = two or more options besides the input, and accepted"),
    Sub("to_netcdf", s_na, check_na, 500, 15000, "NASA Ames files and combinations of the options of na2nc; non-trivial = an option besides the input, and accepted"),
    Sub("bad_options", s_bad, check_bad, 200, 4000, "one wrong, unknown or missing option among good ones"),
]
ASSUMPTIONS = ["What the API call itself has to do is decided by the other checks.", "-v and -a of na2nc are documented as not implemented and not used.",
               "Items of comma-separated options hold no comma."]
