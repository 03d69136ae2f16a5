"""C02: every file written conforms to the format specification (independent strict parser)."""
import copy

from hypothesis import strategies as st

from . import gen, spec
from .core import Sub, Violation
from .p_c01 import FORMATS, DELIMS, n_values
from .p_c03 import emit


def case_strategy(ffis):
    return lambda: st.fixed_dictionaries({
        "na": gen.na_dict(ffis),
        "fmt": st.sampled_from(FORMATS),
        "delim": st.sampled_from(DELIMS),
        # what the target path holds before: nothing, a short or a long other file
        "before": st.sampled_from([0, 0, 1, 4000]),
        "writer": st.sampled_from(["default", "options", "annot_off"]),
    })


def check(case, ctx):
    import nappy
    na, fmt = case["na"], case["fmt"]
    path = ctx.path("out.na")
    if case["before"]:
        with open(path, "w") as f:
            f.write("1 2 3\n" * case["before"])
    with ctx.sut("writing FFI %s" % na["FFI"]):
        f = nappy.openNAFile(path, "w", na_dict=copy.deepcopy(na))
        if case["writer"] == "default":
            fmt = "%.10g"                        # documented default
            f.write()
        elif case["writer"] == "options":
            f.write(delimiter=case["delim"], float_format=fmt)
        else:
            f.write(delimiter=case["delim"], float_format=fmt, annotation=False, no_header=False)
        f.close()
    with open(path, newline="") as fh:
        text = fh.read()
    ctx.note(n_values(na) >= 2, "FFI%d" % na["FFI"], "NV>1" if na["NV"] > 1 else "", "aux" if na.get("NAUXV") else "",
             "overwrites" if case["before"] else "", "comments" if na["SCOM"] or na["NCOM"] else "")
    if "\r" in text:
        raise Violation("carriage returns in the written file")
    got = spec.parse(text)
    spec.diff_contents(na, got, fmt, "specification parser, FFI %s" % na["FFI"])


@st.composite
def s_rewritten(draw):
    na = draw(gen.na_dict())
    edits = draw(st.lists(st.sampled_from(["value", "missing", "comment", "name", "texts", "dates"]), max_size=3, unique=True))
    return {"na": na, "layout": draw(st.lists(st.integers(0, 119), min_size=1, max_size=20)), "crlf": draw(st.booleans()), "blank_tail": 0, "final_eol": True,
            "extra": draw(st.one_of(st.just([]), st.lists(st.sampled_from(["a line", "20 1001", "{x}", "", "1 2"]), min_size=1, max_size=3))),
            "edits": edits, "fmt": draw(st.sampled_from(FORMATS)), "number": draw(st.integers(-9999, 9999)), "where": draw(st.integers(0, 9999)),
            "same": draw(st.booleans())}


def edit(case, d):
    """The edits users make to contents they have read, in place."""
    for e in case["edits"]:
        if e == "value":
            rows = [r for r in rows_of(d["V"]) if r]
            if rows:
                r = rows[case["where"] % len(rows)]
                r[case["where"] % len(r)] = case["number"]
        elif e == "missing":
            d["VMISS"][case["where"] % d["NV"]] = case["number"]
        elif e == "comment":
            d["NCOM"] = list(d["NCOM"]) + ["edited", ""]
            d["NNCOML"] = len(d["NCOM"])
            d["SCOM"], d["NSCOML"] = [], 0
        elif e == "name":
            d["VNAME"][case["where"] % d["NV"]] = "edited (%d)" % case["number"]
        elif e == "texts":
            d["ONAME"], d["MNAME"] = "edited", "x"
        elif e == "dates":
            d["RDATE"] = [2001, 1, 1]


def rows_of(v):
    if v and isinstance(v[0], list):
        return [r for x in v for r in rows_of(x)]
    return [v]


def c_rewritten(case, ctx):
    import nappy
    na = copy.deepcopy(case["na"])
    if na["FFI"] == 2160 and case["extra"] and not case.get("known"):
        ctx.exclude("ignored lines of a 2160 file are written again")
        case = dict(case, extra=[])
    text, _ = emit(dict(case, na=na), spec.Layout(case["layout"]))
    src = ctx.path("in.na")
    with open(src, "w", newline="") as f:
        f.write(text)
    out = src if case["same"] else ctx.path("out.na")
    with ctx.sut("reading and writing FFI %s again" % na["FFI"]):
        g = nappy.openNAFile(src, **({"ignore_header_lines": len(case["extra"])} if case["extra"] else {}))
        g.readData()
        d = g.getNADict()
        g.close()
        edit(case, d)
        f = nappy.openNAFile(out, "w", na_dict=d)
        f.write(float_format=case["fmt"])
        f.close()
    edit(case, na)
    ctx.note(n_values(na) >= 2, "FFI%d" % na["FFI"], "ignored lines" if case["extra"] else "", *case["edits"])
    with open(out, newline="") as fh:
        got = spec.parse(fh.read())
    spec.diff_contents(na, got, case["fmt"], "read, edited and rewritten, FFI %s" % na["FFI"])


RULE = ("contents dictionaries with any stated header length, written over nothing or over another file; the strict parser must consume every line; "
        "non-trivial = at least two primary values")
SUBS = [
    Sub("one_dim", case_strategy([1001, 1010, 1020]), check, 2400, 60000, RULE),
    Sub("grids", case_strategy([2010, 3010, 4010]), check, 2000, 50000, RULE),
    Sub("varying", case_strategy([2110, 2160, 2310]), check, 2400, 60000, RULE),
    Sub("rewritten", s_rewritten, c_rewritten, 1800, 45000,
        "files of any legal layout, with ignored leading lines, read, edited in memory and written again, also over themselves; the strict parser must find the edited contents; "
        "non-trivial = at least two primary values"),
]
ASSUMPTIONS = ["Line length (132 characters) is not part of what is checked: the package does not wrap.",
               "Text items are single stripped lines; values are finite numbers."]
