"""C01: writing then reading a NASA Ames file gives back the same content."""
import copy

from hypothesis import strategies as st

from . import gen, spec
from .core import Sub, Violation

FORMATS = ["%.10g", "%.10g", "%s", "%.17g", "%12.6e", "%8.3f", "%g", "%.3E", "%25.12f", "%+.6g"]
DELIMS = ["    ", " ", "\t", "  ", " \t "]


def case_strategy(ffis):
    return lambda: st.fixed_dictionaries({
        "na": gen.na_dict(ffis),
        "fmt": st.sampled_from(FORMATS),
        "delim": st.sampled_from(DELIMS),
        "use_with": st.booleans(),
    })


def n_values(na):
    return sum(1 for _ in spec.flatten(na["V"]))


def check(case, ctx):
    import nappy
    na = case["na"]
    path = ctx.path("out.na")
    d = copy.deepcopy(na)
    with ctx.sut("writing FFI %s" % na["FFI"]):
        if case["use_with"]:
            with nappy.openNAFile(path, "w", na_dict=d) as f:
                f.write(delimiter=case["delim"], float_format=case["fmt"])
        else:
            f = nappy.openNAFile(path, mode="w", na_dict=d)
            f.write(delimiter=case["delim"], float_format=case["fmt"])
            f.close()
    with ctx.sut("reading back FFI %s" % na["FFI"]):
        g = nappy.openNAFile(path)
        g.readData()
        got = g.getNADict()
        g.close()
    # zero marks: nothing to read, the arrays are empty
    with open(path) as fh:
        lines = fh.read().split("\n")
    if got.get("NLHEAD") != int(lines[0].split()[0]):
        raise Violation("header length read as %r, first line is %r" % (got.get("NLHEAD"), lines[0]))
    ctx.note(n_values(na) >= 2, "FFI%d" % na["FFI"], "fmt" + case["fmt"], "NV>1" if na["NV"] > 1 else "",
             "aux" if na.get("NAUXV") else "", "no marks" if not list(spec.flatten(na["X"])) else "",
             "zero NX" if 0 in (na.get("NX") or []) else "", "implied axis" if na.get("NXDEF", 0) != na.get("NX", 0) and "NXDEF" in na else "")
    spec.diff_contents(na, got, case["fmt"], "write/read FFI %s" % na["FFI"])
    # the object's attributes are the same contents
    for k in na:
        if k in ("NLHEAD", "DX"):
            continue
        if got.get(k) is not None and getattr(g, k) != got[k]:
            raise Violation("attribute %s and contents dictionary differ" % k)


RULE = ("contents dictionaries drawn with free sizes (NV 1-4 or 10-30, 0-40 marks, bounded sizes 0-15, 0-6 auxiliary variables), texts and finite "
        "numbers, delimiter and float format; non-trivial = at least two primary values")
SUBS = [
    Sub("one_dim", case_strategy([1001, 1010, 1020]), check, 2400, 60000, RULE),
    Sub("grids", case_strategy([2010, 3010, 4010]), check, 2000, 50000, RULE),
    Sub("varying", case_strategy([2110, 2160, 2310]), check, 2400, 60000, RULE),
]
ASSUMPTIONS = ["Text items are single stripped lines without enclosing quotes or a trailing {annotation}; values are finite numbers."]
