"""C23: a contents dictionary translated to another format holds the same data (FFI 2010 to 2110)."""
import copy

from hypothesis import strategies as st

from . import gen, spec
from .core import Sub, Violation, fmt_short
from .p_c01 import FORMATS, DELIMS


def s_translate():
    return st.fixed_dictionaries({
        "na": gen.na_dict([2010], wide=True),
        "source": st.sampled_from(["dictionary", "dictionary", "file", "bare"]),
        "fmt": st.sampled_from(FORMATS),
        "delim": st.sampled_from(DELIMS),
        "layout": st.lists(st.integers(0, 119), min_size=1, max_size=20),
    })


def expected(na):
    """The contents of the FFI 2110 file; the values of the bounded axis are those that the FFI 2010 file records or implies."""
    e = {k: copy.deepcopy(v) for k, v in na.items() if k not in ("NXDEF", "X", "NX", "A", "ANAME", "AMISS", "ASCAL", "NAUXV", "NLHEAD")}
    n, m = na["NX"][0], len(na["X"][0])
    xs = list(na["X"][1])[:na["NXDEF"][0]]
    if na["NXDEF"][0] != n:
        xs = [xs[0] + i * na["DX"][1] for i in range(n)]
    e.update(FFI=2110, NAUXV=na["NAUXV"] + 1, NX=[n] * m, X=[[x, xs] for x in na["X"][0]])
    return e


def alter(value):
    """Changes each list in the contents in place."""
    if isinstance(value, list):
        for i, x in enumerate(value):
            alter(x)
            if not isinstance(x, list):
                value[i] = "altered"
        value.append("added")


def check(case, ctx):
    import nappy
    import nappy.utils.ffi_translator as T
    na, fmt = case["na"], case["fmt"]
    given = copy.deepcopy(na)
    if case["source"] == "file":
        path = ctx.path("in.na")
        text, _ = spec.emit(na, spec.Layout(case["layout"]))
        with open(path, "w", newline="") as fh:
            fh.write(text)
        with ctx.sut("reading FFI 2010"):
            f = nappy.openNAFile(path)
            f.readData()
            given = f.getNADict()
            f.close()
    elif case["source"] == "bare" and not na["NAUXV"]:
        # without auxiliary variables their items may be left out
        for k in ("A", "ANAME", "ASCAL", "AMISS"):
            given.pop(k, None)
    before = repr(sorted(given.items()))
    with ctx.sut("translate2010To2110"):
        out = T.translate2010To2110(given)
    if repr(sorted(given.items())) != before:
        raise Violation("the translation changed the dictionary it was given")
    ctx.note(len(na["X"][0]) > 0, case["source"], "implied axis" if na["NXDEF"] != na["NX"] else "", "aux" if na["NAUXV"] else "",
             "several marks" if len(na["X"][0]) > 1 else "")
    path = ctx.path("out.na")
    with ctx.sut("writing the translated contents"):
        f = nappy.openNAFile(path, "w", na_dict=out)
        f.write(delimiter=case["delim"], float_format=fmt)
        f.close()
    if repr(sorted(given.items())) != before:
        raise Violation("the translated contents share items with the dictionary they come from")
    with open(path, newline="") as fh:
        got = spec.parse(fh.read())
    exp = expected(na)
    if got["FFI"] != 2110:
        raise Violation("translated to FFI %s" % got["FFI"])
    # the first auxiliary variable is the number of values; the others are those of before
    A, rv = got["A"], spec.fmt_value(fmt)
    if [float(x) for x in A[0]] != [rv(n) for n in exp["NX"]] or not got["ANAME"][0] or got["ASCAL"][0] != 1 or got["AMISS"][0] in exp["NX"]:
        raise Violation("the first auxiliary variable is %s" % fmt_short((got["ANAME"][0], got["ASCAL"][0], got["AMISS"][0], A[0])))
    rest = dict(got, NAUXV=got["NAUXV"] - 1, A=A[1:], **{k: got[k][1:] for k in ("ANAME", "ASCAL", "AMISS")})
    spec.diff_contents(dict(exp, NAUXV=na["NAUXV"], **{k: na[k] for k in ("A", "ANAME", "ASCAL", "AMISS") if k in na}), rest, fmt, "translated contents")


def check_owned(case, ctx):
    """The translated contents are the caller's: what is done to them does not reach the dictionary given, and the other way round."""
    import nappy.utils.ffi_translator as T
    given = copy.deepcopy(case["na"])
    before = repr(sorted(given.items()))
    with ctx.sut("translate2010To2110"):
        out = T.translate2010To2110(given)
    after = repr(sorted(out.items()))
    ctx.note(len(given["X"][0]) > 0, "given altered" if case["given"] else "translated altered", "aux" if given["NAUXV"] else "")
    altered, other, then = (given, out, after) if case["given"] else (out, given, before)
    for k in altered:
        alter(altered[k])
    if repr(sorted(other.items())) != then:
        raise Violation("changes to the %s contents appear in %s" % (("given", "the translated ones") if case["given"] else ("translated", "those given")))


SUBS = [Sub("owned", lambda: st.fixed_dictionaries({"na": gen.na_dict([2010], wide=True), "given": st.booleans()}), check_owned, 800, 10000,
            "FFI 2010 contents, every list of them or of their translation altered in place; non-trivial = at least one mark"), Sub("translate", s_translate, check, 2400, 60000,
            "FFI 2010 contents from a dictionary or from a file of any layout; non-trivial = at least one mark")]
ASSUMPTIONS = ["Values implied by first value and increment are those of their sum in double precision."]
