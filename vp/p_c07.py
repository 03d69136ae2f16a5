"""C07: metadata accessors agree with the recorded header."""
import re

from hypothesis import strategies as st

from . import gen, spec
from .core import Sub, Violation, fmt_short
from .p_c03 import emit

UNIT_NAMES = ["Temperature (K)", "Ozone", "A (b) (c)", "A (b) tail", "()", "(x)", "x ( )", "Potential vorticity (K m**2/(kg s))", "speed (m s-1) at (z=10)",
              "open (only", "close) only", ")(", "((a))", "(a", "a)", "a () (b)", "a (b) ()", "x [m]", "p [hPa] (surface)", "name; description; unit", "a;b;c",
              "level (hPa)   mean", "(K) temperature", "UT (seconds since midnight)", "x(y)z(w)v", "a ))b(( c", "()()(u)", "x (()) y", "x ()) y", "wind  speed (m/s)", "(K)  air   temperature", "no  units   here"]
CALLBACKS = {
    "first_paren": lambda s: (s.split("(")[0], s.split("(", 1)[1].rstrip(") ") if "(" in s else ""),
    "upper": lambda s: (" " + s.upper() + " ", None),
    "constant": lambda s: ("same", "1"),
    "bracket": lambda s: (s.split("[")[0], s.split("[")[1].rstrip("]")) if "[" in s else (s, "none"),
}
PATTERNS = {
    "bracket": r"^(.*)\[(.+?)\](.*)$",
    "semicolon": r"(?P<name>.*)\;\s*(?P<description>.*)\;\s*(?P<unit>.*)",
    "first_paren": r"^([^(]*)\((.+)\)([^)]*)$",
}


def split_default(text):
    """The last '(' that encloses something, up to the first ')' that makes it non-empty."""
    for p in range(len(text) - 1, -1, -1):
        if text[p] == "(":
            q = text.find(")", p + 2)
            if q > 0:
                return text[:p] + " " + text[q + 1:], text[p + 1:q]
    return text, None


def expected_split(text, how, key):
    if how == "callback":
        n, u = CALLBACKS[key](text)
        return n, u
    if how == "pattern":
        m = re.compile(PATTERNS[key]).match(text)
        if m:
            a, u, b = m.groups()
            return a + " " + b, u
        return text, None
    return split_default(text)


def split_in_two(text, how, key):
    """Is there a name on both sides of the units?"""
    if how == "pattern":
        m = re.compile(PATTERNS[key]).match(text)
        return bool(m and m.group(1).strip() and m.group(3).strip())
    for p in range(len(text) - 1, -1, -1):
        if text[p] == "(":
            q = text.find(")", p + 2)
            if q > 0:
                return bool(text[:p].strip() and text[q + 1:].strip())
    return False


def squash(s):
    return " ".join(s.split())


def case_strategy(ffis):
    def s():
        name = st.one_of(st.sampled_from(UNIT_NAMES), st.text(alphabet="ab (()) [];x", max_size=14).map(gen.clean_line),
                         gen.line_text())
        return st.fixed_dictionaries({
            "na": gen.na_dict(ffis, max_aux=4),
            "names": st.lists(name, min_size=40, max_size=40),
            "layout": st.lists(st.integers(0, 119), min_size=1, max_size=30),
            "crlf": st.booleans(), "blank_tail": st.just(0), "final_eol": st.just(True),
            "extra": st.one_of(st.just([]), st.lists(st.sampled_from(["lead", "1 2", "{x}", ""]), min_size=1, max_size=3)),
            "how": st.sampled_from(["default", "default", "callback", "pattern"]),
            "key": st.integers(0, 10), "data": st.booleans(), "early": st.booleans(),
        })
    return s


def check(case, ctx):
    import nappy
    na = dict(case["na"])
    names = list(case["names"])
    for k in ("XNAME", "VNAME", "ANAME"):
        if k in na:
            na[k] = [names.pop() if names else t for t in na[k]]
    text, nhead = emit(dict(case, na=na), spec.Layout(case["layout"]))
    path = ctx.path("in.na")
    with open(path, "w", newline="") as f:
        f.write(text)
    how = case["how"]
    keys = sorted({"callback": CALLBACKS, "pattern": PATTERNS}.get(how, {"": 0}))
    key = keys[case["key"] % len(keys)]
    kw = {"ignore_header_lines": len(case["extra"])} if case["extra"] else {}
    if how == "callback":
        kw["var_and_units_callback"] = CALLBACKS[key]
    with ctx.sut("opening FFI %s" % na["FFI"]):
        g = nappy.openNAFile(path, **kw)
        if how == "pattern":
            default = g.var_and_units_pattern
            for wrong in ("a string", 5, None):
                try:
                    g.var_and_units_pattern = wrong
                except TypeError:
                    pass
                else:
                    raise Violation("a units pattern of %r was accepted" % (wrong,))
            if g.var_and_units_pattern != default:
                raise Violation("a refused units pattern took effect")
            g.var_and_units_pattern = re.compile(PATTERNS[key])
        if case["early"]:
            g.getNADict()
        if case["data"]:
            g.readData()

    def eq(what, got, exp):
        if got != exp:
            raise Violation("%s reports %s, recorded is %s" % (what, fmt_short(got), fmt_short(exp)))

    def name_eq(what, got, text):
        n, u = expected_split(text, how, key)
        if u is not None and how != "callback" and split_in_two(text, how, key):
            eq(what + " name", squash(got[0]), squash(n))
        else:
            eq(what + " name", got[0], n.strip())        # nothing was joined: the name as recorded
        eq(what + " name outer blanks", got[0], got[0].strip())
        eq(what + " units", (got[1] or "").strip(), (u or "").strip())

    ctx.note(any(expected_split(t, how, key)[1] for t in na["VNAME"] + na["XNAME"]), "FFI%d" % na["FFI"], how + " " + key,
             "aux" if na.get("NAUXV") else "", "after readData" if case["data"] else "header only")
    with ctx.sut("accessors of FFI %s" % na["FFI"]):
        # primary variables
        vs = g.getVariables()
        eq("getVariables count", len(vs), na["NV"])
        for i in range(na["NV"]):
            for what, v in (("getVariables", vs[i]), ("getVariable", g.getVariable(i))):
                name_eq("%s[%d]" % (what, i), v, na["VNAME"][i])
                eq("%s[%d] missing value" % (what, i), float(v[2]), float(na["VMISS"][i]))
                eq("%s[%d] scale factor" % (what, i), float(v[3]), float(na["VSCAL"][i]))
            eq("getMissingValue", float(g.getMissingValue(i)), float(na["VMISS"][i]))
            eq("getScaleFactor", float(g.getScaleFactor(i)), float(na["VSCAL"][i]))
        # independent variables
        xs = g.getIndependentVariables()
        eq("getIndependentVariables count", len(xs), na["NIV"])
        for i in range(na["NIV"]):
            name_eq("getIndependentVariables[%d]" % i, xs[i], na["XNAME"][i])
            name_eq("getIndependentVariable(%d)" % i, g.getIndependentVariable(i), na["XNAME"][i])
        # auxiliary variables
        naux = na.get("NAUXV", 0)
        nchar = na.get("NAUXC", 0)
        av = g.getAuxVariables()
        eq("getAuxVariables count", len(av), naux)
        for i in range(naux):
            miss = na["AMISS"][i]
            for what, v in (("getAuxVariables", av[i]), ("getAuxVariable", g.getAuxVariable(i))):
                name_eq("%s[%d]" % (what, i), v, na["ANAME"][i])
                eq("%s[%d] missing value" % (what, i), v[2] if isinstance(v[2], str) else float(v[2]), miss if isinstance(miss, str) else float(miss))
                if i < naux - nchar:
                    eq("%s[%d] scale factor" % (what, i), float(v[3]), float(na["ASCAL"][i]))
                else:
                    eq("%s[%d] scale factor" % (what, i), v[3], None)
            m = g.getAuxMissingValue(i)
            eq("getAuxMissingValue", m if isinstance(m, str) else float(m), miss if isinstance(miss, str) else float(miss))
            if i < naux - nchar:
                eq("getAuxScaleFactor", float(g.getAuxScaleFactor(i)), float(na["ASCAL"][i]))
        # the rest of the header
        eq("getNumHeaderLines", g.getNumHeaderLines(), nhead + len(case["extra"]))
        eq("getFFI", g.getFFI(), na["FFI"])
        eq("getOriginator", g.getOriginator(), na["ONAME"])
        eq("getOrganisation", g.getOrganisation(), na["ORG"])
        eq("getOrg", g.getOrg(), na["ORG"])
        eq("getSource", g.getSource(), na["SNAME"])
        eq("getMission", g.getMission(), na["MNAME"])
        eq("getVolumes", tuple(g.getVolumes()), (na["IVOL"], na["NVOL"]))
        eq("getFileDates", [list(t) for t in g.getFileDates()], [na["DATE"], na["RDATE"]])
        eq("getNormalComments", [c.strip() for c in g.getNormalComments()], [c.strip() for c in na["NCOM"]])
        eq("getSpecialComments", [c.strip() for c in g.getSpecialComments()], [c.strip() for c in na["SCOM"]])
        # item access and contents dictionary
        c = g.getNADict()
        for k, v in c.items():
            eq("item access to %s" % k, g[k], v)
            eq("attribute %s" % k, getattr(g, k), v)
        if not case["data"]:
            spec.diff_contents(na, c, "%.17g", "header of FFI %s" % na["FFI"], skip=("X", "V", "NX") if na["FFI"] in (2110, 2160, 2310) else ("V",))
        g.close()


RULE = ("header texts with and without parenthesised units in generated files, default, callback and pattern splitting; "
        "non-trivial = at least one name has units under the rule in force")
SUBS = [
    Sub("fixed", case_strategy([1001, 1010, 1020, 2010, 3010, 4010]), check, 2400, 60000, RULE),
    Sub("varying", case_strategy([2110, 2160, 2310]), check, 1600, 40000, RULE),
]
ASSUMPTIONS = ["Blanks inside a name whose units stood between two parts of it are compared as one blank."]
