"""C04: reading and writing have no side effects and are repeatable (generated operation histories)."""
import copy

from hypothesis import strategies as st

from . import gen, spec
from .core import Sub, Violation, fmt_short
from .p_c01 import FORMATS, DELIMS

OPTS = [("    ", "%.10g", False, False), ("\t", "%.17g", False, False), (",", "%s", False, False), (",", "%.10g", True, False),
        ("    ", "%g", True, False), ("    ", "%.10g", False, True)]
OPS = ["write", "write", "write", "read", "reread", "rewrite", "contents", "convert_csv", "compare_contents", "hand_over", "hand_over", "accessors"]
GETTERS = ["getVariables", "getAuxVariables", "getIndependentVariables", "getFFI", "getVolumes", "getFileDates", "getNormalComments",
           "getSpecialComments", "getNumHeaderLines", "getOriginator", "getOrg", "getSource", "getMission"]


def case_strategy(ffis):
    def s():
        d = gen.na_dict(ffis, max_marks=4, max_aux=2, with_ffi=True, wide=False)
        op = st.tuples(st.sampled_from(OPS), st.integers(0, 2), st.integers(0, len(OPTS) - 1)).map(list)
        return st.fixed_dictionaries({
            "nas": st.lists(d, min_size=1, max_size=3),
            "drop_ffi": st.booleans(),
            "ops": st.lists(op, min_size=5, max_size=14),
        })
    return s


def frozen(d):
    """Value, type and order exact image of a contents dictionary."""
    return sorted((k, repr(v)) for k, v in d.items())


def changed(before, after):
    b, a = dict(before), dict(after)
    for k in sorted(set(b) | set(a)):
        if b.get(k) != a.get(k):
            return "%s was %s and is now %s" % (k, fmt_short(b.get(k), 200), fmt_short(a.get(k), 200))
    return None


def spoil(d, how):
    """Changes to the items of a dictionary, at the top or deep inside."""
    def deep(v):
        if isinstance(v, list):
            if v and isinstance(v[0], list):
                for w in v:
                    deep(w)
            elif v:
                v[-1] = "spoilt" if isinstance(v[-1], str) else 77
    if how % 3 == 0:
        for k in list(d):
            deep(d[k])
    elif how % 3 == 1:
        for k in list(d):
            if isinstance(d[k], list):
                d[k].append(d[k][-1] if d[k] else "x")
    else:
        for k in list(d):
            d[k] = None


def check(case, ctx):
    import nappy
    nas = [copy.deepcopy(d) for d in case["nas"]]
    exact = [spec.structure_is_unambiguous(d) for d in nas]
    for d, ok in zip(nas, exact):
        if case["drop_ffi"] and ok:
            del d["FFI"]
    snap = [frozen(d) for d in nas]           # what each dictionary must stay
    outputs = {}                              # (kind, i, options) -> bytes
    readers = {}                              # i -> (object, contents dict, frozen)
    reference = {}                            # i -> frozen contents of the plain file
    k = [0]

    def write(d, opt):
        k[0] += 1
        p = ctx.path("f%d.na" % k[0])
        delim, fmt, annot, noh = opt
        with ctx.sut("writing"):
            f = nappy.openNAFile(p, "w", na_dict=d)
            f.write(delimiter=delim, float_format=fmt, annotation=annot, no_header=noh)
            f.close()
        with open(p, "rb") as fh:
            return p, fh.read()

    def same(key, data):
        if key in outputs and outputs[key] != data:
            a, b = outputs[key].decode(errors="replace").split("\n"), data.decode(errors="replace").split("\n")
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    raise Violation("writing the same contents again gives another file: line %d was %r, now %r" % (i + 1, x, y))
            raise Violation("writing the same contents again gives a file of another length")
        outputs[key] = data

    plain = {}
    nwrites = nreads = 0
    for op, i, o in case["ops"]:
        i %= len(nas)
        opt = OPTS[o]
        if op == "write":
            _, data = write(nas[i], opt)
            same(("w", i, o), data)
            nwrites += 1
        elif op == "hand_over":
            # another dictionary for an open writer: taken as it is at that moment
            k[0] += 1
            p = ctx.path("f%d.na" % k[0])
            c = copy.deepcopy(dict(case["nas"][i]))
            other = copy.deepcopy(dict(case["nas"][i], ONAME="replaced"))
            delim, fmt, annot, noh = opt
            with ctx.sut("setNADict"):
                f = nappy.openNAFile(p, "w", na_dict=other)
                f.setNADict(c)
            spoil(c, o)
            with ctx.sut("writing what setNADict was given"):
                f.write(delimiter=delim, float_format=fmt, annotation=annot, no_header=noh)
                f.close()
            with open(p, "rb") as fh:
                same(("w", i, o), fh.read())
            nwrites += 1
        else:
            if i not in plain:
                p, data = write(nas[i], OPTS[0])
                same(("w", i, 0), data)
                plain[i] = p
            if op == "read":
                with ctx.sut("reading"):
                    g = nappy.openNAFile(plain[i])
                    g.readData()
                    c = g.getNADict()
                readers[i] = (g, c, frozen(c))
                nreads += 1
            elif op == "reread" and i in readers:
                g = readers[i][0]
                with ctx.sut("reading the data section again"):
                    g.readData()
                    c = g.getNADict()
                w = changed(readers[i][2], frozen(c))
                if w:
                    raise Violation("reading the data section again changed the contents: " + w)
                nreads += 1
            elif op == "contents" and i in readers:
                with ctx.sut("getNADict"):
                    c1 = readers[i][0].getNADict()
                w = changed(readers[i][2], frozen(c1))
                if w:
                    raise Violation("contents dictionary differs from the one before: " + w)
            elif op == "accessors" and i in readers:
                with ctx.sut("accessors"):
                    for name in GETTERS:
                        got = getattr(readers[i][0], name)()
                        if isinstance(got, list) and name not in ("getNormalComments", "getSpecialComments"):
                            got.append("mine")
            elif op == "rewrite" and i in readers:
                _, data = write(readers[i][1], opt)
                same(("r", i, o), data)
                nwrites += 1
            elif op == "convert_csv":
                p = ctx.path("c%d.csv" % k[0])
                with ctx.sut("convertNAToCSV"):
                    nappy.convertNAToCSV(plain[i], p)
                with open(p, "rb") as fh:
                    same(("csv", i), fh.read())
            elif op == "compare_contents":
                with ctx.sut("reading through a second object"):
                    g = nappy.openNAFile(plain[i])
                    g.readData()
                    c = frozen(g.getNADict())
                    g.close()
                if i in reference:
                    w = changed(reference[i], c)
                    if w:
                        raise Violation("the same file read again gives other contents: " + w)
                reference[i] = c
                nreads += 1
            with open(plain[i], "rb") as fh:
                if fh.read() != outputs[("w", i, 0)]:
                    raise Violation("%s changed its input file" % op)
        # invariants over the history
        for j, d in enumerate(nas):
            now = frozen(d)
            if case["drop_ffi"] and exact[j] and "FFI" in d:
                if d["FFI"] != case["nas"][j]["FFI"]:
                    raise Violation("format index filled in as %r instead of %r" % (d["FFI"], case["nas"][j]["FFI"]))
                now = [kv for kv in now if kv[0] != "FFI"]
            w = changed(snap[j], now)
            if w:
                raise Violation("%s changed a contents dictionary: %s" % (op, w))
        for j, (g, c, fz) in readers.items():
            w = changed(fz, frozen(c))
            if w:
                raise Violation("%s changed contents read before: %s" % (op, w))
            w = changed(fz, frozen({q: g[q] for q in c}))
            if w:
                raise Violation("%s changed the items of a file object read before: %s" % (op, w))
    ctx.note(nwrites >= 2 and nreads >= 1, *["FFI%d" % d["FFI"] for d in case["nas"]], "several dicts" if len(nas) > 1 else "",
             "rewrites" if any(o[0] == "rewrite" for o in case["ops"]) else "")


RULE = ("histories of 5-14 operations (write, hand over to an open writer and spoil, read, read again, write what was read, convert, list contents, accessors) over 1-3 contents dictionaries; "
        "non-trivial = at least two writes and one read")
SUBS = [
    Sub("one_dim", case_strategy([1001, 1010, 1020]), check, 1200, 30000, RULE),
    Sub("grids", case_strategy([2010, 3010, 4010]), check, 1200, 30000, RULE),
    Sub("varying", case_strategy([2110, 2160, 2310]), check, 1200, 30000, RULE),
    Sub("mixed", case_strategy(gen.FFIS), check, 1200, 30000, RULE),
]
ASSUMPTIONS = ["The NLHEAD item of a dictionary is compared too: writing may not update it in place."]
