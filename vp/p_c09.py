"""C09: the file format index is identified correctly."""
import copy

from hypothesis import strategies as st

from . import gen, spec
from .core import Sub, Violation, fmt_short
from .p_c01 import n_values


def s_file():
    return st.fixed_dictionaries({
        "ffi": st.one_of(st.sampled_from(gen.FFIS), st.integers(1, 9999)),
        "nlhead": st.integers(0, 200000),
        "lead": st.sampled_from(["", " ", "\t", "    "]), "gap": st.sampled_from([" ", "   ", "\t", " \t "]),
        "tail": st.sampled_from(["", "  ", " {NLHEAD FFI}", "\t{12 1010}", "{a}"]),
        "eol": st.sampled_from(["\n", "\r\n"]),
        "extra": st.lists(st.one_of(st.sampled_from(["", "12 1001", "99 4010", "text {x}", "{"]), st.text(alphabet=gen.TEXT_ALPHABET, max_size=20)), max_size=5),
        "rest": st.one_of(st.none(), st.text(alphabet=gen.TEXT_ALPHABET + "\n\t", max_size=80)),
        "positional": st.booleans(),
    })


def c_file(case, ctx):
    import nappy
    e = case["eol"]
    text = "".join(s + e for s in case["extra"])
    text += case["lead"] + "%d" % case["nlhead"] + case["gap"] + "%d" % case["ffi"] + case["tail"]
    if case["rest"] is not None:
        text += e + case["rest"]
    path = ctx.path("f.na")
    with open(path, "w", newline="") as f:
        f.write(text)
    n = len(case["extra"])
    with ctx.sut("readFFI"):
        if n == 0 and not case["positional"]:
            got = nappy.readFFI(path)
        elif case["positional"]:
            got = nappy.readFFI(path, n)
        else:
            got = nappy.readFFI(path, ignore_header_lines=n)
    ctx.note(n > 0 or case["rest"] is not None, "ignored lines" if n else "", "nothing follows" if case["rest"] is None else "")
    if got != case["ffi"] or not isinstance(got, int):
        raise Violation("readFFI gives %r, the first line records %r" % (got, case["ffi"]))
    if case["ffi"] not in gen.FFIS:
        with ctx.must_raise("opening a file of the unknown format %d" % case["ffi"]):
            nappy.openNAFile(path, ignore_header_lines=n)


def s_choose(ffis):
    return lambda: st.fixed_dictionaries({
        "na": gen.na_dict(ffis, min_marks=1 if ffis[0] in (2110, 2160, 2310) else None),
        "how": st.sampled_from(["choose", "open", "class", "kept"]),
        "junk": st.sampled_from(["none", "A", "NX", "NVPM", "LENX", "none_ffi", "text_ffi"]),
    })


def c_choose(case, ctx):
    import nappy
    na = case["na"]
    ffi = na["FFI"]
    d = copy.deepcopy(na)
    path = ctx.path("out.na")
    if case["how"] == "kept":
        # the index is recorded: left-overs of other formats make no difference
        if case["junk"] == "NVPM":
            d.setdefault("NVPM", 3)
        elif case["junk"] == "LENX":
            d.setdefault("LENX", 7)
        elif case["junk"] == "A":
            d.setdefault("A", [])
            d.setdefault("NAUXV", 0)
        elif case["junk"] == "NX" and d["NIV"] == 1:
            d["NX"] = [3]
        chosen = ffi
        with ctx.sut("opening FFI %d for writing" % ffi):
            f = nappy.openNAFile(path, "w", na_dict=d)
            f.write(float_format="%.17g")
            f.close()
    else:
        del d["FFI"]
        if case["how"] == "choose":
            with ctx.sut("chooseFFI for FFI %d" % ffi):
                chosen = nappy.chooseFFI(d)
        if case["how"] == "class":
            with ctx.sut("chooseFFI and getNAFileClass for FFI %d" % ffi):
                chosen = nappy.chooseFFI(copy.deepcopy(d))
                f = nappy.getNAFileClass(chosen)(path, mode="w", na_dict=dict(d, FFI=chosen))
                f.write(float_format="%.17g")
                f.close()
        else:
            if case["junk"] == "none_ffi":
                d["FFI"] = None
            elif case["junk"] == "text_ffi":
                d["FFI"] = ""
            with ctx.sut("writing a dictionary without FFI (%d)" % ffi):
                f = nappy.openNAFile(path, "w", na_dict=d)
                f.write(float_format="%.17g")
                f.close()
            if case["how"] == "open":
                chosen = d["FFI"]
    with ctx.sut("reading back"):
        got_ffi = nappy.readFFI(path)
        g = nappy.openNAFile(path)
        g.readData()
        got = g.getNADict()
        g.close()
    ctx.note(n_values(na) >= 1, "FFI%d" % ffi, case["how"], "single mark" if sum(1 for _ in (na["X"][0] if na["NIV"] > 1 else na["X"])) == 1 else "")
    if chosen != ffi and not {chosen, ffi} <= {2110, 2310}:
        raise Violation("FFI %r chosen for a dictionary of the structure of FFI %d" % (chosen, ffi))
    if chosen != ffi and not (all(n == 1 for n in na["NX"]) and na["NAUXV"] >= 3 and na["A"][1] == [x[1][0] for x in na["X"]]):
        raise Violation("FFI %r chosen for a dictionary of the structure of FFI %d" % (chosen, ffi))
    if not (got_ffi == got["FFI"] == g.getFFI() == chosen):
        raise Violation("chosen FFI %r, but the file records %r" % (chosen, got_ffi))
    spec.diff_contents(dict(na, FFI=chosen), got, "%.17g", "write/read with identified FFI", skip=("DX",) if chosen != ffi else ())


def s_many():
    return st.fixed_dictionaries({"niv": st.integers(5, 12), "na": gen.na_dict(max_marks=2, wide=False), "open": st.booleans()})


def c_many(case, ctx):
    import nappy
    d = dict(case["na"], NIV=case["niv"])
    del d["FFI"]
    ctx.note(True)
    path = ctx.path("x.na")
    with ctx.must_raise("a dictionary of %d independent variables" % case["niv"]):
        if case["open"]:
            nappy.openNAFile(path, "w", na_dict=d)
        else:
            nappy.chooseFFI(d)


SUBS = [
    Sub("first_line", s_file, c_file, 2400, 60000, "first lines of any index, layout, ignored lines and anything following; non-trivial = something precedes or follows"),
    Sub("choose_fixed", s_choose([1001, 1010, 1020, 2010, 3010, 4010]), c_choose, 2000, 50000,
        "contents dictionaries with or without index, with left-over items when the index is recorded; non-trivial = holds data"),
    Sub("choose_varying", s_choose([2110, 2160, 2310]), c_choose, 1600, 40000, "as above with at least one mark; non-trivial = holds data"),
    Sub("too_many", s_many, c_many, 200, 5000, "more than four independent variables"),
]
ASSUMPTIONS = ["A dictionary that has the structure of both 2110 and 2310 may be identified as either if its contents survive.",
               "2110, 2160 and 2310 dictionaries without any mark have no distinguishing structure and are left out."]
