"""C03: any legal layout of a file is read to the same content."""
import re

from hypothesis import strategies as st

from . import gen, spec
from .core import Sub, Violation, fmt_short
from .p_c01 import n_values


def case_strategy(ffis):
    return lambda: st.fixed_dictionaries({
        "na": gen.na_dict(ffis),
        "layout": st.lists(st.integers(0, 119), min_size=1, max_size=60),
        "crlf": st.booleans(),
        "blank_tail": st.sampled_from([0, 0, 1, 3]),
        "final_eol": st.booleans(),
        "extra": st.one_of(st.just([]), st.lists(st.one_of(
            st.text(alphabet=gen.TEXT_ALPHABET, max_size=30).map(str.strip), st.sampled_from(["", "20 1001", "12 2010 {x}", "1 2 3"])),
            min_size=1, max_size=4)),
        "how": st.sampled_from(["readData", "getNADict", "readFile"]),
    })


def emit(case, lay):
    return spec.emit(case["na"], lay, extra_head=case["extra"], eol="\r\n" if case["crlf"] else "\n",
                     trailing_blank=case["blank_tail"], final_eol=case["final_eol"])


ANNOTATED = re.compile(r"^(.+)\{[^{}]*\}\s*$")


def reported(rep, line):
    """Whether a leading line is reported as it is, but for surrounding blanks and a trailing {annotation}."""
    rep, forms = str(rep).strip(), [line.strip()]
    while ANNOTATED.match(forms[-1]):
        forms.append(ANNOTATED.match(forms[-1]).group(1).strip())
    return rep in forms


def check(case, ctx):
    import nappy
    na = case["na"]
    lay = spec.Layout(case["layout"])
    text, nhead = emit(case, lay)
    path = ctx.path("in.na")
    with open(path, "w", newline="") as f:
        f.write(text)
    extra = case["extra"]
    with ctx.sut("reading FFI %s" % na["FFI"]):
        g = nappy.openNAFile(path, ignore_header_lines=len(extra)) if extra else nappy.openNAFile(path)
        if case["how"] == "readFile":
            g.readData()
        elif case["how"] == "readData":
            g.readData()
            g.readData()
        else:
            g.readData()
        got = g.getNADict()
        g.close()
    ctx.note(n_values(na) >= 2 and bool(lay.used), "FFI%d" % na["FFI"], *(["crlf"] if case["crlf"] else []), *sorted(lay.used),
             "ignored lines" if extra else "", "blank tail" if case["blank_tail"] else "", "no final newline" if not case["final_eol"] else "")
    if extra:
        rep = getattr(g, "ignored_header_lines", None)
        if rep is None or len(rep) != len(extra) or not all(map(reported, rep, extra)):
            raise Violation("ignored header lines reported as %s instead of %s" % (fmt_short(rep), fmt_short(extra)))
    spec.diff_contents(na, got, "%.17g", "legal layout of FFI %s" % na["FFI"])


RULE = ("contents dictionaries emitted by an independent writer with random wrapping, blanks, number notation, annotations, line ends, trailing blank "
        "lines and ignored leading lines; non-trivial = at least two primary values and a layout other than the plain one")
SUBS = [
    Sub("one_dim", case_strategy([1001, 1010, 1020]), check, 2400, 60000, RULE),
    Sub("grids", case_strategy([2010, 3010, 4010]), check, 2000, 50000, RULE),
    Sub("varying", case_strategy([2110, 2160, 2310]), check, 2400, 60000, RULE),
]
ASSUMPTIONS = ["Text items are single stripped lines without enclosing quotes or a trailing {annotation} of their own."]
