"""C19: comparison of files reports identity and every difference."""
import contextlib
import copy
import io
import os
import re

from hypothesis import strategies as st

from . import gen, spec
from .core import Sub, Violation, fmt_short

DELIMS = [None, None, ",", "\t", ";", "    ", ", "]


def number(tok):
    try:
        x = float(tok)
    except ValueError:
        return None
    if "_" in tok or x != x or x in (float("inf"), float("-inf")):
        return None
    return x


def tokens(line):
    """The numbers of a purely numeric line, else None."""
    t = line.split()
    if t and all(number(x) is not None for x in t):
        return t
    return None


def reformat(tok, how):
    """Another spelling of the same number."""
    x = float(tok)
    out = [tok, repr(x), "+" + tok if tok[0] not in "+-" else tok, "%.17g" % x, "%.17e" % x, tok + "0" if "." in tok and "e" not in tok.lower() else tok + ".0" if tok.lstrip("+-").isdigit() else tok,
           tok.replace("e", "E"), ("0" + tok) if tok[0].isdigit() else tok][how % 8]
    return out if float(out) == x else tok


def words(line):
    return [w for w in line.split() if number(w) is None]


class Rand:
    def __init__(self, bits):
        self.bits, self.i = bits, 0

    def __call__(self):
        v = self.bits[self.i % len(self.bits)] + self.i // len(self.bits)
        self.i += 1
        return v


def render(lines, delim, other, r, spaced):
    """The lines with the numbers of numeric lines separated by a delimiter."""
    out = []
    for line in lines:
        t = tokens(line)
        if t is None:
            out.append(line)
            continue
        if delim is None:
            sep = [" ", "  ", "    ", "\t"]
            s = t[0]
            for x in t[1:]:
                s += (sep[r() % 4] if spaced else " ") + x
            out.append(s)
        else:
            mixed = spaced and other is None and len(t) > 2 and not delim.isspace() and r() % 4 == 0 and out
            s = t[0]
            for x in t[1:]:
                s += (" " if mixed and r() % 2 else delim) + x
            out.append(s)
    return out


@st.composite
def s_pair(draw, mode):
    na = draw(gen.na_dict(max_marks=3, max_aux=2, wide=False))
    d1 = draw(st.sampled_from(DELIMS))
    d2 = d1 if mode == "strict" and draw(st.booleans()) else draw(st.sampled_from(DELIMS))
    kinds = {"same": [], "differ": ["value", "value", "sign", "add", "drop", "word", "word", "line+", "line-", "comment+", "swap", "format"],
             "strict": ["format"], "approx": ["near", "near", "far", "far", "word", "flip", "zero"]}[mode]
    return {"na": na, "layout": draw(st.lists(st.integers(0, 119), min_size=1, max_size=4)), "d1": d1, "d2": d2,
            "bits": draw(st.lists(st.integers(0, 997), min_size=6, max_size=24)), "mode": mode, "spaced": draw(st.booleans()), "reformat": draw(st.booleans()),
            "edits": draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 9999), st.integers(0, 9999)), min_size=0 if mode != "differ" else 1, max_size=3)) if kinds else [],
            "header": draw(st.sampled_from([True, True, False])), "body": draw(st.sampled_from([True, True, False])),
            "way": draw(st.sampled_from(["comp", "comp", "api", "main"])), "swap": draw(st.booleans()),
            "above": draw(st.sampled_from(["", "", "my.svn", "CSV files", "x~", "a.pyc"]))}


def apply_edit(lines, nhead, kind, a, b):
    """Edits a list of lines; returns (lines, header lines, {"head"/"body" changed}, (old line, new line) or None)."""
    lines = list(lines)
    if kind in ("value", "sign", "add", "drop", "format", "near", "far", "flip", "zero"):
        rows = [i for i, x in enumerate(lines) if tokens(x) and i > 0]
        if not rows:
            return None
        i = rows[a % len(rows)]
        t = tokens(lines[i])
        j = b % len(t)
        x = float(t[j])
        if kind == "value":
            t[j] = repr(x + 1 if abs(x) < 1e12 else x * 1.5)
        elif kind in ("sign", "flip"):
            t[j] = repr(-x)
            if x == 0:
                return None
        elif kind == "add":
            t.insert(j, ["0", "1.5", t[j]][a % 3])
        elif kind == "drop":
            if len(t) == 1:
                return None
            del t[j]
        elif kind == "format":
            new = reformat(t[j], 1 + b % 7)
            if new == t[j]:
                return None
            t[j] = new
        elif kind in ("near", "far"):
            if x == 0 or abs(x) > 1e100 or abs(x) < 1e-100:
                return None
            f = [1.0095, 1.005, 1.0001][b % 3] if kind == "near" else [1.0106, 1.02, 1.5, 10.0][b % 4]
            t[j] = repr(x * f if a % 2 else x / f)
        elif kind == "zero":
            if x != 0:
                return None
            t[j] = ["1e-5", "-0.5", "3"][a % 3]
        old = lines[i]
        lines[i] = " ".join(t)
        if tokens(lines[i]) is None or lines[i] == " ".join(tokens(old)):
            return None
        return lines, nhead, {"head" if i < nhead else "body"}, (i, i)
    if kind == "word":
        rows = [i for i, x in enumerate(lines) if words(x) and i > 0]
        if not rows:
            return None
        i = rows[a % len(rows)]
        w = words(lines[i])[b % len(words(lines[i]))]
        new = w + "x" if b % 2 or len(w) < 2 else w[:-1] + ("y" if w[-1] != "y" else "z")
        k = lines[i].find(w)
        if number(new) is not None:
            return None
        lines[i] = lines[i][:k] + new + lines[i][k + len(w):]
        return lines, nhead, {"head" if i < nhead else "body"}, (i, i)
    if kind == "line+":
        lines.append(["1 2 3", lines[-1] if tokens(lines[-1]) else "5"][a % 2])
        return lines, nhead, {"body"}, None
    if kind == "line-":
        if len(lines) - nhead < 1 or not lines[-1].strip():
            return None
        lines.pop()
        return lines, nhead, {"body"}, None
    if kind == "comment+":
        lines.insert(nhead, "one more comment")
        lines[0] = " ".join(["%d" % (nhead + 1)] + lines[0].split()[1:])
        return lines, nhead + 1, {"head"}, None
    if kind == "swap":
        lo, hi = nhead, len(lines)
        if hi - lo < 2:
            return None
        i = lo + a % (hi - lo - 1)
        if same_value(lines[i], lines[i + 1]):
            return None
        lines[i], lines[i + 1] = lines[i + 1], lines[i]
        return lines, nhead, {"body"}, (i, i)
    raise ValueError(kind)


def same_value(x, y):
    a, b = tokens(x), tokens(y)
    if a and b:
        return [float(t) for t in a] == [float(t) for t in b]
    return x.split() == y.split()


def check(case, ctx):
    import nappy
    import nappy.utils.compare_na as cmp
    na = case["na"]
    text, nhead = spec.emit(na, spec.Layout(case["layout"]))
    base = text.replace("\r\n", "\n").split("\n")
    while base and not base[-1].strip():
        base.pop()
    base = [" ".join(tokens(x)) if tokens(x) else x.strip() for x in base]
    if any("\t" in x or ";" in x and tokens(x) for x in base):
        base = [x.replace("\t", " ") for x in base]
    base[0] = "%d %d" % (nhead, na["FFI"])
    r = Rand(case["bits"])
    lines, n2 = list(base), nhead
    changed, touched, kinds = set(), [], []
    for kind, a, b in case["edits"]:
        got = apply_edit(lines, n2, kind, a, b)
        if got is None:
            continue
        new, m, where, t = got
        if m != n2:
            touched = [(x[0], x[1] + 1 if x[1] >= n2 else x[1], x[2]) for x in touched]
        lines, n2 = new, m
        if kind not in ("format", "near"):
            changed |= where
        elif case["mode"] == "strict":
            changed |= where
        kinds.append(kind)
        if t:
            touched.append((t[0], t[1], kind))
    # did the edits really leave a difference?  (several of them may cancel each other)
    real = set()
    for sect, (p, q) in {"head": ((0, nhead), (0, n2)), "body": ((nhead, len(base)), (n2, len(lines)))}.items():
        la, lb = base[p[0]:p[1]], lines[q[0]:q[1]]
        if len(la) != len(lb) or any(differ(x, y, case["mode"]) for x, y in zip(la, lb)):
            real.add(sect)
        if len(la) == len(lb) and any(differ(x, y, case["mode"]) is None for x, y in zip(la, lb)):
            ctx.note(False, "too close to the threshold")
            return
    if case["reformat"] and case["mode"] in ("same", "differ", "approx"):
        lines = [" ".join(reformat(t, r()) for t in tokens(x)) if tokens(x) and i > 0 else x for i, x in enumerate(lines)]
    one = render(base, case["d1"], case["d2"], r, case["spaced"] and case["mode"] != "strict")
    two = render(lines, case["d2"], case["d1"], r, case["spaced"] and case["mode"] != "strict")
    f1, f2 = ctx.path("first.na"), ctx.path("second.csv" if case["d2"] == "," else "second.na")
    for f, x in ((f1, one), (f2, two)):
        with open(f, "w", newline="") as fh:
            fh.write("\n".join(x) + "\n")
    kw = {}
    d1, d2 = case["d1"], case["d2"]
    if case["swap"]:
        f1, f2, d1, d2 = f2, f1, d2, d1
    if d1 is not None:
        kw["delimiter_1"] = d1
    if d2 is not None:
        kw["delimiter_2"] = d2
    header, body = case["header"], case["body"] or not case["header"]
    if not header:
        kw["header"] = False
    if not body:
        kw["body"] = False
    if case["mode"] == "strict":
        kw["number_clever"] = False
    if case["mode"] == "approx":
        kw["approx_equal"] = True
    want = not ((header and "head" in real) or (body and "body" in real))
    ctx.note(bool(real) or case["mode"] == "same" and one != two or case["mode"] == "approx" and bool(kinds), "FFI%d" % na["FFI"], case["mode"], "same" if want else "different", *kinds)
    before = [open(f, "rb").read() for f in (f1, f2)]
    out = io.StringIO()
    with ctx.sut("comparing two files (%s)" % ", ".join("%s=%r" % t for t in sorted(kw.items()))), contextlib.redirect_stdout(out):
        got = nappy.compareNA(f1, f2, **kw) if case["way"] == "api" else cmp.compNAFiles(f1, f2, **kw)
    said = out.getvalue()
    if [open(f, "rb").read() for f in (f1, f2)] != before:
        raise Violation("comparing files changed them")
    pairs = [(x, y) for x, y in zip(one, two) if x.strip() != y.strip()]
    if bool(got) != want or got is None:
        raise Violation("the comparison (%s) returns %r for files that %s: %s" % (", ".join("%s=%r" % t for t in sorted(kw.items())), got,
                                                                           "are the same" if want else "differ (%s)" % ", ".join(sorted(real)), fmt_short(repr(pairs[:3]), 500)))
    if not want:
        # the lines that differ are displayed
        for sect, (p, q) in {"head": ((0, nhead), (0, n2)), "body": ((nhead, len(base)), (n2, len(lines)))}.items():
            if sect == "head" and not header or sect == "body" and not body:
                continue
            for x, y, u, v in zip(base[p[0]:p[1]], lines[q[0]:q[1]], one[p[0]:p[1]], two[q[0]:q[1]]):
                if differ(x, y, case["mode"]) and not (u.strip() in said and v.strip() in said):
                    raise Violation("the lines %r and %r differ, but are not displayed" % (u, v))
    if case["way"] == "main":
        argv = []
        for k, v in kw.items():
            argv += {"delimiter_1": ["-1", v], "delimiter_2": ["--delimiter-2=" + str(v)], "header": ["-b"], "body": ["--header-only"],
                     "number_clever": ["-n"], "approx_equal": ["-a"]}[k]
        out = io.StringIO()
        with ctx.sut("compare_na %r" % argv), contextlib.redirect_stdout(out):
            cmp.main(argv + [f1, f2])
        if out.getvalue() != said:
            raise Violation("compare_na %r displays something else than the function: %s" % (argv, fmt_short(out.getvalue())))


def differ(x, y, mode):
    """Whether two lines (numbers separated by single spaces) differ in the sense of the mode; None = too close to call."""
    a, b = tokens(x), tokens(y)
    if not a or not b:
        return x.split() != y.split()
    if len(a) != len(b):
        return True
    if mode == "strict":
        return a != b
    out = False
    for s, t in zip(a, b):
        u, v = float(s), float(t)
        if u == v:
            continue
        if mode != "approx":
            return True
        lo, hi = sorted((abs(u), abs(v)))
        if lo > 0 and (u < 0) != (v < 0):
            return True
        if lo == 0:
            if hi < 1e-6:
                return None
            return True
        if hi - lo > 0.0103 * hi:
            return True
        if hi - lo > 0.0097 * lo:
            out = None
    return out


def s_written():
    return st.fixed_dictionaries({"na": gen.na_dict(max_marks=3, max_aux=2, wide=False), "fmts": st.tuples(*[st.sampled_from(["%.17g", "%s", "%r", "%.16e"])] * 2),
                                  "d1": st.sampled_from(["    ", " ", "\t"]), "how": st.sampled_from(["convert", "write"]), "stated": st.booleans()})


def check_written(case, ctx):
    """The documented use: a file against the CSV file made of it."""
    import nappy
    a, b = ctx.path("a.na"), ctx.path("a.csv")
    na = copy.deepcopy(case["na"])
    with ctx.sut("writing a file and its CSV form"):
        f = nappy.openNAFile(a, "w", na_dict=na)
        f.write(delimiter=case["d1"], float_format="%.10g" if case["how"] == "convert" else case["fmts"][0])
        f.close()
        if case["how"] == "convert":
            nappy.convertNAToCSV(a, b)
        else:
            f = nappy.openNAFile(b, "w", na_dict=copy.deepcopy(case["na"]))
            f.write(delimiter=",", float_format=case["fmts"][1])
            f.close()
    kw = {"delimiter_2": ","}
    if case["stated"]:
        kw["delimiter_1"] = case["d1"]
    ctx.note(True, "FFI%d" % na["FFI"], case["how"])
    out = io.StringIO()
    with ctx.sut("comparing a file with its CSV form"), contextlib.redirect_stdout(out):
        got = nappy.compareNA(a, b, **kw)
    if got is not True:
        raise Violation("a file and its CSV form are reported to differ (%r): %s" % (got, fmt_short(out.getvalue(), 600)))


@st.composite
def s_trees(draw):
    """Two directory trees: a list of (directory index, name, lines or None, lines or None), and the directories as (parent, name, sides)."""
    sides = st.sampled_from([(True, True)] * 6 + [(True, False), (False, True)])
    dirs = [(None, "", (True, True))]
    for i in range(draw(st.integers(0, 3))):
        dirs.append((draw(st.integers(0, i)), "%s%d" % (draw(st.sampled_from(["sub", "year ", "d.", "Data"])), i), draw(sides)))
    if draw(st.integers(0, 3)) == 0:
        dirs.append((draw(st.integers(0, len(dirs) - 1)), draw(st.sampled_from([".svn", "oldCSVs"])), (True, True)))
    files = []
    for i in range(draw(st.integers(1, 6))):
        n = draw(st.integers(0, 5))
        name = draw(st.sampled_from(["f%d.na", "F%d.txt", "f%d", "a b%d.na", "x%d.nacsv"])) % i
        if draw(st.integers(0, 7)) == 0:
            name = draw(st.sampled_from(["z%d.pyc", ".z%d", "z%d.na~", "CSV_z%d.na"])) % i
        lines = [["<%d:%d>" % (i, k), draw(st.sampled_from(["", " 1 2 3", " some text", "  -1.5e3\t7", " {x}", " %d done"]))] for k in range(n)]
        edits = []
        if draw(st.integers(0, 2)):
            edits = draw(st.lists(st.tuples(st.integers(0, max(n - 1, 0)), st.sampled_from([" ", "x", " 0", "\t"])), max_size=2)) if n else []
        extra = draw(st.sampled_from([0, 0, 0, 1, 2, -1]))
        files.append({"dir": draw(st.integers(0, len(dirs) - 1)), "name": name, "lines": lines, "edits": edits, "extra": extra, "sides": draw(sides)})
    return {"dirs": dirs, "files": files, "way": draw(st.sampled_from(["compare", "compareNA", "api", "main"])), "swap": draw(st.booleans()),
            "above": draw(st.sampled_from(["", "", "my.svn", "CSV files", "x~", "a.pyc"]))}


EXCLUDED_FILE = re.compile(r".*CSV|.*svn|\.|.*\.pyc$|.*~$")
EXCLUDED_DIR = re.compile(r".*CSV|.*svn")


def check_trees(case, ctx):
    """The comparison of directories: every pair of lines that differ, and every item on one side only."""
    import nappy
    import nappy.utils.compare as plain
    import nappy.utils.compare_na as cmp
    above = ctx.path(case["above"])
    os.makedirs(above, exist_ok=True)
    tops = [os.path.join(above, "tree one"), os.path.join(above, "tree-two")]
    paths, there, hidden = [], [], []
    for parent, name, sides in case["dirs"]:
        if parent is None:
            paths.append(""), there.append((True, True)), hidden.append(False)
        else:
            paths.append(os.path.join(paths[parent], name))
            there.append(tuple(a and b for a, b in zip(there[parent], sides)))
            hidden.append(hidden[parent] or bool(EXCLUDED_DIR.match(name)))
        for top, is_there in zip(tops, there[-1]):
            if is_there:
                os.mkdir(os.path.join(top, paths[-1]) if paths[-1] else top)
    alone, shown, silent, lengths, ignored = [], [], [], [], []
    for (parent, name, sides), path, t, h in list(zip(case["dirs"], paths, there, hidden)):
        if parent is None or hidden[parent] or not all(there[parent]):
            continue
        if t[0] != t[1]:
            alone.append((path, t))
        elif all(t) and h:
            ignored.append(path)
    for f in case["files"]:
        path = os.path.join(paths[f["dir"]], f["name"])
        t = tuple(a and b for a, b in zip(there[f["dir"]], f["sides"]))
        one = ["".join(x) for x in f["lines"]]
        two = list(one)
        for k, add in f["edits"]:
            two[k] += add
        if f["extra"] > 0:
            two += ["<%s+%d>" % (f["name"], k) for k in range(f["extra"])]
        elif f["extra"] < 0 and two:
            two.pop()
        for top, is_there, lines in zip(tops, t, (one, two)):
            if is_there:
                with open(os.path.join(top, path), "w", newline="") as fh:
                    fh.write("".join(x + "\n" for x in lines))
        if not all(there[f["dir"]]) or hidden[f["dir"]]:
            continue
        if t[0] != t[1]:
            alone.append((path, t))
        elif all(t) and EXCLUDED_FILE.match(f["name"]):
            ignored.append(path)
            silent += [x[0] for x in f["lines"]]
        elif all(t):
            for (tag, rest), a, b in zip(f["lines"], one, two):
                if a != b:
                    shown.append((path, a, b))
                else:
                    silent.append(tag)
            if len(one) != len(two):
                lengths.append((path, len(one), len(two)))
    order = [1, 0] if case["swap"] else [0, 1]
    d1, d2 = [tops[k] for k in order]
    ctx.note(bool(shown or alone or lengths), *(["lines differ"] if shown else []), *(["one side only"] if alone else []), *(["lengths differ"] if lengths else []),
             *(["excluded"] if ignored else []), case["way"])
    out = io.StringIO()
    with ctx.sut("comparing two directories"), contextlib.redirect_stdout(out):
        {"compare": plain.compare, "compareNA": cmp.compareNA, "api": nappy.compareNA, "main": lambda a, b: cmp.main([a, b])}[case["way"]](d1, d2)
    said = out.getvalue()
    for path, a, b in shown:
        a, b = (b, a) if case["swap"] else (a, b)
        if ">>> %s\n" % a not in said or "<<< %s\n" % b not in said:
            raise Violation("the lines %r and %r of %r differ, but are not displayed: %s" % (a, b, path, fmt_short(said, 600)))
    for tag in silent:
        if tag in said:
            raise Violation("the line %r is the same in both files (or in excluded ones), but is displayed: %s" % (tag, fmt_short(said, 600)))
    for path, t in alone:
        if os.path.join(tops[0], path) not in said and os.path.join(tops[1], path) not in said:
            raise Violation("%r is only found in the %s directory, which is not reported: %s" % (path, "first" if t[order[0]] else "second", fmt_short(said, 600)))
    for path, a, b in lengths:
        for top, n in ((tops[0], a), (tops[1], b)):
            if not re.search(re.escape(os.path.join(top, path)) + r"\D+%d\b" % n, said):
                raise Violation("the files %r have %d and %d lines, which is not reported: %s" % (path, a, b, fmt_short(said, 600)))
    every = {os.path.join(p, f["name"]) for f in case["files"] for p in [paths[f["dir"]]]} | set(p for p in paths if p)
    for path in every - {p for p, t in alone} - set(ignored):
        # nothing is called missing that is there on both sides
        if re.search("cannot find[^\n]*%s$" % re.escape(path), said, re.M | re.I):
            raise Violation("%r is reported missing, but it is not missing: %s" % (path, fmt_short(said, 600)))


SUBS = [
    Sub("same", lambda: s_pair("same"), check, 800, 15000, "files rewritten with other number formats, spacing and delimiters; non-trivial = the texts differ"),
    Sub("differ", lambda: s_pair("differ"), check, 2000, 30000, "files with one to three edits of values, items, words or lines; non-trivial = a real difference"),
    Sub("strict", lambda: s_pair("strict"), check, 400, 10000, "number formats edited, strict mode; non-trivial = a real difference"),
    Sub("approx", lambda: s_pair("approx"), check, 600, 15000, "numbers edited by factors on both sides of 1 %; non-trivial = something was edited"),
    Sub("written", s_written, check_written, 400, 10000, "contents written with two delimiters and formats, or converted to CSV; non-trivial = all"),
    Sub("directories", s_trees, check_trees, 600, 10000, "pairs of directory trees with edited, added and missing files; non-trivial = any difference"),
]
ASSUMPTIONS = ["In directories, a name stands for a file on both sides or for a directory on both sides; names the tool documents as excluded are skipped.",
               "Two files correspond line by line; the same values wrapped at other places count as different.", "Ratios between 0.97 % and 1.03 %, and numbers below 1e-6 against zero, are not judged.",
               "Not-a-number, infinities and digits with underscores are left out."]
