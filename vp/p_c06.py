"""C06: damaged files are rejected, never misread, and never make the reader hang."""
from hypothesis import strategies as st

from . import gen, spec
from .core import Sub, Violation, fmt_short

FIXED_BLOCK = (1001, 1010, 1020, 2010, 3010, 4010)
JUNK = ["abc", "--", "1.2.3", "1,5", "0x10", "1e", "e5", "+-1", "*", "1d3", "12a", "?", "N/A", "1-2", "3:4", ".", "=", "1;2"]
TOPS = ["", "abc", "{n}", "{n} {f} 3", "{n} 9999", "{n} {f}.5", "{f}", "xx {f}", "{n} -{f}", "{n} 5010", "{n} 2011", "{n} 1002", "{n},{f}",
        "{n} f{f}", "{n} 0", "  ", "{n} {f} {f}", "a {n} {f}", "{n} 10010"]


def draws(n):
    return st.lists(st.integers(0, 10**6), min_size=n, max_size=n)


def base(ffis=tuple(gen.FFIS), **kw):
    return dict(na=gen.na_dict(ffis, max_marks=4, max_aux=2, wide=False, **kw),
                layout=st.one_of(st.just([0]), st.lists(st.integers(0, 119), min_size=1, max_size=30)))


def read(path, how=0, ignore=0):
    import nappy
    f = nappy.openNAFile(path, ignore_header_lines=ignore) if ignore else nappy.openNAFile(path)
    try:
        f.readData()
        return f.getNADict()
    finally:
        f.close()


def put(ctx, lines, eol="\n"):
    path = ctx.path("damaged.na")
    with open(path, "w", newline="") as fh:
        fh.write(eol.join(lines) + (eol if lines else ""))
    return path


def refused(ctx, lines, what, ffi):
    path = put(ctx, lines)
    with ctx.must_raise("reading an FFI %s file with %s" % (ffi, what)):
        read(path)


# ------------------------------------------------------------ header cut short, bad first line

def s_header():
    return st.fixed_dictionaries(dict(base(), cut=st.integers(0, 10**6), top=st.sampled_from(TOPS), which=st.sampled_from(["cut", "cut", "top"])))


def c_header(case, ctx):
    na = case["na"]
    H, D = spec.emit_lines(na, spec.Layout(case["layout"]))
    if case["which"] == "cut":
        k = case["cut"] % len(H)
        ctx.note(True, "cut header", "FFI%d" % na["FFI"])
        refused(ctx, H[:k], "only %d of its %d header lines" % (k, len(H)), na["FFI"])
    else:
        top = case["top"].format(n=len(H), f=na["FFI"])
        ctx.note(True, "bad first line", "FFI%d" % na["FFI"])
        refused(ctx, [top] + H[1:] + D, "first line %r" % top, na["FFI"])


# ------------------------------------------------------------ non-numbers

def s_junk():
    return st.fixed_dictionaries(dict(base(), junk=st.sampled_from(JUNK), pick=draws(2), how=st.sampled_from(["replace", "glue", "replace", "glue", "fraction", "negative"]),
                                      frac=st.sampled_from([".5", ".25", ".999", ".7", ".125", "e-9", "5e-1", ".1e0"])))


def numeric_tokens(lines, first=0):
    """(line, token) positions of all numbers, annotations left out."""
    out = []
    for i, line in enumerate(lines):
        if i >= first and isinstance(line, spec.NumLine):
            out += [(i, j) for j in range(len(tokens(line)))]
    return out


def tokens(line):
    s = line.strip()
    if s.endswith("}") and "{" in s:
        s = s[:s.index("{")]
    return s.split()


def c_junk(case, ctx):
    na = case["na"]
    H, D = spec.emit_lines(na, spec.Layout(case["layout"]))
    lines = H + D
    if case["how"] in ("fraction", "negative"):
        # not lines 6 and 7 (volumes, dates), nor the first one (see sub-check header) nor lengths of texts (2160) for negative numbers
        frac = case["how"] == "fraction"
        pos = [(i, j) for i, s in enumerate(lines) if isinstance(s, spec.NumLine) for j in s.ints
               if frac or i >= len(H) or (i > 6 and na["FFI"] != 2160)]
        data = [(i, j) for i, j in pos if i >= len(H)]
        if case["pick"][0] % 2 and data:
            pos = data
        i, j = pos[case["pick"][1] % len(pos)]
        t = tokens(lines[i])
        t[j] = "%d%s" % (float(t[j]), case["frac"]) if frac else "-%d" % max(1, abs(float(t[j])))
        if frac and float(t[j]) == int(float(t[j])):
            return
        ctx.note(True, case["how"] + (" in data" if i >= len(H) else " in header"), "FFI%d" % na["FFI"])
        refused(ctx, lines[:i] + [" ".join(t)] + lines[i + 1:], "%s for an integer on line %d" % (t[j], i + 1), na["FFI"])
        return
    # half of the time in the data section
    pos = numeric_tokens(lines, len(H) if case["pick"][0] % 2 and D else 0)
    i, j = pos[case["pick"][1] % len(pos)]
    t = tokens(lines[i])
    t[j] = case["junk"] if case["how"] == "replace" else t[j] + case["junk"].replace("e5", "e").replace(".", "..")
    if spec.NUM.match(t[j]):
        return
    ctx.note(True, "in data" if i >= len(H) else "in header", "FFI%d" % na["FFI"])
    refused(ctx, lines[:i] + [" ".join(t)] + lines[i + 1:], "the non-number %r on line %d" % (t[j], i + 1), na["FFI"])


# ------------------------------------------------------------ too many, too few items

def s_count():
    return st.fixed_dictionaries(dict(base(), pick=draws(3), what=st.sampled_from(["more", "less"]), tok=st.sampled_from(["7", "0", "-1.5", "3"])))


def c_count(case, ctx):
    na, ffi = case["na"], case["na"]["FFI"]
    H, D = spec.emit_lines(na, spec.Layout(case["layout"]))
    lines = H + D
    in_data = case["pick"][0] % 2 and numeric_tokens(lines, len(H))
    if case["what"] == "more":
        # a whole record on one line, or any data line where every mark has the same number of items
        ok = [i for i, s in enumerate(lines) if isinstance(s, spec.NumLine) and bool(in_data) == (i >= len(H))
              and (s.whole or (i >= len(H) and ffi in FIXED_BLOCK))]
        if not ok:
            return
        i = ok[case["pick"][1] % len(ok)]
        t = tokens(lines[i])
        t.insert(case["pick"][2] % (len(t) + 1), case["tok"])
        what = "a surplus item on line %d" % (i + 1)
    else:
        ok = []
        for i, s in enumerate(lines):
            if not isinstance(s, spec.NumLine) or bool(in_data) != (i >= len(H)):
                continue
            if i >= len(H):
                if ffi in FIXED_BLOCK:
                    ok.append(i)
            elif s.whole and len(tokens(s)) >= 2:
                # reading on into the next line must not happen to fit
                nxt = tokens(lines[i + 1]) if i + 1 < len(lines) else []
                if len(nxt) != 1 or not spec.NUM.match(nxt[0]):
                    ok.append(i)
        if not ok:
            return
        i = ok[case["pick"][1] % len(ok)]
        t = tokens(lines[i])
        del t[case["pick"][2] % len(t)]
        what = "an item missing on line %d" % (i + 1)
    ctx.note(True, case["what"], "in data" if i >= len(H) else "in header", "FFI%d" % ffi)
    refused(ctx, lines[:i] + [" ".join(t)] + lines[i + 1:], what, ffi)


# ------------------------------------------------------------ blank lines, cut data

def s_data():
    return st.fixed_dictionaries(dict(base(min_marks=1), pick=st.integers(0, 10**6), blank=st.sampled_from(["", " ", "\t", "    "]), n=st.integers(1, 3),
                                      which=st.sampled_from(["blank", "cut", "mark"])))


def c_data(case, ctx):
    na, ffi = case["na"], case["na"]["FFI"]
    H, D = spec.emit_lines(na, spec.Layout(case["layout"]))
    if case["which"] == "blank":
        k = case["pick"] % len(D)
        ctx.note(True, "blank line", "FFI%d" % ffi)
        refused(ctx, H + D[:k] + [case["blank"]] * case["n"] + D[k:], "a blank line before line %d of the data" % (k + 1), ffi)
        return
    # lose the last item(s) of the file: the last mark is incomplete
    last = D[-1]
    if case["which"] == "cut" and isinstance(last, spec.NumLine) and len(tokens(last)) > 1:
        lines = H + D[:-1] + [" ".join(tokens(last)[:-1])]
        what = "the last item missing"
    else:
        if not isinstance(last, spec.NumLine):
            return
        one = dict(na, X=na["X"])
        # the last line is part of a mark of several lines
        if ffi == 1001 and last.whole:
            return
        if ffi in (2110, 2310, 2160) and last_mark_is_one_line(na) and last.whole:
            return
        lines = H + D[:-1]
        what = "the last line missing"
    ctx.note(True, what, "FFI%d" % ffi)
    refused(ctx, lines, what, ffi)


def last_mark_is_one_line(na):
    return na["NX"][-1] == 0 and na["FFI"] != 2160


# ------------------------------------------------------------ free mutation: ends promptly, contents of the declared shape

EDITS = ["drop_line", "dup_line", "swap_lines", "cut_text", "set_token", "set_line", "ins_text", "del_text", "drop_token", "dup_token", "join",
         "count", "count", "count"]
NASTY = ["-1", "0", "1000000000", "99999999999999999999", "-5", "2.5", "1e400", "nan", "inf", "7", "2", "1_0", "{", "}", "{x", "\x00", "\ufeff", "é", "'", "\"",
         "\"1\"", "[1]", "%s", "1001", "2310", "\u0663", "\x0c", "\u2028", "__import__('os')"]


def s_free():
    return st.fixed_dictionaries(dict(
        base(), edits=st.lists(st.tuples(st.sampled_from(EDITS), st.integers(0, 10**6), st.integers(0, 10**6), st.sampled_from(NASTY)).map(list),
                               min_size=1, max_size=4), ignore=st.sampled_from([0, 0, 0, 1, 5, 200]), crlf=st.booleans()))


def apply_edits(lines, edits):
    lines = [str(s) for s in lines]
    for op, a, b, t in edits:
        if not lines:
            break
        i = a % len(lines)
        if op == "drop_line":
            del lines[i]
        elif op == "dup_line":
            lines.insert(b % len(lines), lines[i])
        elif op == "swap_lines":
            j = b % len(lines)
            lines[i], lines[j] = lines[j], lines[i]
        elif op == "cut_text":
            text = "\n".join(lines)
            lines = text[:a % (len(text) + 1)].split("\n")
        elif op in ("set_token", "drop_token", "dup_token"):
            w = lines[i].split()
            if w:
                j = b % len(w)
                w[j:j + 1] = {"set_token": [t], "drop_token": [], "dup_token": [w[j], w[j]]}[op]
                lines[i] = " ".join(w)
        elif op == "set_line":
            lines[i] = t
        elif op == "count":
            # another number where the file has a line with one integer: mostly the counts of the header
            ks = [k for k, s in enumerate(lines) if len(tokens(s)) == 1 and spec.INT.match(tokens(s)[0])]
            if ks:
                k = ks[a % len(ks)]
                lines[k] = str([-1, 0, 1, 2, -2, int(tokens(lines[k])[0]) + 1, int(tokens(lines[k])[0]) - 1, 10 ** 9][b % 8])
        elif op == "ins_text":
            j = b % (len(lines[i]) + 1)
            lines[i] = lines[i][:j] + t + lines[i][j:]
        elif op == "del_text":
            j = b % (len(lines[i]) + 1)
            lines[i] = lines[i][:j] + lines[i][j + 1:]
        elif op == "join" and i + 1 < len(lines):
            lines[i:i + 2] = [lines[i] + " " + lines[i + 1]]
    return lines


def c_free(case, ctx):
    H, D = spec.emit_lines(case["na"], spec.Layout(case["layout"]))
    lines = apply_edits(H + D, case["edits"])
    path = put(ctx, lines, "\r\n" if case["crlf"] else "\n")
    d = None
    with ctx.sut("reading a damaged file", allow=(Exception,)):
        try:
            d = read(path, ignore=case["ignore"])
        except Violation:
            raise
        except (MemoryError, RecursionError) as e:
            raise Violation("reading a damaged file ended with %s" % type(e).__name__)
        except Exception:
            pass
    ctx.note(lines != H + D, "rejected" if d is None else "accepted", *{e[0] for e in case["edits"]})
    if d is not None:
        declared_shape(d)


def need(cond, what):
    if not cond:
        raise Violation("accepted, but the contents do not have the declared shape: " + what)


def declared_shape(d):
    ffi, nv = d["FFI"], d["NV"]
    need(ffi in gen.FFIS and d["NIV"] == ffi // 1000, "FFI %r NIV %r" % (ffi, d["NIV"]))
    for k in ("VSCAL", "VMISS", "VNAME"):
        need(len(d[k]) == nv, "NV=%r but %d items in %s" % (nv, len(d[k]), k))
    need(len(d["XNAME"]) == d["NIV"], "XNAME")
    for n, k in (("NSCOML", "SCOM"), ("NNCOML", "NCOM")):
        need(len(d[k]) == d[n], "%s=%r but %d lines" % (n, d[n], len(d[k])))
    need(len(d["DATE"]) == 3 and len(d["RDATE"]) == 3, "dates")
    naux = 0
    if ffi != 1001:
        naux = d["NAUXV"]
        need(naux >= 0, "NAUXV=%r" % naux)
        if naux:
            need(len(d["ANAME"]) == naux and len(d["AMISS"]) == naux, "NAUXV=%r but %d names" % (naux, len(d["ANAME"])))
            need(len(d["ASCAL"]) == naux - d.get("NAUXC", 0), "auxiliary scale factors")
    X, V = d["X"], d["V"]
    grid = ffi in (2010, 3010, 4010)
    marks = X[0] if grid else X
    m = len(marks)
    need(len(V) == nv, "NV=%r but %d arrays" % (nv, len(V)))
    if naux:
        need(len(d["A"]) == naux and all(len(a) == m for a in d["A"]), "auxiliary arrays")
    for v in V:
        if ffi == 1020:
            need(len(v) == m * d["NVPM"], "%d values for %d marks of %r" % (len(v), m, d["NVPM"]))
        else:
            need(len(v) == m, "%d values for %d marks" % (len(v), m))
        if grid:
            need(len(d["NX"]) == d["NIV"] - 1 and len(X) == d["NIV"], "NX")
            for s, n in enumerate(d["NX"]):
                need(len(X[s + 1]) == d["NXDEF"][s], "axis %d" % s)
            for b in v:
                check_block(b, d["NX"])
        elif ffi in (2110, 2160, 2310):
            need(len(d["NX"]) == m, "NX")
            for i in range(m):
                need(len(v[i]) == d["NX"][i], "mark %d has %d values, NX=%r" % (i, len(v[i]), d["NX"][i]))
                need(len(X[i][1]) == (1 if ffi == 2310 else d["NX"][i]), "axis of mark %d" % i)


def check_block(b, nx):
    need(len(b) == nx[0], "block of %d, NX=%r" % (len(b), nx))
    if len(nx) > 1:
        for c in b:
            check_block(c, nx[1:])


R = "independently laid out legal files with one %s; must raise an ordinary exception; every case with damage counts as non-trivial"
SUBS = [
    Sub("header", s_header, c_header, 1600, 40000, R % "header cut or unusable first line"),
    Sub("junk", s_junk, c_junk, 2400, 60000, R % "number replaced by a non-number, or declared integer by a fraction or negative number"),
    Sub("count", s_count, c_count, 1600, 40000, R % "surplus or missing item"),
    Sub("data", s_data, c_data, 1600, 40000, R % "blank line in the data or incomplete last mark"),
    Sub("free", s_free, c_free, 2400, 80000,
        "1-4 random edits of legal files; must end within the CPU limit with an ordinary exception or contents of the declared shape; "
        "non-trivial = the text really differs", cpu=10.0),
]
ASSUMPTIONS = ["An item missing from a data record is claimed to be noticed only where every mark has the same number of items (1001, 1010, 1020, 2010, 3010, 4010).",
               "A stated header length that is wrong is not claimed to be noticed."]
