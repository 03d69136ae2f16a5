"""An independent implementation of the file layouts of Gaines and Hipskind (1998),
"Format Specification for Data Exchange" (doc/nasa_ames_format_specification_1998.html):
a strict parser and an emitter with free layout.  Written from the specification, not from nappy.
"""
import re

from .core import Violation

NUM = re.compile(r"^[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$")
INT = re.compile(r"^[+-]?\d+$")


class SpecError(Violation):
    pass


class Lines:
    def __init__(self, lines, delimiter=None):
        self.lines, self.i, self.delim = lines, 0, delimiter

    def next(self, what):
        if self.i >= len(self.lines):
            raise SpecError("file ends where %s is expected (line %d)" % (what, self.i + 1))
        line = self.lines[self.i]
        self.i += 1
        return line

    def split(self, line):
        if self.delim is None:
            return line.split()
        return [t.strip() for t in line.split(self.delim)] if line.strip() else []

    def items(self, n, what, integer=False):
        """One logical record of n numbers: starts on a new line, may continue on further lines."""
        got = []
        start = self.i
        while len(got) < n:
            t = self.split(self.next(what))
            if not t:
                raise SpecError("blank line %d inside record %s" % (self.i, what))
            got += t
        if len(got) != n:
            raise SpecError("record %s at line %d holds %d items instead of %d: %r" % (what, start + 1, len(got), n, got[:12]))
        for t in got:
            if not (INT if integer else NUM).match(t):
                raise SpecError("%r is not a%s number in record %s at line %d" % (t, "n integer" if integer else "", what, start + 1))
        return [int(t) if integer else float(t) for t in got]

    def text(self, what):
        return self.next(what).strip()


def parse(text, delimiter=None, header_delims=False):
    """Strictly parses a NASA Ames file; returns the contents in nappy's in-memory conventions.

    delimiter None: white space separated.  Otherwise items are separated by that string
    (the non-standard variant nappy writes for CSV; the date line groups keep blanks there).
    """
    if text and not text.endswith("\n"):
        raise SpecError("the last line is not terminated")
    lines = text.split("\n")[:-1]
    L = Lines(lines, delimiter)
    d = {}
    d["NLHEAD"], ffi = L.items(2, "NLHEAD FFI", True)
    d["FFI"] = ffi
    if ffi not in (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010):
        raise SpecError("unknown FFI %s" % ffi)
    niv = d["NIV"] = ffi // 1000
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        d[k] = L.text(k)
    d["IVOL"], d["NVOL"] = L.items(2, "IVOL NVOL", True)
    line = L.next("DATE RDATE")
    toks = line.replace(delimiter, " ").split() if delimiter else line.split()
    if len(toks) != 6 or not all(INT.match(t) for t in toks):
        raise SpecError("DATE RDATE line is %r" % line)
    toks = [int(t) for t in toks]
    d["DATE"], d["RDATE"] = toks[:3], toks[3:]

    ndx = {2160: 1, 2310: 1}.get(ffi, niv)
    dx = L.items(ndx, "DX")
    d["DX"] = dx[::-1]
    if ffi == 1020:
        d["NVPM"] = L.items(1, "NVPM", True)[0]
    if ffi in (2010, 3010, 4010):
        nx = L.items(niv - 1, "NX", True)
        nxdef = L.items(niv - 1, "NXDEF", True)
        axes = [L.items(nxdef[s], "X(i,%d)" % (s + 1)) for s in range(niv - 1)]
        d["NX"], d["NXDEF"] = nx[::-1], nxdef[::-1]
    if ffi == 2160:
        d["LENX"] = L.items(1, "LENX", True)[0]
    d["XNAME"] = [L.text("XNAME(%d)" % (s + 1)) for s in range(niv)][::-1]
    nv = d["NV"] = L.items(1, "NV", True)[0]
    d["VSCAL"] = L.items(nv, "VSCAL")
    d["VMISS"] = L.items(nv, "VMISS")
    d["VNAME"] = [L.text("VNAME") for _ in range(nv)]
    naux = nauxc = 0
    if ffi != 1001:
        naux = d["NAUXV"] = L.items(1, "NAUXV", True)[0]
        if ffi == 2160:
            nauxc = d["NAUXC"] = L.items(1, "NAUXC", True)[0]
        if naux > 0:
            nr = naux - nauxc
            d["ASCAL"] = L.items(nr, "ASCAL") if nr else []
            d["AMISS"] = L.items(nr, "AMISS") if nr else []
            if ffi == 2160:
                d["LENA"] = [None] * nr + (L.items(nauxc, "LENA", True) if nauxc else [])
                d["AMISS"] = d["AMISS"] + [L.text("AMISS") for _ in range(nauxc)]
            d["ANAME"] = [L.text("ANAME") for _ in range(naux)]
    d["NSCOML"] = L.items(1, "NSCOML", True)[0]
    d["SCOM"] = [L.text("SCOM") for _ in range(d["NSCOML"])]
    d["NNCOML"] = L.items(1, "NNCOML", True)[0]
    d["NCOM"] = [L.text("NCOM") for _ in range(d["NNCOML"])]
    if L.i != d["NLHEAD"]:
        raise SpecError("NLHEAD is %d but the header has %d lines" % (d["NLHEAD"], L.i))

    # data section
    A = [[] for _ in range(naux)]
    V = [[] for _ in range(nv)]
    if niv == 1:
        X = []
    elif ffi in (2010, 3010, 4010):
        X = [[]] + axes[::-1]
    else:
        X = []
        d["NX"] = []
    while L.i < len(lines):
        if ffi == 1001:
            r = L.items(1 + nv, "X V")
            X.append(r[0])
            for n in range(nv):
                V[n].append(r[1 + n])
            continue
        if ffi == 2160:
            x = L.text("X(m,2)")
            r = L.items(naux - nauxc, "NX A")
            chars = [L.text("A") for _ in range(nauxc)]
            r = r + chars
        else:
            r = L.items(1 + naux, "X A")
            x, r = r[0], r[1:]
        for a in range(naux):
            A[a].append(r[a])
        if ffi == 1010:
            X.append(x)
            v = L.items(nv, "V")
            for n in range(nv):
                V[n].append(v[n])
        elif ffi == 1020:
            X.append(x)
            for n in range(nv):
                V[n] += L.items(d["NVPM"], "V(i,%d)" % (n + 1))
        elif ffi in (2010, 3010, 4010):
            X[0].append(x)
            for n in range(nv):
                V[n].append(_read_block(L, d["NX"], "V(%d)" % (n + 1)))
        else:
            k = r[0]
            if k != int(k) or k < 0:
                raise SpecError("NX(m) is %r" % k)
            k = int(k)
            d["NX"].append(k)
            if ffi == 2310:
                X.append([x, [r[1]]])
                for n in range(nv):
                    V[n].append(L.items(k, "V(i,m,%d)" % (n + 1)) if k else [])
            else:
                xs, vs = [], [[] for _ in range(nv)]
                for _ in range(k):
                    q = L.items(1 + nv, "X(i,m) V")
                    xs.append(q[0])
                    for n in range(nv):
                        vs[n].append(q[1 + n])
                X.append([x, xs])
                for n in range(nv):
                    V[n].append(vs[n])
    d["X"], d["V"] = X, V
    if ffi != 1001:
        d["A"] = A
    return d


def _read_block(L, nx, what):
    """Bounded dimensions, slowest first in nx: one record per row of the fastest dimension."""
    if len(nx) == 1:
        return L.items(nx[0], what)
    return [_read_block(L, nx[1:], what) for _ in range(nx[0])]


# ---------------------------------------------------------------- emitter

class NumLine(str):
    """A line of a numeric record; whole: the record is this line alone; ints: positions of its items declared as integers."""
    whole = True
    ints = ()


class IntTok(str):
    """An item declared as an integer."""


NOTES = [" {a note}", "      {NLHEAD  FFI}", "{1 2 3}", "\t{VSCAL(n), n=1,NV}  ", " {x [hPa]}", "{}", " {it's 5% \u00b5g/m^3: \"a\"; b=c, d}",
         "   {(m s-1) <-> #1 @ $2 & *~|?!`}\t", " { }", "  {-1.5e3}"]


class Layout:
    """Free layout decisions, taken from a list of small integers (0 = the plain choice)."""

    def __init__(self, decisions, wrap=True, annotate=True, notation=True):
        self.d, self.i = decisions or [0], 0
        self.wrap, self.annotate, self.notation = wrap, annotate, notation
        self.used = set()

    def take(self, n):
        v = self.d[self.i % len(self.d)] % n
        self.i += 1
        return v

    def num(self, v):
        """A token whose value is exactly v."""
        if not self.notation:
            return repr(v)
        k = self.take(8)
        if isinstance(v, int):
            s = "%d" % v
            if k == 1 and v >= 0:
                s = "+" + s
            elif k == 2 and v >= 0:
                s = "00" + s
            elif k == 3:
                s = s + "."
                self.used.add("notation")
            return s
        s = repr(v)
        if k == 1:
            s = "%.17e" % v
        elif k == 2:
            s = ("%.17E" % v)
        elif k == 3 and not s.startswith("-"):
            s = "+" + s
        elif k == 4 and s.startswith("0.") and len(s) > 2 and NUM.match(s[1:]):
            s = s[1:]
        elif k == 5 and s.endswith(".0"):
            s = s[:-1]
        elif k == 6 and "e" not in s:
            s = s + "000"
        if k:
            self.used.add("notation")
        assert float(s) == v, (s, v)
        return s

    def integer(self, v):
        k = self.take(6)
        s = "%d" % v
        if self.notation and v >= 0:
            if k == 1:
                s = "0" + s
            elif k == 2:
                s = "+" + s
        return IntTok(s)

    def gap(self):
        k = self.take(6)
        if k:
            self.used.add("blanks")
        return [" ", "   ", "\t", " \t ", "         ", "  "][k]

    def lead(self):
        return ["", "", " ", "   ", "\t", ""][self.take(6)]

    def trail(self):
        return ["", "", " ", "   ", "\t", ""][self.take(6)]

    def note(self, header):
        if header and self.annotate and self.take(5) == 1:
            self.used.add("annotated")
            return NOTES[self.take(len(NOTES))]
        return ""

    def record(self, tokens, header=False, wrap=True):
        """A record of one or several lines."""
        lines, ints, n = [], [[]], 0
        cur = self.lead()
        for k, t in enumerate(tokens):
            if k:
                if wrap and self.wrap and self.take(4) == 1:
                    lines.append(cur + self.trail() + self.note(header))
                    self.used.add("wrapped")
                    cur = self.lead()
                    ints.append([])
                    n = 0
                else:
                    cur += self.gap()
            cur += t
            if isinstance(t, IntTok):
                ints[-1].append(n)
            n += 1
        lines.append(cur + self.trail() + self.note(header))
        lines = [NumLine(s) for s in lines]
        for s, j in zip(lines, ints):
            s.whole = len(lines) == 1
            s.ints = j
        return lines

    def line(self, text, header=True):
        # an empty text cannot carry an annotation: the annotation would become the text
        return [self.lead() + text + self.trail() + (self.note(header) if text else "")]


def emit(d, lay, extra_head=(), eol="\n", trailing_blank=0, final_eol=True):
    """Text of a legal file with the contents d (nappy conventions) and the given layout decisions."""
    H, D = emit_lines(d, lay)
    blanks = [["", "   ", "\t"][lay.take(3)] for _ in range(trailing_blank)]
    lines = list(extra_head) + H + D + blanks
    text = eol.join(lines)
    if final_eol or not D:
        text += eol
    return text, len(H)


def emit_lines(d, lay):
    """Header lines and data lines; lines of numeric records are NumLine objects."""
    ffi, niv, nv = d["FFI"], d["NIV"], d["NV"]
    H = []
    rec, num, integer, line = lay.record, lay.num, lay.integer, lay.line
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        H += line(d[k])
    H += rec([integer(d["IVOL"]), integer(d["NVOL"])], True, False)
    H += rec([integer(v) for v in d["DATE"] + d["RDATE"]], True, False)
    H += rec([num(v) for v in d["DX"][::-1]], True, False)
    if ffi == 1020:
        H += rec([integer(d["NVPM"])], True, False)
    if ffi in (2010, 3010, 4010):
        H += rec([integer(v) for v in d["NX"][::-1]], True, False)
        H += rec([integer(v) for v in d["NXDEF"][::-1]], True, False)
        for s in range(niv - 1, 0, -1):
            H += rec([num(v) for v in d["X"][s][:d["NXDEF"][s - 1]]], True)
    if ffi == 2160:
        H += rec([integer(d["LENX"])], True, False)
    for s in range(niv - 1, -1, -1):
        H += line(d["XNAME"][s])
    H += rec([integer(nv)], True, False)
    H += rec([num(v) for v in d["VSCAL"]], True)
    H += rec([num(v) for v in d["VMISS"]], True)
    for n in range(nv):
        H += line(d["VNAME"][n])
    naux = nauxc = 0
    if ffi != 1001:
        naux = d["NAUXV"]
        H += rec([integer(naux)], True, False)
        if ffi == 2160:
            nauxc = d["NAUXC"]
            H += rec([integer(nauxc)], True, False)
        if naux:
            nr = naux - nauxc
            H += rec([num(v) for v in d["ASCAL"]], True)
            H += rec([num(v) for v in d["AMISS"][:nr]], True)
            if nauxc:
                H += rec([integer(v) for v in d["LENA"][nr:]], True)
                for v in d["AMISS"][nr:]:
                    H += line(v)
            for a in range(naux):
                H += line(d["ANAME"][a])
    H += rec([integer(d["NSCOML"])], True, False)
    H += [lay.lead() + c for c in d["SCOM"]]
    H += rec([integer(d["NNCOML"])], True, False)
    H += [lay.lead() + c for c in d["NCOM"]]
    H = rec([integer(len(H) + 1), "%d" % ffi], True, False) + H

    def counted(aux):
        # the first auxiliary variable is the number of points of the mark
        return [IntTok(num(aux[0]))] + [num(v) for v in aux[1:]]

    D = []
    marks = d["X"] if ffi not in (2010, 3010, 4010) else d["X"][0]
    for m in range(len(marks)):
        aux = [d["A"][a][m] for a in range(naux)] if naux else []
        if ffi == 1001:
            D += rec([num(d["X"][m])] + [num(d["V"][n][m]) for n in range(nv)])
        elif ffi == 1010:
            D += rec([num(d["X"][m])] + [num(v) for v in aux])
            D += rec([num(d["V"][n][m]) for n in range(nv)])
        elif ffi == 1020:
            D += rec([num(d["X"][m])] + [num(v) for v in aux])
            p = d["NVPM"]
            for n in range(nv):
                D += rec([num(v) for v in d["V"][n][m * p:(m + 1) * p]])
        elif ffi in (2010, 3010, 4010):
            D += rec([num(marks[m])] + [num(v) for v in aux])
            for n in range(nv):
                for row in rows(d["V"][n][m], niv - 1):
                    D += rec([num(v) for v in row])
        elif ffi == 2110:
            D += rec([num(marks[m][0])] + counted(aux))
            for p in range(d["NX"][m]):
                D += rec([num(marks[m][1][p])] + [num(d["V"][n][m][p]) for n in range(nv)])
        elif ffi == 2160:
            D += [lay.lead() + marks[m][0] + lay.trail()]
            D += rec(counted(aux[:naux - nauxc]))
            for v in aux[naux - nauxc:]:
                D += [lay.lead() + v + lay.trail()]
            for p in range(d["NX"][m]):
                D += rec([num(marks[m][1][p])] + [num(d["V"][n][m][p]) for n in range(nv)])
        elif ffi == 2310:
            D += rec([num(marks[m][0])] + counted(aux))
            if d["NX"][m]:
                for n in range(nv):
                    D += rec([num(v) for v in d["V"][n][m]])
    return H, D


def rows(block, rank):
    """The rows (fastest dimension) of a nested block, in recording order."""
    if rank == 1:
        yield block
    else:
        for b in block:
            for r in rows(b, rank - 1):
                yield r


# ---------------------------------------------------------------- comparing contents

EXACT_INT = ("FFI", "NIV", "IVOL", "NVOL", "NV", "NVPM", "NAUXV", "NAUXC", "NSCOML", "NNCOML")
EXACT_LISTS = ("DATE", "RDATE", "NX", "NXDEF")
TEXTS = ("ONAME", "ORG", "SNAME", "MNAME")
TEXT_LISTS = ("XNAME", "VNAME", "ANAME", "SCOM", "NCOM")
NUM_LISTS = ("VSCAL", "VMISS", "ASCAL")


def same_num(a, b):
    return float(a) == float(b)


def fmt_value(fmt):
    """Value of a number after being written with a float format."""
    return lambda v: float(fmt % v)


def flatten(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            for z in flatten(y):
                yield z
    else:
        yield x


def shape(x):
    """Nested-list shape with the leaves replaced by None."""
    if isinstance(x, (list, tuple)):
        return [shape(y) for y in x]
    return None


def diff_contents(exp, got, fmt="%.10g", what="contents", header_fmt="%s", skip=()):
    """Raises Violation at the first item of exp that got does not hold.

    exp: contents dictionary that was recorded; got: contents dictionary read back."""
    rv = fmt_value(fmt)

    def bad(key, e, g):
        from .core import fmt_short
        raise Violation("%s: %s differs: expected %s, got %s" % (what, key, fmt_short(e), fmt_short(g)))

    for k in EXACT_INT:
        if k in exp and k not in skip:
            if got.get(k) is None or got[k] != exp[k] or isinstance(got[k], float):
                bad(k, exp[k], got.get(k))
    if "LENX" in exp and "LENX" not in skip:
        if got.get("LENX") is None or got["LENX"] != exp["LENX"]:
            bad("LENX", exp["LENX"], got.get("LENX"))
    for k in EXACT_LISTS:
        if k in exp and k not in skip and list(got.get(k) or []) != list(exp[k]):
            bad(k, exp[k], got.get(k))
    for k in TEXTS:
        if k in exp and k not in skip and (not isinstance(got.get(k), str) or got[k].strip() != exp[k].strip()):
            bad(k, exp[k], got.get(k))
    empty_aux = not exp.get("NAUXV")
    for k in TEXT_LISTS:
        if k in exp and k not in skip:
            g = got.get(k)
            if g is None and k == "ANAME" and empty_aux:
                continue
            if not isinstance(g, list) or [str(t).strip() for t in g] != [t.strip() for t in exp[k]]:
                bad(k, exp[k], g)
    for k in NUM_LISTS:
        if k in exp and k not in skip:
            g = got.get(k)
            if g is None and empty_aux:
                continue
            if g is None or len(g) != len(exp[k]) or not all(same_num(a, b) for a, b in zip(exp[k], g)):
                bad(k, exp[k], g)
    if "AMISS" in exp and not empty_aux and "AMISS" not in skip:
        g = got.get("AMISS")
        if g is None or len(g) != len(exp["AMISS"]):
            bad("AMISS", exp["AMISS"], g)
        for a, b in zip(exp["AMISS"], g):
            if isinstance(a, str):
                if not isinstance(b, str) or a.strip() != b.strip():
                    bad("AMISS", exp["AMISS"], g)
            elif isinstance(b, str) or not same_num(a, b):
                bad("AMISS", exp["AMISS"], g)
    if "LENA" in exp and not empty_aux and "LENA" not in skip:
        if list(got.get("LENA") or []) != list(exp["LENA"]):
            bad("LENA", exp["LENA"], got.get("LENA"))
    if "DX" in exp and "DX" not in skip:
        g = list(got.get("DX") or [])
        if exp["FFI"] == 2310:      # one header value; the per-mark increments are recorded as auxiliary values
            g = g[:1]
        if len(g) != len(exp["DX"]) or not all(same_num(a, b) for a, b in zip(exp["DX"], g)):
            bad("DX", exp["DX"], got.get("DX"))

    # array shapes, then values
    if "V" in exp and "V" not in skip:
        if "X" not in skip:
            ex = exp["X"]
            if exp["FFI"] in (2010, 3010, 4010):
                ex = [ex[0]] + [ex[s + 1][:exp["NXDEF"][s]] for s in range(exp["NIV"] - 1)]
            _cmp_array("X", ex, got.get("X"), rv, bad)
        _cmp_array("V", exp["V"], got.get("V"), rv, bad)
        if exp.get("NAUXV"):
            _cmp_array("A", exp["A"], got.get("A"), rv, bad)


def _cmp_array(key, e, g, rv, bad):
    if shape(e) != shape(g):
        bad(key + " shape", e, g)
    for i, (a, b) in enumerate(zip(flatten(e), flatten(g))):
        if isinstance(a, str):
            if not isinstance(b, str) or a.strip() != b.strip():
                bad(key + " item %d" % i, a, b)
        elif isinstance(b, str) or b is None or rv(a) != float(b):
            bad(key + " item %d" % i, "%r -> %r" % (a, rv(a)), b)


def structure_is_unambiguous(d):
    """True if the dictionary, without its FFI item, can only be of that format (and holds at least one mark)."""
    ffi = d["FFI"]
    if ffi in (1001, 1010, 1020, 2010, 3010, 4010):
        return True
    return len(d["X"]) > 0
