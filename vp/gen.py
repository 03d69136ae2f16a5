"""Generators of NASA Ames contents dictionaries (in nappy's documented in-memory conventions).

All results are JSON-able.  Conventions (nappy docstrings, example files):
  NIV=1: X list of marks; V[n][m] (1020: V[n][m*NVPM+p]); A[a][m]
  2010/3010/4010: X=[marks, slowest bounded axis, ..., fastest], NX/NXDEF/DX/XNAME in the same order
                  (DX and XNAME include the unbounded one first); V[n][m][...]
  2110: X=[[x0, [x1...]], ...], NX per mark, A[0]=NX, V[n][m][p]
  2160: as 2110 with x0 a string, real aux first then NAUXC character ones, LENA None for reals
  2310: X=[[x0, [first]], ...], A[0..2] = NX, first, increment; V[n][m][p]
"""
import string

from hypothesis import strategies as st

FFIS = [1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010]
CONVERTIBLE = [1001, 1010, 1020, 2010, 3010, 4010]

ALPHA = string.ascii_letters + string.digits
PUNCT = " .,;:-_/()[]{}<>|'\"%#*+=!?@&$~^\\`"
TEXT_ALPHABET = ALPHA + PUNCT + "  " + "éµ°"


def clean_line(s):
    """A text item as the file format can hold it: one stripped line, no trailing {annotation}."""
    s = s.strip()
    while s.endswith("}"):
        s = s[:-1].strip()
    return s


def clean_quoted(s):
    """Header name lines are written without enclosing quotes, so those are not part of the content."""
    s = clean_line(s)
    while s and (s[0] in "'\"" or s[-1] in "'\""):
        s = clean_line(s.strip("'\" "))
    return s


def clean_char(s):
    """A character-valued item (FFI 2160): not empty."""
    return clean_line(s) or "S"


WORDS = ["Temperature", "Ozone (ppmv)", "UT Seconds", "Pressure (hPa)", "wind speed (m s-1)", "x", "Altitude (km)",
         "A (b) (c)", "()", "50% level", "NASA Ames", "42", "1001 2010", "-9999", "level 1 [flag=0]", "a  b", "Day number, from 0 UT",
         "Name of '%s'", "{kelvin} T", "tab\tsep", "page one\x0cpage two", "unit\x1fsep", "line\u2028sep", "next\x85line", "v\x0btab",
         "a list, of,", ","]


def line_text(quoted=False, min_size=0):
    raw = st.one_of(st.sampled_from(WORDS), st.text(alphabet=TEXT_ALPHABET, min_size=min_size, max_size=30))
    f = clean_quoted if quoted else clean_line
    if min_size:
        return raw.map(f).map(lambda s: s or "N")
    return raw.map(f)


def comment_lines(max_lines=4):
    return st.lists(st.one_of(st.text(alphabet=TEXT_ALPHABET, max_size=40).map(str.strip), line_text(),
                              st.sampled_from(["", "0", "3", "a {b}", "{x}", "==== Special Comments follow ====",
                                               "Time Value1 Value2", "1 2 3", "==== calibration ====", "=== x", "====", "###", "a == b", "----------"])),
                    max_size=max_lines)


def number(style="mixed"):
    """Finite numbers of the kinds found in data files."""
    ints = st.integers(-9999, 9999)
    deci = st.integers(-10**7, 10**7).map(lambda i: i / 1000.0)
    if style == "int":
        return ints
    if style == "decimal":
        return deci
    if style == "tame":
        return st.one_of(ints, deci)
    wild = st.floats(allow_nan=False, allow_infinity=False, width=64)
    special = st.sampled_from([0, 0.0, -0.0, 1e-30, 9.99e29, -999.9, 1e10, 12345678901, 0.1 + 0.2, 1 / 3., 99999999999.5,
                               -1e-5, 1e5, 123456.7891234, 1e300, -1e20, 9999999999.4])
    return st.one_of(ints, deci, wild, special)


@st.composite
def axis(draw, n, style=None, min_step=1):
    """n strictly monotonic values; returns (values, increment or 0)."""
    style = style or draw(st.sampled_from(["uniform_int", "uniform_dec", "irregular", "descending"]))
    if style == "uniform_int":
        start, step = draw(st.integers(-1000, 1000)), draw(st.integers(1, 60)) * draw(st.sampled_from([1, 1, 1, -1]))
        vals = [float(start + i * step) for i in range(n)]
        dx = float(step)
    elif style == "uniform_dec":
        start, step = draw(st.integers(-10000, 10000)), draw(st.sampled_from([25, 50, 75, 125, 250, 1000, -25, -250]))
        vals = [(start + i * step) / 100.0 for i in range(n)]
        dx = step / 100.0
    elif style == "descending":
        start, steps = draw(st.integers(-1000, 1000)), draw(st.lists(st.integers(1, 30), min_size=n, max_size=n))
        vals, cur = [], float(start)
        for s in steps:
            vals.append(cur)
            cur -= s
        dx = 0.0
    else:
        start = draw(st.integers(-100000, 100000))
        steps = draw(st.lists(st.integers(min_step, 5000), min_size=n, max_size=n))
        vals, cur = [], start
        for s in steps:
            vals.append(cur / 100.0)
            cur += s
        dx = 0.0
    return vals, dx


def _dates():
    return st.tuples(st.integers(1, 2100), st.integers(1, 12), st.integers(1, 28)).map(list)


def missing_value():
    return st.sampled_from([-9999.999, 9999.0, 99999, 1e20, -1e20, 999.99, -999.9, 9.99e29, 99.0, 0.0, -99,
                            99999999.9, -1234567.891, 9.969209968386869e36, 2147483647])


def scale():
    return st.sampled_from([1.0, 1.0, 1, 0.1, 10.0, 1e-3, 100, 0.5, 1e-9, 2.5, -1.0, 0.01, 0.0174532925199, 1234567.5, 1e-12])


def nest(flat, dims):
    """flat list -> nested lists of shape dims."""
    if len(dims) == 1:
        return flat[:dims[0]]
    size = 1
    for d in dims[1:]:
        size *= d
    return [nest(flat[i * size:(i + 1) * size], dims[1:]) for i in range(dims[0])]


def prod(ns):
    r = 1
    for n in ns:
        r *= n
    return r


@st.composite
def na_dict(draw, ffis=tuple(FFIS), style=None, max_marks=5, max_nv=4, max_aux=3, max_nx=4, allow_zero_marks=True,
            allow_zero_nx=True, names=None, texts=True, wide=True, min_marks=None, miss=None, with_ffi=True, scales=None):
    ffi = draw(st.sampled_from(list(ffis)))
    niv = ffi // 1000
    style = style or draw(st.sampled_from(["mixed", "mixed", "tame", "int"]))
    num = number(style)

    def nums(n):
        return draw(st.lists(num, min_size=n, max_size=n)) if n else []

    big = wide and draw(st.integers(0, 19)) == 0       # now and then one large dimension
    nv = draw(st.integers(1, max_nv))
    lo = 0 if allow_zero_marks and ffi != 1020 and draw(st.integers(0, 14)) == 0 else 1
    lo = max(lo, min_marks or 0)
    m = draw(st.integers(lo, max_marks))
    if big and niv == 1:
        if draw(st.booleans()):
            nv = draw(st.integers(10, 30))
        else:
            m = draw(st.integers(11, 40))

    d = {}
    if with_ffi:
        d["FFI"] = ffi
    d["NIV"] = niv
    hdr = line_text(quoted=True) if texts else st.sampled_from(["Someone", "Some Org", "A source", "A mission"])
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        d[k] = draw(hdr)
    nvol = draw(st.integers(1, 12))
    d["IVOL"], d["NVOL"] = draw(st.integers(1, nvol)), nvol
    d["DATE"], d["RDATE"] = draw(_dates()), draw(_dates())
    d["NLHEAD"] = draw(st.integers(0, 99))

    nm = names or line_text()
    d["NV"] = nv
    sc = scales if scales is not None else scale()
    d["VSCAL"] = draw(st.lists(sc, min_size=nv, max_size=nv))
    d["VMISS"] = draw(st.lists(miss if miss is not None else missing_value(), min_size=nv, max_size=nv))
    if names is None:
        d["VNAME"] = draw(st.lists(nm, min_size=nv, max_size=nv))
        d["XNAME"] = draw(st.lists(nm, min_size=niv, max_size=niv))
    else:
        allnames = draw(names(nv, niv, max_aux + 3))
        d["VNAME"], d["XNAME"], _anames = allnames
    d["SCOM"] = draw(comment_lines())
    d["NCOM"] = draw(comment_lines())
    d["NSCOML"], d["NNCOML"] = len(d["SCOM"]), len(d["NCOM"])

    naux = 0
    if ffi != 1001:
        need = {2110: 1, 2310: 3, 2160: 1}.get(ffi, 0)
        naux = draw(st.integers(need, need + max_aux))
    anames = draw(st.lists(nm, min_size=naux, max_size=naux)) if names is None else _anames[:naux]
    ascal = draw(st.lists(sc, min_size=naux, max_size=naux))
    amiss = draw(st.lists(miss if miss is not None else missing_value(), min_size=naux, max_size=naux))

    def aux_values(n, k):
        rows = []
        for a in range(k):
            vals = nums(n)
            rows.append(vals)
        return rows

    def put_missing(values, mv):
        """Replace some values by the missing value (flat list)."""
        if values and draw(st.integers(0, 3)) == 0:
            i = draw(st.integers(0, len(values) - 1))
            values[i] = mv
            if len(values) > 2 and draw(st.booleans()):
                values[0] = mv
        return values

    def zaxis(n):
        return draw(axis(n)) if n else ([], 0.0)

    if niv == 1:
        x, dx = zaxis(m)
        if ffi == 1020:
            nvpm = draw(st.integers(1, 5))
            dx = draw(st.sampled_from([1.0, 0.25, 2, 30, 0.5, -0.5, -10]))
            start = draw(st.integers(-50, 50))
            x = [start + i * nvpm * dx for i in range(m)]
            d["NVPM"] = nvpm
            d["V"] = [put_missing(nums(m * nvpm), d["VMISS"][n]) for n in range(nv)]
        else:
            d["V"] = [put_missing(nums(m), d["VMISS"][n]) for n in range(nv)]
        d["X"], d["DX"] = x, [dx]
    elif ffi in (2010, 3010, 4010):
        nb = niv - 1
        nx = draw(st.lists(st.integers(1, max_nx if niv < 4 else min(3, max_nx)), min_size=nb, max_size=nb))
        if big:
            nx[-1] = draw(st.integers(6, 14))
        x0, dx0 = zaxis(m)
        X, DX, NXDEF = [x0], [dx0], []
        for n in nx:
            v, dx = draw(axis(n))
            implied = dx != 0 and n > 1 and draw(st.booleans())
            NXDEF.append(draw(st.sampled_from([1, 1, 1, n - 1, n // 2])) if implied else n)
            X.append(v[:NXDEF[-1]])
            DX.append(dx)
        d["X"], d["DX"], d["NX"], d["NXDEF"] = X, DX, nx, NXDEF
        size = prod(nx)
        d["V"] = [[nest(put_missing(nums(size), d["VMISS"][n]), nx) for _ in range(m)] for n in range(nv)]
    else:
        zn = 0 if allow_zero_nx and draw(st.integers(0, 5)) == 0 else 1
        nx = [draw(st.integers(zn, max_nx + 1)) for _ in range(m)]
        if big and m:
            nx[-1] = draw(st.integers(8, 15))
        if ffi == 2160:
            used = draw(st.lists(line_text(min_size=1).map(clean_char), min_size=m, max_size=m))
            x0, dx0 = used, 0.0
        else:
            x0, dx0 = zaxis(m)
        X, first, incr = [], [], []
        for i in range(m):
            v, dx = draw(axis(max(nx[i], 1), style=None if ffi != 2310 else draw(st.sampled_from(["uniform_int", "uniform_dec"]))))
            first.append(v[0])
            incr.append(dx)
            X.append([x0[i], v[:1] if ffi == 2310 else v[:nx[i]]])
        d["X"], d["NX"] = X, nx
        d["V"] = [[put_missing(nums(nx[i]), d["VMISS"][n]) for i in range(m)] for n in range(nv)]
        d["DX"] = [dx0, draw(st.sampled_from([0.0, 1.0, 0.5]))] if ffi == 2110 else \
                  [draw(st.sampled_from([0.0, 1.0, 0.25]))] if ffi == 2160 else [dx0]

    if ffi != 1001:
        fixed = {2110: [d.get("NX")], 2160: [d.get("NX")]}.get(ffi, [])
        if ffi == 2310:
            fixed = [d["NX"], first, incr]
        nauxc = 0
        if ffi == 2160:
            nauxc = draw(st.integers(0, naux - 1))
        A = [list(r) for r in fixed] + aux_values(m, naux - len(fixed) - nauxc)
        for a in range(len(fixed), len(A)):
            A[a] = put_missing(A[a], amiss[a])
        d["NAUXV"] = naux
        if ffi == 2160:
            d["NAUXC"] = nauxc
            chars = [draw(st.lists(line_text(min_size=1).map(clean_char), min_size=m, max_size=m)) for _ in range(nauxc)]
            A += chars
            cmiss = draw(st.lists(st.sampled_from(["zzz", "999", "none", "missing text"]).map(str), min_size=nauxc, max_size=nauxc))
            d["LENA"] = [None] * (naux - nauxc) + [max([len(s) for s in c] + [1]) for c in chars]
            d["LENX"] = max([len(s) for s in x0] + [1])
            amiss = amiss[:naux - nauxc] + cmiss
            ascal = ascal[:naux - nauxc]
        d["A"] = A
        if naux or ffi in (2010, 3010, 4010, 1010, 1020):
            d["ASCAL"], d["AMISS"], d["ANAME"] = ascal, amiss, anames
    return d
