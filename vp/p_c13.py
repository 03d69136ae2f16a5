"""C13: NetCDF metadata arrives in the right NASA Ames header lines."""
import datetime
import os
import re

from hypothesis import strategies as st

from . import gen, ncgen, ncmodel
from .core import REPO, Sub, Violation, fmt_short

MARKERS = ("====", "===", "==")


# ---- calendars, independently of cftime

def leap(cal, y):
    if cal in ("noleap", "365_day"):
        return False
    if cal == "366_day":
        return True
    if cal == "julian":
        return y % 4 == 0
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def next_day(cal, y, m, d):
    if cal == "360_day":
        n = 30
    else:
        mixed = cal in ("standard", "gregorian", None)
        n = [31, 29 if leap("julian" if mixed and y < 1582 else cal, y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
        if mixed and (y, m, d) == (1582, 10, 4):
            return 1582, 10, 15
    d += 1
    if d > n:
        d, m = 1, m + 1
        if m > 12:
            m, y = 1, y + 1
    return y, m, d


def first_date(units, cal, value):
    m = re.match(r"(\w+) since (\d+)-(\d+)-(\d+)(?: (\d+):(\d+):(\d+))?$", units)
    y, mo, d = int(m.group(2)), int(m.group(3)), int(m.group(4))
    secs = sum(int(m.group(5 + i) or 0) * k for i, k in enumerate((3600, 60, 1)))
    secs += value * {"days": 86400, "hours": 3600, "minutes": 60, "seconds": 1}[m.group(1)]
    days = int(secs // 86400)
    if days < 0:
        # walk forward from a first of January that is early enough
        y0, start, n = y - (-days // 350 + 1), (y, mo, d), 0
        cur = (y0, 1, 1)
        while cur != start:
            cur = next_day(cal, *cur)
            n += 1
        y, mo, d, days = y0, 1, 1, n + days
    for _ in range(days):
        y, mo, d = next_day(cal, y, mo, d)
    return [y, mo, d]


def today():
    return list(datetime.date.today().timetuple()[:3])


def packaged_attributes(path=None):
    """[na_attributes] of the local attributes file, read without the package's reader."""
    out, sect = {}, None
    with open(path or os.path.join(REPO, "nappy", "config", "local_attributes.ini")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("["):
                sect = line
            elif sect == "[na_attributes]" and "=" in line:
                k, v = line.split("=", 1)
                out[k.strip()] = v.strip()
    return out


OVER_TEXT = ["ONAME", "ORG", "SNAME", "MNAME"]


VMARKS = ["== Variable attributes from source (NetCDF) file follow ==", "== Variable attributes from source (NetCDF) file end =="]
SMARKS = ["== Singleton Variables defined in the source file follow ==", "== Singleton Variables defined in the source file end =="]


def s_case():
    text = st.text(alphabet=gen.TEXT_ALPHABET, min_size=1, max_size=25).map(gen.clean_quoted).map(lambda s: s or "x")
    line = st.text(alphabet=gen.TEXT_ALPHABET, min_size=1, max_size=25).map(str.strip).filter(lambda s: s and not s.startswith("="))
    return st.fixed_dictionaries({
        "ds": ncgen.dataset(max_vars=4, strings=True, wild=True),
        "na_institution": st.one_of(st.none(), st.none(), st.tuples(text, text)),
        "na_comment": st.one_of(st.none(), st.none(), st.fixed_dictionaries({"sc": st.lists(line, max_size=3), "nc": st.lists(line, max_size=3)})),
        "na_date": st.one_of(st.none(), gen._dates()),
        "na_ints": st.booleans(),
        "over": st.fixed_dictionaries({}, optional={
            "ONAME": text, "ORG": text, "SNAME": text, "MNAME": text,
            "DATE": gen._dates(), "RDATE": gen._dates(), "SCOM": st.lists(line, max_size=3), "NCOM": st.lists(line, max_size=3),
            "VNAME": st.just("new"), "ANAME": st.just("new")}),
        "no_over": st.booleans(),
        "dates_as_text": st.booleans(),
        "delim": st.sampled_from(["    ", "    ", "\t", ","]),
    })


def attr_lines(text):
    return [x.strip() for x in re.split(r"\r\n|\r|\n", str(text)) if x.strip()]


def has_lines(lines, want, start=0):
    """Index after the last of the wanted lines, found in order; None if one is absent."""
    i = start
    for w in want:
        w = w.strip()
        while i < len(lines) and lines[i] != w:
            i += 1
        if i == len(lines):
            return None
        i += 1
    return i


def contiguous(lines, want):
    want = [w.strip() for w in want]
    for i in range(len(lines) - len(want) + 1):
        if lines[i:i + len(want)] == want:
            return i
    return None


def check(case, ctx):
    import nappy
    d = case["ds"]
    g = dict((k, v) for k, v in d["gattrs"])
    if case["na_institution"]:
        g["institution"] = "%s (ONAME from NASA Ames file); %s (ORG from NASA Ames file)." % tuple(case["na_institution"])
    nac = case["na_comment"]
    if nac:
        text = ""
        if nac["sc"]:
            text += "==== Special Comments follow ====\n" + "\n".join(nac["sc"]) + "\n==== Special Comments end ====\n"
        if nac["nc"]:
            text += "==== Normal Comments follow ====\n" + "\n".join(nac["nc"]) + "\n==== Normal Comments end ===="
        if text:
            g["comment"] = text
    extra = {}
    if case["na_ints"]:
        extra = {"file_format_index": 2010, "no_of_nasa_ames_header_lines": 7, "file_number_in_set": 3, "total_files_in_set": 9}
        g.update(extra)
    if case["na_date"]:
        g["first_valid_date_of_data"] = case["na_date"]
    d = dict(d, gattrs=list(g.items()))
    path = ctx.path("in.nc")
    ncgen.write(d, path)
    over = {} if case["no_over"] else dict(case["over"])
    args = {"delimiter": case["delim"], "float_format": "%.17g"}
    arg_over = {}
    for k, v in over.items():
        arg_over[k] = list(v) if isinstance(v, list) else v
    for k in ("DATE", "RDATE"):
        if k in arg_over and case["dates_as_text"]:
            arg_over[k] = "%d %d %d" % tuple(arg_over[k])
    names = {}
    for k in ("VNAME", "ANAME"):
        if k in arg_over:
            # find out how many names the output has
            del arg_over[k]
            with ctx.sut("converting NetCDF"):
                plain = nappy.convertNCToNA(path, ctx.path("plain.na"), **args)
            if len(plain or []) == 1:
                p = ncgen.collect(plain, delim(case))[1][0]
                n = p["NV"] if k == "VNAME" else p.get("NAUXV") or 0
                if n:
                    names[k] = ["New name %d" % i for i in range(n)]
    for k, v in names.items():
        arg_over[k] = list(v)
    if arg_over:
        args["na_items_to_override"] = arg_over
    before = repr(arg_over)
    day0 = today()
    with ctx.sut("converting NetCDF"):
        files = nappy.convertNCToNA(path, ctx.path("out.na"), **args)
    days = (day0, today())
    if repr(arg_over) != before:
        raise Violation("the overrides passed in were changed to %s" % fmt_short(arg_over))
    outs, parsed = ncgen.collect(files, delim(case))
    ctx.note(bool(g) or bool(arg_over), *["override " + k for k in arg_over], *["global " + k for k in g if k in ncgen.GKEYS[:7]],
             "line breaks" if any("\n" in str(v) for v in g.values()) else "", "%d files" % len(files))
    by_name = {}
    for s in d["vars"]:
        by_name.setdefault(ncgen.best_name(s["name"], s["attrs"]), []).append(s)
    for p in parsed:
        one_file(case, d, g, over, names, p, by_name, days, extra, ctx)


def delim(case):
    return None if case["delim"].isspace() else case["delim"]


def one_file(case, d, g, over, names, p, by_name, days, extra, ctx):
    def text(k, want):
        if gen.clean_quoted(" ".join(p[k].split())) != gen.clean_quoted(" ".join(str(want).split())):
            raise Violation("%s is %r, expected %r" % (k, p[k], want))

    # header texts
    packaged = packaged_attributes()
    inst = g.get("institution")
    m = re.match(r"(.*) \(ONAME from NASA Ames file\); (.*) \(ORG from NASA Ames file\)\.$", inst) if inst else None
    for k, src in (("ONAME", (m.group(1) if m else inst)), ("ORG", (m.group(2) if m else inst)), ("SNAME", g.get("source")), ("MNAME", g.get("title"))):
        if k in over:
            text(k, over[k])
        elif k in packaged:
            text(k, packaged[k])
        elif src is not None:
            text(k, src)
    if (p["IVOL"], p["NVOL"]) != (1, 1):
        raise Violation("volume %s of %s in a file that was not split" % (p["IVOL"], p["NVOL"]))

    # dates
    if "RDATE" in over:
        if p["RDATE"] != over["RDATE"]:
            raise Violation("RDATE is %r, overridden by %r" % (p["RDATE"], over["RDATE"]))
    elif p["RDATE"] not in days:
        raise Violation("RDATE is %r, the conversion ran on %r" % (p["RDATE"], days[0]))
    axis = None
    for name, c in d["coords"].items():
        if ncgen.best_name(name, c["attrs"]) == ncgen.squeeze(p["XNAME"][0]):
            axis = c if axis is None else "several"
    if "DATE" in over:
        if p["DATE"] != over["DATE"]:
            raise Violation("DATE is %r, overridden by %r" % (p["DATE"], over["DATE"]))
    elif isinstance(axis, dict) and "since" in axis["attrs"].get("units", ""):
        want = first_date(axis["attrs"]["units"], axis["attrs"].get("calendar"), axis["values"][0])
        ctx.note(None, "first date from the time axis")
        if p["DATE"] != want:
            raise Violation("DATE is %r, the first time is %r %s (%s), which is %r" % (
                p["DATE"], axis["values"][0], axis["attrs"]["units"], axis["attrs"].get("calendar"), want))
    elif axis is not None and axis != "several" and axis["kind"] != "time" and case["na_date"]:
        if p["DATE"] != case["na_date"]:
            raise Violation("DATE is %r, first_valid_date_of_data is %r" % (p["DATE"], case["na_date"]))

    # comments
    scom, ncom = [x.strip() for x in p["SCOM"]], [x.strip() for x in p["NCOM"]]
    for k, lines in (("SCOM", scom), ("NCOM", ncom)):
        if over.get(k):
            i = contiguous(lines, over[k])
            if i is None:
                raise Violation("comment lines %r given for %s are not in %s" % (over[k], k, fmt_short(lines)))
            if any(x and not x.startswith("=") for x in lines[:i]) and over[k][0].strip() not in [x for x in lines[:i]]:
                raise Violation("comment lines given for %s are not inserted at the start of %s" % (k, fmt_short(lines)))
    for lines, (start, end) in ((scom, ncmodel.MARKS["sc"]), (ncom, ncmodel.MARKS["nc"]), (scom, VMARKS), (scom, SMARKS)):
        if (start in lines) != (end in lines) or (start in lines and lines.index(start) > lines.index(end)) or lines.count(start) > 1:
            raise Violation("the lines %r and %r do not enclose a part of %s" % (start, end, fmt_short(lines)))
    special = case["na_comment"]["sc"] if case["na_comment"] and "comment" in g else []
    for key, value in g.items():
        if key in ("title", "source", "institution", "first_valid_date_of_data") or key in extra:
            continue
        if key == "comment":
            want = attr_lines(value)
            sc = [x for x in want if x in [y.strip() for y in special]] if case["na_comment"] and (case["na_comment"]["sc"] or case["na_comment"]["nc"]) else []
            if case["na_comment"] and (case["na_comment"]["sc"] or case["na_comment"]["nc"]):
                sc = [x.strip() for x in case["na_comment"]["sc"]]
                nc = [x.strip() for x in case["na_comment"]["nc"]]
            else:
                sc, nc = [], want
            if has_lines(scom, sc) is None:
                raise Violation("special comments %r are not in %s" % (sc, fmt_short(scom)))
            if has_lines(ncom, nc) is None:
                raise Violation("comment lines %r are not in %s" % (nc, fmt_short(ncom)))
        elif key == "history":
            if not history_in(ncom, attr_lines(value)):
                raise Violation("history %r is not in the comments %s" % (value, fmt_short(ncom)))
            if not any(x.startswith("History:") and "%04d-%02d-%02d" % tuple(t) in x and "nappy" in x for x in ncom for t in days):
                raise Violation("the conversion of %r is not added to the history in %s" % (days[0], fmt_short(ncom)))
        else:
            lines = attr_lines(value) if isinstance(value, str) else None
            ok = False
            for i, x in enumerate(ncom):
                if not x.startswith(key + ":"):
                    continue
                rest = x[len(key) + 1:].strip()
                if lines is None:
                    try:
                        ok = abs(float(rest) - value) <= 1e-9 * abs(value)
                    except ValueError:
                        ok = False
                else:
                    ok = (not lines) or (rest == lines[0] and has_lines(ncom, lines[1:], i + 1) is not None)
                if ok:
                    break
            if not ok:
                raise Violation("global attribute %s = %r is not in the comments %s" % (key, value, fmt_short(ncom)))

    column_line(p)

    # names and variable attributes
    for k, v in names.items():
        if k == "ANAME" and not p.get("NAUXV"):
            continue
        if p[k] != v:
            raise Violation("%s is %r, overridden by %r" % (k, p[k], v))
    if "VNAME" not in names:
        for name in p["VNAME"]:
            cands = by_name.get(ncgen.squeeze(name), [])
            if not cands:
                raise Violation("unknown variable %r" % name)
            if len(cands) == 1:
                var_attrs(cands[0], scom)
            else:
                var_attrs(None, scom)


def column_line(p):
    """The last comment line of these formats names the columns of the data section."""
    if p.get("NAUXV") or p["FFI"] != 1001:
        return
    names = [p["XNAME"][0]] + list(p["VNAME"])
    want = ",".join(x.strip() for x in names)
    last = p["NCOM"][-1] if p["NCOM"] else ""
    if ",".join(x.strip() for x in last.split(",")) != ",".join(x.strip() for x in want.split(",")):
        raise Violation("the last comment line is %r, the columns are %r" % (last, names))


def history_in(ncom, lines):
    if not lines:
        return True
    for i, x in enumerate(ncom):
        if x == lines[0] and has_lines(ncom, lines[1:], i + 1) is not None:
            return True
    return False


def spec_number(tok):
    try:
        float(tok)
    except ValueError:
        return False
    return True


def var_attrs(s, scom):
    if s is None:
        return
    head = "Variable %s:" % s["name"]
    at = [i for i, x in enumerate(scom) if x.startswith(head)]
    want = {k: v for k, v in s["attrs"].items() if not (k == "units" and "since" in v) and not k.startswith("nasa_ames")}
    several = [k for k, v in want.items() if isinstance(v, list)]
    for k in several:
        # not written; but if it is, then all of it
        v = want.pop(k)
        for x in scom:
            if x.startswith(k + " =") and not all(float(i) in [float(j) for j in re.findall(r"[-+.\de]+", x.split("=", 1)[1]) if spec_number(j)] for i in v):
                raise Violation("attribute %s of variable %r is %r, reported as %r" % (k, s["name"], v, x))
    if not want:
        return
    if not at:
        raise Violation("attributes of variable %r are not in the special comments %s" % (s["name"], fmt_short(scom)))
    block = []
    for x in scom[at[0] + 1:]:
        if x.startswith("Variable ") or x.startswith("== "):
            break
        block.append(x)
    for k, v in want.items():
        lines = [x for x in block if x == k + " =" or x.startswith(k + " = ")]
        if not lines:
            raise Violation("attribute %s of variable %r is not in the special comments %s" % (k, s["name"], fmt_short(block)))
        rest = lines[0][len(k) + 2:].strip()
        if isinstance(v, str):
            al = attr_lines(v)
            ok = (not al and not rest) or (al and rest == al[0] and has_lines(block, al[1:]) is not None)
        else:
            try:
                ok = float(rest) == float(v)
            except ValueError:
                ok = False
        if not ok:
            raise Violation("attribute %s of variable %r is %r, reported as %r" % (k, s["name"], v, lines[0]))


SUBS = [Sub("headers", s_case, check, 1600, 40000,
            "datasets with global and variable attributes (line breaks, numbers, texts from earlier conversions) and overrides; non-trivial = some global attribute or override")]
ASSUMPTIONS = ["Text and scalar numeric attributes; variable attributes of primary variables.",
               "The packaged local attributes file overrides ORG unless the caller does.",
               "Files are not split here (C14)."]
