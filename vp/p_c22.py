"""C22: local configuration files take effect exactly as documented."""
import copy
import json
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from . import gen, ncgen, outputs, spec
from .core import HERE, HarnessError, Sub, Violation, fmt_short
from .p_c05 import check_annotated, header_items, labels
from .p_c10 import na_for_nc, write_na
from .p_c13 import packaged_attributes

def raw(s):
    """Text as files_form shows it."""
    return s.encode("utf-8").decode("latin-1")


# ---- configuration files

LABELS = ["Name of creator", "Kopfzeilen; Format", "x", "Who: where", "50 % of [all]", "a = b", "Institut für Physik", "'quoted'", "label & more", "tab\tinside", "%(x)s", "__space__", ""]


def label():
    return st.one_of(st.sampled_from(LABELS), st.text(alphabet=gen.TEXT_ALPHABET, min_size=1, max_size=25).map(str.strip))


@st.composite
def annotations(draw):
    """{item: label} for all items, in a file of any layout."""
    vals = {k: draw(label()) if draw(st.integers(0, 3)) else v for k, v in labels().items()}
    return {"values": vals, "style": draw(style())}


def style():
    return st.fixed_dictionaries({"eq": st.sampled_from([" = ", "=", ": ", " : "]), "comments": st.booleans(), "extra": st.booleans(), "reverse": st.booleans(),
                                  "crlf": st.booleans()})


def one_line():
    return st.text(alphabet=gen.TEXT_ALPHABET, min_size=1, max_size=25).map(gen.clean_quoted).map(lambda s: s.strip() or "x")


def comment_line():
    return st.one_of(st.sampled_from(["Data of the local group", "Do not distribute.", "a: b", "1 2 3", "Data of the 'group'", "\"quoted\" line", "said \"so\"", "it's"]),
                     st.text(alphabet=gen.TEXT_ALPHABET, min_size=1, max_size=25).map(str.strip)).filter(lambda s: s and s[0] not in "#;=")


def header_values():
    """{header item: text as in a configuration file}"""
    items = {"ONAME": one_line(), "ORG": one_line(), "SNAME": one_line(), "MNAME": one_line(),
             "DATE": st.sampled_from(["2001 2 3", "1999 12 31", "2000  02 29"]), "RDATE": st.sampled_from(["2010 10 1", "2024 1 1"]),
             "SCOM": st.lists(comment_line(), min_size=1, max_size=3).map("\n".join), "NCOM": st.lists(comment_line(), min_size=1, max_size=3).map("\n".join),
             "LOCAL": one_line(), "NLHEAD": st.just("3"), "FFI": st.just("1020")}
    return st.lists(st.sampled_from(sorted(items)), max_size=5, unique=True).flatmap(lambda ks: st.fixed_dictionaries({k: items[k] for k in ks}))


TARGETS = ["MNAME", "SNAME"]


@st.composite
def attributes(draw):
    nc = {}
    if draw(st.booleans()):
        nc["institution"] = "Somewhere else"
    for att in draw(st.lists(st.sampled_from(["project", "campaign", "Instrument", "platform"]), max_size=3, unique=True)):
        nc[att] = draw(st.sampled_from(TARGETS + ["Some text", "mname", "Title of the data"]))
    return {"na": draw(header_values()), "nc": nc, "style": draw(style())}


def section(name, values, sty):
    out = ["[%s]" % name]
    for i, (k, v) in enumerate(sorted(values.items(), reverse=sty["reverse"])):
        if sty["comments"] and i % 2 == 0:
            out += ["; a comment", "# KEY = other"]
        out.append(k + sty["eq"] + v.replace("\n", "\n    "))
        if sty["comments"] and i % 3 == 0:
            out.append("")
    return out


def write_config(path, sections, sty):
    if sty["extra"]:
        sections = sections + [("local notes", {"ORG": "not this", "NLHEAD_FFI": "not this"})]
    if sty["reverse"]:
        sections = sections[::-1]
    text = "\n\n".join("\n".join(section(n, v, sty)) for n, v in sections) + "\n"
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write(text.replace("\n", "\r\n") if sty["crlf"] else text)


# ---- operations, carried out in a process of their own and in this one

def perform(op, top):
    import nappy
    a = copy.deepcopy(op.get("args") or {})
    out = os.path.join(top, op["out"])
    if op["op"] == "nc2na":
        fn = nappy.convertNCToCSV if op["csv"] else nappy.convertNCToNA
        over = op.get("override")
        files = fn(op["src"], out, **a, **({"na_items_to_override": over} if over else {}))
        return [os.path.basename(f) for f in files or []]
    if op["op"] == "na2csv":
        nappy.convertNAToCSV(op["src"], out, **a)
    elif op["op"] == "na2nc":
        nappy.convertNAToNC(op["src"], out, time_warning=False)
    else:
        f = nappy.openNAFile(out, "w", na_dict=copy.deepcopy(op["na"]))
        f.write(**a)
        f.close()
    return []


def main():
    with open(sys.argv[1]) as f:
        ops = json.load(f)
    res = []
    for op in ops:
        try:
            res.append(["ok", perform(op, op["top"])])
        except Exception as e:
            res.append(["error", "%s: %s" % (type(e).__name__, e)])
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


def run_configured(ops, ctx, tag, ann=None, att=None):
    """Carries the operations out in a fresh process with the given configuration files."""
    env = {k: v for k, v in os.environ.items() if not k.startswith("NAPPY_")}
    if ann:
        env["NAPPY_ANNOTATIONS"] = ann
    if att:
        env["NAPPY_LOCAL_ATTRIBUTES"] = att
    spec_file, res_file = ctx.path(tag + ".json"), ctx.path(tag + ".res")
    with open(spec_file, "w") as f:
        json.dump(ops, f)
    code = "import sys; sys.path.insert(0, %r); import logging; logging.disable(50); import warnings; warnings.simplefilter('ignore'); from vp.p_c22 import main; main()" % HERE
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code, spec_file, res_file], cwd=ctx.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, text=True, timeout=300)
    if not os.path.exists(res_file):
        if "vp/p_c22" in p.stderr and "nappy" not in p.stderr:
            raise HarnessError(p.stderr[-500:])
        raise Violation("the configured process ended with status %r: %s" % (p.returncode, p.stderr[-300:]))
    with open(res_file) as f:
        res = json.load(f)
    for op, (status, what) in zip(ops, res):
        if status != "ok":
            raise Violation("%s under local configuration files failed: %s" % (op["op"], what))
    return [r[1] for r in res]


def relabel(line, user, delim):
    """The line of an annotated file with the packaged label replaced."""
    found = None
    for item, text in labels().items():
        m = re.match(re.escape(text) + r"( \d+)?" + re.escape(delim), line)
        if m and (found is None or len(text) > len(found[0])):
            found = (text, raw(user[item]) + line[len(text):])
    if found is None:
        raise Violation("no packaged label on the annotated line %r" % line[:150])
    return found[1]


INSTITUTION = ["Institute of Data", "First (ONAME from NASA Ames file); Second (ORG from NASA Ames file)."]


@st.composite
def an_op(draw):
    kind = draw(st.sampled_from(["nc2na", "nc2na", "nc2na", "na2csv", "write", "na2nc"]))
    if kind == "nc2na":
        ds = draw(ncgen.dataset(max_vars=3, max_rank=2, max_len=4))
        ds["gattrs"] = [g for g in ds["gattrs"] if g[0] not in ("institution", "title", "source", "project")] + [["institution", draw(st.sampled_from(INSTITUTION))]]
        free = list(TARGETS)
        used = {}
        for att in draw(st.lists(st.sampled_from(["project", "campaign", "Instrument", "platform"]), max_size=2, unique=True)):
            ds["gattrs"].append([att, draw(st.sampled_from(["Project X", "two\nlines", "a: b", "WASP 7"]))])
        del used, free
        return {"op": kind, "ds": ds, "annotation": draw(st.booleans()), "no_header": draw(st.sampled_from([False, False, False, True])), "csv": draw(st.booleans()),
                "override": draw(st.one_of(st.just({}), header_values().map(lambda v: {k: w for k, w in v.items() if k not in ("NLHEAD", "FFI", "LOCAL")})))}
    na = draw(na_for_nc() if kind == "na2nc" else gen.na_dict(gen.FFIS))
    return {"op": kind, "na": na, "annotation": draw(st.booleans()), "layout": draw(st.lists(st.integers(0, 119), min_size=1, max_size=4))}


def s_case():
    return st.fixed_dictionaries({"ops": st.lists(an_op(), min_size=3, max_size=7), "ann": st.one_of(annotations(), annotations(), annotations(), st.none()),
                                  "att": st.one_of(attributes(), attributes(), attributes(), st.none())})


def check(case, ctx):
    ann = att = None
    user_labels, na_atts, nc_atts = labels(), packaged_attributes(), {}
    if case["ann"]:
        ann = ctx.path("my annotations.ini")
        user_labels = case["ann"]["values"]
        write_config(ann, [("annotations", user_labels)], case["ann"]["style"])
    if case["att"]:
        att = ctx.path("my_attributes.cfg")
        na_atts, nc_atts = case["att"]["na"], case["att"]["nc"]
        write_config(att, [("nc_attributes", nc_atts), ("na_attributes", na_atts)], case["att"]["style"])
    mine, theirs, todo = [], [], []
    for i, op in enumerate(case["ops"]):
        for t in ("u", "r"):
            os.mkdir(ctx.path("%s%d" % (t, i)))
        u, r = ctx.path("u%d" % i), ctx.path("r%d" % i)
        if op["op"] == "nc2na":
            if any(ncgen.has_clash(s, "%.10g") for s in op["ds"]["vars"]):
                continue
            made = prepare_nc(op, i, ctx, na_atts, nc_atts, u)
            if made is None:
                continue
            a, b = made
        else:
            src = ctx.path("in%d.na" % i)
            write_na(op["na"], op["layout"], src)
            a = {"op": op["op"], "out": "out.nc" if op["op"] == "na2nc" else "out.txt", "top": u, "src": src, "na": op["na"]}
            if op["annotation"] and op["op"] != "na2nc":
                a["args"] = {"annotation": True}
            b = dict(a, args={})
        mine.append(a)
        theirs.append(b)
        todo.append((op, u, r))
    if not todo:
        ctx.note(False)
        return
    ctx.note(bool(ann or att), "annotations file" if ann else "", "attributes file" if att else "", "no file" if not ann and not att else "", *["op " + op["op"] for op, u, r in todo])
    done = run_configured(mine, ctx, "run", ann, att)
    for (op, u, r), a, b, files in zip(todo, mine, theirs, done):
        with ctx.sut("%s without local configuration" % op["op"]):
            ref = perform(b, r)
        got, want = outputs.files_form(u), outputs.files_form(r)
        if op["op"] == "nc2na":
            if sorted(files) != sorted(ref):
                raise Violation("files %r are reported, %r without local configuration files" % (files, ref))
            judge_nc(op, a, u, got, want, user_labels, na_atts, nc_atts)
        elif a.get("args", {}).get("annotation"):
            check_labels(want["out.txt"], got.get("out.txt", ""), op["na"], user_labels, "," if op["op"] == "na2csv" else "    ")
        else:
            diff = outputs.first_difference(want, got)
            if diff:
                raise Violation("%s depends on the local configuration files: %s" % (op["op"], diff))


def check_labels(plain, annotated, d, lab, delim):
    p, a = plain.split("\n"), annotated.split("\n")
    if len(p) != len(a):
        raise Violation("annotated file has %d lines, the plain one %d" % (len(a) - 1, len(p) - 1))
    items, lab = header_items(d), {k: raw(v) for k, v in lab.items()}
    for i, (x, y) in enumerate(zip(p[:-1], a[:-1])):
        item, n = items[i] if i < len(items) else ("Data", 0)
        ok = [lab[item] + delim + x] + (["%s %d%s%s" % (lab[item], n, delim, x)] if n else [])
        if y not in ok:
            raise Violation("annotated line %d (%s) is %r, expected %r" % (i + 1, item, y[:200], ok[-1][:200]))


def prepare_nc(op, i, ctx, na_atts, nc_atts, u):
    """The operation and the one that has to give the same without configuration files."""
    d = op["ds"]
    src = ctx.path("in%d.nc" % i)
    ncgen.write(d, src)
    # attributes mapped to header items are worth the attributes always mapped to them
    same = {"MNAME": "title", "SNAME": "source"}
    gattrs, taken = [], set()
    for k, v in d["gattrs"]:
        if k in nc_atts and nc_atts[k] in TARGETS:
            if nc_atts[k] in taken:
                return None         # two attributes for one item
            taken.add(nc_atts[k])
            k = same[nc_atts[k]]
        gattrs.append([k, v])
    ref = ctx.path("ref%d.nc" % i)
    ncgen.write(dict(d, gattrs=gattrs), ref)
    args = {}
    if op["annotation"]:
        args["annotation"] = True
    if op["no_header"]:
        args["no_header"] = True
    over = dict(na_atts)
    over.update(op["override"])
    if "ORG" not in over:
        inst = dict(map(tuple, d["gattrs"]))["institution"]
        over["ORG"] = "Second" if inst == INSTITUTION[1] else inst
    a = {"op": "nc2na", "src": src, "out": "out.txt", "top": u, "csv": op["csv"], "args": args, "override": op["override"]}
    return a, dict(a, src=ref, override=over)


def judge_nc(op, a, u, got, want, user_labels, na_atts, nc_atts):
    delim = "," if op["csv"] else "    "
    if op["annotation"]:
        want = {f: "\n".join(relabel(x, user_labels, delim) if x else x for x in t.split("\n")) for f, t in want.items()}
    diff = outputs.first_difference(want, got)
    if diff:
        raise Violation("%s with attributes %r / %r, overrides %r: expected / got %s" % (op["op"], na_atts, nc_atts, op["override"], diff))
    # what the file lists is what the header holds
    if op["annotation"] or op["no_header"]:
        return
    over = dict(na_atts)
    over.update(op["override"])
    for f, text in got.items():
        lines = text.split("\n")
        for k, line in (("ONAME", 1), ("ORG", 2), ("SNAME", 3), ("MNAME", 4)):
            if k in over and lines[line].strip() != raw(over[k]).strip():
                raise Violation("%s of %s is %r, the attributes file and overrides say %r" % (k, f, lines[line], over[k]))
        toks = re.split(r"[\s,]+", lines[6].strip())
        for k, n in (("DATE", 0), ("RDATE", 3)):
            if k in over and [int(x) for x in toks[n:n + 3]] != [int(x) for x in over[k].split()]:
                raise Violation("%s of %s is in line %r, the attributes file and overrides say %r" % (k, f, lines[6], over[k]))
        for k in ("SCOM", "NCOM"):
            for c in raw(over.get(k, "")).split("\n"):
                if c and c.strip() not in [x.strip() for x in lines]:
                    raise Violation("%s line %r of the attributes file or overrides is not in %s" % (k, c, f))


SUBS = [
    Sub("configured", s_case, check, 96, 3000, "annotations and attributes files of any layout, set for a fresh process that writes and converts several generated files; non-trivial = a file was set",
        cpu=30.0),
]
ASSUMPTIONS = ["An annotations file labels every item; an attributes file has both sections.",
               "An attributes file lists texts, dates and comment lines (lists of names fit only some outputs)."]
