"""C18: conversions are independent of what ran before and keep their inputs intact."""
import datetime
import os

from hypothesis import strategies as st

from . import gen, ncgen, ncmodel, session, zygote
from .core import HarnessError, Sub, Violation, fmt_short
from .outputs import first_difference
from .p_c10 import na_for_nc
from .p_c17 import DELIMS, FORMATS, pairs

KINDS = ["na2nc", "na2nc", "na2csv", "nc2na", "nc2na", "nc2na", "nc2csv", "names", "read", "header", "write", "dict2nc", "xread", "xget", "x2na", "x2na",
         "class_write", "class_write", "class_names", "class_nc", "dataset_write", "ffi", "replace"]
WRITERS = {"na2nc", "na2csv", "nc2na", "nc2csv", "write", "dict2nc", "x2na", "class_write", "class_nc", "dataset_write"}


def maybe(s, n=2):
    return st.one_of(*[st.none()] * n, s)


def s_options():
    return st.fixed_dictionaries({
        "fmt": maybe(st.sampled_from(FORMATS)), "delim": maybe(st.sampled_from([d for d in DELIMS if d != "\\t"])), "limit": maybe(st.sampled_from([1, 2, 3])),
        "annotation": st.integers(0, 3).map(lambda i: i == 0), "no_header": st.integers(0, 3).map(lambda i: i == 0),
        "over": maybe(st.integers(0, 1), 1), "gattrs": maybe(st.integers(0, 1), 1), "rename": maybe(st.just(0)), "units": maybe(st.sampled_from(ncmodel.TIME_UNITS)),
        "vars": maybe(st.integers(0, 1)), "exclude": maybe(st.integers(0, 1), 4), "ffi": maybe(st.sampled_from([1001, 2010, 3010, 77]), 4),
        "mode": maybe(st.sampled_from(["w", "a"])), "index": st.integers(0, 1), "from_na": st.booleans(),
    })


def s_event(kinds):
    return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "i": st.integers(0, 1), "o": s_options(), "clobber": st.booleans(),
                                  "out": st.sampled_from(["out0", "out1", "out2", "dir/out"]), "onto": st.sampled_from([False, True]),
                                  "name": st.sampled_from(["na0.na", "na1.na", "nc0.nc", "nc1.nc"]), "which": st.integers(0, 3)})


def s_over():
    texts = pairs(["ONAME", "ORG", "SNAME", "MNAME", "SCOM", "NCOM"]).map(dict)
    lists = st.fixed_dictionaries({}, optional={
        "SCOM": st.lists(st.sampled_from(["my comment", "another one", "third"]), min_size=1, max_size=2),
        "NCOM": st.lists(st.sampled_from(["my comment", "another one", "third"]), min_size=1, max_size=2),
        "DATE": gen._dates(), "RDATE": gen._dates()})
    return st.tuples(texts, lists).map(lambda t: dict(t[0], **t[1]))


def s_case(kinds, lo, hi):
    return lambda: st.fixed_dictionaries({
        "nas": st.lists(st.tuples(na_for_nc(max_marks=3, max_aux=2, wide=False), st.lists(st.integers(0, 119), min_size=1, max_size=3)), min_size=1, max_size=2),
        "ncs": st.lists(ncgen.dataset(max_vars=4, max_len=3, wild=True), min_size=1, max_size=2),
        "dicts": st.lists(gen.na_dict(with_ffi=True, max_marks=3, max_aux=2, wide=False), min_size=1, max_size=2),
        "ncdicts": st.lists(na_for_nc(max_marks=3, max_aux=2, wide=False, with_ffi=True), min_size=1, max_size=2),
        "overs": st.lists(s_over(), min_size=1, max_size=2),
        "gattrs": st.lists(pairs(["Project", "Errata", "comment", "title", "history", "institution"]), min_size=1, max_size=2),
        "renames": st.just([[["temperature", "renamed"]]]),
        "indices": st.sampled_from([[[0]], [[0], [1, 0]]]),
        "names": st.lists(st.lists(st.sampled_from(ncgen.VNAMES[:4]), min_size=1, max_size=3), min_size=1, max_size=2),
        "events": st.lists(s_event(kinds), min_size=lo, max_size=hi),
        "like": st.lists(st.integers(0, 8), min_size=hi, max_size=hi),
    })


def likened(case):
    """Makes some events work on the same objects as an event before them."""
    evs = [dict(e, o=dict(e["o"])) for e in case["events"]]
    for k, e in enumerate(evs):
        j = case["like"][k]
        if j < k:
            e["i"] = evs[j]["i"]
            for x in ("over", "ffi", "gattrs", "units", "from_na"):
                e["o"][x] = evs[j]["o"][x]
    return dict(case, events=evs)


def run(zy, work, out, func, args, what):
    try:
        status, res, err = zy.run(work, out, func, args)
    except OSError as e:
        raise HarnessError(str(e))
    if res is None:
        if err:
            raise HarnessError(err)
        raise Violation("%s: the process died (status %r)" % (what, status))
    return res


def check(case, ctx):
    case = likened(case)
    zy, zy2 = zygote.get(1), zygote.get(2)
    day = datetime.date.today()
    top = ctx.dir
    work = os.path.join(top, "seq", "work")
    os.makedirs(os.path.join(work, "dir"))
    old = os.getcwd()
    os.chdir(work)
    try:
        for i in (0, 1):
            session.put(case, "na%d.na" % i, i % len(case["nas"]))
            session.put(case, "nc%d.nc" % i, i % len(case["ncs"]))
    finally:
        os.chdir(old)
    ctx.entered = True
    seq = run(zy, work, os.path.join(top, "seq.out"), "vp.session:run_sequence", {"case": case}, "the sequence")
    kinds = [e["kind"] for e in case["events"]]
    records = seq["records"]
    done = [k for k, r in enumerate(records) if r and r["result"][0] == "done"]
    ctx.note(len(done) >= 2, *set(kinds), "refused call" if any(r and r["result"][0] == "error" for r in records) else "")
    for k, r in enumerate(records):
        if r is None:
            continue
        ev = case["events"][k]
        what = "call %d (%s), after %s" % (k + 1, ev["kind"], ", ".join(kinds[:k]) or "nothing")
        if r["modified"]:
            raise Violation("%s: %s" % (what, r["modified"]))
        if r["cwd"] != "work":
            raise Violation("%s changed the current directory" % what)
        bad = [f for f in r["files"] if f.startswith(("na", "nc")) and not (ev["kind"] == "na2nc" and ev["onto"] and f == "nc%d.nc" % ev["i"])]
        if bad:
            raise Violation("%s changed its input files %r" % (what, bad))
        if r["files"] and ev["kind"] not in WRITERS:
            raise Violation("%s wrote files %r" % (what, sorted(r["files"])))
        alone = run(zy2, os.path.join(top, "seq", "s%d" % k, "work"), os.path.join(top, "s%d.out" % k), "vp.session:run_single", {"case": case, "k": k}, what + " alone")
        a = alone["records"][0]
        if datetime.date.today() != day:
            return
        if a["result"] != r["result"]:
            raise Violation("%s gives %s, in a fresh process %s" % ((what,) + tuple(fmt_short(repr(x), 400) for x in session.diff(r["result"], a["result"]))))
        d = first_difference(r["files"], a["files"])
        if d:
            raise Violation("%s leaves other files than in a fresh process: %s" % (what, d))
        if alone["environment"] != seq["environment"]:
            raise Violation("the calls changed the configuration or settings of the process: %s / %s" % tuple(
                fmt_short(repr(x), 400) for x in session.diff(seq["environment"], alone["environment"])))


SUBS = [
    Sub("sequences", s_case(KINDS, 2, 6), check, 420, 15000,
        "sequences of 2-6 calls of the whole API on shared files and shared argument objects, each compared with the same call in a forked process that did nothing else; non-trivial = two or more calls succeed", cpu=120.0),
    Sub("convertors", s_case(["class_write", "class_write", "class_names", "dataset_write", "dataset_write", "class_nc", "na2nc", "x2na"], 2, 4), check, 300, 10000, "the same, for convertor objects and in-memory objects used several times", cpu=120.0),
    Sub("netcdf_sequences", s_case(["nc2na", "nc2csv", "x2na", "class_write", "class_names", "dataset_write", "names", "replace"], 2, 5), check, 240, 10000, "the same, for conversions from NetCDF only", cpu=120.0),
]
ASSUMPTIONS = ["A fresh process is a fork of one that has only imported the package (and orders sets by another hash seed).", "Times of conversion are left out of the comparison.",
               "openNAFile fills a missing FFI into the dictionary it is given (documented use); the dictionaries here have one."]
