"""C24: independent calls from several threads do not disturb one another."""
import copy
import importlib
import os
import pickle
import signal
import sys

from hypothesis import strategies as st

from . import gen, ncgen, ncmodel, outputs, sched, session
from .core import HarnessError, Sub, Violation, describe, fmt_short
from .p_c01 import FORMATS
from .p_c10 import na_for_nc, write_na

FILE_KINDS = ["write", "write", "write", "read", "read", "read", "header", "csv", "csv", "pattern", "translate", "compare_free"]
CONVERT_KINDS = ["na2nc", "xread", "x2na", "nc2na", "nc2na", "nc2csv", "csv", "read", "write"]
DELIMS = [None, ",", "\t", ";"]


def s_job(kinds):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(kinds), "i": st.integers(0, 2), "fmt": st.none() | st.sampled_from(FORMATS), "delim": st.sampled_from(DELIMS),
        "annotation": st.booleans(), "no_header": st.integers(0, 3).map(lambda i: i == 0), "limit": st.sampled_from([None, None, 1, 2]),
        "over": st.booleans(),
    })


def s_schedule():
    step = st.one_of(st.integers(1, 12), st.integers(1, 60), st.integers(1, 400))
    return st.lists(st.tuples(step, st.integers(0, 2)).map(list), min_size=1, max_size=12)


def s_case(kinds, nc):
    def make():
        d = {
            "nas": st.lists(st.tuples(na_for_nc(max_marks=3, max_aux=2, wide=False) if nc else gen.na_dict(max_marks=3, max_aux=2, wide=False),
                                      st.lists(st.integers(0, 119), min_size=1, max_size=3)).map(list), min_size=1, max_size=3),
            "threads": st.lists(st.lists(s_job(kinds), min_size=1, max_size=2 if nc else 3), min_size=2, max_size=3),
            "schedule": s_schedule(),
        }
        if nc:
            d["ncs"] = st.lists(ncgen.dataset(max_vars=3, max_len=3), min_size=1, max_size=2)
        return st.fixed_dictionaries(d)
    return make


def perform(job, case, src, out):
    """One call (or a short series of them on one object); returns something comparable."""
    import nappy
    import nappy.utils.ffi_translator
    kind = job["kind"]
    k = job["i"] % len(case["nas"])
    na = os.path.join(src, "na%d.na" % k)
    opts = session.given(float_format=job["fmt"], annotation=job["annotation"] or None, no_header=job["no_header"] or None)
    delim = session.given(delimiter=job["delim"])
    if kind == "write":
        with nappy.openNAFile(out + ".na", "w", na_dict=copy.deepcopy(case["nas"][k][0])) as f:
            f.write(**delim, **opts)
        return None
    if kind in ("read", "header", "pattern"):
        f = nappy.openNAFile(na)
        if kind == "pattern":
            import re
            f.var_and_units_pattern = re.compile(r"^(.?)(.?)(.*)$")
        r = [f.getVariables(), f.getIndependentVariables(), f.getAuxVariables(), f.getFFI(), f.getVolumes(), f.getFileDates()]
        if kind == "read":
            f.readData()
            r.append(f.getNADict())
        f.close()
        return r
    if kind == "csv":
        nappy.convertNAToCSV(na, out + ".csv", annotation=job["annotation"], no_header=job["no_header"])
        return None
    if kind == "translate":
        d = case["nas"][k][0]
        return nappy.utils.ffi_translator.translate2010To2110(d) if d["FFI"] == 2010 else None
    if kind == "compare_free":
        return [nappy.readFFI(na), nappy.chooseFFI(case["nas"][k][0]), nappy.getNAFileClass(case["nas"][k][0]["FFI"]).__name__]
    if kind == "na2nc":
        return os.path.basename(str(nappy.convertNAToNC(na, out + ".nc", time_warning=False, time_units=ncmodel.TIME_UNITS[0])))
    if kind in ("xread", "x2na"):
        xs, aux, attrs = nappy.readXarrayObjectsFromNA(na)
        if kind == "xread":
            return [list(xs), list(aux), list(attrs)]
        fs = nappy.convertXarrayObjectsToNA(list(xs) + list(aux), attrs, out + ".na", **session.given(size_limit=job["limit"]), **delim, **opts)
        return [os.path.basename(f) for f in fs]
    nc = os.path.join(src, "nc%d.nc" % (job["i"] % len(case["ncs"])))
    kw = dict(opts, **session.given(size_limit=job["limit"], na_items_to_override={"ONAME": "Me", "SCOM": ["mine"], "NCOM": ["ours"]} if job["over"] else None))
    if kind == "nc2na":
        fs = nappy.convertNCToNA(nc, out + ".na", **delim, **kw)
    else:
        fs = nappy.convertNCToCSV(nc, out + ".csv", **kw)
    return [os.path.basename(f) for f in fs]


def attempt(job, case, src, out):
    try:
        return ["done", session.frozen(perform(job, case, src, out))]
    except Exception as e:
        return ["error", type(e).__name__, outputs.norm_text(str(e)).replace(os.path.dirname(out), "")]


MODULES = ["nappy", "nappy.nc_interface.na_to_nc", "nappy.nc_interface.nc_to_na", "nappy.nc_interface.xarray_objs_to_na_files",
           "nappy.nc_interface.xarray_to_na", "nappy.utils.ffi_translator"] + ["nappy.na_file.na_file_%d" % f for f in gen.FFIS]


def prepare(case, ctx):
    """The input files; the calls of each thread with the names of their outputs."""
    src = ctx.path("src")
    for d in (src, ctx.path("alone"), ctx.path("both")):
        os.mkdir(d)
    for k, (na, layout) in enumerate(case["nas"]):
        write_na(na, layout, os.path.join(src, "na%d.na" % k))
    for k, d in enumerate(case.get("ncs", [])):
        ncgen.write(d, os.path.join(src, "nc%d.nc" % k))
    return [[(j, "t%d_%d" % (t, n)) for n, j in enumerate(js)] for t, js in enumerate(case["threads"])]


def alone(jobs, case, ctx):
    return [[attempt(j, case, ctx.path("src"), ctx.path(os.path.join("alone", name))) for j, name in js] for js in jobs]


def together(jobs, case, ctx):
    """The results of the threads, and the number of changes of turn."""
    nappy = importlib.import_module("nappy")
    turns = sched.Turns(os.path.dirname(nappy.__file__), case["schedule"])
    got = turns.run([lambda js=js: [attempt(j, case, ctx.path("src"), ctx.path(os.path.join("both", name))) for j, name in js] for js in jobs])
    return [r if r[0] == "done" else ("error", describe(r[1])) for r in got], turns.passed


def judge(case, ctx, jobs, expected, got, passed):
    ok = sum(r[0] == "done" for rs in expected for r in rs)
    ctx.note(passed >= 3 and ok >= 2, *{j["kind"] for js in case["threads"] for j in js}, "%s changes of turn" % ("no" if not passed else "1-9" if passed < 10 else "10-99" if passed < 100 else "100 or more"))
    for t, (how, res) in enumerate(got):
        if how == "error":
            raise Violation("thread %d ended with %s" % (t, res))
        for (job, name), a, b in zip(jobs[t], expected[t], res):
            if a != b:
                raise Violation("%s in thread %d (%s) gives %s, alone %s" % ((job["kind"], t, name) + tuple(fmt_short(repr(x), 300) for x in session.diff(b, a))))
    d = outputs.first_difference(outputs.files_form(ctx.path("both")), outputs.files_form(ctx.path("alone")))
    if d:
        raise Violation("the calls in threads leave other files than the calls one after the other: " + d)


def check(case, ctx):
    jobs = prepare(case, ctx)
    for m in MODULES:
        importlib.import_module(m)          # before the threads start
    stdin, sys.stdin = sys.stdin, open(os.devnull)
    try:
        with ctx.sut("the calls one after the other"):
            expected = alone(jobs, case, ctx)
        with ctx.sut("the calls in threads"):
            got, passed = together(jobs, case, ctx)
    finally:
        sys.stdin.close()
        sys.stdin = stdin
    judge(case, ctx, jobs, expected, got, passed)


def check_first(case, ctx):
    """The threads make the first calls of a process in which nappy has only been imported."""
    jobs = prepare(case, ctx)
    ctx.entered = True
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(200)
            os.close(r)
            sys.stdin = open(os.devnull)
            for name in [m for m in sys.modules if m == "nappy" or m.startswith("nappy.")]:
                del sys.modules[name]
            for m in MODULES:
                importlib.import_module(m)
            try:
                got, passed = together(jobs, case, ctx)
                res = ("done", alone(jobs, case, ctx), got, passed)
            except BaseException as e:
                res = ("error", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            text = f.read()
    finally:
        os.waitpid(pid, 0)
    if not text:
        raise HarnessError("the process of the threads ended early")
    res = pickle.loads(text)
    if res[0] == "error":
        raise HarnessError("the process of the threads failed: " + res[1])
    judge(case, ctx, jobs, *res[1:])


SUBS = [
    Sub("files", s_case(FILE_KINDS, False), check, 1000, 40000,
        "2-3 threads of 1-3 calls that read, write and translate NASA Ames files, their turns passed at generated lines of nappy; non-trivial = at least three changes of turn in the middle of a call and two successful calls", cpu=120.0),
    Sub("conversions", s_case(CONVERT_KINDS, True), check, 300, 12000,
        "2-3 threads of 1-2 calls that convert to and from NetCDF, CSV and in-memory objects; non-trivial as before", cpu=120.0),
    Sub("first", s_case(["write", "read", "csv", "nc2na", "nc2na", "na2nc", "x2na", "nc2csv"], True), check_first, 240, 12000,
        "2-3 threads of 1-2 calls which are the first ones of a process; non-trivial as before", cpu=120.0),
]
ASSUMPTIONS = ["Turns pass at line boundaries of Python code below nappy; the libraries it uses run undisturbed.", "Modules are imported before the threads start.", "Every call works on output files of its own."]
