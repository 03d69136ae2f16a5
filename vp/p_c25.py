"""C25: output that cannot be written completely is reported."""
import contextlib
import copy
import gc
import os
import resource
import sys

from hypothesis import strategies as st

from . import gen, ncgen, ncmodel, outputs, session
from .core import Sub, Violation, fmt_short
from .p_c01 import FORMATS
from .p_c10 import na_for_nc, write_na
from .p_c17 import run_tool

DELIMS = [None, ",", "\t", ";"]
OVER = {"ONAME": "Me", "SCOM": ["mine"], "NCOM": ["ours"]}


_sweeps = [0]


def sweep():
    """Collects what the call left; for speed, what has been there for some time is left aside."""
    gc.collect()
    if _sweeps[0] % 20 < 2:
        gc.freeze()
    _sweeps[0] += 1


def s_opts():
    return {"fmt": st.none() | st.sampled_from(FORMATS), "delim": st.sampled_from(DELIMS), "annotation": st.booleans(),
            "no_header": st.integers(0, 3).map(lambda i: i == 0), "limit": st.sampled_from([None, None, 1, 2])}


def s_full(kinds, nc):
    def make():
        d = dict(s_opts(), kind=st.sampled_from(kinds), cut=st.one_of(st.integers(0, 10**6), st.integers(-3, 3)),
                 na=na_for_nc(max_marks=4, max_aux=2) if nc else gen.na_dict(with_ffi=True),
                 layout=st.lists(st.integers(0, 119), min_size=1, max_size=3), long=st.integers(0, 3).map(lambda i: i == 0))
        if nc:
            d["nc"] = ncgen.dataset(max_vars=4, max_len=4)
        return st.fixed_dictionaries(d)
    return make


@contextlib.contextmanager
def largest_file(n):
    """No file can grow beyond n bytes in the block, as on a full disk."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def perform(case, src, out):
    """The call; output files are named after `out`."""
    import nappy
    import nappy.nc_interface.nc_to_na
    kind = case["kind"]
    opts = session.given(float_format=case["fmt"], annotation=case["annotation"] or None, no_header=case["no_header"] or None)
    delim = session.given(delimiter=case["delim"])
    size = session.given(size_limit=case["limit"])
    if kind == "write":
        f = nappy.openNAFile(out + ".na", "w", na_dict=copy.deepcopy(case["na"]))
        f.write(**delim, **opts)
        f.close()
    elif kind == "with":
        with nappy.openNAFile(out + ".na", "w", na_dict=copy.deepcopy(case["na"])) as f:
            f.write(**delim, **opts)
    elif kind == "csv":
        nappy.convertNAToCSV(src + ".na", out + ".csv", annotation=case["annotation"], no_header=case["no_header"])
    elif kind == "x2na":
        xs, aux, attrs = nappy.readXarrayObjectsFromNA(src + ".na")
        nappy.convertXarrayObjectsToNA(list(xs) + list(aux), attrs, out + ".na", **size, **delim, **opts)
    elif kind == "nc2na":
        nappy.convertNCToNA(src + ".nc", out + ".na", **size, **delim, **opts)
    elif kind == "nc2csv":
        nappy.convertNCToCSV(src + ".nc", out + ".csv", **size, **opts)
    elif kind == "na2nc":
        nappy.convertNAToNC(src + ".na", out + ".nc", time_warning=False, time_units=ncmodel.TIME_UNITS[0])
    elif kind == "tool":            # by its status, 0 for success
        nc2na = case["layout"][0] % 2
        argv = ["-i", src + ".nc", "-o", out + (".na" if nc2na else ".csv")]
        argv += ["-l", str(case["limit"])] if case["limit"] else []
        argv += ["--annotated"] if case["annotation"] else []
        argv += ["--no-header"] if case["no_header"] else []
        (how, value), text = run_tool("nc2na" if nc2na else "nc2csv", argv, ["module", "console"][case["layout"][0] // 2 % 2], os.path.dirname(src))
        if how == "error":
            raise value
        if how == "exit" and value not in (None, 0):
            raise RuntimeError("the tool ended with status %s" % fmt_short(value))
    elif kind == "dict2nc":
        nappy.writeNADictToNC(copy.deepcopy(case["na"]), out + ".nc")


def prepare(case, ctx):
    """The inputs; the name they share without extension."""
    na = case["na"]
    if case.get("long"):            # more than one buffer
        na["NCOM"] = na["NCOM"] + ["a long comment number %d that fills the header of the file" % i for i in range(200)]
        na["NNCOML"] = len(na["NCOM"])
    os.mkdir(ctx.path("src"))
    src = ctx.path(os.path.join("src", "in"))
    write_na(na, case["layout"], src + ".na")
    if "nc" in case:
        ncgen.write(case["nc"], src + ".nc")
    return src


def plain(case, ctx, src):
    """What the call leaves when nothing is in its way; None if it refuses these contents anyway."""
    os.mkdir(ctx.path("plain"))
    try:
        ctx.entered = True
        with ctx._watch("the undisturbed call"):
            perform(case, src, ctx.path("plain/out"))
    except Exception:
        return None
    return outputs.files_form(ctx.path("plain"))


def again(case, ctx, src, where, expected, what):
    sweep()
    with ctx.sut("the same call, " + what):
        perform(case, src, os.path.join(where, "out"))
    d = outputs.first_difference(outputs.files_form(where), expected)
    if d:
        raise Violation("the same call, %s, gives other files than an undisturbed one: %s" % (what, d))


@contextlib.contextmanager
def no_terminal():
    stdin, sys.stdin = sys.stdin, open(os.devnull)
    stderr, sys.stderr = sys.stderr, open(os.devnull, "w")      # complaints about objects that cannot be closed
    try:
        yield
    finally:
        sweep()
        sys.stdin.close()
        sys.stderr.close()
        sys.stdin, sys.stderr = stdin, stderr


def inputs_kept(src, before):
    d = outputs.first_difference(outputs.files_form(os.path.dirname(src)), before)
    if d:
        raise Violation("the failed call changed its input: " + d)


def check_full(case, ctx):
    with no_terminal():
        src = prepare(case, ctx)
        before = outputs.files_form(os.path.dirname(src))
        expected = plain(case, ctx, src)
        if not expected:
            ctx.note(False, "refused anyway")
            return
        sizes = [os.path.getsize(ctx.path("plain/" + f)) for f in expected]
        n = max(sizes) + case["cut"] if -4 < case["cut"] < 4 else case["cut"] % (max(sizes) + 1)
        n = max(n, 0)
        fits = n >= max(sizes)
        ctx.note(not fits, case["kind"], "full from the start" if n == 0 else "", "several files" if len(sizes) > 1 else "",
                 "fits" if fits else "one byte short" if n == max(sizes) - 1 else "in the middle", "more than a buffer" if max(sizes) > 8192 else "")
        where = ctx.path("where")
        os.mkdir(where)
        if fits:
            with largest_file(n):
                again(case, ctx, src, where, expected, "when all of the output fits on the disk")
            return
        with largest_file(n):
            with ctx.must_raise("%s on a disk that has no room for the output (%d of %d bytes)" % (case["kind"], n, max(sizes))):
                perform(case, src, os.path.join(where, "out"))
        inputs_kept(src, before)
        again(case, ctx, src, where, expected, "when there is room again")
        inputs_kept(src, before)


def s_place(nc):
    def make():
        kinds = ["na2nc", "dict2nc", "x2na", "nc2na", "nc2csv", "tool"] if nc else ["write", "with", "csv"]
        d = dict(s_opts(), kind=st.sampled_from(kinds), obstacle=st.sampled_from(["no folder", "no folder", "a file for a folder", "a folder for a file"]),
                 na=na_for_nc(max_marks=3, max_aux=2, wide=False, with_ffi=True) if nc else gen.na_dict(with_ffi=True, max_marks=3, max_aux=2, wide=False),
                 layout=st.lists(st.integers(0, 119), min_size=1, max_size=3), which=st.integers(0, 5))
        if nc:
            d["nc"] = ncgen.dataset(max_vars=4, max_len=4)
        return st.fixed_dictionaries(d)
    return make


def check_place(case, ctx):
    with no_terminal():
        src = prepare(case, ctx)
        before = outputs.files_form(os.path.dirname(src))
        expected = plain(case, ctx, src)
        if not expected:
            ctx.note(False, "refused anyway")
            return
        ctx.note(True, case["kind"], case["obstacle"], "several files" if len(expected) > 1 else "")
        where = ctx.path("where")
        if case["obstacle"] == "a file for a folder":
            with open(where, "w") as f:
                f.write("in the way")
        elif case["obstacle"] == "a folder for a file":
            os.mkdir(where)
            name = sorted(expected)[case["which"] % len(expected)]
            os.mkdir(os.path.join(where, name))
        with ctx.must_raise("%s where there is %s" % (case["kind"], case["obstacle"])):
            perform(case, src, os.path.join(where, "out"))
        inputs_kept(src, before)
        if case["obstacle"] == "a file for a folder":
            with open(where) as f:
                if f.read() != "in the way":
                    raise Violation("the failed call changed another file")
            os.remove(where)
            os.mkdir(where)
        elif case["obstacle"] == "a folder for a file":
            if not os.path.isdir(os.path.join(where, name)) or os.listdir(os.path.join(where, name)):
                raise Violation("the failed call changed the folder in its way: %s" % fmt_short(os.listdir(where)))
            os.rmdir(os.path.join(where, name))
        else:
            if os.path.lexists(where):
                raise Violation("the failed call made a folder: %s" % fmt_short(os.listdir(where)))
            os.mkdir(where)
        again(case, ctx, src, where, expected, "when nothing is in its way any more")
        inputs_kept(src, before)


SUBS = [
    Sub("full", s_full(["write", "write", "with", "csv"], False), check_full, 1500, 60000,
        "one write (or conversion to CSV) while no file can grow beyond a generated number of bytes; non-trivial = the output does not fit"),
    Sub("full_conversions", s_full(["x2na", "nc2na", "nc2csv", "tool"], True), check_full, 300, 12000,
        "the same for conversions from NetCDF and in-memory objects, of one or several output files", cpu=60.0),
    Sub("place", s_place(False), check_place, 600, 20000,
        "one write (or conversion to CSV) to a place that is missing or taken, and again when it is there; non-trivial = the undisturbed call succeeds"),
    Sub("place_conversions", s_place(True), check_place, 240, 10000, "the same for conversions to and from NetCDF and in-memory objects", cpu=60.0),
]
ASSUMPTIONS = ["A full disk is a limit on the size of files (RLIMIT_FSIZE), in force during the call.", "NetCDF output on a full disk is left to the NetCDF library."]
