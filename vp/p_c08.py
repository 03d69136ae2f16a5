"""C08: life cycle of file objects (stateful, model based)."""
import copy
import gc
import os
import weakref

from hypothesis import strategies as st

from . import gen
from .core import Sub, Violation, HarnessError

OPTS = [{}, {"delimiter": ","}, {"annotation": True}, {"no_header": True}, {"float_format": "%.3f"}, {"delimiter": "\t", "annotation": True}]
OPS = ["open_w", "open_w", "write", "write", "write", "bad_write", "bad_write", "close", "close", "open_r", "read", "with_w", "with_fail", "with_r", "forget", "bad_open", "class_w"]


def case_strategy():
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 3), st.integers(0, 5), st.integers(0, len(OPTS) - 1)).map(list)
    return st.fixed_dictionaries({
        "nas": st.lists(gen.na_dict(max_marks=3, max_aux=2, wide=False, texts=False), min_size=1, max_size=2),
        "ops": st.lists(op, min_size=4, max_size=16),
    })


def damaged(na, kind):
    """A copy of the dictionary that cannot be written, whatever the options; kind 0-1: also the header fails."""
    d = copy.deepcopy(na)
    leaves = []

    def collect(x):
        for k, v in enumerate(x):
            if isinstance(v, list):
                collect(v)
            else:
                leaves.append((x, k))
    collect(d["V"])
    if kind == 0 or not leaves:
        d["VNAME"] = d["V"] = None
    elif kind == 1:
        d["NV"] = "two"
        d["V"] = 5
    else:
        x, k = leaves[-1 if kind == 2 else 0]
        x[k] = None if kind == 2 else "much"
    return d


class Obj:
    def __init__(self, f, mode, path, na):
        self.f, self.mode, self.path, self.na = f, mode, path, na
        self.written = False
        self.open = True


def check(case, ctx):
    import nappy
    nas = case["nas"]
    cache = {}

    def expected(i, o):
        """The file one plain write gives."""
        if (i, o) not in cache:
            p = ctx.path("expected%d_%d" % (i, o))
            with ctx.sut("a plain write"):
                f = nappy.openNAFile(p, "w", na_dict=copy.deepcopy(nas[i]))
                f.write(**OPTS[o])
                f.close()
            with open(p, "rb") as fh:
                cache[i, o] = fh.read()
        return cache[i, o]

    disk = {}               # path -> bytes (the model)
    readable = set()        # paths that hold a complete, plainly delimited file with header
    objs = []
    forgotten = []          # objects that went away without being closed (and may still be referred to)
    refused = accepted = 0

    def disk_ok(what):
        for p, b in disk.items():
            with open(p, "rb") as fh:
                got = fh.read()
            if got != b:
                raise Violation("after %s the file holds %d bytes, expected %d: %r... instead of %r..." % (what, len(got), len(b), got[:80], b[:80]))
        names = {os.path.basename(p) for p in disk}
        extra = [n for n in os.listdir(ctx.dir) if not n.startswith("expected") and n not in names]
        if extra:
            raise Violation("after %s there is an unexpected file %s" % (what, extra))

    def closed(path):
        """No more open files on the path than open objects."""
        allowed = sum(1 for o in objs if o.path == path and o.open)
        if held(path) > allowed:
            gc.collect()
            allowed += sum(1 for p, ref in forgotten if p == path and ref() is not None)
            if held(path) > allowed:
                raise Violation("closing or leaving the with-block did not close the file")

    def held(path):
        n = 0
        for fd in os.listdir("/proc/self/fd"):
            try:
                n += os.readlink("/proc/self/fd/" + fd) == path
            except OSError:
                pass
        return n

    def busy(path):
        return any(o.path == path and o.mode == "w" and o.open for o in objs)

    def do_write(obj, o, what):
        """One write through obj; the model decides whether it has to be accepted."""
        nonlocal refused, accepted
        if obj.mode == "w" and obj.open and not obj.written:
            data = expected(obj.na, o)
            with ctx.sut(what):
                obj.f.write(**OPTS[o])
            obj.written = True
            disk[obj.path] = data
            if o in (0, 4):
                readable.add(obj.path)
            accepted += 1
        else:
            state = "a reader" if obj.mode == "r" else "closed" if not obj.open else "already written"
            with ctx.must_raise("writing through an object that is %s" % state):
                obj.f.write(**OPTS[o])
            refused += 1

    def bad_write(obj, kind, o):
        """A write of contents that cannot be written: it leaves nothing behind, and does not count."""
        nonlocal refused
        if obj.mode != "w" or not obj.open or obj.written:
            return
        bad = damaged(nas[obj.na], kind)
        if bad["VNAME"] is None and "no_header" in OPTS[o]:     # nothing at all to write
            return
        obj.f.setNADict(bad)
        with ctx.must_raise("writing a dictionary with a missing or wrong item (%d)" % kind):
            obj.f.write(**OPTS[o])
        obj.f.setNADict(nas[obj.na])
        refused += 1

    def open_w(path, i, direct=False):
        with ctx.sut("opening for writing"):
            if direct:
                f = nappy.getNAFileClass(nas[i]["FFI"])(path, mode="w", na_dict=copy.deepcopy(nas[i]))
            else:
                f = nappy.openNAFile(path, "w", na_dict=copy.deepcopy(nas[i]))
        disk[path] = b""
        readable.discard(path)
        return Obj(f, "w", path, i)

    for step, (op, a, b, o) in enumerate(case["ops"]):
        path = ctx.path("file%d.na" % (a % 3))
        i = b % len(nas)
        what = "%s (step %d)" % (op, step + 1)
        f = g = obj = None
        if op in ("open_w", "class_w"):
            if not busy(path):
                objs.append(open_w(path, i, op == "class_w"))
        elif op == "write" and objs:
            do_write(objs[b % len(objs)], o, "the first write")
        elif op == "bad_write" and objs:
            bad_write(objs[b % len(objs)], a, o)
        elif op == "close" and objs:
            obj = objs[b % len(objs)]
            with ctx.sut("closing" if obj.open else "closing again"):
                obj.f.close()
            obj.open = False
            closed(obj.path)
        elif op in ("open_r", "with_r"):
            if path in readable and not busy(path):
                with ctx.sut("opening for reading"):
                    f = nappy.openNAFile(path)
                obj = Obj(f, "r", path, None)
                if op == "with_r":
                    with ctx.sut("reading in a with-block"):
                        with f as g:
                            if g is not f:
                                raise Violation("the with-block does not hand out the file object")
                            g.readData()
                    obj.open = False
                objs.append(obj)
                if op == "with_r":
                    closed(path)
            elif path not in disk:
                with ctx.must_raise("opening a missing file for reading"):
                    nappy.openNAFile(path)
                refused += 1
        elif op == "read" and objs:
            obj = objs[b % len(objs)]
            if obj.mode == "r" and obj.path in readable and obj.open:
                with ctx.sut("reading the data"):
                    obj.f.readData()
        elif op in ("with_w", "with_fail"):
            if not busy(path):
                obj = open_w(path, i)
                objs.append(obj)
                try:
                    with obj.f as g:
                        do_write(Obj_view(obj, g), o, "a write in a with-block")
                        disk_ok(what)
                        if op == "with_fail":
                            raise KeyError("left early")
                except KeyError:
                    if op != "with_fail":
                        raise
                else:
                    if op == "with_fail":
                        raise Violation("the with-block swallowed an exception")
                obj.open = False
                closed(path)
        elif op == "forget" and objs:
            # the object goes away without being closed
            k = b % len(objs)
            obj = objs.pop(k)
            forgotten.append((obj.path, weakref.ref(obj.f)))
            obj.f = obj = f = g = None
            gc.collect(0)
        elif op == "bad_open":
            bad = [lambda: nappy.openNAFile(path, "x", na_dict=copy.deepcopy(nas[i])),
                   lambda: nappy.openNAFile(path, "a", na_dict=copy.deepcopy(nas[i])),
                   lambda: nappy.openNAFile(path, "rw"),
                   lambda: nappy.openNAFile(path, "w", na_dict=dict(nas[i], FFI=9999)),
                   lambda: nappy.openNAFile(path, "w", na_dict={"NIV": 5}),
                   lambda: nappy.openNAFile(path, "w")][b]
            with ctx.must_raise("opening with a wrong mode or contents dictionary (%d)" % b):
                bad()
            refused += 1
        disk_ok(what)
    for obj in objs:
        with ctx.sut("closing at the end"):
            obj.f.close()
    disk_ok("closing everything")
    ctx.note(refused >= 1 and accepted >= 1, *{x[0] for x in case["ops"]})


def Obj_view(obj, g):
    obj.f = g
    return obj


SUBS = [Sub("history", case_strategy, check, 4000, 100000,
            "histories of 4-16 operations (open, write, close, read, with-blocks, dropping objects, wrong modes) on up to three paths, judged after "
            "every operation against a model of the files; non-trivial = at least one accepted and one refused write or open")]
ASSUMPTIONS = ["One writing object per path at a time."]
