"""Runs sequences of API calls (inside a forked child) and records what each of them did. Used by C18."""
import contextlib
import copy
import hashlib
import io
import os
import shutil

from . import ncgen, outputs, spec


def frozen(x):
    """A comparable image of any result or argument: types, order and exact values."""
    import numpy as np
    import xarray as xr
    if isinstance(x, xr.DataArray):
        v = x.values
        data = [repr(i) for i in v.ravel().tolist()] if v.dtype.kind in "OSU" else v.tobytes()
        return ["DataArray", str(x.name), list(x.dims), str(v.dtype), data, frozen(dict(x.attrs)),
                {str(k): (["coord", list(c.dims), str(c.dtype), [repr(i) for i in c.values.ravel().tolist()], frozen(dict(c.attrs))]) for k, c in sorted(x.coords.items(), key=lambda t: str(t[0]))}]
    if isinstance(x, xr.Dataset):
        return ["Dataset", {str(k): frozen(x[k]) for k in x.variables}, frozen(dict(x.attrs))]
    if isinstance(x, dict):
        return ["dict", [[frozen(k), frozen(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [frozen(i) for i in x]]
    if isinstance(x, np.ndarray):
        return ["array", str(x.dtype), list(x.shape), [repr(i) for i in x.ravel().tolist()]]
    if isinstance(x, str):
        return outputs.norm_text(x)
    return [type(x).__name__, repr(x)]


def clobber(x):
    """Spoils a result as a caller may do with what was returned to him."""
    import numpy as np
    import xarray as xr
    try:
        if isinstance(x, xr.DataArray):
            x.attrs.clear()
            if x.dtype.kind == "f" and x.values.flags.writeable:
                x.values[...] = -1.0
        elif isinstance(x, dict):
            for v in list(x.values()):
                clobber(v)
            x.clear()
        elif isinstance(x, list):
            for v in x:
                clobber(v)
            x.clear()
        elif isinstance(x, tuple):
            for v in x:
                clobber(v)
        elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f":
            x[...] = -1.0
    except (ValueError, TypeError):
        pass


def environment():
    """The state of the process that no call may change."""
    import numpy as np
    import xarray as xr
    from nappy.utils import parse_config as pc
    return frozen({"config": pc.getConfigDict(), "annotations": pc.getAnnotationsConfigDict(), "attributes": pc.getLocalAttributesConfigDict(),
                   "environ": sorted((k, v) for k, v in os.environ.items() if k != "PYTHONHASHSEED"), "xarray": sorted((k, repr(v)) for k, v in xr.get_options().items()),
                   "numpy": [sorted(np.geterr().items()), sorted((k, repr(v)) for k, v in np.get_printoptions().items())]})


def version(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


class Pool:
    """Objects that several calls share: arguments, convertors, in-memory objects."""

    def __init__(self, case):
        self.case = case
        self.args = {}
        self.objs = {}

    def arg(self, kind, i):
        if i is None:
            return None
        k = (kind, i)
        if k not in self.args:
            v = self.case[kind][i % len(self.case[kind])]
            if kind == "gattrs":
                v = [tuple(t) for t in v]
            elif kind == "renames":
                v = dict(v)
            v = copy.deepcopy(v)
            self.args[k] = (v, frozen(v))
        return self.args[k][0]

    def obj(self, kind, path, extra, make):
        k = (kind, path, version(path), extra)
        if k not in self.objs:
            x = make()
            self.objs[k] = [x, frozen(x) if kind == "xr" else None]
        return self.objs[k][0]

    def modified(self):
        for k, (v, f) in self.args.items():
            if frozen(v) != f:
                return "the argument %s was %.200r and is now %.200r" % (k[0], f, frozen(v))
        for k, e in self.objs.items():
            if k[0] == "xr":
                f = frozen(e[0])
                if e[1] != f:
                    return "in-memory objects were %.300r and are now %.300r" % diff(e[1], f)
                e[1] = f
        return None


def diff(a, b):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return a, b


def given(**kw):
    return {k: v for k, v in kw.items() if v is not None}


def perform(ev, pool):
    """One call; returns its result."""
    import nappy
    import nappy.nc_interface.na_to_nc
    import nappy.nc_interface.nc_to_na
    import nappy.nc_interface.xarray_to_na
    import xarray as xr
    o = ev["o"]
    kind = ev["kind"]
    na, nc = "na%d.na" % ev["i"], "nc%d.nc" % ev["i"]
    out = ev["out"]
    writing = given(float_format=o["fmt"], size_limit=o["limit"], annotation=o["annotation"] or None, no_header=o["no_header"] or None)
    if kind == "na2nc":
        kw = given(global_attributes=pool.arg("gattrs", o["gattrs"]), rename_variables=pool.arg("renames", o["rename"]), time_units=o["units"],
                   variables=pool.arg("indices", o["vars"]), mode=o["mode"])
        return nappy.convertNAToNC(na, nc if ev["onto"] else out + ".nc", time_warning=False, **kw)
    if kind == "na2csv":
        return nappy.convertNAToCSV(na, out + ".csv", annotation=o["annotation"], no_header=o["no_header"])
    if kind in ("nc2na", "nc2csv", "names"):
        kw = given(na_items_to_override=pool.arg("overs", o["over"]), var_ids=pool.arg("names", o["vars"]), exclude_vars=pool.arg("names", o["exclude"]),
                   requested_ffi=o["ffi"], **writing)
        if kind == "nc2csv":
            return nappy.convertNCToCSV(nc, out + ".csv", **kw)
        if kind == "names":
            kw["only_return_file_names"] = True
        return nappy.convertNCToNA(nc, out + ".na", **given(delimiter=o["delim"]), **kw)
    if kind == "read":
        f = nappy.openNAFile(na)
        f.readData()
        d = f.getNADict()
        f.close()
        return d
    if kind == "header":
        f = nappy.openNAFile(na)
        r = [f.getVariables(), f.getIndependentVariables(), f.getNormalComments(), f.getSpecialComments(), f.getFileDates(), f.getOrg()]
        f.close()
        return r
    if kind == "write":
        d = pool.arg("dicts", ev["i"])
        f = nappy.openNAFile(out + ".na", "w", na_dict=d)
        f.write(**given(delimiter=o["delim"], float_format=o["fmt"], annotation=o["annotation"] or None, no_header=o["no_header"] or None))
        f.close()
        return None
    if kind == "dict2nc":
        return nappy.writeNADictToNC(pool.arg("ncdicts", ev["i"]), out + ".nc", **given(mode=o["mode"]))
    if kind == "xread":
        return nappy.readXarrayObjectsFromNA(na)
    if kind == "xget":
        return nappy.getXarrayVariableFromNA(na, o["index"])
    if kind == "x2na":
        if o["from_na"]:
            xs = pool.obj("xr", na, None, lambda: [list(t) for t in nappy.readXarrayObjectsFromNA(na)[:2]])
            xs = xs[0] + xs[1]
        else:
            def load():
                with xr.open_dataset(nc, use_cftime=True, decode_timedelta=False) as ds:
                    ds.load()
                return [ds[k] for k in ds.data_vars]
            xs = pool.obj("xr", nc, None, load)
        g = pool.arg("gattrs", o["gattrs"] or 0)
        kw = given(na_items_to_override=pool.arg("overs", o["over"]), requested_ffi=o["ffi"], **writing)
        if o["mode"]:
            return nappy.convertXarrayObjectsToCSV(xs, g, out + ".csv", **kw)
        return nappy.convertXarrayObjectsToNA(xs, g, out + ".na", **given(delimiter=o["delim"]), **kw)
    if kind == "dataset_write":
        def make():
            with xr.open_dataset(nc, use_cftime=True, decode_timedelta=False) as ds:
                ds.load()
            return nappy.nc_interface.xarray_to_na.XarrayDatasetToNA(ds, **given(requested_ffi=o["ffi"]))
        c = pool.obj("ds2na", nc, o["ffi"], make)
        c.convert()
        c.writeNAFiles(out + ".na", **given(delimiter=o["delim"]), **writing)
        return list(c.output_files_written)
    if kind in ("class_write", "class_names"):
        c = pool.obj("nc2na", nc, (o["over"], o["ffi"]), lambda: nappy.nc_interface.nc_to_na.NCToNA(nc, na_items_to_override=pool.arg("overs", o["over"]), requested_ffi=o["ffi"]))
        if kind == "class_names":
            c.convert()
            return list(c.constructNAFileNames(out + ".na", **given(size_limit=o["limit"])))
        c.writeNAFiles(out + ".na", **given(delimiter=o["delim"]), **writing)
        return list(c.output_files_written)
    if kind == "class_nc":
        c = pool.obj("na2nc", na, (o["gattrs"], o["units"]), lambda: nappy.nc_interface.na_to_nc.NAToNC(na, time_warning=False, **given(
            global_attributes=pool.arg("gattrs", o["gattrs"]), time_units=o["units"])))
        c.convert()
        c.writeNCFile(out + ".nc", **given(mode=o["mode"]))
        return None
    if kind == "ffi":
        return [nappy.readFFI(na), nappy.chooseFFI(pool.arg("dicts", ev["i"]))]
    raise ValueError(kind)


def put(case, name, which):
    """Places one of the described inputs as a file."""
    if name.startswith("na"):
        na, layout = case["nas"][which % len(case["nas"])]
        text, _ = spec.emit(na, spec.Layout(layout))
        with open(name, "w", newline="") as f:
            f.write(text)
    else:
        tmp = "new.nc"
        ncgen.write(case["ncs"][which % len(case["ncs"])], tmp)
        if which >= len(case["ncs"]):                      # into the same file, as a shell's > would
            with open(tmp, "rb") as f, open(name, "wb") as g:
                g.write(f.read())
            os.unlink(tmp)
        else:
            os.replace(tmp, name)


def stats(top):
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            s = os.stat(p)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, top)] = (s.st_ino, s.st_mtime_ns, s.st_size, hashlib.sha1(fh.read()).hexdigest())
    return out


def one(ev, pool):
    """Performs a call; returns {"result", "files", "modified"}."""
    before = stats(".")
    out = io.StringIO()
    value = None
    with contextlib.redirect_stdout(out):
        try:
            value = perform(ev, pool)
            res = ["done", frozen(value)]
        except Exception as e:
            res = ["error", type(e).__name__, outputs.norm_text(str(e)).replace(os.getcwd(), "<cwd>")]
    after = stats(".")
    changed = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
    forms = outputs.files_form(".", skip=set(after) - changed)
    for f in changed - set(after):
        forms[f] = "deleted"
    r = {"result": res, "files": forms, "modified": pool.modified(), "cwd": os.path.basename(os.getcwd())}
    if ev["clobber"] and res[0] == "done" and ev["kind"] not in ("x2na", "class_names", "class_write", "dataset_write"):
        clobber(value)
    return r


def run_sequence(args):
    """All events in one process; before each call the directory is copied to ../snap<k>."""
    case = args["case"]
    pool = Pool(case)
    top = os.getcwd()
    records = []
    for k, ev in enumerate(case["events"]):
        if ev["kind"] == "replace":
            put(case, ev["name"], ev["which"])
            records.append(None)
            continue
        shutil.copytree(top, os.path.join(os.path.dirname(top), "s%d" % k, "work"))
        records.append(one(ev, pool))
        os.chdir(top)
    return {"records": records, "environment": environment()}


def run_single(args):
    """One call in a process that has done nothing else."""
    r = one(args["case"]["events"][args["k"]], Pool(args["case"]))
    return {"records": [r], "environment": environment()}
