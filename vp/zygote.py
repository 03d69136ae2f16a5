"""A process that has imported the package but never used it, and forks a fresh child for every request.

Request (one JSON line): {"work": dir, "out": file, "func": "module:function", "args": {...}}
The child runs func(args) with `work` as its current directory and pickles what it returns to `out`.
Answer (one JSON line): {"status": exit status of the child}
"""
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def warm_up():
    """Lets the libraries load what they load on first use; the package itself is not used."""
    import gc
    import shutil
    import tempfile
    import numpy as np
    import xarray as xr
    d = tempfile.mkdtemp(prefix="verif-warm-")
    try:
        p = os.path.join(d, "x.nc")
        xr.Dataset({"v": ("t", np.array([1.0, 2.0]), {"units": "m"})}, coords={"t": ("t", np.array([0.0, 1.0]), {"units": "days since 2000-01-01"})}).to_netcdf(p)
        with xr.open_dataset(p, use_cftime=True, decode_timedelta=False) as ds:
            ds.load()
            ds["v"].cf.axes if hasattr(ds, "cf") else None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    gc.collect()
    gc.freeze()


def serve():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import netCDF4          # noqa: F401
    import nappy            # noqa: F401
    import nappy.nc_interface.nc_to_na
    import nappy.nc_interface.na_to_nc
    import nappy.nc_interface.na_to_xarray
    import nappy.nc_interface.xarray_objs_to_na_files      # noqa: F401
    from . import ncgen, outputs, session, spec            # noqa: F401
    warm_up()
    answers = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    requests = os.fdopen(os.dup(0), "r")
    os.dup2(null, 0)
    for line in requests:
        r = json.loads(line)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.alarm(60)
                os.chdir(r["work"])
                mod, fn = r["func"].split(":")
                res = getattr(importlib.import_module(mod), fn)(r["args"])
                with open(r["out"], "wb") as f:
                    pickle.dump(res, f)
                code = 0
            except BaseException:
                import traceback
                with open(r["out"] + ".err", "w") as f:
                    f.write(traceback.format_exc())
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        answers.write(json.dumps({"status": status}) + "\n")
        answers.flush()


class Zygote:
    def __init__(self, hashseed):
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", "import sys; sys.path.insert(0, %r); from vp import zygote; zygote.serve()" % HERE],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED=str(hashseed)))

    def run(self, work, out, func, args):
        """(exit status, result or None, traceback or None)"""
        self.p.stdin.write(json.dumps({"work": work, "out": out, "func": func, "args": args}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise OSError("the process that forks the children ended")
        status = json.loads(line)["status"]
        if os.path.exists(out):
            with open(out, "rb") as f:
                return status, pickle.load(f), None
        err = None
        if os.path.exists(out + ".err"):
            with open(out + ".err") as f:
                err = f.read()
        return status, None, err


_zygotes = {}


def get(hashseed=0):
    if hashseed not in _zygotes:
        _zygotes[hashseed] = Zygote(hashseed)
    return _zygotes[hashseed]


if __name__ == "__main__":
    serve()
