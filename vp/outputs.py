"""What a call left on disk, in a form that two runs of the same call share."""
import os
import re

STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")


def norm_text(s):
    return STAMP.sub("<now>", s)


def attr_form(v):
    import numpy as np
    if isinstance(v, str):
        return norm_text(v)
    a = np.asarray(v)
    return [str(a.dtype), a.shape, [repr(x) for x in a.ravel().tolist()]]


def nc_form(path):
    """Dimensions, attributes and raw values of a NetCDF file."""
    import netCDF4
    ds = netCDF4.Dataset(path)
    try:
        ds.set_auto_maskandscale(False)
        out = {"dims": {k: len(d) for k, d in ds.dimensions.items()}, "attrs": {k: attr_form(ds.getncattr(k)) for k in ds.ncattrs()}, "vars": {}}
        for k, v in ds.variables.items():
            raw = v[...]
            data = [str(x) for x in raw.ravel()] if raw.dtype.kind in "OSU" else raw.tobytes()
            out["vars"][k] = [str(v.dtype), v.dimensions, {a: attr_form(v.getncattr(a)) for a in v.ncattrs()}, data]
        return out
    finally:
        ds.close()


def files_form(top, skip=()):
    """{relative path: content} of everything below a directory, times of conversion aside."""
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, top)
            if rel in skip:
                continue
            with open(p, "rb") as fh:
                raw = fh.read()
            if raw[:4] == b"\x89HDF" or raw[:3] == b"CDF":
                out[rel] = nc_form(p)
            else:
                out[rel] = norm_text(raw.decode("latin-1"))
    return out


def first_difference(a, b):
    """A short description of how two such forms differ, or None."""
    for k in sorted(set(a) | set(b), key=str):
        if k not in a or k not in b:
            return "%s is only in the %s" % (k, "second" if k not in a else "first")
        if a[k] != b[k]:
            if isinstance(a[k], str) and isinstance(b[k], str):
                la, lb = a[k].split("\n"), b[k].split("\n")
                for i, (x, y) in enumerate(zip(la, lb)):
                    if x != y:
                        return "%s line %d: %.150r / %.150r" % (k, i + 1, x, y)
                return "%s has %d / %d lines" % (k, len(la), len(lb))
            if isinstance(a[k], dict) and isinstance(b[k], dict):
                return "%s: %s" % (k, first_difference(a[k], b[k]))
            return "%s: %.200r / %.200r" % (k, a[k], b[k])
    return None
