"""Makes Hypothesis importable under the interpreter that runs nappy (it is not installed there)."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, ".deps")
PATTERNS = ("hypothesis-[0-9]*-cp%d%d-*manylinux*x86_64*.whl" % sys.version_info[:2],
            "sortedcontainers-*.whl", "attrs-*.whl")


def ensure():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        try:
            tmp = tempfile.mkdtemp(prefix=".deps-", dir=HERE)
            for patt in PATTERNS:
                for whl in sorted(glob.glob(os.path.join("/opt/veriftools/wheels", patt))):
                    zipfile.ZipFile(whl).extractall(tmp)
            if os.path.isdir(os.path.join(tmp, "hypothesis")):
                try:
                    os.rename(tmp, DEPS)
                except OSError:      # another process was faster
                    shutil.rmtree(tmp, ignore_errors=True)
            else:
                shutil.rmtree(tmp, ignore_errors=True)
        except OSError:
            pass
    if os.path.isdir(os.path.join(DEPS, "hypothesis")):
        sys.path.append(DEPS)
    else:       # last resort: the tooling venv is the same Python version
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
