"""Writes DESIGN.md from tools/design.md.in, the properties, the check modules, the findings and the planted bugs."""
import glob
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import vp  # noqa
from tools.design_props import PROPS

props = [json.loads(x) for x in open(here + "/properties.jsonl")]
out, assume = [], []
for p in props:
    m = importlib.import_module("vp.p_" + p["id"].lower())
    out.append("### %s %s\n\n%s\n\nSub-checks (cases quick / thorough):\n" % (p["id"], p["title"], PROPS[p["id"]].strip()))
    for s in m.SUBS:
        out.append("* `%s` (%d / %d): %s" % (s.name, s.quick, s.thorough, s.rule))
    out.append("")
    for a in m.ASSUMPTIONS:
        assume.append("* %s: %s" % (p["id"], a))
find = json.load(open(here + "/known_findings.json"))["findings"]
fixes = ["* " + f["line"] for f in find if f["status"] == "fixed"]
known = ["* %s (`%s`): %s" % (f["property"], f["replay"], f["what"]) for f in find if f["status"] == "known"]
seeds, exc = ["| planted | property | needs | caught by |", "|---|---|---|---|"], ""
for d in sorted(glob.glob(here + "/seeded/*")):
    j = json.load(open(d + "/meta.json"))
    seeds.append("| %s | %s | %s | %s |" % (os.path.basename(d), j["property"], j["needs"].replace("|", "/"), j["property"] + " (quick)"))
t = open(here + "/tools/design.md.in").read()
for k, v in (("@PROPS@", "\n".join(out)), ("@ASSUME@", "\n".join(assume)), ("@NFIX@", str(len(fixes))), ("@FIXES@", "\n".join(fixes)), ("@KNOWN@", "\n".join(known)), ("@SEEDS@", "\n".join(seeds)), ("@EXC@", exc)):
    t = t.replace(k, v)
open(here + "/DESIGN.md", "w").write(t)
