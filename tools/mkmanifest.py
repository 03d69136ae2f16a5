#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property whose module vp/p_<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing: generated contents dictionaries, write/read round trip",
    "C02": "property-based testing: generated dictionaries, files parsed by an independent strict specification parser",
    "C03": "property-based testing: independent emitter with generated legal layouts, exact content oracle",
    "C04": "property-based testing: generated operation histories against snapshots (history invariant)",
    "C05": "property-based testing: metamorphic relations between presentation options, independent CSV parser",
    "C06": "fuzzing: structured mutation of legal files with rejection and termination oracles",
    "C07": "property-based testing: accessors against the generated header (reference model)",
    "C08": "stateful model-based testing of the file life cycle",
    "C09": "property-based testing: generated files and dictionaries, identification oracle and round trip",
    "C10": "property-based testing: converted NetCDF against a reference model of the NASA Ames contents",
    "C11": "property-based testing: NASA Ames to NetCDF and back, round trip with an independent parser",
    "C12": "property-based testing: generated NetCDF datasets, conservation oracle over independently parsed outputs",
    "C13": "property-based testing: generated attributes and overrides against a reference model of the header",
    "C14": "property-based testing: differential and partition oracle for generated row limits",
    "C15": "property-based testing: generated names and requests against a naming model and the directory listing",
    "C16": "property-based testing: differential between requested and default output formats",
    "C17": "property-based testing: differential between generated command lines and API calls",
    "C18": "property-based testing: generated call sequences, differential against fresh processes",
    "C19": "property-based testing: generated file pairs and mutations against a comparison model",
    "C20": "property-based testing: generated axes against reference predicates",
    "C21": "property-based testing: differential between in-memory and file interfaces",
    "C22": "property-based testing: generated configuration files in fresh processes against a model",
    "C23": "property-based testing: generated contents translated, written and parsed by the independent parser",
    "C24": "property-based testing: generated calls under generated thread schedules against each call run alone",
    "C25": "property-based testing: generated calls with injected write faults at generated points against the undisturbed call",
}
NOTES = {}
DEFAULT_NOTE = ("Sampled search over generated inputs with shrinking and replay files; an oracle independent of the code under test. "
                "No exhaustiveness claim: inputs outside the generators' domain (stated in DESIGN.md) are not reached. "
                "Trusts CPython, numpy, xarray, netCDF4, Hypothesis and the oracle code in /verif/vp.")
checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    for line in f:
        p = json.loads(line)["id"]
        if os.path.exists(os.path.join(HERE, "vp", "p_%s.py" % p.lower())):
            checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                           "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                           "technique": TECH[p], "level": "exploration", "level_note": NOTES.get(p, DEFAULT_NOTE)})
        else:
            na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check uses the public interface only."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
