#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the props/ modules."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = json.load(open(os.path.join(HERE, "technique.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        t = TECH.get(i, {})
        checks.append(dict(
            property=i, quick_cmd=f"./check.sh {i} quick",
            thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="property-based testing (Hypothesis): "
            + t.get("technique", "generated inputs against a reference model"),
            level="exploration",
            level_note=t.get(
                "note", "Holds on every generated case; no claim beyond the "
                "generated domain.") + " Trusts the oracle in props/"
            + i.lower() + ".py and the numba/MPI stand-ins."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(
    version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo are needed: everything is observed through the "
    "public API, written files and exit status."),
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
