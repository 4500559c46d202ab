#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, checks/*.py and the notes below."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(R, "tools", "levels.json")))
NA = json.load(open(os.path.join(R, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "checks", i + ".py")):
        n = NOTES.get(i, {})
        checks.append(dict(
            property=i,
            quick_cmd=f"python3 checks/run.py {i}",
            thorough_cmd=f"python3 checks/run.py {i} --thorough",
            evidence_file=f"evidence/{i}.json",
            technique=n.get("technique", "TLA+ specification: TLC model checking, replay of generated behaviours, trace validation"),
            level="model_checking",
            level_note=n.get("note", "The TLA+ module is model checked exhaustively within its constants; the code is bound to it by replaying "
                             "behaviours into the real code and judging every recorded step with the specification. Assumes the executor reports what the API returned.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check built yet: no claim is made for this property.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="No hooks: everything the specification needs is visible through the public API.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Specifications in spec/*.tla (TLA+, TLC). checks/<ID>.py drives: model check, generate behaviours, replay through harness/<ID>.cpp, validate recorded executions. See DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
