#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in props/ is claimed, the rest is listed with its reason."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
NA = {}   # property -> reason it cannot be decided with this technique
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "props", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd="VERIF_TIER=quick python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
            technique="TLA+ specification (TLC): traces of the real tool validated against it, plus exhaustive design models replayed into the tool",
            level="model_checking",
            level_note="Every recorded run of the tool is judged by TLC against the specification in spec/; runs are generated from seeded random "
                       "inputs and from bounded exhaustive models. Trusted: TLC, the Python projections of output files to abstract values, "
                       "and that inputs outside the generators' bounds (see DESIGN.md) behave alike."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
               notes="TLA+/TLC. One black-box specification (spec/Octopus.tla) of the tool as a state machine over a workspace of files."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
