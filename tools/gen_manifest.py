#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props
checks = []
for p in sorted(props.PROPS):
    d = props.PROPS[p]
    checks.append(dict(property=p, quick_cmd="bin/check " + p, thorough_cmd="VERIF_TIER=thorough bin/check " + p,
        technique=d.get("technique", "bounded exhaustive exploration of the compiled implementation, every trace compared with a reference model"),
        level="model_checking", level_note=d["note"]))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=i, reason=props.NA.get(i, "no check yet: its explorer is not built")) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
