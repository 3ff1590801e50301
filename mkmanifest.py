#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
from props import NOTES, PROPS  # noqa

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=NOTES.get(i, {}).get("technique", "TLA+ specification checked with TLC; scenarios generated by the specification replayed on the code, recorded traces validated by TLC"),
                           level=PROPS[i]("quick")["level"],
                           level_note=NOTES.get(i, {}).get("note", "Every run generated by the specification is validated by TLC against the exact semantics; "
                                                           "bounded to the generated networks, boxes and sample points; trusts the quantization of the harness.")))
na = [dict(property=i, reason="check under construction") for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 setup_check.py", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
