#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = checks.VERIF
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = dict(version=1, setup_cmd="mkdir -p build evidence && tlc -h >/dev/null 2>&1; true", checks=[], not_applicable=[],
           notes="Specifications in spec/ (TLA+, checked with TLC); bin/check PROPERTY [quick|thorough] rebuilds from /repo's working tree, records runs of the real code, and decides them with TLC.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i, technique=c.get("technique", "TLA+ specification, traces of the real code checked with TLC" + (", exhaustive TLC model checking" if c.get("mc") else "")),
                                  level=c["level"], level_note=c.get("note", checks.NOTE)))
    else:
        out["not_applicable"].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "no specification yet")))
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
