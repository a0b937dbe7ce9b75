#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry, so that the two cannot drift apart."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "lib"))
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in registry.CHECKS:
        c = registry.get(i)
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="property-based testing: " + c.technique,
                           level="exploration", level_note=c.note))
    else:
        na.append(dict(property=i, reason=registry.NOT_CLAIMED.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check compiles its harnesses from /repo's working tree in each configuration, runs generated cases against an independent oracle on all cores, shrinks any failure by editing its choice tape, and writes replays/<...>.json. 'python3 check.py ID --replay FILE' replays one.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not claimed")
