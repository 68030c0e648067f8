#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py (run by hand after changing the registry)"""
import json, os
from registry import CHECKS, NOTES
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique="property-based testing and fuzzing: " + NOTES[i][0], level="exploration",
                           level_note=NOTES[i][1]))
m = dict(version=1, setup_cmd="python3 -c 'import build' && clang++ --version >/dev/null", checks=checks,
         not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in CHECKS],
         notes="Every check builds what it needs from /repo's working tree into /verif/build (content-hash cached). See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
