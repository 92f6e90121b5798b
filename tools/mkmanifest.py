#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "checks"))
import registry

props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    if p in registry.CHECKS:
        info = registry.INFO[p]
        checks.append(dict(property=p, quick_cmd="bin/check " + p,
                           thorough_cmd="VERIF_TIER=thorough bin/check " + p,
                           technique=info["technique"], level=info["level"], level_note=info["note"]))
na = [dict(property=p, reason=registry.NOT_APPLICABLE.get(p, "check not built yet"))
      for p in props if p not in registry.CHECKS]
manifest = dict(version=1, setup_cmd="bin/setup",
                checks=checks, not_applicable=na,
                notes="No hooks in /repo: every check drives the public API and observes it from outside.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
