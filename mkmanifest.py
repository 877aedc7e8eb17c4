#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the property modules present in pbt/props."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "pbt/props/%s.py" % pid.lower())):
        checks.append(
            {
                "property": pid,
                "quick_cmd": "python3 check.py %s" % pid,
                "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
                "technique": "property-based testing (Hypothesis generators, shrinking, independent numpy/exact oracles)"
                + (", model-based call histories" if pid in ("C12", "C14", "C20") else ""),
                "level": "exploration",
                "level_note": "Generated-input search with an independent oracle; no absence proof. "
                "Facets, bounds and tolerances are in DESIGN.md and in the evidence file.",
            }
        )
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py SELFTEST",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check runs /repo/src directly with /opt/venv/bin/python; nothing is built or cached.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
