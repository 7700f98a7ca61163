#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": "./check.sh " + p,
            "thorough_cmd": "env VERIF_TIER=thorough ./check.sh " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": technique,
            "level": level,
            "level_note": note,
        }
        for p, technique, level, note in CLAIMS
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE],
}
if HOOKS:
    manifest["hooks"] = HOOKS
json.dump(manifest, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
