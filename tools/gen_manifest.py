#!/usr/bin/env python3
"""Write MANIFEST.json from the registered parts."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import parts
hooks = json.load(open(os.path.join(ROOT, "tools", "hooks.json"))) if os.path.exists(os.path.join(ROOT, "tools", "hooks.json")) else None
m = {"version": 1, "setup_cmd": "python3 check.py --setup"}
if hooks:
    m["hooks"] = hooks
m["checks"] = [{
    "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
    "technique": x.technique, "level": x.level, "level_note": x.note,
} for p, x in sorted(parts.PROPS.items())]
m["not_applicable"] = parts.NOT_APPLICABLE
m["notes"] = "All checks run the current /repo tree under monitors; see DESIGN.md. Replays: python3 check.py --replay FILE."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
