"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
LEVEL = {}
NOTE = {}
try:
    from levels import LEVEL, NOTE
except ImportError:
    pass
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": f"VERIF_TIER=quick ./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
                   "technique": NOTE.get(p, ("", ""))[0] or "executable contracts on the real code",
                   "level": LEVEL.get(p, "exploration"),
                   "level_note": NOTE.get(p, ("", ""))[1] or "contract evaluated at run time on generated inputs (bounded)"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, open("MANIFEST.json", "w"), indent=1)
