"""Writes MANIFEST.json from properties.jsonl and levels.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
try:
    notes = json.load(open(V + "/tools/level_notes.json"))
except OSError:
    notes = {}
try:
    levels = json.load(open(V + "/levels.json"))
except OSError:
    levels = {}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"/opt/veriftools/pyvenv/bin/python run_check.py {i} --tier quick",
                       thorough_cmd=f"/opt/veriftools/pyvenv/bin/python run_check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json",
                       technique=notes.get(i, {}).get("technique", "contract-based deductive verification (VCs from the real source, z3), run-time contract evaluation for the rest"),
                       level=levels.get(i, "other"), level_note=notes.get(i, {}).get("note", "see DESIGN.md")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[]), open(V + "/MANIFEST.json", "w"), indent=1)
