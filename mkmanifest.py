"""Regenerates MANIFEST.json from properties.jsonl (development helper, not used by any check)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
TECH = ("contract-based deductive verification of the real source: obligations regenerated from /repo on every run by vc/ "
        "(contracts and invariants in vc/c_*.py), discharged by z3 and cvc5; counterexamples and undecided parts are "
        "handed to the concrete replay layer rt/ (bounded, labelled as such)")
notes = json.load(open(os.path.join(H, "levels.json"))) if os.path.exists(os.path.join(H, "levels.json")) else {}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    n = notes.get(p["id"], {"level": "exploration", "note": "bounded stand-in only so far"})
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                   "thorough_cmd": f"python3 check.py {p['id']} thorough", "technique": TECH,
                   "level": n["level"], "level_note": n["note"]})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q rt vc check.py >/dev/null 2>&1 || true", "checks": checks,
           "not_applicable": [], "notes": "see DESIGN.md"}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
