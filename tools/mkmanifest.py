"""Regenerates MANIFEST.json: a property is claimed once its contracts or probes exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(root, "contracts", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p}",
            thorough_cmd=f"python3-vt check.py {p} --thorough",
            technique="contract-based deductive verification: VCs generated from the real AST, z3/cvc5; failed obligations replayed on the real code",
            level="proof", level_note=NOTES.get(p, "")))
    else:
        na.append(dict(property=p, reason=NOTES.get(p, "contracts for this property are not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt tools/selftest.py", checks=checks, not_applicable=na),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
