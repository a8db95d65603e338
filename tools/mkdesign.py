"""Regenerates DESIGN.md from design.tmpl.md, notes.json, evidence/ and seeded.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = json.load(open(os.path.join(root, "tools", "notes.json")))
D = json.load(open(os.path.join(root, "tools", "design_notes.json"))) if os.path.exists(os.path.join(root, "tools", "design_notes.json")) else {}
SP = os.path.join(root, "tools", "seeded.json")
S = json.load(open(SP)) if os.path.exists(SP) else {}
out = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append("*Deductive:* " + N.get(i, "planned, not built yet") + "\n")
    if i in D:
        out.append(D[i] + "\n")
    e = os.path.join(root, "evidence", i + ".json")
    if os.path.exists(e):
        c = json.load(open(e))["coverage"]
        und = [u["function"] + ": " + u["obligation"] for u in c["undecided"]]
        out.append(f"*Last run:* {c['discharged']} of {c['obligations']} obligations discharged, "
                   f"{len(c['functions_proved'])} contracts fully proved, {round(c['solver_seconds'])} s of solver time; "
                   f"{c['bounded']['evaluations']} concrete cases (bounded)."
                   + (" Undecided, bounded only: " + "; ".join(und[:12]) + "." if und else "") + "\n")
sd = ["| bug | property | caught by | needs |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = os.path.join(root, "seeded", b, "meta.json")
    if os.path.exists(m):
        m = json.load(open(m))
        sd.append(f"| {b} | {m['property']} | {S.get(b, '?')} | {m['needs']} |")
t = open(os.path.join(root, "tools", "design.tmpl.md")).read()
t = t.replace("PROPERTIES_TABLE", "\n".join(out)).replace("SEEDED_TABLE", "\n".join(sd))
open(os.path.join(root, "DESIGN.md"), "w").write(t)
