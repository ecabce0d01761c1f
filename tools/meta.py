#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json, subprocess, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], state=state or [], hook=hook))

STD = "exhaustive stateless exploration of the real code (explicit choice tree, every leaf executed) against an independent oracle"
HIST = "explicit-state exploration of operation histories on the real code, invariant checked in every state"

exec(open(os.path.join(HERE, "tools", "table.py")).read())

ids = subprocess.run([os.path.join(HERE, "mc/target/debug/mc"), "list"], capture_output=True, text=True).stdout.split("\n")
have = {l.split()[0] for l in ids if l.strip()}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["state"]: d["anchors"]["state"] = p["state"]
        if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = p["hook"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=p["id"], quick_cmd=f"bash run.sh check {p['id']} quick", thorough_cmd=f"bash run.sh check {p['id']} thorough",
                      evidence_file=f"evidence/{p['id']}.json", technique="model checking: " + p["technique"],
                      level="fault_enumeration" if False else "model_checking", level_note=p["note"]) for p in P if p["id"] in have],
         not_applicable=[dict(property=p["id"], reason="check under construction") for p in P if p["id"] not in have],
         notes="No hooks in /repo: the harness drives the public API; nondeterminism (random draws, system-call answers, hash seeds) is controlled from the harness side.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print("claimed", sorted(have), "not", [p["id"] for p in P if p["id"] not in have])

# DESIGN.md
import glob
desc = {}
for l in subprocess.run([os.path.join(HERE, "mc/target/debug/mc"), "describe"], capture_output=True, text=True).stdout.split("\n"):
    if l.strip():
        i, sc, rule, bq, bt, ass = l.split("\t")
        desc[i] = (sc, rule, bq, bt, ass)
out = []
for p in P:
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"Technique: {p['technique']}.\n")
    if p["id"] in desc:
        sc, rule, bq, bt, ass = desc[p["id"]]
        out.append(f"* Scenarios: {sc}\n* Enumerated and judged: {rule}\n* Quick bounds: {bq}\n* Thorough bounds: {bt}\n* Assumptions: {ass or 'none'}\n* {p['note'].replace(TRUST, '')}\n")
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
res = {}
try:
    for l in open(os.path.join(HERE, "tools", "seeded_results.txt")):
        a = l.split()
        res[a[0]] = a[1]
except OSError:
    pass
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append("| " + " | ".join(str(x).replace("|", "/") for x in [i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "not run yet")]) + " |")
t = open(os.path.join(HERE, "tools", "design.md")).read()
t = t.replace("{{COVERAGE}}", "\n".join(out)).replace("{{SEEDED}}", "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
