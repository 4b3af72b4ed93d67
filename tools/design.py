#!/usr/bin/env python3
"""Writes DESIGN.md. Run `chk -prop all` first: the numbers come from evidence/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, why=why, technique=technique, note=note, na=na, mech=mech))
GUARD = "interprocedural must-guard dataflow on SSA (facts required on every path to the effect)"
exec(open(os.path.join(V, "tools", "proplist.py")).read())
claimed = set(open(os.path.join(V, "tools", "claimed.txt")).read().split())
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
seeds = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    seeds[d] = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
out.append("## Properties\n")
for p in P:
    out.append(f"### {p['id']} — {p['title']}\n")
    if p["na"]:
        out.append(f"Not applicable: {p['na']}\n"); continue
    if p["id"] not in claimed:
        out.append("Not claimed yet.\n"); continue
    e = json.load(open(os.path.join(V, "evidence", p["id"] + ".json")))["coverage"]
    m = re.search(r"SSA form: (.*?) Every obligation", e["explanation"], re.S)
    out.append("*Decided by* " + (p["technique"] or "").strip() + ". " + (m.group(1).strip()[0].upper() + m.group(1).strip()[1:] if m else "") + "\n")
    out.append("*Anchored at* " + "; ".join(f"{n} ({w})" for n, w in p["mech"]) + "\n")
    if e.get("instances_by_rule"):
        out.append("*Obligations on the current tree:* " + ", ".join(f"{k} {v}" for k, v in sorted(e["instances_by_rule"].items())) + f" — {e['obligations'] if 'obligations' in e else sum(e['rules'].values())} in all, no bound.\n")
    out.append("*Why tests cannot:* " + p["why"] + "\n")
    out.append("*Limits:* " + p["note"] + "\n")
    mine = [s for s in seeds if seeds[s]["property"] == p["id"]]
    if mine:
        out.append("*Planted:* " + ", ".join(mine) + "\n")
out.append("## Defects found\n\nRepaired in /repo, one `fix:` commit each (`known-findings.txt`):\n")
fx, fi = [], []
for l in open(os.path.join(V, "known-findings.txt")):
    l = l.strip()
    if l.startswith("fixed:"): fx.append(l)
    elif l.startswith("finding:"): fi.append(l)
for l in fx:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    out.append(f"* {m.group(1)} `{m.group(2)}` {m.group(3)}")
out.append("\nRecorded, not repaired:\n")
for l in fi:
    m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)", l)
    out.append(f"* {m.group(1)} ({m.group(2)}): {m.group(3)}")
out.append("\n" + open(os.path.join(V, "tools", "design_open.md")).read())
out.append("## Planted bugs\n\nEach was confirmed in a scratch copy (builds, stable tests pass, its demonstration passes without and fails with the change).\n\n| change | property | what it needs | reported by |\n|---|---|---|---|")
for s in sorted(seeds):
    m = seeds[s]
    out.append(f"| {s} | {m['property']} | {m['needs']} — {m['what_it_breaks']} | {' '.join(caught.get(s, [])) or 'none'} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(P), "properties,", len(seeds), "planted")
