#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in, the properties, the last evidence, the known findings and
tools/sweep.json (results of tools/try_changes.py over seeded/)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
notes = json.load(open("tools/notes.json"))
table = ["| id | property | specification | quick: design states / behaviours / s | thorough s |", "|---|---|---|---|---|"]
slow = json.load(open("tools/thorough.json")) if os.path.exists("tools/thorough.json") else {}
costs = json.load(open("tools/costs.json")) if os.path.exists("tools/costs.json") else {}
for line in open("properties.jsonl"):
    p = json.loads(line)
    try:
        e = json.load(open(f"evidence/{p['id']}.json"))
        if e["tier"] == "quick":
            costs[p["id"]] = [sum(m["distinct"] for m in e["coverage"]["design_models"]),
                              e["coverage"]["traces_validated_against_impl"], round(e["wall_s"])]
        else:
            slow[p["id"]] = round(e["wall_s"])
    except FileNotFoundError:
        pass
    c = costs.get(p["id"], ["-"] * 3)
    table.append(f"| {p['id']} | {p['title']} | {notes[p['id']][0]} | {c[0]} / {c[1]} / {c[2]} | {slow.get(p['id'], '-')} |")
json.dump(costs, open("tools/costs.json", "w"))
json.dump(slow, open("tools/thorough.json", "w"))
fixes = []
for line in open("known-findings.txt"):
    if line.startswith("fixed:"):
        _, prop, commit, what = line.strip().split(" ", 3)
        fixes.append(f"| {prop.split('=')[1]} | {commit} | {what} |")
sweep = json.load(open("tools/sweep.json")) if os.path.exists("tools/sweep.json") else {}
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for name in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{name}/meta.json"))
    needs = m["needs"].replace("|", "/").replace("\n", " ")
    seeds.append(f"| {name} | {m['property']} | {needs} | {sweep.get(name, '-')} |")
text = open("tools/DESIGN.in").read()
for key, lines in (("@TABLE@", table), ("@FIXES@", fixes), ("@SEEDS@", seeds)):
    text = text.replace(key, "\n".join(lines))
open("DESIGN.md", "w").write(text)
