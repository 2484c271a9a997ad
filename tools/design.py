#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, a section per property (text below, bounds and cost
from the last evidence files of both tiers), and the planted changes with what caught them."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
D = {}
exec(open(os.path.join(T, "design_table.py")).read())
bounds = json.load(open(os.path.join(T, "bounds.json"))) if os.path.exists(os.path.join(T, "bounds.json")) else {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    for tier in ("quick", "thorough"):
        f = os.path.join(V, "evidence", p["id"] + ".json")
        if not os.path.exists(f): continue
        e = json.load(open(f))
        if e["tier"] != tier or not e["coverage"].get("exhaustive"): continue
        bounds.setdefault(p["id"], {})[tier] = dict(space=e["coverage"]["space"], cases=e["coverage"]["traces_validated_against_impl"], states=e["coverage"]["states"], secs=round(e["wall_s"]))
json.dump(bounds, open(os.path.join(T, "bounds.json"), "w"), indent=1, sort_keys=True)
out = open(os.path.join(T, "design_head.md")).read()
out += "## The properties\n\n"
for p in sorted(props, key=lambda p: p["id"]):
    d = D[p["id"]]
    out += f"### {p['id']} {p['title']}\n\n"
    out += f"*Specified:* {d['spec']}\n*Oracle:* {d['oracle']}\n"
    for tier in ("quick", "thorough"):
        b = bounds.get(p["id"], {}).get(tier)
        if b: out += f"*Enumerated ({tier}; {b['cases']} cases, {b['states']} states, about {b['secs']} s on 8 cores):* " + "; ".join(b["space"]) + ".\n"
    out += f"*Beyond the tests:* {d['why']}\n\n"
out += open(os.path.join(T, "design_tail.md")).read()
hunts = json.load(open(os.path.join(T, "hunts.json")))
out += "\n| planted change | property | caught by | before strengthening |\n|---|---|---|---|\n"
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    h = hunts.get(i, {})
    out += f"| {i}: {m['needs']} | {m['property']} | {', '.join(h.get('caught', [])) or 'missed'} | {h.get('first', 'caught')} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(out)
