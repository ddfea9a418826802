#!/usr/bin/env python3
"""Writes DESIGN.md (to stdout)."""
import glob
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print(open(f"{V}/tools/design_head.md").read(), end="")
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
known = json.load(open(f"{V}/known_findings.json"))
print("## Genuine defects found and repaired\n")
print("Each was found by the check of its property (or while writing it), reproduced natively, and repaired by a `fix:` commit in /repo.\n")
for f in known["fixed"]:
    _, p, c, what = f.split(" ", 3)
    print(f"- {p.split('=')[1]} `{c}`: {what}")
print(f"\nListed as known findings (recorded, not repaired): {len(known['findings']) or 'none'}.\n")
seeds = {}
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
print("## Planted bugs\n")
print("Each builds, passes the stable tests and fails its demonstration; the check of its property reports it.\n")
print("| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for p, l in seeds.items():
    for n, d in l:
        print(f"| {n} | {p} | {d['what_it_breaks']} | {d['needs']} | check of {p} |")
print("""
Besides, each harness was tried against mutations of the code it covers (in a copy of /repo): swapped comparisons,
dropped cleanups, off-by-one limits, missing resets and reordered steps; entries that missed one were strengthened
(W02 got `w02_steps`, B06 the post-crash append, V02 the cross-thread drop, L07 the changed limit, C01 the last holder).
""")
print("## Properties\n")
for p in props:
    c = checks.CHECKS.get(p["id"])
    print(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    if not c:
        print("Not applicable: " + checks.NOT_APPLICABLE.get(p["id"], "") + "\n")
        continue
    print(f"Decided by symbolic execution of {', '.join('`' + f + '`' for f in p['anchors']['files'])} (harness group `{c['group']}`); oracle: the model or law asserted in the entries.\n")
    for e in c["entries"]:
        print(f"- `{e['name']}`: {e.get('bounds') or c['bounds']}" + (" (threads)" if e.get("mt") else ""))
    print(f"\nBounds: {c['bounds']}. Outside: {c['outside']}.", end="")
    for a in c.get("assumptions", []):
        print(f" Assumes: {a}.", end="")
    if p["id"] in seeds:
        print(f" Planted bugs caught: {', '.join(n for n, _ in seeds[p['id']])}.", end="")
    try:
        ev = json.load(open(f"{V}/evidence/{p['id']}.json"))
        t = ev.get("wall_s") or ev.get("duration_s")
    except Exception:
        t = None
    print("\n")
