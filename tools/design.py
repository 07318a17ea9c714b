#!/opt/venv/bin/python
"""Writes DESIGN.md from tools/design_head.md, the META tables and notes of checks/p*.py and the planted bugs' records."""
import glob, importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, "/repo"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from tools.design_notes import NOTES, TAIL

known = open(os.path.join(V, "known_findings.txt")).read().splitlines()
head = open(os.path.join(V, "tools/design_head.md")).read()
head = head.replace("{fixes}", str(sum(l.startswith("fixed:") for l in known))).replace("{open}", str(sum(l.startswith("open:") for l in known)))
o = [head, "## Properties\n"]
for f in sorted(glob.glob(os.path.join(V, "checks", "p[0-9][0-9].py"))):
    m = importlib.import_module("checks." + os.path.basename(f)[:-3])
    M, pid = m.META, m.CHECK.prop
    o.append(f"### {pid} {M['title']}\n")
    o.append(f"*Technique*: {M['technique']}.")
    o.append(f"*Ranges over*: {M['text']}.")
    if pid in NOTES:
        o.append(f"*Generator and oracle*: {NOTES[pid]}")
    o.append(f"*Beyond the tests*: {M['why']}")
    o.append(f"*Bounds and assumptions*: {M['note']}.")
    subs = "; ".join(f"`{s.name}` {s.quick} × {s.shards}" + (f" ({s.body.__doc__.strip().splitlines()[0].rstrip('.')})" if s.body.__doc__ else "") for s in m.CHECK.subs.values())
    o.append(f"*Quick cases per sub-check × shards*: {subs}. Non-trivial: {m.CHECK.rule}.")
    fx = [l.split(" ", 2)[2] for l in known if l.startswith(f"fixed: property={pid} ")]
    op = [l.split(" ", 3) for l in known if l.startswith(f"open: property={pid} ")]
    if fx:
        o.append("*Defects found and repaired*: " + "; ".join(f"{x.split(' ', 1)[1]} (`{x.split(' ', 1)[0]}`)" for x in fx) + ".")
    for x in op:
        o.append(f"*Known finding* {x[2]}: {x[3]}.")
    o.append("")
o.append(TAIL)
o.append("## Planted bugs and what catches them\n")
o.append("Validated with `tools/plant.py`: each passes the repository's tests, has a demonstration that fails with it only, and was run against its property's quick check.\n")
o.append("| planted bug | needs | breaks | caught by |\n|---|---|---|---|")
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    o.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {caught.get(d, 'not recorded')} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
