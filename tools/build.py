#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the META tables of checks/p*.py."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get("VERIF_REPO", "/repo")]

props, checks = [], []
for f in sorted(glob.glob(os.path.join(V, "checks", "p[0-9][0-9].py"))):
    name = os.path.basename(f)[:-3]
    m = importlib.import_module("checks." + name)
    M, pid = m.META, name.upper()
    assert m.CHECK.prop == pid, name
    assert len(M["title"]) <= 80, (pid, len(M["title"]))
    props.append({
        "id": pid,
        "title": M["title"],
        "statement": M["statement"],
        "quantifier": {"over": M["over"], "text": M["text"]},
        "why_tests_cant": M["why"],
        "anchors": {"files": M["files"], "mechanism": [{"name": a, "where": b} for a, b in M["mechanism"]]},
    })
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid} --tier quick",
        "thorough_cmd": f"./check.sh {pid} --tier thorough",
        "technique": M["technique"],
        "level": m.CHECK.level,
        "level_note": M["note"],
    })
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./tools/setup.sh",
    "checks": checks,
    "not_applicable": json.load(open(os.path.join(V, "tools", "not_applicable.json"))),
    "notes": "One entry point, check.sh; checks/pNN.py holds the generators and oracles of property PNN; pbt/ is the harness on top of Hypothesis. No hooks in /repo are needed.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props), "properties")
