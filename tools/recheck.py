#!/opt/venv/bin/python
"""Runs each planted bug's property check against a patched copy of /repo and records what noticed it in tools/caught.json."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = os.path.join(V, "tools", "caught.json")
caught = json.load(open(J)) if os.path.exists(J) else {}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="recheck")
    try:
        wt = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        subprocess.run(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")], check=True)
        r = subprocess.run([os.path.join(V, "check.sh"), p], env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1"), capture_output=True, text=True)
        s = sorted(set(re.findall(rf"VIOLATION property={p} replay=\S*/{p}-([\w-]+)\.json", r.stdout)))
        caught[i] = f"{p} ({', '.join(s)})" if r.returncode == 1 and s else f"missed (rc {r.returncode})"
        print(i, caught[i], flush=True)
    finally:
        shutil.rmtree(w)
    json.dump(dict(sorted((k, v) for k, v in caught.items() if os.path.isdir(os.path.join(V, "seeded", k)))), open(J, "w"), indent=1)
