#!/opt/venv/bin/python
"""plant.py SPEC: validates a planted bug in a scratch copy of /repo and stores it under seeded/<id>.

SPEC is a python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python text).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
HEAD = "import os, sys, tempfile, io\nsys.path.insert(0, os.getcwd())\n"


def demo(wt, d):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=wt, capture_output=True, text=True, timeout=300)


def one(path):
    s = runpy.run_path(path)
    work = tempfile.mkdtemp(prefix="plant")
    wt, d = os.path.join(work, "repo"), os.path.join(work, "demo")
    try:
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + s["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r = demo(wt, d)
        if r.returncode:
            return f"demo fails on the clean tree\n{r.stdout}{r.stderr}"
        for f, old, new in s["EDITS"]:
            p = os.path.join(wt, f)
            t = open(p, newline="").read()
            if t.count(old) != 1:
                return f"{f}: {t.count(old)} matches of {old!r}"
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
        r = demo(wt, d)
        if not r.returncode:
            return f"demo passes with the patch\n{r.stdout}{r.stderr}"
        why = (r.stdout + r.stderr)[-300:]
        env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--ignore=tests.unit/database/test_package_table.py"], cwd=wt, env=env, capture_output=True, text=True, timeout=600)
        base = json.load(open("/opt/vp/BASELINE.json"))
        tail = r.stdout[-1500:]
        if " failed" in tail.splitlines()[-1]:
            return "tests fail\n" + tail
        out = os.path.join(V, "seeded", s["ID"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        # do the checks notice?
        env = dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1")
        c = subprocess.run([os.path.join(V, "check.sh"), s["PROPERTY"]], env=env, capture_output=True, text=True)
        return f"OK ({tail.splitlines()[-1]}) demo: {why.strip().splitlines()[-1] if why.strip() else ''}\n   CHECK rc={c.returncode} {c.stdout.strip()[-300:]}"
    finally:
        shutil.rmtree(work)


for p in sys.argv[1:]:
    print(os.path.basename(p), one(p), flush=True)
