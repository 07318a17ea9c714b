"""Entry point: run.py <id> [--tier T] [--sub S] [--replay FILE]; see check.sh."""
import argparse
import ast
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
REPO = os.environ.setdefault("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import pbt  # noqa: E402
from pbt import core  # noqa: E402


def load(prop):
    import edk2toollib

    got = os.path.realpath(os.path.dirname(edk2toollib.__file__))
    want = os.path.realpath(os.path.join(REPO, "edk2toollib"))
    if got != want:
        print(f"harness error: imported {got}, wanted {want}")
        sys.exit(3)
    return importlib.import_module("checks." + prop.lower()).CHECK


def known_file():
    """known_findings.txt -> {property: {finding id: text}} for the open ones."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("open: "):
                fields = line[6:].split(" ", 2)
                prop = fields[0].split("=", 1)[1]
                fid = fields[1].split("=", 1)[1]
                out.setdefault(prop, {})[fid] = fields[2]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--sub")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp()

    check = load(a.prop)

    if a.replay:
        d = json.load(open(a.replay))
        sub = check.subs[d["sub"]]
        case = ast.literal_eval(d["case"])
        _, res = core.run_case(sub, case, scratch)
        if res is None:
            print("replay passes")
            sys.exit(0)
        print(res[1])
        if res[0] == "error":
            sys.exit(3)
        print(f"VIOLATION property={check.prop} replay={a.replay}")
        sys.exit(1)

    if a.shard is not None:  # worker
        sub = check.subs[a.sub]
        if a.examples:
            sub.quick = sub.thorough = a.examples
        d = tempfile.mkdtemp(dir=scratch)
        os.chdir(d)
        r = core.run_sub(check, sub, a.tier, seed, a.shard, d)
        with open(a.out, "w") as f:
            json.dump(r, f)
        sys.exit(0)

    t0 = time.monotonic()
    jobs = [(s, k) for s in check.subs.values() for k in range(s.shards) if not a.sub or a.sub == s.name]

    def work(job):
        s, k = job
        out = os.path.join(scratch, f"{s.name}.{k}.json")
        cmd = [sys.executable, os.path.abspath(__file__), a.prop, "--tier", a.tier, "--sub", s.name, "--shard", str(k), "--out", out]
        if a.examples:
            cmd += ["--examples", str(a.examples)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try:
            return json.load(open(out))
        except Exception:
            return {"sub": s.name, "shard": k, "evals": 0, "skipped": 0, "hashes": [], "labels": {}, "samples": [],
                    "fail": None, "error": f"worker died rc={p.returncode}: {p.stdout[-3000:]}", "wall": 0}

    with ThreadPoolExecutor(a.jobs) as ex:
        results = list(ex.map(work, jobs))

    per = {}
    violations, errors = [], []
    for r in results:
        d = per.setdefault(r["sub"], {"evaluations": 0, "h": set(), "labels": Counter(), "samples": [], "skipped_over_budget": 0, "wall_s": 0.0})
        d["evaluations"] += r["evals"]
        d["h"].update(r["hashes"])
        d["labels"].update(r["labels"])
        d["samples"] += r["samples"][: 3 if r["shard"] == 0 else 1]
        d["skipped_over_budget"] += r["skipped"]
        d["wall_s"] = max(d["wall_s"], round(r["wall"], 2))
        if r["fail"]:
            violations.append(r)
        if r["error"]:
            errors.append(r)
    for name, d in per.items():
        d["distinct_nontrivial"] = len(d.pop("h"))
        d["labels"] = dict(d["labels"].most_common(40))
        print(f"{check.prop}/{name}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial, {d['wall_s']}s"
              + (f", {d['skipped_over_budget']} skipped over the time budget" if d["skipped_over_budget"] else ""))
        if d["distinct_nontrivial"] == 0 and not any(v["sub"] == name for v in violations):
            errors.append({"sub": name, "error": "no non-trivial case was generated"})

    # Findings listed in known_findings.txt: probe each; print while the defect is still there.
    listed = known_file().get(check.prop, {})
    for fid, probe in check.known:
        if fid not in listed:
            errors.append({"sub": "finding", "error": f"probe {fid} is not listed in known_findings.txt"})
            continue
        try:
            with core.quiet():
                msg = probe()
        except Exception as e:
            errors.append({"sub": "finding", "error": f"probe {fid}: {type(e).__name__} {e}"})
            continue
        if msg:
            print(f"KNOWN-FINDING: property={check.prop} {fid} {msg}")

    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    for v in violations:
        p = os.path.join(ev, "replays", f"{check.prop}-{v['sub']}.json")
        json.dump({"property": check.prop, "sub": v["sub"], "kind": v["fail"]["kind"], "seed": seed, "shard": v["shard"],
                   "case": v["fail"]["case"], "repr": v["fail"]["repr"], "message": v["fail"]["message"]},
                  open(p, "w"), indent=1)
        print(f"--- {check.prop}/{v['sub']} ({v['fail']['kind']}): {v['fail']['message'][:1500]}")
        print(f"    case: {v['fail']['repr'][:1500]}")
        print(f"VIOLATION property={check.prop} replay={p}")
    for e in errors:
        print(f"ERROR {check.prop}/{e['sub']}: {e['error']}")

    samples = []
    for name, d in per.items():
        samples += [{"sub": name, "case": s} for s in d.pop("samples")[:3]]
    evidence = {
        "property": check.prop,
        "tier": a.tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per.values()),
            "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in per.values()),
            "rule": check.rule,
            "samples": samples[:16],
            "sub_checks": per,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    if not a.sub:
        with open(os.path.join(ev, check.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    sys.exit(1 if violations else 3 if errors else 0)


if __name__ == "__main__":
    main()
