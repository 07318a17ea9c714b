"""P02: the package and the modules that contain a path."""
import os

from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, expect, st
from pbt.core import rejects, same

META = dict(
    title="Containing package and containing modules of any path",
    statement="For any path under the workspace or a package path, the containing package is the name of the nearest directory, from the path itself (if a directory) up to but excluding the root, that holds a .dec file in any letter case, and nothing if there is none or the path lies outside. The containing modules are the path itself if it names an .inf, otherwise exactly the .inf files of the nearest parent directory that has any, never looking at or above the outermost root containing the path. Both work for files that do not exist and for any order or nesting of package paths, always terminate, and leave the path object unchanged.",
    over=["inputs", "configurations"],
    text="every layout of directories, .inf and .dec files, workspace, ordered package path list, and query path (existing or deleted, either separator style)",
    why="The tests cover a handful of layouts with un-nested package paths; the upward search and its stopping point depend on nesting and order.",
    files=["edk2toollib/uefi/edk2/path_utilities.py"],
    mechanism=[("upward search for a .dec", "Edk2Path.GetContainingPackage"), ("outermost roots and upward search for .inf files", "Edk2Path.GetContainingModules")],
    technique="property-based testing: generated directory trees against a reference search",
    note="POSIX host paths only; directory arguments are checked for the package query, files for the module query",
)

CHECK = Check("P02", "a package or module is found above the path's own directory, or roots are nested, or the path does not exist")

comp = st.sampled_from(["a", "b", "Pkg", "m", "X64", "c d", "a.b", "P.Pkg"])
rel = st.lists(comp, min_size=0, max_size=4).map("/".join)
rel1 = st.lists(comp, min_size=1, max_size=3).map("/".join)


def layouts():
    return st.fixed_dictionaries(
        {
            "pps": st.lists(st.tuples(st.sampled_from(["in", "in", "out", "sub", "sub", "parent", "eq"]), rel1), max_size=4),
            "dirs": st.lists(st.tuples(st.integers(0, 4), rel, st.sampled_from(["", ".dec", ".dec", ".inf", ".inf", "2.inf", ".DEC", ".INF", ".Inf", ".c", ".decx", ".inf.bak", "dir.inf", "dir.dec"])), min_size=1, max_size=12),
            "queries": st.lists(st.tuples(st.integers(0, 12), st.sampled_from(["file", "file", "gone", "gonedeep", "dir", "root", "inf", "outside", "INF", "2.iNf"]), st.booleans()), min_size=1, max_size=8),
            "moves": st.lists(st.tuples(st.integers(0, 7), st.integers(0, 12), st.sampled_from(["-.dec", "-.inf", "+.dec", "+.inf"])), max_size=3),
        }
    )


def inside(p, root):
    return p == root or p.startswith(root + "/")


def build(case, tmp):
    ws = os.path.join(tmp, "top", "ws")
    os.makedirs(ws)
    pps = []
    for kind, r in case["pps"]:
        p = {"in": os.path.join(ws, r), "out": os.path.join(tmp, "out", r), "sub": os.path.join((pps or [ws])[-1], r), "parent": os.path.dirname(ws), "eq": ws}[kind]
        os.makedirs(p, exist_ok=True)
        pps.append(p)
    dirs = []
    for i, r, ext in case["dirs"]:
        base = ([ws] + pps)[i % (1 + len(pps))]
        d = os.path.join(base, r) if r else base
        os.makedirs(d, exist_ok=True)
        dirs.append(d)
        if ext.startswith("dir"):
            os.makedirs(os.path.join(d, ext), exist_ok=True)
        elif ext:
            with open(os.path.join(d, "Mod" + ext), "w") as h:
                h.write("x")
    return ws, pps, dirs


def up(p):
    while p != "/":
        yield p
        p = os.path.dirname(p)


def model_package(p, ws, pps):
    root = ws if inside(p, ws) else next((r for r in pps if inside(p, r)), None)
    if root is None:
        return None
    for d in up(p if os.path.isdir(p) else os.path.dirname(p)):
        if d == root:
            return None
        if os.path.isdir(d) and any(os.path.splitext(f)[1].lower() == ".dec" and os.path.isfile(os.path.join(d, f)) for f in os.listdir(d)):
            return os.path.basename(d)
    return None


def model_modules(p, ws, pps):
    roots = [r for r in pps + [ws] if inside(p, r)]
    if not roots:
        return []
    top = min(roots, key=len)
    if p.lower().endswith(".inf"):
        return [p]
    if p == top:
        return []
    for d in up(os.path.dirname(p)):
        if d == top:
            return []
        if os.path.isdir(d):
            r = sorted(os.path.join(d, f) for f in os.listdir(d) if f.lower().endswith(".inf") and os.path.isfile(os.path.join(d, f)))
            if r:
                return r
    return []


@CHECK.sub("nearest", layouts(), quick=900, thorough=30000, shards=2, cpu_limit=10)
def nearest(case, ctx):
    tmp = ctx.tmp(wild=True)
    ws, pps, dirs = build(case, tmp)
    # two unrelated-by-workspace roots nested in each other: which one bounds the package search is unspecified
    outside_nested = any(a != b and inside(a, b) and not inside(a, ws) for a in pps for b in pps) or any(inside(ws, p) and p != ws for p in pps)
    ep = Edk2Path(ws, pps)
    before = (ep.WorkspacePath, ep.PackagePathList)
    nested = len({p for p in pps if p != ws}) >= 2 and any(a != b and inside(a, b) for a in pps for b in pps)
    for q, (i, kind, back) in enumerate(case["queries"]):
        for at, k, what in case["moves"]:  # files come and go between the queries
            if at == q:
                f = os.path.join(dirs[k % len(dirs)], "Mod" + what[1:])
                if what[0] == "+":
                    open(f, "a").close()
                elif os.path.isfile(f):
                    os.remove(f)
                ctx.label("tree changed")
        d = dirs[i % len(dirs)]
        p = {
            "file": os.path.join(d, "Mod.c"),
            "gone": os.path.join(d, "no", "f.c"),
            "gonedeep": os.path.join(d, "no", "Pkg", "f.c"),
            "dir": d,
            "root": ([ws] + pps)[i % (1 + len(pps))],
            "inf": os.path.join(d, "Mod.inf"),
            "INF": os.path.join(d, "MOD.INF"),
            "2.iNf": os.path.join(d, "a.b.iNf"),
            "outside": os.path.join(tmp, "elsewhere", "f.c"),
        }[kind]
        arg = p.replace("/", "\\") if back else p
        if not outside_nested:
            want = model_package(p, ws, pps)
            same(ep.GetContainingPackage(arg), want, f"containing package of {p}")
            ctx.nontrivial(want is not None and os.path.basename(os.path.dirname(p)) != want)
            ctx.label("package" if want else "no package")
        isroot = p in pps or p == ws
        if kind != "dir" or isroot:
            if isroot and p != min((r for r in pps + [ws] if inside(p, r)), key=len):
                continue  # a directory that is an inner root: as for any directory, not a module path
            want = model_modules(p, ws, pps)
            got = ep.GetContainingModules(arg)
            same(sorted(got), want, f"containing modules of {p}")
            ctx.nontrivial(bool(want) and (nested or not os.path.exists(p)))
            ctx.label(f"modules={min(len(want), 2)}", *(["nested"] if nested else []))
    same((ep.WorkspacePath, ep.PackagePathList), before, "the object's paths after the queries")


@CHECK.sub("relative", rel1, quick=60, thorough=1000)
def relative(case, ctx):
    tmp = ctx.tmp(wild=True)
    ep = Edk2Path(tmp, [])
    ctx.nontrivial()
    rejects(ep.GetContainingModules, case + "/f.c", what="a relative module path")
    expect(True)
