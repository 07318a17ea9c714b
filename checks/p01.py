"""P01: absolute paths <-> edk2-relative paths."""
import contextlib
import os

from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, expect, st
from pbt.core import same

META = dict(
    title="Absolute and edk2-relative paths convert consistently",
    statement="For any workspace and list of package paths, an absolute path converts to the POSIX path relative to the deepest package path that contains it, otherwise relative to the workspace, otherwise to nothing; a relative path converts to the first existing file or directory among the workspace and then the package paths in their given order, otherwise to nothing. The answer does not depend on the separator style, on how the path is split into parts, on the current directory or on earlier queries, and converting an existing path there and back returns it unless a path earlier in that order shadows it. Package paths given as absolute, workspace-relative or cwd-relative mean the same directories, and invalid entries are refused or dropped as requested.",
    over=["inputs", "configurations"],
    text="every directory layout, workspace, ordered set of package paths (nested, overlapping, duplicated, invalid) and query path in either separator style",
    why="The tests use a dozen fixed layouts; precedence between nested package paths, workspace and shadowing depends on combinations they do not contain.",
    files=["edk2toollib/uefi/edk2/path_utilities.py"],
    mechanism=[("absolute to relative conversion and its package path ordering", "Edk2Path.GetEdk2RelativePathFromAbsolutePath"),
               ("relative to absolute lookup", "Edk2Path.GetAbsolutePathOnThisSystemFromEdk2RelativePath"),
               ("package path resolution and validation", "Edk2Path.__init__")],
    technique="property-based testing: generated directory trees and package path lists, reference-model and round-trip oracle",
    note="POSIX host paths only; up to 6 package paths and 14 files per layout",
)

CHECK = Check("P01", "a query path is inside at least two candidate roots, or is shadowed, or resolves through a package path")

NAMES = ["a", "b", "ab", "A", "Pkg", "Pkg2", "x y", "MU", "a.b"]
comp = st.sampled_from(NAMES)
relpath = st.lists(comp, min_size=1, max_size=4).map("/".join)
short = st.lists(st.sampled_from(["a", "b", "ab", "Pkg"]), min_size=1, max_size=2).map("/".join)
WS = ["ws", "ws/inner", "a/ws", "ws b", "ws.", ".ws/w..s.."]


def layouts():
    return st.fixed_dictionaries(
        {
            "ws": st.sampled_from(WS),
            "wsform": st.sampled_from(["abs", "absback", "cwd", "slash", "dot"]),
            "cwd": st.sampled_from(["", "", "ws", "other"]),
            "pps": st.lists(
                st.tuples(st.sampled_from(["in"] * 5 + ["out"] * 3 + ["sub"] * 6 + ["parent", "eq", "missing"]), short, st.sampled_from(["abs", "rel", "back", "slash"])),
                max_size=5,
            ),
            "files": st.lists(st.tuples(st.sampled_from(["ws", "pp", "pp", "pp", "root"]), st.integers(0, 4), st.one_of(short, relpath)), min_size=1, max_size=12),
            "queries": st.lists(st.tuples(st.sampled_from(["file", "file", "dir", "gone", "outside"]), st.integers(0, 11), st.one_of(short, relpath), st.integers(0, 3)), min_size=1, max_size=8),
            "moves": st.lists(st.tuples(st.integers(0, 7), st.integers(0, 4), st.integers(0, 11), st.sampled_from(["add", "add", "del"])), max_size=3),
            "error": st.booleans(),
            "links": st.sampled_from([0, 0, 1, 2, 3]),
        }
    )


def build(case, tmp):
    """Creates the tree. Returns (ws, package paths as given, absolute package paths or None for a missing one, files)."""
    ws = os.path.join(tmp, case["ws"])
    if case["links"] & 1:  # the workspace is reached through a symbolic link
        os.makedirs(os.path.dirname(ws), exist_ok=True)
        os.makedirs(os.path.join(tmp, "real"))
        os.symlink(os.path.join(tmp, "real"), ws)
    else:
        os.makedirs(ws)
    for d in ("ws", "other"):
        os.makedirs(os.path.join(tmp, d), exist_ok=True)
    os.chdir(os.path.join(tmp, case["cwd"]))
    given, absol = [], []
    for kind, rel, form in case["pps"]:
        if kind == "in":
            p = os.path.join(ws, rel)
        elif kind == "out":
            p = os.path.join(tmp, "out", rel)
        elif kind == "sub":
            p = os.path.join(([ws] + [q for q in absol if q])[-1], rel)
        elif kind == "parent":
            p = os.path.dirname(ws)
        elif kind == "eq":
            p = ws
        else:
            p = os.path.join(tmp, "nothere", rel)
        if kind == "out" and case["links"] & 2 and not os.path.lexists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.makedirs(os.path.join(tmp, "out-real", rel), exist_ok=True)
            if not os.path.lexists(p):  # a folder above may be a link already
                os.symlink(os.path.join(tmp, "out-real", rel), p)
        elif kind != "missing":
            os.makedirs(p, exist_ok=True)
        g = p
        if form == "rel":
            if kind == "in" or kind == "sub" and inside(p, ws):
                g = os.path.relpath(p, ws)
            elif kind == "out":
                g = os.path.relpath(p, os.getcwd())
                if os.path.isdir(os.path.join(ws, g)):
                    g = p
                elif g[0] != "." and not os.path.lexists(os.path.join(ws, g)):  # a file of that name in the workspace is no such folder
                    with contextlib.suppress(OSError):
                        os.makedirs(os.path.dirname(os.path.join(ws, g)), exist_ok=True)
                        open(os.path.join(ws, g), "w").close()
        elif form == "back":
            g = p.replace("/", "\\")
        elif form == "slash":
            g = p + "/"
        given.append(g)
        absol.append(None if kind == "missing" else p)
    roots = {"ws": [ws], "root": [tmp], "pp": [p for p in absol if p] or [ws]}
    files = []
    for where, i, rel in case["files"]:
        r = roots[where]
        f = os.path.join(r[i % len(r)], rel)
        if os.path.exists(f):
            continue
        try:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as h:
                h.write("x")
        except (NotADirectoryError, FileExistsError):
            continue
        files.append(f)
    return ws, given, absol, files


def inside(p, root):
    return p == root or p.startswith(root.rstrip("/") + "/")


def model_rel(p, ws, pps):
    best = [r for r in pps if inside(p, r)]
    if best:
        r = max(best, key=len)
    elif inside(p, ws):
        r = ws
    else:
        return None
    return os.path.relpath(p, r) if p != r else "."


def model_abs(rel, ws, pps):
    for r in [ws] + pps:
        p = r if rel == "." else os.path.join(r, rel)
        if os.path.exists(p):
            return p
    return None


def norm(p):
    """abs2: relpath() of '..'-bearing package paths keeps the '..' lexically; compare what they name."""
    return None if p is None else os.path.normpath(p)


@CHECK.sub("convert", layouts(), quick=900, thorough=30000, shards=2)
def convert(case, ctx):
    tmp = ctx.tmp(wild=True)
    ws, given, absol, files = build(case, tmp)
    wsarg = {"abs": ws, "absback": ws.replace("/", "\\"), "cwd": os.path.relpath(ws, os.getcwd()), "slash": ws + "/", "dot": ws + "/."}[case["wsform"]]
    if None in absol and case["error"]:
        try:
            Edk2Path(wsarg, given)
        except NotADirectoryError:
            return
        raise AssertionError("an invalid package path was accepted")
    ep = Edk2Path(wsarg, given, error_on_invalid_pp=case["error"])
    pps = [p for p in absol if p]
    same(norm(ep.WorkspacePath), ws, "WorkspacePath")
    same([norm(p) for p in ep.PackagePathList], pps, "PackagePathList")
    # a root reached through '..' only matches lexically: not the documented use, keep such roots out of the queries
    if any(".." in p for p in [ep.WorkspacePath] + ep.PackagePathList):
        ctx.label("dotdot root")
        return
    before = (ep.WorkspacePath, ep.PackagePathList)
    rels = [q[2] for q in case["queries"]]
    for n, (kind, i, rel, style) in enumerate(case["queries"]):
        for at, k, j, what in case["moves"]:  # files come and go between the queries
            if at == n:
                f = os.path.join(([ws] + pps)[k % (1 + len(pps))], rels[j % len(rels)]) if what == "add" else (files or [ws])[j % max(len(files), 1)]
                with contextlib.suppress(OSError):
                    if what == "add":
                        os.makedirs(f)
                    else:
                        os.remove(f)
                    ctx.label("tree changed")
        if n and i % 3 == 0:
            rel = rels[n - 1]
        base = files[i % len(files)] if files else ws
        p = {"file": base, "dir": os.path.dirname(base), "gone": os.path.join(os.path.dirname(base), "gone", rel), "outside": os.path.join(tmp, rel)}[kind]
        os.chdir(tmp)  # no answer depends on the cwd any more
        want = model_rel(p, ws, pps)
        arg = [p]
        if style == 1:
            arg = [p.replace("/", "\\")]
        elif style == 2:
            arg = [os.path.dirname(p), os.path.basename(p)]
        elif style == 3:
            arg = [os.path.dirname(p).replace("/", "\\"), os.path.basename(p)]
        got = ep.GetEdk2RelativePathFromAbsolutePath(*arg)
        same(got, want, f"relative path of {p}")
        n = sum(inside(p, r) for r in set(pps + [ws]))
        ctx.nontrivial(n >= 2)
        ctx.label(f"roots={min(n, 4)}")
        # back again
        if want is not None:
            rarg = [want]
            if style == 1:
                rarg = [want.replace("/", "\\")]
            elif style >= 2:
                rarg = want.split("/")
            wantabs = model_abs(want, ws, pps)
            gotabs = ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(*rarg)
            same(gotabs, wantabs, f"absolute path of {want}")
            ctx.nontrivial(wantabs not in (None, p))
            if os.path.exists(p):
                expect(gotabs is not None, f"{p} exists but its relative path {want} does not resolve")
                if gotabs == p:
                    ctx.label("round trip")
                else:
                    ctx.label("shadowed")
        # a relative path in its own right
        wantabs = model_abs(rel, ws, pps)
        same(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(*([rel.replace("/", "\\")] if style == 1 else rel.split("/")), log_errors=bool(style)), wantabs, f"absolute path of {rel}")
        ctx.nontrivial(wantabs is not None and not inside(wantabs, ws))
        same(ep.GetEdk2RelativePathFromAbsolutePath(None), None, "relative path of None")
        same(ep.GetAbsolutePathOnThisSystemFromEdk2RelativePath(None), None, "absolute path of None")
    same((ep.WorkspacePath, ep.PackagePathList), before, "the object's paths after the queries")


@CHECK.sub("badws", st.tuples(relpath, st.booleans()), quick=100, thorough=2000)
def badws(case, ctx):
    rel, afile = case
    tmp = ctx.tmp(wild=True)
    p = os.path.join(tmp, rel)
    if afile:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
    ctx.nontrivial()
    try:
        Edk2Path(p, [])
    except NotADirectoryError:
        return
    raise AssertionError("a workspace that is not a directory was accepted")
