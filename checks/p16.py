"""P16: workspace scan tables of the database."""
import os
import shutil
import subprocess

from checks import infgen
from checks import wsgen as g
from checks.edkgen import layout
from edk2toollib.database import Edk2DB, Environment, Inf, Package, Repository, Source
from edk2toollib.database.tables import EnvironmentTable, InfTable, PackageTable, SourceTable
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, st
from pbt.core import expect, same

META = dict(
    title="The database lists every source, module, package and repository of a workspace",
    statement="For any workspace, scanning it stores exactly one row for every source file (with its licence and line counts), for every module file with an identity (with its class, type, package, sources and libraries), and for every package with the repository it belongs to, all outside the top-level build directory and under the path relative to the nearest package path, and the environment with all its values. Packages belong to the submodule whose directory contains them, else to the workspace's repository, named after its origin. Scanning again brings the rows up to date without duplicates.",
    over=["inputs", "histories"],
    text="every tree of files, nested package paths, repositories with any remotes and submodules",
    why="The tests scan trees of two or three files without submodules.",
    files=["edk2toollib/database/tables/source_table.py", "edk2toollib/database/tables/inf_table.py", "edk2toollib/database/tables/package_table.py", "edk2toollib/database/tables/environment_table.py"],
    mechanism=[("sources", "SourceTable.parse, _parse_file"), ("modules", "InfTable.parse, _parse_file"), ("packages", "PackageTable.parse"), ("environment", "EnvironmentTable.parse")],
    technique="property-based testing: generated trees and repositories compared with a model of their content",
    note="code statistics are checked on files of plain statements, line comments and blank lines; packages are in build directories or not, as the package scan covers the whole workspace",
)
CHECK = Check("P16", "at least two sources and one module with sources, or a package inside a submodule")

DIRS = ["", "APkg", "APkg/Lib", "PP/BPkg", "PP/Sub/CPkg", "Build", "Build/X64", "APkg/Build", "Common/MU", "Common/MU_OEM/DPkg", "Common/MU/EPkg", "BuildTools", "Builds/BPkg"]
EXT = [".c", ".h", ".cpp", ".asm", ".s", ".nasm", ".masm", ".rs", ".S", ".txt", ".cc", ".C", ".uni", ".hh"]
KNOWN = [".c", ".h", ".cpp", ".asm", ".s", ".nasm", ".masm", ".rs"]
line = st.sampled_from(["int a;", "int b = 5;", "", "  ", "// note", "// SPDX-License-Identifier: BSD-2-Clause-Patent", "// SPDX-License-Identifier:MIT", "// license: none", "/* SPDX-License-Identifier: Apache-2.0 OR MIT */", "/* SPDX-License-Identifier: BSD-2-Clause-Patent*/", "/** SPDX-License-Identifier: MIT **/", "// SPDX-License-Identifier:   MIT \t", "// see SPDX", "// caf\u00e9"])
source = st.tuples(st.sampled_from(DIRS), st.sampled_from(["a", "b", "c.d"]), st.sampled_from(EXT + KNOWN), st.lists(line, max_size=6), st.sampled_from(["\n", "\n", "\r\n"]), st.booleans(), st.integers(0, 7))
content = st.tuples(st.one_of(st.none(), st.sampled_from(["DebugLib", "IoLib"])), st.sampled_from(["PEIM", "DXE_DRIVER", None]), st.lists(st.tuples(st.sampled_from(["a.c", "b.c", "Sub/a.nasm", "../Shared/s.c", "S.h", "./a.c"]), st.sampled_from([None, None, "X64", "IA32"])), max_size=4), st.lists(st.sampled_from(g.CLS), max_size=3))
module = st.tuples(st.sampled_from(DIRS), st.sampled_from(["M", "N"]), st.sampled_from([".inf", ".inf", ".inf", ".inf", ".INF", "noguid", "dir"]), content)
models = st.fixed_dictionaries(
    {
        "sources": st.lists(source, min_size=1, max_size=7),
        "modules": st.lists(module, min_size=1, max_size=4),
        "decs": st.lists(st.tuples(st.sampled_from(DIRS + ["Common/MU_OEM/DPkg", "Common/MU/EPkg"] * 3), st.sampled_from(["P.dec", "P.dec", "Q.dec", "P.decx", "dir.dec"])), min_size=1, max_size=6),
        "pps": st.sampled_from([[], ["PP"], ["PP", "PP/Sub"], ["PP/Sub"], ["Common/MU_OEM"]]),
        "git": st.sampled_from(["sub", "sub", "sub", "sub", "plain", "plain", "none", "empty"]),
        "remotes": st.lists(st.tuples(st.sampled_from(["origin", "upstream", "fork"]), st.sampled_from(["https://host/x/edk2.git", "https://host/x/Mu_Basecore", "git@host:x/.github.git", "https://host/x/.github", "https://host/my.git.tools", "https://host/x/repo/", "git@host:x/mu.git"])), max_size=2, unique_by=lambda t: t[0]),
        "subs": st.lists(st.sampled_from(["Common/MU", "Common/MU", "Common/MU_OEM", "PP", "APkg/Lib"]), max_size=3, unique=True),
        "named": st.sampled_from(["", "", "MU_", "../"]),
        "stats": st.booleans(),
        "exts": st.sampled_from([None, None, ["*.c"], ["*.c", "*.txt"], ["*.c", "*.c", "*.h"]]),
        "env": st.dictionaries(st.sampled_from(["ARCH", "TARGET", "A B", "é", ""]), st.sampled_from(["", "X64", "a=b", "multi\nline", "ü"]), max_size=4),
        "style": infgen.styles,
        "changes": st.lists(st.tuples(st.integers(0, 6), st.lists(line, max_size=5)), max_size=3),
        "again": st.lists(st.tuples(st.integers(0, 3), content), max_size=2),
        "more": st.lists(module, max_size=1),
        "late": st.booleans(),
        "latin": st.booleans(),
        "newdecs": st.lists(st.sampled_from(DIRS[1:]), max_size=2),
    }
)


def rel(path, pps):
    best = max((p for p in pps if path == p or path.startswith(p + "/")), key=len, default=None)
    return path if best is None else path[len(best) + 1 :]


def counted(p, lines):
    """Whether the code statistics are ours to predict: statements and line comments of a language we know."""
    return p.endswith((".c", ".h", ".cpp", ".rs")) and not any(x.startswith("/*") for x in lines)


def facts(p, lines, stats):
    lic = "Unknown"
    for ln in lines:
        if "SPDX-" in ln:
            lic = ln.split(":")[1].strip().strip("*/ ")
    n = len(lines)
    if not stats:
        return (lic, n, n, 0, 0)
    if not counted(p, lines):
        return (lic, n, None, None, None)
    code, com = sum(x.startswith("int") for x in lines), sum(x.startswith("//") for x in lines)
    return (lic, n, code, com, None)  # how the statistics count blank lines at the end is not ours


def put(p, text, enc="utf-8"):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p):
        return False
    with open(p, "w", newline="", encoding=enc) as f:
        f.write(text)
    return True


def repo_name(remotes):
    if not remotes:
        return "BASE"
    url = dict(remotes).get("origin", remotes[0][1])
    name = url.rstrip("/").split("/")[-1]
    return (name[:-4] if name.endswith(".git") else name).upper()


def named(m, s):
    """The name of a submodule need not be its path."""
    return m["named"].replace("../", "x") + s.replace("/", "_") if m["named"] else s


def mkgit(m, ws):
    if m["git"] == "none":
        return None
    tpl, sha = g.git_template()
    if m["git"] == "empty":
        subprocess.run(["git", "init", "-q", "--template=", ws], check=True)
        sha = "UNKNOWN"
    else:
        shutil.copytree(tpl, os.path.join(ws, ".git"))
    with open(os.path.join(ws, ".git", "config"), "a") as f:
        for name, url in m["remotes"]:
            f.write(f'[remote "{name}"]\n\turl = {url}\n\tfetch = +refs/heads/*:refs/remotes/{name}/*\n')
    if m["git"] == "sub" and m["subs"]:
        with open(os.path.join(ws, ".gitmodules"), "w") as f:
            for s in m["subs"]:
                f.write(f'[submodule "{named(m, s)}"]\n\tpath = {s}\n\turl = https://host/{s}.git\n')
        args = []
        for s in m["subs"]:
            args += ["--cacheinfo", f"160000,{sha},{s}"]
        subprocess.run(["git", "-C", ws, "update-index", "--add"] + args, check=True)
    return sha


@CHECK.sub("scan", models, quick=200, thorough=10000, shards=3)
def scan(m, ctx):
    root = os.path.realpath(ctx.tmp(wild=True))
    ws = os.path.join(root, "Work")
    pps = m["pps"]
    for p in pps + [""]:
        os.makedirs(os.path.join(ws, p), exist_ok=True)
    sha = mkgit(m, ws)
    inbuild = lambda p: p.startswith("Build/")  # noqa: E731
    have, where = {}, []
    enc = "latin-1" if m["latin"] and not m["stats"] else "utf-8"  # the statistics are of UTF-8 text
    for d, n, e, lines, nl, last, isdir in m["sources"]:
        p = f"{d}/{n}{e}" if d else n + e
        if isdir == 7:
            if not os.path.exists(os.path.join(ws, p)):
                os.makedirs(os.path.join(ws, p))
            continue
        text = nl.join(lines) + (nl if last and lines else "")
        if put(os.path.join(ws, p), text, enc):
            if not last and lines and lines[-1] == "":
                lines = lines[:-1]
            have[p] = lines
            where.append(p)
    decs = set()
    for d, n in m["decs"]:
        if n == "dir.dec":
            os.makedirs(os.path.join(ws, d, "X", n), exist_ok=True)
            continue
        put(os.path.join(ws, d, n), "[Defines]\n")
        if n.endswith(".dec"):
            decs.add(d)
    mods = {}

    def put_module(d, n, kind, content):
        p = (d + "/" if d else "") + n + (".inf" if kind in ("noguid", "dir") else kind)
        cls, mt, srcs, libs = content
        full = os.path.join(ws, p)
        if kind == "dir":
            if not os.path.exists(full):
                os.makedirs(full)
            return
        if os.path.isdir(full):
            return
        if d == "" and any(s.startswith("..") for s, _ in srcs):
            srcs = []
        L = ["[Defines]", "BASE_NAME = X"] + ([] if kind == "noguid" else [f"FILE_GUID = {g.gid(p)}"]) + ([f"MODULE_TYPE = {mt}"] if mt else []) + ([f"LIBRARY_CLASS = {cls}|PEIM"] if cls else [])
        for s, sc in srcs:
            L += ["[Sources]" if sc is None else f"[Sources.{sc}]", s]
        L += ["[LibraryClasses]"] + libs
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w") as f:
            f.write(layout(L, m["style"]))
        if kind == ".inf" and not inbuild(p):
            mods[p] = (d, cls, mt, srcs, libs)

    def modules():
        infs = {}
        for p, (d, cls, mt, srcs, libs) in mods.items():
            pkg = None
            q = d
            while q and pkg is None:
                if q in decs:
                    pkg = os.path.basename(q)
                q = os.path.dirname(q)
            got = (g.gid(p), cls, pkg, mt, {rel(os.path.normpath(os.path.join(d, s)), pps) for s, _ in srcs}, set(libs))
            infs.setdefault(rel(p, pps), []).append(got)
        return infs

    def new_modules(lst):
        for d, n, kind, content in lst:
            p = (d + "/" if d else "") + n + (".inf" if kind in ("noguid", "dir") else kind)
            if not os.path.exists(os.path.join(ws, p)):
                put_module(d, n, kind, content)

    new_modules(m["modules"])
    ep = Edk2Path(ws, pps)
    exts = m["exts"] or ["*" + e for e in KNOWN]
    listed = lambda p: any(p.endswith(x[1:]) for x in exts) and not inbuild(p)  # noqa: E731
    kw = {} if m["exts"] is None else {"source_extensions": m["exts"]}
    db = Edk2DB(":memory:", ep)
    tables = [EnvironmentTable(), PackageTable(), SourceTable(n_jobs=1, source_stats=m["stats"], **kw), InfTable(n_jobs=1)]
    if m["late"]:
        tables[2:] = tables[:1:-1]  # the modules first: their sources are known before they are scanned
    db.register(*tables)
    want = {}
    older = set()
    twice = bool(m["changes"] or m["again"] or m["newdecs"])
    for rnd in range(2 if twice else 1):
        if rnd:
            older = {x for v in modules().values() for i in v for x in i[4]}
            for i, content in m["again"]:
                if mods:
                    p = sorted(mods)[i % len(mods)]
                    put_module(os.path.dirname(p), os.path.basename(p)[:-4], ".inf", content)
            new_modules(m["more"])
            for d in m["newdecs"]:
                put(os.path.join(ws, d, "New.dec"), "[Defines]\n")
                decs.add(d)
            for i, lines in m["changes"]:
                if where:
                    p = where[i % len(where)]
                    with open(os.path.join(ws, p), "w", encoding=enc) as f:
                        f.write("".join(x + "\n" for x in lines))
                    have[p] = lines
        db.parse(m["env"])
        infs = modules()
        cand = {}
        for p, lines in have.items():
            if listed(p):
                cand.setdefault(rel(p, pps), []).append(facts(p, lines, m["stats"]))
        listed_by = older.union(*[x[4] for v in infs.values() for x in v])
        with db.session() as s:
            rows = [(r.path, (r.license, r.total_lines, r.code_lines, r.comment_lines, r.blank_lines)) for r in s.query(Source)]
            same(len({p for p, _ in rows}), len(rows), "source paths are unique")
            rows = dict(rows)
            same(sorted(set(cand) - set(rows)), [], "sources missing")
            same(sorted(set(rows) - set(cand) - listed_by), [], "sources that do not exist")
            for p, f in rows.items():
                if p in cand:
                    expect(any(all(w is None or w == v for v, w in zip(f, x)) for x in cand[p]), f"source {p}: got {f}, expected one of {cand[p]}")
            rows = [(r.path, (r.guid, r.library_class, r.package_name, r.module_type, {x.path for x in r.sources}, {x.name for x in r.libraries})) for r in s.query(Inf)]
            same(sorted(p for p, _ in rows), sorted(infs), "modules")
            for p, f in rows:
                expect(f in infs[p], f"module {p}: got {f}, expected one of {infs[p]}")
            envs = s.query(Environment).all()
            same(len(envs), rnd + 1, "environments")
            for e in envs:
                same({v.key: v.value for v in e.values}, m["env"], "environment values")
                same(e.version, sha or "UNKNOWN", "version")
            want = set()
            if m["git"] != "none":
                for d in decs:
                    sub = [x for x in m["subs"] if m["git"] == "sub" and (d == x or d.startswith(x + "/"))]
                    deep = {max(sub, key=len)} if sub else {None}
                    nested = len(sub) > 1
                    want.add((os.path.basename(d) or "Work", d or ".", "any" if nested else (named(m, next(iter(deep))) if sub else repo_name(m["remotes"])), "any" if nested else next(iter(deep))))
            rows = [(r.name, r.path, r.repository.name, r.repository.path) for r in s.query(Package)]
            anyway = {x[1] for x in want if x[3] == "any"}
            rows = [(a, b, "any", "any") if b in anyway else (a, b, c, d) for a, b, c, d in rows]
            same(sorted(rows, key=str), sorted(want, key=str), "packages with their repository")
            repos = [(r.name, r.path) for r in s.query(Repository)]
            same(len(set(repos)), len(repos), "repositories are unique")
    db.engine.dispose()
    ctx.nontrivial(len(cand) >= 2 and any(x[4] for v in infs.values() for x in v) or any(x[3] not in (None, "any") for x in want))
    ctx.label(m["git"], f"rounds={1 + twice}")
