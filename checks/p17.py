"""P17: module instances and firmware volumes in the workspace database."""
import os

from checks import wsgen as g
from edk2toollib.database import Edk2DB, Fv, InstancedInf
from edk2toollib.database.tables import EnvironmentTable, InfTable, InstancedFvTable, InstancedInfTable, PackageTable, SourceTable
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check
from pbt.core import expect, same

META = dict(
    title="The database resolves every component to its actual libraries and volumes",
    statement="For any workspace and platform, the database holds one row for every component built for a target architecture and one for every library it uses directly or through other libraries, with its name, package, repository and sources for that architecture, all paths relative to the nearest package path. A library class resolves to the component's override, else to the latest instance supporting the component's module type in the sections for architecture and type, common and type, architecture, then common; library cycles and missing classes are no obstacle. Every row links to exactly the libraries it uses, NULL libraries of the component included, and every firmware volume to its built components.",
    over=["inputs"],
    text="every workspace, platform, set of scopes, overrides, library graphs and path spellings",
    why="The tests resolve one library for one or two components; precedence, phases, scopes, overrides and shared or cyclic library graphs interact.",
    files=["edk2toollib/database/tables/instanced_inf_table.py", "edk2toollib/database/tables/instanced_fv_table.py"],
    mechanism=[("resolution order", "InstancedInfTable._lib_to_instance, _reduce_lib_instances, _get_null_lib_instances"), ("recursion", "InstancedInfTable._parse_inf_recursively"), ("links", "InstancedInfTable._insert_db_rows"), ("volumes", "InstancedFvTable.parse")],
    technique="property-based testing: generated workspaces against a reference resolver",
    note="a component INF is listed once per platform; a library reached under several classes may be listed under any of them; volumes only list INFs that exist",
)
CHECK = Check("P17", "a component uses at least two libraries, one of them chosen among several candidates or reached through another library")


def read(db, env_id):
    out, fvs = {}, {}
    with db.session() as s:
        for r in s.query(InstancedInf).filter_by(env=env_id).all():
            key = (r.component, r.arch, r.path)
            expect(key not in out, f"two rows for {key}")
            out[key] = (r.cls, r.name, r.package.path if r.package else None, {x.path for x in r.sources}, {x.path for x in r.libraries}, r.repository.path if r.repository else None, r.dsc)
            for x in r.libraries:
                same((x.component, x.arch, x.env), (r.component, r.arch, env_id), f"instance linked to {key}")
        for f in s.query(Fv).filter_by(env=env_id).all():
            expect(f.name not in fvs, "a volume twice")
            fvs[f.name] = {x.path for x in f.infs}
            for x in f.infs:
                same((x.env, x.cls), (env_id, None), "component linked to a volume")
    return out, fvs


def compare(got, want):
    same(sorted(got), sorted(want), "instances (component, architecture, INF)")
    for k, (classes, *rest) in want.items():
        cls, name, pkg, srcs, libs, repo, dsc = got[k]
        expect(cls in classes, f"{k}: listed under class {cls}, used as {classes}")
        same((name, pkg, srcs), tuple(rest[:3]), f"{k}: name, package, sources")
        same(libs - {k[2]}, rest[3] - {k[2]}, f"{k}: libraries")
        if rest[4] is not ...:
            same(repo, rest[4], f"{k}: repository")
        same(dsc, "P.dsc", "platform")


@CHECK.sub("instances", g.models, quick=240, thorough=9000, shards=3)
def instances(m, ctx):
    from edk2toollib.database import Environment

    root = os.path.realpath(ctx.tmp())
    w = g.Workspace(m, os.path.join(root, "ws"), g.git_template()[0])
    ep = Edk2Path(w.root, w.pps)
    db = Edk2DB(":memory:", ep)
    db.register(EnvironmentTable(), PackageTable(), InstancedInfTable(), InstancedFvTable())
    if m["style"][0] % 4 == 0:
        db.clear_parsers()
        db.register(EnvironmentTable(), PackageTable(), SourceTable(n_jobs=1), InfTable(n_jobs=1), InstancedInfTable(), InstancedFvTable())
    db.parse(w.env())
    with db.session() as s:
        env_id = s.query(Environment).one().id
    rows, fvs = read(db, env_id)
    want = w.rows()
    compare(rows, want)
    same(fvs, w.fvs(), "volumes and their components")
    db.engine.dispose()
    libs = [k for k in want if k[0] != k[2]]
    cand = any(len(v) > 1 for v in w.scoped.values()) or any(c["over"] for c in m["comps"])
    deep = any(want[(k[0], k[1], k[0])][4] != {x[2] for x in want if x[:2] == k[:2] and x[2] != k[0]} for k in libs)
    ctx.nontrivial(len(libs) >= 2 and (cand or deep))
    ctx.label(f"rows={min(len(want), 9)}", "deep" if deep else "-")
