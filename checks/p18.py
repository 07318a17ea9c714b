"""P18: the workspace database over histories of scans."""
import os

from checks import wsgen as g
from checks.p17 import compare, read
from edk2toollib.database import Edk2DB, Environment, Inf, Package, Repository, Source
from edk2toollib.database.tables import EnvironmentTable, InfTable, InstancedFvTable, InstancedInfTable, PackageTable, SourceTable, TableGenerator
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, st
from pbt.core import expect, same

META = dict(
    title="Repeated scans of a workspace keep every run's results apart and nothing twice",
    statement="Over any history of scans with any environments, any registered generators and any changes to the workspace in between, every completed scan adds one environment with its values and the instances and volumes that the workspace then implies, and leaves those of earlier scans unchanged; sources, modules, packages and repositories are never stored twice. A generator that fails ends its scan with its own error, nothing it added is kept, and what earlier generators stored stays. Reopening the database file shows the same content.",
    over=["histories", "fault_sequences"],
    text="every sequence of scans, workspace changes, reopened databases and failing generators",
    why="The tests scan once or twice with one fixed workspace and never fail half way.",
    files=["edk2toollib/database/edk2_db.py", "edk2toollib/database/tables/instanced_inf_table.py"],
    mechanism=[("transactions", "Edk2DB.session, parse"), ("generators kept between scans", "InstancedInfTable.inf, register, clear_parsers"), ("existing rows", "InfTable.parse, SourceTable.parse, PackageTable.parse")],
    technique="stateful property-based testing: histories of scans against a model, with injected generator failures",
    note="a failing generator fails after adding rows; library and component INFs keep their identity when they change",
)
CHECK = Check("P18", "at least two scans of a workspace that changed in between, or a scan that failed")


class Boom(Exception):
    pass


class Failing(TableGenerator):
    def __init__(self, tag):
        self.tag = tag

    def parse(self, session, pathobj, env_id, env):
        session.add(Source(path=f"never/{self.tag}.c"))
        session.add(Environment(id=f"never{self.tag}", version="x"))
        if self.tag % 2:
            session.flush()
        raise Boom(self.tag)


step = st.one_of(
    st.tuples(st.just("scan"), st.sampled_from(["X64", "IA32 X64", "IA32"]), st.integers(0, 5)),
    st.tuples(st.just("scan"), st.sampled_from(["X64", "IA32 X64"]), st.integers(0, 5)),
    st.tuples(st.just("fail"), st.integers(0, 6), st.integers(0, 5)),
    st.tuples(st.just("uses"), st.integers(0, 9), g.uses),
    st.tuples(st.just("srcs"), st.integers(0, 9), g.srcs),
    st.tuples(st.just("sections"), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("comp"), st.integers(0, 9), g.comp),
    st.tuples(st.just("reopen"), st.booleans(), st.just(0)),
)


def tables(full):
    t = [EnvironmentTable(), PackageTable()]
    if full:
        t += [SourceTable(n_jobs=1), InfTable(n_jobs=1)]
    return t + [InstancedInfTable(), InstancedFvTable()]


@CHECK.sub("history", st.tuples(g.models, st.lists(step, min_size=2, max_size=7), st.booleans(), st.booleans()), quick=110, thorough=6000, shards=3)
def history(case, ctx):
    m, steps, full, git = case
    m = dict(m, libs=[x[:5] + (1,) for x in m["libs"]], comps=list(m["comps"]), sections=list(m["sections"]))
    root = os.path.realpath(ctx.tmp())
    ws = os.path.join(root, "ws")
    w = g.Workspace(m, ws, g.git_template()[0] if git else None)
    ep = Edk2Path(ws, w.pps)
    dbfile = os.path.join(root, "db.sqlite")
    db = Edk2DB(dbfile, ep)
    tabs = tables(full)
    db.register(*tabs)
    runs = []  # (environment id, its values, expected instances, expected volumes)
    ids = set()
    changed = failed = False
    n = 0
    for kind, a, b in steps:
        if kind == "scan":
            env = dict(w.env(), TARGET_ARCH=a, RUN=str(n))
            m["target"] = a
            db.parse(env)
            with db.session() as s:
                new = {e.id for e in s.query(Environment)} - ids
            same(len(new), 1, "new environments")
            ids |= new
            want = w.rows()
            if not git:
                want = {k: (v[0], v[1], None, *v[3:5], None) for k, v in want.items()}
            runs.append((new.pop(), env, want, w.fvs()))
        elif kind == "fail":
            at = a % (len(tabs) + 1)
            db.clear_parsers()
            db.register(*tabs[:at], Failing(n), *tabs[at:])
            env = dict(w.env(), RUN=str(n))
            try:
                db.parse(env)
            except Boom as e:
                same(e.args, (n,), "the generator's own error")
            else:
                raise AssertionError("a failing generator went unnoticed")
            failed = True
            db.clear_parsers()
            db.register(*tabs)
            with db.session() as s:
                new = {e.id for e in s.query(Environment)} - ids
            same(len(new), int(at > 0), "environments added by a scan that failed")
            ids |= new
            if new:
                done = [type(t).__name__ for t in tabs[:at]]
                want = w.rows() if "InstancedInfTable" in done else {}
                if not git:
                    want = {k: (v[0], v[1], None, *v[3:5], None) for k, v in want.items()}
                runs.append((new.pop(), env, want, w.fvs() if "InstancedFvTable" in done else {}))
        elif kind == "reopen":
            db.engine.dispose()
            db = Edk2DB(dbfile, ep)
            if a:
                tabs = tables(full)
            db.register(*tabs)
        else:
            changed = changed or bool(runs)
            if kind in ("uses", "srcs"):
                i = a % len(m["libs"])
                old = m["libs"][i]
                m["libs"][i] = old[:2] + (b,) + old[3:] if kind == "uses" else old[:3] + (b,) + old[4:]
                cls, ph, us, sr, hm, x = m["libs"][i]
                w.put(w.lib[i], g.inf_text(f"L{i}", g.gid(w.lib[i]), "BASE", cls, ph, us, sr, m["style"]))
            elif kind == "sections":
                i, j = a % len(m["sections"]), b % len(m["sections"])
                m["sections"][i], m["sections"][j] = m["sections"][j], m["sections"][i]
                w.write_dsc()
            else:
                i = len(m["comps"])
                m["comps"].append(b)
                p = f"{b['home']}/C{i}/C{i}.inf"
                w.comp.append(p)
                w.put(p, g.inf_text(f"C{i}", g.gid(p), b["type"], None, None, b["uses"], b["srcs"], m["style"]))
                w.write_dsc()
                w.write_fdf()
        n += 1
    if steps[-1][1] == 0:
        db.engine.dispose()
        db = Edk2DB(dbfile, ep)
    for env_id, env, want, fvs in runs:
        rows, vols = read(db, env_id)
        compare(rows, want)
        same(vols, fvs, "volumes")
    with db.session() as s:
        same({e.id: {v.key: v.value for v in e.values} for e in s.query(Environment)}, {r[0]: r[1] for r in runs}, "environments and their values")
        for what, rows in (("source", [r.path for r in s.query(Source)]), ("module", [r.path for r in s.query(Inf)]), ("package", [(r.name, r.path) for r in s.query(Package)]), ("repository", [(r.name, r.path) for r in s.query(Repository)])):
            same(len(set(rows)), len(rows), f"every {what} once")
            expect(not any("never" in str(r) for r in rows), "content of a failed generator is kept")
    db.engine.dispose()
    ctx.nontrivial(failed or changed and len(runs) >= 2)
    ctx.label(f"runs={len(runs)}", "changed" if changed else "-")
