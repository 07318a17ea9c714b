"""P08: module description (INF) files."""
import os

from checks import infgen as g
from checks.edkgen import layout, write
from edk2toollib.uefi.edk2.parsers.inf_parser import AllPhases, InfParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, st
from pbt.core import same

META = dict(
    title="Reading a module INF reports exactly what the file declares",
    statement="For any INF, reading it reports exactly the definitions of its defines section, the library class and its supported phases (all phases when none or BASE is given), and for every section kind exactly the listed entries in file order, without their flags (a binary by its path, without its type) and with local definitions substituted. The sources and libraries for a set of architectures are exactly those of the unscoped or common sections and of the sections scoped to one of these architectures, in any letter case. Nothing else in the file, whatever its spelling, adds or removes entries.",
    over=["inputs"],
    text="every INF built from any arrangement of sections, scopes, entries, flags, macros, comments and layout",
    why="The tests parse a few hand-written INFs; names that resemble section headers, flag spellings and multi-scope headers are not among them.",
    files=["edk2toollib/uefi/edk2/parsers/inf_parser.py", "edk2toollib/uefi/edk2/parsers/base_parser.py"],
    mechanism=[("section walk", "InfParser.ParseFile"), ("scoped lookup", "InfParser.get_libraries / get_sources")],
    technique="property-based testing: files generated from a model, compared with the model",
    note="conditionals are not part of INF syntax",
)
CHECK = Check("P08", "the INF has at least two content sections and three entries")


@CHECK.sub("model", st.tuples(g.infs, st.lists(st.sampled_from(g.ARCHES + ["ARM", "aarch64"]), max_size=3), st.booleans()), quick=1500, thorough=60000, shards=2)
def model(case, ctx):
    m, archs, rel = case
    tmp = ctx.tmp(wild=True)
    lines, d = g.inf_lines(m)
    path = os.path.join(tmp, "M.inf")
    write(path, layout(lines, m["style"], "\r\n" if m["crlf"] else "\n", m["last"]))
    p = InfParser()
    p.SetEdk2Path(Edk2Path(tmp, []))
    p.ParseFile("M.inf" if rel else path)
    exp, scoped = g.inf_expect(m)
    same(p.Dict, d, "definitions")
    lib, phases = "", []
    if m["lib"]:
        lib, ph = m["lib"]
        phases = AllPhases if ph is None or ph in (["BASE"], ["base"], ["Base"]) else ph
    same(p.LibraryClass, lib, "library class")
    same(list(p.SupportedPhases), list(phases), "supported phases")
    for f, v in exp.items():
        same(getattr(p, f), v, f)
    for fn, k in ((p.get_sources, "Sources"), (p.get_libraries, "LibraryClasses")):
        for q in ([], archs, ["X64"], ["IA32", "AARCH64"]):
            want = set(scoped[k].get("common", []))
            for a in q:
                want |= set(scoped[k].get(a.lower(), []))
            got = fn(q)
            same(sorted(got), sorted(want), f"{k} for {q}")
    same(p.Path, path, "path")
    n = sum(len(s[2]) for s in m["sections"])
    ctx.nontrivial(len(m["sections"]) >= 2 and n >= 3)
    ctx.label(*{s[0] for s in m["sections"]})
