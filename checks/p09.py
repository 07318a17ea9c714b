"""P09: package declaration (DEC) files."""
import io
import os
import uuid

from checks import infgen as g
from checks.edkgen import layout, write
from edk2toollib.uefi.edk2.parsers.dec_parser import DecParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, st
from pbt.core import rejects, same

META = dict(
    title="Reading a package DEC reports exactly what the file declares",
    statement="For any DEC, reading it from a file or a stream reports exactly its definitions, include paths, library classes with their headers, protocols, PPIs and GUIDs with their values, and PCDs with token space, name, default, type and token (structured PCDs included), in file order. Defaults containing separators inside quotes stay whole, and every declaration carries the package's name. A PCD with too few or too many fields or a GUID that cannot be read is refused with an error.",
    over=["inputs"],
    text="every DEC built from any arrangement of sections, entries, spellings, comments and layout",
    why="The tests parse single declarations and a couple of files; the section state machine and quoting rules interact with layout in ways they do not sample.",
    files=["edk2toollib/uefi/edk2/parsers/dec_parser.py", "edk2toollib/uefi/edk2/parsers/base_parser.py"],
    mechanism=[("section walk", "DecParser._Parse"), ("declarations", "PcdDeclarationEntry._parse, GuidedDeclarationEntry._parse, LibraryClassDeclarationEntry._parse")],
    technique="property-based testing: files generated from a model, compared with the model",
    note="the defines section comes first, as in every DEC",
)
CHECK = Check("P09", "the DEC has at least two content sections and three entries, or is malformed")


@CHECK.sub("model", st.tuples(g.decs, st.sampled_from(["abs", "rel", "stream"])), quick=1500, thorough=60000, shards=2)
def model(case, ctx):
    m, how = case
    tmp = ctx.tmp(wild=True)
    lines, d = g.dec_lines(m)
    path = os.path.join(tmp, "P.dec")
    text = layout(lines, m["style"], "\r\n" if m["crlf"] and how != "stream" else "\n", m["last"])
    p = DecParser()
    if how == "stream":
        p.ParseStream(io.StringIO(text))
    else:
        write(path, text)
        p.SetEdk2Path(Edk2Path(tmp, []))
        p.ParseFile(path if how == "abs" else "P.dec")
    exp = g.dec_expect(m)
    same(p.Dict, d, "definitions")
    same(p.PackageName, d["PACKAGE_NAME"], "package name")
    same(p.IncludePaths, exp["IncludePaths"], "include paths")
    same([(x.name, x.path) for x in p.LibraryClasses], exp["LibraryClasses"], "library classes")
    for f in ("Guids", "Protocols", "PPIs"):
        same([(x.name, x.guid) for x in getattr(p, f)], [(n, uuid.UUID(v)) for n, v in exp[f]], f)
    same([(x.token_space_name, x.name, x.default_value, x.type, x.id) for x in p.Pcds], exp["Pcds"], "PCDs")
    for x in p.LibraryClasses + p.Guids + p.Protocols + p.PPIs + p.Pcds:
        same(x.package_name, d["PACKAGE_NAME"], f"package of {x.name}")
    ctx.nontrivial(len(m["sections"]) >= 2 and sum(len(s[2]) for s in m["sections"]) >= 3)
    ctx.label(*{s[0] for s in m["sections"]})


bad = st.one_of(
    st.tuples(st.just("Pcds"), g.pcd.map(lambda e: f"g{e[0]}TokenSpaceGuid.Pcd{e[1]}|{e[2]}|{e[3]}")),
    st.tuples(st.just("Pcds"), g.pcd.map(lambda e: f"g{e[0]}TokenSpaceGuid.Pcd{e[1]}|{e[2]}|{e[3]}|1|x")),
    st.tuples(st.just("Pcds"), g.pcd.map(lambda e: f"g{e[0]}TokenSpaceGuid.Pcd{e[1]}|{e[2]}|{e[3]}|1|{{|2")),
    st.tuples(st.just("Pcds"), g.pcd.map(lambda e: f"g{e[0]}TokenSpaceGuid.Pcd{e[1]}")),
    st.tuples(st.sampled_from(["Guids", "Protocols", "Ppis"]), g.gname.map(lambda n: f"{n} = {{0x1, 0x2, 0x3}}")),
    st.tuples(st.sampled_from(["Guids", "Protocols", "Ppis"]), g.gname),
    st.tuples(st.sampled_from(["Guids", "Protocols", "Ppis"]), st.tuples(g.gname, g.guid, st.integers(0, 35)).map(lambda t: f"{t[0]} = {t[1][:t[2]]}")),
)


@CHECK.sub("malformed", st.tuples(g.decs, bad), quick=300, thorough=8000)
def malformed(case, ctx):
    m, (sec, line) = case
    lines, _ = g.dec_lines(m)
    text = layout(lines + [f"[{'PcdsDynamic' if sec == 'Pcds' else sec}]", line], m["style"])
    ctx.nontrivial()
    rejects(DecParser().ParseStream, io.StringIO(text), what=repr(line))
