"""P13: the GUID list of a source tree."""
import os
import uuid
from collections import Counter

from checks import infgen as g
from checks.edkgen import guid, layout, styles, word, write
from edk2toollib.uefi.edk2.guid_list import GuidList
from pbt import Check, st
from pbt.core import same

META = dict(
    title="The GUID list of a source tree names every GUID definition once",
    statement="For any directory tree, the GUID list holds one entry with name, GUID and file for every package, protocol, PPI and GUID defined in a package file and for every module file, in upper case whatever their spelling, and nothing from other files. Files without the needed identity contribute only what they have. Files and directories matched by the ignore patterns contribute nothing, and nothing below them either.",
    over=["inputs"],
    text="every tree of package, module and other files, with any ignore patterns",
    why="The tests list two-file trees; which files contribute depends on directory shape, ignored parents and the mix of file kinds.",
    files=["edk2toollib/uefi/edk2/guid_list.py", "edk2toollib/uefi/edk2/parsers/dec_parser.py", "edk2toollib/uefi/edk2/parsers/inf_parser.py", "edk2toollib/gitignore_parser.py"],
    mechanism=[("tree walk", "GuidList.guidlist_from_filesystem"), ("per file", "GuidList.parse_guids_from_dec, parse_guids_from_inf")],
    technique="property-based testing: generated trees compared with the list of what was written",
    note="the ignore patterns used are plain names, extensions and anchored directories, whose meaning is unambiguous (P03 covers the full pattern language)",
)
CHECK = Check("P13", "the tree holds at least one package and one module file that are not ignored, or something is ignored")

DIRS = ["", "Pkg", "Pkg/Sub", "Build", "Pkg/Build", "Build/X", "Other", "Pkg/Sub/Deep"]
file_ = st.one_of(
    st.tuples(st.just("dec"), st.sampled_from(DIRS), g.decs, st.sampled_from(["full", "full", "full", "noguid", "noname"])),
    st.tuples(st.just("copy"), st.sampled_from(DIRS), st.integers(0, 4)),
    st.tuples(st.just("windows"), st.sampled_from(DIRS)),
    st.tuples(st.just("folder"), st.sampled_from(DIRS), st.sampled_from([".inf", ".dec", ".INF"])),
    st.tuples(st.just("inf"), st.sampled_from(DIRS), word, guid, st.sampled_from(["full", "full", "full", "noguid", "noname", "empty"]), styles),
    st.tuples(st.just("inf"), st.sampled_from(DIRS), word, guid, st.just("full"), styles),
    st.tuples(st.just("other"), st.sampled_from(DIRS), st.sampled_from([".c", ".dsc", ".inf.bak", ".txt", "", ".decx"])),
)
PATTERNS = {"Build/": lambda p, d: "Build" in p[:-1], "/Build/": lambda p, d: p[0] == "Build" and len(p) > 1, "*.inf": lambda p, d: p[-1].lower().endswith(".inf") and not p[-1].endswith(".INF") or any(x.endswith(".inf") for x in p[:-1]), "/Pkg/Sub": lambda p, d: p[:2] == ["Pkg", "Sub"],
            "Other": lambda p, d: "Other" in p, "f0.*": lambda p, d: any(x.startswith("f0.") for x in p), "# Pkg": lambda p, d: False, "": lambda p, d: False, "*.DEC": lambda p, d: p[-1].endswith(".DEC"), "Sub/Deep/": lambda p, d: "/".join(p[:-1]) == "Sub/Deep"}


@CHECK.sub("tree", st.tuples(st.lists(file_, min_size=1, max_size=6), st.lists(st.sampled_from(sorted(PATTERNS)), max_size=2), st.sampled_from(["abs", "abs", "rel", "dot"])), quick=800, thorough=40000, shards=2)
def tree(case, ctx):
    files, ignore, how = case
    files = list(files)
    root = os.path.realpath(ctx.tmp(wild=True))
    want = Counter()
    kinds, dropped = set(), 0
    for i, f in enumerate(files):
        if f[0] == "copy":  # the same text in a second file
            o = files[f[2] % i] if i else ("windows",)
            f = files[i] = (o[0], f[1], *o[2:])
        d = os.path.join(root, f[1])
        os.makedirs(d, exist_ok=True)
        ext = f[2] if f[0] in ("other", "folder") else {"windows": [".inf", ".INF"] * 2, "dec": [".dec", ".DEC", ".Dec"], "inf": [".inf", ".inf", ".INF"]}[f[0]][i % 3]
        p = os.path.join(d, f"f{i}{ext}")
        rel = os.path.relpath(p, root).split("/")
        ents = []
        if f[0] == "dec":
            m = f[2]
            lines, dd = g.dec_lines(m)
            if f[3] != "full":
                gone = "PACKAGE_GUID" if f[3] == "noguid" else "PACKAGE_NAME"
                lines = [x for x in lines if not x.startswith(gone)]
            write(p, layout(lines, m["style"], "\r\n" if m["crlf"] else "\n", m["last"]))
            exp = g.dec_expect(m)
            for k in ("Protocols", "PPIs", "Guids"):
                ents += [(n, str(uuid.UUID(v)).upper()) for n, v in exp[k]]
            if f[3] == "full":
                ents.append((dd["PACKAGE_NAME"], dd["PACKAGE_GUID"].upper()))
        elif f[0] == "inf":
            lines = ["[Defines]", "INF_VERSION = 0x00010005"]
            if f[4] in ("full", "noguid"):
                lines.append(f"BASE_NAME = {f[2]}")
            if f[4] in ("full", "noname"):
                lines.append(f"FILE_GUID = {f[3] if i % 2 else f[3].upper()}")
            lines += ["[Sources]", "a.c"]
            write(p, layout([] if f[4] == "empty" else lines, f[5]))
            if f[4] == "full":
                ents.append((f[2], f[3].upper()))
        elif f[0] == "windows":
            write(p, "; a driver\n[Version]\nSignature = \"$Windows NT$\"\nClassGuid={f2e7dd72-6468-4e36-b6f1-6488f42c1b52}\n[Strings]\nX = \"a, %b%\"\n[Manufacturer]\n%M%=F,NTamd64\n")
        elif f[0] == "folder":
            os.makedirs(p)
            write(os.path.join(p, "x.txt"), "[Defines]\nBASE_NAME = x\n")
            write(os.path.join(p, "m.inf"), "[Defines]\nBASE_NAME = Inner\nFILE_GUID = 12345678-1234-1234-1234-123456789abc\n")
            p, rel = os.path.join(p, "m.inf"), [*rel, "m.inf"]
            ents.append(("Inner", "12345678-1234-1234-1234-123456789ABC"))
        else:
            write(p, "[Defines]\nBASE_NAME = x\nFILE_GUID = 12345678-1234-1234-1234-123456789abc\n[Guids]\ngX = {0x1,0x2,0x3,{1,2,3,4,5,6,7,8}}\n")
        if any(PATTERNS[x](rel, None) for x in ignore):
            dropped += len(ents)
            continue
        if ents:
            kinds.add(f[0])
        for e in ents:
            want[(*e, p)] += 1
    os.chdir(os.path.dirname(root) if how == "rel" else root)
    where = {"abs": root, "rel": os.path.basename(root), "dot": "."}[how]
    got = GuidList.guidlist_from_filesystem(where, ignore) if ignore else GuidList.guidlist_from_filesystem(where)
    same(Counter((x.name, x.guid, os.path.abspath(x.absfilepath)) for x in got), want, "GUID list")
    ctx.nontrivial(len(kinds) == 2 or dropped > 0)
    ctx.label("ignored" if dropped else "-")
