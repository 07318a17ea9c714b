"""P41: build reports."""
import os

from checks.edkgen import guid, word
from edk2toollib.uefi.edk2.parsers.buildreport_parser import BuildReport
from edk2toollib.uefi.edk2.path_utilities import Edk2Path  # noqa: F401
from pbt import Check, st
from pbt.core import same

META = dict(
    title="Reading a build report recovers every module with its details and volume",
    statement="For any build report, the parser recovers the platform header and, for every module summary, its name, file path, GUID, type, library instances by class (unnamed ones numbered in order) with workspace-relative paths, PCD values by token space and name, and dependency expression. Every module listed in a flash volume is tagged with that volume. Wrapped lines, substituted words and other report regions make no difference.",
    over=["inputs"],
    text="every report assembled from any modules, sections and regions in any order",
    why="The repository has no test for build reports at all.",
    files=["edk2toollib/uefi/edk2/parsers/buildreport_parser.py"],
    mechanism=[("regions", "BuildReport.BasicParse, _GetNextRegionStart, _GetEndOfRegion"), ("modules", "ModuleSummary.Parse"), ("volumes", "BuildReport._ParseFdRegionForModules, FindComponentByInfPath")],
    technique="property-based testing: reports rendered from a model in the build system's layout, compared with the model",
    note="GUIDs and module paths are unique within a report; regions end with a separator line, as the build system writes them",
)
CHECK = Check("P41", "at least two modules with a library or PCD section, or a volume listing a module")

R0, R1 = ">" + "=" * 118 + "<", "<" + "=" * 118 + ">"
S0, S1 = ">" + "-" * 118 + "<", "<" + "-" * 118 + ">"
EQ, DA = "=" * 120, "-" * 120

libline = st.tuples(word, st.sampled_from(["", ": C = Ctor", ": Constructor = A  Destructor = B", ":"]), st.sampled_from(["WS", "PP", "EXT", "REL"]), st.booleans(), st.booleans())
pcdval = st.sampled_from(["1", "0x10", '"text"', '"two words"', "{0x1, 0x2}", "MULTIQ", "MULTIB", "TWICE", "0x1 (1)", 'L"http://host:80/?a=b"', '"a = {b : c"', '"}"', '""', "L'x:y'", "{CODE({ {0x1}, {0x2} })}"])
pcdspace = st.tuples(st.sampled_from(["gA", "gB", "gEfi"]).map(lambda s: s + "TokenSpaceGuid"), st.lists(st.tuples(word, pcdval, st.sampled_from(["*P ", "*F ", "", "*B "]), st.sampled_from([[], ["DEC DEFAULT = 0x0"], ["DSC DEFAULT = L\"a: b=c\"", "INF DEFAULT = 1"], [".Field = 0x1", ".Sub.Text = \"a : b\""], ["DEC DEFAULT = {", "0x0,0x1,", "0x2}"]])), max_size=3, unique_by=lambda t: t[0]))
sections = st.lists(
    st.one_of(
        st.tuples(st.just("lib"), st.lists(libline, max_size=4)),
        st.tuples(st.just("pcd"), st.lists(pcdspace, max_size=2)),
        st.tuples(st.just("other"), st.sampled_from(["Build Options", "Predicted Footprint"])),
        st.tuples(st.just("depex"), st.sampled_from(["inf", "final", "final+inf"]), st.lists(st.sampled_from(["gEfiPcdProtocolGuid AND", "(gA OR gB)", "TRUE"]), min_size=1, max_size=3)),
    ),
    max_size=4,
    unique_by=lambda t: t[0],
)
module = st.tuples(word, guid, st.sampled_from(["0x4 (PEI_CORE)", "0x7 (DXE_DRIVER)", "0x9 (UEFI_APPLICATION)"]), sections, st.sampled_from(["rel", "rel", "abs", "wrap", "back"]))
models = st.fixed_dictionaries(
    {
        "mods": st.one_of(st.lists(module, max_size=4, unique_by=lambda m: m[1]), st.lists(module, min_size=2, max_size=4, unique_by=lambda m: m[1])),
        "fvs": st.lists(st.tuples(st.sampled_from(["FVMAIN", "FVPEI", "FV_DXE"]), st.lists(st.tuples(st.integers(0, 5), st.booleans()), max_size=3)), max_size=2, unique_by=lambda t: t[0]),
        "order": st.booleans(),
        "pcdregion": st.booleans(),
        "protect": st.booleans(),
        "folder": st.lists(st.sampled_from([None, None, None, "x.info", "Old.inf", "my.inf.d/sub"]), min_size=1, max_size=3),
        "cut": st.integers(0, 200),
        "ind": st.sampled_from(["", "  "]),
        # modules whose path ends with the path of the one before, and one spelled with a capital extension
        "nested": st.lists(st.sampled_from([False, False, True]), min_size=1, max_size=3),
        "ext": st.lists(st.sampled_from([".inf", ".inf", ".inf", ".INF", ".Inf"]), min_size=1, max_size=3),
    }
)


@CHECK.sub("model", models, quick=1200, thorough=60000)
def model(m, ctx):
    root = os.path.realpath(ctx.tmp())
    ws = os.path.join(root, "ws")
    os.makedirs(os.path.join(ws, "PP"))
    out = ["Platform Name:        Plat", f"Platform DSC Path:    {ws}/Plat/Plat.dsc", "Architectures:        X64", f"Output Path:          {ws}/Build/Out", "Build Environment:    Linux: x", ""]
    want, placed, region = {}, {}, []
    rich = 0
    paths = []
    for i, (name, gd, ty, secs, how) in enumerate(m["mods"]):
        rel = f"Pkg/{name}{i}/{name}{i}.inf"
        folder = m["folder"][i % len(m["folder"])]
        if folder:
            # folders whose name ends or goes on like the file's extension
            rel = f"Pkg/{folder}/{name}{i}.inf"
        if i and m["nested"][i % len(m["nested"])]:
            rel = f"Out{i}/{paths[-1]}"
        else:
            rel = rel[:-4] + m["ext"][i % len(m["ext"])]
        paths.append(rel)
        shown = {"rel": rel, "wrap": rel, "abs": f"{ws}/{rel}", "back": rel.replace("/", "\\")}[how]
        r = [R0, "Module Summary", f"Module Name:          {name}"]
        if how == "wrap":
            cut = 4 + m["cut"] % (len(shown) - 8)
            if shown[:cut].lower().endswith(".inf"):
                cut += 1  # a line may not end like a whole path
            r += [f"Module INF Path:      {shown[:cut]}", f"                      {shown[cut:]}"]
        else:
            r += [f"Module INF Path:      {shown}"]
        r += [f"File GUID:            {gd}", "Size:                 0xD000 (52.00K)", "Hash: abc", f"Driver Type:          {ty}", EQ]
        libs, pcds, depex, nulls = {}, {}, "", 0
        for s in secs:
            r.append(S0)
            if s[0] == "lib":
                r += ["Library", DA]
                for j, (cls, tail, where, null, wrap) in enumerate(s[1]):
                    lrel = f"Lib/{cls}{j}/{cls}.inf"
                    p = {"WS": f"{ws}/{lrel}", "PP": f"{ws}/PP/{lrel}", "EXT": f"/elsewhere/{lrel}", "REL": lrel}[where]
                    c = "NULL" if null else cls
                    t = "{" + c + tail + "}"
                    if wrap and len(t) > 6:
                        r += [p, t[:4].rstrip(), t[4:]] if t[3] != " " and t[4] != " " else [p, t]
                    else:
                        r += [p, t]
                    if null:
                        c += str(nulls)
                        nulls += 1
                    libs[c] = {"WS": lrel, "PP": lrel, "EXT": p, "REL": lrel}[where]
                rich += bool(s[1])
            elif s[0] == "pcd":
                r += ["PCD", DA]
                for space, entries in s[1]:
                    r.append(space)
                    for nm, v, mark, deflt in entries:
                        head = f"    {mark}Pcd{nm}            : FLAG   (UINT8) = "
                        if v == "MULTIQ":
                            r += [head + '"one', '  two"']
                            v = '"one two"'
                        elif v == "MULTIB":
                            r += [head + "{0x1,", "  0x2,", "  0x3}"]
                            v = "{0x1, 0x2, 0x3}"
                        else:
                            if v == "TWICE":
                                v = f'"{ws}/a;{ws}/b"'
                            r.append(head + v)
                        r += [" " * 26 + x for x in deflt]
                        pcds[f"{space}.Pcd{nm}"] = v
                    rich += bool(entries)
            elif s[0] == "depex":
                if "final" in s[1]:
                    r += ["Final Dependency Expression (DEPEX) Instructions", DA, "PUSH gX", "END"]
                    r += [DA] if "inf" in s[1] else []
                if "inf" in s[1]:
                    r += ["Dependency Expression (DEPEX) from INF"] + s[2] + [DA, "From Module INF:  gSomething", "From Library INF: (None)"]
                    depex = "".join(" " + x for x in s[2])
            else:
                r += [s[1], DA, "/foo/x.inf", "{NoLib}", "x : y = z"]
            r.append(S1)
        r += [R1, ""]
        region.append(r)
        want[gd] = [name, rel if how != "abs" else f"{ws}/{rel}", gd, ty[ty.index("(") + 1 : -1], libs, pcds, depex, None]
    fd = []
    if m["fvs"]:
        fd = [R0, "Firmware Device (FD)", "FD Name:              FLASH", "Base Address:         0xFF000000", EQ]
        for fv, mods in m["fvs"]:
            fd += [S0, "FV", f"Fv Name:            {fv} (99.5% Full)", "Occupied Size:      0x1000", DA, "Offset     Module"]
            for k, wrap in mods:
                if not m["mods"]:
                    continue
                k %= len(m["mods"])
                p = f"{ws}/{paths[k]}"
                if wrap:
                    cut = 1 + m["cut"] % (len(p) - 1)
                    fd += [f"0x{k:08X} {m['mods'][k][0]} ({p[:cut]}", p[cut:] + ")"]
                else:
                    fd.append(f"0x{k:08X} {m['mods'][k][0]} ({p})")
                placed[k] = fv
            fd += ["0x00001000 Padding", S1]
        fd += [S1, R1, ""]
    if m["cut"] % 2:
        region.reverse()
    pcdr = [R0, "Platform Configuration Database Report", "*P - Platform scoped PCD override in DSC file", EQ, S0, "gA", "*P PcdX : FLAG (UINT8) = 1", S1, R1, ""] if m["pcdregion"] else []
    body = fd + [x for r in region for x in r] if m["order"] else [x for r in region for x in r] + fd
    text = out + pcdr + body
    if not body and not pcdr:
        text += [R0, "Execution Order Prediction", S1, R1]
    for k, fv in placed.items():
        want[m["mods"][k][1]][7] = fv
    words = {}
    if m["protect"]:
        words = {"##SECRET##": ws}
        text = [x.replace(ws, "##SECRET##") for x in text]
        text = [x for x in text]
    rep = os.path.join(root, "report.txt")
    with open(rep, "w") as f:
        f.write("\n".join(m["ind"] + x if x else x for x in text) + "\n")
    b = BuildReport(rep, ws, "PP", words)
    b.BasicParse()
    same((b.PlatformName, b.DscPath, b.BuildOutputDir), ("Plat", f"{ws}/Plat/Plat.dsc", f"{ws}/Build/Out"), "platform header")
    got = {k: [v.Name, v.InfPath, v.Guid, v.Type, v.Libraries, v.PCDs, v.Depex, v.FvName] for k, v in b.Modules.items()}
    for k, v in got.items():  # volume tagging may already have made paths relative
        v[1] = v[1].replace(ws + "/", "", 1)
    for k, v in want.items():
        v[1] = v[1].replace(ws + "/", "", 1)
    same(got, want, "modules")
    for i, p in enumerate(paths):
        for q in (p, p.upper()):
            c = b.FindComponentByInfPath(q)
            same(c.Guid if c else None, m["mods"][i][1], f"module found by {q}")
    same(b.FindComponentByInfPath("No/Such.inf"), None, "unknown module")
    ctx.nontrivial(rich >= 2 or bool(placed))
    ctx.label("placed" if placed else "-", *{s[0] for x in m["mods"] for s in x[3]})
