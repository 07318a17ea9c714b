"""P10: platform description (DSC) files."""
import os

from checks import dscgen as g
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, st
from pbt.core import expect, same

META = dict(
    title="Reading a platform DSC reports its modules, libraries and PCDs exactly",
    statement="For any platform description, split over any nesting of included files, the parser reports exactly: the module lists per architecture with the file and line of each, every component with its architecture and library overrides, the library instances listed for every scope and class with the latest mention first, the library lines, the PCDs with their last value, the definitions, and the set of files read. Include paths resolve relative to the workspace, the including file or a package path. Writing out the resolved lines and reading them again gives the same result.",
    over=["inputs"],
    text="every DSC built from any arrangement of sections, scopes, overrides, macros, includes and layout",
    why="The tests parse a handful of tiny files; scopes, override blocks, include nesting and repeated entries interact through parser state.",
    files=["edk2toollib/uefi/edk2/parsers/dsc_parser.py", "edk2toollib/uefi/edk2/parsers/base_parser.py"],
    mechanism=[("line passes", "DscParser.__ProcessDefines, __ProcessMore, __ParseLine"), ("scoped libraries", "DscParser._parse_libraries"), ("components", "DscParser._parse_components"), ("path lookup", "BaseParser.FindPath")],
    technique="property-based testing: files generated from a model, compared with the model; flattening metamorphic relation",
    note="component sections carry a single scope, as the parser documents; SUPPORTED_ARCHITECTURES is defined",
)
CHECK = Check("P10", "the DSC has at least two non-empty component or library sections")


def view(p):
    return dict(scoped=p.ScopedLibraryDict, comps=p.Components, six=p.SixMods, three=p.ThreeMods, other=p.OtherMods, libs=p.Libs, pcds=p.PcdValueDict)


def parse(root, path, pps, iv=None):
    p = DscParser()
    p.SetEdk2Path(Edk2Path(root, pps))
    if iv:
        p.SetInputVars(iv)
    p.ParseFile(path)
    return p


@CHECK.sub("model", g.models, quick=900, thorough=60000, shards=2)
def model(m, ctx):
    root = os.path.realpath(ctx.tmp())
    b = g.build(m, root)
    p = parse(root, b.main if m["how"] == "abs" else "Plat/Main.dsc", ["Pkg"])
    same(view(p), dict(scoped=b.scoped, comps=b.comps, six=b.six, three=b.three, other=b.other, libs=b.libs, pcds=b.pcds), "parsed platform")
    same(p.Pcds, b.order, "PCDs")
    same({k: p.LocalVars.get(k) for k in b.defs}, b.defs, "definitions")
    same(p.GetMods(), b.three + b.six + b.other, "all modules")
    same(p.GetLibs(), b.libs, "all libraries")
    same(set(p.GetAllDscPaths()), b.files, "files read")
    same(p.SixModsEnhanced, b.six_at, "X64 modules with their location")
    same(p.ThreeModsEnhanced, b.three_at, "IA32 modules with their location")
    same(p.GetLibsEnhanced(), b.over_at, "libraries of IA32 modules with their location")
    same(p.GetModsEnhanced(), b.three_at + b.six_at, "modules with their location")
    expect(p.Parsed, "parsed flag")
    flat = os.path.join(root, "Flat.dsc")
    p.WriteLinesToFile(flat)
    q = parse(root, flat, ["Pkg"])
    same(view(q), view(p), "resolved lines read again")
    same(q.Lines, p.Lines, "resolved lines written again")
    busy = [s for s in m["sections"] if s[0] in ("LibraryClasses", "Components") and s[2]]
    ctx.nontrivial(len(busy) >= 2)
    ctx.label(f"includes={b.nested}", "overrides" if any(c[2] != {"NULL": []} for c in b.comps) else "-")


VALS = ["TRUE", "FALSE", "5", "0x10", "16", "1"]
NUM = {"TRUE": 1, "FALSE": 0, "5": 5, "0x10": 16, "16": 16, "1": 1}
sel = st.integers(0, 4)
term = st.tuples(sel, st.sampled_from(["==", "!=", "EQ", "NE"]), st.sampled_from(VALS))
branch = st.lists(term, min_size=1, max_size=2)
conds = st.lists(st.tuples(st.lists(branch, min_size=1, max_size=3), st.sampled_from(["AND", "OR", "and", "Or", "&&", "||"]), st.integers(0, 7)), min_size=1, max_size=4)
pcds = st.lists(st.tuples(g.pcdname, st.sampled_from(VALS), st.integers(0, 5)), min_size=1, max_size=5)


@CHECK.sub("pcd-conditionals", st.tuples(pcds, conds), quick=700, thorough=30000)
def pcd_conditionals(case, ctx):
    """Modules and definitions selected by conditions over the PCDs given so far."""
    defs, cs = case
    root = os.path.realpath(ctx.tmp())
    val, lines = {}, ["[Defines]", "SUPPORTED_ARCHITECTURES = X64", "[PcdsFixedAtBuild]"]
    for n, v, how in defs:
        lines.append(f"{n}|{v}" + ["", "|UINT32|0x4", " | UINT8|7", "", "", " # x"][how])
        val[n] = v
        if how == 4:  # not the value: the line is in an inactive part
            lines += ["!if FALSE", f"{n}|77", "!endif"]
    lines.append("[Components.X64]")
    want = []
    for i, (branches, op, form) in enumerate(cs):
        taken = None
        for j, terms in enumerate(branches):
            text, res = [], []
            for a, o, v in terms:
                a = defs[a % len(defs)][0]
                text.append(f"{a} {o} {v}")
                res.append((NUM[val[a]] == NUM[v]) == (o in ("==", "EQ")))
            hit = all(res) if op.upper() in ("AND", "&&") else any(res)
            word = ["!if", "!elseif"][j > 0]
            lines += [(word.upper() if form & 1 else word) + " " + f" {op} ".join(text), f"Pkg/M{i}{j}.inf"]
            lines += ["[Defines]", f"DEFINE X{i} = {j}", "[Components.X64]"]
            if hit and taken is None:
                taken = j
        if form & 2:
            lines += ["!else", f"Pkg/N{i}.inf"]
        lines += ["!endif"]
        if taken is not None:
            want.append(f"Pkg/M{i}{taken}.inf")
        elif form & 2:
            want.append(f"Pkg/N{i}.inf")
        want.append(f"$(X{i})/x.inf" if taken is None else f"{taken}/x.inf")
        lines.append(f"$(X{i})/x.inf")
    with open(os.path.join(root, "P.dsc"), "w") as f:
        f.write("\n".join(lines))
    p = parse(root, "P.dsc", [])
    same(p.SixMods, want, "modules selected by PCD conditions")
    same([c[0] for c in p.Components], want, "components selected by PCD conditions")
    ctx.nontrivial(len(want) >= 2)


FRAG = ["[Components.X64]", "[Components.IA32]", "[LibraryClasses]", "[LibraryClasses.X64]", "Lib/A/A.inf", "Lib/C/C.inf", "BaseLib|Lib/A/A.inf", "BaseLib|Lib/B/B.inf", "DebugLib|Lib/A/A.inf", "gTokenSpaceGuid.PcdA|1", "gTokenSpaceGuid.PcdA|2", "DEFINE W = 1"]
DIRS = ["", "Plat", "Plat/Inc", "Plat/Inc/Inc", "Pkg/Inc"]
plain = st.one_of(st.sampled_from(FRAG), st.sampled_from(FRAG), st.integers(1, 4), st.integers(1, 4))
small = st.lists(plain, max_size=3)
blocks = st.one_of(
    st.tuples(st.sampled_from(["!if gTokenSpaceGuid.PcdA == 1", "!if gTokenSpaceGuid.PcdA == 2", "!if FALSE"]), small, st.one_of(st.none(), small)),
    st.tuples(st.just("over"), st.lists(st.sampled_from(["BaseLib|Lib/A/A.inf", "NULL|Lib/N/N.inf"]), max_size=2)),
)
frag = st.lists(st.one_of(plain, plain, blocks), max_size=7)


@CHECK.sub("included", st.fixed_dictionaries({"frags": st.lists(frag, min_size=5, max_size=5), "dirs": st.lists(st.integers(0, 4), min_size=5, max_size=5), "names": st.lists(st.integers(0, 1), min_size=5, max_size=5), "how": st.integers(0, 3), "decoys": st.lists(st.integers(0, 4), max_size=3), "nofail": st.booleans()}), quick=700, thorough=30000)
def included(case, ctx):
    """A tree of included files, some more than once, reads as the one file made of their lines; files of the same name elsewhere and, in no-fail mode, missing files change nothing."""
    root = os.path.realpath(ctx.tmp())
    place = []
    for i, d in enumerate(case["dirs"]):  # same names in different folders
        n = case["names"][i]
        while True:
            q = os.path.join(root, DIRS[d], f"f{n}.dsc.inc" if i else "Main.dsc")
            q = q[:-8] + g.EXTS[(d + 2 * n) % len(g.EXTS)] if i else q
            if q not in place:
                break
            n += 1
        place.append(q)
    os.makedirs(os.path.join(root, "Pkg"))
    texts, asked, gone = {}, set(), [False]

    def bases(src):
        return (root, os.path.dirname(src), os.path.join(root, "Pkg"))

    def find(text, src):
        return next((q for q in (os.path.normpath(os.path.join(b, text)) for b in bases(src)) if q in place), None)

    def emit(elems, i, out, exp):
        """Writes the elements as lines of file i, and as the resolved elements of the one file."""
        for x in elems:
            if isinstance(x, int):
                if x <= i:  # no cycles
                    continue
                cands = [os.path.basename(place[x]), "Inc/" + os.path.basename(place[x]), os.path.relpath(place[x], os.path.dirname(place[i])), os.path.relpath(place[x], root)]
                t = next(c for c in cands[case["how"] :] + cands[::-1] if find(c, place[i]) == place[x])
                asked.update(os.path.normpath(os.path.join(b, t)) for b in bases(place[i]))
                out.append("!include " + t)
                exp.append(x)
            elif isinstance(x, str):
                out.append(x)
                exp.append(x)
            elif x[0] == "over":
                for line in ["Lib/O/O.inf {", "<LibraryClasses>", *x[1], "}"]:
                    out.append(line)
                    exp.append(line)
            else:
                for line, sub in ((x[0], x[1]), *([("!else", x[2])] if x[2] is not None else [])):
                    out.append(line)
                    exp.append(line)
                    emit(sub, i, out, exp)
                out.append("!endif")
                exp.append("!endif")

    exps = {}
    for i, fr in enumerate(case["frags"]):
        out, exp = [], []
        if i == 0:
            out = ["[Defines]", "SUPPORTED_ARCHITECTURES = IA32|X64", "DEFINE W = 0", "[PcdsFixedAtBuild]", "gTokenSpaceGuid.PcdA|0"]
            exp = list(out)
        emit(fr, i, out, exp)
        if case["nofail"] and i % 2 == 0:
            out.append("!include Inc/gone.dsc.inc")
            gone[0] = True
        texts[place[i]], exps[i] = out, exp
    for f, ls in texts.items():
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as fh:
            fh.write("\n".join(ls))
    for d in case["decoys"]:
        for n in {os.path.basename(q) for q in place[1:]}:
            f = os.path.join(root, DIRS[d], n)
            if f not in place and f not in asked:
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, "w") as fh:
                    fh.write("[Components.X64]\nDecoy/D.inf\n[LibraryClasses]\nBaseLib|Decoy/D.inf")
    uses = []

    def flat(i):
        uses.append(i)
        for x in exps[i]:
            if isinstance(x, int):
                yield from flat(x)
            else:
                yield x

    body = list(flat(0))
    os.makedirs(os.path.join(root, "Flat"))
    one = os.path.join(root, "Flat", "Flat.dsc")
    with open(one, "w") as fh:
        fh.write("\n".join(body))
    q = parse(root, one, ["Pkg"])
    p = DscParser()
    p.SetEdk2Path(Edk2Path(root, ["Pkg"]))
    if gone[0]:
        try:
            parse(root, place[0], ["Pkg"])
            expect(False, "a missing included file was not reported")
        except FileNotFoundError:
            pass
        p.SetNoFailMode()
    p.ParseFile(place[0])
    same(view(p), view(q), "a platform split over files")
    same(p.Lines, q.Lines, "the lines of a platform split over files")
    same(p.LocalVars, q.LocalVars, "the definitions of a platform split over files")
    if not any(x.startswith("!if") for x in body):
        same(set(p.GetAllDscPaths()), {place[i] for i in uses}, "files read")
    ctx.nontrivial(len(uses) >= 3)
    ctx.label(f"files={min(len(uses), 6)}", "missing" if gone[0] else "-", "twice" if len(uses) > len(set(uses)) else "once")


arch = st.sampled_from(["X64", "IA32", "AARCH64", "Common", None])


@CHECK.sub("several-scopes", st.lists(st.tuples(st.lists(arch, min_size=1, max_size=4, unique=True), st.lists(st.tuples(st.integers(0, 4), st.booleans()), min_size=1, max_size=3), st.integers(0, 3)), min_size=1, max_size=4), quick=300, thorough=10000)
def several_scopes(secs, ctx):
    """A component listed for several architectures at once is one component for each."""
    root = os.path.realpath(ctx.tmp())
    lines, want = ["[Defines]", "SUPPORTED_ARCHITECTURES = IA32|X64"], []
    for scopes, comps, odd in secs:
        if None in scopes and "Common" in scopes:
            scopes = [s for s in scopes if s]
        lines.append(g.hdr("Components", scopes, odd % 3, odd))
        for k, over in comps:
            p = os.path.join(root, f"Lib/M{k}.inf") if k == 4 else f"Lib/M{k}.inf"
            ov = {"NULL": ["Lib/N.inf"], "baselib": f"Lib/B{k}.inf"} if over else {"NULL": []}
            lines.append(p + (" {" if over else ""))
            if over:
                lines += ["<LibraryClasses>", "NULL|Lib/N.inf", f"BaseLib|Lib/B{k}.inf", "}"]
            for s in scopes:
                for a in ["IA32", "X64"] if s in (None, "Common") else [s.lower()]:
                    want.append((f"Lib/M{k}.inf", a, ov))
    os.makedirs(os.path.join(root, "Lib"))
    with open(os.path.join(root, "P.dsc"), "w") as f:
        f.write("\n".join(lines))
    p = parse(root, "P.dsc", [])
    same(p.Components, want, "components")
    ctx.nontrivial(any(len(s[0]) > 1 for s in secs))


SPOTS = ["", "Plat", "Plat/Inc", "Pkg", "Pkg2"]


@CHECK.sub("find", st.tuples(st.sets(st.tuples(st.sampled_from(SPOTS), st.sampled_from(["f.inf", "Sub/f.inf", "Sub/g h.inf", "g.inc"])), min_size=2, max_size=6), st.lists(st.tuples(st.sampled_from(["f.inf", "Sub/f.inf", "Sub/g h.inf", "g.inc", "none.inf"]), st.integers(0, 3)), min_size=1, max_size=5), st.sampled_from([None, "Plat/P.dsc", "Plat/P.dsc", "Plat/Inc/x.inc", "Plat/Inc/x.inc", "P.dsc"]), st.sampled_from([["Pkg", "Pkg2"], ["Pkg2", "Pkg"], []])), quick=300, thorough=10000)
def find(case, ctx):
    """A file is looked up as given, below the workspace, next to the file being read and below each package path, in that order."""
    files, asked, target, pps = case
    root = os.path.realpath(ctx.tmp(wild=True))
    for d in SPOTS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for d, n in files:
        f = os.path.join(root, d, n)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as fh:
            fh.write(d)
    p = DscParser()
    p.SetEdk2Path(Edk2Path(root, pps))
    if target:
        p.TargetFilePath = os.path.join(root, target)
    n = 0
    asked = asked + [(n, i) for i, (_, n) in enumerate(sorted(files), len(files))]
    for name, how in asked:
        how %= 4
        spots = ["", *([os.path.dirname(target)] if target else []), *pps]
        want = next((os.path.join(root, d, name) for d in spots if (d, name) in files), None)
        n += want is not None and spots.index(os.path.relpath(want, root)[: -len(name)].rstrip("/")) > 0
        args = [(name,), tuple(name.split("/")), (os.path.join(root, spots[-1], name),), (os.path.join(".", name),)][how]
        if how == 2:
            want = os.path.join(root, spots[-1], name)
            want = want if os.path.exists(want) else None
        got = p.FindPath(*args)
        same(got and os.path.normpath(got), want, f"place of {args}, reading {target}, package paths {pps}")
    same(p.FindPath(None), None, "place of nothing")
    ctx.nontrivial(n > 0)
