"""P11: flash description (FDF) files."""
import os

from checks.edkgen import COMMENTS, guid, styles, word
from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, st
from pbt.core import expect, same

META = dict(
    title="Reading a flash description FDF reports its volumes and definitions exactly",
    statement="For any flash description, split over included files, the parser reports exactly the definitions, every flash device, and for every firmware volume its modules in order and its files by name with their type and section contents. Macros resolve to the definitions section and to local definitions that end with their section, input variables first. Length does not matter: long runs of blank, comment or inactive lines are skipped like short ones.",
    over=["inputs"],
    text="every FDF built from any arrangement of sections, volume contents, macros, includes and layout",
    why="The tests read three small definition files and single volume snippets; sections, brace nesting, local macros and includes share parser state.",
    files=["edk2toollib/uefi/edk2/parsers/fdf_parser.py"],
    mechanism=[("line reader", "FdfParser.GetNextLine, InsertLinesFromFile"), ("section walk", "FdfParser.ParseFile")],
    technique="property-based testing: files generated from a model, compared with the model",
    note="file names are unique within a volume; a header naming several volumes holds only INF lines",
)
CHECK = Check("P11", "at least two volumes with modules or files")

opts = st.sampled_from(["", "", "", "RuleOverride = BIN ", "USE = X64 ", "VERSION = \"1\" "])
MACS = ["MA", "MB", "LOC", "DIR"]
mpath = st.one_of(st.tuples(word, st.just(None)), st.tuples(word, st.sampled_from(MACS)))
secline = st.one_of(
    st.tuples(st.just("sec"), st.sampled_from(["UI", "RAW", "PE32", "VERSION", "DXE_DEPEX", "FV_IMAGE"]), st.sampled_from(['"Name"', "Pkg/A.bin", "Pkg/A.efix", "xA", "a = b", "$(MA)/x.efi", '"a b"', '"a{b"', '"}"', '"{x'  + '}{"', '"#x"'])),
    st.tuples(st.just("guided"), guid, st.sampled_from(["", " {", " PROCESSING_REQUIRED = TRUE {", " AUTH_STATUS_VALID = TRUE"])),
    st.tuples(st.just("path"), st.sampled_from(["Pkg/Raw.bin", "$(DIR)/y.bin"]), st.just("")),
)
file_ = st.tuples(st.just("file"), st.sampled_from(["FREEFORM", "DRIVER", "RAW", "APPLICATION", "FV_IMAGE", "PEIM"]), st.one_of(guid, guid, guid, st.sampled_from(["PCD(gTok.PcdFile)", "$(MA)", "x.ix", "A = B", "xx"])), st.lists(secline, max_size=4), st.integers(0, 11))
fvline = st.one_of(
    st.tuples(st.just("inf"), opts, mpath, st.booleans()),
    st.tuples(st.just("inf"), opts, mpath, st.booleans()),
    file_,
    st.tuples(st.just("def"), st.sampled_from(MACS), word),
    st.tuples(st.just("other"), st.sampled_from(["BlockSize = 0x1000", "FvNameGuid = 763BED0D-DE9F-48F5-81F1-3E90E1B1A015", "APRIORI DXE {", "MEMORY_MAPPED = TRUE", "SET gTok.PcdX = 1"])),
)
FVN = ["FVMAIN", "FV.MAIN.X", "FVMAIN_COMPACT", "FvBios", "A", "DXEFV"]
junk = st.sampled_from(["0x0|0x1000", "gTok.PcdBase|gTok.PcdSize", "FV = FVMAIN", "SIZE = $(MA)", "INF = 3", "FILE PEIM = $(NAMED_GUID) {", "PE32 PE32 |.efi", "}"])
section = st.one_of(
    st.tuples(st.just("FV"), st.lists(st.sampled_from(FVN), min_size=1, max_size=1), st.lists(fvline, max_size=6)),
    st.tuples(st.just("FV"), st.lists(st.sampled_from(FVN), min_size=1, max_size=1), st.lists(fvline, min_size=2, max_size=6)),
    st.tuples(st.just("FV"), st.lists(st.sampled_from(FVN), min_size=2, max_size=3, unique=True), st.lists(st.tuples(st.just("inf"), opts, mpath, st.booleans()), max_size=3)),
    st.tuples(st.just("FD"), st.lists(st.sampled_from(["FLASH", "A", "FVMAIN"]), min_size=1, max_size=1), st.lists(st.sampled_from(["BaseAddress = 0xFF000000", "Size = $(MA)", "0x0|0x1000", "FV = FVMAIN", "DATA = {"]), max_size=3)),
    st.tuples(st.sampled_from(["Rule", "Capsule", "FmpPayload"]), st.sampled_from([["Common.PEI"], ["X"]]), st.sampled_from([[], ["FILE PEIM = $(NAMED_GUID) {", "PE32 PE32 |.efi", "}"], ["INF Foo.inf", "FV = A"], ["CAPSULE_FLAGS = Reset"]])),
)
models = st.fixed_dictionaries(
    {
        "defs": st.dictionaries(st.sampled_from(["MA", "MB", "FD_SIZE", "MY_DEFINE", "DEFINES"]), st.sampled_from(["0x1000", "Some/Dir", "TRUE", "$(MB)", "121", "X $(MB)", ""]), max_size=4),
        "cond": st.lists(st.tuples(st.sampled_from(["MA", "FD_SIZE", "NOT_THERE"]), st.sampled_from(["0x1000", "121"])), max_size=2),
        "iv": st.dictionaries(st.sampled_from(["MA", "MB", "LOC"]), st.sampled_from(["IN/put", "TRUE"]), max_size=2),
        "sections": st.lists(section, min_size=1, max_size=7),
        "cuts": st.lists(st.tuples(st.integers(0, 50), st.integers(1, 10), st.integers(0, 3)), max_size=2),
        "style": styles,
        "long": st.sampled_from([None] * 8 + ["blank", "comment", "inactive"]),
        "how": st.booleans(),
        "odd": st.integers(0, 23),
    }
)


DEAD = [  # lines of an inactive part
    ["FILE DRIVER = dead {", "SECTION UI = x"],
    ["}", "}"],
    ["[FV.DEAD]", "INF Dead/D.inf"],
    ["!include gone.inc"],
    ["INF Dead/E.inf", "DEFINE MA = dead"],
    ["!if TRUE", "MB = dead", "!else", "[Defines]", "FD_SIZE = 77", "!endif"],
]


def norm(v):
    return v.upper() if v.upper() in ("TRUE", "FALSE") else v


def sub(text, loc, iv):
    import re

    def one(m):
        k = m.group(1)
        return norm(iv[k]) if k in iv else norm(loc[k]) if k in loc else m.group(0)

    return re.sub(r"\$\((\w+)\)", one, text)


def build(m):
    L, D, FV, FD = ["[Defines]"], {}, {}, {}
    iv = m["iv"]
    for i, (k, v) in enumerate(m["defs"].items()):
        v = v.replace(f"$({k})", "self")
        t = ["", " ", "\t"][(i + m["odd"]) % 3]
        if m["odd"] > 15 and i % 2:  # replaced by the next line
            L.append(f"DEFINE {k} = gone")
        L.append((["DEFINE ", "DEFINE\t", "DEFINE  "][m["odd"] % 3] if i % 3 < 2 else "") + f"{k}{t}={t}{v}")
        D[k] = sub(v, D, iv).strip()  # a macro of nothing may be at an end
    for i, (k, v) in enumerate(m["cond"]):
        if D.get(k) == "" or " " in D.get(k, "") or "$" in D.get(k, ""):
            continue
        L += [f"!if $({k}) == {v}", f"DEFINE COND{i} = 1", "!else", f"DEFINE COND{i} = 0", "!endif"]
        cur = iv.get(k, D.get(k, "0"))
        D[f"COND{i}"] = "1" if cur == v else "0"
    for kind, names, ents in m["sections"]:
        a, b, c = [("[", ", ", "]"), ("[", ",", "]"), ("[ ", " , ", " ]"), ("[\t", ",\t", "\t]")][m["odd"] % 4]
        kind_ = [kind, kind.lower(), kind.upper()][m["odd"] // 4 % 3]
        L.append(a + b.join(f"{kind_}.{n}" for n in names) + c)
        loc = dict(D)
        if kind == "FD":
            L += ents
            L += ["}"] * (sum(e.count("{") - e.count("}") for e in ents))
            if ents:
                FD[names[0]] = {"Dict": {}}
            continue
        if kind != "FV":
            L += ents
            continue
        for e in ents:
            if e[0] == "def":
                L.append(f"DEFINE {e[1]} = {e[2]}")
                loc[e[1]] = e[2]
                continue
            for n in names:
                FV.setdefault(n, {"Dict": {}, "Infs": [], "Files": {}})
            if e[0] == "inf":
                w, mac = e[2]
                t = e[1] + (f"$({mac})/" if mac else "Pkg/") + f"{w}/{w}.inf"
                L.append((["INF ", "INF\t", "INF  "][len(L) % 3] if e[3] else "inf  ") + t)
                for n in names:
                    FV[n]["Infs"].append(sub(t, loc, iv))
            elif e[0] == "other":
                L.append(e[1])
                if e[1].endswith("{"):
                    L.append("INF Pkg/Apriori.inf")
                    L.append("}")
                    FV[names[0]]["Infs"].append("Pkg/Apriori.inf")
            else:
                f = FV[names[0]]["Files"]
                name, late = sub(e[2], loc, iv), e[4] >= 6
                if name in f:
                    continue
                d = f[name] = {"type": e[1]}
                L.append(("FILE " if e[4] % 2 else "File ") + f"{e[1]} {'=' if e[4] % 3 else ' =  '} {e[2]}" + [" {", "\t{", "{", " {"][m["odd"] % 4])
                depth = 1
                for k, a, b in e[3]:
                    if k == "sec":
                        L.append(f"SECTION {a} = {b}" if e[4] % 6 < 4 else f"SECTION\t{a}\t=\t{b}\t" if len(L) % 2 else f"Section  {a}={b}")
                        d.setdefault(a, []).append(sub(b, loc, iv))
                    elif k == "guided":
                        L.append(["SECTION GUIDED ", "SECTION  GUIDED\t", "section guided "][len(L) % 3] + a + b)
                        d[a] = {}
                        depth += b.endswith("{")
                    else:
                        L.append(a)
                if late and e[3] and e[3][-1][0] == "sec":  # the braces close behind the last section
                    L[-1] += " }" * depth
                else:
                    L += ["}"] * depth
    return L, D, FV, FD


def whole(lines):
    """Conditional blocks may not cross a file boundary."""
    d = 0
    for x in lines:
        if x.startswith("!if"):
            d += 1
        elif x == "!endif":
            d -= 1
        elif x == "!else" and d == 0:
            return False
        if d < 0:
            return False
    return d == 0


@CHECK.sub("model", models, quick=1300, thorough=80000, shards=2)
def model(m, ctx):
    root = os.path.realpath(ctx.tmp(wild=True))
    L, D, FV, FD = build(m)
    if m["long"]:
        at = 1 + m["style"][0] % len(L)
        L[at:at] = {"blank": [""] * 1500, "comment": ["# x"] * 1500, "inactive": ["!if FALSE"] + ["INF X.inf"] * 1500 + ["!endif"]}[m["long"]]
    os.makedirs(os.path.join(root, "Plat"))
    files = {"Plat/Main.fdf": L}
    for i, (at, n, where) in enumerate(m["cuts"]):
        src = list(files)[-1 if where % 2 else 0]
        ln = files[src]
        at %= len(ln) + 1
        if not whole(ln[at : at + n]):
            continue
        rel = f"Plat/inc{i}.fdf.inc"
        files[rel] = ln[at : at + n]
        files[src] = ln[:at] + [("!include " if i else "!Include  ") + (rel if where < 2 else rel[5:])] + ln[at + n :]
    for k, (f, ln) in enumerate(files.items()):
        out = []
        for j, x in enumerate(ln):
            s = m["style"][(j + k) % len(m["style"])] * 3 + j
            if s % 5 == 0:
                out.append(["", "  ", "# { comment }", "  # [FV.X]"][s % 4])
            if s % 7 == 0:
                out += [["!if 0", "!if FALSE", "!ifdef NOWHERE"][s % 3], *DEAD[s % len(DEAD)], "!endif"]
            out.append(["", "  ", "\t"][s % 3] + x + ["", "", " ", "  " + COMMENTS[s % len(COMMENTS)]][(s // 3) % 4])
        with open(os.path.join(root, f), "w") as fh:
            fh.write("\n".join(out) + ("\n" if m["style"][0] % 2 else ""))
    p = FdfParser()
    p.SetEdk2Path(Edk2Path(root, []))
    p.SetInputVars(dict(m["iv"]))
    p.ParseFile(os.path.join(root, "Plat/Main.fdf") if m["how"] else "Plat/Main.fdf")
    same(p.Dict, D, "definitions")
    same(p.FVs, FV, "volumes")
    same(p.FDs, FD, "flash devices")
    expect(p.Parsed, "parsed flag")
    ctx.nontrivial(sum(1 for v in FV.values() if v["Infs"] or v["Files"]) >= 2)
    ctx.label(f"includes={len(files) - 1}", "long" if m["long"] else "-", "files" if any(v["Files"] for v in FV.values()) else "-")
