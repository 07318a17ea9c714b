"""INF and DEC file models: generator, text and expected content."""
from checks.edkgen import c_guid, guid, styles, word
from pbt import st

ARCHES = ["X64", "IA32", "AARCH64", "common", "Common", "x64"]
scope = st.lists(st.one_of(st.none(), st.sampled_from(ARCHES)), min_size=1, max_size=3, unique_by=lambda s: (s or "common").lower())
dirs = st.sampled_from(["", "", "Sub/", "../", "X64/", "A/B/"])
srcname = st.tuples(dirs, st.sampled_from(["Main", "MySources", "Resources", "LibraryClasses", "sources", "a", "Packages", "DEFINEs", "x.y", "t[0]", "p[X64]"]), st.sampled_from([".c", ".h", ".nasm", ".uni", ".S", "X.c"])).map("".join)
pkg = word.map(lambda w: f"{w}Pkg/{w}Pkg.dec")
gname = word.map(lambda w: f"g{w}Guid")
pcdname = st.tuples(word, word).map(lambda t: f"g{t[0]}TokenSpaceGuid.Pcd{t[1]}")
flag = st.sampled_from(["", "", "|GCC", " | MSFT", "  |  gFeature.PcdX", "| TRUE"])
KINDS = ["Sources", "Sources", "LibraryClasses", "LibraryClasses", "Packages", "Protocols", "Ppis", "Guids", "Pcd", "FixedPcd", "PatchPcd", "FeaturePcd", "PcdEx", "Binaries", "BuildOptions", "Depex", "UserExtensions"]
entry = {
    "Sources": st.tuples(srcname, flag),
    "LibraryClasses": st.tuples(word, flag),
    "Packages": st.tuples(pkg, st.sampled_from(["", "", "", "|gFeature.PcdX", " | TRUE"])),
    "Protocols": st.tuples(gname, flag),
    "Ppis": st.tuples(gname, flag),
    "Guids": st.tuples(gname, flag),
    "Pcd": st.tuples(pcdname, st.sampled_from(["", "|0x10", "|TRUE", '|L"a b"', " | 5"])),
    "Binaries": st.one_of(st.tuples(st.tuples(st.sampled_from(["PE32|", "BIN | ", "DXE_DEPEX|", "FREEFORM\t|"]), srcname).map("".join), st.sampled_from(["", "|*", " | RELEASE", "|DEBUG|GCC|*|gFeature.PcdX"])), st.tuples(srcname, st.just(""))),
    "BuildOptions": st.sampled_from([("GCC:*_*_*_CC_FLAGS", " = -O2 -DX=1"), ("MSFT:*_*_X64_DLINK_FLAGS", " == /X")]),
    "Depex": st.sampled_from([("gEfiFooProtocolGuid", " AND"), ("TRUE", "")]),
    "UserExtensions": st.just(("Foo.uni", "")),
}
for k in ("FixedPcd", "PatchPcd", "FeaturePcd", "PcdEx"):
    entry[k] = entry["Pcd"]


@st.composite
def section(draw):
    k = draw(st.sampled_from(KINDS))
    head = k
    scopes = draw(scope) if k not in ("Depex", "UserExtensions") else [None]
    return (head, scopes, draw(st.lists(entry[k], max_size=4)), draw(st.integers(0, 3)))


PHASES = ["BASE", "SEC", "PEIM", "PEI_CORE", "DXE_DRIVER", "DXE_CORE", "UEFI_DRIVER", "SMM_CORE", "HOST_APPLICATION"]
infs = st.fixed_dictionaries(
    {
        "base": word,
        "guid": guid,
        "type": st.sampled_from(["BASE", "DXE_DRIVER", "PEIM", "UEFI_APPLICATION", "SEC"]),
        "lib": st.one_of(st.none(), st.tuples(word, st.one_of(st.none(), st.just(["BASE"]), st.just(["base"]), st.just(["Base"]), st.lists(st.sampled_from(PHASES), min_size=1, max_size=4, unique=True)))),
        "extra": st.dictionaries(st.sampled_from(["ENTRY_POINT", "VERSION_STRING", "CONSTRUCTOR", "INF_VERSION", "MODULE_UNI_FILE"]), st.sampled_from(["Foo", "0x00010005", "1.27", "a b c", "X.uni"]), max_size=3),
        "macro": st.booleans(),
        # definitions given another value first, how the phases are set apart and LIBRARY_CLASS is spelled
        "twice": st.lists(st.sampled_from(["BASE_NAME", "MODULE_TYPE", "VERSION_STRING", "ENTRY_POINT"]), max_size=2),
        "gap": st.sampled_from([" ", " ", "  ", "\t", " \t "]),
        "libkey": st.sampled_from(["LIBRARY_CLASS", "LIBRARY_CLASS", "Library_Class", "library_class"]),
        "sections": st.lists(section(), max_size=7),
        "style": styles,
        "crlf": st.booleans(),
        "last": st.booleans(),
        "case": st.integers(0, 2),
        # a section that gives its macro another value, or repeats entries of the latest section of its kind
        "again": st.lists(st.tuples(st.integers(0, 6), st.sampled_from(["redefine", "repeat", "repeat", "use"])), max_size=4),
    }
)


def resolved(m):
    """(kind, scopes, [(entry as written, entry as meant, tail)], sp, definition before the section) of every section."""
    out, now, last = [], "Mac/Ro", {}
    how = {}
    for i, w in m.get("again", ()):
        how.setdefault(i, set()).add(w)
    for i, (k, scopes, ents, sp) in enumerate(m["sections"]):
        hs = how.get(i, set())
        new = None
        if m["macro"] and "redefine" in hs:
            now = new = f"Sub{i}"
        if "repeat" in hs and last.get(k):
            ents = last[k][:2] + ents
        last[k] = ents
        row = []
        for e, tail in ents:
            if m["macro"] and k == "Sources" and e.startswith("Sub/"):
                row.append(("$(SUBDIR)/" + e[4:], now + "/" + e[4:], tail))
            elif m["macro"] and "use" in hs and k in ("Packages", "Sources", "LibraryClasses", "Protocols", "Ppis", "Guids"):
                row.append((e[:1] + "$(LETTER)" + e[1:], e[:1] + "Zz" + e[1:], tail))
            else:
                row.append((e, e, tail))
        out.append((k, scopes, row, sp, new))
    return out


def header(k, scopes, sp, case):
    nm = [k, k.lower(), k.upper()][case] if k != "UserExtensions" else k
    sep = [",", ", ", " , ", ","][sp]
    return "[" + sep.join(nm if s is None else f"{nm}.{s}" for s in scopes) + "]"


def inf_lines(m):
    """The logical lines of the file."""
    d = {"INF_VERSION": "0x00010005", "BASE_NAME": m["base"], "FILE_GUID": m["guid"], "MODULE_TYPE": m["type"]}
    d.update(m["extra"])
    lib = None
    if m["lib"]:
        name, ph = m["lib"]
        lib = name + ("" if ph is None else [" | ", "|"][len(name) % 2] + m.get("gap", " ").join(ph))
        d[m.get("libkey", "LIBRARY_CLASS")] = lib
    out = [header("Defines", [None], 0, m["case"])]
    for k in m.get("twice", ()):
        if k in d:
            out.append(f"{k} = Former")
    for i, (k, v) in enumerate(d.items()):
        out.append(f"{k}{' ' * (i % 3 + 1)}= {v}")
    if m["macro"]:
        out += ["DEFINE SUBDIR = Mac/Ro", "DEFINE\tLETTER=Zz"]
    for k, scopes, ents, sp, new in resolved(m):
        if new:
            out.append("DEFINE SUBDIR=" + new)
        out.append(header(k, scopes, sp, m["case"]))
        out += [e + tail for e, _, tail in ents]
    return out, d


FIELD = {"Sources": "Sources", "LibraryClasses": "LibrariesUsed", "Packages": "PackagesUsed", "Protocols": "ProtocolsUsed", "Ppis": "PpisUsed", "Guids": "GuidsUsed", "Pcd": "PcdsUsed",
         "FixedPcd": "PcdsUsed", "PatchPcd": "PcdsUsed", "FeaturePcd": "PcdsUsed", "PcdEx": "PcdsUsed", "Binaries": "Binaries"}


def inf_expect(m):
    exp = {v: [] for v in FIELD.values()}
    scoped = {"Sources": {}, "LibraryClasses": {}}
    for k, scopes, ents, _, _ in resolved(m):
        if k not in FIELD:
            continue
        for _, e, _tail in ents:
            # a binary is written as type, path and more fields, or as its path alone
            v = e.split("|")[-1 if k == "Binaries" else 0].strip()
            exp[FIELD[k]].append(v)
            if k in scoped:
                for s in scopes:
                    scoped[k].setdefault((s or "common").lower(), []).append(v)
    return exp, scoped


# ---- DEC

cguid_style = st.integers(0, 63)
pcdval = st.sampled_from(["0x0", "TRUE", "FALSE", "10", 'L"text"', '"a|b"', '"a b"', "{0x1, 0x2}", 'L"x | y | z"', "'a|b'", '""', '"a#b"', 'L"# | x"', "'#'", '{"x", 0x1}', '"}"', '"{"', '"[Pcds]"', "0xFFFFFFFF", '"it\'s"',
                          "-1", "(0x10 | 0x20)", "((1|2) | (3 | 4))", '(")" | 1)', '("(" | 1)', "{0x10, (1 | 2)}", '{GUID("dc5b1c2e-0000-0000-0000-000000000000")}', "{CODE({0x1, {2, 3}})}", '"("', "(1 || 2)"])
pcdtype = st.sampled_from(["UINT8", "UINT16", "UINT32", "UINT64", "BOOLEAN", "VOID*"])
pcd = st.tuples(word, word, pcdval, pcdtype, st.integers(0, 0xFFFFFFFF), st.sampled_from(["|", " | ", "  |", "\t|\t"]))
DKINDS = ["Includes", "LibraryClasses", "Guids", "Protocols", "Ppis", "PcdsFixedAtBuild", "PcdsDynamic", "PcdsFeatureFlag", "PcdsDynamicEx", "Struct", "UserExtensions"]
named = st.tuples(gname, guid, cguid_style)
dentry = {"Includes": st.one_of(srcname, srcname, st.sampled_from(["Include", "Include/", "./Inc", "Inc/Library/", "../Inc"])), "LibraryClasses": st.tuples(word, srcname), "Guids": named, "Protocols": named, "Ppis": named, "PcdsFixedAtBuild": pcd, "PcdsDynamic": pcd, "PcdsFeatureFlag": pcd,
          "PcdsDynamicEx": pcd, "Struct": pcd, "UserExtensions": st.just("Foo.uni")}


@st.composite
def dsection(draw):
    k = draw(st.sampled_from(DKINDS))
    return (k, draw(scope) if k not in ("UserExtensions",) else [None], draw(st.lists(dentry[k], max_size=4)), draw(st.integers(0, 3)))


def repeated(secs):
    """The same sections, some followed by another one of the kind (another scope, say) that repeats entries."""
    def make(ns):
        return secs + [(secs[n % len(secs)][0], ["IA32"] if n & 16 else [None], secs[n % len(secs)][2][: 1 + n // 32], 0) for n in ns if secs and secs[n % len(secs)][0] != "UserExtensions"]

    return st.lists(st.integers(0, 95), max_size=2).map(make)


decs = st.fixed_dictionaries(
    {
        "name": word,
        "guid": guid,
        "extra": st.dictionaries(st.sampled_from(["PACKAGE_VERSION", "PACKAGE_UNI_FILE", "DEC_SPECIFICATION"]), st.sampled_from(["0.1", "X.uni", "0x00010017"]), max_size=3),
        "sections": st.lists(dsection(), max_size=7).flatmap(repeated),
        "style": styles,
        "crlf": st.booleans(),
        "last": st.booleans(),
        "case": st.integers(0, 2),
    }
)


def fieldval(tok):
    return ["0x7", "{0x1, 0x2}", "{CODE({0x1, {2}})}", '"x"', '{"a|b"}'][tok % 5]


def dec_lines(m):
    d = {"PACKAGE_NAME": m["name"] + "Pkg", "PACKAGE_GUID": m["guid"]}
    d.update(m["extra"])
    out = [header("Defines", [None], 0, m["case"])]
    for i, (k, v) in enumerate(d.items()):
        out.append(f"{k}{' ' * (i % 3 + 1)}= {v}")
    for k, scopes, ents, sp in m["sections"]:
        out.append(header("PcdsDynamic" if k == "Struct" else k, scopes, sp, m["case"]))
        for e in ents:
            if k in ("Includes", "UserExtensions"):
                out.append(e)
            elif k == "LibraryClasses":
                out.append(f"{e[0]}|{e[1]}")
            elif k in ("Guids", "Protocols", "Ppis"):
                out.append(f"{e[0]} = {c_guid(e[1], e[2])}")
            else:
                sp_, nm, val, ty, tok, bar = e
                ln = f"g{sp_}TokenSpaceGuid.Pcd{nm}{bar}{val}{bar}{ty}{bar}{hex(tok)}"
                if k == "Struct":
                    out += [ln + [bar + "{", " {", "{"][tok % 3], "<HeaderFiles>", "Inc/X.h", "<Packages>", "MdePkg/MdePkg.dec", "}", f"g{sp_}TokenSpaceGuid.Pcd{nm}.Field{bar}{fieldval(tok)}"]
                else:
                    out.append(ln)
    return out, d


def dec_expect(m):
    e = {"IncludePaths": [], "LibraryClasses": [], "Guids": [], "Protocols": [], "PPIs": [], "Pcds": []}
    for k, _s, ents, _ in m["sections"]:
        for x in ents:
            if k == "Includes":
                e["IncludePaths"].append(x)
            elif k == "LibraryClasses":
                e["LibraryClasses"].append((x[0], x[1]))
            elif k in ("Guids", "Protocols", "Ppis"):
                e["PPIs" if k == "Ppis" else k].append((x[0], x[1]))
            elif k != "UserExtensions":
                sp_, nm, val, ty, tok, _b = x
                e["Pcds"].append((f"g{sp_}TokenSpaceGuid", f"Pcd{nm}", val, ty, hex(tok)))
                if k == "Struct":
                    e["Pcds"].append((f"g{sp_}TokenSpaceGuid", f"Pcd{nm}.Field", fieldval(tok), "STRUCTURED_PCD", "STRUCTURED_PCD"))
    return e
