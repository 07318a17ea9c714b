"""DSC models: generator, text spread over included files, expected content."""
import os

from checks.edkgen import COMMENTS, styles
from pbt import st

ARCH = ["X64", "IA32", "AARCH64", "x64", "ia32"]
LIB = ["BaseLib", "DebugLib", "BaseMemLib", "IoLib", "NULL", "PcdLib"]
LIBINF = [f"Lib/{n}/{n}.inf" for n in ("A", "B", "C", "D", "Aa")]
TOK = ["gTokenSpaceGuid", "gMyPkgTokenSpaceGuid", "gATokenSpaceGuid"]
pcdname = st.tuples(st.sampled_from(TOK), st.sampled_from(["PcdA", "PcdB", "PcdAB", "PcdDebug", "Pcd1"])).map(".".join)
pcdval = st.sampled_from(["TRUE", "FALSE", "0x10", "5", 'L"a b"', "0x0|UINT32|0x4", '"x"|VOID*|16', "{0x1, 0x2}", "0", 'L"[a]"', '"{"|VOID*|4', '"}"', '"#1"', '"[Components.X64]"', "'{b'"])
sep = st.sampled_from(["|", " | ", "|  ", "  |", "\t|\t"])
inf = st.sampled_from(LIBINF)
lib = st.tuples(st.just("lib"), st.sampled_from(LIB), inf, sep, st.integers(0, 9))
pcd = st.tuples(st.just("pcd"), pcdname, pcdval, sep)
libscope = st.lists(st.one_of(st.none(), st.sampled_from(["X64", "IA32", "common", "Common", "X64.PEIM", "X64.DXE_DRIVER", "common.SEC", "IA32.peim", "AARCH64"])), min_size=1, max_size=3, unique_by=lambda s: (s or "common").lower())
override = st.lists(
    st.one_of(
        st.tuples(st.just("LibraryClasses"), st.lists(lib, max_size=4)),
        st.tuples(st.just("PcdsFixedAtBuild"), st.lists(pcd, max_size=2)),
        st.tuples(st.just("BuildOptions"), st.just([("raw", "GCC:*_*_*_CC_FLAGS = -O2")])),
        st.tuples(st.just("Defines"), st.just([("raw", "FILE_GUID = 6a1d1b5d-0e20-4ef6-8ae9-56c6f4a1a0ef")])),
    ),
    max_size=3,
)
# the last number: how far back the module that is listed again was listed first (none: a new one)
comp = st.tuples(st.just("comp"), st.one_of(st.none(), st.none(), override), st.sampled_from([" {", "{", "  {", "\t{", " \t{ "]), st.integers(0, 9), st.one_of(st.none(), st.none(), st.integers(1, 4)))
# what else may stand between the entries of a section
between = st.tuples(st.just("raw"), st.sampled_from(["DEFINE LOCAL_X = 1", "DEFINE LOCAL_PATH = Lib/Z", "define local = y"]))
comps = st.lists(st.one_of(comp, comp, comp, comp, comp, between), min_size=1, max_size=4)
libs = st.lists(st.one_of(lib, lib, lib, lib, lib, lib, between), min_size=1, max_size=5)
cscope = st.one_of(st.none(), st.sampled_from(["X64", "IA32", "common", "Common", "AARCH64", "x64", "X64"]))
section = st.one_of(
    st.tuples(st.just("LibraryClasses"), libscope, libs),
    st.tuples(st.just("LibraryClasses"), libscope, libs),
    st.tuples(st.just("Components"), cscope.map(lambda s: [s]), comps),
    st.tuples(st.just("Components"), cscope.map(lambda s: [s]), comps),
    st.tuples(st.sampled_from(["PcdsFixedAtBuild", "PcdsFeatureFlag", "PcdsDynamicDefault", "PcdsPatchableInModule"]), st.sampled_from([[None], ["common"], ["X64"], ["IA32", "X64"], ["common", "X64.DEFAULT"]]), st.lists(pcd, max_size=4)),
    st.tuples(st.just("BuildOptions"), st.sampled_from([[None], ["common.EDKII"]]), st.lists(st.sampled_from([("raw", "GCC:*_*_*_CC_FLAGS = -D X=1 -DY"), ("raw", "MSFT:*_*_X64_DLINK_FLAGS == /X /Y:a|b.inf"), ("raw", "*_*_*_NASM_FLAGS = "), ("raw", "-fcontinued")]), max_size=2)),
    st.tuples(st.just("SkuIds"), st.just([None]), st.just([("raw", "0|DEFAULT"), ("raw", "1|SKU1|DEFAULT")])),
)
models = st.fixed_dictionaries(
    {
        "arches": st.lists(st.sampled_from(["IA32", "X64", "AARCH64"]), min_size=1, max_size=3, unique=True),
        "defs": st.dictionaries(st.sampled_from(["PLATFORM_NAME", "OUTPUT", "FLAGS", "VER"]), st.sampled_from(["Foo", "1.0", "a b", "x=y", "0x00010005"]), max_size=3),
        "extra_ext": st.booleans(),
        "sections": st.lists(section, max_size=7),
        "cuts": st.lists(st.tuples(st.integers(0, 60), st.integers(1, 12), st.integers(0, 5)), max_size=3),
        "style": styles,
        "case": st.integers(0, 2),
        "how": st.sampled_from(["abs", "rel"]),
        "odd": st.integers(0, 127),
    }
)


def hdr(name, scopes, case, odd=0):
    nm = [name, name.lower(), name.upper()][case]
    a, b, c = [("[", ", ", "]"), ("[ ", ",", " ]"), ("[\t", " , ", "]"), ("[", ",\t", " ]")][odd % 4]
    return a + b.join(nm if s is None else f"{nm}.{s}" for s in scopes) + c


EXTS = [".dsc.inc", ".dsc", ".inc", ".txt", "", ".DSC", ".fdf.inc"]


class Ln(str):
    """A line of the file that lists a module."""

    tag = None


DEAD = [  # lines of an inactive part
    ["Dead/D.inf {", "  <LibraryClasses>"],
    ["[Components.IA32]", "Dead/E.inf"],
    ["!include gone.inc"],
    ["BaseLib|Dead.inf", "gTokenSpaceGuid.PcdA|99"],
    ["}"],
    ["!if TRUE", "DEFINE WS = dead", "SUPPORTED_ARCHITECTURES = DEAD", "!else", "LIBDIR = dead", "!endif"],
    ["[Defines]", "LIBDIR = dead", "DEFINE LB = dead"],
    ["[LibraryClasses]", "!ifndef NOWHERE", "NULL|Dead.inf", "!endif"],
]


class Built:
    pass


def build(m, root):
    """Writes the DSC under root and returns what the parser must report."""
    b = Built()
    n = [0]
    six, three, over = [], [], []
    L = []  # logical lines
    low = lambda s: (s or "common").lower()  # noqa: E731
    b.scoped, b.comps, b.libs, b.pcds, b.six, b.three, b.other, b.order = {}, [], [], {}, [], [], [], []
    b.defs = {"SUPPORTED_ARCHITECTURES": "|".join(m["arches"]), **m["defs"], "LIBDIR": "Lib", "WS": root}
    odd = m["odd"]
    if odd & 1:
        b.defs["SUPPORTED_ARCHITECTURES"] = " | ".join(m["arches"])
    said = dict(b.defs)
    if odd & 2:  # a macro made of another, which may follow
        b.defs = {**b.defs, "LB": "Lib"} if odd & 4 else {"LB": "Lib", **b.defs}
        said = {**b.defs, "LIBDIR": "$(LB)"}
    D = [hdr("Defines", [None], m["case"], odd >> 2)]
    for i, (k, v) in enumerate((k, said[k]) for k in b.defs):
        if odd & 32 and i % 2 and k != "LB":
            D.append(f"{'EDK_GLOBAL' if odd & 16 else 'DEFINE'} {k} = gone")  # replaced by the next one
        D.append((("EDK_GLOBAL " if odd & 64 else "DEFINE ") if k in ("LIBDIR", "WS") or (i + m["case"]) % 2 else "") + f"{k}{' ' * (i % 3)}= {v}")
    if not odd & 8:
        L += D

    def libpath(p, how):
        if how == 7:
            return p.replace("Lib/", "$(LIBDIR)/", 1), p, p
        if how == 8:
            return os.path.join(root, p), os.path.join(root, p), p
        if how == 9:
            return "$(WS)/" + p, f"{root}/{p}", p
        return p, p, p

    for name, scopes, ents in m["sections"]:
        L.append(hdr(name, scopes, m["case"], odd >> 3))
        for e in ents:
            if e[0] == "raw":
                L.append(e[1])
            elif e[0] == "pcd":
                L.append(e[1] + e[3] + e[2])
                b.pcds[e[1]] = e[2]
                b.order.append(e[1])
            elif e[0] == "lib":
                t, raw, rel = libpath(e[2], e[4])
                L.append(e[1] + e[3] + t)
                b.libs.append(raw)
                for s in scopes:
                    lst = b.scoped.setdefault(f"{low(s)}.{e[1].lower()}", [])
                    if rel in lst:
                        lst.remove(rel)
                    lst.insert(0, rel)
            else:
                tag = n[0]
                n[0] += 1
                k = tag - (e[4] or 0)
                if k < 0:
                    k = tag
                t, raw, rel = libpath(f"Lib/M{k}/M{k}." + ("INF" if (k + m["case"]) % 5 == 0 else "inf"), e[3])
                ov = {"NULL": []}
                L.append(Ln(t + (e[2] if e[1] is not None else "")))
                L[-1].tag = tag
                if e[1] is not None:
                    for sub, subents in e[1]:
                        L.append(f"<{sub}>")
                        for x in subents:
                            if x[0] == "raw":
                                L.append(x[1])
                            elif x[0] == "pcd":
                                L.append(x[1] + x[3] + x[2])
                                b.pcds[x[1]] = x[2]
                                b.order.append(x[1])
                            else:
                                t2, raw2, rel2 = libpath(x[2], x[4])
                                L.append(Ln(x[1] + x[3] + t2))
                                L[-1].tag = ("lib", len(b.libs))
                                if low(scopes[0]) == "ia32":
                                    over.append((L[-1].tag, raw2))
                                b.libs.append(raw2)
                                if x[1] == "NULL":
                                    ov["NULL"].append(rel2)
                                else:
                                    ov[x[1].lower()] = rel2
                    L.append("}")
                s = low(scopes[0])
                (b.six if s == "x64" else b.three if s == "ia32" else b.other).append(raw)
                (six if s == "x64" else three if s == "ia32" else []).append(tag)
                for a in m["arches"] if s == "common" else [s]:
                    b.comps.append((rel, a, ov))
    if odd & 8:
        L += D
    # spread the lines over included files
    os.makedirs(os.path.join(root, "Plat", "Sub"))
    os.makedirs(os.path.join(root, "Pkg", "Inc"))
    main = os.path.join(root, "Plat", "Main.dsc")
    files = {main: L}
    for i, (at, ln, where) in enumerate(m["cuts"]):
        src = [main, *list(files)[1:]][where % 2 * (len(files) - 1)]  # nested: cut the latest include
        lines = files[src]
        at = at % (len(lines) + 1)
        piece = lines[at : at + ln]
        if any(x.lower().startswith("!include") for x in piece):
            continue  # a relative include may not move to another directory
        d = [os.path.join(root, "Plat"), os.path.join(root, "Plat", "Sub"), os.path.join(root, "Pkg", "Inc")][where % 3]
        f = os.path.join(d, f"inc{i}" + EXTS[(at + ln) % len(EXTS)])
        rels = [os.path.relpath(f, root)]
        r = os.path.relpath(f, os.path.dirname(src))
        if not r.startswith(".."):
            rels.append(r)
        if d.endswith("Inc"):
            rels = ["Inc/" + os.path.basename(f)] if where > 2 else rels
        rel = rels[where % len(rels)]
        if odd & 16 and not odd & 8 and src == main and at > len(D):
            rel = [f, "$(WS)/" + rels[0], rel][(where + i) % 3] if not d.endswith("Inc") else rel
        files[src] = lines[:at] + [("!include " if i % 2 else "!INCLUDE ") + rel] + lines[at + ln :]
        files[f] = piece
    b.files = set(files)
    where = {}
    for k, (f, lines) in enumerate(files.items()):
        out = []
        sty = m["style"]
        for j, ln in enumerate(lines):
            s = sty[(j + k) % len(sty)] * 5 + j
            if s % 4 == 0:
                out.append(["", "  ", "# comment", "  # [Components.X64]", "# X|y.inf"][s % 5])
            if s % 7 == 0:
                out += [["!if 0", "!if FALSE", "!ifdef NOWHERE"][s % 3], *DEAD[s % len(DEAD)], "!endif"]
            out.append(["", "  ", "\t"][s % 3] + ln + ["", "", " ", "  " + COMMENTS[s % len(COMMENTS)]][(s // 3) % 4])
            if isinstance(ln, Ln):
                where[ln.tag] = {"file": f, "lineno": len(out)}
        with open(f, "w") as fh:
            fh.write("\n".join(out) + ("\n" if sty[0] % 2 else ""))
    b.main = main
    b.six_at = [{**where[t], "data": d} for t, d in zip(six, b.six)]
    b.over_at = [{**where[t], "data": d} for t, d in over]
    b.three_at = [{**where[t], "data": d} for t, d in zip(three, b.three)]
    b.nested = len(files) - 1
    return b
