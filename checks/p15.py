"""P15: writing a DSC model to a file."""
import os
from collections import Counter

from checks import dscobj as o
from edk2toollib.uefi.edk2.build_objects import dsc as d
from edk2toollib.uefi.edk2.build_objects.dsc_translator import DscTranslator
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, st
from pbt.core import same

META = dict(
    title="Writing a platform description model and reading it back loses nothing",
    statement="For any platform description model, the written file holds exactly its definitions, SKUs, default stores, library classes, components with all their overrides, PCDs with type, size and variable details, and build options with their replace or append form, each under a header with the scope it has in the model. The platform description parser reads from it the same definitions, scoped libraries, components and PCDs.",
    over=["inputs"],
    text="every model built from any sections and objects",
    why="The one existing test writes an empty list and reads nothing back.",
    files=["edk2toollib/uefi/edk2/build_objects/dsc_translator.py", "edk2toollib/uefi/edk2/build_objects/dsc.py", "edk2toollib/uefi/edk2/parsers/dsc_parser.py"],
    mechanism=[("translation", "DscTranslator._GetDscLinesFromDscObj, _FormatComponent"), ("reading back", "DscParser.ParseFile")],
    technique="property-based testing: round trip against an independent reader and against the parser",
    note="values are single-line and need no quoting; legacy [Libraries] sections are not written",
)
CHECK = Check("P15", "the model has at least three sections or a component with overrides")

sf = st.sampled_from
libc = st.tuples(st.just("libc"), sf(["BaseLib", "IoLib", "NULL", "DebugLib"]), sf(o.INF))
sdef = st.tuples(st.just("define"), sf(["DIR", "FLAG", "VER"]), sf(["Sub", "1", "a b"]), st.booleans())
models = st.fixed_dictionaries(
    {
        "defines": st.lists(st.tuples(st.just("define"), sf(["PLATFORM_NAME", "FLAG", "VER"]), sf(["TEST", "1", "a b", "x|y", "Gerät ✓"]), st.booleans()), max_size=3),
        "skus": st.lists(st.one_of(o.sku, o.sku, sdef), max_size=4),
        "stores": st.lists(st.one_of(o.store, o.store, sdef), max_size=3),
        "library_classes": st.lists(st.tuples(o.sec, st.lists(st.one_of(libc, libc, libc, sdef), min_size=1, max_size=4)), max_size=3),
        "components": st.lists(st.tuples(o.csec, st.lists(st.one_of(o.comp, o.comp, o.comp, sdef), min_size=1, max_size=4)), max_size=3),
        "pcds": st.lists(st.tuples(o.psec, st.lists(st.one_of(o.pcd, o.pcdt, o.pcdv), min_size=1, max_size=3)), max_size=3),
        "build_options": st.lists(st.tuples(o.bsec, st.lists(st.one_of(o.bopt, o.bopt, sdef), min_size=1, max_size=3)), max_size=2),
    }
)


def norm_header(name, parts):
    """Section name and scope, without the parts that only say "all"."""
    parts = [p.upper() for p in parts]
    while parts and parts[-1] in ("COMMON", "*"):
        parts.pop()
    return (name.upper(), *["COMMON" if p == "*" else p for p in parts])


def read(path):
    """Independent reader: {header: Counter(entries)}, overrides nested as {(component, sub header): ...}."""
    out = {}
    sec, comp, sub = None, None, None
    with open(path, encoding="utf-8") as f:
        for ln in f:
            ln = ln.strip()
            if ln.startswith("["):
                assert ln.endswith("]"), ln
                name, *parts = ln[1:-1].split(".")
                sec = norm_header(name, parts)
                out.setdefault(sec, Counter())
            elif ln.startswith("<"):
                sub = norm_header(ln[1:-1].split(".")[0], ln[1:-1].split(".")[1:])
            elif ln == "}":
                out[sec][(comp[0], tuple(sorted((k, tuple(sorted(v.items()))) for k, v in comp[1].items())))] += 1
                comp = sub = None
            elif ln.endswith("{"):
                comp = (ln[:-1].strip(), {})
            elif comp:
                comp[1].setdefault(sub, Counter())[norm(ln)] += 1
            else:
                out[sec][norm(ln)] += 1
    return out


def norm(ln):
    if "|" in ln and "=" not in ln.split("|")[0]:
        return "|".join(x.strip() for x in ln.split("|"))
    for sep in ("==", "="):
        if sep in ln:
            a, b = ln.split(sep, 1)
            return f"{' '.join(a.split())} {sep} {b.strip()}"
    return ln


def text(x):
    k = x[0]
    if k == "define":
        return f"{'DEFINE ' if x[3] else ''}{x[1]} = {x[2]}"
    if k == "sku":
        return f"{x[1]}|{x[2]}|{x[3]}"
    if k == "store":
        return f"{x[1]}|{x[2]}"
    if k == "libc":
        return f"{x[1]}|{x[2]}"
    if k == "pcd":
        return f"{x[1]}.{x[2]}|{x[3]}"
    if k == "pcdt":
        return f"{x[1]}.{x[2]}|{x[3]}|{x[4]}" + (f"|{int(x[5])}" if int(x[5]) else "")
    if k == "pcdv":
        at = x[7] or []
        at = [a.upper().strip() for a in (at.split(",") if isinstance(at, str) else at)]
        return f"{x[1]}.{x[2]}|{x[3]}|{x[4]}|{x[5]}" + ("" if x[6] is None else f"|{x[6]}" + (f"|{', '.join(at)}" if at else ""))
    return f"{x[7] + ':' if x[7] else ''}{x[4]}_{x[5]}_{x[6]}_{x[1]}_{x[2]} {'==' if x[8] else '='} {x[3]}"


def uniq(lst):
    out = []
    for x in lst:
        out = [y for y in out if not o.equal(x, y)] + [x]
    return out


def first(lst):
    """Plain sets keep the first of equal objects."""
    out = []
    for x in lst:
        if not any(o.equal(x, y) for y in out):
            out.append(x)
    return out


def comp_entry(x):
    ov = x[2]
    if not ov or not any(ov.values()):
        return x[1]
    subs = {}
    if ov["libc"]:
        subs[("LIBRARYCLASSES",)] = Counter(text(e) for e in first(ov["libc"]))
    for ty, ps in ov["pcds"]:
        subs[("PCDS" + ty.strip().upper(),)] = Counter(text(p) for p in first(ps))
    if ov["define"]:
        subs[("DEFINES",)] = Counter(text(e) for e in ov["define"])
    if ov["bopt"]:
        subs[("BUILDOPTIONS",)] = Counter(text(e) for e in ov["bopt"])
    return (x[1], tuple(sorted((k, tuple(sorted(v.items()))) for k, v in subs.items())))


@CHECK.sub("roundtrip", models, quick=1500, thorough=80000, shards=2)
def roundtrip(m, ctx):
    obj = d.dsc()
    want = {("DEFINES",): Counter(), ("SKUIDS",): Counter()}
    arch = ("define", "SUPPORTED_ARCHITECTURES", "IA32|X64", False)
    for x in m["defines"] + [arch]:
        obj.defines.add(o.make(x))
    want[("DEFINES",)] = Counter(text(x) for x in uniq(m["defines"] + [arch]))
    for x in m["skus"]:
        obj.skus.add(o.make(x))
    want[("SKUIDS",)] = Counter(text(x) for x in uniq(m["skus"]))
    for x in m["stores"]:
        obj.default_stores.add(o.make(x))
    if m["stores"]:
        want[("DEFAULTSTORES",)] = Counter(text(x) for x in uniq(m["stores"]))
    model = {}
    for name in ("library_classes", "components", "pcds", "build_options"):
        sections = model[name] = {}
        for s, items in m[name]:
            for x in items:
                getattr(obj, name)[o.make(s)].add(o.make(x))
            k = o.key(s)
            sections[k] = uniq(sections.get(k, []) + list(items))
        for k, items in sections.items():
            if name == "pcds":
                head = norm_header("Pcds" + k[1], [*k[2:4], *([k[4]] if k[4] else [])])
            else:
                head = norm_header({"library_classes": "LibraryClasses", "components": "Components", "build_options": "BuildOptions"}[name], k[1:])
            want[head] = Counter(comp_entry(x) if x[0] == "comp" else text(x) for x in items)
    path = os.path.join(os.path.realpath(ctx.tmp(wild=True)), "Out.dsc")
    if len(m["defines"]) % 2:  # over what an earlier run left there
        with open(path, "w") as f:
            f.write("[Defines]\n  OLD = 1\n" * 200)
    DscTranslator.dsc_to_file(obj, path)
    got = read(path)
    same({k: v for k, v in got.items() if v or k in want}, want, "sections written")
    p = DscParser()
    p.SetEdk2Path(Edk2Path(os.path.dirname(path), []))
    p.ParseFile(path)
    defs = {x[1]: x[2] for x in uniq(m["defines"] + [arch])}
    for items in model["build_options"].values():  # given again behind the definitions section
        defs.update({x[1]: x[2] for x in items if x[0] == "define"})
    same({k: p.LocalVars.get(k) for k in defs}, defs, "definitions read back")
    scoped = {}
    for k, items in model["library_classes"].items():
        parts = ["common" if x == "*" else x.lower() for x in k[1:]]
        if parts[-1] == "common":
            parts.pop()
        sc = ".".join(parts) or "common"
        for x in items:
            if x[0] == "define":
                continue
            scoped.setdefault(f"{sc}.{x[1].lower()}", []).append(x[2])
    same({k: sorted(v) for k, v in p.ScopedLibraryDict.items()}, {k: sorted(v) for k, v in scoped.items()}, "scoped libraries read back")
    comps = []
    for k, items in model["components"].items():
        for x in items:
            if x[0] == "define":
                continue
            ov = {"NULL": []}
            if x[2]:
                for e in first(x[2]["libc"]):
                    if e[1].lower() == "null":
                        ov["NULL"].append(e[2])
                    else:
                        ov[e[1].lower()] = e[2]
            ov["NULL"].sort()
            for a in ["IA32", "X64"] if k[1] == "*" else [k[1].lower()]:
                comps.append((x[1], a, repr(sorted(ov.items()))))
    rd = []
    for inf, a, ov in p.Components:
        ov = dict(ov)
        ov["NULL"] = sorted(ov["NULL"])
        rd.append((inf, a, repr(sorted(ov.items()))))
    same(sorted(rd), sorted(comps), "components read back")
    six = [x[1] for k, items in model["components"].items() if k[1] == "X64" for x in items if x[0] == "comp"]
    same(sorted(p.SixMods), sorted(six), "X64 modules read back")
    names = Counter(f"{x[1]}.{x[2]}" for items in model["pcds"].values() for x in items)
    for items in model["components"].values():
        for x in items:
            for ty, ps in (x[0] == "comp" and x[2] or {"pcds": []})["pcds"]:
                names.update(f"{y[1]}.{y[2]}" for y in first(ps))
    same(Counter(p.Pcds), names, "PCDs read back")
    ctx.nontrivial(sum(len(v) for v in model.values()) >= 3 or any(x[0] == "comp" and x[2] and any(x[2].values()) for items in model["components"].values() for x in items))
