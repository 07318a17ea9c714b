"""P33: INF and CAT files of a capsule package."""
import datetime
import os
import re
import stat
import uuid
from unittest import mock

from checks.p42 import Windows
from edk2toollib.windows.capsule.cat_generator import CatGenerator
from edk2toollib.windows.capsule.inf_generator import InfGenerator
from edk2toollib.windows.capsule.inf_generator2 import InfFile
from pbt import Check, st
from pbt.core import expect, fail, rejects, same

META = dict(
    title="Capsule INF and CAT files describe exactly the firmware they are made for",
    statement="The INF text generated for one or several firmware images has exactly the sections, in a form Windows reads back, that the given name, version, date, architecture, GUIDs, files, strings, rollback and integrity settings call for, every referenced section and string being defined; values that would corrupt it are refused and a refused firmware leaves no trace. The catalogue tool is run in the folder of the INF with the documented arguments, and a tool that is missing, fails, or writes no catalogue is reported.",
    over=["inputs", "histories"],
    text="every package description, every sequence of added firmware, every tool outcome",
    why="The tests compare a few fixed files; mixes of optional parts, refused additions and alternative spellings of GUIDs are not tried and no tool is ever run.",
    files=["edk2toollib/windows/capsule/inf_generator.py", "edk2toollib/windows/capsule/inf_generator2.py", "edk2toollib/windows/capsule/cat_generator.py"],
    mechanism=[("single firmware", "InfGenerator.MakeInf and its validating setters"), ("several firmware", "InfFile.AddFirmware / __str__, InfFirmwareSections, InfSourceFiles, InfStrings"), ("catalogue", "CatGenerator.MakeCat")],
    technique="property-based testing: an independent INF reader and a model of the expected sections; a scripted stand-in for the catalogue tool",
    note="strings hold no quotation marks or line breaks; tags are unique",
)
CHECK = Check("P33", "an optional part (rollback, integrity file, manufacturer, operating system) is used or several firmware are added")

ARCHS = {"amd64": "amd64", "x64": "amd64", "arm": "arm", "arm64": "ARM64", "aarch64": "ARM64"}
mixed = st.tuples(st.sampled_from(sorted(ARCHS)), st.sampled_from([str.lower, str.upper, str.title])).map(lambda t: t[1](t[0]))
word = st.text("abzAZ09_-", min_size=1, max_size=8)
fname = st.text("abAZ09_-.", min_size=1, max_size=9).filter(lambda s: s.strip("."))
line = st.one_of(st.sampled_from(["", "Contoso, Inc.", "{Name}", "%Provider%", "[Version]", "a = b ; c", "50% {0}"]), st.text(st.characters(min_codepoint=32, max_codepoint=126, exclude_characters='"'), max_size=12))
vers = st.one_of(st.lists(st.integers(0, 65535).map(str), min_size=2, max_size=4), st.just(["aa", "bb"])).map(".".join)
guid = st.tuples(st.uuids(), st.sampled_from([str, str, lambda g: str(g).upper(), lambda g: "{%s}" % g, lambda g: g.hex, lambda g: g.urn]))
num = st.tuples(st.one_of(st.sampled_from([0, 1, 0xFFFFFFFF, 0x80000000]), st.integers(0, 0xFFFFFFFF)), st.sampled_from([str, hex, "0x{:08X}".format, oct, bin]))
badnum = st.sampled_from(["-1", "-0x5", "0x100000000", "4294967296", "1.0", "", "0xG", "012", "1 2"])
badword = st.tuples(word, st.sampled_from(["\n", " ", ";", "[", "]", "%", "\t", ",", "=", "/", "\\", "\n[x]", "\"", "$"]), st.sampled_from(["", "x"])).map("".join)
badguid = st.sampled_from(["", "not a guid", "3cad7a0c-d35b-4b75-96b1-03a9fb07b7f", "3cad7a0c-d35b-4b75-96b1-03a9fb07b7fcc", "3cad7a0c-d35b-4b75-96b1-03a9fb07b7fg"])
badver = st.sampled_from(["", "1", "1.2.3.4.5", "1234", "....", "1-2-3"])
date = st.dates(datetime.date(1950, 1, 1), datetime.date(2199, 12, 31))


def sections(text):
    """[(section, [line...])] of an INF; comments and blank lines dropped, spaces around the first = removed."""
    out = []
    for l in text.split("\n"):
        l = l.strip()
        if not l or l.startswith(";"):
            continue
        if l.startswith("["):
            expect(re.fullmatch(r"\[[^\]\[]+\]", l), f"bad section line {l!r}")
            out.append((l[1:-1], []))
        else:
            expect(out, f"{l!r} precedes every section")
            out[-1][1].append(re.sub(r"\s*=\s*", "=", l, count=1))
    names = [n.lower() for n, _ in out]
    same(sorted(set(names)), sorted(names), "sections, each defined once")
    return dict(out)


def compare(text, want):
    got = sections(text)
    same(sorted(got), sorted(want), "section names")
    for n, ls in want.items():
        if n in ("Strings", "SourceDisksFiles"):
            same(sorted(got[n]), sorted(ls), f"section {n}")
        else:
            same([l.lower() if "{" in l else l for l in got[n]], [l.lower() if "{" in l else l for l in ls], f"section {n}")
    body = "\n".join(l for n, ls in got.items() if n != "Strings" for l in ls)
    keys = {l.split("=")[0] for l in got["Strings"]}
    for k in re.findall(r"%(\w[\w-]*)%", body):
        expect(k in keys or k == "13", f"string {k} is used but not defined")


def version(name, d, v, arch, os_):
    return {"Version": ['Signature="$WINDOWS NT$"', "Class=Firmware", "ClassGuid={f2e7dd72-6468-4e36-b6f1-6488f42c1b52}", "Provider=%Provider%", f"DriverVer={d.month:02}/{d.day:02}/{d.year},{v}", "PnpLockdown=1", f"CatalogFile={name}.cat"],
            "Manufacturer": [f"%MfgName%=Firmware,NT{arch}.{os_}"], "SourceDisksNames": ["1=%DiskName%"], "DestinationDirs": ["DefaultDestDir=13"]}


def quoted(k, v):
    return re.sub(r"\s*=\s*", "=", f'{k} = "{v}"', count=1)


def firmware(tag, g, n, file, rollback, integrity, w):
    """Adds the sections of one firmware; tag is its section prefix, addreg how its registry sections are called."""
    w[f"{tag}_Install.NT"] = [f"CopyFiles={tag}_CopyFiles"]
    if rollback:
        w[f"{tag}_Install.NT"].append(f"AddReg={tag}_DowngradePolicy_AddReg")
        w[f"{tag}_DowngradePolicy_AddReg"] = [f"HKLM,SYSTEM\\CurrentControlSet\\Control\\FirmwareResources\\{{{g}}},Policy,%REG_DWORD%,1"]
    w[f"{tag}_CopyFiles"] = [file] + ([integrity] if integrity else [])
    w[f"{tag}_Install.NT.Services"] = ["AddService=,2"]
    w[f"{tag}_Install.NT.Hw"] = [f"AddReg={tag}_AddReg"]
    w[f"{tag}_AddReg"] = [f"HKR,,FirmwareId,,{{{g}}}", "HKR,,FirmwareVersion,%%REG_DWORD%%,0x%X" % n, f"HKR,,FirmwareFilename,,%13%\\{file}"] + ([f"HKR,,FirmwareIntegrityFilename,,%13%\\{integrity}"] if integrity else [])


one = st.fixed_dictionaries({"name": word, "provider": line, "guid": guid, "arch": mixed, "desc": line, "ver": vers, "num": num, "mfg": st.one_of(st.none(), line), "date": st.one_of(st.none(), date), "file": fname, "dir": st.sampled_from(["", "some dir/", "/abs/", "/"]), "integrity": st.one_of(st.none(), fname), "rollback": st.booleans()})


@CHECK.sub("single", st.tuples(one, one, badnum, badword, badguid, badver), quick=500, thorough=20000)
def single(case, ctx):
    m, n, bnum, bname, bguid, bver = case
    path = os.path.join(ctx.tmp(), "x.inf")
    o = None
    for m in (n, m):
        if o is None:
            o = InfGenerator(m["name"], m["provider"], m["guid"][1](m["guid"][0]), m["arch"], m["desc"], m["ver"], m["num"][1](m["num"][0]))
        else:
            o.Name, o.Provider, o.EsrtGuid, o.Arch, o.Description, o.VersionString, o.VersionHex = m["name"], m["provider"], m["guid"][1](m["guid"][0]), m["arch"], m["desc"], m["ver"], m["num"][1](m["num"][0])
        o.Manufacturer = m["mfg"]
        o.IntegrityFilename = m["integrity"]
        before = datetime.date.today()
        if m["date"]:
            o.Date = m["date"]
        elif m is not n:
            o.Date = before
        for attr, v, e in (("VersionHex", bnum, ValueError), ("Name", bname, ValueError), ("EsrtGuid", bguid, ValueError), ("VersionString", bver, ValueError), ("Arch", bname, ValueError), ("Date", "01/02/2020", ValueError)):
            rejects(setattr, o, attr, v, exc=e, what=f"{attr} {v!r}")
        same((o.Name, o.Provider, o.Arch, o.Description, o.VersionString, int(o.VersionHex, 16), uuid.UUID(o.EsrtGuid)), (m["name"], m["provider"], ARCHS[m["arch"].lower()], m["desc"], m["ver"], m["num"][0], m["guid"][0]), "attributes")
        same((o.Manufacturer, o.IntegrityFilename), (m["provider"] if m["mfg"] is None else m["mfg"], m["integrity"] or ""), "optional attributes")
        same(o.MakeInf(path, m["dir"] + m["file"], m["rollback"]), 0, "MakeInf")
        arch, os_ = ARCHS[m["arch"].lower()], "10.0...17134"
        w = version(m["name"], m["date"] or before, m["ver"], arch, os_)
        w[f"Firmware.NT{arch}.{os_}"] = ["%%FirmwareDesc%%=Firmware_Install,UEFI\\RES_{%s}" % m["guid"][0]]
        firmware("Firmware", m["guid"][0], m["num"][0], m["file"], m["rollback"], m["integrity"], w)
        if m["rollback"]:
            w["Firmware_DowngradePolicy_Addreg"] = w.pop("Firmware_DowngradePolicy_AddReg")
            w["Firmware_Install.NT"][1] = "AddReg=Firmware_DowngradePolicy_Addreg"
        w["SourceDisksFiles"] = [f"{f}=1" for f in [m["file"]] + ([m["integrity"]] if m["integrity"] else [])]
        w["Strings"] = [quoted("Provider", m["provider"]), quoted("MfgName", o.Manufacturer), quoted("FirmwareDesc", m["desc"]), 'DiskName="Firmware Update"', "DIRID_WINDOWS=10", "REG_DWORD=0x00010001"]
        with open(path) as f:
            compare(f.read(), w)
    ctx.nontrivial(m["rollback"] or bool(m["integrity"]) or m["mfg"] is not None)
    ctx.label("rollback" if m["rollback"] else "no rollback", "integrity" if m["integrity"] else "no integrity file")


fw = st.fixed_dictionaries({"tag": st.text("abzAZ09_-", min_size=1, max_size=6), "desc": line, "guid": guid, "num": num, "file": fname, "rollback": st.booleans(), "integrity": st.one_of(st.none(), fname)})
# what a firmware takes from the one before it, and how its tag is made from that one's
like = st.tuples(fw, st.lists(st.sampled_from(["guid", "desc", "num", "file", "integrity"]), min_size=1, max_size=3, unique=True), st.sampled_from([lambda o, n: n, lambda o, n: o + n, lambda o, n: n + o, lambda o, n: o[1:], lambda o, n: o[:-1]]))
op = st.one_of(st.tuples(st.just("add"), fw), st.tuples(st.just("like"), like), st.tuples(st.just("bad"), st.tuples(fw, st.one_of(st.tuples(st.just("tag"), badword), st.tuples(st.just("guid"), badguid), st.tuples(st.just("num"), badnum), st.tuples(st.just("file"), badword), st.tuples(st.just("integrity"), badword)))))
pack = st.fixed_dictionaries({"name": word, "ver": vers, "date": date, "provider": line, "mfg": line, "arch": st.one_of(st.none(), mixed), "disk": st.one_of(st.none(), line), "os": st.sampled_from([None, "10.0...17763", "10.0.1...22000", "10.0", " 10.0...26080", "10.0...22000 ", "10.0...22000\n"]), "short": st.booleans()})


@CHECK.sub("several", st.tuples(pack, st.lists(op, max_size=5), badword, badver, st.sampled_from(["", "1/2", "2021-01-01", "13/01/2021", "02/30/2021", "today"]), st.sampled_from(["", "6.1", "10.0...", "10.0...x", "10.0\n[x]", "bad", "10.0...17763;"]), st.lists(st.tuples(st.sampled_from(["a", "b", "Name"]), line, st.booleans()), max_size=3)), quick=700, thorough=30000)
def several(case, ctx):
    p, ops, bname, bver, bdate, bos, texts = case
    d = p["date"]
    args = dict(Name=p["name"], VersionStr=p["ver"], CreationDate=f"{d.month}/{d.day}/{d.year}" if p["short"] else f"{d.month:02}/{d.day:02}/{d.year}", Provider=p["provider"], ManufacturerName=p["mfg"])
    if p["arch"]:
        args["Arch"] = p["arch"]
    if p["disk"] is not None:
        args["DiskName"] = p["disk"]
    if p["os"]:
        args["TargetOsVersion"] = p["os"]
    for k, v in (("Name", bname), ("VersionStr", bver), ("CreationDate", bdate), ("Arch", bname), ("TargetOsVersion", bos)):
        rejects(lambda: InfFile(**dict(args, **{k: v})), exc=ValueError, what=f"{k} {v!r}")
    o = InfFile(**args)
    arch, os_ = ARCHS[(p["arch"] or "amd64").lower()], (p["os"] or "10.0...17134").strip()
    w = version(p["name"], d, p["ver"], arch, os_)
    top = w[f"Firmware.NT{arch}.{os_}"] = []
    files, strings = [], [quoted("DiskName", "Firmware Update" if p["disk"] is None else p["disk"]), quoted("Provider", p["provider"]), quoted("MfgName", p["mfg"])]
    tags = {"disk", "firmware"}

    def add(m):
        o.AddFirmware(m["tag"], m["desc"], m["guid"] if isinstance(m["guid"], str) else m["guid"][1](m["guid"][0]), m["num"] if isinstance(m["num"], str) else m["num"][1](m["num"][0]), m["file"], m["rollback"], m["integrity"])

    extra, last = [], None
    for what, x in ops:
        if what == "like":
            n, keys, tag = x
            x = dict(n, tag=tag(last["tag"], n["tag"]) or "x", **{k: last[k] for k in keys}) if last else n
        if what == "bad":
            rejects(add, dict(x[0], **{x[1][0]: x[1][1]}), exc=ValueError, what=f"firmware with {x[1]!r}")
            continue
        if x["tag"].lower() in tags:
            continue
        tags.add(x["tag"].lower())
        add(x)
        last = x
        t, g = x["tag"], x["guid"][0]
        top.append(f"%{t}Desc%={t}_Install,UEFI\\RES_{{{g}}}")
        firmware(t, g, x["num"][0], x["file"], x["rollback"], x["integrity"], w)
        for f in (x["file"], x["integrity"]):
            if f and f not in files:
                files.append(f)
        strings.append(quoted(t + "Desc", x["desc"]))
        extra = ["REG_DWORD=0x00010001"]
    w["SourceDisksFiles"] = [f"{f}=1" for f in files]
    mine = {}
    for k, v, local in texts:
        # strings of the caller's own; one given again has the latest value
        (o.InfStrings.AddLocalizableString if local else o.InfStrings.AddNonLocalizableString)(("L_" if local else "N_") + k, v)
        mine[("L_" if local else "N_") + k] = v if not local else f'"{v}"'
    for add_ in (o.InfStrings.AddLocalizableString, o.InfStrings.AddNonLocalizableString):
        rejects(add_, bname, "v", exc=ValueError, what=f"string {bname!r}")
    w["Strings"] = strings + extra + [re.sub(r"\s*=\s*", "=", f"{k} = {v}", count=1).strip() for k, v in mine.items()]
    text = str(o)
    compare(text, w)
    same(str(o), text, "generated again")
    ctx.nontrivial(len(tags) > 3 or bool(p["os"] and len(tags) > 2))
    ctx.label(f"{len(tags) - 2} firmware", *{w for w, _ in ops})


OS = {"win10": "10", "10": "10", "10_au": "10_AU", "10_rs2": "10_RS2", "10_rs3": "10_RS3", "10_rs4": "10_RS4", "10_rs5": "10_RS5", "10_19h1": "10_19H1", "10_vb": "10_VB", "10_co": "10_CO", "10_ni": "10_NI", "server10": "Server10", "server2016": "Server2016", "serverrs2": "ServerRS2", "serverrs3": "ServerRS3", "serverrs4": "ServerRS4"}
CAT_ARCH = {"x64": "X64", "amd64": "X64", "arm": "ARM", "arm64": "ARM64", "aarch64": "ARM64"}


@CHECK.sub("catalogue", st.tuples(mixed, st.sampled_from(sorted(OS)), st.booleans(), st.sampled_from(["pkg", "my pkg", "a/b c"]), st.sampled_from(["tool", "my tools"]), st.sampled_from([0, 0, 0, 1, 3, 255]), st.sampled_from(["file", "file", "nothing", "folder"]), st.booleans(), badword), quick=60, thorough=1500)
def catalogue(case, ctx):
    arch, os_, upper, pkg, tools, rc, makes, relative, bad = case
    d = ctx.tmp()
    folder = os.path.join(d, pkg)
    os.makedirs(folder)
    os.makedirs(os.path.join(d, tools))
    tool, log = os.path.join(d, tools, "Inf2Cat.exe"), os.path.join(d, "log")
    g = CatGenerator("arm", "win10")
    g.Arch, g.OperatingSystem = arch, os_.upper() if upper else os_
    same((g.Arch, g.OperatingSystem), (CAT_ARCH[arch.lower()], OS[os_]), "arch and system")
    rejects(setattr, g, "Arch", bad, exc=ValueError, what=f"arch {bad!r}")
    rejects(setattr, g, "OperatingSystem", bad, exc=ValueError, what=f"system {bad!r}")
    same((g.Arch, g.OperatingSystem), (CAT_ARCH[arch.lower()], OS[os_]), "arch and system after refused ones")
    for a, b in ((bad, os_), (arch, bad), ("", os_), (arch, "")):
        rejects(CatGenerator, a, b, exc=ValueError, what=f"arch {a!r} with system {b!r}")
    out = os.path.join(folder, "x.cat")
    rejects(g.MakeCat, out, tool, what="a tool that is not there")
    env = mock.patch.dict(os.environ, {"ProgramFiles(x86)": os.path.join(d, "pf")})
    with Windows(os.path.join(d, "vs"), [], 0), env:
        rejects(g.MakeCat, out, what="no tool on this machine")
    find = len(bad) % 2 == 1
    if find:  # no path is given: the tool of the installed kit is used
        tool = os.path.join(d, "pf", "Windows Kits", "10", "bin", "10.0.22621.0", "x86", "Inf2Cat.exe")
        os.makedirs(os.path.dirname(tool))
    with open(tool, "w") as f:
        f.write('#!/bin/sh\npwd > "%s"\nfor a in "$@"; do echo "$a" >> "%s"; done\n%s\nexit %d\n' % (log, log, {"file": "echo made > x.cat", "nothing": ":", "folder": "mkdir x.cat"}[makes], rc))
    os.chmod(tool, os.stat(tool).st_mode | stat.S_IXUSR)
    old = os.getcwd()
    try:
        if relative:
            os.chdir(folder)
        args = ["x.cat" if relative else out] + ([] if find else [tool])

        def make():
            if not find:
                return g.MakeCat(*args)
            with Windows(os.path.join(d, "vs2"), [], 0) as w, env:
                os.chdir(w.old)
                return g.MakeCat(*args)
        if rc == 0 and makes == "file":
            same(make(), 0, "MakeCat")
            expect(os.path.isfile(out), "no catalogue")
        else:
            rejects(make, what=f"a tool that returns {rc} and makes {makes}")
    finally:
        os.chdir(old)
    ctx.label("tool of the kit" if find else "tool given")
    if not os.path.exists(log):
        fail("the tool did not run")
    same(open(log).read().splitlines(), [os.path.realpath(folder), "/driver:.", f"/os:{OS[os_]}_{CAT_ARCH[arch.lower()]}", "/verbose", "/uselocaltime"], "folder and arguments of the tool")
    ctx.nontrivial()
    ctx.label(f"exit {min(rc, 1)}", makes)
