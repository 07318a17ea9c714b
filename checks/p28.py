"""P28: ACPI DMAR tables."""
import os
import re
import struct
import xml.etree.ElementTree as ET

from edk2toollib.acpi.dmar_parser import DMARTable
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="DMAR tables decode into the structures their bytes describe",
    statement="Every well-formed ACPI DMAR table decodes into its header and its remapping structures in order, with every field, device scope and path it holds; its flags, counts, text and (well-formed) XML report exactly those. The check of reserved memory regions passes exactly when every region's path is on the given list. Tables with a reserved type, an impossible length or cut short are refused in bounded time.",
    over=["inputs"],
    text="every sequence of remapping structures, device scopes, paths, lists and truncations",
    why="The tests decode one table; wrong offsets after a variable-length structure and endless loops on a bad length need other tables.",
    files=["edk2toollib/acpi/dmar_parser.py"],
    mechanism=[("structures", "DMARTable.__init__ and the structure classes"), ("paths", "DeviceScopeStruct.getPath, RMRRStruct.getPath"), ("region check", "DMARTable.CheckRMRRCount"), ("XML", "DMARTable.toXml")],
    technique="property-based testing: decoding against an independent encoder of the VT-d layouts; CPU limit per case",
    note="remapping types 0-4 and device scope types 1-5; the data is exactly the table",
)
CHECK = Check("P28", "at least two remapping structures, one of them with a device scope of at least two path entries")


def u(bits):
    return st.one_of(st.sampled_from([0, 1, (1 << bits) - 1, 1 << (bits - 1)]), st.integers(0, (1 << bits) - 1))


scope = st.fixed_dictionaries({"type": st.integers(1, 5), "res": u(16), "enum": u(8), "bus": u(8), "path": st.one_of(*[st.lists(st.tuples(st.integers(0, 255), st.integers(0, 255)), max_size=3)] * 7, st.lists(st.tuples(st.integers(0, 255), st.integers(0, 255)), min_size=4, max_size=124))})
scopes = st.lists(scope, max_size=3)
struct_ = st.one_of(
    st.fixed_dictionaries({"t": st.just(0), "flags": u(8), "res": u(8), "seg": u(16), "base": u(64), "scopes": scopes}),
    st.fixed_dictionaries({"t": st.just(1), "res": u(16), "seg": u(16), "base": u(64), "limit": u(64), "scopes": scopes}),
    st.fixed_dictionaries({"t": st.just(1), "res": u(16), "seg": u(16), "base": u(64), "limit": u(64), "scopes": scopes}),
    st.fixed_dictionaries({"t": st.just(2), "flags": u(8), "res": u(8), "seg": u(16), "scopes": scopes}),
    st.fixed_dictionaries({"t": st.just(3), "res": u(32), "base": u(64), "prox": u(32)}),
    st.fixed_dictionaries({"t": st.just(4), "res": u(24), "num": u(8), "name": st.sampled_from([b"\0", b"\\_SB.I2C0\0", b"\\_SB.PCI0.UA00\0\0\0"])}),
)
ascii_ = lambda n: st.text("ABC xyz9", min_size=n, max_size=n).map(str.encode)
header = st.fixed_dictionaries({"rev": u(8), "sum": u(8), "oem": ascii_(6), "tid": ascii_(8), "orev": u(32), "cid": ascii_(4), "crev": u(32), "haw": u(8), "flags": u(8), "res": st.binary(min_size=10, max_size=10)})
table = st.tuples(header, st.lists(struct_, max_size=5))
NAMES = {1: "PCI Endpoint Device", 2: "PCI Sub-hierarchy", 3: "IOAPIC", 4: "MSI_CAPABLE_HPET", 5: "ACPI_NAMESPACE_DEVICE"}


def b_scope(s):
    return struct.pack("<BBHBB", s["type"], 6 + 2 * len(s["path"]), s["res"], s["enum"], s["bus"]) + b"".join(bytes(p) for p in s["path"])


def b_struct(m):
    sc = b"".join(b_scope(s) for s in m.get("scopes", []))
    if m["t"] == 0:
        return struct.pack("<HHBBHQ", 0, 16 + len(sc), m["flags"], m["res"], m["seg"], m["base"]) + sc
    if m["t"] == 1:
        return struct.pack("<HHHHQQ", 1, 24 + len(sc), m["res"], m["seg"], m["base"], m["limit"]) + sc
    if m["t"] == 2:
        return struct.pack("<HHBBH", 2, 8 + len(sc), m["flags"], m["res"], m["seg"]) + sc
    if m["t"] == 3:
        return struct.pack("<HHIQI", 3, 20, m["res"], m["base"], m["prox"])
    return struct.pack("<HH", 4, 8 + len(m["name"])) + m["res"].to_bytes(3, "little") + bytes([m["num"]]) + m["name"]


def b_table(h, ms):
    body = b"".join(b_struct(m) for m in ms)
    return struct.pack("<4sIBB6s8sI4sIBB", b"DMAR", 48 + len(body), h["rev"], h["sum"], h["oem"], h["tid"], h["orev"], h["cid"], h["crev"], h["haw"], h["flags"]) + h["res"] + body


def path(s):
    return "%02d:" % s["bus"] + ":".join("%02d.%d" % p for p in s["path"])


def lines(text):
    """The "label : value" lines of a printed table, in order."""
    out = []
    for li in text.splitlines():
        m = re.match(r"\s*(.*?)\s*:\s*(.*?)\s*$", li)
        if m:
            v = m.group(2)
            out.append((m.group(1), int(v, 16) if v.startswith("0x") else v))
    return out


FIELDS = {0: [("Flags", "flags"), ("Reserved", "res"), ("SegmentNumber", "seg"), ("RegisterBaseAddress", "base")],
          1: [("Reserved", "res"), ("SegmentNumber", "seg"), ("ReservedMemoryBaseAddress", "base"), ("ReservedMemoryRegionLimitAddress", "limit")],
          2: [("Flags", "flags"), ("Reserved", "res"), ("SegmentNumber", "seg")], 3: [("Reserved", "res"), ("RegisterBaseAddress", "base"), ("ProximityDomain", "prox")],
          4: [("Reserved", "res"), ("ACPIDeviceNumber", "num")]}


def spaced(n):
    return re.sub(r"(?<=[a-z])(?=[A-Z])|(?<=ACPI)(?=[A-Z])", " ", n)


def wellformed(e):
    try:
        return ET.fromstring(ET.tostring(e))
    except ET.ParseError as x:
        raise AssertionError(f"XML is not well-formed: {x}")


def numbers(e):
    return {k: int(v, 16) if v.startswith("0x") else v for k, v in e.attrib.items()}


def compare(t, h, ms):
    d = t.dmar_table
    w = b_table(h, ms)
    same((d.Signature, d.Length, d.Revision, d.Checksum, d.OEMID, d.OEMTableID, d.OEMRevision, d.CreatorID, d.CreatorRevision, d.HostAddressWidth, d.Flags),
         (b"DMAR", len(w), h["rev"], h["sum"], h["oem"], h["tid"], h["orev"], h["cid"], h["crev"], h["haw"], h["flags"]), "header")
    same(t.DMARBitEnabled(), bool(h["flags"] & 4), "DMA protection flag")
    same(t.ANDDCount(), sum(m["t"] == 4 for m in ms), "ANDD count")
    same(len(d.SubStructs), len(ms), "number of structures")
    same([r.getPath() for r in d.RMRRlist], [", ".join(path(s) for s in m["scopes"]) for m in ms if m["t"] == 1], "paths of the reserved regions")
    text = [("Signature", str(b"DMAR")), ("Length", len(w)), ("Revision", h["rev"]), ("Checksum", h["sum"]), ("OEM ID", str(h["oem"])), ("OEM Table ID", str(h["tid"])), ("OEM Revision", h["orev"]),
            ("Creator ID", str(h["cid"])), ("Creator Revision", h["crev"]), ("Host Address Width", h["haw"]), ("Flags", h["flags"])]
    x = list(wellformed(t.toXml()))
    same(len(x), 1 + len(ms), "XML elements")
    same(numbers(x[0]), dict(Signature=str(b"DMAR"), Length=len(w), Revision=h["rev"], Checksum=h["sum"], OEMID=str(h["oem"]), OEMTableID=str(h["tid"]), OEMRevision=h["orev"], CreatorID=str(h["cid"]),
                             CreatorRevision=h["crev"], HostAddressWidth=h["haw"], Flags=h["flags"]), "XML header")
    for o, m, e in zip(d.SubStructs, ms, x[1:]):
        n = len(b_struct(m))
        want = {"Type": m["t"], "Length": n, **{k: m[f] for k, f in FIELDS[m["t"]]}}
        for k, v in want.items():
            same(getattr(o, k), v, k)
        text += [(spaced(k), v) for k, v in want.items()]
        if m["t"] == 4:
            same(o.ACPIObjectName, m["name"], "object name")
            want["ACPIObjectName"] = str(m["name"])
            text.append(("ACPI Object Name", str(m["name"])))
        same(e.tag, ["DRHD", "RMRR", "ASTR", "RHSA", "ANDD"][m["t"]], "XML tag")
        same(numbers(e), want, "XML structure")
        ss = m.get("scopes", [])
        same(len(e), len(ss), "XML scopes")
        if "scopes" in m:
            same(len(o.DeviceScope), len(ss), "scopes")
            for q, s, f in zip(o.DeviceScope, ss, e):
                v = {"Type": s["type"], "Length": len(b_scope(s)), "Reserved": s["res"], "EnumerationID": s["enum"], "StartBusNumber": s["bus"]}
                for k in v:
                    same(getattr(q, k), v[k], k)
                same((q.TypeString, [(a, b) for (a,), (b,) in q.Path], q.getPath()), (NAMES[s["type"]], s["path"], path(s)), "scope")
                same((f.tag.replace(" ", ""), numbers(f)), (NAMES[s["type"]].replace(" ", ""), v), "XML scope")
                text += [("Enumeration ID" if k == "EnumerationID" else spaced(k), y) for k, y in v.items()] + [("Path", path(s))]
    same([(a.lower(), b) for a, b in lines(str(t))], [(a.lower(), b) for a, b in text], "text")


@CHECK.sub("tables", st.tuples(table, st.integers(0, 7), st.booleans()), quick=700, thorough=40000, shards=2)
def tables(case, ctx):
    (h, ms), drop, upper = case
    t = DMARTable(b_table(h, ms))
    compare(t, h, ms)
    regions = [", ".join(path(s) for s in m["scopes"]) for m in ms if m["t"] == 1]
    same(t.CheckRMRRCount(), not regions, "region check without a list")
    p = os.path.join(ctx.tmp(wild=True), "golden.xml")
    same(t.CheckRMRRCount(p), not regions, "region check with a missing list")
    listed = [r for i, r in enumerate(regions) if not drop >> i & 1] + ["99:00.0"]
    listed += [x for r in regions for x in (*r.split(", "), r[:-1], r + "0", r.split(":")[0], r + ", " + r, *(p + ", " + r for p in regions)) if x and drop & 4]
    if all(listed):
        root = ET.Element("Golden")
        for r in listed:
            ET.SubElement(ET.SubElement(root, "RMRR"), "Path").text = r.upper() if upper else r
        ET.ElementTree(root).write(p)
        same(t.CheckRMRRCount(p), all(r in listed for r in regions), "region check")
    ctx.nontrivial(len(ms) >= 2 and any(len(s["path"]) >= 2 for m in ms for s in m.get("scopes", [])))
    ctx.label(f"{len(ms)} structures", f"{len(regions)} regions")


@CHECK.sub("damaged", st.tuples(table, struct_, st.sampled_from(["cut", "length", "type", "scope length", "scope length", "scope odd", "scope type"]), st.integers(0, 9999)), quick=700, thorough=40000, shards=2, cpu_limit=5)
def damaged(case, ctx):
    (h, ms), last, how, n = case
    w, e = b_table(h, ms), b_struct(last)
    head = {0: 16, 1: 24, 2: 8, 3: 20, 4: 8}[last["t"]]
    b = bytearray(e)
    if how == "cut":
        b = b[:1 + n % (len(e) - 1)]
    elif how == "length":
        bad = [v for v in (0, 1, 3, 4, head - 1, len(e) + 1, len(e) + 2, 0xFFFF) if v != len(e) and (v < head or v > len(e))]
        struct.pack_into("<H", b, 2, bad[n % len(bad)])
    elif how == "type":
        struct.pack_into("<H", b, 0, (7, 8, 255, 256, 0xFFFF)[n % 5])
    elif last.get("scopes"):
        at = head + sum(len(b_scope(s)) for s in last["scopes"][:-1])
        if how == "scope length":
            b[at + 1] = (0, 1, 5, min(b[at + 1] + 2, 255), 255)[n % 5]
            b += b"".join(b_struct(m) for m in ms) * (n // 5 % 2)
        elif how == "scope odd":
            if b[at + 1] > 253:
                return
            b[at + 1] += 1
            b.append(n % 256)
            struct.pack_into("<H", b, 2, len(e) + 1)
        else:
            b[at] = (0, 9, 255)[n % 3]
    else:
        return
    rejects(DMARTable, w + bytes(b), exc=(Exception, SystemExit), what=f"table whose last structure has a wrong {how}")
    rejects(DMARTable, w[:n % 38], exc=(Exception, SystemExit), what="a table shorter than its header")
    ctx.nontrivial(len(ms) >= 1)
    ctx.label(how)
