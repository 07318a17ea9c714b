"""P29: ACPI IVRS tables."""
import contextlib
import io
import struct

from checks.p28 import ascii_, lines, numbers, u, wellformed
from edk2toollib.acpi.ivrs_parser import IVRS_TABLE
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="IVRS tables decode, rebuild and re-encode to the same bytes",
    statement="Every well-formed ACPI IVRS table decodes into its header, hardware blocks with their device entries, and memory blocks, in order and with every field, and encodes to the same bytes; building the same table entry by entry gives the same bytes with the right lengths and checksum, whatever an object decoded before. The printed and (well-formed) XML forms and the DMA-remap flag, which a memory block for all devices clears, report what the table holds. Tables with a wrong checksum, impossible lengths, reserved types, or cut short are refused.",
    over=["inputs", "histories"],
    text="every sequence of blocks and device entries, build order and damage",
    why="One table is round-tripped by the tests; stale state and mismatched lengths need several tables and entry kinds.",
    files=["edk2toollib/acpi/ivrs_parser.py"],
    mechanism=[("decode/encode", "IVRS_TABLE.Decode / Encode and the entry classes"), ("building", "addIVHDEntry / addIVMDEntry / addDTEEntry / updateACPISum"), ("flag", "IVRSBitEnabled"), ("XML and print", "ToXmlElementTree / DumpInfo")],
    technique="property-based testing: round trips against an independent encoder of the IOMMU specification layouts",
    note="reserved bytes inside device entries are zero; identifiers are ASCII",
)
CHECK = Check("P29", "at least two blocks, one of them a hardware block with at least two device entries")

base = {"dev": u(16), "set": u(8)}
uid = st.one_of(st.tuples(st.just(0), st.just(b"")), st.tuples(st.just(1), st.binary(min_size=8, max_size=8)), st.tuples(st.just(2), st.sampled_from([b"", b"0", b"\\_SB.FUR0", b"UID\0\0", b"\0", b" A "])))
dte = st.one_of(
    *[st.fixed_dictionaries({"t": st.just(t), **base}) for t in (0, 1, 2)],
    st.fixed_dictionaries({"t": st.just(3), "end": u(16), **base}),
    st.fixed_dictionaries({"t": st.just(66), "src": u(16), **base}),
    st.fixed_dictionaries({"t": st.just(67), "src": u(16), "end": u(16), **base}),
    st.fixed_dictionaries({"t": st.just(70), "ext": u(32), **base}),
    st.fixed_dictionaries({"t": st.just(71), "ext": u(32), "end": u(16), **base}),
    st.fixed_dictionaries({"t": st.just(72), "handle": u(8), "src": u(16), "var": u(8), **base}),
    st.fixed_dictionaries({"t": st.just(240), "hid": ascii_(8), "cid": ascii_(8), "uid": uid, **base}),
)
ivhd = st.fixed_dictionaries({"t": st.sampled_from([0x10, 0x11, 0x40]), "flags": u(8), "dev": u(16), "cap": u(16), "base": u(64), "seg": u(16), "info": u(16), "feat": u(32), "efr": u(64), "res": u(64), "dtes": st.lists(dte, max_size=5)})
ivmd = st.fixed_dictionaries({"t": st.sampled_from([0x20, 0x21, 0x22]), "flags": u(8), "dev": u(16), "aux": u(16), "res": u(64), "start": u(64), "len": u(64)})
header = st.fixed_dictionaries({"rev": u(8), "oem": ascii_(6), "tid": ascii_(8), "orev": u(32), "cid": ascii_(4), "crev": u(32), "ivinfo": u(32).filter(lambda v: v & 0x1E), "res": u(64)})
table = st.tuples(header, st.lists(st.one_of(ivhd, ivhd, ivmd), max_size=4))
END = lambda v: struct.pack("<BHB", 4, v, 0)


def b_dte(m):
    w = struct.pack("<BHB", m["t"], m["dev"], m["set"])
    t = m["t"]
    if t in (66, 67):
        w += struct.pack("<BHB", 0, m["src"], 0)
    if t in (70, 71):
        w += struct.pack("<I", m["ext"])
    if t == 72:
        w += struct.pack("<BHB", m["handle"], m["src"], m["var"])
    if t == 240:
        w += struct.pack("<8s8sBB", m["hid"], m["cid"], m["uid"][0], len(m["uid"][1])) + m["uid"][1]
    if t in (3, 67, 71):
        w += END(m["end"])
    return w


def b_block(m):
    if m["t"] >= 0x20 and m["t"] != 0x40:
        return struct.pack("<BBHHHQQQ", m["t"], m["flags"], 32, m["dev"], m["aux"], m["res"], m["start"], m["len"])
    d = b"".join(b_dte(x) for x in m["dtes"])
    ex = struct.pack("<QQ", m["efr"], m["res"]) if m["t"] != 0x10 else b""
    return struct.pack("<BBHHHQHHI", m["t"], m["flags"], 24 + len(ex) + len(d), m["dev"], m["cap"], m["base"], m["seg"], m["info"], m["feat"]) + ex + d


def fix(w):
    b = bytearray(w)
    b[9] = 0
    b[9] = -sum(b) & 0xFF
    return bytes(b)


def b_table(h, ms, n=None):
    body = b"".join(b_block(m) for m in ms)
    return fix(struct.pack("<4sIBB6s8sI4sIIQ", b"IVRS", 48 + len(body) if n is None else n, h["rev"], 0, h["oem"], h["tid"], h["orev"], h["cid"], h["crev"], h["ivinfo"], h["res"]) + body)


TAGS = {0: "Reserved", 1: "All", 2: "Select", 3: "Range", 66: "Alias Select", 67: "Alias Range", 70: "Extended Select", 71: "Extended Range", 72: "Special Device", 240: "Variable Length ACPI HID Device"}


def c_dte(o, m, e):
    same((o.Type, o.DeviceID, o.DTESetting, o.Length, o.Encode()), (m["t"], m["dev"], m["set"], len(b_dte(m)), b_dte(m)), "device entry")
    want = {"Type": m["t"], "DTESetting": m["set"]}
    text = [("Type", m["t"])]
    if "end" in m:
        want.update(StartofRange=m["dev"], EndofRange=m["end"])
        text += [("Start of Range", m["dev"]), ("End of Range", m["end"])]
        same(o.EndDeviceID, m["end"], "EndDeviceID")
    else:
        want.update(DeviceID=m["dev"])
        text.append(("Device ID", m["dev"]))
    text.append(("DTE Setting", m["set"]))
    if "src" in m:
        same(o.SourceDeviceID, m["src"], "SourceDeviceID")
        want["SourceDeviceID"] = m["src"]
        text.append(("Source Device ID", m["src"]))
    if "ext" in m:
        same(o.ExtendedDTESetting, m["ext"], "ExtendedDTESetting")
        want["ExtendedDTESetting"] = "ATS requests blocked" if m["ext"] >> 31 else "ATS allowed"
        text.append(("Extended DTE Setting", want["ExtendedDTESetting"]))
    if m["t"] == 72:
        same((o.Handle, o.Variety), (m["handle"], m["var"]), "special device")
        v = {1: "IOAPIC", 2: "HPET"}.get(m["var"])
        want.update(Handle=m["handle"], Variety=v or "Reserved %X" % m["var"])
        text += [("Handle", m["handle"]), ("Variety", v or "Reserved 0x%02X" % m["var"])]
    if m["t"] == 240:
        f, x = m["uid"]
        v = None if f == 0 else int.from_bytes(x, "little") if f == 1 else x
        same((o.HID, o.CID, o.UIDFormat, o.UIDLength, o.UID), (m["hid"], m["cid"], f, len(x), v), "ACPI device")
        want.update(HardwareID=str(m["hid"]), ExtendedDTESetting=str(m["cid"]), UniqueIDFormat=str(f), UniqueIDLength=str(len(x)), UniqueID="None" if f == 0 else v if f == 1 else str(v))
        text += [("Hardware ID", m["hid"].decode().strip()), ("Extended DTE Setting", m["cid"].decode().strip()), ("Unique ID Format", str(f)), ("Unique ID Length", str(len(x))), ("Unique ID", "None" if f == 0 else v if f == 1 else v.decode().strip())]
    same((e.tag, numbers(e)), (TAGS[m["t"]].replace(" ", ""), want), "XML of a device entry")
    return text


def compare(t, h, ms):
    w = b_table(h, ms)
    a = t.acpi_header
    same((a.Signature, a.Length, a.Revision, a.Checksum, a.OEMID, a.OEMTableID, a.OEMRevision, a.CreatorID, a.CreatorRevision, a.IVinfo, a.Reserved),
         (b"IVRS", len(w), h["rev"], w[9], h["oem"], h["tid"], h["orev"], h["cid"], h["crev"], h["ivinfo"], h["res"]), "header")
    same(t.Encode(), w, "encoded table")
    same(IVRS_TABLE.validateChecksum8(w), 0, "checksum")
    same(len(t.SubStructs), len(ms), "number of blocks")
    same([o.Encode() for o in t.IVMD_list], [b_block(m) for m in ms if "aux" in m], "memory blocks")
    same(t.IVRSBitEnabled(), bool(h["ivinfo"] & 2) and not any(m["t"] == 0x20 for m in ms), "DMA remap flag")
    x = list(wellformed(t.ToXmlElementTree()))
    same(len(x), 1 + len(ms), "XML elements")
    want = dict(Signature=str(b"IVRS"), Length=len(w), Revision=h["rev"], Checksum=w[9], OEMID=str(h["oem"]), OEMTableID=str(h["tid"]), OEMRevision=h["orev"], CreatorID=str(h["cid"]), CreatorRevision=h["crev"], IVinfo=h["ivinfo"])
    same(numbers(x[0]), want, "XML header")
    text = [("Signature", "IVRS"), ("Length", len(w)), ("Revision", h["rev"]), ("Checksum", w[9]), ("OEM ID", h["oem"].decode().strip()), ("OEM Table ID", h["tid"].decode().strip()), ("OEM Revision", h["orev"]),
            ("Creator ID", h["cid"].decode().strip()), ("Creator Revision", h["crev"]), ("IVinfo", h["ivinfo"])]
    for o, m, e in zip(t.SubStructs, ms, x[1:]):
        b = b_block(m)
        same((o.Type, o.Flags, o.Length, o.DeviceID, o.Encode()), (m["t"], m["flags"], len(b), m["dev"], b), "block")
        if "aux" in m:
            same((o.AuxiliaryData, o.Reserved, o.IVMDStartAddress, o.IVMDMemoryBlockLength), (m["aux"], m["res"], m["start"], m["len"]), "memory block")
            same((e.tag, numbers(e)), ("IVMD", {"Type": m["t"], "Flags": m["flags"], "Length": 32, "DeviceID": m["dev"], "EndofRange" if m["t"] == 0x22 else "AuxiliaryData": m["aux"], "Reserved": m["res"],
                                                "IVMDStartAddress": m["start"], "IVMDMemoryBlockLength": m["len"]}), "XML of a memory block")
            text += [("Type", m["t"]), ("Flags", m["flags"]), ("Length", 32), ("DeviceID", m["dev"]), ("AuxiliaryData", m["aux"]), ("Reserved", m["res"]), ("IVMD Start Address", m["start"]), ("IVMD Memory Block Length", m["len"])]
            continue
        same((o.CapabilityOffset, o.IOMMUBaseAddress, o.SegmentGroup, o.IOMMUInfo, o.IOMMUFeatureInfo), (m["cap"], m["base"], m["seg"], m["info"], m["feat"]), "hardware block")
        want = {"Type": m["t"], "Flags": m["flags"], "Length": len(b), "IOMMUDeviceID": m["dev"], "CapabilityOffset": m["cap"], "IOMMUBaseAddress": m["base"], "SegmentGroup": m["seg"], "IOMMUInfo": m["info"], "IOMMUFeatureInfo": m["feat"]}
        if m["t"] != 0x10:
            same((o.IOMMUEFRImage, o.Reserved), (m["efr"], m["res"]), "extended hardware block")
            want["IOMMUEFRImage"] = m["efr"]
        same((e.tag, numbers(e)), ("IVHD", want), "XML of a hardware block")
        text += [("Type", m["t"]), ("Flags", m["flags"]), ("Length", len(b)), ("IOMMU Device ID", m["dev"]), ("Capability Offset", m["cap"]), ("IOMMU Base Address", m["base"]), ("Segment Group", m["seg"]), ("IOMMU Info", m["info"]),
                 ("IOMMU Feature Info", m["feat"])]
        same((len(o.DeviceTableEntries), len(e)), (len(m["dtes"]),) * 2, "device entries")
        for p, q, f in zip(o.DeviceTableEntries, m["dtes"], e):
            text += c_dte(p, q, f)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        t.DumpInfo()
    same(lines(out.getvalue()), text, "printed table")


def build(t, ms):
    made = {}  # equal blocks and entries are one object that is added several times
    for m in ms:
        b = b_block(m)
        if "aux" in m:
            t.addIVMDEntry(made.setdefault(b, IVRS_TABLE.IVMD_STRUCT(b)))
            continue
        if b not in made:
            made[b] = o = IVRS_TABLE.IVHD_STRUCT(b_block(dict(m, dtes=[])))
            for d in m["dtes"]:
                o.addDTEEntry(made.setdefault(b_dte(d), IVRS_TABLE.DEVICE_TABLE_ENTRY.Factory(b_dte(d))))
        t.addIVHDEntry(made[b])


@CHECK.sub("tables", st.tuples(table, table, st.integers(0, 9)), quick=700, thorough=40000, shards=2)
def tables(case, ctx):
    (h, ms), (h2, ms2), n = case
    if ms and n % 3 == 0:
        m = ms[n % len(ms)]
        ms = ms + [dict(m, dtes=m["dtes"] + m["dtes"][:2]) if n % 2 and "dtes" in m else m, m]
    w = b_table(h, ms)
    t = IVRS_TABLE(w)
    compare(t, h, ms)
    t.Decode(b_table(h2, ms2))
    compare(t, h2, ms2)
    k = n % (len(ms) + 1)
    t = IVRS_TABLE(b_table(h, ms[:k]))
    build(t, ms[k:])
    compare(t, h, ms)
    hs = [m for m in ms if "dtes" in m]
    if len(hs) > 1:
        o = IVRS_TABLE.IVHD_STRUCT(b_block(hs[0]))
        o.Decode(b_block(hs[1]))
        same(o.Encode(), b_block(hs[1]), "hardware block decoded by an object that held another")
    ctx.nontrivial(len(ms) >= 2 and any(len(m.get("dtes", [])) >= 2 for m in ms))
    ctx.label(f"{len(ms)} blocks", *sorted({f"entry {d['t']}" for m in ms for d in m.get("dtes", [])}))


BAD = (Exception, SystemExit)


@CHECK.sub("damaged", st.tuples(table, st.one_of(ivhd, ivhd, ivmd), st.sampled_from(["cut", "sum", "length", "type", "block length", "entry", "range", "info"]), st.integers(0, 9999)), quick=700, thorough=40000, shards=2, cpu_limit=5)
def damaged(case, ctx):
    (h, ms), last, how, n = case
    ms = ms + [last]
    w = b_table(h, ms)
    b = b_block(last)
    start = w[:len(w) - len(b)]
    if how == "cut":
        w = w[:n % len(w)]
        w = fix(w) if len(w) > 9 and n & 1 else w
    elif how == "sum":
        x = bytearray(w)
        x[n % len(w)] ^= 1 << n % 8
        w = bytes(x)
    elif how == "length":
        w = b_table(h, ms, n=(0, 48, len(w) - 1, len(w) + 1, len(w) + 32, 0xFFFFFFFF)[n % 6] if len(w) != 48 else 49)
    elif how == "type":
        w = fix(start + bytes([(0, 1, 0x0F, 0x12, 0x1F, 0x23, 0x30, 0x41, 0xFF)[n % 9]]) + b[1:])
    elif how == "block length":
        v = (0, 1, 23, len(b) - 1, len(b) + 1, len(b) + 4, 0xFFFF)[n % 7]
        w = fix(start + b[:2] + struct.pack("<H", v) + b[4:])
    elif how == "entry":
        if "dtes" not in last:
            return
        e = bytes([(4, 5, 65, 68, 73, 200, 255)[n % 7]]) + bytes(3)
        w = fix(start + b[:2] + struct.pack("<H", len(b) + 4) + b[4:] + e)
        x = bytearray(w)
        struct.pack_into("<I", x, 4, len(w))
        w = fix(bytes(x))
    elif how == "range":
        r = [i for i, d in enumerate(last.get("dtes", [])) if "end" in d]
        if not r:
            return
        at = len(start) + (24 if last["t"] == 0x10 else 40) + sum(len(b_dte(d)) for d in last["dtes"][:r[-1] + 1]) - 4
        w = fix(w[:at] + b"\x02" + w[at + 1:])
    else:
        w = b_table(dict(h, ivinfo=h["ivinfo"] & ~0x1E), ms)
    rejects(IVRS_TABLE, w, exc=BAD, what=f"table with a wrong {how}")
    ctx.nontrivial(len(ms) >= 2)
    ctx.label(how)
