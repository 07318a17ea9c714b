"""P27: device paths."""
import base64
import json
import struct
import uuid

from edk2toollib.uefi.device_path import DevicePathFactory
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Device paths decode node by node into what their bytes say",
    statement="A binary UEFI device path of any number of nodes, in one or several instances, decodes into one object per node in order, each naming the type and subtype the specification gives and its length, with every field of the nodes that are understood equal to the bytes of that node alone, and with the raw bytes of every other node, known or unknown, kept. The printed form of a node is the JSON of those values. A node whose length is impossible or runs past the data is refused.",
    over=["inputs"],
    text="every sequence of nodes, type, subtype, length and content",
    why="The tests decode four captured paths; half of the node kinds and every unknown type are never decoded.",
    files=["edk2toollib/uefi/device_path.py"],
    mechanism=[("walking the nodes", "DevicePathFactory.from_binary"), ("types", "DEVICE_PATH_TYPES, DEVICE_PATH_SUBTYPES"), ("node layouts", "from_binary and __dict__ of each node class")],
    technique="property-based testing: decoding against an independent encoder of the UEFI node layouts",
    note="understood nodes have the length their layout gives; file paths are valid UTF-16",
)
CHECK = Check("P27", "at least three nodes of at least two kinds")


def u(bits):
    return st.one_of(st.sampled_from([0, 1, (1 << bits) - 1, 1 << (bits - 1)]), st.integers(0, (1 << bits) - 1))


def kind(t, s, name, fmt, strats, show):
    return st.tuples(*strats).map(lambda v: (t, s, name, fmt(*v), show(*v)))


def packer(fmt):
    return lambda *v: struct.pack("<" + fmt, *v)


def ip(b):
    return ".".join(str(x) for x in b)


text = st.text(st.characters(codec="utf-16", exclude_characters="\0"), max_size=12)
b4, b16, b32 = (st.binary(min_size=n, max_size=n) for n in (4, 16, 32))
KNOWN = [
    kind(1, 1, "Hardware / PCI", packer("BB"), (u(8), u(8)), lambda f, d: {"Function": f, "Device": d}),
    kind(1, 2, "Hardware / PCCARD", packer("B"), (u(8),), lambda f: {"FunctionNumber": f}),
    kind(2, 1, "ACPI / ACPI HID", packer("II"), (u(32), u(32)), lambda h, i: {"HID": f"{h:X}", "UID": f"{i:X}"}),
    kind(3, 5, "Messaging / USB", packer("BB"), (u(8), u(8)), lambda p, i: {"ParentPortNumber": p, "InterfaceNumber": i}),
    kind(3, 11, "Messaging / MAC Address", packer("32sB"), (b32, u(8)), lambda a, t: {"MacAddress": {"Addr": ":".join(f"{x:02X}" for x in a)}, "IfType": t}),
    kind(3, 12, "Messaging / IPv4", packer("4s4sHHHB4s4s"), (b4, b4, u(16), u(16), u(16), st.integers(0, 1), b4, b4),
         lambda l, r, lp, rp, p, s, g, m: {"LocalIpAddress": ip(l), "RemoteIpAddress": ip(r), "LocalPort": lp, "RemotePort": rp, "Protocol": p, "StaticIpAddress": bool(s), "GatewayIpAddress": ip(g), "SubnetMask": ip(m)}),
    kind(3, 18, "Messaging / SATA", packer("HHH"), (u(16), u(16), u(16)), lambda h, p, l: {"HBAPortNumber": h, "PortMultiplierPortNumber": p, "Lun": l}),
    kind(4, 1, "Media / Hard Drive", packer("IQQ16sBB"), (u(32), u(64), u(64), b16, u(8), u(8)),
         lambda n, s, z, g, m, t: {"PartitionNumber": n, "PartitionStart": s, "PartitionSize": z, "Signature": g.hex().upper(), "MBRType": m, "SignatureType": t}),
    kind(4, 4, "Media / File Path", lambda s: s.encode("utf-16-le") + b"\0\0", (text,), lambda s: {"PathName": s}),
    kind(4, 6, "Media / PIWG Firmware File", packer("16s"), (b16,), lambda g: {"FvFileName": str(uuid.UUID(bytes_le=g)).upper()}),
    kind(4, 7, "Media / PIWG Firmware Volume", packer("16s"), (b16,), lambda g: {"FvName": str(uuid.UUID(bytes_le=g)).upper()}),
    kind(4, 8, "Media / Relative Offset Range", packer("IQQ"), (u(32), u(64), u(64)), lambda r, s, e: {"Reserved": r, "StartingOffset": s, "EndingOffset": e}),
]
RAW = {
    1: ("Hardware", {3: "Memory Mapped", 4: "Vendor", 5: "Controller", 6: "BMC"}, (1, 2)),
    2: ("ACPI", {2: "ACPI Extended HID"}, (1,)),
    3: ("Messaging", {1: "ATAPI", 2: "SCSI", 3: "Fibre Channel", 4: "1394", 6: "I2O", 9: "InfiniBand", 10: "Vendor", 13: "IPv6", 14: "UART", 15: "USB Class", 16: "USB WWID", 17: "Device Logical Unit", 19: "iSCSI",
                      20: "VLAN", 21: "Fibre Channel Extended", 22: "SAS Extended", 24: "URI", 25: "UFS", 26: "SD"}, (5, 11, 12, 18, 23)),
    4: ("Media", {2: "CD-ROM", 3: "Vendor", 5: "Protocol"}, (1, 4, 6, 7, 8)),
    5: ("BIOS Boot Specification", {1: "BIOS Boot Specification"}, ()),
}


@st.composite
def raw(draw):
    t = draw(st.one_of(st.sampled_from([1, 2, 3, 4, 5]), st.integers(0, 255).filter(lambda t: t != 0x7F)))
    name, subs, done = RAW.get(t, (None, {}, ()))
    s = draw(st.one_of(st.sampled_from(sorted(subs) or [0, 255]), st.integers(0, 255)).filter(lambda s: s not in done))
    d = draw(st.one_of(st.binary(max_size=24), st.integers(0x7FF0, 0x8010).map(lambda n: b"\x5a" * n), st.just(b"\xa5" * 0xFFFB)) if draw(st.integers(0, 15)) == 0 else st.binary(max_size=24))
    return (t, s, (name, subs.get(s)), d, None)


end = st.sampled_from([0xFF, 0xFF, 0x01]).map(lambda s: (0x7F, s, None, b"", None))
node = st.one_of(st.one_of(*KNOWN), st.one_of(*KNOWN), raw(), raw(), st.binary(min_size=1, max_size=17).map(lambda d: (3, 0x17, "nvme", d, None)), end)


def encode(n):
    return struct.pack("<BBH", n[0], n[1], 4 + len(n[3])) + n[3]


def one(o, n):
    t, s, name, data, shown = n
    same((o.dev_type, o.dev_subtype, o.dev_length, bytes(o.dev_data)), (t, s, 4 + len(data), data), "header")
    d = o.__dict__()
    j = json.loads(str(o))
    same(j, json.loads(json.dumps(d)), "printed form")
    if t == 0x7F:
        same(d, {"type": "End of Hardware", "subtype": "End of Hardware", "length": 4}, "end node")
        return
    same(len(d), 1, "names of a node")
    (label, v), = d.items()
    h = v["Header"]
    same((f"{h['type']} / {h['subtype']}", h["length"]), (label, 4 + len(data)), "described header")
    if shown is not None:
        same(label, name, "name")
        got = {k: x for k, x in v.items() if k != "Header"}
        if "IfType" in shown and isinstance(got.get("IfType"), tuple):
            got["IfType"], = got["IfType"]  # the tests pin this spelling
        if shown.get("StaticIpAddress") is False:
            got.pop("StaticIpAddress", None)  # known finding
            shown = {k: x for k, x in shown.items() if k != "StaticIpAddress"}
        same(got, shown, label)
    elif name == "nvme":
        same(label, "Messaging / NVMe Namespace", "name")
        same(bytes([v["NamespaceIdType"]]) + bytes.fromhex(v["NamespaceId"]), data, "bytes of an NVMe namespace")  # known finding: not the layout of this node
    else:
        same(base64.b64decode(v["data"]), data, "raw bytes")
        if name[0]:
            same(h["type"], name[0], "type of an unimplemented node")
        if name[1]:
            same(h["subtype"], name[1], "subtype of an unimplemented node")


@CHECK.sub("paths", st.lists(node, max_size=8), quick=1800, thorough=80000)
def paths(case, ctx):
    w = b"".join(encode(n) for n in case)
    got = DevicePathFactory.from_binary(w)
    same(len(got), len(case), "number of nodes")
    for o, n in zip(got, case):
        one(o, n)
    ctx.nontrivial(len(case) >= 3 and len({(n[0], n[1]) for n in case}) > 1)
    for n in case:
        ctx.label(n[2] if isinstance(n[2], str) else "end" if n[0] == 0x7F else "raw known" if n[2][1] else "raw unknown subtype" if n[2][0] else "raw unknown type")


@CHECK.sub("damaged", st.tuples(st.lists(node, max_size=3), node, st.integers(0, 9999)), quick=700, thorough=40000)
def damaged(case, ctx):
    ns, last, k = case
    w = b"".join(encode(n) for n in ns)
    e = encode(last)
    cut = e[:1 + k % (len(e) - 1)]
    rejects(DevicePathFactory.from_binary, w + cut, what=f"node cut to {len(cut)} of {len(e)} bytes")
    for n in range(4):
        rejects(DevicePathFactory.from_binary, w + e[:2] + struct.pack("<H", n) + e[4:], exc=ValueError, what=f"node of length {n}")
    n = len(e) + 1 + k % max(1, 0xFFFF - len(e))
    if n <= 0xFFFF:
        rejects(DevicePathFactory.from_binary, w + e[:2] + struct.pack("<H", n) + e[4:], what=f"node of length {n} in {len(e)} bytes")
    ctx.nontrivial(len(ns) >= 2)


@CHECK.finding("P27-static-address")
def static():
    o, = DevicePathFactory.from_binary(struct.pack("<BBH", 3, 12, 27) + bytes(23))
    return "an IPv4 node whose StaticIPAddress byte is 0 is described as having a static address" if o.static_ip_address else None


@CHECK.finding("P27-nvme")
def nvme():
    d = DevicePathFactory.from_binary(struct.pack("<BBHIQ", 3, 0x17, 16, 1, 0x1122334455667788))[0].__dict__()
    v, = d.values()
    return "an NVMe namespace node (32-bit namespace, 64-bit EUI) is described with the NVMe-oF layout" if "NamespaceIdType" in v else None
