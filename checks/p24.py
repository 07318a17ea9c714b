"""P24: firmware volume, file, working-block and variable headers round-trip."""
import io
import struct
import uuid

from edk2toollib.uefi.edk2 import ftw_working_block_format as FTW
from edk2toollib.uefi.edk2 import variable_format as VF
from edk2toollib.uefi import pi_firmware_volume as FV
from edk2toollib.uefi import uefi_multi_phase as UMP
from edk2toollib.uefi.pi_firmware_file import EfiFirmwareFileSystemHeader
from edk2toollib.uefi.pi_firmware_volume import EfiFirmwareVolumeExtHeader, EfiFirmwareVolumeHeader
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Firmware volume, file, FTW and variable headers round-trip exactly",
    statement="Firmware volume, firmware file, fault-tolerant-write and variable-store headers and variable records, plain and authenticated, read from any position of a file give every field the PI and EDK II layouts define, leave the file position where it was, and serialize back to the same bytes. A variable's name and data can be set to any value: its sizes, padding and serialized form follow, and reading it back gives the same variable. Wrong signatures and records cut short are refused. The GUIDs, marks and attribute flags these modules name have the values those specifications give, and a new variable starts out complete.",
    over=["inputs"],
    text="every field value, file position, variable name and data",
    why="The tests serialize a few constants; field order, width and padding errors need arbitrary values.",
    files=["edk2toollib/uefi/pi_firmware_volume.py", "edk2toollib/uefi/pi_firmware_file.py", "edk2toollib/uefi/edk2/ftw_working_block_format.py", "edk2toollib/uefi/edk2/variable_format.py", "edk2toollib/uefi/uefi_multi_phase.py"],
    mechanism=[("volume", "EfiFirmwareVolumeHeader.load_from_file / serialize"), ("file", "EfiFirmwareFileSystemHeader.load_from_file / serialize / get_size"),
               ("working block", "EfiFtwWorkingBlockHeader / EfiFtwWriteHeader / EfiFtwWriteRecord"), ("variables", "VariableStoreHeader / VariableHeader / AuthenticatedVariableHeader")],
    technique="property-based testing: round trips against an independent byte-level model",
    note="reserved bytes of variable records are zero; names do not begin with a byte-order mark and are valid Unicode",
)
CHECK = Check("P24", "the structure is at a non-zero position of the file, or the record has a name and unaligned data")


def u(bits):
    return st.one_of(st.sampled_from([0, 1, (1 << bits) - 1, 1 << (bits - 1)]), st.integers(0, (1 << bits) - 1))


guid = st.one_of(st.sampled_from([b"\x01" * 16, bytes(range(1, 17))]), st.binary(min_size=16, max_size=16))
pre = st.binary(max_size=9)
STORE = {"Var": uuid.UUID("ddcf3616-3275-4164-98b6-fe85707ffe7d"), "AuthVar": uuid.UUID("aaf32c78-947b-439a-a180-2e144ec37792")}
WB = uuid.UUID("9e58292b-7c68-497d-a0ce-6500fd9f1b95")

# name -> (class, struct format, [(attribute or None for the model only, strategy, to model value)])
KINDS = {
    "volume": (EfiFirmwareVolumeHeader, "<16s16sQ4sLHHHBBQQ",
               [("ZeroVector", guid), ("FileSystemGuid", guid), ("FvLength", u(64)), ("Signature", st.just(b"_FVH")), ("Attributes", u(32)), ("HeaderLength", u(16)), ("Checksum", u(16)),
                ("ExtHeaderOffset", u(16)), ("Reserved", u(8)), ("Revision", u(8)), ("Blockmap0", u(64)), ("Blockmap1", u(64))]),
    "file": (EfiFirmwareFileSystemHeader, "<16sHBBBBBB",
             [("FileSystemGuid", guid), ("Checksum", u(16)), ("Type", u(8)), ("Attributes", u(8)), ("Size0", u(8)), ("Size1", u(8)), ("Size2", u(8)), ("State", u(8))]),
    "working": (FTW.EfiFtwWorkingBlockHeader, "<16sLBBBBQ",
                [("Signature", st.just(WB.bytes_le)), ("Crc", u(32)), ("WorkingBlockValidFields", u(8)), ("Reserved1", u(8)), ("Reserved2", u(8)), ("Reserved3", u(8)), ("WriteQueueSize", u(64))]),
    "write": (FTW.EfiFtwWriteHeader, "<BBBB16sLQQ",
              [("StatusBits", u(8)), ("ReservedByte1", u(8)), ("ReservedByte2", u(8)), ("ReservedByte3", u(8)), ("CallerId", guid), ("ReservedUint32", u(32)), ("NumberOfWrites", u(64)), ("PrivateDataSize", u(64))]),
    "record": (FTW.EfiFtwWriteRecord, "<BBBBLQQQQ",
               [("StatusBits", u(8)), ("ReservedByte1", u(8)), ("ReservedByte2", u(8)), ("ReservedByte3", u(8)), ("ReservedUint32", u(32)), ("Lba", u(64)), ("Offset", u(64)), ("Length", u(64)), ("RelativeOffset", u(64))]),
    "store": (VF.VariableStoreHeader, "<16sLBBHL",
              [("Signature", st.sampled_from([g.bytes_le for g in STORE.values()])), ("Size", u(32)), ("Format", u(8)), ("State", u(8)), ("Reserved0", u(16)), ("Reserved1", u(32))]),
    "ext": (EfiFirmwareVolumeExtHeader, "<16sL", [("FileSystemGuid", guid), ("ExtHeaderSize", u(32))]),
}
head = st.sampled_from(sorted(KINDS)).flatmap(lambda k: st.tuples(st.just(k), st.tuples(*[s for _, s in KINDS[k][2]]), st.tuples(*[s for _, s in KINDS[k][2]])))


def norm(v):
    return v.bytes_le if isinstance(v, uuid.UUID) else v


def read(o, w, before, after):
    f = io.BytesIO(before + w + after)
    f.seek(len(before))
    same(o.load_from_file(f) is o, True, "load_from_file returns the object")
    same(f.tell(), len(before), "file position")
    return o


@CHECK.sub("headers", st.tuples(head, pre, pre), quick=1500, thorough=80000)
def headers(case, ctx):
    (k, vals, other), before, after = case
    cls, fmt, fields = KINDS[k]
    o = cls()
    for vs in (vals, other):
        w = struct.pack(fmt, *vs)
        read(o, w, before, after)
        for (n, _), v in zip(fields, vs):
            same((n, norm(getattr(o, n)) if k != "volume" or n != "Attributes" else getattr(o, n)), (n, v), "field")
        if k != "ext":
            same(o.serialize(), w, f"serialized {k}")
        if k == "file":
            d = dict(zip([n for n, _ in fields], vs))
            same(o.get_size(), int.from_bytes(bytes([d["Size0"], d["Size1"], d["Size2"]]), "little"), "get_size")
            expect(isinstance(o.FileSystemGuid, uuid.UUID), "GUID type")
        if k == "store":
            same(STORE[o.Type].bytes_le, vs[0], "store type")
            same(o.StructSize, len(w), "StructSize")
    w = struct.pack(fmt, *vals)
    for n in range(len(w)):
        rejects(cls().load_from_file, io.BytesIO(w[:n]), what=f"{n} bytes of a {k} header")
    if k in ("volume", "working", "store"):
        at = 40 if k == "volume" else 0
        for i in range(4 if k == "volume" else 16):
            b = bytearray(w)
            b[at + i] ^= 0x20
            rejects(cls().load_from_file, io.BytesIO(bytes(b)), what=f"{k} header with a wrong signature")
    ctx.nontrivial(len(before) > 0)
    ctx.label(k)


uname = st.one_of(st.sampled_from(["PK", "Boot0000", "db", "\ufeffA", "\ufffeB", "\ufeff", "A\0", "\0"]), st.text(st.characters(codec="utf-16"), max_size=10))
var = st.fixed_dictionaries({"auth": st.booleans(), "state": st.one_of(u(8), st.sampled_from([0x3F, 0x3D, 0x3C, 0x7F, 0xFD, 0xFE])), "attrs": u(32), "guid": guid, "name": uname, "data": st.binary(max_size=20), "mono": u(64), "time": guid, "pk": u(32)})


def b_var(m):
    n = m["name"].encode("utf-16-le") + b"\0\0"
    if m["auth"]:
        h = struct.pack("<HBBLQ16sLLL16s", 0x55AA, m["state"], 0, m["attrs"], m["mono"], m["time"], m["pk"], len(n), len(m["data"]), m["guid"])
    else:
        h = struct.pack("<HBBLLL16s", 0x55AA, m["state"], 0, m["attrs"], len(n), len(m["data"]), m["guid"])
    return h + n + m["data"]


def pad(w):
    return w + b"\xff" * (-len(w) % 4)


def o_var(m, cls=None):
    o = VF.AuthenticatedVariableHeader() if m["auth"] else VF.VariableHeader()
    o.State, o.Attributes, o.VendorGuid = m["state"], m["attrs"], uuid.UUID(bytes_le=m["guid"])
    o.set_name(m["name"])
    o.set_data(m["data"])
    if m["auth"]:
        o.MonotonicCount, o.TimeStamp, o.PubKeyIndex = m["mono"], m["time"], m["pk"]
    return o


def c_var(o, m):
    same((o.State, o.Attributes, o.VendorGuid.bytes_le, o.Name, bytes(o.Data)), (m["state"], m["attrs"], m["guid"], m["name"], m["data"]), "variable")
    same((o.NameSize, o.DataSize), (len(m["name"].encode("utf-16-le")) + 2, len(m["data"])), "sizes")
    if m["auth"]:
        same((o.MonotonicCount, bytes(o.TimeStamp), o.PubKeyIndex), (m["mono"], m["time"], m["pk"]), "authenticated fields")
    w = b_var(m)
    same(o.serialize(), w, "serialized")
    same(o.serialize(True), pad(w), "serialized with padding")
    same((o.get_buffer_data_size(), o.get_buffer_padding_size(), o.get_buffer_size()), (len(w), -len(w) % 4, len(pad(w))), "buffer sizes")


@CHECK.sub("variables", st.tuples(var, pre, pre, uname, st.binary(max_size=20)), quick=1500, thorough=80000)
def variables(case, ctx):
    m, before, after, name2, data2 = case
    cls = VF.AuthenticatedVariableHeader if m["auth"] else VF.VariableHeader
    w = b_var(m)
    c_var(o_var(m), m)
    c_var(read(cls(), w, before, after), m)
    o = cls()
    same(o.load_from_bytes(w + after) is o, True, "load_from_bytes returns the object")
    c_var(o, m)
    o.set_name(name2)
    c_var(o, dict(m, name=name2))
    o.set_data(data2)
    c_var(o, dict(m, name=name2, data=data2))
    ctx.nontrivial(len(m["name"]) > 0 and len(m["data"]) % 4 != 0)
    ctx.label("auth" if m["auth"] else "plain")


@CHECK.sub("damaged", st.tuples(var, st.sampled_from(["id", "trunc"]), st.integers(0, 9999)), quick=500, thorough=30000)
def damaged(case, ctx):
    m, how, n = case
    cls = VF.AuthenticatedVariableHeader if m["auth"] else VF.VariableHeader
    w = b_var(m)
    if how == "id":
        b = bytearray(w)
        b[n % 2] ^= 1 + (n >> 1) % 255
        w = bytes(b)
        rejects(cls().load_from_bytes, w, exc=EOFError, what="a record without the start mark")
        f = io.BytesIO(b"x" + w)
        f.seek(1)
        rejects(cls().load_from_file, f, exc=EOFError, what="a record without the start mark")
        same(f.tell(), 1, "file position after the refusal")
    else:
        w = w[:n % len(w)]
        rejects(cls().load_from_bytes, w, what=f"record cut short to {len(w)}")
        rejects(cls().load_from_file, io.BytesIO(w), what=f"record cut short to {len(w)}")
    ctx.nontrivial(len(m["data"]) > 0)
    ctx.label(how)


# what the PI specification and EDK II define, by the name this library gives it
NAMED = {
    (FV, "EfiSystemNvDataFvGuid"): uuid.UUID("fff12b8d-7696-4c8b-a985-2747075b4f50"), (FV, "EFI_FVH_SIGNATURE"): b"_FVH",
    (FTW, "EdkiiWorkingBlockSignatureGuid"): WB, (VF, "EfiVariableGuid"): STORE["Var"], (VF, "EfiAuthenticatedVariableGuid"): STORE["AuthVar"],
    (VF, "VARIABLE_STORE_FORMATTED"): 0x5A, (VF, "VARIABLE_STORE_HEALTHY"): 0xFE, (VF, "VARIABLE_DATA"): 0x55AA, (VF, "VAR_IN_DELETED_TRANSITION"): 0xFE,
    (VF, "VAR_DELETED"): 0xFD, (VF, "VAR_HEADER_VALID_ONLY"): 0x7F, (VF, "VAR_ADDED"): 0x3F,
    (UMP, "EFI_VARIABLE_NON_VOLATILE"): 1, (UMP, "EFI_VARIABLE_BOOTSERVICE_ACCESS"): 2, (UMP, "EFI_VARIABLE_RUNTIME_ACCESS"): 4, (UMP, "EFI_VARIABLE_HARDWARE_ERROR_RECORD"): 8,
    (UMP, "EFI_VARIABLE_AUTHENTICATED_WRITE_ACCESS"): 0x10, (UMP, "EFI_VARIABLE_TIME_BASED_AUTHENTICATED_WRITE_ACCESS"): 0x20, (UMP, "EFI_VARIABLE_APPEND_WRITE"): 0x40,
}


@CHECK.sub("fresh", st.tuples(st.booleans(), uname, st.binary(max_size=20), guid), quick=200, thorough=5000)
def fresh(case, ctx):
    """A variable of which only the name, namespace and data were set is a complete, non-volatile boot service variable."""
    auth, n, data, g = case
    for (mod, k), v in NAMED.items():
        same(getattr(mod, k), v, k)
    o = VF.AuthenticatedVariableHeader() if auth else VF.VariableHeader()
    expect(isinstance(o.VendorGuid, uuid.UUID) and o.VendorGuid != type(o)().VendorGuid, "two new variables have the same namespace")
    o.VendorGuid = uuid.UUID(bytes_le=g)
    o.set_name(n)
    o.set_data(data)
    c_var(type(o)().load_from_bytes(o.serialize()), {"auth": auth, "state": 0x3F, "attrs": 3, "guid": g, "name": n, "data": data, "mono": 0, "time": bytes(16), "pk": 0})
    ctx.nontrivial(len(n) > 0 and len(data) % 4 != 0)
    ctx.label("auth" if auth else "plain")
