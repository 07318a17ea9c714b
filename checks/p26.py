"""P26: variable attributes and variable policy entries."""
import io
import struct
import uuid

from edk2toollib.uefi.edk2.variable_policy import VariableLockOnVarStatePolicy, VariablePolicyEntry
from edk2toollib.uefi.uefi_multi_phase import EfiVariableAttributes
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Variable attributes and policies convert exactly between their forms",
    statement="Every set of UEFI variable attributes has one value, one long and one short textual form and one encoding, and converting between them in any direction, with any order, case and spacing of the names, gives the same set; unknown names and types are refused. A buffer of variable policy entries decodes entry by entry into exactly the fields, names and lock-on-state data it holds, leaving the rest of the buffer, whatever an object decoded before; the textual and CSV rows show those values. Entries that are damaged or cut short are refused.",
    over=["inputs", "histories"],
    text="every attribute value and spelling, every sequence of policy entries and truncation",
    why="The tests decode one policy and spell three attribute sets; stale fields need a second, different entry.",
    files=["edk2toollib/uefi/uefi_multi_phase.py", "edk2toollib/uefi/edk2/variable_policy.py"],
    mechanism=[("attributes", "EfiVariableAttributes.parse_attributes_str / get_short_string / __str__ / decode / encode"), ("policies", "VariablePolicyEntry.decode / csv_row, VariableLockOnVarStatePolicy.decode")],
    technique="property-based testing: round trips and an independent byte-level model; metamorphic respellings",
    note="attribute text names at least one attribute; policy names have no NUL",
)
CHECK = Check("P26", "at least two attributes are named, or two policy entries of different lock types follow each other")

NAMES = [("NV", "NON_VOLATILE", 1), ("BS", "BOOTSERVICE_ACCESS", 2), ("RT", "RUNTIME_ACCESS", 4), ("HW", "HARDWARE_ERROR_RECORD", 8), ("AW", "AUTHENTICATED_WRITE_ACCESS", 16),
         ("AT", "TIME_BASED_AUTHENTICATED_WRITE_ACCESS", 32), ("AP", "APPEND_WRITE", 64)]


def u(bits):
    return st.one_of(st.sampled_from([0, 1, (1 << bits) - 1, 1 << (bits - 1)]), st.integers(0, (1 << bits) - 1))


picks = st.lists(st.tuples(st.integers(0, 6), st.booleans(), st.sampled_from(["u", "l", "m"]), st.sampled_from(["", " ", "  "]), st.sampled_from(["", " "])), min_size=1, max_size=8)


class Flags(int):
    """A platform's own type for attributes."""


def shorts(v):
    return ",".join(s for s, _, b in reversed(NAMES) if v & b)


def longs(v):
    return ",".join("EFI_VARIABLE_" + n for _, n, b in reversed(NAMES) if v & b)


@CHECK.sub("attributes", st.tuples(u(32), picks, st.sampled_from(["", "X", "EFI_VARIABLE_", "NVBS", "NV;BS", "NON_VOLATILE", "0x7", "None"]), st.integers(0, 9)), quick=1500, thorough=60000)
def attributes(case, ctx):
    v, ps, bad, at = case
    for n in (v, v & 0x7F):
        o = EfiVariableAttributes(n)
        same((int(o), o.attributes, str(o), o.get_short_string(), o.encode()), (n, n, longs(n), shorts(n), struct.pack("<I", n)), "forms")
        f = io.BytesIO(b"ab" + o.encode() + b"cd")
        f.seek(2)
        d = EfiVariableAttributes(decodefs=f)
        same((int(d), f.tell()), (n, 6), "decoded at construction")
        f.seek(2)
        d = EfiVariableAttributes(0x55)
        same((d.decode(f), int(d), f.tell()), (n, n, 6), "decoded")
        if n & 0x7F:
            for t in (str(o), o.get_short_string()):
                same(int(EfiVariableAttributes(t)), n & 0x7F, "parsed back")
                d.update(t)
                same(int(d), n & 0x7F, "updated from text")
                same(EfiVariableAttributes.parse_attributes_str(t), n & 0x7F, "parse_attributes_str")
    same(int(EfiVariableAttributes(Flags(v))), v, "attributes of an integer type")
    words, want = [], 0
    for i, full, case_, a, b in ps:
        s, n, bit = NAMES[i]
        w = "EFI_VARIABLE_" + n if full else s
        w = w if case_ == "u" else w.lower() if case_ == "l" else w.capitalize()
        words.append(a + w + b)
        want |= bit
    o = EfiVariableAttributes(",".join(words))
    same((int(o), str(o), o.get_short_string()), (want, longs(want), shorts(want)), "respelled")
    words.insert(at % (len(words) + 1), bad)
    rejects(EfiVariableAttributes, ",".join(words), exc=ValueError, what="an unknown attribute")
    rejects(o.update, ",".join(words), exc=ValueError, what="an unknown attribute")
    for t in (None, 1.0, b"NV", ["NV"]):
        rejects(o.update, t, exc=TypeError, what=f"attributes of type {type(t)}")
    same(int(o), want, "attributes after refused updates")
    for n in range(4):
        rejects(EfiVariableAttributes, decodefs=io.BytesIO(bytes(n)), what=f"{n} bytes of attributes")
    ctx.nontrivial(len(set(p[0] for p in ps)) > 1)
    ctx.label(f"{min(len(ps), 4)} names")


uname = st.one_of(st.sampled_from(["EOD", "LastAttemptStatus", "\ufeffA", "\ufffeB"]), st.text(st.characters(codec="utf-16", exclude_characters="\0"), min_size=1, max_size=8))
guid = st.sampled_from(range(4)).map(lambda i: uuid.UUID(int=0x1020304050607080 * (i + 1) << 7))
entry = st.fixed_dictionaries({
    "ns": guid, "min": u(32), "max": u(32), "must": u(32), "cant": u(32), "lock": st.sampled_from([0, 1, 2, 3, 3]), "res": st.binary(min_size=3, max_size=3),
    "name": st.one_of(st.none(), uname), "sns": guid, "value": u(8), "sname": uname, "sres": u(8), "slack": st.sampled_from([b"", b"", b"\0\0", b"zz"]),
})


def z(s):
    return s.encode("utf-16-le") + b"\0\0"


def state(m):
    return m["sns"].bytes_le + bytes([m["value"], m["sres"]]) + z(m["sname"])


def encode(m):
    lock = state(m) if m["lock"] == 3 else b""
    name = z(m["name"]) if m["name"] is not None else b""
    off = 44 + len(lock) + len(m["slack"])
    return struct.pack("<IHH16sIIIIB3s", 0x10000, off + len(name), off, m["ns"].bytes_le, m["min"], m["max"], m["must"], m["cant"], m["lock"], m["res"]) + lock + m["slack"] + name


def check(o, m):
    same((o.Namespace, o.MinSize, o.MaxSize, o.AttributesMustHave, o.AttributesCantHave, o.LockPolicyType), (m["ns"], m["min"], m["max"], m["must"], m["cant"], m["lock"]), "fields")
    same(o.Name, m["name"], "Name")
    if m["lock"] == 3:
        same((o.LockPolicy.Namespace, o.LockPolicy.Value, o.LockPolicy.Name), (m["sns"], m["value"], m["sname"]), "lock on state")
    else:
        same(o.LockPolicy, None, "LockPolicy")
    w = ["NONE", "NOW", "ON_CREATE", "ON_VAR_STATE"][m["lock"]]
    for xref in (None, {}, {m["ns"]: "gMain"}, {m["sns"]: "gState"}, {uuid.UUID(int=5): "gOther"}):
        x = xref or {}
        st_ = [x.get(m["sns"], m["sns"]), m["sname"], m["value"]] if m["lock"] == 3 else ["N/A"] * 3
        row = [x.get(m["ns"], m["ns"]), m["name"], w] + st_ + ["0x%08X" % m["min"], "0x%08X" % m["max"], longs(m["must"]), longs(m["cant"])]
        same(o.csv_row(xref), row, "CSV row")
        same(len(o.csv_header()), len(row), "CSV columns")
    t = str(o)
    for part in [str(m["ns"]), str(m["name"]), "Min = 0x%08X" % m["min"], "Max = 0x%08X" % m["max"], "Must = 0x%08X" % m["must"], "Cant = 0x%08X" % m["cant"]] + ([str(m["sns"]), m["sname"], str(m["value"])] if m["lock"] == 3 else [w]):
        expect(part in t, f"{part!r} missing from {t!r}")


@CHECK.sub("policies", st.tuples(st.lists(entry, min_size=1, max_size=5), st.binary(max_size=9), st.booleans(), st.integers(0, 999)), quick=900, thorough=40000)
def policies(case, ctx):
    ms, rest, reuse, n = case
    ws = [encode(m) for m in ms]
    buf = b"".join(ws) + rest
    o = VariablePolicyEntry()
    for i, m in enumerate(ms):
        o = o if reuse else VariablePolicyEntry()
        buf = o.decode(buf)
        same(bytes(buf), b"".join(ws[i + 1:]) + rest, "rest of the buffer")
        check(o, m)
        s = VariableLockOnVarStatePolicy()
        s.decode(state(ms[0]))
        same(bytes(s.decode(state(m) + rest)), rest, "rest after the state")
        same((s.Namespace, s.Value, s.Name), (m["sns"], m["value"], m["sname"]), "state policy")
    m, w = ms[n % len(ms)], ws[n % len(ms)]
    for cut in {0, 1, 43, 44, len(w) - 1, n % len(w)} | {len(w) - 2}:
        if cut < len(w):
            rejects(VariablePolicyEntry().decode, w[:cut], what=f"policy cut to {cut} of {len(w)} bytes")
    for at, fmt, vals in ((0, "<I", (0, 1, 0x10001, 0x1000000)), (4, "<H", (0, 43, len(w) + 1, 0xFFFF)), (6, "<H", (0, 43, len(w) + 1, 0xFFFF)), (40, "<B", (4, 255))):
        b = bytearray(w)
        struct.pack_into(fmt, b, at, vals[n % len(vals)])
        rejects(VariablePolicyEntry().decode, bytes(b), exc=ValueError, what=f"policy with {vals[n % len(vals)]} at offset {at}")
    if m["lock"] == 3 and m["name"] is not None:  # the name of the state runs into the name of the variable
        b = bytearray(w)
        struct.pack_into("<H", b, 6, 44 + len(state(m)) - 2)
        rejects(VariablePolicyEntry().decode, bytes(b), exc=ValueError, what="policy whose state has no end")
    w = state(m)
    for cut in range(len(w)):
        rejects(VariableLockOnVarStatePolicy().decode, w[:cut], what=f"state cut to {cut} of {len(w)} bytes")
    ctx.nontrivial(any(a["lock"] != b["lock"] for a, b in zip(ms, ms[1:])))
    ctx.label("reused" if reuse else "fresh", f"{len(ms)} entries")
