"""P30: firmware policy blobs."""
import io
import re
import struct
import uuid

from edk2toollib.windows.policy.firmware_policy import FirmwarePolicy, PolicyString, PolicyValue, PolicyValueType, Reserved2, Rule
from pbt import Check, st
from pbt.core import expect, quiet, rejects, same

META = dict(
    title="Firmware policy blobs carry exactly the rules they are built from",
    statement="A firmware policy built from rules, a device policy and a device target serialises to the documented layout with exactly those rules in order, a rule already present being refused, and decoding any well-formed policy, with shared or unordered value table entries and from any stream position and through either parser, gives exactly the header, rules and values in it; serialising that again gives an equivalent policy. The printed form shows those values. Policies that are cut short, too new, or point outside themselves are refused.",
    over=["inputs", "histories"],
    text="every set of rules, every layout of the value table, every truncation of a policy",
    why="The tests decode three fixed blobs and build one policy whose strings are plain and whose rules are all different.",
    files=["edk2toollib/windows/policy/firmware_policy.py"],
    mechanism=[("building", "FirmwarePolicy.AddRule / SetDevicePolicy / SetDeviceTarget / Serialize"), ("decoding", "FirmwarePolicy.FromFileStream, Rule.FromFsAndVtBytes / FromFsAndVtOffset, PolicyString / PolicyValue FromBytes / FromFileStream"), ("rule equality", "Rule.__eq__")],
    technique="property-based testing: independent byte-level encoder and decoder as oracle, both parsers compared, damage generation",
    note="no Reserved1 entries, which the module says it does not support; values of unsupported types keep only their type",
)
CHECK = Check("P30", "a value table entry is shared or out of order, a duplicate rule is added, or a string is not plain ASCII")

FW = uuid.UUID("5AE6F808-8384-4EB9-A23A-0CCC1093E3DD")


def u(bits):
    return st.one_of(st.sampled_from([0, 1, (1 << bits) - 1, 1 << (bits - 1)]), st.integers(0, (1 << bits) - 1))


chars = st.characters(codec="utf-16")
text = st.one_of(st.sampled_from(["", "UEFI", "Policy", "Target", "Nonce", "DeviceID", "\U0001F600", "é\0x", "\ufeffUEFI", "Nul\0", "\0", " Policy ", "policy", "UEFI\0"]), st.text(chars, max_size=6))
value = st.one_of(st.tuples(st.just(0), text), st.tuples(st.just(2), u(32)), st.tuples(st.just(5), u(64)))
odd = st.tuples(st.sampled_from([1, 3, 4, 6, 7, 8, 9, 10, 11, 42, 0xFFFF]), st.just(None))
rule = st.tuples(st.one_of(st.sampled_from([0xEF100000, 0x81000000, 0]), u(32)), text, text, value)


def s_(t):
    b = t.encode("utf-16-le")
    return struct.pack("<H", len(b)) + b


def v_(v, nul=True):
    k, x = v
    return struct.pack("<H", k) + (s_(x) + (b"\0\0" if nul else b"") if k == 0 else struct.pack("<I", x) if k == 2 else struct.pack("<Q", x) if k == 5 else b"")


def obj(r):
    root, sub, name, (k, x) = r
    return Rule(RootKey=root, SubKeyName=PolicyString(String=sub), ValueName=PolicyString(String=name), Value=PolicyValue(valueType=PolicyValueType(Type=k), value=PolicyString(String=x) if k == 0 else x))


def seen(r):
    k = r.Value.GetValueType().Get()
    x = r.Value.value
    return r.RootKey, r.SubKeyName.String, r.ValueName.String, (k, x.String if k == 0 else x if k in (2, 5) else None)


def header(fmt, ver, pub, flags, nres, nrules):
    return struct.pack("<HI16sHIHH", fmt, ver, pub.bytes_le, 0, flags, nres, nrules)


def plain(rules):
    """The layout Serialize documents: every rule's three entries in order, nothing shared."""
    t, table = b"", b""
    for root, sub, name, v in rules:
        a, b = s_(sub), s_(name)
        t += struct.pack("<IIII", root, len(table), len(table) + len(a), len(table) + len(a) + len(b))
        table += a + b + v_(v)
    return t, table


def decode(b):
    """Independent decoder of a serialised policy without reserved entries."""
    fmt, ver, pub, r1, flags, r2, n = struct.unpack_from("<HI16sHIHH", b)
    same((r1, r2), (0, 0), "reserved counts")
    vt = 32 + 16 * n

    def string(o):
        n = struct.unpack_from("<H", b, vt + o)[0]
        expect(vt + o + 2 + n <= len(b), "string runs past the end")
        return b[vt + o + 2:vt + o + 2 + n].decode("utf-16-le")

    out = []
    for i in range(n):
        root, so, no, vo = struct.unpack_from("<IIII", b, 32 + 16 * i)
        k = struct.unpack_from("<H", b, vt + vo)[0]
        x = string(vo + 2) if k == 0 else struct.unpack_from("<I" if k == 2 else "<Q", b, vt + vo + 2)[0] if k in (2, 5) else None
        out.append((root, string(so), string(no), (k, x)))
    return (fmt, ver, uuid.UUID(bytes_le=pub), flags), out


def printed(p):
    with quiet():
        import contextlib
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            p.Print()
    return out.getvalue()


def near(r, n):
    """A different rule that is easily taken for this one."""
    root, sub, name, (k, x) = r
    t = [lambda s: s.swapcase(), lambda s: s + "\0", lambda s: s + " ", lambda s: s.strip(" \0"), lambda s: "\ufeff" + s][n // 7 % 5]
    if n % 7 == 0:
        return root, t(sub), name, (k, x)
    if n % 7 == 1:
        return root, sub, t(name), (k, x)
    if n % 7 == 2:
        return root, sub, name, ((k, t(x)) if k == 0 else (7 - k, x % 2 ** 32))
    if n % 7 == 3:
        return root, name, sub, (k, x)
    if n % 7 == 4:
        return root ^ 1 << n % 32, sub, name, (k, x)
    if n % 7 == 5:
        return root, sub + name[:1], name[1:], (k, x)
    return root, sub, name, (k, str(x) if k == 0 else x ^ 1 << n % 32)


target = st.dictionaries(st.sampled_from(["Manufacturer", "Product", "SerialNumber", "OEM_01", "OEM_02", "Ünit"]), text, max_size=4)
op = st.one_of(st.tuples(st.just("rule"), rule), st.tuples(st.just("rule"), rule), st.tuples(st.just("again"), st.integers(0, 9)), st.tuples(st.just("near"), st.tuples(st.integers(0, 9), st.integers(0, 99))), st.tuples(st.just("device"), u(64)), st.tuples(st.just("target"), st.tuples(target, st.one_of(st.none(), u(64)))), st.tuples(st.just("serialise"), st.none()), st.tuples(st.just("reload"), st.integers(0, 3)))


@CHECK.sub("build", st.lists(op, min_size=1, max_size=9), quick=900, thorough=40000)
def build(ops, ctx):
    p, model = FirmwarePolicy(), []
    vers = (2, 1, FW, 0)
    for what, x in ops:
        if what in ("rule", "again", "near"):
            if what == "again":
                if not model:
                    continue
                x = model[x % len(model)]
            elif what == "near":
                if not model:
                    continue
                x = near(model[x[0] % len(model)], x[1])
            new = x not in model
            same(p.AddRule(obj(x)), new, f"AddRule of {'a new' if new else 'a known'} rule {x!r}")
            if new:
                model.append(x)
            else:
                ctx.nontrivial()
        elif what == "device":
            p.SetDevicePolicy(x)
            r = (0xEF100000, "UEFI", "Policy", (5, x))
            if r not in model:
                model.append(r)
        elif what == "target":
            d, nonce = dict(x[0]), x[1]
            if nonce is not None:
                d["Nonce"] = nonce
            p.SetDeviceTarget(d)
            for k, y in d.items():
                r = (0xEF100000, "Target", k, (5 if k == "Nonce" else 0, y))
                if r not in model:
                    model.append(r)
        elif what == "reload":
            f = io.BytesIO()
            f.write(b"#" * x)
            p.SerializeToStream(f)
            f.seek(x)
            if x % 2:
                p = FirmwarePolicy(fs=f)
            else:
                p.FromFileStream(f, x == 0)
        t, table = plain(model)
        want = header(*vers, 0, len(model)) + t + table
        if what == "serialise":
            out = bytearray(b"kept")
            p.Serialize(out)
            same(bytes(out), b"kept" + want, "serialised")
            same((bytes(p.ValueTable), p.ValueTableSize, p.ValueTableOffset), (table, len(table), 32 + len(t)), "value table")
    same([seen(r) for r in p.Rules], model, "rules")
    same(p.RulesCount, len(model), "RulesCount")
    f = io.BytesIO()
    p.SerializeToStream(f)
    same(f.getvalue(), header(*vers, 0, len(model)) + b"".join(plain(model)), "serialised")
    same(decode(f.getvalue()), (vers, model), "independent decoding")
    ctx.nontrivial(any(not s.isascii() for r in model for s in (r[1], r[2])))
    ctx.label(f"{min(len(model), 6)} rules")


blob = st.fixed_dictionaries({
    "fmt": st.sampled_from([0, 1, 2, 2]), "ver": u(32), "pub": st.one_of(st.just(FW), st.uuids()), "flags": u(32),
    "res": st.lists(st.tuples(u(32), u(32), u(32)), max_size=3), "rules": st.lists(st.tuples(st.one_of(st.just(0xEF100000), u(32)), st.integers(0, 9), st.integers(0, 9), st.integers(0, 9)), max_size=6),
    "strings": st.one_of(st.lists(text, min_size=1, max_size=4), st.permutations(["UEFI", "Policy"]), st.permutations(["UEFI", "Policy"])), "values": st.lists(st.one_of(value, value, value, odd), min_size=1, max_size=4),
    "gap": st.binary(max_size=5), "nul": st.booleans(), "order": st.booleans(), "lead": st.integers(0, 5),
})


def assemble(m):
    """A policy whose rules share entries of a value table laid out in any order."""
    table, so, vo = m["gap"], [], []
    for kind in (0, 1) if m["order"] else (1, 0):
        for x in m["strings"] if kind == 0 else m["values"]:
            (so if kind == 0 else vo).append(len(table))
            table += (s_(x) if kind == 0 else v_(x, m["nul"])) + (m["gap"] if m["order"] else b"")
    t, model, ends = b"", [], [0]
    for root, a, b, c in m["rules"]:
        a, b, c = a % len(so), b % len(so), c % len(vo)
        t += struct.pack("<IIII", root, so[a], so[b], vo[c])
        v = m["values"][c]
        model.append((root, m["strings"][a], m["strings"][b], v))
        ends += [so[a] + len(s_(m["strings"][a])), so[b] + len(s_(m["strings"][b])), vo[c] + len(v_(v, False))]
    head = header(m["fmt"], m["ver"], m["pub"], m["flags"], len(m["res"]), len(m["rules"])) + b"".join(struct.pack("<III", *r) for r in m["res"])
    return head, t, table, model, max(ends)


def load(b, via, lead=0, o=None):
    f = io.BytesIO(b"#" * lead + b)
    f.seek(lead)
    if o is None and via:
        return FirmwarePolicy(fs=f)
    o = o or FirmwarePolicy()
    o.FromFileStream(f, via)
    return o


@CHECK.sub("decode", st.tuples(blob, blob, st.integers(0, 9999)), quick=900, thorough=40000)
def decode_blobs(case, ctx):
    first, m, n = case
    head, t, table, model, need = assemble(m)
    b = head + t + table
    old = b"".join(assemble(first)[:3])
    for via in (True, False):
        for o in (None, load(old, not via)):
            p = load(b, via, m["lead"], o)
            same((p.FormatVersion, p.PolicyVersion, p.PolicyPublisher, p.OptionFlags, p.Reserved1Count, p.Reserved1, p.Reserved2Count, p.RulesCount), (m["fmt"], m["ver"], m["pub"], m["flags"], 0, [], len(m["res"]), len(model)), "header")
            same([(r.ObjectType, r.Element, r.OffsetToValue) for r in p.Reserved2], m["res"], "reserved entries")
            same([seen(r) for r in p.Rules], model, f"rules, by {'bytes' if via else 'stream'}")
            same((bytes(p.ValueTable), p.ValueTableSize), (table, len(table)), "value table")
        if not m["res"]:
            out = bytearray()
            p.Serialize(out)
            same(decode(bytes(out)), ((m["fmt"], m["ver"], m["pub"], m["flags"]), model), "serialised again")
            same([seen(r) for r in load(bytes(out), via).Rules], model, "decoded again")
        check_print(printed(p), m, model)
        for x in {0, 31, 32, len(head) - 1, len(head), len(head) + len(t) - 1, len(head) + len(t) + need - 1, n % (len(b) + 1)}:
            if x < len(head) + len(t) + (need if model else 0):
                rejects(load, b[:x], via, what=f"policy cut to {x} of {len(b)} bytes")
                rejects(load, b[:x], via, m["lead"] * 9, what=f"policy cut to {x} of {len(b)} bytes, after others")
        for v in (3, 0x100, 0xFFFF):
            rejects(load, struct.pack("<H", v) + b[2:], via, what=f"format version {v}")
        for at in (28, 30):
            x = bytearray(b)
            x[at:at + 2] = b"\xff\xff"
            rejects(load, bytes(x), via, what="too many entries")
        for at in range(len(head), len(head) + len(t), 16):
            x = bytearray(b)
            struct.pack_into("<I", x, at + 4 * (1 + n % 3), len(table) + (0, 1, 0x7FFFFFFF)[n % 3])
            rejects(load, bytes(x), via, what="an offset past the value table")
    ents = [e for r in m["rules"] for e in (("s", r[1] % len(m["strings"])), ("s", r[2] % len(m["strings"])), ("v", r[3] % len(m["values"])))]
    ctx.nontrivial(len(set(ents)) < len(ents) or any(not s.isascii() for r in model for s in (r[1], r[2])))
    ctx.label(f"{min(len(model), 4)} rules", *{f"type {v[0]}" for _, _, _, v in model})


def check_print(t, m, model):
    """Every value of the policy is shown, in order."""
    want = ["FormatVersion: %x" % m["fmt"], "PolicyVersion: %x" % m["ver"], "PolicyPublisher: %s" % m["pub"], "OptionFlags: %x" % m["flags"], "Reserved2Count: %x" % len(m["res"]), "RulesCount: %x" % len(model)]
    for a, b, c in m["res"]:
        want += ["ObjectType: %x" % a, "Element: %x" % b, "ValueOffset: %x" % c]
    for root, sub, name, (k, x) in model:
        want += ["RootKey: %x" % root, "String: " + sub, "String: " + name, "ValueType: %d" % k]
        if k in (0, 2, 5):
            want.append("String: " + x if k == 0 else "Value: 0x%x" % x)
        if (root, sub, name) == (0xEF100000, "UEFI", "Policy") and k in (2, 5):
            want += [s for bit, s in ((1, "Clear UEFI Secure Boot Keys"), (2, "Clear the Trusted Platform Module (TPM)")) if x & bit]
    flat, at = re.sub(r" +", " ", t), 0
    for w in want:
        w = re.sub(r" +", " ", w)
        i = flat.find(w, at)
        expect(i >= 0, lambda: f"{w!r} missing, or out of order, in {t!r}")
        at = i + len(w)


@CHECK.sub("parts", st.tuples(rule, st.one_of(value, odd), st.binary(max_size=5), u(32), st.binary(min_size=12, max_size=12)), quick=900, thorough=30000)
def parts(case, ctx):
    r, v, lead, other, res = case
    for cls, w, get, want in ((PolicyString, s_(r[1]), lambda o: o.String, r[1]), (PolicyValueType, struct.pack("<H", v[0]), lambda o: o.Get(), v[0]), (PolicyValue, v_(v, False), lambda o: (o.valueType.Get(), o.value.String if v[0] == 0 else o.value if v[0] in (2, 5) else None), v)):
        for l in (b"", lead):
            b = l + w
            same(get(cls.FromBytes(b, len(l))), want, f"{cls.__name__} from bytes")
            for at in (0, len(b)):
                f = io.BytesIO(b)
                f.seek(at)
                o = cls.FromFileStream(f, len(l))
                same((get(o), f.tell()), (want, len(b)), f"{cls.__name__} from offset {len(l)} of a stream at {at}")
            f.seek(len(l))
            same(get(cls.FromFileStream(f)), want, f"{cls.__name__} from a stream")
            out = bytearray(l)
            o.Serialize(valueOut=out)
            same(bytes(out), b + (b"\0\0" if cls is PolicyValue and v[0] == 0 else b""), f"{cls.__name__} serialised")
        for n in range(len(w)):
            rejects(cls.FromBytes, w[:n], what=f"{cls.__name__} of {n} bytes")
            rejects(cls.FromFileStream, io.BytesIO(w[:n]), what=f"{cls.__name__} of {n} bytes")
    f = io.BytesIO(lead + res)
    f.seek(len(lead))
    o = Reserved2(fs=f, vtOffset=3)
    same((o.ObjectType, o.Element, o.OffsetToValue), struct.unpack("<III", res), "reserved entry")
    out = bytearray(lead)
    o.Serialize(ruleOut=out)
    same(bytes(out), lead + res, "reserved entry serialised")
    a = obj(r)
    root, sub, name, (k, x) = r
    for i, b in enumerate(((root ^ 1, sub, name, (k, x)), (root, sub + "x", name, (k, x)), (root, sub, "x" + name, (k, x)), (root, sub, name, (k, x + "y" if k == 0 else x ^ 1)), (root, sub, name, (2 if k == 5 else 5, other)), (root, sub, name, (0, "s%d" % other)))):
        expect(not (a == obj(b)) or b == r, f"rule {r!r} is equal to {b!r}")
    b = obj(r)
    b.OffsetToSubKeyName, b.OffsetToValue = 7, 9
    expect(a == b, f"rule {r!r} is not equal to an identical one")
    ctx.nontrivial(not (sub + name).isascii())
    ctx.label(f"type {v[0]}")
