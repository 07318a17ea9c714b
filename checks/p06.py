"""P06: GUID texts."""
import uuid

from checks.edkgen import c_guid
from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
from edk2toollib.uefi.edk2.parsers.guid_parser import GuidParser
from pbt import Check, expect, st
from pbt.core import rejects, same

META = dict(
    title="GUID texts convert without changing the GUID",
    statement="Every GUID written in C structure form or registry form, in any digit case, with any spacing, with short or padded fields and with or without braces around the registry form, is recognised as that form only, and all conversions between C text, registry text and GUID values name the same GUID. The declaration-line converter gives the canonical upper-case registry text for any C form. Text that is neither form is not recognised and yields the documented empty result or an error, never a different GUID.",
    over=["inputs"],
    text="all 2^128 GUID values in every accepted spelling, and arbitrary near-miss texts",
    why="The tests convert a few fixed GUIDs; zero bytes, short fields, prefixes and spacing combine in ways they do not sample.",
    files=["edk2toollib/uefi/edk2/parsers/guid_parser.py", "edk2toollib/uefi/edk2/parsers/base_parser.py"],
    mechanism=[("recognition and conversion", "GuidParser"), ("declaration GUIDs", "BaseParser.ParseGuid, BaseParser.IsGuidString")],
    technique="property-based testing: round trips against Python's uuid over generated GUIDs, spellings and mutations",
    note="spaces and tabs as separators",
)
CHECK = Check("P06", "the GUID has a zero byte or a short field, or the text is a near miss")

gbytes = st.one_of(st.binary(min_size=16, max_size=16), st.lists(st.sampled_from([0, 0, 1, 0x0A, 0x10, 0xFF, 0xA0]), min_size=16, max_size=16).map(bytes))


@CHECK.sub("convert", st.tuples(gbytes, st.integers(0, 63), st.sampled_from(["", " ", "\t", "  "]), st.integers(0, 3)), quick=3000, thorough=100000)
def convert(case, ctx):
    b, style, ws, regstyle = case
    u = uuid.UUID(bytes=b)
    c = ws + c_guid(str(u), style) + ws
    r0 = str(u)
    r = [r0, r0.upper(), "{" + r0 + "}", "{ " + r0.upper() + " }"][regstyle]
    r = ws + r + ws
    P = GuidParser
    expect(P.is_guid_in_c_format(c), f"{c!r} not recognised as C form")
    expect(not P.is_guid_in_reg_format(c), f"{c!r} recognised as registry form")
    expect(P.is_guid_in_reg_format(r), f"{r!r} not recognised as registry form")
    expect(not P.is_guid_in_c_format(r), f"{r!r} recognised as C form")
    same(P.reg_guid_from_c_format(c).lower(), r0, f"registry form of {c!r}")
    same(P.uuid_from_guidstring(c), u, f"value of {c!r}")
    same(P.uuid_from_guidstring(r), u, f"value of {r!r}")
    for cf in (P.c_guid_from_reg_format(r), P.c_guid_str_from_uuid(u)):
        expect(P.is_guid_in_c_format(cf), f"made {cf!r}, which is not C form")
        same(P.uuid_from_guidstring(cf), u, f"value of generated {cf!r}")
        same(P.reg_guid_from_c_format(cf).lower(), r0, "back to registry form")
        same(BaseParser("").ParseGuid(cf), r0.upper(), "declaration GUID of generated form")
    same(uuid.UUID(P.reg_guid_str_from_uuid(u)), u, "registry text of the value")
    same(BaseParser("").ParseGuid(c.strip()), r0.upper(), f"declaration GUID of {c!r}")
    expect(BaseParser("").IsGuidString("gName = " + c), "IsGuidString on a declaration")
    ctx.nontrivial(0 in b or any(x < 16 for x in b))


near = st.one_of(
    st.tuples(st.just("drop"), st.integers(0, 200)),
    st.tuples(st.just("dup"), st.integers(0, 200)),
    st.tuples(st.just("bad"), st.integers(0, 200)),
    st.tuples(st.just("head"), st.sampled_from(["0", "ab", "1234-", "x", "0x1, ", "junk ", "gGuid = "])),
    st.tuples(st.just("sep"), st.tuples(st.integers(0, 200), st.sampled_from(" .:;_/\\"))),
    st.tuples(st.just("cut"), st.integers(0, 200)),
    st.tuples(st.just("twice"), st.sampled_from(["", " ", ",", ", ", "-"])),
    st.tuples(st.just("tail"), st.sampled_from(["0", "ab", "-1234", "x", ", 0x1", " junk", ",", ", ", " ,;", "="])),
)


@CHECK.sub("nearmiss", st.tuples(gbytes, st.booleans(), st.integers(0, 7), near), quick=2000, thorough=60000)
def nearmiss(case, ctx):
    b, isreg, style, (kind, k) = case
    u = uuid.UUID(bytes=b)
    t = str(u) if isreg else c_guid(str(u), style & 3)  # full width fields, no spacing
    core = [i for i, ch in enumerate(t) if ch in "0123456789abcdefABCDEF" and not (ch == "0" and t[i + 1 : i + 2] in ("x", "X"))]
    punct = [i for i, ch in enumerate(t) if ch in "-,{}xX"]
    if kind == "tail":
        m = t + k
    elif kind == "head":
        m = k + t
    elif kind == "sep":
        seps = [i for i, ch in enumerate(t) if ch in "-,"]
        i = seps[k[0] % len(seps)]
        m = t[:i] + k[1] + t[i + 1 :]
    elif kind == "cut":
        m = t[: k % (len(t) - 1) + (0 if isreg else 1)].rstrip(" ") if k % 2 else t[1 + k % (len(t) - 2) :]
    elif kind == "twice":
        m = t + k + t
    elif kind == "bad":
        i = core[k % len(core)]
        m = t[:i] + "g" + t[i + 1 :]
    elif kind == "drop":
        # dropping a digit is only wrong in registry form (C fields may be short); dropping punctuation is wrong in both
        pos = core + punct if isreg else punct
        i = pos[k % len(pos)]
        m = t[:i] + t[i + 1 :]
    else:
        pos = core + punct
        i = pos[k % len(pos)]
        m = t[: i + 1] + t[i:]
    P = GuidParser
    ctx.nontrivial()
    ctx.label(kind, "reg" if isreg else "c")
    expect(not P.is_guid_in_reg_format(m), f"{m!r} recognised as registry form")
    expect(not P.is_guid_in_c_format(m), f"{m!r} recognised as C form")
    same(P.uuid_from_guidstring(m), None, f"value of {m!r}")
    same(P.reg_guid_from_c_format(m), "", f"registry form of {m!r}")
    same(P.c_guid_from_reg_format(m), "", f"C form of {m!r}")


@CHECK.sub("declbad", st.tuples(gbytes, st.sampled_from(["missing", "extra", "long"]), st.integers(0, 10)), quick=500, thorough=10000)
def declbad(case, ctx):
    b, kind, k = case
    parts = [x.strip(" {}") for x in c_guid(str(uuid.UUID(bytes=b)), 0).split(",")]
    if kind == "missing":
        del parts[k]
    elif kind == "extra":
        parts.insert(k, "0x11")
    else:
        parts[k] = "0x1" + parts[k][2:]
    t = "{ " + ", ".join(parts[:3]) + ", { " + ", ".join(parts[3:]) + " }}"
    ctx.nontrivial()
    rejects(BaseParser("").ParseGuid, t, what=repr(t))
