"""P20: certificate envelopes and authenticated variable descriptors decode and re-encode exactly."""
import datetime
import io
import struct
import uuid

from edk2toollib.uefi.authenticated_variables_structure_support import EfiTime, EfiVariableAuthentication2
from edk2toollib.uefi.wincert import WinCert, WinCertPkcs1, WinCertUefiGuid
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Certificate envelopes and signed-variable headers round-trip exactly",
    statement="A certificate envelope of either UEFI kind, a timestamp and an authenticated-variable descriptor with any payload decode from bytes or from a stream at any position to the fields the UEFI layout gives them, consume exactly their own bytes, and encode and write back the same bytes; the kind is chosen from the envelope itself. Certificate data set or replaced is reflected in the length field. Truncated data, lengths that do not cover the structure or exceed the data, and wrong revisions or types are refused.",
    over=["inputs", "histories"],
    text="every field value, certificate and payload, position in the stream and sequence of replacements",
    why="The tests round-trip one captured variable from offset zero; length and position errors need other offsets, trailing bytes and sizes.",
    files=["edk2toollib/uefi/wincert.py", "edk2toollib/uefi/authenticated_variables_structure_support.py"],
    mechanism=[("PKCS1 envelope", "WinCertPkcs1.decode / encode / add_cert_data"), ("GUID envelope", "WinCertUefiGuid.decode / encode / add_cert_data"),
               ("kind selection", "WinCert.factory"), ("timestamp", "EfiTime.decode / encode / from_binary"), ("descriptor", "EfiVariableAuthentication2.decode / encode / write / set_payload")],
    technique="property-based testing: round trips against an independent byte-level model, with damaged variants",
    note="timestamps are whole seconds without zone, as the UEFI specification requires in signed variables; the PKCS1 envelope carries at least one signature byte",
)
CHECK = Check("P20", "certificate and payload are both non-empty and the stream has other bytes around the structure")

PKCS7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7")
when = st.datetimes(min_value=datetime.datetime(1900, 1, 1), max_value=datetime.datetime(9999, 12, 31)).map(
    lambda d: (d.year, d.month, d.day, d.hour, d.minute, d.second))
big = st.tuples(st.sampled_from([231, 232, 255, 256, 257, 4096, 65511, 65512, 65535, 65536, 70000]), st.integers(0, 255)).map(lambda t: bytes((t[1] + i * 7) & 255 for i in range(t[0])))
nested = st.one_of(st.binary(max_size=9).map(lambda b: struct.pack("<IHH", 24 + len(b), 0x200, 0xEF1) + uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7").bytes_le + b), st.binary(min_size=1, max_size=9).map(lambda b: struct.pack("<IHH", 24 + len(b), 0x200, 0xEF0) + b"h" * 16 + b),
                   st.just(struct.pack("<H5BBIhBB", 2020, 1, 2, 3, 4, 5, 0, 0, 0, 0, 0)))  # looks like an envelope or a timestamp itself
blob = st.one_of(st.binary(max_size=40), st.binary(max_size=40), st.sampled_from([b"", b"\x00", b"abc", b"abcd"]), nested, big)
u16 = st.integers(0, 0xFFFF)
cert = st.one_of(st.tuples(st.just("guid"), blob), st.tuples(st.just("pkcs1"), u16, st.binary(min_size=16, max_size=16), blob.filter(len)))
pre = st.binary(max_size=9)


def b_cert(c):
    if c[0] == "guid":
        return struct.pack("<IHH", 24 + len(c[1]), 0x200, 0xEF1) + PKCS7.bytes_le + c[1]
    return struct.pack("<IHH", 24 + len(c[3]), c[1], 0xEF0) + c[2] + c[3]


def b_time(t):
    return struct.pack("<H5BBIhBB", *t, 0, 0, 0, 0, 0)


def c_cert(o, c):
    if c[0] == "guid":
        expect(isinstance(o, WinCertUefiGuid), f"kind {type(o)}")
        same((o.Hdr_dwLength, o.Hdr_wRevision, o.Hdr_wCertificateType, o.cert_type, bytes(o.cert_data)), (24 + len(c[1]), 0x200, 0xEF1, PKCS7, c[1]), "GUID envelope")
        same((o.get_length(), bytes(o.get_certificate())), (24 + len(c[1]), c[1]), "accessors")
    else:
        expect(isinstance(o, WinCertPkcs1), f"kind {type(o)}")
        same((o.Hdr_dwLength, o.Hdr_wRevision, o.Hdr_wCertificateType, o.hash_algorithm.bytes_le, bytes(o.cert_data)),
             (24 + len(c[3]), c[1], 0xEF0, c[2], c[3]), "PKCS1 envelope")


def written(o):
    f = io.BytesIO()
    o.write(f)
    return f.getvalue()


@CHECK.sub("envelope", st.tuples(cert, pre, blob), quick=1200, thorough=60000)
def envelope(case, ctx):
    c, before, after = case
    w = b_cert(c)
    for make in (lambda f: WinCert.factory(f), lambda f: (WinCertUefiGuid if c[0] == "guid" else WinCertPkcs1)(f)):
        f = io.BytesIO(before + w + after)
        f.seek(len(before))
        o = make(f)
        c_cert(o, c)
        same(f.tell(), len(before) + len(w), "stream position")
        same(bytes(o.encode()), w, "encode")
        same(written(o), w, "write")
    if c[0] == "guid":
        o = WinCertUefiGuid()
        same(bytes(o.decode(w + after)), after, "remaining bytes")
        c_cert(o, c)
        same(bytes(o.encode()), w, "encode after decoding bytes")
    ctx.nontrivial(len(c[-1]) > 0 and len(before) > 0 and len(after) > 0)
    ctx.label(c[0])


@CHECK.sub("replace", st.tuples(st.lists(st.tuples(st.booleans(), blob, pre), min_size=1, max_size=4), st.one_of(st.none(), blob)), quick=300, thorough=15000)
def replace(case, ctx):
    """Certificate data set again and again, as bytes or from a stream, after a decode or not."""
    steps, start = case
    o = WinCertUefiGuid()
    same(o.get_length(), 24, "length of an empty envelope")
    if start is not None:
        o.decode(b_cert(("guid", start)))
    for stream, d, skip in steps:
        if len(skip) % 3 == 2:
            # the length that counts is the one of the data the envelope holds when it is encoded
            o.cert_data = d
            same(bytes(o.encode()), b_cert(("guid", d)), "encode after the data itself was replaced")
        elif stream:
            f = io.BytesIO(skip + d)
            f.seek(len(skip))
            o.add_cert_data(f)
        else:
            o.add_cert_data(d)
        same(o.get_length(), 24 + len(d), "length after the data was set")
        c_cert(o, ("guid", d))
        same(bytes(o.encode()), b_cert(("guid", d)), "encode")
    rejects(o.add_cert_data, None, exc=ValueError)
    ctx.nontrivial(len(steps) > 1)


@CHECK.sub("pkcs1_build", st.tuples(st.binary(min_size=16, max_size=16), blob.filter(len), pre), quick=200, thorough=8000)
def pkcs1_build(case, ctx):
    g, d, skip = case
    o = WinCertPkcs1()
    rejects(o.add_cert_data, io.BytesIO(d), exc=ValueError, what="signature without a hash algorithm")
    o.set_hash_algorithm(uuid.UUID(bytes_le=g))
    f = io.BytesIO(skip + d)
    f.seek(len(skip))
    o.add_cert_data(f)
    c = ("pkcs1", 0x200, g, d)
    c_cert(o, c)
    same(bytes(o.encode()), b_cert(c), "encode")
    rejects(o.add_cert_data, io.BytesIO(d), exc=ValueError, what="a second signature")
    same(bytes(o.encode()), b_cert(c), "encode after the refused addition")
    out = io.StringIO()
    o.print(out)
    expect(f"0x{24 + len(d):X}" in out.getvalue() and str(uuid.UUID(bytes_le=g)) in out.getvalue(), "report lacks the length or the hash")
    ctx.nontrivial(len(skip) > 0)


@CHECK.sub("time", st.tuples(when, pre, blob), quick=400, thorough=20000)
def time_(case, ctx):
    t, before, after = case
    w = b_time(t)
    d = datetime.datetime(*t)
    e = EfiTime(time=d)
    same(e.encode(), w, "encode")
    f = io.BytesIO(before + w + after)
    f.seek(len(before))
    e2 = EfiTime(decodefs=f)
    same((e2.get_datetime(), f.tell()), (d, len(before) + 16), "decoded time")
    same(e2.encode(), w, "encode after decode")
    same(written(e2), w, "write")
    same(EfiTime.from_binary(w).get_datetime(), d, "from_binary")
    same(EfiTime.from_binary(w + after).get_datetime(), d, "from_binary with following data")
    same(str(e2), str(e), "text")
    for n in range(16):
        rejects(EfiTime.from_binary, w[:n], what=f"{n} bytes of a timestamp")
        rejects(EfiTime, decodefs=io.BytesIO(w[:n]), what=f"{n} bytes of a timestamp")
    ctx.nontrivial(len(before) > 0 and len(after) > 0)


@CHECK.sub("bad_time", st.tuples(when, st.sampled_from([(2, 0), (2, 13), (3, 0), (3, 32), (4, 24), (5, 60), (6, 60), (2, 255), (4, 255)])), quick=60, thorough=2000)
def bad_time(case, ctx):
    t, (off, v) = case
    w = bytearray(b_time(t))
    w[off] = v
    rejects(EfiTime.from_binary, bytes(w), what="impossible date")
    rejects(EfiTime, decodefs=io.BytesIO(bytes(w)), what="impossible date")
    ctx.nontrivial()


@CHECK.sub("descriptor", st.tuples(when, cert, blob, pre), quick=800, thorough=40000)
def descriptor(case, ctx):
    t, c, payload, before = case
    w = b_time(t) + b_cert(c) + payload
    f = io.BytesIO(before + w)
    f.seek(len(before))
    o = EfiVariableAuthentication2(decodefs=f)
    same(o.time.get_datetime(), datetime.datetime(*t), "time")
    c_cert(o.auth_info, c)
    same((bytes(o.payload or b""), o.payload_size), (payload, len(payload)), "payload")
    same(bytes(o.encode()), w, "encode")
    same(written(o), w, "write")
    f2 = io.BytesIO()
    o.Write(f2)
    same(f2.getvalue(), w, "Write")
    ctx.nontrivial(len(payload) > 0 and len(c[-1]) > 0 and len(before) > 0)


@CHECK.sub("payloads", st.tuples(when, cert, st.lists(st.tuples(blob, pre), min_size=1, max_size=4)), quick=300, thorough=15000)
def payloads(case, ctx):
    """The payload of a descriptor replaced again and again, also by an empty one."""
    t, c, ps = case
    o = EfiVariableAuthentication2(decodefs=io.BytesIO(b_time(t) + b_cert(c) + ps[-1][0]))
    for p, skip in ps:
        f = io.BytesIO(skip + p)
        f.seek(len(skip))
        o.set_payload(f)
        same((bytes(o.payload or b""), o.payload_size), (p, len(p)), "payload")
        same(bytes(o.encode()), b_time(t) + b_cert(c) + p, "encode")
        same(written(o), b_time(t) + b_cert(c) + p, "write")
    ctx.nontrivial(len(ps) > 1)


@CHECK.sub("damaged", st.tuples(cert, when, st.sampled_from(["trunc", "small", "big", "rev", "type", "guid"]), st.integers(0, 0xFFFFFFFF)), quick=800, thorough=40000)
def damaged(case, ctx):
    c, t, how, n = case
    w = bytearray(b_cert(c))
    if how == "trunc":
        w = w[:n % len(w)]
    elif how == "small":
        w[0:4] = struct.pack("<I", n % 24)
    elif how == "big":
        w[0:4] = struct.pack("<I", min(len(w) + 1 + n, 0xFFFFFFFF))
    elif how == "rev":
        if c[0] == "pkcs1":
            return
        w[4:6] = struct.pack("<H", (0x200 + 1 + n % 0xFFFE) & 0xFFFF)
    elif how == "type":
        v = n & 0xFFFF
        if v in (0xEF0, 0xEF1):
            return
        w[6:8] = struct.pack("<H", v)
        same(WinCert.factory(io.BytesIO(bytes(w))), None, "envelope of an unknown kind")
        rejects(EfiVariableAuthentication2, decodefs=io.BytesIO(b_time(t) + bytes(w)), what="descriptor with an envelope of an unknown kind")
        if c[0] == "pkcs1":
            return
    elif how == "guid":
        if c[0] == "pkcs1":
            return
        w[8 + n % 16] ^= 1 + n % 255
    w = bytes(w)
    k = WinCertUefiGuid if c[0] == "guid" else WinCertPkcs1
    rejects(k, io.BytesIO(w), what=f"{c[0]} envelope damaged by {how}")
    if c[0] == "guid":
        rejects(WinCertUefiGuid, w, what=f"envelope bytes damaged by {how}")
    if c[0] == "guid" and how in ("rev", "type", "guid"):
        o = WinCertUefiGuid(io.BytesIO(b_cert(c)))
        if how == "rev":
            o.Hdr_wRevision = struct.unpack_from("<H", w, 4)[0]
        elif how == "type":
            o.Hdr_wCertificateType = struct.unpack_from("<H", w, 6)[0]
        else:
            o.cert_type = uuid.UUID(bytes_le=w[8:24])
        rejects(o.encode, what=f"encoding an envelope damaged by {how}")
        f = io.BytesIO()
        rejects(o.write, f, what=f"writing an envelope damaged by {how}")
        same(f.getvalue(), b"", "written by a refused write")
        same(bytes(o.decode(b_cert(c) + b"tail")), b"tail", "remaining bytes of a later decoding")
        c_cert(o, c)
        same(bytes(o.encode()), b_cert(c), "encode after a later decoding")
    if how != "type":
        rejects(WinCert.factory, io.BytesIO(w), what=f"{c[0]} envelope damaged by {how}, through the factory")
        rejects(EfiVariableAuthentication2, decodefs=io.BytesIO(b_time(t) + w), what=f"descriptor with a {c[0]} envelope damaged by {how}")
    ctx.nontrivial()
    ctx.label(f"{c[0]}:{how}")


@CHECK.sub("again", st.lists(st.tuples(when, cert, blob, pre, st.sampled_from(["whole", "whole", "envelope", "truncated"])), min_size=2, max_size=4), quick=300, thorough=15000)
def again(case, ctx):
    """One descriptor read again and again: it holds what was read last, and a refused read raises."""
    o = EfiVariableAuthentication2(time=datetime.datetime(2020, 1, 1))
    env = {"guid": WinCertUefiGuid(), "pkcs1": WinCertPkcs1()}
    for t, c, payload, before, how in case:
        w = b_time(t) + b_cert(c) + payload
        if how == "truncated":
            cut = io.BytesIO(before + w[: len(w) - len(payload) - 1])
            cut.seek(len(before))
            rejects(o.decode, cut, what="a truncated descriptor")
        elif how == "envelope":
            f = io.BytesIO(before + b_cert(c) + payload)
            f.seek(len(before))
            env[c[0]].decode(f)
            c_cert(env[c[0]], c)
            same((bytes(env[c[0]].encode()), f.tell()), (b_cert(c), len(before) + len(b_cert(c))), "envelope read again, and the position behind it")
        else:
            f = io.BytesIO(before + w)
            f.seek(len(before))
            o.decode(f)
            same(o.time.get_datetime(), datetime.datetime(*t), "time")
            c_cert(o.auth_info, c)
            same((bytes(o.payload or b""), o.payload_size), (payload, len(payload)), "payload")
            same((bytes(o.encode()), written(o)), (w, w), "encode, write")
    ctx.nontrivial(len({x[4] for x in case}) > 1)
