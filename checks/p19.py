"""P19: firmware update capsules encode and decode exactly."""
import struct
import uuid

from edk2toollib.uefi.edk2.fmp_payload_header import FmpPayloadHeaderClass
from edk2toollib.uefi.fmp_auth_header import FmpAuthHeaderClass
from edk2toollib.uefi.fmp_capsule_header import FmpCapsuleHeaderClass, FmpCapsuleImageHeaderClass
from edk2toollib.uefi.uefi_capsule_header import UefiCapsuleHeaderClass
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Firmware update capsules encode and decode exactly",
    statement="A capsule built from any field values, drivers, images, vendor bytes, authentication data and payloads encodes to the byte layout of the UEFI specification with every size, count and offset computed from the contents, and decoding those bytes gives back every field and payload at every level. Decoding any well-formed capsule, extended headers included, and encoding it again gives the same bytes; contents changed in between are reflected in the sizes; and an object decodes a second capsule as a fresh one would. Capsules with inconsistent sizes, versions, indexes, offsets, signatures or truncated data are refused.",
    over=["inputs", "histories"],
    text="every field value, item list and payload, and every sequence of decode, edit and encode",
    why="The capsule classes have almost no tests (the decode test is skipped); layout errors depend on item counts, sizes and header lengths.",
    files=["edk2toollib/uefi/uefi_capsule_header.py", "edk2toollib/uefi/fmp_capsule_header.py", "edk2toollib/uefi/fmp_auth_header.py", "edk2toollib/uefi/edk2/fmp_payload_header.py"],
    mechanism=[("capsule header", "UefiCapsuleHeaderClass.Encode / Decode"), ("item offsets", "FmpCapsuleHeaderClass.Encode / Decode"),
               ("image header", "FmpCapsuleImageHeaderClass.Encode / Decode"), ("authentication", "FmpAuthHeaderClass.Encode / Decode / IsSigned"),
               ("payload header", "FmpPayloadHeaderClass.Encode / Decode")],
    technique="property-based testing: round trips against an independent byte-level model of the capsule layout, with decode/edit/encode histories",
    note="reserved fields are zero, image index 1 to 255, embedded drivers non-empty, certificates of PKCS7 type",
)
CHECK = Check("P19", "the capsule holds at least one image with an authenticated payload, or two or more items")

FMP = uuid.UUID("6DCBD5ED-E82D-4C44-BDA1-7194199AD92A")
PKCS7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7")
u8, u16, u32, u64 = (st.integers(0, (1 << b) - 1) for b in (8, 16, 32, 64))
guid = st.one_of(st.sampled_from([b"\x01" * 16, bytes(range(1, 17))]), st.binary(min_size=16, max_size=16))
data = st.binary(max_size=24)

payload = st.fixed_dictionaries({"fw": u32, "lsv": u32, "ext": st.one_of(st.just(b""), st.binary(max_size=20)), "data": data})
auth = st.fixed_dictionaries({"mono": u64, "cert": data, "pl": st.one_of(st.none(), payload)})
image = st.fixed_dictionaries({"ver": st.one_of(st.just(2), st.integers(2, 0xFFFFFFFF)), "type": guid, "index": st.integers(1, 255), "hw": u64,
                               "auth": st.one_of(st.none(), auth), "vendor": data})
fmp = st.fixed_dictionaries({"ver": st.one_of(st.just(1), st.integers(1, 0xFFFFFFFF)), "drivers": st.lists(st.binary(min_size=1, max_size=20), max_size=3),
                             "images": st.lists(image, max_size=3)})
capsule = st.fixed_dictionaries({"oem": u16, "flags": st.tuples(st.booleans(), st.booleans(), st.booleans()), "ext": st.one_of(st.just(b""), st.binary(max_size=20)),
                                 "body": st.one_of(st.tuples(st.just("fmp"), fmp), st.tuples(st.just("raw"), guid.filter(lambda g: g != FMP.bytes_le), data),
                                                   st.just(("none",)))})


# ---- the model: bytes of each structure ----
def b_payload(m):
    return struct.pack("<4sIII", b"MSS1", 16 + len(m["ext"]), m["fw"], m["lsv"]) + m["ext"] + m["data"]


def b_cert(c):
    return struct.pack("<IHH", 24 + len(c), 0x0200, 0x0EF1) + PKCS7.bytes_le + c


def b_auth(m):
    return struct.pack("<Q", m["mono"]) + b_cert(m["cert"]) + (b_payload(m["pl"]) if m["pl"] else b"")


def b_image(m):
    p = b_auth(m["auth"]) if m["auth"] else b""
    return struct.pack("<I16sB3xIIQ", m["ver"], m["type"], m["index"], len(p), len(m["vendor"]), m["hw"]) + p + m["vendor"]


def b_fmp(m):
    items = list(m["drivers"]) + [b_image(i) for i in m["images"]]
    head = struct.pack("<IHH", m["ver"], len(m["drivers"]), len(m["images"]))
    off = 8 + 8 * len(items)
    for i in items:
        head += struct.pack("<Q", off)
        off += len(i)
    return head + b"".join(items)


def wire(m):
    """The tool's header structure: GUID, HeaderSize, Flags, CapsuleImageSize and a reserved word."""
    k = m["body"][0]
    g = m["body"][1] if k == "raw" else FMP.bytes_le
    body = {"fmp": lambda: b_fmp(m["body"][1]), "raw": lambda: m["body"][2], "none": lambda: b""}[k]()
    fl = m["oem"] | sum(b << (16 + i) for i, b in enumerate(m["flags"]))
    hs = 32 + len(m["ext"])
    return struct.pack("<16sIIII", g, hs, fl, hs + len(body), 0) + m["ext"] + body


# ---- objects from the model ----
def o_payload(m):
    o = FmpPayloadHeaderClass()
    o.FwVersion, o.LowestSupportedVersion, o.Payload = m["fw"], m["lsv"], m["data"]
    return o


def o_auth(m):
    o = FmpAuthHeaderClass()
    o.MonotonicCount = m["mono"]
    o.AuthInfo.add_cert_data(m["cert"])
    if m["pl"]:
        o.FmpPayloadHeader = o_payload(m["pl"])
    return o


def o_image(m):
    o = FmpCapsuleImageHeaderClass()
    o.Version, o.UpdateImageTypeId, o.UpdateImageIndex = m["ver"], uuid.UUID(bytes_le=m["type"]), m["index"]
    o.UpdateHardwareInstance, o.VendorCodeBytes = m["hw"], m["vendor"]
    if m["auth"]:
        o.FmpAuthHeader = o_auth(m["auth"])
    return o


def o_fmp(m):
    o = FmpCapsuleHeaderClass()
    o.Version = m["ver"]
    for d in m["drivers"]:
        o.AddEmbeddedDriver(d)
    for i in m["images"]:
        o.AddFmpCapsuleImageHeader(o_image(i))
    return o


def o_capsule(m):
    o = UefiCapsuleHeaderClass()
    o.OemFlags = m["oem"]
    o.PersistAcrossReset, o.PopulateSystemTable, o.InitiateReset = m["flags"]
    if m["body"][0] == "fmp":
        o.FmpCapsuleHeader = o_fmp(m["body"][1])
    elif m["body"][0] == "raw":
        o.CapsuleGuid, o.Payload = uuid.UUID(bytes_le=m["body"][1]), m["body"][2]
    return o


# ---- comparing a decoded object with the model ----
def c_payload(o, m):
    same((o.HeaderSize, o.FwVersion, o.LowestSupportedVersion, bytes(o.Payload)), (16 + len(m["ext"]), m["fw"], m["lsv"], m["data"]), "payload header")


def c_auth(o, m):
    same(o.MonotonicCount, m["mono"], "MonotonicCount")
    same((o.AuthInfo.Hdr_dwLength, bytes(o.AuthInfo.cert_data), o.AuthInfo.cert_type), (24 + len(m["cert"]), m["cert"], PKCS7), "AuthInfo")
    if m["pl"]:
        c_payload(o.FmpPayloadHeader, m["pl"])
    else:
        same((o.FmpPayloadHeader, bytes(o.Payload)), (None, b""), "absent payload")


def c_image(o, m):
    same((o.Version, o.UpdateImageTypeId.bytes_le, o.UpdateImageIndex, o.UpdateHardwareInstance, bytes(o.VendorCodeBytes)),
         (m["ver"], m["type"], m["index"], m["hw"], m["vendor"]), "image header")
    p = b_auth(m["auth"]) if m["auth"] else b""
    same((o.UpdateImageSize, o.UpdateVendorCodeSize, bytes(o.Payload)), (len(p), len(m["vendor"]), p), "image sizes")
    if m["auth"]:
        c_auth(o.FmpAuthHeader, m["auth"])
    else:
        same(o.FmpAuthHeader, None, "absent auth header")


def c_fmp(o, m):
    same((o.Version, o.EmbeddedDriverCount, o.PayloadItemCount), (m["ver"], len(m["drivers"]), len(m["images"])), "fmp header")
    for i, d in enumerate(m["drivers"]):
        same(bytes(o.GetEmbeddedDriver(i)), d, f"driver {i}")
    for i, im in enumerate(m["images"]):
        c_image(o.GetFmpCapsuleImageHeader(i), im)
    rejects(o.GetEmbeddedDriver, len(m["drivers"]), what="driver index past the end")
    rejects(o.GetFmpCapsuleImageHeader, len(m["images"]), what="image index past the end")


def c_capsule(o, m):
    w = wire(m)
    same((o.HeaderSize, o.CapsuleImageSize, o.OemFlags, (o.PersistAcrossReset, o.PopulateSystemTable, o.InitiateReset)),
         (32 + len(m["ext"]), len(w), m["oem"], m["flags"]), "capsule header")
    same(bytes(o.Payload), w[32 + len(m["ext"]):], "capsule payload")
    same(o.CapsuleGuid.bytes_le, w[:16], "capsule guid")
    if m["body"][0] == "fmp":
        c_fmp(o.FmpCapsuleHeader, m["body"][1])
    else:
        same(o.FmpCapsuleHeader, None, "absent fmp header")


KINDS = {"payload": (payload, b_payload, o_payload, c_payload, FmpPayloadHeaderClass), "auth": (auth, b_auth, o_auth, c_auth, FmpAuthHeaderClass),
         "image": (image, b_image, o_image, c_image, FmpCapsuleImageHeaderClass), "fmp": (fmp, b_fmp, o_fmp, c_fmp, FmpCapsuleHeaderClass),
         "capsule": (capsule, wire, o_capsule, c_capsule, UefiCapsuleHeaderClass)}
ANY = st.one_of(*[st.tuples(st.just(k), v[0]) for k, v in KINDS.items()])
PAIR = st.one_of(*[st.tuples(st.just(k), v[0], v[0]) for k, v in KINDS.items()])


def rich(k, m):
    if k == "capsule":
        return m["body"][0] == "fmp" and rich("fmp", m["body"][1])
    if k == "fmp":
        return len(m["drivers"]) + len(m["images"]) > 1 or any(i["auth"] for i in m["images"])
    return k in ("image", "auth") and bool(m.get("auth", m.get("pl")))


def no_ext(x):
    """The model with no extended headers, for objects built by hand."""
    if isinstance(x, dict):
        return {k: (b"" if k == "ext" else no_ext(v)) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return type(x)(no_ext(v) for v in x)
    return x


@CHECK.sub("build", ANY, quick=1200, thorough=60000)
def build(case, ctx):
    k, m = case
    m = no_ext(m)
    _, tob, mk, cmp_, cls = KINDS[k]
    o = mk(m)
    w = tob(m)
    same(bytes(o.Encode()), w, f"encoded {k}")
    same(bytes(o.Encode()), w, f"encoded {k} a second time")
    d = cls()
    d.Decode(w)
    cmp_(d, m)
    ctx.nontrivial(rich(k, m))
    ctx.label(k)


@CHECK.sub("roundtrip", PAIR, quick=1500, thorough=80000, shards=2)
def roundtrip(case, ctx):
    k, m, other = case
    _, tob, mk, cmp_, cls = KINDS[k]
    w = tob(m)
    o = cls()
    r = o.Decode(w)
    cmp_(o, m)
    if k in ("payload", "auth", "capsule"):
        same(bytes(r), bytes(o.Payload), "returned payload")
    same(bytes(o.Encode()), w, f"re-encoded {k}")
    cmp_(o, m)
    # the same object decodes another one as a fresh object would
    o.Decode(tob(other))
    cmp_(o, other)
    same(bytes(o.Encode()), tob(other), f"re-encoded {k} after reuse")
    ctx.nontrivial(rich(k, m))
    ctx.label(k)


edit = st.one_of(st.tuples(st.just("driver"), st.binary(min_size=1, max_size=9)), st.tuples(st.just("image"), image), st.tuples(st.just("vendor"), st.integers(0, 2), data),
                 st.tuples(st.just("data"), st.integers(0, 2), data), st.tuples(st.just("cert"), st.integers(0, 2), data),
                 st.tuples(st.just("oem"), u16), st.tuples(st.just("index"), st.integers(0, 2), st.integers(1, 255)))


@CHECK.sub("edits", st.tuples(capsule.filter(lambda m: m["body"][0] == "fmp"), st.lists(edit, min_size=1, max_size=5), st.booleans()), quick=600, thorough=30000)
def edits(case, ctx):
    """Decode (or build), change the contents, encode: sizes, counts and offsets follow."""
    m, ops, built = case
    f = m["body"][1]
    m = dict(no_ext(m) if built else m)
    f = m["body"][1]
    f = dict(f, drivers=list(f["drivers"]), images=[dict(i) for i in f["images"]])
    m["body"] = ("fmp", f)
    if built:
        o = o_capsule(m)
    else:
        o = UefiCapsuleHeaderClass()
        o.Decode(wire(m))
    n = 0
    for op in ops:
        k = op[0]
        h = o.FmpCapsuleHeader
        if k == "driver":
            h.AddEmbeddedDriver(op[1])
            f["drivers"].append(op[1])
        elif k == "image":
            i = no_ext(op[1])
            h.AddFmpCapsuleImageHeader(o_image(i))
            f["images"].append(dict(i))
        elif k == "oem":
            o.OemFlags = m["oem"] = op[1]
        elif op[1] >= len(f["images"]):
            continue
        else:
            im, io = f["images"][op[1]], h.GetFmpCapsuleImageHeader(op[1])
            if k == "vendor":
                io.VendorCodeBytes = im["vendor"] = op[2]
            elif k == "index":
                io.UpdateImageIndex = im["index"] = op[2]
            elif k == "cert" and im["auth"]:
                io.FmpAuthHeader.AuthInfo.add_cert_data(op[2])
                im["auth"] = dict(im["auth"], cert=op[2])
            elif k == "data" and im["auth"] and im["auth"]["pl"]:
                io.FmpAuthHeader.FmpPayloadHeader.Payload = op[2]
                im["auth"] = dict(im["auth"], pl=dict(im["auth"]["pl"], data=op[2]))
            else:
                continue
        n += 1
        if n % 2:
            same(bytes(o.Encode()), wire(m), f"encoded after {op[0]}")
    same(bytes(o.Encode()), wire(m), "encoded after edits")
    same((o.FmpCapsuleHeader.EmbeddedDriverCount, o.FmpCapsuleHeader.PayloadItemCount), (len(f["drivers"]), len(f["images"])), "counts")
    d = UefiCapsuleHeaderClass()
    d.Decode(wire(m))
    c_capsule(d, m)
    ctx.nontrivial(n > 0 and rich("capsule", m))


def put(w, off, fmt, v):
    return w[:off] + struct.pack(fmt, v) + w[off + struct.calcsize(fmt):]


bad = st.one_of(
    st.tuples(st.just("capsule"), capsule, st.sampled_from(["trunc", "grow", "hsize", "hbig", "isize"]), u32),
    st.tuples(st.just("fmp"), fmp.filter(lambda m: m["drivers"] or m["images"]), st.sampled_from(["trunc8", "ver", "offset", "count"]), u32),
    st.tuples(st.just("image"), image, st.sampled_from(["trunc", "grow", "ver", "index", "isize", "vsize"]), u32),
    st.tuples(st.just("auth"), auth, st.sampled_from(["trunccert", "len", "lenbig", "rev", "ctype", "cguid", "short"]), u32),
    st.tuples(st.just("payload"), payload, st.sampled_from(["trunc", "sig", "hsize", "hbig"]), u32),
)


@CHECK.sub("damaged", bad, quick=1200, thorough=60000)
def damaged(case, ctx):
    k, m, how, n = case
    _, tob, mk, cmp_, cls = KINDS[k]
    w = tob(m)
    if how == "trunc":
        hl = {"capsule": len(w), "image": len(w), "payload": 16 + len(m.get("ext", b""))}[k]
        w = w[:n % hl]
    elif how == "grow":
        w = w + b"\0" * (1 + n % 7)
    elif how == "trunc8":
        hdr = 8 + 8 * (len(m["drivers"]) + len(m["images"]))
        w = w[:n % (hdr + 1)]
    elif how == "trunccert":
        w = w[:n % (8 + 24 + len(m["cert"]))]
    elif how == "short":
        w = w[:n % 8]
    elif how == "ver":
        w = put(w, 0, "<I", n % (2 if k == "image" else 1))
    elif how == "index":
        w = put(w, 20, "<B", 0)
    elif how == "offset":
        i = n % (len(m["drivers"]) + len(m["images"]))
        w = put(w, 8 + 8 * i, "<Q", len(w) + n)
    elif how == "count":
        w = put(w, 4, "<H", 0x8000 | n & 0xFFFF)
    elif how == "hsize":
        w = put(w, 16 if k == "capsule" else 4, "<I", n % (32 if k == "capsule" else 16))
    elif how == "hbig":
        w = put(w, 16 if k == "capsule" else 4, "<I", min(len(w) + 1 + n, 0xFFFFFFFF))
    elif how == "isize":
        off = 24
        v = struct.unpack_from("<I", w, off)[0]
        w = put(w, off, "<I", (v + 1 + n % 0xFFFFFFFE) & 0xFFFFFFFF)
    elif how == "vsize":
        v = struct.unpack_from("<I", w, 28)[0]
        w = put(w, 28, "<I", (v + 1 + n % 0xFFFFFFFE) & 0xFFFFFFFF)
    elif how == "len":
        w = put(w, 8, "<I", n % 24)
    elif how == "lenbig":
        w = put(w, 8, "<I", min(len(w) - 8 + 1 + n, 0xFFFFFFFF))
    elif how == "rev":
        w = put(w, 12, "<H", (0x200 + 1 + n % 0xFFFE) & 0xFFFF)
    elif how == "ctype":
        w = put(w, 14, "<H", (0xEF1 + 1 + n % 0xFFFE) & 0xFFFF)
    elif how == "cguid":
        i = 16 + n % 16
        w = put(w, i, "<B", w[i] ^ (1 + n % 255))
    elif how == "sig":
        i = n % 4
        w = put(w, i, "<B", w[i] ^ (1 + n % 255))
    if how == "trunc8" and not m["drivers"] and not m["images"]:
        return
    rejects(cls().Decode, w, what=f"{k} damaged by {how}")
    # and inside the enclosing structures
    if k == "payload" and how in ("sig", "hsize", "hbig"):
        rejects(FmpAuthHeaderClass().Decode, struct.pack("<Q", 1) + b_cert(b"x") + w, what=f"auth header around a payload damaged by {how}")
    if k == "auth":
        expect(FmpAuthHeaderClass().IsSigned(w) is False, "IsSigned on an invalid buffer")
    ctx.nontrivial()
    ctx.label(f"{k}:{how}")


@CHECK.sub("signed", st.tuples(auth, st.booleans()), quick=200, thorough=8000)
def signed(case, ctx):
    m, used = case
    o = FmpAuthHeaderClass()
    if used:
        o.Decode(b_auth(m))
    same(o.IsSigned(b_auth(m)), True, "IsSigned of a PKCS7-authenticated image")
    ctx.nontrivial(m["pl"] is not None)


@CHECK.sub("report", st.tuples(capsule, st.booleans()), quick=150, thorough=5000)
def report(case, ctx):
    """Printing a decoded capsule works and does not change it (certificates left out: their text comes from pyasn1)."""
    import contextlib
    import io

    m, _ = case
    if m["body"][0] == "fmp":
        f = m["body"][1]
        m = dict(m, body=("fmp", dict(f, images=[dict(i, auth=None) for i in f["images"]])))
    o = UefiCapsuleHeaderClass()
    o.Decode(wire(m))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        o.DumpInfo()
    t = buf.getvalue()
    for s in (str(o.CapsuleGuid).upper(), f"{32 + len(m['ext']):08X}", f"{len(wire(m)):08X}", f"{m['oem']:04X}"):
        expect(s in t, f"{s} missing in the report")
    fl = m["oem"] | sum(b << (16 + i) for i, b in enumerate(m["flags"]))
    expect(any(x.split("=")[0].strip().endswith(".Flags") and x.split("=")[1].strip() == f"{fl:08X}" for x in t.splitlines() if "=" in x), "the flags in the report")
    for n, b in zip(("PERSIST_ACROSS_RESET", "POPULATE_SYSTEM_TABLE", "INITIATE_RESET"), m["flags"]):
        same(n in t, b, n)
    if m["body"][0] == "fmp":
        for i in m["body"][1]["images"]:
            expect(str(uuid.UUID(bytes_le=i["type"])).upper() in t and f"{i['hw']:016X}" in t, "image missing in the report")
    same(bytes(o.Encode()), wire(m), "after the report")
    ctx.nontrivial(m["body"][0] == "fmp" and len(m["body"][1]["images"]) > 0)
