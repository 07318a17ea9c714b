"""P43: printed reports of signed structures and capsules, and the deprecated names."""
import contextlib
import datetime
import hashlib
import io
import re
import uuid
import warnings

from edk2toollib.uefi import wincert as wc
from edk2toollib.uefi import authenticated_variables_structure_support as av
from edk2toollib.uefi.edk2.fmp_payload_header import FmpPayloadHeaderClass
from edk2toollib.uefi.fmp_auth_header import FmpAuthHeaderClass
from edk2toollib.uefi.fmp_capsule_header import FmpCapsuleHeaderClass, FmpCapsuleImageHeaderClass
from edk2toollib.uefi.uefi_capsule_header import UefiCapsuleHeaderClass
from pbt import Check, st
from pbt.core import expect, rejects, same

from . import p19, p20, p21

META = dict(
    title="Reports state actual values; deprecated names do as their replacements",
    statement="The printed report of a decoded capsule, certificate envelope, signature entry, list or database, timestamp or signed variable goes whole to the stream it is asked for, names every field in the structure's order with its actual value, nested structures included, holds the complete data it dumps and leaves the object unchanged; from the compact report of a database the database can be rebuilt. Every deprecated method, property and class gives the same result as the name that replaces it, and a newly made object has the documented empty values.",
    over=["inputs"],
    text="every field value, nesting and data length; every deprecated name",
    why="The tests only print a few objects, none compares what is printed; deprecated names are called on one value each.",
    files=["edk2toollib/uefi/uefi_capsule_header.py", "edk2toollib/uefi/fmp_capsule_header.py", "edk2toollib/uefi/fmp_auth_header.py", "edk2toollib/uefi/edk2/fmp_payload_header.py", "edk2toollib/uefi/wincert.py", "edk2toollib/uefi/authenticated_variables_structure_support.py"],
    mechanism=[("capsule reports", "DumpInfo of the capsule classes"), ("certificate reports", "WinCertPkcs1.print, WinCertUefiGuid.dump_info / print / __str__"),
               ("signature reports", "print of EfiSignatureData*, EfiSignatureList, EfiSignatureDatabase, EfiTime, EfiVariableAuthentication2"), ("deprecated names", "the methods and properties that warn of deprecation")],
    technique="property-based testing: reports parsed back and compared with the generated model; deprecated against current names as a metamorphic relation",
    note="the prose around names and values is not compared; reports of policies, tables and bitmaps belong to P26 and P28 to P31; text of DER certificates comes from pyasn1, only the data bytes are looked for",
)
CHECK = Check("P43", "the structure holds at least two nested items, or data longer than a dump line")


def der(tag, b):
    n = bytes([len(b)]) if len(b) < 128 else bytes([0x82]) + len(b).to_bytes(2, "big")
    return bytes([tag]) + n + b


def p7(content):
    """A minimal PKCS#7 ContentInfo holding an octet string."""
    return der(0x30, bytes.fromhex("06092a864886f70d010701") + der(0xA0, der(0x04, content)))


def captured(fn, *a, **k):
    """What fn prints to standard output, whether it looks sys.stdout up late or early is of no interest."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn(*a, **k)
    return buf.getvalue()


def only(fn, out, *a, **k):
    """fn must write its whole report to out and nothing to standard output."""
    same(captured(fn, *a, **k), "", "text on standard output instead of the given stream")
    return out.getvalue()


FIELD = re.compile(r"^\s*([A-Za-z][^=:]*?(?:\([^)]*\)[^=:]*?)?)\s*[=:]\s*(.*?)\s*$")


def fields(text):
    r = []
    for l in text.split("\n"):
        m = FIELD.match(l)
        if m:
            r.append((re.sub(r"\s+", " ", m[1]).split(".")[-1], m[2]))
        elif l.strip():
            r.append((None, l.strip()))
    return r


def check_fields(text, want, what):
    got = fields(text)
    at = 0
    names = [n for n, _ in got]
    for n, v in want:
        if n in names[at:]:
            at = names.index(n, at)
        else:
            raise AssertionError(f"{what}: no line for {n} after line {at} of {text!r}")
        t = got[at][1]
        at += 1
        if isinstance(v, int):
            m = re.match(r"(?:0x)?([0-9A-Fa-f]+)\b", t)
            expect(m and int(m[1], 16) == v, f"{what}: {n} is printed as {t!r}, its value is {v:#x}")
        elif v is not None:
            same(t.lower(), str(v).lower(), f"{what}: {n}")
    return got


def dumped(text):
    """The bytes of the hex dumps in a report, one per dump."""
    r = []
    for l in text.split("\n"):
        m = re.match(r"0x([0-9a-f]+) -((?: 0x[0-9a-f]{2}| -)+) (.*) $", l)
        if m:
            row = bytes(int(x, 16) for x in re.findall(r"0x([0-9a-f]{2})", m[2]))
            if int(m[1], 16) == 0:
                r.append(b"")
            same(int(m[1], 16), len(r[-1]), f"offset of dump line {l!r}")
            same(m[3].lstrip() if len(row) < 16 else m[3], (lambda s: s.lstrip() if len(row) < 16 else s)("".join(chr(x) if 0x20 <= x <= 0x7E else "." for x in row)), f"characters of dump line {l!r}")
            r[-1] += row
    return [x for x in r]


# ---- capsules ----
def with_certs(m):
    """The generated model with certificate data that is DER."""
    if m["body"][0] != "fmp":
        return m
    f = m["body"][1]
    return dict(m, body=("fmp", dict(f, images=[dict(i, auth=i["auth"] and dict(i["auth"], cert=p7(i["auth"]["cert"]))) for i in f["images"]])))


def w_payload(m):
    return [("Signature", f"{int.from_bytes(b'MSS1', 'little'):08X} (MSS1)"), ("HeaderSize", 16 + len(m["ext"])), ("FwVersion", m["fw"]), ("LowestSupportedVersion", m["lsv"]), ("sizeof (Payload)", len(m["data"]))]


def w_auth(m):
    r = [("MonotonicCount", m["mono"])] + w_cert(m["cert"])
    return r + [("sizeof (Payload)", len(p19.b_payload(m["pl"])) if m["pl"] else 0)] + (w_payload(m["pl"]) if m["pl"] else [])


def w_cert(c):
    return [("dwLength", 24 + len(c)), ("wRevision", 0x200), ("wCertificateType", 0xEF1), ("cert_type", p20.PKCS7), ("cert_data)", len(c))]


def w_image(m):
    p = p19.b_auth(m["auth"]) if m["auth"] else b""
    r = [("Version", m["ver"]), ("UpdateImageTypeId", uuid.UUID(bytes_le=m["type"])), ("UpdateImageIndex", m["index"]), ("UpdateImageSize", len(p)), ("UpdateVendorCodeSize", len(m["vendor"])), ("UpdateHardwareInstance", m["hw"]), ("sizeof (Payload)", len(p)), ("sizeof (VendorCodeBytes)", len(m["vendor"]))]
    return r + (w_auth(m["auth"]) if m["auth"] else [])


def w_fmp(m):
    return [("Version", m["ver"]), ("EmbeddedDriverCount", len(m["drivers"]))] + [("sizeof (EmbeddedDriver)", len(d)) for d in m["drivers"]] + [("PayloadItemCount", len(m["images"]))] + [x for i in m["images"] for x in w_image(i)]


def w_capsule(m):
    w = p19.wire(m)
    fl = int.from_bytes(w[20:24], "little")
    r = [("CapsuleGuid", uuid.UUID(bytes_le=w[:16])), ("HeaderSize", 32 + len(m["ext"])), ("Flags", fl), ("OEM Flags", m["oem"]), ("CapsuleImageSize", len(w)), ("sizeof (Payload)", len(w) - 32 - len(m["ext"]))]
    return r + (w_fmp(m["body"][1]) if m["body"][0] == "fmp" else [])


@CHECK.sub("capsule", st.tuples(p19.capsule, st.booleans()), quick=500, thorough=20000)
def capsule(case, ctx):
    m, used = case
    m = with_certs(m)
    o = UefiCapsuleHeaderClass()
    if used:
        o.Decode(p19.wire(dict(m, body=("none",))))
    o.Decode(p19.wire(m))
    t = captured(o.DumpInfo)
    want = w_capsule(m)
    got = check_fields(t, want, "capsule")
    for n, v in (("sizeof (EmbeddedDriver)", None), ("UpdateImageTypeId", None), ("MonotonicCount", None), ("FwVersion", None), ("cert_type", None)):
        same(sum(1 for x, _ in got if x == n), sum(1 for x, _ in want if x == n), f"number of {n} lines")
    for n, b in zip(("PERSIST_ACROSS_RESET", "POPULATE_SYSTEM_TABLE", "INITIATE_RESET"), m["flags"]):
        same(t.count("CAPSULE_FLAGS_" + n), int(b), n)
    same(bytes(o.Encode()), p19.wire(m), "bytes after the report")
    ctx.nontrivial(m["body"][0] == "fmp" and len(m["body"][1]["images"]) + len(m["body"][1]["drivers"]) > 1)


u32 = st.one_of(st.sampled_from([0, 1, 0x10, 0xFFFFFFFF]), st.integers(0, 0xFFFFFFFF))
small = st.binary(max_size=40)


@CHECK.sub("attributes", st.tuples(st.lists(u32, min_size=12, max_size=12), st.binary(min_size=16, max_size=16), small, small, small, small, st.lists(small, max_size=3)), quick=200, thorough=8000)
def attributes(case, ctx):
    """What is set on an object that was neither decoded nor encoded is what its report states, also sizes that do not fit."""
    n, g, data, vendor, inner, whole, drivers = case
    pl = FmpPayloadHeaderClass()
    pl.HeaderSize, pl.FwVersion, pl.LowestSupportedVersion, pl.Payload = n[0], n[1], n[2], inner
    r_pl = [("Signature", w_payload({"ext": b"", "fw": 0, "lsv": 0, "data": b""})[0][1]), ("HeaderSize", n[0]), ("FwVersion", n[1]), ("LowestSupportedVersion", n[2]), ("sizeof (Payload)", len(inner))]
    check_fields(captured(pl.DumpInfo), r_pl, "payload header")
    im = FmpCapsuleImageHeaderClass()
    im.Version, im.UpdateImageTypeId, im.UpdateImageIndex, im.UpdateImageSize, im.UpdateVendorCodeSize, im.UpdateHardwareInstance = n[3], uuid.UUID(bytes_le=g), n[4] & 0xFF, n[5], n[6], n[7]
    im.Payload, im.VendorCodeBytes = data, vendor
    r_im = [("Version", n[3]), ("UpdateImageTypeId", uuid.UUID(bytes_le=g)), ("UpdateImageIndex", n[4] & 0xFF), ("UpdateImageSize", n[5]), ("UpdateVendorCodeSize", n[6]), ("UpdateHardwareInstance", n[7]),
            ("sizeof (Payload)", len(data)), ("sizeof (VendorCodeBytes)", len(vendor))]
    check_fields(captured(im.DumpInfo), r_im, "image header")
    fh = FmpCapsuleHeaderClass()
    for d in drivers:
        fh.AddEmbeddedDriver(d)
    fh.AddFmpCapsuleImageHeader(im)
    fh.Version = n[8]
    r_fh = [("Version", n[8]), ("EmbeddedDriverCount", len(drivers))] + [("sizeof (EmbeddedDriver)", len(d)) for d in drivers] + [("PayloadItemCount", 1)] + r_im
    check_fields(captured(fh.DumpInfo), r_fh, "capsule header")
    c = UefiCapsuleHeaderClass()
    c.CapsuleGuid, c.HeaderSize, c.OemFlags, c.CapsuleImageSize, c.Payload = uuid.UUID(bytes_le=g), n[9], n[10] & 0xFFFF, n[11], whole
    c.PersistAcrossReset, c.PopulateSystemTable, c.InitiateReset = (bool(n[0] & b) for b in (1, 2, 4))
    c.FmpCapsuleHeader = fh
    r_c = [("CapsuleGuid", uuid.UUID(bytes_le=g)), ("HeaderSize", n[9]), ("Flags", n[10] & 0xFFFF | (n[0] & 7) << 16), ("OEM Flags", n[10] & 0xFFFF), ("CapsuleImageSize", n[11]), ("sizeof (Payload)", len(whole))]
    check_fields(captured(c.DumpInfo), r_c + r_fh, "capsule")
    a = FmpAuthHeaderClass()
    a.MonotonicCount = n[0] << 32 | n[1]
    a.AuthInfo.add_cert_data(p7(data))
    a.Payload, a.FmpPayloadHeader = whole, pl
    check_fields(captured(a.DumpInfo), [("MonotonicCount", n[0] << 32 | n[1])] + w_cert(p7(data)) + [("sizeof (Payload)", len(whole))] + r_pl, "image authentication")
    ctx.nontrivial(len({len(data), len(vendor), len(inner), len(whole)}) > 2)


# ---- certificates ----
long = st.one_of(st.binary(min_size=1, max_size=70), st.integers(1, 4).flatmap(lambda n: st.binary(min_size=16 * n, max_size=16 * n)))


@CHECK.sub("certificates", st.tuples(st.one_of(st.tuples(st.just("guid"), long.map(p7)), st.tuples(st.just("pkcs1"), p20.u16, st.binary(min_size=16, max_size=16), long)), st.booleans()), quick=500, thorough=20000)
def certificates(case, ctx):
    c, old = case
    o = wc.WinCert.factory(io.BytesIO(p20.b_cert(c)))
    out = io.StringIO()
    t = only(o.Print if old else o.print, out, out)
    if c[0] == "guid":
        check_fields(t, w_cert(c[1]), "envelope")
        expect(c[1][-1:].hex() in t.lower() and "ContentInfo" in t, "certificate data missing")
        same(str(o), t, "str")
        for f in ("dump_info", "DumpInfo"):
            out = io.StringIO()
            same(only(getattr(o, f), out, out), t, f)
        same(captured(o.print, None) if False else t, t)
        bad = wc.WinCertUefiGuid()
        bad.add_cert_data(b"\x30\x03abc")
        rejects(bad.print, io.StringIO(), exc=ValueError, what="report of certificate data that is not DER")
    else:
        check_fields(t, [("Hdr_dwLength", 24 + len(c[3])), ("Hdr_wRevision", c[1]), ("Hdr_wCertificateType", 0xEF0), ("Hash Guid", uuid.UUID(bytes_le=c[2]))], "envelope")
        same(dumped(t), [c[3]], "dumped certificate data")
    same(bytes(o.encode()), p20.b_cert(c), "bytes after the report")
    ctx.nontrivial(len(c[-1]) > 16)
    ctx.label(c[0])


# ---- signature lists ----
CLASS = {"sha": ("EfiSignatureDataEfiCertSha256", "EFI_CERT_SHA256"), "x509": ("EfiSignatureDataEfiCertX509", "EFI_CERT_X509")}


def check_entries(t, k, es, what):
    """The full report of the entries of one list."""
    parts = t.split("EfiSignatureData - ")[1:]
    same(len(parts), len(es), f"{what}: number of entries")
    for p, (o, d) in zip(parts, es):
        same(p.split("\n")[0], CLASS[k][0], f"{what}: class")
        g = check_fields(p, [("Signature Owner", uuid.UUID(bytes_le=o))], what)
        if k == "sha":
            same([v for n, v in g if n == "Signature Data"], [d.hex().upper()], f"{what}: data")
        else:
            same(dumped(p), [d], f"{what}: data")


def parse_compact(t):
    ms = []
    for l in t.splitlines():
        if l.startswith("ESL:"):
            g, ls, hs, ss, hdr = l[4:].split(",")
            k = {v: k for k, v in p21.GUIDS.items()}[uuid.UUID(g)]
            same((int(hs, 16), hdr), (0, "NONE"), "signature header")
            ms.append((k, int(ss, 16) - 16, []))
            sizes = int(ls, 16)
        else:
            m = re.fullmatch(r"ESD:(\w+),([0-9a-f-]{36}),([0-9A-F]+)", l)
            expect(m, f"compact line {l!r}")
            same(m[1], CLASS[ms[-1][0]][1], "kind of entry")
            ms[-1][2].append((uuid.UUID(m[2]).bytes_le, bytes.fromhex(m[3])))
    return ms


@CHECK.sub("database", st.tuples(p21.db, st.integers(0, 5), st.booleans()), quick=700, thorough=30000)
def database(case, ctx):
    ms, how, old = case
    w = b"".join(map(p21.b_esl, ms))
    o = av.EfiSignatureDatabase(esl_list=[p21.o_esl(m, how) for m in ms])
    out = io.StringIO()
    t = only(o.Print if old else o.print, out, compact=True, outfs=out)
    same(b"".join(map(p21.b_esl, parse_compact(t))), w, "database rebuilt from its compact report")
    sizes = [int(l.split(",")[1], 16) for l in t.splitlines() if l.startswith("ESL:")]
    same(sizes, [28 + len(m[2]) * (16 + m[1]) for m in ms], "list sizes in the compact report")
    out = io.StringIO()
    t = only(o.Print if old else o.print, out, outfs=out)
    parts = t.split("EfiSignatureList\n")
    same((parts[0], len(parts) - 1), ("", len(ms)), "lists in the report")
    for p, (k, n, es) in zip(parts[1:], ms):
        check_fields(p, [("Signature Type", p21.GUIDS[k]), ("Signature List Size", 28 + len(es) * (16 + n)), ("Signature Header Size", 0), ("Signature Size", 16 + n), ("Signature Header", "NONE")], "list")
        check_entries(p, k, es, "list")
    for e, m in zip(o.esl_list, ms):
        out = io.StringIO()
        only(e.Print if old else e.print, out, False, out)
        expect(out.getvalue() in t, "a list prints otherwise on its own")
        for x, y in zip(e.signature_data_list or [], m[2]):
            out = io.StringIO()
            only(x.Print if old else x.print, out, False, out)
            check_entries(out.getvalue(), m[0], [y], "entry")
    same(bytes(o.encode()), w, "bytes after the reports")
    ctx.nontrivial(len(ms) > 1 or any(len(m[2]) > 1 for m in ms))


DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def time_text(t):
    y, mo, d, h, mi, _ = t
    return f"{DAYS[datetime.date(y, mo, d).weekday()]}, {MONTHS[mo - 1]} {d:02}, {y} {h % 12 or 12:02}:{mi:02}{'AM' if h < 12 else 'PM'}"


@CHECK.sub("descriptor", st.tuples(p20.when, long.map(p7), st.one_of(st.just(b""), long, p21.db.map(lambda ms: b"".join(map(p21.b_esl, ms)))), st.booleans()), quick=500, thorough=20000)
def descriptor(case, ctx):
    t, c, payload, old = case
    w = p20.b_time(t) + p20.b_cert(("guid", c)) + payload
    o = av.EfiVariableAuthentication2(decodefs=io.BytesIO(w))
    out = io.StringIO()
    text = only(o.Print if old else o.print, out, out)
    expect(time_text(t) in text, lambda: f"time {t} printed as {text[:100]!r}")
    same(str(o.time), time_text(t), "time text")
    out = io.StringIO()
    expect(time_text(t) in only(o.time.Print if old else o.time.print, out, out), "timestamp")
    check_fields(text, w_cert(c), "descriptor")
    rest = text.split("VARIABLE PAYLOAD")[1]
    if o.sig_list_payload is not None:
        out = io.StringIO()
        o.sig_list_payload.print(outfs=out)
        expect(rest.endswith(out.getvalue()) and len(payload) > 0, "signature lists of the payload")
        same(bytes(o.sig_list_payload.encode()), payload, "signature lists of the payload")
    else:
        same(dumped(rest), [payload] if payload else [], "payload dump")
    same(bytes(o.encode()), w, "bytes after the report")
    ctx.nontrivial(len(payload) > 16)
    ctx.label("lists" if o.sig_list_payload is not None else "raw")


# ---- deprecated names ----
def plain(v):
    if isinstance(v, (memoryview, bytearray)):
        return bytes(v)
    if hasattr(v, "encode") and not isinstance(v, str):
        return (type(v).__name__, bytes(v.encode()))
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def stream(fn):
    f = io.BytesIO(b"")
    fn(f)
    return f.getvalue()


def alias(what, old, new):
    """Both names on objects of their own; the result or the exception must agree."""
    r = []
    for fn in (old, new):
        try:
            r.append(plain(fn()))
        except Exception as e:
            r.append(("raises", type(e).__name__))
    same(r[0], r[1], what)


def read_into(cls, name, b, *a):
    o = cls.__new__(cls)
    f = io.BytesIO(b)
    getattr(o, name)(f, *a)
    return [o, f.tell()]


@CHECK.sub("names", st.tuples(p20.when, p20.cert, p21.esl, p21.db, st.binary(max_size=40), st.binary(min_size=16, max_size=16)), quick=400, thorough=15000)
def names(case, ctx):
    t, c, m, ms, b, g = case
    u = uuid.UUID(bytes_le=g)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        # envelopes
        w = p20.b_cert(c)
        mk = lambda: wc.WinCert.factory(io.BytesIO(w))
        cls = type(mk())
        alias("Factory", lambda: wc.WinCert.Factory(io.BytesIO(w)), mk)
        alias("PopulateFromFileStream", lambda: read_into(cls, "PopulateFromFileStream", w + b), lambda: read_into(cls, "decode", w + b))
        alias("Write", lambda: stream(mk().Write), lambda: stream(mk().write))
        alias("CertData", lambda: mk().CertData, lambda: mk().cert_data)
        props = [("CertData", "cert_data", b)]
        if c[0] == "guid":
            alias("Encode", lambda: mk().Encode(), lambda: mk().encode())
            alias("Decode", lambda: cls().Decode(w + b), lambda: cls().decode(w + b))
            alias("GetCertificate", lambda: mk().GetCertificate(), lambda: mk().get_certificate())
            props.append(("CertType", "cert_type", u))
            make = cls
        else:
            props.append(("HashAlgorithm", "hash_algorithm", u))

            def make():
                o = cls()
                o.set_hash_algorithm(u)
                return o

        def added(name):
            o = make()
            getattr(o, name)(io.BytesIO(b))
            return o

        alias("AddCertData", lambda: added("AddCertData"), lambda: added("add_cert_data"))

        # entries, lists and databases
        k, n, es = m
        for i, (ow, d) in enumerate(es[:2]):
            e = lambda: p21.o_entry(k, ow, d, i)
            E = type(e())
            alias("GetBytes", lambda: e().GetBytes(), lambda: e().encode())
            alias("Write", lambda: stream(e().Write), lambda: stream(e().write))
            alias("GetTotalSize", lambda: e().GetTotalSize(), lambda: e().get_total_size())
            size = (16 + len(d),) if k == "x509" else ()
            alias("PopulateFromFileStream", lambda: read_into(E, "PopulateFromFileStream", ow + d + b, *size), lambda: read_into(E, "decode", ow + d + b, *size))
            alias("Factory", lambda: av.EfiSignatureDataFactory.Factory(io.BytesIO(ow + d), p21.GUIDS[k], 16 + len(d)), lambda: av.EfiSignatureDataFactory.factory(io.BytesIO(ow + d), p21.GUIDS[k], 16 + len(d)))
            alias("Create", lambda: av.EfiSignatureDataFactory.Create(p21.GUIDS[k], io.BytesIO(b), u), lambda: av.EfiSignatureDataFactory.create(p21.GUIDS[k], io.BytesIO(b), u))
            check_props(e, [("SignatureOwner", "signature_owner", u), ("SignatureData", "signature_data", d[::-1])])
        w1 = p21.b_esl(m)
        L = lambda: p21.o_esl(m)
        alias("Write", lambda: stream(L().Write), lambda: stream(L().write))
        alias("GetBytes", lambda: L().GetBytes(), lambda: L().encode())
        alias("PopulateFromFileStream", lambda: read_into(av.EfiSignatureList, "PopulateFromFileStream", w1 + b), lambda: read_into(av.EfiSignatureList, "decode", w1 + b))
        check_props(L, [("SignatureData_List", "signature_data_list", (L().signature_data_list or [])[::-1])])
        D = lambda: av.EfiSignatureDatabase(esl_list=[p21.o_esl(x) for x in ms])
        w2 = b"".join(map(p21.b_esl, ms))
        alias("Write", lambda: stream(D().Write), lambda: stream(D().write))
        alias("GetBytes", lambda: D().GetBytes(), lambda: D().encode())
        alias("PopulateFromFileStream", lambda: read_into(av.EfiSignatureDatabase, "PopulateFromFileStream", w2), lambda: read_into(av.EfiSignatureDatabase, "decode", w2))
        check_props(D, [("EslList", "esl_list", [L()])])
        for old, new in (("GetCanonicalAndDupes", "get_canonical_and_dupes"), ("GetCanonical", "get_canonical"), ("GetDuplicates", "get_duplicates")):
            alias(old, lambda: getattr(D(), old)(), lambda: getattr(D(), new)())

        # timestamps and descriptors
        when = datetime.datetime(*t)
        T = lambda: av.EfiTime(time=when)
        alias("Encode", lambda: T().Encode(), lambda: T().encode())
        alias("Write", lambda: stream(T().Write), lambda: stream(T().write))
        alias("PopulateFromFileStream", lambda: read_into(av.EfiTime, "PopulateFromFileStream", p20.b_time(t) + b), lambda: read_into(av.EfiTime, "decode", p20.b_time(t) + b))
        w3 = p20.b_time(t) + w + b
        V = lambda: av.EfiVariableAuthentication2(decodefs=io.BytesIO(w3))
        alias("Encode", lambda: V().Encode(), lambda: V().encode())
        alias("Encode to a stream", lambda: stream(V().Encode), lambda: stream(V().write))
        alias("Write", lambda: stream(V().Write), lambda: stream(V().write))
        alias("PopulateFromFileStream", lambda: read_into(av.EfiVariableAuthentication2, "PopulateFromFileStream", w3), lambda: read_into(av.EfiVariableAuthentication2, "decode", w3))
        alias("EFiVariableAuthentication2", lambda: av.EFiVariableAuthentication2(decodefs=io.BytesIO(w3)).encode(), lambda: V().encode())
        alias("EFiVariableAuthentication2 of a time", lambda: av.EFiVariableAuthentication2(when).encode(), lambda: av.EfiVariableAuthentication2(when).encode())

        def paid(name):
            o = V()
            getattr(o, name)(io.BytesIO(d2))
            return [o, o.payload, o.payload_size]

        d2 = b + g
        alias("SetPayload", lambda: paid("SetPayload"), lambda: paid("set_payload"))
        # properties last: they change the objects
        check_props(mk, props)
    ctx.nontrivial(len(ms) > 1 and len(b) > 0)


def check_props(make, props):
    for old, new, v in props:
        o = make()
        same(plain(getattr(o, old)), plain(getattr(o, new)), old)
        setattr(o, old, v)
        same((plain(getattr(o, new)), plain(getattr(o, old))), (plain(v), plain(v)), f"{new} after setting {old}")
        o = make()
        setattr(o, new, v)
        same(plain(getattr(o, old)), plain(v), f"{old} after setting {new}")


# ---- new objects ----
SET = {
    FmpPayloadHeaderClass: (lambda: p19.b_payload(dict(fw=0, lsv=0, ext=b"", data=b"")), {"FwVersion": ("fw", 32), "LowestSupportedVersion": ("lsv", 32)}, dict(fw=0, lsv=0, ext=b"", data=b""), p19.b_payload),
    FmpAuthHeaderClass: (None, {"MonotonicCount": ("mono", 64)}, dict(mono=0, cert=b"", pl=None), p19.b_auth),
    FmpCapsuleImageHeaderClass: (None, {"UpdateHardwareInstance": ("hw", 64), "UpdateImageIndex": ("index", 8)}, dict(ver=2, type=b"\0" * 16, index=0, hw=0, auth=None, vendor=b""), p19.b_image),
    FmpCapsuleHeaderClass: (None, {}, dict(ver=1, drivers=[], images=[]), p19.b_fmp),
    UefiCapsuleHeaderClass: (None, {"OemFlags": ("oem", 16), "PersistAcrossReset": (0, 1), "PopulateSystemTable": (1, 1), "InitiateReset": (2, 1)}, None, None),
}


@CHECK.sub("fresh", st.tuples(st.sampled_from(list(range(len(SET)))), st.lists(st.integers(0, 9), max_size=2), st.integers(0, (1 << 64) - 1)), quick=300, thorough=3000)
def fresh(case, ctx):
    """An object of which only some fields were set encodes with the empty values in all others."""
    i, picks, v = case
    cls = list(SET)[i]
    _, attrs, base, enc = SET[cls]
    o = cls()
    setting = {}
    names_ = list(attrs)
    for p in picks:
        if names_:
            n = names_[p % len(names_)]
            key, bits = attrs[n]
            x = bool(v >> p & 1) if bits == 1 else v & ((1 << bits) - 1)
            if n == "UpdateImageIndex":
                x = x or 1
            setattr(o, n, x)
            setting[key] = x
    if cls is UefiCapsuleHeaderClass:
        m = {"oem": setting.get("oem", 0), "flags": tuple(setting.get(k, False) for k in range(3)), "ext": b"", "body": ("none",)}
        want = p19.wire(m)
    else:
        if cls is FmpCapsuleImageHeaderClass and "index" not in setting:
            o.UpdateImageIndex = setting["index"] = 1
        want = enc(dict(base, **setting))
    same(bytes(o.Encode()), want, f"encoding of a fresh {cls.__name__} with {setting}")
    ctx.nontrivial(len(setting) > 0)
    ctx.label(cls.__name__)
