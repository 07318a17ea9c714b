"""P23: signed authenticated variables verify."""
import datetime
import io
import os
import struct
import uuid
from types import SimpleNamespace

from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.serialization import Encoding, load_pem_private_key
from pyasn1.codec.der.decoder import decode as der_decode
from pyasn1.codec.der.encoder import encode as der_encode
from pyasn1_modules import rfc2315

from edk2toollib.uefi.authenticated_variables_structure_support import EfiVariableAuthentication2, EfiVariableAuthentication2Builder
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Signed variables carry a verifiable signature over what is written",
    statement="A variable built from any name, namespace, attributes, time and payload, with the payload replaced any number of times, signs exactly the bytes UEFI defines: name in UTF-16, namespace, attributes, time and the final payload. The finished variable holds the time, a PKCS#7 envelope with the signing certificates, the additional ones and for every signer one detached signature that verifies over those bytes with the chosen hash, and the same payload; with or without the outer content wrapper as asked, and decoding it gives it back unchanged.",
    over=["inputs", "histories"],
    text="every name, attribute set, time, payload, hash, set of signers and sequence of payload replacements",
    why="The test signs one variable and only looks for words in its printout; nothing checks that the signature verifies.",
    files=["edk2toollib/uefi/authenticated_variables_structure_support.py"],
    mechanism=[("signed bytes", "EfiVariableAuthentication2Builder.__init__ / update_payload"), ("signature", "EfiVariableAuthentication2Builder.sign / finalize"),
               ("result", "EfiVariableAuthentication2.encode / decode / print")],
    technique="property-based testing: independent verification of the produced PKCS#7 signature over independently computed bytes",
    note="keys are three fixed RSA keys of 2048 and 3072 bits",
)
CHECK = Check("P23", "the payload is non-empty and was replaced at least once, or additional certificates or signers are included")


def load(i):
    p = open(os.path.join(os.path.dirname(__file__), "data", f"k{i}.pem"), "rb").read()
    return load_pem_private_key(p, None), x509.load_pem_x509_certificate(p)


KEYS = [load(i) for i in range(3)]
HASH = {"sha256": hashes.SHA256, "sha384": hashes.SHA384, "sha512": hashes.SHA512}
ATTRS = [("NV", 1), ("BS", 2), ("RT", 4), ("HW", 8), ("AW", 16), ("AT", 32), ("AP", 64)]
# a signature list of hashes, the usual payload
siglist = st.lists(st.binary(min_size=48, max_size=48), max_size=2).map(
    lambda d: uuid.UUID("c1c41626-504c-4092-aca9-41f936934328").bytes_le + struct.pack("<III", 28 + 48 * len(d), 0, 48) + b"".join(d))
payload = st.one_of(st.binary(max_size=40), st.just(b"\r\n\n\r line\n"), st.just(b"S\xa0\0"), siglist)
# a replacement is new, or made from the payload before it
RELATED = {"append": lambda o, p: o + p, "prepend": lambda o, p: p + o, "cut": lambda o, p: o[: -1 - len(p) // 8], "behead": lambda o, p: o[1 + len(p) // 8 :],
           "same": lambda o, p: o, "reverse": lambda o, p: o[::-1], "twice": lambda o, p: o + o, "zero": lambda o, p: bytes(len(o)), "empty": lambda o, p: b""}
update = st.one_of(payload.map(lambda p: (None, p)), st.tuples(st.sampled_from(sorted(RELATED)), payload))
name = st.one_of(st.sampled_from(["PK", "KEK", "db", "dbx", "MockVariable"]), st.text(st.characters(codec="utf-16"), min_size=1, max_size=12))
when = st.datetimes(min_value=datetime.datetime(1998, 1, 1), max_value=datetime.datetime(9999, 12, 31)).map(lambda d: (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond))
case_st = st.fixed_dictionaries({
    "name": name, "guid": st.binary(min_size=16, max_size=16), "attrs": st.lists(st.sampled_from(ATTRS), min_size=1, max_size=7, unique=True), "form": st.integers(0, 5),
    "time": when, "first": st.one_of(st.none(), payload), "updates": st.lists(st.tuples(update, st.booleans(), st.binary(max_size=5)), max_size=3),
    "key": st.integers(0, 2), "extra": st.lists(st.integers(0, 2), max_size=2, unique=True), "hash": st.sampled_from([None, "sha256", "sha384", "sha512"]), "wrap": st.booleans(),
    "more": st.lists(st.integers(0, 2), max_size=2, unique=True),
})


def build(m):
    a = 0
    for _, v in m["attrs"]:
        a |= v
    attrs = a if m["form"] % 2 else ",".join(n for n, _ in m["attrs"])
    g = uuid.UUID(bytes_le=m["guid"])
    t = datetime.datetime(*m["time"])
    b = EfiVariableAuthentication2Builder(m["name"], str(g) if m["form"] % 3 == 0 else g, attrs, m["first"], efi_time=t)
    head = m["name"].encode("utf-16-le") + m["guid"] + struct.pack("<I", a)
    tb = struct.pack("<H5BBIhBB", *m["time"][:6], 0, 0, 0, 0, 0)
    return b, head + tb, tb


def is_siglist(p):
    """Whether the payload is a sequence of signature lists of hashes (the only kind that is generated)."""
    while p:
        if len(p) < 28 or p[:16] != uuid.UUID("c1c41626-504c-4092-aca9-41f936934328").bytes_le:
            return False
        size, head, each = struct.unpack_from("<III", p, 16)
        if head or not 28 <= size <= len(p) or (size > 28 and (each != 48 or (size - 28) % 48)):
            return False
        p = p[size:]
        if not p:
            return True
    return False


def feed(b, m, fixed):
    """Replaces the payload as the case says; returns the final one."""
    last = m["first"] or b""
    same(bytes(b.get_digest()), fixed + last, "bytes to sign after construction")
    for (kind, p), stream, skip in m["updates"]:
        p = RELATED[kind](last, p) if kind else p
        if stream:
            f = io.BytesIO(skip + p)
            f.seek(len(skip))
            b.update_payload(f)
        else:
            b.update_payload(p)
        last = p
        same(bytes(b.get_digest()), fixed + last, "bytes to sign after a replacement")
        same(bytes(b.authenticated_variable.payload or b""), last, "payload after a replacement")
        same(b.authenticated_variable.payload_size, len(last), "payload size after a replacement")
        d = b.authenticated_variable.sig_list_payload
        same(None if d is None else bytes(d.encode()), last if is_siglist(last) else None, "signature lists of the payload")
    return last


@CHECK.sub("digest", case_st, quick=800, thorough=40000)
def digest(case, ctx):
    b, fixed, tb = build(case)
    last = feed(b, case, fixed)
    same(b.get_signature(), b"", "signature before signing")
    ctx.nontrivial(len(last) > 0 and len(case["updates"]) > 0)


@CHECK.sub("signature", case_st, quick=150, thorough=6000)
def signature(case, ctx):
    b, fixed, tb = build(case)
    last = feed(b, case, fixed)
    key, cert = KEYS[case["key"]]
    extra = [KEYS[i][1] for i in case["extra"] if i != case["key"]]
    kw = {"hash_algorithm": HASH[case["hash"]]()} if case["hash"] else {}
    b.sign(cert, key, [SimpleNamespace(certificate=c) if case["form"] < 3 else c for c in extra], **kw)
    # further signers sign the same bytes
    more = [i for i in case["more"] if i != case["key"]]
    for i in more:
        b.sign(KEYS[i][1], KEYS[i][0], **kw)
    v = b.finalize(omit_content_info=not case["wrap"])
    der = bytes(v.auth_info.get_certificate())
    same(bytes(b.get_signature()), der, "signature of the builder")
    w = tb + struct.pack("<IHH", 24 + len(der), 0x200, 0xEF1) + uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7").bytes_le + der + last
    same(bytes(v.encode()), w, "finished variable")
    f = io.BytesIO()
    v.write(f)
    same(f.getvalue(), w, "written variable")
    # the envelope
    if case["wrap"]:
        ci, rest = der_decode(der, asn1Spec=rfc2315.ContentInfo())
        same(bytes(rest), b"", "bytes after the wrapper")
        same(ci["contentType"], rfc2315.signedData, "wrapped type")
        sd, rest = der_decode(ci["content"], asn1Spec=rfc2315.SignedData())
    else:
        sd, rest = der_decode(der, asn1Spec=rfc2315.SignedData())
    same(bytes(rest), b"", "bytes after the signed data")
    expect(not sd["contentInfo"]["content"].hasValue(), "the signature is not detached")
    got = sorted(der_encode(c) for c in sd["certificates"])
    same(sorted(set(got)), sorted({c.public_bytes(Encoding.DER) for c in [cert, *extra, *(KEYS[i][1] for i in more)]}), "certificates")
    signers = {c.serial_number: c for c in [cert, *(KEYS[i][1] for i in more)]}
    same(sorted(int(si["issuerAndSerialNumber"]["serialNumber"]) for si in sd["signerInfos"]), sorted(signers), "signers")
    for si in sd["signerInfos"]:
        expect(not si["authenticatedAttributes"].hasValue() or len(si["authenticatedAttributes"]) == 0, "signed attributes present")
        h = HASH[case["hash"] or "sha256"]()
        signers[int(si["issuerAndSerialNumber"]["serialNumber"])].public_key().verify(bytes(si["encryptedDigest"]), fixed + last, padding.PKCS1v15(), h)
        oid = {"sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3"}[case["hash"] or "sha256"]
        same(str(si["digestAlgorithm"]["algorithm"]), oid, "digest algorithm")
    # decoding gives it back
    o = EfiVariableAuthentication2(decodefs=io.BytesIO(w))
    same(bytes(o.encode()), w, "encode after decode")
    same(o.time.get_datetime(), datetime.datetime(*case["time"][:6]), "time after decode")
    if last:
        out = io.StringIO()
        o.print(out)
        expect(("ContentInfo" if case["wrap"] else "SignedData") in out.getvalue() and "VARIABLE PAYLOAD" in out.getvalue(), "report")
    ctx.nontrivial((len(last) > 0 and len(case["updates"]) > 0) or len(extra) + len(more) > 0)
    ctx.label(case["hash"] or "default", "wrapped" if case["wrap"] else "bare")


@CHECK.sub("refused", st.tuples(case_st, st.sampled_from([b"x" * 16, 7, None, "not a guid"]), st.sampled_from(["XX", "NV BS", "NV,,BS", "EFI_VARIABLE_NON"])), quick=60, thorough=2000)
def refused(case, ctx):
    m, g, a = case
    rejects(EfiVariableAuthentication2Builder, m["name"], g, 1, exc=(ValueError, TypeError), what="a wrong namespace")
    rejects(EfiVariableAuthentication2Builder, m["name"], str(uuid.UUID(bytes_le=m["guid"])), a, exc=ValueError, what="unknown attributes")
    rejects(EfiVariableAuthentication2Builder, m["name"], str(uuid.UUID(bytes_le=m["guid"])), None, exc=TypeError, what="no attributes")
    b, _, _ = build(m)
    rejects(b.finalize, what="finalizing an unsigned variable")
    ctx.nontrivial(len(m["updates"]) > 0)
