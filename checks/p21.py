"""P21: signature lists and databases encode and decode exactly."""
import hashlib
import io
import struct
import uuid

from edk2toollib.uefi.authenticated_variables_structure_support import (
    EfiSignatureDatabase,
    EfiSignatureDataEfiCertSha256,
    EfiSignatureDataEfiCertX509,
    EfiSignatureDataFactory,
    EfiSignatureList,
)
from pbt import Check, st
from pbt.core import expect, rejects, same

SHA = EfiSignatureDataFactory.EFI_CERT_SHA256_GUID
X509 = EfiSignatureDataFactory.EFI_CERT_X509_GUID

META = dict(
    title="Secure Boot signature lists and databases round-trip exactly",
    statement="A signature list of hashes or certificates built entry by entry, and a database of any such lists, empty lists included, encode to the UEFI layout with the list and entry sizes of their contents; decoding those bytes from a stream at any position gives back every list, entry, owner and value in order and consumes exactly those bytes, and encoding again gives the same bytes. Entries of another size, second headers and merges of unlike lists are refused; truncated or inconsistent lists are refused, never read past their end and never loop.",
    over=["inputs", "histories"],
    text="every list of lists of entries, every build order, stream position and truncation",
    why="The tests round-trip one fixed database; size and boundary errors need empty lists, several certificates and lists in other orders.",
    files=["edk2toollib/uefi/authenticated_variables_structure_support.py"],
    mechanism=[("entries", "EfiSignatureDataEfiCertX509 / EfiSignatureDataEfiCertSha256 decode / encode"), ("entry kind", "EfiSignatureDataFactory.factory / create"),
               ("lists", "EfiSignatureList.decode / write / AddSignatureData / MergeSignatureList"), ("databases", "EfiSignatureDatabase.decode / write")],
    technique="property-based testing: round trips and build histories against an independent byte-level model, with damaged variants",
    note="signature headers (not supported by the library, none is defined by UEFI) are absent; lists hold SHA-256 or X.509 entries",
)
CHECK = Check("P21", "the database has at least two lists, or a list at least two entries")

owner = st.one_of(st.just(b"\x11" * 16), st.binary(min_size=16, max_size=16))
digest = st.one_of(st.integers(0, 3).map(lambda i: bytes([i]) * 32), st.binary(min_size=32, max_size=32))
sha_list = st.lists(st.tuples(owner, digest), max_size=5).map(lambda es: ("sha", 32, es))
x509_list = st.integers(1, 40).flatmap(lambda n: st.lists(st.tuples(owner, st.binary(min_size=n, max_size=n)), max_size=3).map(lambda es: ("x509", n, es)))
esl = st.one_of(sha_list, x509_list)
db = st.lists(esl, max_size=5)
pre = st.binary(max_size=9)
GUIDS = {"sha": SHA, "x509": X509}


def b_esl(m, empty_size=True):
    k, n, es = m
    size = 16 + n if es or empty_size else 0
    return GUIDS[k].bytes_le + struct.pack("<III", 28 + len(es) * (16 + n), 0, size) + b"".join(o + d for o, d in es)


def o_entry(k, o, d, how=0):
    u = uuid.UUID(bytes_le=o)
    if k == "sha":
        return EfiSignatureDataEfiCertSha256(digest=d, sigowner=u) if how % 2 else EfiSignatureDataEfiCertSha256(decodefs=io.BytesIO(o + d))
    if how % 3 == 0:
        return EfiSignatureDataEfiCertX509(cert=d, sigowner=u)
    if how % 3 == 1:
        return EfiSignatureDataEfiCertX509(createfs=io.BytesIO(d), sigowner=u)
    return EfiSignatureDataEfiCertX509(decodefs=io.BytesIO(o + d), decodesize=16 + len(d))


def o_esl(m, how=0):
    k, n, es = m
    e = EfiSignatureList(typeguid=GUIDS[k])
    e.AddSignatureHeader(None, SigSize=16 + n)
    for i, (o, d) in enumerate(es):
        e.AddSignatureData(o_entry(k, o, d, how + i))
    return e


def c_esl(o, m):
    k, n, es = m
    same(o.signature_type, GUIDS[k], "type")
    same((o.signature_list_size, o.signature_header_size), (28 + len(es) * (16 + n), 0), "sizes")
    if es:
        same(o.signature_size, 16 + n, "entry size")
    got = [(x.signature_owner.bytes_le, bytes(x.signature_data)) for x in o.signature_data_list or []]
    same(got, list(es), "entries")
    for x in o.signature_data_list or []:
        same(x.get_total_size(), 16 + n, "entry total size")


def c_db(o, ms):
    same(len(o.esl_list), len(ms), "number of lists")
    for a, b in zip(o.esl_list, ms):
        c_esl(a, b)


def written(o):
    f = io.BytesIO()
    o.write(f)
    return f.getvalue()


@CHECK.sub("entry", st.tuples(st.one_of(st.tuples(st.just("sha"), owner, digest), st.tuples(st.just("x509"), owner, st.binary(max_size=40))), pre, pre, st.integers(0, 5)), quick=500, thorough=20000)
def entry(case, ctx):
    (k, o, d), before, after, how = case
    if k == "x509" and not d:
        how = 0
    e = o_entry(k, o, d, how)
    same((e.signature_owner.bytes_le, bytes(e.signature_data), e.get_total_size()), (o, d, 16 + len(d)), "entry")
    same((bytes(e.encode()), written(e)), (o + d, o + d), "encode and write")
    f = io.BytesIO(before + o + d + after)
    f.seek(len(before))
    e2 = EfiSignatureDataFactory.factory(f, GUIDS[k], 16 + len(d))
    same((e2.signature_owner.bytes_le, bytes(e2.signature_data), e2.get_total_size()), (o, d, 16 + len(d)), "decoded entry")
    same(f.tell(), len(before) + 16 + len(d), "stream position")
    same(bytes(e2.encode()), o + d, "encode after decode")
    buf = io.StringIO()
    e2.print(compact=True, outfs=buf)
    same(buf.getvalue(), f"ESD:EFI_CERT_{'SHA256' if k == 'sha' else 'X509'},{uuid.UUID(bytes_le=o)},{d.hex().upper()}\n", "compact text")
    buf = io.StringIO()
    e2.print(outfs=buf)
    expect(str(uuid.UUID(bytes_le=o)) in buf.getvalue(), "owner missing in the report")
    # from content
    f = io.BytesIO(before + d)
    f.seek(len(before))
    e3 = EfiSignatureDataFactory.create(GUIDS[k], f, uuid.UUID(bytes_le=o))
    same((e3.signature_owner.bytes_le, bytes(e3.signature_data)), (o, hashlib.sha256(d).digest() if k == "sha" else d), "created from content")
    for n in range(16 + len(d)):
        rejects(EfiSignatureDataFactory.factory, io.BytesIO((o + d)[:n]), GUIDS[k], 16 + len(d), what=f"{n} bytes of an entry")
    for n in {0, 1, 15}:
        rejects(EfiSignatureDataFactory.factory, io.BytesIO(o + d + b"x" * 64), GUIDS[k], n, what=f"an entry of size {n}")
    ctx.nontrivial(len(before) > 0 and len(after) > 0)


@CHECK.sub("database", st.tuples(db, pre, st.integers(0, 5)), quick=1200, thorough=60000, shards=2)
def database(case, ctx):
    ms, before, how = case
    w = b"".join(map(b_esl, ms))
    o = EfiSignatureDatabase(esl_list=[o_esl(m, how) for m in ms])
    same(bytes(o.encode()), w, "encode of a built database")
    same(written(o), w, "write of a built database")
    f = io.BytesIO(before + w)
    f.seek(len(before))
    d = EfiSignatureDatabase(filestream=f)
    c_db(d, ms)
    same(f.tell(), len(before) + len(w), "stream position")
    same(bytes(d.encode()), w, "encode after decode")
    # a used object decodes again as a fresh one
    d.decode(io.BytesIO(b_esl(("sha", 32, [(b"a" * 16, b"b" * 32)]))))
    c_db(d, [("sha", 32, [(b"a" * 16, b"b" * 32)])])
    buf = io.StringIO()
    o.print(compact=True, outfs=buf)
    lines = buf.getvalue().splitlines()
    same([ln[:4] for ln in lines], [p for m in ms for p in ["ESL:"] + ["ESD:"] * len(m[2])], "compact report lines")
    buf = io.StringIO()
    o.print(outfs=buf)
    ctx.nontrivial(len(ms) > 1 or any(len(m[2]) > 1 for m in ms))
    ctx.label(*{m[0] + ("" if m[2] else "-empty") for m in ms})


@CHECK.sub("one_list", st.tuples(esl, pre, pre), quick=500, thorough=20000)
def one_list(case, ctx):
    m, before, after = case
    for empty in (True, False):
        w = b_esl(m, empty)
        f = io.BytesIO(before + w + after)
        f.seek(len(before))
        o = EfiSignatureList(filestream=f)
        c_esl(o, m)
        same(f.tell(), len(before) + len(w), "stream position")
        same((bytes(o.encode()), written(o)), (w, w), "encode and write")
    ctx.nontrivial(len(m[2]) > 1)


@CHECK.sub("merge", st.tuples(st.lists(sha_list, min_size=2, max_size=4), x509_list, st.booleans(), st.integers(0, 3)), quick=400, thorough=20000)
def merge(case, ctx):
    ls, x, decoded, how = case

    def get(m):
        return EfiSignatureList(filestream=io.BytesIO(b_esl(m, empty_size=False))) if decoded else o_esl(m, how)

    if how == 3:
        a, acc = EfiSignatureList(typeguid=SHA), []
    else:
        a, acc = get(ls[0]), list(ls[0][2])
        ls = ls[1:]
    for m in ls:
        b = get(m)
        a.MergeSignatureList(b)
        acc += m[2]
        c_esl(a, ("sha", 32, acc))
        if acc:
            same(bytes(a.encode()), b_esl(("sha", 32, acc)), "encode after a merge")
        c_esl(b, m)
    before = bytes(a.encode())
    rejects(a.MergeSignatureList, o_esl(x), what="merge of a certificate list into a hash list")
    rejects(a.MergeSignatureList, None, what="merge of nothing")
    y = o_esl(x)
    yb = bytes(y.encode())
    if x[2]:
        rejects(y.MergeSignatureList, o_esl(x), what="merge of certificate lists")
    rejects(y.MergeSignatureList, a, what="merge of a hash list into a certificate list")
    same((bytes(a.encode()), bytes(y.encode())), (before, yb), "lists after refused merges")
    if acc:
        e = o_entry("sha", b"o" * 16, b"d" * 32)
        a.AddSignatureData(e)
        c_esl(a, ("sha", 32, acc + [(b"o" * 16, b"d" * 32)]))
    ctx.nontrivial(len(acc) > 1)


@CHECK.sub("misuse", st.tuples(esl, st.integers(1, 60)), quick=200, thorough=8000)
def misuse(case, ctx):
    m, n = case
    o = o_esl(m)
    w = bytes(o.encode())
    if 16 + n != 16 + m[1]:
        rejects(o.AddSignatureData, EfiSignatureDataEfiCertX509(cert=b"c" * n, sigowner=uuid.UUID(int=1)), what="entry of another size")
    rejects(o.AddSignatureHeader, None, 48, what="second header")
    same(bytes(o.encode()), w, "list after refused changes")
    fresh = EfiSignatureList(typeguid=GUIDS[m[0]])
    rejects(fresh.encode, what="encode of a list without header")
    rejects(fresh.AddSignatureData, o_entry("sha", b"o" * 16, b"d" * 32), what="entry before the size is known")
    rejects(EfiSignatureDataEfiCertSha256, digest=b"x" * (n if n != 32 else 33), sigowner=uuid.UUID(int=1), what="digest of a wrong length")
    ctx.nontrivial(len(m[2]) > 0)


@CHECK.sub("damaged", st.tuples(db.filter(lambda d: len(d) > 0), st.sampled_from(["trunc", "lsize", "hsize", "esize", "esize16", "type", "biglist"]), st.integers(0, 0xFFFFFFFF)), quick=1000, thorough=60000, cpu_limit=10)
def damaged(case, ctx):
    ms, how, n = case
    w = bytearray(b"".join(map(b_esl, ms)))
    at, i = 0, n % len(ms)
    at = sum(len(b_esl(m)) for m in ms[:i])
    k, size, es = ms[i]
    lsize = 28 + len(es) * (16 + size)
    if how == "trunc":
        cut = n % len(w)
        if cut in {sum(len(b_esl(m)) for m in ms[:j]) for j in range(len(ms))}:
            return
        w = w[:cut]
    elif how == "lsize":
        w[at + 16:at + 20] = struct.pack("<I", n % 28)
    elif how == "biglist":
        w[at + 16:at + 20] = struct.pack("<I", min(len(w) - at + 1 + n, 0xFFFFFFFF))
    elif how == "hsize":
        w[at + 20:at + 24] = struct.pack("<I", max(n, 1))
    elif how == "esize":
        if not es:
            return
        v = n % 4096
        if v >= 16 and v and (lsize - 28) % v == 0 and (k == "x509" or v == 48):
            return
        w[at + 24:at + 28] = struct.pack("<I", v)
    elif how == "esize16":
        if not es:
            return
        w[at + 24:at + 28] = struct.pack("<I", n % 16)
    elif how == "type":
        if not es:
            return
        w[at + n % 16] ^= 1 + n % 255
        if bytes(w[at:at + 16]) in (SHA.bytes_le, X509.bytes_le):
            return
    w = bytes(w)
    rejects(EfiSignatureDatabase, filestream=io.BytesIO(w), what=f"database damaged by {how}")
    rejects(EfiSignatureDatabase().decode, io.BytesIO(w), what=f"database damaged by {how}")
    ctx.nontrivial()
    ctx.label(how)


def poke(t):
    ms, pokes, tail = t
    w = bytearray(b"".join(map(b_esl, ms)) + tail)
    for off, v in pokes:
        if w:
            w[off % len(w)] = v
    return bytes(w)


@CHECK.sub("noise", st.tuples(db, st.lists(st.tuples(st.integers(0, 400), st.sampled_from([0, 1, 16, 28, 44, 48, 76, 255])), max_size=3), st.binary(max_size=3)).map(poke), quick=1500, thorough=100000, cpu_limit=10)
def noise(case, ctx):
    """Whatever is accepted is reproduced by encode, entry by entry of the stated size."""
    try:
        o = EfiSignatureDatabase(filestream=io.BytesIO(case))
    except Exception:
        return
    same(bytes(o.encode()), case, "encode of an accepted database")
    for e in o.esl_list:
        for x in e.signature_data_list:
            same(x.get_total_size(), e.signature_size, "entry size")
            same(len(x.encode()), e.signature_size, "entry length")
    ctx.nontrivial(len(case) > 28)
