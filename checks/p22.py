"""P22: canonical signature databases."""
import io
from collections import Counter

from checks.p21 import SHA, b_esl, c_esl, digest, o_entry, o_esl, owner
from edk2toollib.uefi.authenticated_variables_structure_support import EfiSignatureDatabase, EfiSignatureList
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Canonical signature databases: sorted, deduplicated, nothing lost",
    statement="The canonical form of a signature database is one list with every distinct hash in ascending order followed by one list per distinct certificate in ascending order, each keeping the first owner seen; the duplicates are exactly the remaining entries, so that canonical form and duplicates together hold the original entries, no more and no fewer. The result depends on contents, not on object identity, survives encoding and decoding, is its own canonical form, and computing it leaves the database unchanged however often it is asked for. Sorting a list orders it by value, removes exactly the repeated values when asked to and reports them, with all sizes kept right.",
    over=["inputs", "histories"],
    text="every database of hash and certificate lists with repetitions, and every sequence of queries on one database",
    why="The tests compare two fixed databases built from shared objects, once each; sharing and repeated queries hide duplicates that are equal but not identical.",
    files=["edk2toollib/uefi/authenticated_variables_structure_support.py"],
    mechanism=[("canonical form", "EfiSignatureDatabase.get_canonical_and_dupes"), ("merge", "EfiSignatureList.MergeSignatureList"), ("sort and deduplicate", "EfiSignatureList.SortBySignatureDataValue")],
    technique="property-based testing: comparison with a reference canonical form computed over plain lists, and query histories",
    note="certificate lists hold one certificate each, as firmware writes them; hash lists hold any number of entries",
)
CHECK = Check("P22", "the database holds a repeated value and at least two lists")

small = st.one_of(st.integers(0, 3).map(lambda i: bytes([i]) * 32), digest)
own = st.one_of(st.sampled_from([b"\x01" * 16, b"\x02" * 16]), owner)
shal = st.lists(st.tuples(own, small), max_size=5).map(lambda es: ("sha", 32, es))
certs = st.one_of(st.sampled_from([b"a", b"b", b"ab", b"abc", b"\xff", b"\x00\x01"]), st.binary(min_size=1, max_size=12))
x509l = st.tuples(own, certs).map(lambda e: ("x509", len(e[1]), [e]))
x509e = st.just(("x509", 5, []))
DB = st.lists(st.one_of(shal, x509l, x509l, x509e), max_size=7)


def ref(ms):
    """(canonical, duplicates): lists of (kind, [(owner, data)])."""
    sha = sorted((e for m in ms if m[0] == "sha" for e in m[2]), key=lambda e: e[1])
    x = sorted((e for m in ms if m[0] == "x509" for e in m[2]), key=lambda e: e[1])

    def split(es):
        keep, dup = [], []
        for e in es:
            (dup if keep and keep[-1][1] == e[1] else keep).append(e)
        return keep, dup

    (sk, sd), (xk, xd) = split(sha), split(x)
    return sk, sd, xk, xd


def entries(o):
    return [(e.signature_owner.bytes_le, bytes(e.signature_data)) for lst in o.esl_list for e in lst.signature_data_list or []]


def check_canonical(can, dup, ms):
    sk, sd, xk, xd = ref(ms)
    want = ([("sha", 32, sk)] if sk else []) + [("x509", len(e[1]), [e]) for e in xk]
    same(len(can.esl_list), len(want), "number of canonical lists")
    for a, b in zip(can.esl_list, want):
        c_esl(a, b)
    same(bytes(can.encode()), b"".join(map(b_esl, want)), "encoded canonical form")
    same(entries(dup), sd + xd, "duplicates")
    same(Counter(entries(can) + entries(dup)), Counter(e for m in ms for e in m[2]), "canonical form and duplicates together")
    for e in dup.esl_list:
        n = len(e.signature_data_list or [])
        same(e.signature_list_size, 28 + n * e.signature_size, "size of a list of duplicates")
    back = EfiSignatureDatabase()
    back.decode(io.BytesIO(dup.encode()))
    same(entries(back), sd + xd, "duplicates after encoding and decoding")


@CHECK.sub("canonical", st.tuples(DB, st.booleans(), st.lists(st.sampled_from(["both", "canonical", "dupes", "encode"]), min_size=1, max_size=4)), quick=1500, thorough=80000, shards=2)
def canonical(case, ctx):
    ms, decoded, calls = case
    db = EfiSignatureDatabase(esl_list=[o_esl(m) for m in ms])
    w = bytes(db.encode())
    if decoded:
        db = EfiSignatureDatabase(filestream=io.BytesIO(w))
    for c in calls:
        if c == "both":
            check_canonical(*db.get_canonical_and_dupes(), ms)
        elif c == "canonical":
            can = db.get_canonical()
            check_canonical(can, db.get_duplicates(), ms)
            # canonical form of the canonical form
            again, none = can.get_canonical_and_dupes()
            same(bytes(again.encode()), bytes(can.encode()), "canonical form of the canonical form")
            same(entries(none), [], "duplicates in the canonical form")
            same(bytes(EfiSignatureDatabase(filestream=io.BytesIO(can.encode())).get_canonical().encode()), bytes(can.encode()), "canonical form after decoding")
        elif c == "dupes":
            _, sd, _, xd = ref(ms)
            same(entries(db.get_duplicates()), sd + xd, "duplicates")
        same(bytes(db.encode()), w, f"the database after {c}")
    flat = [e[1] for m in ms for e in m[2]]
    ctx.nontrivial(len(ms) > 1 and len(set(flat)) < len(flat))
    ctx.label("x509-dup" if ref(ms)[3] else "no-x509-dup")


@CHECK.sub("shared", st.tuples(st.lists(st.one_of(x509l, shal.filter(lambda m: m[2])), min_size=1, max_size=3), st.lists(st.integers(0, 9), min_size=1, max_size=6), st.booleans()), quick=600, thorough=20000)
def shared(case, ctx):
    """The same list object, or the same entry object, used several times in one database."""
    pool, picks, entry = case
    objs, cache = [], {}
    for m in pool:
        e = o_esl((*m[:2], []))
        for x in m[2]:
            # one object per distinct entry
            d = cache.setdefault((m[0], *x), o_entry(m[0], *x)) if entry else o_entry(m[0], *x)
            e.AddSignatureData(d)
        objs.append(e)
    ms = [pool[i % len(pool)] for i in picks]
    db = EfiSignatureDatabase(esl_list=[objs[i % len(pool)] for i in picks])
    w = bytes(db.encode())
    check_canonical(*db.get_canonical_and_dupes(), ms)
    same(bytes(db.encode()), w, "the database afterwards")
    ctx.nontrivial(len(ms) > len({i % len(pool) for i in picks}) or (entry and len(cache) < sum(len(m[2]) for m in pool)))


@CHECK.sub("sort", st.tuples(shal, st.booleans(), st.booleans(), st.lists(st.tuples(own, small), max_size=3), st.booleans()), quick=800, thorough=40000)
def sort(case, ctx):
    m, dedup, decoded, more, one = case
    o = EfiSignatureList(filestream=io.BytesIO(b_esl(m))) if decoded else o_esl(m)
    if one and o.signature_data_list:
        cache = {}
        o.signature_data_list = [cache.setdefault((e.signature_owner, bytes(e.signature_data)), e) for e in o.signature_data_list]
    es = list(m[2])
    for step in range(2):
        o_sorted = sorted(es, key=lambda e: e[1])
        dup = o.SortBySignatureDataValue(deduplicate=dedup)
        sk, sd, _, _ = ref([("sha", 32, es)])
        c_esl(o, ("sha", 32, sk if dedup else o_sorted))
        c_esl(dup, ("sha", 32, sd if dedup else []))
        if es:
            same(bytes(o.encode()), b_esl(("sha", 32, sk if dedup else o_sorted)), "encode after sorting")
        same(bytes(dup.encode()), b_esl(("sha", 32, sd if dedup else []), empty_size=False), "encoded duplicates")
        es = (sk if dedup else o_sorted) + list(more)
        for e in more:
            o.AddSignatureData(o_entry("sha", *e))
    ctx.nontrivial(len({e[1] for e in m[2]}) < len(m[2]))


@CHECK.sub("unsupported", st.tuples(DB, st.binary(min_size=16, max_size=16)), quick=60, thorough=2000)
def unsupported(case, ctx):
    import uuid

    ms, g = case
    u = uuid.UUID(bytes_le=g)
    e = EfiSignatureList(typeguid=u)
    e.AddSignatureHeader(None, SigSize=48)
    e.AddSignatureData(o_entry("sha", b"o" * 16, b"d" * 32))
    db = EfiSignatureDatabase(esl_list=[o_esl(m) for m in ms] + [e])
    w = bytes(db.encode())
    if u == SHA:
        return
    rejects(db.get_canonical_and_dupes, what="canonical form of an unsupported signature type")
    same(bytes(db.encode()), w, "the database after the refusal")
    expect(len(db.esl_list) == len(ms) + 1, "lists lost")
    ctx.nontrivial(len(ms) > 1)
