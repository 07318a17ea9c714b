"""P32: TPM policy digests, command streams and the simulator transport."""
import hashlib
import socket
import struct
import threading
from unittest import mock
import time
import types

from checks.tpmcodes import COMMANDS
from edk2toollib.tpm import tpm2_defs as t2d
from edk2toollib.tpm import tpm2_policy_calc as pc
from edk2toollib.tpm import tpm2_simulator as sim
from edk2toollib.tpm import tpm2_stream as ts
from pbt import Check, st
from pbt.core import expect, fail, rejects, same

META = dict(
    title="TPM policy digests and command streams follow the TPM 2.0 specification",
    statement="The digest computed for any tree of policy assertions joined by AND and OR is the one a TPM 2.0 computes for that policy, with either hash and however often it is asked for; assertions and junctions the specification does not allow are refused. A command stream is the big-endian encoding of its header and elements in order with a size field equal to its length, also after an element changed. A command sent to a TPM simulator arrives framed as the simulator protocol says, and its whole response is returned however the network splits it.",
    over=["inputs", "histories", "schedules"],
    text="every policy tree and hash, every sequence of stream edits, every split of a response on the wire",
    why="The tests compute six fixed digests, marshal a header and never talk to a simulator.",
    files=["edk2toollib/tpm/tpm2_policy_calc.py", "edk2toollib/tpm/tpm2_stream.py", "edk2toollib/tpm/tpm2_simulator.py"],
    mechanism=[("policies", "PolicyTreeOr / PolicyTreeAnd / PolicyTreeSolo, PolicyLocality, PolicyCommandCode, PolicyHasher"), ("streams", "Tpm2CommandStream, TPM2B, Tpm2StreamPrimitive"), ("transport", "TpmSimulator")],
    technique="property-based testing: reference model of the policy calculus, model-based stream edits, a loopback simulator that splits its responses",
    note="the simulator conversation runs over the loopback network",
)
CHECK = Check("P32", "the policy has an OR of at least two branches, the stream has at least two elements, or the response arrives in pieces")


def u(bits):
    return st.one_of(st.sampled_from([0, 1, (1 << bits) - 1, 1 << (bits - 1)]), st.integers(0, (1 << bits) - 1))


locs = st.one_of(st.lists(st.integers(0, 4), max_size=5), st.integers(32, 255).map(lambda n: [n]))
prim = st.one_of(st.tuples(st.just("loc"), locs), st.tuples(st.just("cc"), st.sampled_from(sorted(COMMANDS))))
several = st.one_of(st.lists(prim, max_size=5), st.tuples(st.lists(prim, min_size=1, max_size=2), st.lists(st.integers(0, 1), min_size=2, max_size=5)).map(lambda t: [t[0][i % len(t[0])] for i in t[1]]))
leaf = st.one_of(st.tuples(st.just("solo"), prim), st.tuples(st.just("and"), several))
tree = st.recursive(leaf, lambda t: st.tuples(st.just("or"), st.lists(t, max_size=8)), max_leaves=14)


def field(v):
    return v[0] if len(v) == 1 and v[0] >= 32 else sum(1 << n for n in set(v))


def claim(p):
    k, v = p
    return struct.pack(">LB", 0x16F, field(v)) if k == "loc" else struct.pack(">LL", 0x16C, COMMANDS[v])


def digest(t, h):
    k, v = t
    n = h().digest_size
    if k == "or":
        return h(bytes(n) + struct.pack(">L", 0x171) + b"".join(digest(x, h) for x in v)).digest()
    d = bytes(n)
    for p in [v] if k == "solo" else v:
        d = h(d + claim(p)).digest()
    return d


def obj(t):
    k, v = t
    if k == "or":
        return pc.PolicyTreeOr([obj(x) for x in v])
    made = {}  # equal assertions are one object that is used several times
    return pc.PolicyTreeSolo(pobj(v)) if k == "solo" else pc.PolicyTreeAnd([made.setdefault(repr(p), pobj(p)) for p in v])


def pobj(p):
    return (pc.PolicyLocality if p[0] == "loc" else pc.PolicyCommandCode)(p[1])


badloc = st.one_of(st.tuples(st.lists(st.integers(0, 4), max_size=3), st.one_of(st.integers(5, 31), st.integers(256, 400), st.integers(-40, -1)), st.integers(0, 3)), st.tuples(st.lists(st.one_of(st.integers(0, 4), st.integers(32, 255)), min_size=1, max_size=3), st.integers(32, 255), st.integers(0, 3)))


@CHECK.sub("policies", st.tuples(tree, tree, prim, badloc, st.sampled_from(["", "TPM_CC_", "clear", "TPM_CC_Nothing", "sha1", "0x126", "TPM_RC_FAILURE"])), quick=600, thorough=40000)
def policies(case, ctx):
    t, other, p, (lo, bad, at), word = case
    o = obj(t)
    obj(other).get_policy(pc.PolicyHasher("sha384"))
    for name, h in (("sha256", hashlib.sha256), ("sha384", hashlib.sha384), ("sha256", hashlib.sha256)):
        e = pc.PolicyHasher(name)
        same(e.get_size(), h().digest_size, "hash size")
        for x in (t, other, t):
            same((o if x is t else obj(x)).get_policy(e), digest(x, h), f"{name} digest of {x!r}")
        same(e.hash(claim(p)), h(claim(p)).digest(), "hash")
    same((o.get_type(), o.validate()), (t[0], True), "type and validity")
    q = pobj(p)
    same(q.get_buffer_for_digest(), claim(p), "claim")
    same(q.get_bitfield() if p[0] == "loc" else q.get_code(), field(p[1]) if p[0] == "loc" else p[1], "assertion")
    same(pc.PolicyTreeSolo(q).get_policy(e), pc.PolicyTreeAnd([q]).get_policy(e), "one claim alone and in an AND")
    for odd, what in ((q, "an assertion"), (pc.PolicyTreeOr([q]), "an invalid OR"), (types.SimpleNamespace(validate=lambda: True), "something without a policy"), (types.SimpleNamespace(get_policy=o.get_policy), "something that cannot be validated")):
        expect(not pc.PolicyTreeOr([o] * min(at, 3) + [odd] + [o] * (len(word) % 3)).validate(), f"an OR with {what} in it is called valid")
    rejects(pc.PolicyTreeOr, [o] * (9 + at), exc=ValueError, what="an OR of more than eight branches")
    same(pc.PolicyTreeOr([o] * 8).get_policy(pc.PolicyHasher("sha256")), digest(("or", [t] * 8), hashlib.sha256), "OR of eight branches")
    rejects(pc.PolicyTreeAnd, [q, o], exc=ValueError, what="an AND of trees")
    rejects(pc.PolicyTreeSolo, o, exc=ValueError, what="a tree as a single claim")
    rejects(pc.PolicyLocality, lo[:at] + [bad] + lo[at:], exc=ValueError, what=f"localities {lo[:at] + [bad] + lo[at:]}")
    rejects(pc.PolicyCommandCode, word, exc=ValueError, what=f"command code {word!r}")
    rejects(pc.PolicyHasher, word, exc=ValueError, what=f"hash {word!r}")
    ctx.nontrivial(t[0] == "or" and len(t[1]) > 1)
    ctx.label(t[0])


size = st.sampled_from([1, 2, 4, 8])
element = st.one_of(size.flatmap(lambda n: st.tuples(st.just("int"), st.just(n), u(8 * n))), st.tuples(st.just("2b"), st.binary(max_size=40), st.none()))
step = st.one_of(st.tuples(st.just("add"), element), st.tuples(st.just("add"), element), st.tuples(st.just("again"), st.integers(0, 9)), st.tuples(st.just("data"), st.tuples(st.integers(0, 9), st.binary(max_size=40))), st.tuples(st.just("value"), st.tuples(st.integers(0, 9), u(64))), st.tuples(st.just("read"), st.none()))


@CHECK.sub("streams", st.tuples(u(16), u(32), u(32), st.lists(step, max_size=8), size, u(64)), quick=1500, thorough=60000)
def streams(case, ctx):
    tag, guess, code, steps, n, v = case
    s, model, objs = ts.Tpm2CommandStream(tag, guess, code), [], []
    for what, x in steps + [("read", None)]:
        if what == "add":
            o = ts.Tpm2StreamPrimitive(x[1], x[2]) if x[0] == "int" else ts.TPM2B(x[1])
            model.append(list(x))
            objs.append(o)
            s.add_element(o)
        elif what == "again" and model:
            i = x % len(model)
            model.append(model[i])
            objs.append(objs[i])
            s.add_element(objs[i])
        elif what == "data" and model and model[x[0] % len(model)][0] == "2b":
            i = x[0] % len(model)
            objs[i].update_data(x[1])
            model[i][1] = x[1]
        elif what == "value" and model and model[x[0] % len(model)][0] == "int":
            i = x[0] % len(model)
            model[i][2] = objs[i].value = x[1] & ((1 << 8 * model[i][1]) - 1)
        elif what == "read":
            ws = [m[2].to_bytes(m[1], "big") if m[0] == "int" else struct.pack(">H", len(m[1])) + m[1] for m in model]
            same([o.marshal() for o in objs], ws, "elements")
            same([o.get_size() for o in objs], [len(w) for w in ws], "element sizes")
            b = b"".join(ws)
            same(s.get_stream(), struct.pack(">HLL", tag, 10 + len(b), code) + b, "stream")
            same(s.get_size(), 10 + len(b), "stream size")
    h = ts.TPM2_COMMAND_HEADER(tag, guess, code)
    same((h.get_size(), h.marshal()), (10, struct.pack(">HLL", tag, guess, code)), "header")
    h.update_size(guess ^ 5)
    same(h.marshal(), struct.pack(">HLL", tag, guess ^ 5, code), "header after update")
    rejects(ts.Tpm2StreamPrimitive, n + (3 if n == 4 else 1 if n > 1 else -1), v, exc=ValueError, what="primitive size")
    rejects(ts.Tpm2StreamPrimitive(n, v % 7 + (1 << 8 * n)).marshal, what="a value that does not fit")
    rejects(ts.Tpm2StreamPrimitive(n, -1 - v % 7).marshal, what="a negative value")
    rejects(lambda: ts.TPM2B(bytes(0x10000 + v % 3)).marshal(), what="more data than a TPM2B holds")
    ctx.nontrivial(len(model) > 1)
    ctx.label(f"{min(len(model), 5)} elements", *{m[0] for m in model})


LISTEN = []


def listeners():
    """A pair of listening loopback sockets on neighbouring ports."""
    if not LISTEN:
        for _ in range(200):
            a, b = socket.socket(), socket.socket()
            a.bind(("127.0.0.1", 0))
            try:
                b.bind(("127.0.0.1", a.getsockname()[1] + 1))
            except (OSError, OverflowError):
                a.close()
                b.close()
                continue
            for x in (a, b):
                x.listen(4)
                x.settimeout(10)
            LISTEN.extend((a, b))
            break
        else:
            raise RuntimeError("no two neighbouring ports are free")
    return LISTEN


class Peer(threading.Thread):
    """The simulator: records what it receives and answers each command with the given pieces."""

    def __init__(self, answers, room=None):
        super().__init__(daemon=True)
        self.room = room  # the last answer ends after this many bytes
        self.answers, self.plat, self.got, self.error = answers, b"", [], None

    def exactly(self, s, n):
        b = b""
        while len(b) < n:
            x = s.recv(n - len(b))
            if not x:
                raise EOFError(f"{len(b)} of {n} bytes")
            b += x
        return b

    def run(self):
        a, b = listeners()
        try:
            plat, _ = b.accept()
            tpm, _ = a.accept()
            for s in (plat, tpm):
                s.settimeout(10)
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            with plat, tpm:
                self.plat = self.exactly(plat, 12)
                for zeros, data, cuts in self.answers:
                    head = self.exactly(tpm, 9)
                    self.got.append((head[:5], self.exactly(tpm, struct.unpack(">L", head[5:])[0])))
                    out = bytes(4) * zeros + struct.pack(">L", len(data)) + data
                    at = 0
                    if self.room is not None and len(self.got) == len(self.answers):
                        out = out[:self.room % len(out)]
                        if not out:
                            break
                    for c in sorted({c % len(out) for c in cuts} - {0}) + [len(out)]:
                        tpm.sendall(out[at:c])
                        at = c
                        time.sleep(0.004)
        except Exception as e:  # reported by the check
            self.error = e


class Narrow(socket.socket):
    """Takes at most 4 KiB at once, as a busy connection does."""

    def send(self, data, *flags):
        return super().send(bytes(data)[:4096], *flags)


class Stuck(Exception):
    pass


big = st.tuples(st.binary(min_size=1, max_size=5), st.sampled_from([60, 13200, 131072, 600000])).map(lambda t: t[0] * t[1])  # also more than sockets take at once
answer = st.tuples(st.integers(0, 2), st.one_of(st.binary(min_size=1, max_size=60), st.binary(min_size=1, max_size=60), big), st.lists(st.integers(0, 80), max_size=3))


@CHECK.sub("simulator", st.lists(st.tuples(st.one_of(st.sampled_from([0, 1]), st.binary(min_size=1, max_size=40), st.binary(min_size=1, max_size=40), big), answer), min_size=1, max_size=3), quick=60, thorough=1500)
def simulator(case, ctx):
    peer = Peer([a for _, a in case])
    listeners()
    peer.start()
    old = socket.getdefaulttimeout()
    socket.setdefaulttimeout(10)
    s = None
    try:
        with mock.patch.object(socket, "socket", Narrow):
            s = sim.TpmSimulator("127.0.0.1", LISTEN[0].getsockname()[1])
        for x, (_, data, _) in case:
            same(s.startup(x) if isinstance(x, int) else s.send_data(x), data, "response")
    except (TimeoutError, OSError) as e:
        fail(f"the conversation failed: {e!r}, simulator {peer.error!r}")
    finally:
        socket.setdefaulttimeout(old)
        for x in vars(s).values() if s else ():
            if isinstance(x, socket.socket):
                x.close()
        peer.join(30)
    same(peer.error, None, "error at the simulator")
    same(peer.plat, struct.pack(">LLL", 2, 1, 11), "platform commands")
    same(peer.got, [(struct.pack(">LB", 8, 3), x if isinstance(x, bytes) else struct.pack(">HLLH", 0x8001, 12, 0x144, x)) for x, _ in case], "commands")
    ctx.nontrivial(any(c for _, (_, _, c) in case))
    ctx.label(f"{len(case)} commands")


@CHECK.sub("closed", st.tuples(st.lists(st.tuples(st.binary(min_size=1, max_size=40), answer), min_size=1, max_size=2), st.integers(0, 300)), quick=24, thorough=800)
def closed(case, ctx):
    """A simulator that goes away in the middle of a response is an error, not a shorter response."""
    talk, room = case
    peer = Peer([a for _, a in talk], room)
    listeners()
    peer.start()
    old = socket.getdefaulttimeout()
    socket.setdefaulttimeout(10)
    s, error, data = None, None, None
    try:
        with mock.patch.object(socket, "socket", Narrow):
            s = sim.TpmSimulator("127.0.0.1", LISTEN[0].getsockname()[1])
        for x, (_, want, _) in talk[:-1]:
            same(s.send_data(x), want, "response")
        try:
            data = s.send_data(talk[-1][0])
        except Exception as e:
            error = e
    finally:
        socket.setdefaulttimeout(old)
        for x in vars(s).values() if s else ():
            if isinstance(x, socket.socket):
                x.close()
        peer.join(30)
    expect(error is not None, f"a response of {len(talk[-1][1][1])} bytes that was cut off was returned as {data!r}")
    expect(not isinstance(error, TimeoutError), "the conversation never ended")
    ctx.nontrivial()
