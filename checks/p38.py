"""P38: UEFI variables through the Linux variable file system."""
import builtins
import contextlib
import errno
import io
import logging
import os
import posixpath
import struct
import uuid
from unittest import mock

from edk2toollib.os.uefivariablesupport import UefiVariable
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="UEFI variables set from the OS read back exactly, and only they change",
    statement="On Linux a variable that is set reads back with the same data and the requested attributes, one that is deleted is gone, the list of all variables holds exactly the name and GUID of every variable there is, and no operation touches another variable or runs anything but the removal of the immutable flag of the variable being changed, whatever characters its name has. A missing variable or variable store is reported as not found.",
    over=["inputs", "histories"],
    text="every history of set, delete, get and list over every name, GUID, attribute and data",
    why="No test runs any of it: it needs firmware variables, which test machines do not have.",
    files=["edk2toollib/os/uefivariablesupport.py"],
    mechanism=[("read", "GetUefiVar"), ("list", "GetUefiAllVarNames"), ("set and delete", "SetUefiVar")],
    technique="stateful property-based testing against a model, on a simulated efivarfs with its immutable files and a recording stand-in for sudo and chattr",
    note="the Windows calls are not reachable here; names have no slash",
)
CHECK = Check("P38", "an existing variable is changed or deleted, or a name needs quoting or holds a dash")
ROOT = "/sys/firmware/efi/efivars"


class Raw(io.FileIO):
    """A file of the store that counts what the system is asked to write."""
    seen = None

    def write(self, b):
        self.seen.setdefault(self.name, []).append(len(b))
        return super().write(b)


class Store:
    """efivarfs on a scratch folder: existing files are immutable until chattr -i names them."""

    def __init__(self, d):
        self.dir, self.log = os.path.join(d, "efivars"), os.path.join(d, "chattr.log")
        self.bin = os.path.join(d, "bin")
        os.makedirs(self.bin)
        os.makedirs(self.dir)
        for tool in ("sudo", "chattr"):
            with open(os.path.join(self.bin, tool), "w") as f:
                f.write("#!/bin/sh\nif [ \"$1\" = chattr ]; then shift; fi\nprintf '%%s\\0' \"$@\" \"\" >> '%s'\n" % self.log)
            os.chmod(os.path.join(self.bin, tool), 0o755)
        self.mutable = set()
        self.ran = []
        self.writes = {}

    def map(self, p):
        if isinstance(p, int):
            return p, None
        q = os.fspath(p)
        q = os.fsdecode(q) if isinstance(q, bytes) else q
        n = posixpath.normpath(q)
        if n == ROOT:
            return self.dir, None
        if n.startswith(ROOT + "/"):
            name = n[len(ROOT) + 1:]
            return os.path.join(self.dir, name[:-36] + name[-36:].lower()), n
        if n.startswith("/sys/"):
            raise AssertionError(f"{n} is outside the variable store")
        return p, None

    def calls(self):
        if os.path.exists(self.log):
            with REAL_OPEN(self.log, "rb") as f:
                for c in f.read().decode().split("\0\0")[:-1]:
                    self.ran.append(c.split("\0"))
            REAL_REMOVE(self.log)
        return self.ran

    def may(self, real, given):
        for c in self.calls():
            if c[0] == "-i" and len(c) == 2:
                self.mutable.add(self.map(c[1])[0])
        if os.path.lexists(real) and real not in self.mutable:
            raise PermissionError(errno.EPERM, "Operation not permitted", given)

    def add(self, name, guid, raw):
        with REAL_OPEN(os.path.join(self.dir, f"{name}-{guid}"), "wb") as f:
            f.write(raw)

    def all(self):
        out = {}
        for n in REAL_LISTDIR(self.dir):
            with REAL_OPEN(os.path.join(self.dir, n), "rb") as f:
                out[n] = f.read()
        return out

    @contextlib.contextmanager
    def mounted(self):
        def redirect(fn, writes=None):
            def call(p=".", *a, **k):
                real, given = self.map(p)
                if given and writes and writes(*a, **k):
                    self.may(real, given)
                return fn(real, *a, **k)
            return call

        def opened(p=".", mode="r", *a, **k):
            real, given = self.map(p)
            if given and opens(mode) and "b" in mode:
                self.may(real, given)
                f = Raw(real, mode.replace("b", "").replace("t", ""))
                f.seen = self.writes
                return f if a[:1] == (0,) or k.get("buffering") == 0 else io.BufferedRandom(f) if "+" in mode else io.BufferedWriter(f)
            return redirect(REAL_OPEN, opens)(p, mode, *a, **k)

        def raw_write(fd, b):
            p = os.path.realpath(f"/proc/self/fd/{fd}")
            if os.path.dirname(p) == self.dir:
                self.writes.setdefault(p, []).append(len(b))
            return os_write(fd, b)

        def opens(mode="r", *a, **k):
            return any(c in mode for c in "wax+")
        self.mutable.clear()
        self.ran.clear()
        self.writes.clear()
        o, os_write = opened, os.write
        with contextlib.ExitStack() as s:
            for owner, name, new in ((builtins, "open", o), (io, "open", o), (os, "write", raw_write), (os, "open", redirect(os.open, lambda flags, *a, **k: flags & (os.O_WRONLY | os.O_RDWR))),
                                     *((os, n, redirect(getattr(os, n))) for n in ("stat", "lstat", "listdir", "scandir", "access")),
                                     *((os, n, redirect(getattr(os, n), lambda *a, **k: True)) for n in ("remove", "unlink", "truncate"))):
                s.enter_context(mock.patch.object(owner, name, new))
            s.enter_context(mock.patch.dict(os.environ, {"PATH": self.bin + os.pathsep + os.environ.get("PATH", "/usr/bin:/bin")}))
            yield
        self.calls()


REAL_OPEN, REAL_REMOVE, REAL_LISTDIR = open, os.remove, os.listdir
name_ = st.one_of(st.sampled_from(["Boot0000", "db", "a-b", "-", "a-b-c-d-e-f", "with space", "semi;echo x", "$(echo y)", "`echo z`", "quote'd", 'dq"', "a&b", "star*", "caf\u00e9", "\U0001f600", "#x", "-i", "~", "a\\b", "x>y", "new\nline"]), st.text(st.sampled_from("abZ09_- $;&'\"\\*?"), min_size=1, max_size=8)).filter(lambda s: s not in (".", ".."))
guids = st.sampled_from([uuid.UUID(int=0x8BE4DF6193CA11D2AA0D00E098032B8C), uuid.UUID(int=0xD719B2CB3D3A4596A3BCDAD00E67656F), uuid.UUID(int=1)])
data = st.one_of(st.sampled_from([b"", b"\0", b"\x07\0\0\0", b"x" * 5000, b"y" * 9000]), st.binary(max_size=40))
attrs = st.sampled_from([None, 7, 3, 0x27, 0, 0x80000007, 6])
ops = st.one_of(st.tuples(st.just("set"), st.integers(0, 3), guids, data, attrs), st.tuples(st.just("set"), st.integers(0, 3), guids, data, attrs), st.tuples(st.just("delete"), st.integers(0, 3), guids), st.tuples(st.just("get"), st.integers(0, 3), guids), st.tuples(st.just("list")))


@CHECK.sub("history", st.tuples(st.lists(name_, min_size=4, max_size=4), st.lists(st.tuples(st.integers(0, 3), guids, data, attrs), max_size=4), st.lists(ops, min_size=1, max_size=7), st.sampled_from([str, lambda g: str(g).upper(), lambda g: g]), st.sampled_from(["", "\0", "\0\0"])), quick=250, thorough=10000, shards=4)
def history(case, ctx):
    names, initial, history_, spell, nul = case
    s = Store(ctx.tmp())
    model = {}
    for n, g, b, a in initial:
        model[f"{names[n]}-{g}"] = struct.pack("<I", 7 if a is None else a) + b
        s.add(names[n], g, model[f"{names[n]}-{g}"])
    changed = False
    v = UefiVariable()
    for o in history_:
        with s.mounted():
            if o[0] == "list":
                status, got = v.GetUefiAllVarNames()
                same(status, 0, "status of the list")
                raw = bytes(got)
            else:
                n, g = names[o[1]], spell(o[2])
                key = f"{names[o[1]]}-{o[2]}"
                if o[0] == "get":
                    got = v.GetUefiVar(n + nul, g)
                elif o[0] == "delete":
                    got = v.SetUefiVar(n + nul, g)
                elif o[4] is None:
                    got = v.SetUefiVar(n + nul, g, o[3])
                else:
                    got = v.SetUefiVar(n + nul, g, o[3], o[4])
        if o[0] == "list":
            found, at = [], 0
            while at < len(raw):
                step = struct.unpack_from("<I", raw, at)[0]
                end = at + step if step else len(raw)
                expect(step != 0 and at + 20 <= end <= len(raw) or (step == 0 and end - at >= 20), f"entry at {at} has offset {step} of {len(raw)}")
                w = raw[at + 20:end].decode("utf-16-le").rstrip("\0")
                found.append(f"{w}-{uuid.UUID(bytes_le=raw[at + 4:at + 20])}")
                at = end
            same(sorted(found), sorted(model), "listed variables")
        elif o[0] == "get":
            same((got[0], None if got[1] is None else bytes(got[1])), (0, model[key][4:]) if key in model else (0xCB, None), f"GetUefiVar of {key!r}")
        else:
            existed = key in model
            if o[0] == "delete":
                same(bool(got), existed, f"deletion of {key!r}")
                model.pop(key, None)
            else:
                expect(got, f"SetUefiVar of {key!r} returned {got!r}")
                model[key] = struct.pack("<I", 7 if o[4] is None else o[4]) + o[3]
                # the file system takes a variable, attributes and data, in one write
                same({os.path.basename(p): n for p, n in s.writes.items() if len(n) > 1}, {}, "writes of several parts")
            changed = changed or existed
            for c in s.ran:
                same([c[0], s.map(c[1])[0] if len(c) > 1 else None, *c[2:]], ["-i", s.map(f"{ROOT}/{key}")[0]], "attribute change")
        if o[0] in ("list", "get"):
            same(s.ran, [], "commands run by a query")
        same(s.all(), model, f"variables after {o[0]}")
    same(sorted(os.listdir(os.path.dirname(s.dir))), ["bin", "efivars"], "nothing else was created")
    ctx.nontrivial(changed or any(not n.isalnum() for n in names))
    ctx.label("changes an existing one" if changed else "only new ones")


@CHECK.sub("absent", st.tuples(name_, guids, st.sampled_from(["nonsense", "a-b-c-d-e-f", "Boot-8be4df61-93ca-11d2-aa0d-00e098032b8", "x"])), quick=60, thorough=600)
def absent(case, ctx):
    name, g, junk = case
    s = Store(ctx.tmp())
    v = UefiVariable()
    with s.mounted():
        same(v.GetUefiAllVarNames()[0], 0, "status of an empty store")
        same(len(bytes(v.GetUefiAllVarNames()[1])), 0, "list of an empty store")
        same(v.GetUefiVar(name, str(g)), (0xCB, None), "GetUefiVar in an empty store")
        same(v.SetUefiVar(name, str(g)), 0, "deletion in an empty store")
    s.add(junk, "", b"\7\0\0\0")
    with s.mounted():
        rejects(v.GetUefiAllVarNames, what="a variable file without a GUID")
    os.remove(os.path.join(s.dir, junk + "-"))
    os.rmdir(s.dir)
    with s.mounted():
        same(v.GetUefiAllVarNames(), (0xCB, None), "list without a store")
        same(v.GetUefiVar(name, str(g)), (0xCB, None), "GetUefiVar without a store")
    ctx.nontrivial(not name.isalnum())
