"""P42: locating Windows build tools."""
import codecs
import glob
import hashlib
import http.client
import importlib.resources
import inspect
import io
import logging
import os
import pathlib
import shlex
import stat
import subprocess
import urllib.error
import urllib.request
from collections import namedtuple
from unittest import mock

from checks.hosts import host as host_as
from edk2toollib.windows import locate_tools as lt
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Windows build tools are located as asked, in whatever order they are found",
    statement="The locator used is the installed one, else the first on the path, else a download that matches its published checksum, and nothing of any other download is kept or used. Looking for Visual Studio asks its locator for exactly the product and version range requested and returns its installations in order; compiler settings are read from the first installation that has them, keys matching in any case and values whole, and every missing key, installation or failing tool is reported. An SDK tool is the one for this host and the current SDK version if there is one, otherwise the newest, independent of the order of the search.",
    over=["inputs", "failures"],
    text="every request, installation layout, tool output and order of matches",
    why="All tests of this module are skipped off Windows, and on Windows they see only the installations of one machine.",
    files=["edk2toollib/windows/locate_tools.py"],
    mechanism=[("locator", "GetVsWherePath, _DownloadVsWhere"), ("Visual Studio", "FindWithVsWhere, FindAllWithVsWhere"), ("compiler settings", "QueryVcVariables"), ("SDK tools", "FindToolInWinSdk, _CheckArchOfMatch, _CompareWindowVersions")],
    technique="property-based testing on a simulated Windows: scripted stand-ins for the locator and the batch file, generated folder trees, shuffled searches, against a model",
    note="the download of the locator and its checksum are simulated",
)
CHECK = Check("P42", "several installations, matches or keys are involved or something is missing")

try:
    codecs.lookup("mbcs")
except LookupError:
    codecs.register(lambda n: codecs.lookup("cp1252") if n == "mbcs" else None)

Host = namedtuple("Host", "os arch bit")
RANGES = {"vs2017": "15.0,16.0", "vs2019": "16.0,17.0", "vs2022": "17.0,18.0", "vs2026": "18.0,19.0"}
caps = st.sampled_from([str.lower, str.upper, str.title])
vs = st.one_of(st.none(), st.tuples(st.sampled_from(sorted(RANGES)), caps).map(lambda t: t[1](t[0])))
badvs = st.sampled_from(["vs2015", "2019", "", "vs20222", "vs4096"])
product = st.sampled_from(["*", "Microsoft.VisualStudio.Product.BuildTools", "a.b c.d", None])
line = st.one_of(st.sampled_from(["C:\\Program Files\\VS\\2022", "D:\\vs [x]", "/opt/vs", "C:\\Jos\u00e9"]), st.text("abC:\\ -.", min_size=1, max_size=10).filter(lambda s: s.strip() == s))
seps = st.sampled_from(["\n", "\r\n"])


class Windows:
    def __init__(self, d, lines, rc, sep="\n", host=Host("Windows", "x86", "64")):
        self.d, self.log, self.host = d, os.path.join(d, "args"), host
        os.makedirs(os.path.join(d, "bin dir"))
        with open(os.path.join(d, "out"), "wb") as f:
            f.write("".join(l + sep for l in lines).encode())
        p = os.path.join(d, "bin dir", "vswhere.exe")
        with open(p, "w") as f:
            f.write(f"#!/bin/sh\nset -f\nprintf '%s\\n' \"$@\" > {shlex.quote(self.log)}\ncat {shlex.quote(os.path.join(d, 'out'))}\nexit {rc}\n")
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
        self.stack = [host_as(*self.host), mock.patch.dict(os.environ, {"PATH": os.path.join(d, "bin dir") + os.pathsep + os.environ["PATH"]})]

    def __enter__(self):
        self.old = os.getcwd()
        os.mkdir(os.path.join(self.d, "empty"))
        os.chdir(os.path.join(self.d, "empty"))  # the shell expands the * of the product there
        logging.disable(logging.CRITICAL)
        for s in self.stack:
            s.start()
        return self

    def __exit__(self, *a):
        for s in reversed(self.stack):
            s.stop()
        logging.disable(logging.NOTSET)
        os.chdir(self.old)

    def args(self):
        with open(self.log) as f:
            return f.read().split("\n")[:-1]


@CHECK.sub("vswhere", st.tuples(st.lists(line, max_size=3, unique=True), st.sampled_from([0, 0, 0, 1, 87]), seps, product, vs, badvs), quick=150, thorough=4000, shards=2)
def vswhere(case, ctx):
    lines, rc, sep, prod, version, bad = case
    kw = {} if prod == "*" else {"products": prod}
    if version is not None:
        kw["vs_version"] = version
    with host_as("Linux"):
        rejects(lt.FindAllWithVsWhere, exc=EnvironmentError, what="a host that is not Windows")
    with Windows(ctx.tmp(), lines, rc, sep) as w:
        rejects(lt.FindWithVsWhere, "*", bad, exc=ValueError, what=f"version {bad!r}")
        expect(not os.path.exists(w.log), "the locator ran for an unsupported version")
        if rc:
            rejects(lt.FindAllWithVsWhere, exc=RuntimeError, what=f"exit code {rc} of the locator", **kw)
            rejects(lt.FindWithVsWhere, exc=RuntimeError, what=f"exit code {rc} of the locator", **kw)
        else:
            same(lt.FindAllWithVsWhere(**kw), lines or None, "installations")
            same(lt.FindWithVsWhere(**kw), lines[0] if lines else None, "newest installation")
        want = ["-nologo", "-all", "-sort", "-property", "installationPath"] + (["-products", *prod.split(" ")] if prod else []) + (["-version", RANGES[version.lower()]] if version else [])
        same(w.args(), want, "arguments of the locator")
    ctx.nontrivial(len(lines) > 1 or rc != 0 or version is not None)
    ctx.label("locator fails" if rc else f"{min(len(lines), 2)} installations")


SHA = "c54f3b7c9164ea9a0db8641e81ecdda80c2664ef5a47c4191406f848cc07c662"  # of the published vswhere.exe
GOOD = b"the published vswhere"


class Answer(io.BytesIO):
    """A download: content, or an error while it is read."""
    def __init__(self, b, breaks):
        super().__init__(b)
        self.breaks = breaks

    def read(self, *a):
        b = super().read(*a)
        if self.breaks:
            raise http.client.IncompleteRead(b, 5)
        return b


class Hash:
    def __init__(self, b=b"", **k):
        self.b = b

    def update(self, b):
        self.b += b

    def hexdigest(self):
        return SHA if self.b == GOOD else REAL_SHA(self.b).hexdigest()

    def digest(self):
        return bytes.fromhex(self.hexdigest())


REAL_SHA, REAL_NEW = hashlib.sha256, hashlib.new


def new_hash(name, b=b"", **k):
    return Hash(b) if name.lower() == "sha256" else REAL_NEW(name, b, **k)


@CHECK.sub("locator", st.tuples(st.booleans(), st.lists(st.sampled_from(["no", "no", "yes", "folder", "empty"]), max_size=4), st.sampled_from(["good", "wrong", "short", "nothing", "no such page", "no network", "breaks", "breaks early"]), st.booleans(), st.booleans()), quick=150, thorough=3000)
def locator(case, ctx):
    own, places, answer, folder, twice = case
    d = ctx.tmp()
    pkg = pathlib.Path(d, "pkg", "bin")
    if own or folder:
        pkg.mkdir(parents=True)
    exe = pkg / "vswhere.exe"
    if own:
        exe.write_bytes(b"installed")
    path = []
    for i, p in enumerate(places):
        f = pathlib.Path(d, f"p {i}")
        path.append("" if p == "empty" else str(f))
        f.mkdir()
        if p == "yes":
            (f / "vswhere.exe").write_bytes(b"on the path")
        elif p == "folder":
            (f / "vswhere.exe").mkdir()
    asked = []

    def urlopen(url, *a, **k):
        asked.append(url if isinstance(url, str) else url.full_url)
        if answer == "no such page":
            raise urllib.error.HTTPError(asked[-1], 404, "Not Found", {}, None)
        if answer == "no network":
            raise urllib.error.URLError("unreachable")
        return Answer({"good": GOOD, "short": GOOD[:-1], "wrong": GOOD + b"!", "nothing": b"", "breaks": GOOD, "breaks early": b""}[answer], answer.startswith("breaks"))
    old = os.getcwd()
    os.mkdir(os.path.join(d, "empty"))
    os.chdir(os.path.join(d, "empty"))
    logging.disable(logging.CRITICAL)
    try:
        with mock.patch.object(importlib.resources, "files", lambda *a, **k: pathlib.Path(d, "pkg")), mock.patch.object(urllib.request, "urlopen", urlopen), mock.patch.object(hashlib, "sha256", Hash), mock.patch.object(hashlib, "new", new_hash), host_as("Windows"), mock.patch.dict(os.environ, {"PATH": os.pathsep.join(path)}):
            for n in range(1 + twice):
                got = lt.GetVsWherePath()
                want = str(exe) if own else next((os.path.join(p, "vswhere.exe") for p, k in zip(path, places) if k == "yes"), None)
                if want is None and answer == "good":
                    want = str(exe)
                same(got, want, f"locator ({answer} answer, call {n + 1})")
                if not own and answer != "good":
                    expect(not exe.exists(), f"a locator that is not the published one was kept ({answer})")
            if want is None:
                rejects(lt.FindAllWithVsWhere, exc=EnvironmentError, what="no locator")
    finally:
        logging.disable(logging.NOTSET)
        os.chdir(old)
    if own or "yes" in places:
        same(asked, [], "downloads although a locator is there")
    elif answer == "good":
        same(len(asked), 1, "downloads")
        same(exe.read_bytes(), GOOD, "downloaded locator")
    ctx.nontrivial(not own)
    ctx.label("installed" if own else "on the path" if "yes" in places else f"downloaded: {answer}")


NAMES = ["WindowsSdkDir", "WindowsSDKVersion", "VCINSTALLDIR", "Path", "LIB", "INCLUDE"]
value = st.one_of(st.sampled_from(["C:\\Program Files (x86)\\Windows Kits\\10\\", "10.0.22621.0\\", "a=b=c", "caf\u00e9", "%X%", "x" + os.pathsep + "y" + os.pathsep, "x" + os.pathsep * 2, "with space"]), st.text("ab =\\.(", min_size=1, max_size=8).filter(lambda s: s == s.strip()))
noise = st.lists(st.sampled_from(["**********************************************************************", "** Visual Studio 2022 Developer Command Prompt v17.8", "[vcvarsall.bat] Environment initialized for: 'x64'", "", "OTHER=1", "PathX=no", "=C:=C:\\x"]), max_size=4)


class Batch:
    def __init__(self, cmd, out, err, rc):
        self.args, self.stdout, self.stderr, self.returncode, self.rc, self.out, self.err = cmd, io.BytesIO(out), io.BytesIO(err), None, rc, out, err

    def communicate(self, *a, **k):
        self.returncode = self.rc
        return self.out, self.err

    def wait(self, *a, **k):
        self.returncode = self.rc
        return self.rc

    poll = wait

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


@CHECK.sub("settings", st.tuples(st.lists(st.booleans(), max_size=3), st.dictionaries(st.sampled_from(NAMES), st.tuples(value, st.sampled_from([str, str, str.upper, str.lower])), max_size=5), noise, st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from([str, str.upper, str.lower])), max_size=4, unique_by=lambda t: t[0]), seps, st.sampled_from([0, 0, 0, 1]), st.sampled_from([None, "x86", "amd64_arm64"]), st.sampled_from([None, "14.42.34433"]), st.tuples(product.filter(lambda p: p != "a.b c.d"), vs)), quick=200, thorough=6000, shards=2)
def settings(case, ctx):
    has, env, other, keys, sep, rc, arch, vc, (prod, version) = case
    d = ctx.tmp()
    roots = [os.path.join(d, f"vs {i}") for i in range(len(has))]
    for r, h in zip(roots, has):
        os.makedirs(os.path.join(r, "VC", "Auxiliary", "Build"))
        if h:
            open(os.path.join(r, "VC", "Auxiliary", "Build", "vcvarsall.bat"), "w").close()
    lines = [f"{f(k)}={v}" for k, (v, f) in env.items()]
    for i, n in enumerate(other):
        lines.insert((i * 7) % (len(lines) + 1), n)
    out = "".join(l + sep for l in lines).encode("cp1252")
    ran = []
    real = subprocess.Popen

    def popen(cmd, *a, **k):
        if "vcvarsall.bat" in (cmd if isinstance(cmd, str) else " ".join(map(str, cmd))):
            ran.append(cmd if isinstance(cmd, str) else " ".join(map(str, cmd)))
            return Batch(cmd, out, b"it failed\r\n" if rc else b"", rc)
        return real(cmd, *a, **k)
    kw = {k: v for k, v in (("arch", arch), ("product", prod), ("vs_version", version), ("vc_version", vc)) if v is not None}
    ask = [f(k) for k, f in keys]
    with Windows(d, roots, 0, sep) as w, mock.patch.object(subprocess, "Popen", popen):
        if not any(has):
            rejects(lt.QueryVcVariables, ask, exc=ValueError, what="no installation with a batch file", **kw)
            same(ran, [], "batch files run")
        else:
            missing = [k for k, _ in keys if k not in env]
            if rc:
                rejects(lt.QueryVcVariables, ask, exc=RuntimeError, what="a batch file that fails", **kw)
            elif missing:
                rejects(lt.QueryVcVariables, ask, exc=ValueError, what=f"missing {missing}", **kw)
            else:
                got = lt.QueryVcVariables(ask, **kw)
                want = {k.upper(): env[k][0][:-1] if env[k][0].endswith(os.pathsep) else env[k][0] for k, _ in keys}
                same({k.upper(): v for k, v in got.items()}, want, "settings")
                for (k, _), a in zip(keys, ask):
                    if env[k][1](k) == a:  # the tool and the caller spell it alike
                        same(got.get(a), want[k.upper()], f"setting {a}")
            same(len(ran), 1, "number of batch files run")
            exp = f'"{roots[has.index(True)]}/VC/Auxiliary/Build/vcvarsall.bat" {arch or "amd64"}' + (f" -vcvars_ver={vc}" if vc else "")
            before, _, after = ran[0].replace("\\", "/").partition("&")
            same((before.split(), after.split()), (exp.split(), ["set"]), "command")
        same(w.args(), ["-nologo", "-all", "-sort", "-property", "installationPath", "-products", prod or "*"] + (["-version", RANGES[version.lower()]] if version else []), "arguments of the locator")
    ctx.nontrivial(len(keys) > 1 or len(has) > 1 or rc != 0)
    ctx.label("no batch file" if not any(has) else "fails" if rc else "answers")


ver = st.sampled_from(["10.0.22621.0", "10.0.22621.755", "10.0.22621.1", "10.0.19041.0", "10.0.19041.0", "10.0.22000.0", "10.0.9.0", "10.1.5.0", "8.1.10000.0", "10.0.100000.0"])
arches = st.sampled_from(["x86", "x64", "arm", "arm64", "amd64", "X64", "i386", ""])
found = st.tuples(st.one_of(ver, ver, ver, st.just("")), arches, st.one_of(st.sampled_from(["", "", "extra"]), ver))
hosts = st.sampled_from([("x86", "64"), ("x86", "64"), ("x86", "32"), ("ARM", "64"), ("ARM", "32")])


def fits(a, host):
    a = a.lower()
    arch, bits = host[0], int(host[1])
    return {"x86": arch == "x86", "x64": (arch, bits) == ("x86", 64), "amd64": (arch, bits) == ("x86", 64), "arm": arch == "ARM", "arm64": (arch, bits) == ("ARM", 64), "i386": False, "": True}[a]


roots = st.sampled_from(["kit", "Program Files (x86)", "Program Files (Arm)", "arm64 x64", "99.0.0.0", "10.0.22621.0", "8.1.10000.0", "a [x] b", "k*t?"])


@CHECK.sub("sdk", st.tuples(roots, st.lists(found, max_size=6, unique=True), st.one_of(st.none(), ver), st.sampled_from(["", "\\"]), hosts, st.randoms(use_true_random=False), st.sampled_from(["signtool.exe", "signtool.exe", "in f.exe", "x64tool.exe", "harmful.exe", "aarch64-x86.exe", "1.2.3.4.exe"]), st.sampled_from([None, "prod"]), st.sampled_from([None, "x86"])), quick=1500, thorough=30000, shards=2)
def sdk(case, ctx):
    name, places, current, tail, host, rnd, tool, prod, arch = case
    d = ctx.tmp()
    root = os.path.join(d, name, "sdk") if current else os.path.join(d, name, "Windows Kits", "10", "bin")
    os.makedirs(root)
    paths = {}
    for v, a, e in places:
        if current in (v, e) and e != "extra":
            e = ""  # a folder of the current version holds no other version
        p = os.path.join(root, *[x for x in (v, e, a) if x], tool)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
        open(os.path.join(os.path.dirname(p), "x" + tool), "w").close()
        paths[os.path.realpath(p)] = ([x for x in (v, e) if x and x != "extra"], a)
    asked = []

    sig = inspect.signature(lt.QueryVcVariables)

    def query(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        asked.append((sorted(b.arguments["keys"]), b.arguments["arch"], b.arguments["product"]))
        if current is None:
            raise ValueError("VS path not found.")
        return {"WindowsSdkDir": root + "/", "WindowsSDKVersion": current + tail}
    iglob = glob.iglob

    def shuffled(*a, **k):
        r = sorted(iglob(*a, **k))
        rnd.shuffle(r)
        return iter(r)
    logging.disable(logging.CRITICAL)
    try:
        with mock.patch.object(lt, "QueryVcVariables", query), host_as("Windows", *host), mock.patch.object(glob, "iglob", shuffled), mock.patch.object(glob, "glob", lambda *a, **k: list(shuffled(*a, **k))), mock.patch.dict(os.environ, {"ProgramFiles(x86)": os.path.join(d, name)}):
            got = lt.FindToolInWinSdk(tool, **{k: v for k, v in (("product", prod), ("arch", arch)) if v})
    finally:
        logging.disable(logging.NOTSET)
    same(asked, [(["WindowsSDKVersion", "WindowsSdkDir"], arch, prod)], "settings asked for (keys, arch, product)")
    usable = {p: max([tuple(map(int, x.split("."))) for x in v], default=(0,)) for p, (v, a) in paths.items() if fits(a, host)}
    if not usable:
        same(got, None, "tool")
    else:
        cur = [p for p in usable if current and current in paths[p][0]]
        best = cur or [p for p in usable if usable[p] == max(usable.values())]
        expect(got is not None and os.path.realpath(got) in best, f"tool {got!r}, expected one of {best}")
    ctx.nontrivial(len(usable) > 1)
    ctx.label("current SDK known" if current else "no current SDK", f"{min(len(usable), 3)} usable")
