"""P40: file system and module helpers."""
import logging
import os
import platform
import stat
import sys
import types
from collections import namedtuple
from unittest import mock

from edk2toollib import utility_functions as uf
from pbt import Check, st
from pbt.core import expect, fail, rejects, same

META = dict(
    title="Folder removal takes the tree and nothing else; class lookup ignores names",
    statement="Removing a folder removes all of it, read-only or briefly locked content included, never touches or changes anything outside of it (link targets included), and reports when something is left unless told to ignore errors. A Python file is imported afresh from exactly the given path, and the class found in a module is the most specific subclass of the desired one, with unrelated candidates refused, however the classes are named. The host description names system, architecture and word size or is refused.",
    over=["inputs", "failures"],
    text="every tree of files, links and permissions, every transient or lasting failure, every class hierarchy and naming",
    why="Removal is tested on Windows only and the class search with one fixed hierarchy; links, permissions, failures and other orders of names are not tried.",
    files=["edk2toollib/utility_functions.py"],
    mechanism=[("removal", "RemoveTree and its error handler"), ("modules", "import_module_by_file_name, locate_class_in_module"), ("host", "GetHostInfo")],
    technique="property-based testing with generated trees, permissions (as an unprivileged user) and injected failures; generated class hierarchies against a model",
    note="everything removed lies in a scratch folder of the check",
)
CHECK = Check("P40", "the tree has links or read-only parts, a failure is injected, or several candidate classes exist")

fname = st.one_of(st.sampled_from(["a", "b", "c d", ".hidden", "-rf", "caf\u00e9", "new\nline", "x.txt", "a b'\""]), st.text(st.sampled_from("abc._- "), min_size=1, max_size=5).filter(lambda s: s.strip(".")))
mode = st.sampled_from([0o755, 0o755, 0o755, 0o555, 0o500, 0o000, 0o300, 0o444])
leaf = st.one_of(st.tuples(st.just("file"), st.sampled_from([0o644, 0o444, 0o000])), st.tuples(st.just("link"), st.sampled_from(["../outside", "../outside/kept.txt", "{abs}/outside", "{abs}/outside/kept.txt", "nowhere", ".", "..", "{abs}/outside/locked"])), st.tuples(st.just("fifo"), st.just(0o600)))
tree = st.recursive(leaf, lambda c: st.tuples(st.just("dir"), mode, st.dictionaries(fname, c, max_size=3)), max_leaves=8)
# folders that can be listed but not searched, next to each other and inside each other
closed = st.sampled_from([0o444, 0o400, 0o644, 0o600, 0o555])
deep = st.recursive(st.tuples(st.just("dir"), closed, st.just({})), lambda c: st.tuples(st.just("dir"), closed, st.dictionaries(fname, c, min_size=1, max_size=5)), max_leaves=10)
top = st.one_of(*[st.tuples(st.just("dir"), mode, st.dictionaries(fname, tree, max_size=4))] * 4, st.tuples(st.just("dir"), mode, st.dictionaries(fname, deep, min_size=1, max_size=5)))


def make(path, node, d, later):
    if node[0] == "file":
        with open(path, "w") as f:
            f.write("content")
        later.append((path, node[1]))
    elif node[0] == "link":
        os.symlink(node[1].format(abs=d), path)
    elif node[0] == "fifo":
        os.mkfifo(path)
    else:
        os.mkdir(path)
        for n, c in node[2].items():
            make(os.path.join(path, n), c, d, later)
        later.append((path, node[1]))


def snapshot(d, but):
    out = {}
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if os.path.join(root, x) not in but]
        for x in [""] + dirs + files:
            p = os.path.join(root, x) if x else root
            if p in but:
                continue
            s = os.lstat(p)
            out[os.path.relpath(p, d)] = (stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode), s.st_uid, os.readlink(p) if os.path.islink(p) else open(p, "rb").read() if stat.S_ISREG(s.st_mode) else None)
    return out


def reachable(d):
    """Lets the unprivileged user reach the scratch folder."""
    p = d
    while os.path.realpath(p).startswith(("/tmp/", "/var/tmp/")):
        if os.stat(p).st_uid == os.getuid() and not os.stat(p).st_mode & 0o001:
            os.chmod(p, 0o711)
        p = os.path.dirname(p)
    if os.getuid() == 0:
        os.chown(d, 65534, 65534)
    return d


def special(n):
    return n[0] != "file" and (n[0] != "dir" or n[1] != 0o755 or any(special(c) for c in n[2].values()))


def as_nobody(fn):
    """Runs fn() in a child as an unprivileged user; returns (outcome, message)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if os.getuid() == 0:
                os.setgroups([])
                os.setresgid(65534, 65534, 65534)
                os.setresuid(65534, 65534, 65534)
            res = attempt(fn)
            os.write(w, f"{res[0]}\n{res[1]}"[:2000].encode("utf-8", "replace"))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    expect(data, "the child ended without an answer")
    return tuple(data.decode().split("\n", 1))


def attempt(fn):
    try:
        fn()
        return "returned", ""
    except RuntimeError as e:
        return "refused", str(e)
    except BaseException as e:
        return "raised", f"{type(e).__name__}: {e}"


@CHECK.sub("remove", st.tuples(top, st.sampled_from(["tree", "tree", "tree", "tree", "tree/", "link", "missing", "file", "locked parent"]), st.sampled_from([False, False, False, True]), st.booleans()), quick=350, thorough=15000, shards=4)
def remove(case, ctx):
    node, target, ignore, relative = case
    d = reachable(ctx.tmp(wild=True))
    home = os.path.join(d, "home")
    os.mkdir(home)
    later = []
    outside = os.path.join(home, "outside")
    os.makedirs(os.path.join(outside, "sub"))
    for n, m in (("kept.txt", 0o444), ("sub/x", 0o640), ("locked", 0o000)):
        with open(os.path.join(outside, n), "w") as f:
            f.write("outside")
        later.append((os.path.join(outside, n), m))
    os.mkdir(os.path.join(home, "tree2"))
    with open(os.path.join(home, "tree.txt"), "w") as f:
        f.write("sibling")
    os.symlink("outside", os.path.join(home, "link"))
    if target == "locked parent":
        os.mkdir(os.path.join(home, "parent"))
        victim = os.path.join(home, "parent", "tree")
        later.append((os.path.join(home, "parent"), 0o555))
    else:
        victim = os.path.join(home, "tree")
    make(victim, node, home, later)
    goal = {"link": os.path.join(home, "link"), "missing": os.path.join(home, "none"), "file": os.path.join(home, "tree.txt")}.get(target, victim)
    if os.getuid() == 0:  # the removal runs as an unprivileged user that owns nothing but this folder
        for root, dirs, files in os.walk(home):
            for x in [root] + [os.path.join(root, y) for y in dirs + files]:
                os.lchown(x, 65534, 65534)
    for path, m in sorted(later, key=lambda t: -len(t[0])):
        os.chmod(path, m)
    # walking as root reads everything
    before = snapshot(home, {victim, goal})
    arg = goal + ("/" if target == "tree/" else "")
    old = os.getcwd()
    os.chdir(home)
    try:
        call = (lambda: uf.RemoveTree(os.path.relpath(goal, home) if relative else arg, ignore)) if ignore else (lambda: uf.RemoveTree(os.path.relpath(goal, home) if relative else arg))
        logging.disable(logging.CRITICAL)
        got = as_nobody(call)
    finally:
        logging.disable(logging.NOTSET)
        os.chdir(old)
    what = f"RemoveTree of {target}: {got}"
    same(snapshot(home, {victim, goal}), before, f"what lies outside, after {what}")
    left = os.path.lexists(goal)
    expect(got[0] != "raised", what)
    if ignore:
        same(got[0], "returned", what)
    elif target in ("tree", "tree/"):
        same((got[0], left), ("returned", False), what)
    else:
        same(got[0], "refused", what)
    if target in ("link", "file"):
        expect(left, f"{target} is gone: {what}")
    if target in ("tree", "tree/") and ignore and not special(node):
        expect(not left, what)
    ctx.nontrivial(special(node) or target not in ("tree", "tree/"))
    ctx.label(target, "links or locked parts" if special(node) else "plain tree")


@CHECK.sub("failures", st.tuples(st.integers(1, 3), st.sampled_from(["unlink", "rmdir", "both"]), st.integers(1, 2), st.booleans(), st.booleans()), quick=60, thorough=600)
def failures(case, ctx):
    n, where, times, forever, ignore = case
    d = reachable(ctx.tmp(wild=True))
    home = os.path.join(d, "t")
    for i in range(n):
        os.makedirs(os.path.join(home, f"d{i}"))
        for j in range(2):
            with open(os.path.join(home, f"d{i}", f"f{j}"), "w") as f:
                f.write("x")
    if os.getuid() == 0:
        for root, dirs, files in os.walk(home):
            for x in [root] + [os.path.join(root, y) for y in files]:
                os.chown(x, 65534, 65534)
    count = {}

    def flaky(fn):
        def call(path, **k):
            key = (fn.__name__, os.path.basename(path))
            count[key] = count.get(key, 0) + 1
            if key[1] in ("d0", "f1") and (forever or count[key] <= times):
                raise PermissionError(13, "in use", path)
            return fn(path, **k)
        return call
    logging.disable(logging.CRITICAL)
    try:
        with mock.patch.object(os, "unlink", flaky(os.unlink) if where != "rmdir" else os.unlink), mock.patch.object(os, "rmdir", flaky(os.rmdir) if where != "unlink" else os.rmdir):
            got = as_nobody(lambda: uf.RemoveTree(home, ignore))
    finally:
        logging.disable(logging.NOTSET)
    if forever:
        same((got[0], os.path.exists(home)), ("returned" if ignore else "refused", True), f"lasting failure {got}")
    elif not ignore:
        same((got[0], os.path.exists(home)), ("returned", False), f"failure that happened {times} times: {got}")
    else:
        same(got[0], "returned", f"ignored failure {got}")
    ctx.nontrivial()


source = st.tuples(st.sampled_from(["m.py", "my mod.py", "a.b.py", "caf\u00e9.py", "os.py", "1x-y.py"]), st.sampled_from(["d", "with space", "x.py"]), st.integers(-5, 10**6), st.integers(-5, 10**6))


@CHECK.sub("import", source, quick=80, thorough=1500)
def imports(case, ctx):
    name, folder, a, b = case
    d = ctx.tmp(wild=True)
    path = os.path.join(d, folder, name)
    os.mkdir(os.path.dirname(path))
    with open(os.path.join(d, name), "w") as f:
        f.write("VALUE = 'decoy'\n")
    old, known = list(sys.path), dict(sys.modules)
    mods = []
    for i, v in enumerate((a, b)):
        with open(path, "w") as f:
            f.write(f"VALUE = {v}\nLIST = []\nFILE = __file__\n" + "# padding of the second version\n" * i + "class K: pass\n")
        m = uf.import_module_by_file_name(path)
        same((m.VALUE, m.LIST, m.FILE), (v, [], path), "imported module")
        m.LIST.append(1)
        mods.append(m)
    expect(mods[0] is not mods[1] and mods[0].K is not mods[1].K, "the second import is not a fresh one")
    same(mods[0].VALUE, a, "first module after the second import")
    same((sys.path, sys.modules.get("os"), sys.modules.get(name)), (old, os, known.get(name)), "import state of the interpreter")
    rejects(uf.import_module_by_file_name, os.path.join(d, "none.py"), what="a file that is not there")
    rejects(uf.import_module_by_file_name, os.path.join(d, "none.txt"), what="a file that is no module")
    with open(path, "w") as f:
        f.write("raise KeyError('from the module itself')\n")
    try:
        uf.import_module_by_file_name(path)
        fail("a module that raises was imported")
    except KeyError as e:
        same(e.args, ("from the module itself",), "error of the module")
    ctx.nontrivial(a != b)


# classes: 0 is the desired one; class i+1 has bases among the earlier ones (or none)
graph = st.lists(st.tuples(st.lists(st.integers(0, 59), min_size=0, max_size=3), st.sampled_from([True, True, True, False])), max_size=5)


@CHECK.sub("locate", st.tuples(graph, st.permutations(["A", "_B", "C", "__D__", "E", "f_", "_g"]), st.booleans(), st.booleans()), quick=2500, thorough=60000)
def locate(case, ctx):
    g, names, base_in, alias = case
    classes = [type("Desired", (), {})]
    inside = [base_in]
    for own, (bases, there) in zip(names[1:], g):
        bs = list(dict.fromkeys(classes[b % len(classes)] for b in bases))
        try:
            c = type(own, tuple(bs), {})
        except TypeError:  # no consistent order of the bases
            c = type(own, tuple(bs[:1]), {})
        classes.append(c)
        inside.append(there)
    mod = types.ModuleType("m")
    mod.number, mod.text, mod.function = 1, "x", lambda: None
    for n, c, there in zip(names, classes, inside):
        c.__module__ = "m"
        if there:
            setattr(mod, n, c)
            if alias:
                setattr(mod, "z" + n, c)
    cand = [c for c, there in zip(classes[1:], inside[1:]) if there and issubclass(c, classes[0])]
    best = [c for c in cand if all(issubclass(c, o) for o in cand)]
    if cand and not best:
        rejects(uf.locate_class_in_module, mod, classes[0], exc=RuntimeError, what="unrelated candidates")
    else:
        same(uf.locate_class_in_module(mod, classes[0]), best[0] if best else None, f"class found among {len(cand)}")
    ctx.nontrivial(len(cand) > 1)
    ctx.label(f"{min(len(cand), 3)} candidates", "one best" if best else "none best" if cand else "none")


HOSTS = {"x86_64": ("x86", "64"), "AMD64": ("x86", "64"), "amd64": ("x86", "64"), "aarch64": ("ARM", "64"), "ARM64": ("ARM", "64"), "arm64": ("ARM", "64"), "aarch64_be": ("ARM", "64"), "loongarch64": ("LOONGARCH", "64"), "x86_32": ("x86", "32"), "arm32": ("ARM", "32"), "Intel64": ("x86", "64"), "loongarch32": ("LOONGARCH", "32"),
         "riscv64": None, "ppc64le": None, "s390x": None, "i686": None, "i386": None, "": None, "mips": None,
         "mips64": None, "sparc64": None, "ia64": None, "x86": None, "arm": None, "aarch": None, "loongarch": None, "armv7l": None, "armv6": None, "armv8": None, "AMD": None, "alpha": None, "x86_64_32": ("x86", "32"), "aarch64_ilp32": ("ARM", "32"), "x64": None, "64": None, "32": None}


@CHECK.sub("host", st.tuples(st.sampled_from(sorted(HOSTS)), st.sampled_from(["Linux", "Windows", "Darwin", "FreeBSD", "MSYS_NT-10.0"]), st.sampled_from(["", "x86_64", "arm", "Intel64 Family 6", "32-bit"])), quick=300, thorough=600)
def host(case, ctx):
    machine, system, rest = case
    uname = namedtuple("uname_result", "system node release version machine processor")(system, f"node-{rest}", "6.1 64", f"#1 {rest}", machine, rest)
    with mock.patch.object(platform, "uname", lambda: uname), mock.patch.object(platform, "machine", lambda: machine), mock.patch.object(platform, "system", lambda: system):
        if HOSTS[machine] is None:
            rejects(uf.GetHostInfo, exc=EnvironmentError, what=f"machine {machine!r}")
        else:
            h = uf.GetHostInfo()
            same((h.os, h.arch, h.bit), ("MacOs" if system == "Darwin" else system, *HOSTS[machine]), f"host {machine!r}")
            same(tuple(h), (h.os, h.arch, h.bit), "order of the fields")
    ctx.nontrivial(HOSTS[machine] is not None)
