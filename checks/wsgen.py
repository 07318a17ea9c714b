"""EDK II workspaces for the database checks: packages, libraries, components, one DSC and one FDF, with the instances they imply."""
import os
import shutil
import subprocess
import tempfile
import uuid

from checks.edkgen import layout, styles
from pbt import st

CLS = ["BaseLib", "DebugLib", "IoLib", "PcdLib", "TimerLib"]
TYPES = ["PEIM", "DXE_DRIVER", "SEC", "UEFI_DRIVER"]
LTYPES = ["BASE", "BASE", "PEIM", "DXE_DRIVER", "BASE", "UEFI_DRIVER", "BASE", "BASE", "USER_DEFINED"]
HOMES = ["AlphaPkg", "PP/BetaPkg", "PP/Sub/GammaPkg", "Loose", "PP/Sub/GammaPkg/Deep", "Extra/BetaPkg", "Extra/Loose", "Ext/OmegaPkg"]
ROOT = {"AlphaPkg": "", "PP/BetaPkg": "PP/", "PP/Sub/GammaPkg": "PP/Sub/", "Loose": "", "PP/Sub/GammaPkg/Deep": "PP/Sub/", "Extra/BetaPkg": "", "Extra/Loose": "", "Ext/OmegaPkg": ""}
PKG = {"AlphaPkg": "AlphaPkg", "PP/BetaPkg": "PP/BetaPkg", "PP/Sub/GammaPkg": "PP/Sub/GammaPkg", "Loose": None, "PP/Sub/GammaPkg/Deep": "PP/Sub/GammaPkg", "Extra/BetaPkg": "Extra/BetaPkg", "Extra/Loose": None, "Ext/OmegaPkg": "Ext/OmegaPkg"}
SUBS = ["PP", "Extra", "Loose", "PP/BetaPkg", "PP/Sub", "AlphaPkgs", "Ext"]


def repo_of(home, subs):
    """The submodule that holds the modules of a home: a path, None for the workspace's own repository, ... if the database need not know it."""
    for s in subs:
        if home == s or home.startswith(s + "/"):
            return s if any(p and (p == s or p.startswith(s + "/")) for p in PKG.values()) else ...
    return None
uses = st.lists(st.tuples(st.sampled_from(CLS), st.sampled_from([None, None, None, "X64", "ia32", "common"])), min_size=0, max_size=4, unique=True)
srcs = st.lists(st.tuples(st.sampled_from(["a.c", "b.c", "Sub/a.nasm", "../Shared/s.c", "S.h", "./a.c", "Sub/../b.c"]), st.sampled_from([None, None, "X64", "IA32"])), max_size=3, unique=True)
home = st.sampled_from(HOMES)
phases = st.one_of(st.none(), st.none(), st.just(["BASE"]), st.lists(st.sampled_from(TYPES), min_size=1, max_size=2, unique=True))
lib = st.tuples(st.sampled_from(CLS), phases, uses, srcs, home, st.integers(0, 9))
ref = st.tuples(st.integers(0, 9), st.integers(0, 3))  # which library, how its path is written
comp = st.fixed_dictionaries(
    {
        "type": st.sampled_from(TYPES),
        "uses": uses,
        "srcs": srcs,
        "home": home,
        "scope": st.sampled_from(["X64", "IA32", "X64", None, "x64", "common", "X64.PEIM"]),
        "over": st.one_of(st.none(), st.lists(st.tuples(st.one_of(st.sampled_from(CLS), st.just("NULL")), ref), max_size=3)),
        "form": st.integers(0, 3),
        "n": st.integers(0, 9),
    }
)
scope = st.sampled_from([None, None, "common", "X64", "IA32", "X64.PEIM", "X64.DXE_DRIVER", "common.PEIM", "common.SEC", "IA32.PEIM", "x64.dxe_driver", "common.DXE_DRIVER"])
models = st.fixed_dictionaries(
    {
        "libs": st.lists(lib, min_size=2, max_size=8),
        "comps": st.lists(comp, min_size=1, max_size=4),
        "sections": st.lists(st.tuples(st.lists(scope, min_size=1, max_size=2, unique_by=lambda s: (s or "common").lower()), st.lists(st.tuples(st.one_of(st.none(), st.none(), st.none(), st.just("NULL"), st.sampled_from(CLS)), ref), min_size=1, max_size=6)), min_size=1, max_size=4),
        "supported": st.sampled_from([["X64"], ["IA32", "X64"], ["X64", "IA32"]]),
        "target": st.sampled_from(["X64", "IA32 X64", "IA32", "X64 IA32"]),
        "libcomps": st.lists(st.tuples(ref, st.sampled_from(["X64", None, "IA32"])), max_size=2, unique_by=lambda t: t[0][0]),
        "fvs": st.lists(st.tuples(st.sampled_from(["FVMAIN", "FVPEI", "DXEFV"]), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 11), st.integers(0, 3)), max_size=4)), max_size=3, unique_by=lambda t: t[0]),
        "subs": st.lists(st.sampled_from(SUBS), max_size=2, unique=True).map(lambda v: [s for s in v if not any(s.startswith(t + "/") for t in v)]),
        "style": styles,
    }
)


def forms(path, how, root):
    """The same file written relative to each root that contains it."""
    if path.startswith("PP/Sub/"):
        f = [path[7:], path[3:], path]
    elif path.startswith("PP/"):
        f = [path[3:], path]
    else:
        f = [path]
    f.append(os.path.join(root, path))
    return f[how % len(f)]


def near(path):
    return path[7:] if path.startswith("PP/Sub/") else path[3:] if path.startswith("PP/") else path


def gid(tag):
    return str(uuid.uuid5(uuid.NAMESPACE_DNS, tag)).upper()


def inf_text(name, guid, mtype, cls, phases, uses, srcs, style):
    L = ["[Defines]", "INF_VERSION = 0x00010005", f"BASE_NAME = {name}", f"MODULE_TYPE = {mtype}"]
    if guid:
        L.append(f"FILE_GUID = {guid}")
    if cls:
        L.append(f"LIBRARY_CLASS = {cls}" + ("" if phases is None else "|" + " ".join(phases)))
    for sec, items in (("Sources", srcs), ("LibraryClasses", uses)):
        for e, sc in items:
            L.append(f"[{sec}]" if sc is None else f"[{sec}.{sc}]")
            L.append(e)
    return layout(L, style)


class Workspace:
    """Writes the model under root and knows what it implies."""

    pps = ["PP", "PP/Sub"]

    def __init__(self, m, root, git=None):
        self.m, self.root = m, root
        os.makedirs(os.path.join(root, "PP/Sub/GammaPkg/Deep"))
        os.makedirs(os.path.join(root, "Plat"))
        for p, d in (("AlphaPkg", "AlphaPkg/A.dec"), ("PP/BetaPkg", "PP/BetaPkg/B.dec"), ("PP/Sub/GammaPkg", "PP/Sub/GammaPkg/G.dec"), ("Extra/BetaPkg", "Extra/BetaPkg/B.dec"), ("Ext/OmegaPkg", "Ext/OmegaPkg/O.dec")):
            os.makedirs(os.path.join(root, p), exist_ok=True)
            self.put(d, "[Defines]\nDEC_SPECIFICATION = 0x00010017\n")
        if git:
            shutil.copytree(git, os.path.join(root, ".git"))
            if m["subs"]:
                self.put(".gitmodules", "".join(f'[submodule "{s}"]\n\tpath = {s}\n\turl = https://host/{s}.git\n' for s in m["subs"]))
                args = [a for s in m["subs"] for a in ("--cacheinfo", f"160000,{git_template()[1]},{s}")]
                subprocess.run(["git", "-C", root, "update-index", "--add"] + args, check=True)
        self.lib, self.comp = [], []
        for i, (cls, ph, us, sr, hm, x) in enumerate(m["libs"]):
            p = f"{hm}/L{i}/L{i}.inf"
            self.lib.append(p)
            self.put(p, inf_text(f"L{i}", gid(p) if x else "", LTYPES[x % len(LTYPES)], cls, ph, us, sr, m["style"]))
        for i, c in enumerate(m["comps"]):
            p = f"{c['home']}/C{i}/C{i}.inf"
            self.comp.append(p)
            self.put(p, inf_text(f"C{i}", gid(p), c["type"], None, None, c["uses"], c["srcs"], m["style"]))
        self.write_dsc()
        self.write_fdf()

    def put(self, rel, text):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)

    def libref(self, r):
        i = r[0] % len(self.lib)
        return i, forms(self.lib[i], r[1], self.root)

    def write_dsc(self):
        m = self.m
        L = ["[Defines]", "PLATFORM_NAME = P", f"SUPPORTED_ARCHITECTURES = {'|'.join(m['supported'])}"]
        self.scoped = {}  # scope key -> library indexes, latest first
        for scopes, ents in m["sections"]:
            L.append("[" + ", ".join("LibraryClasses" if s is None else f"LibraryClasses.{s}" for s in scopes) + "]")
            for cls, r in ents:
                i, text = self.libref(r)
                cls = cls or m["libs"][i][0]
                L.append(f"{cls}|{text}")
                for s in scopes:
                    lst = self.scoped.setdefault(f"{(s or 'common').lower()}.{cls.lower()}", [])
                    lst[:] = [i] + [x for x in lst if x != i]
        for i, c in enumerate(m["comps"]):
            L.append("[Components]" if c["scope"] is None else f"[Components.{c['scope']}]")
            t = forms(self.comp[i], c["form"], self.root)
            if c["over"] is None:
                L.append(t)
                continue
            L.append(t + " {")
            if c["over"]:
                L.append("<LibraryClasses>")
                L += [f"{cls}|{self.libref(r)[1]}" for cls, r in c["over"]]
            L.append("}")
        for r, sc in m["libcomps"]:  # a library built for its own sake is not an instance
            L += ["[Components]" if sc is None else f"[Components.{sc}]", self.libref(r)[1]]
        self.put("Plat/P.dsc", layout(L, m["style"]))

    def write_fdf(self):
        L = ["[Defines]"]
        for name, infs in self.m["fvs"]:
            L.append(f"[FV.{name}]")
            for i, opt, how in infs:
                if self.comp:
                    t = forms(self.comp[i % len(self.comp)], how, self.root)
                    if opt >= 9:
                        L.append(["INF AlphaPkg/Missing/Missing.inf", "INF $(NOWHERE)/Missing.inf", "INF " + self.libref((i, how))[1]][opt - 9])
                    L.append("INF " + ["", "", "RuleOverride=RESET ", "ruleoverride = ACPI ", "USE = X64 ", 'VERSION = "1.1" ', 'UI = "my ui" ', "FILE_GUID = 12345678-1234-1234-1234-123456789012 ", 'RuleOverride = ACPI USE = X64 VERSION = "1.0" ', "", "", ""][opt] + t)
        self.put("Plat/P.fdf", layout(L, self.m["style"]))

    def env(self, **more):
        return {"ACTIVE_PLATFORM": "Plat/P.dsc", "FLASH_DEFINITION": "Plat/P.fdf", "TARGET_ARCH": self.m["target"], "TARGET": "DEBUG", **more}

    # ---- what it implies

    def supports(self, i, mtype):
        ph = self.m["libs"][i][1]
        return ph is None or ph == ["BASE"] or mtype in ph

    def instance(self, cls, arch, mtype, over):
        if cls in over:
            return over[cls]
        a, t, c = arch.lower(), mtype.lower(), cls.lower()
        for key in (f"{a}.{t}.{c}", f"common.{t}.{c}", f"{a}.{c}", f"common.{c}"):
            for i in self.scoped.get(key, []):
                if self.supports(i, mtype):
                    return i
        return None

    @staticmethod
    def active(items, arch):
        return [e for e, sc in items if sc is None or sc.lower() in ("common", arch.lower())]

    def sources(self, path, items, arch):
        return {near(os.path.normpath(os.path.join(os.path.dirname(path), s))) for s in self.active(items, arch)}

    def builds(self):
        """(component index, arch) for everything the platform builds."""
        for k, c in enumerate(self.m["comps"]):
            s = (c["scope"] or "common").upper().split(".")[0]
            for a in self.m["supported"] if s == "COMMON" else [s]:
                if a in self.m["target"].split(" "):
                    yield k, a

    def rows(self):
        """{(component path, arch, path): (classes it may be listed under, name, package, sources, linked paths, repository)}."""
        out = {}
        for k, arch in self.builds():
            c = self.m["comps"][k]
            over, nulls = {}, []
            for cls, r in c["over"] or []:
                if cls == "NULL":
                    nulls.append(self.libref(r)[0])
                else:
                    over[cls] = self.libref(r)[0]
            a, t = arch.lower(), c["type"].lower()
            for key in (f"{a}.{t}.null", f"common.{t}.null", f"{a}.null", "common.null"):
                nulls += self.scoped.get(key, [])
            links = [(cls, self.instance(cls, arch, c["type"], over)) for cls in self.active(c["uses"], arch)] + [("NULL", i) for i in nulls]
            todo, classes, linked = [], {}, {}
            seen = {}

            def take(links):
                for cls, i in links:
                    if i is not None:
                        classes.setdefault(i, set()).add(cls)
                        todo.append(i)

            take(links)
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                us = self.m["libs"][i][2]
                seen[i] = [(cls, self.instance(cls, arch, c["type"], over)) for cls in self.active(us, arch)]
                take(seen[i])
            hasguid = lambda i: bool(self.m["libs"][i][5])  # noqa: E731
            path = self.comp[k]
            linked = lambda ls: {near(self.lib[i]) for _, i in ls if i is not None and hasguid(i)}  # noqa: E731
            me = near(path)
            out[(me, arch, me)] = ({None}, f"C{k}", PKG[c["home"]], self.sources(path, c["srcs"], arch), linked(links), repo_of(c["home"], self.m["subs"]))
            for i, ls in seen.items():
                if hasguid(i):
                    cls_, ph, us, sr, hm, _ = self.m["libs"][i]
                    out[(me, arch, near(self.lib[i]))] = (classes[i], f"L{i}", PKG[hm], self.sources(self.lib[i], sr, arch), linked(ls), repo_of(hm, self.m["subs"]))
        return out

    def fvs(self):
        """{volume: component paths that are built}."""
        built = {near(self.comp[k]) for k, _ in self.builds()}
        return {name: {near(self.comp[i % len(self.comp)]) for i, _, _ in infs} & built for name, infs in self.m["fvs"] if infs and self.comp}


_git = []


def git_template():
    """A minimal .git directory with one commit."""
    if not _git:
        d = tempfile.mkdtemp()
        env = dict(os.environ, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b", GIT_AUTHOR_DATE="2020-01-01T00:00:00", GIT_COMMITTER_DATE="2020-01-01T00:00:00")
        subprocess.run(["git", "init", "-q", "--template=", d], check=True, env=env)
        subprocess.run(["git", "-C", d, "commit", "-q", "--allow-empty", "-m", "x"], check=True, env=env)
        sha = subprocess.run(["git", "-C", d, "rev-parse", "HEAD"], check=True, capture_output=True, text=True).stdout.strip()
        _git.append((os.path.join(d, ".git"), sha))
    return _git[0]
