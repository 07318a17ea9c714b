"""P34: external commands, Python scripts and signing tools."""
import contextlib
import io
import logging
import os
import shlex
import signal
import stat
import sys

from edk2toollib import utility_functions as uf
from pbt import Check, st
from pbt.core import expect, fail, rejects, same

META = dict(
    title="A command gets its exact arguments and all its output and result come back",
    statement="A command run through the toolkit gets exactly the arguments, folder and environment asked for; every line it prints on either output reaches the file, the stream and the log in order; its exit code is returned (or raised when asked), and it never hangs however much it prints, whether captured or not and whether or not its output can be decoded. A Python script is found in the current folder or on the path also when names contain spaces. The signing helpers call the tool with the documented arguments, report its failure, and leave the signature exactly where requested.",
    over=["inputs", "failures"],
    text="every argument list, output, exit code, decoding error and location",
    why="The only test runs one script without arguments; nothing looks at what is captured, at large or undecodable output, or at any signing call.",
    files=["edk2toollib/utility_functions.py"],
    mechanism=[("commands", "RunCmd, reader, PropagatingThread"), ("scripts", "RunPythonScript"), ("signing", "DetachedSignWithSignTool, CatalogSignWithSignTool")],
    technique="property-based testing: generated stand-in programs that record what they were given and print generated output, compared with what the caller receives",
    note="POSIX shell only; arguments are quoted for the shell by the caller",
)
CHECK = Check("P34", "the output has several lines or parts, cannot be decoded, exceeds a pipe, or an argument or path needs quoting")


@contextlib.contextmanager
def deadline(seconds, what):
    def late(signum, frame):
        raise AssertionError(f"{what} did not come back within {seconds} s")
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.NOTSET)
        self.got = []

    def emit(self, r):
        self.got.append((r.levelno, r.getMessage()))


@contextlib.contextmanager
def logged():
    root, h = logging.getLogger(), Records()
    old = root.level
    root.setLevel(1)
    root.addHandler(h)
    try:
        yield h.got
    finally:
        root.removeHandler(h)
        root.setLevel(old)


def script(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("#!/bin/sh\n" + text)
    os.chmod(path, os.stat(path).st_mode | stat.S_IXUSR)


def slurp(path):
    with open(path, "rb") as f:
        return f.read()


text_line = st.one_of(st.sampled_from(["", "hello", "50% {0} %s", "\ttab  ", "caf\u00e9 \u4e2d \U0001f600", "a\rb", "\0", "\0\0x", "\x1a", "\x04"]), st.text(st.characters(min_codepoint=1, exclude_categories=["Cs"]), max_size=10))
chunk = st.tuples(st.sampled_from([1, 1, 2]), st.one_of(st.lists(text_line, min_size=1, max_size=4).map("\n".join), text_line).map(str.encode), st.sampled_from([b"\n", b"\n", b"", b"\r\n", b"\n\n"])).map(lambda t: (t[0], t[1] + t[2]))
bad = st.sampled_from([b"\xff", b"\xe4\xb8", b"caf\xe9\n", b"\xc3\n\xa9", b"\xed\xa0\x80"])
arg = st.one_of(st.sampled_from(["", "a", "two words", "-x=1", "'", '"', "$HOME", "*", "a;b", "tab\t", " lead", "tail ", "back\\slash", "%PATH%", "caf\u00e9", "new\nline", "`id`", "two  blanks", "a \t b", "\"q\" 'q'"]), st.text(st.characters(min_codepoint=32, exclude_categories=["Cs"]), max_size=6))
folder = st.sampled_from(["d", "my dir", "caf\u00e9 x", "a.b-c", "two  blanks"])
run = st.fixed_dictionaries({
    "chunks": st.lists(chunk, max_size=5),
    "bad": st.one_of(st.none(), st.none(), bad),
    "flood": st.one_of(st.just(0), st.just(0), st.just(0), st.sampled_from([1, 3])),
    "errors": st.sampled_from([None, "strict", "replace", "ignore", "backslashreplace"]),
    "args": st.one_of(st.none(), st.lists(arg, max_size=4)),
    "pad": st.sampled_from(["", " ", "  "]),
    "exe": folder, "quote": st.sampled_from(["", '"', "'"]),
    "cwd": st.one_of(st.none(), folder), "env": st.one_of(st.none(), st.dictionaries(st.sampled_from(["A", "B_2", "PATHX"]), arg, max_size=3)),
    "capture": st.sampled_from([True, True, True, False]), "outfile": st.booleans(), "outstream": st.booleans(),
    "level": st.sampled_from([None, logging.DEBUG, logging.WARNING, 25]),
    "rc": st.one_of(st.just(0), st.integers(0, 255), st.sampled_from([-9, -15, -6])), "raises": st.booleans()})


@CHECK.sub("command", run, quick=160, thorough=6000, shards=4)
def command(m, ctx):
    d = ctx.tmp()
    exe = os.path.join(d, m["exe"], "tool")
    parts = list(m["chunks"])
    if m["bad"] is not None:
        parts.insert(len(parts) // 2, (1, m["bad"]))
    if m["flood"]:
        parts.append((m["flood"] & 2 or 1, b"0123456789abcdef" * 4 * 1024 * 3 * m["flood"] + b"\n"))
        parts.append((1, b"line\n" * 20000))
    body = "D=%s\nprintf '%%s\\0' \"$@\" > \"$D/args\"\nprintf %%s $# > \"$D/count\"\npwd -P > \"$D/cwd\"\nenv -0 > \"$D/env\"\n" % shlex.quote(d)
    for i, (s, b) in enumerate(parts):
        with open(os.path.join(d, f"p{i}"), "wb") as f:
            f.write(b)
        body += f'cat "$D/p{i}"' + (" >&2" if s == 2 else "") + "\n"
    script(exe, body + (f"exit {m['rc']}\n" if m["rc"] >= 0 else f"kill {m['rc']} $$\n"))
    out = b"".join(b for _, b in parts)
    kw = {"capture": m["capture"]}
    outfile = os.path.join(d, "captured.txt")
    if m["outfile"]:
        kw["outfile"] = outfile
    if m["outstream"]:
        kw["outstream"] = io.StringIO(newline="")
    cwd = os.getcwd()
    if m["cwd"]:
        cwd = os.path.join(d, m["cwd"], "w")
        os.makedirs(cwd)
        kw["workingdir"] = cwd
    if m["env"] is not None:
        kw["environ"] = dict(m["env"], PATH=os.environ["PATH"])
    for k, n in (("errors", "encodingErrors"), ("level", "logging_level")):
        if m[k] is not None:
            kw[n] = m[k]
    if m["raises"]:
        kw["raise_exception_on_nonzero"] = True
    params = None if m["args"] is None else m["pad"] + " ".join(map(shlex.quote, m["args"])) + m["pad"]
    cmd = m["quote"] + exe + m["quote"]
    if m["rc"] < 0:  # run in place of the shell, which would otherwise report the signal in its own way
        cmd, params = "exec", shlex.quote(exe) + " " + (params or "")
    try:
        decoded = out.decode("utf-8", errors=m["errors"] or "strict")
    except UnicodeDecodeError:
        decoded = None
    error = result = None
    codes = [m["rc"], 128 - m["rc"]] if m["rc"] < 0 else [m["rc"]]  # ended by a signal: some shells say 128 + its number
    with logged() as got, deadline(20, "the command"):
        try:
            result = uf.RunCmd(cmd, params, **kw)
        except AssertionError:
            raise
        except Exception as e:
            error = e
    if decoded is None and m["capture"]:
        expect(isinstance(error, UnicodeDecodeError), f"undecodable output gave {result!r} / {error!r}")
    elif m["raises"] and m["rc"]:
        expect(error is not None, f"exit code {m['rc']} did not raise")
        expect(any(f"{abs(c):x}" in str(error) for c in codes), f"{error} does not name exit code {m['rc']}")
    else:
        if error is not None:
            raise error
        expect(result in codes, f"exit code {result!r} instead of {m['rc']}")
    expect(os.path.exists(os.path.join(d, "env")), "the command did not run")
    # what the command was given
    args = m["args"] or []
    same(int(slurp(os.path.join(d, "count"))), len(args), "number of arguments")
    if args:
        same([a.decode() for a in slurp(os.path.join(d, "args")).split(b"\0")[:-1]], args, "arguments")
    same(slurp(os.path.join(d, "cwd")).decode()[:-1], os.path.realpath(cwd), "folder of the command")
    env = dict(e.split(b"=", 1) for e in slurp(os.path.join(d, "env")).split(b"\0") if e)
    want = {k.encode(): v.encode() for k, v in (kw.get("environ") or dict(os.environ)).items()}
    for k in (b"_", b"PWD", b"OLDPWD", b"SHLVL"):
        env.pop(k, None)
        want.pop(k, None)
    same(env, want, "environment of the command")
    # what came back
    if decoded is not None and m["capture"]:
        if m["outfile"]:
            same(slurp(outfile).decode(), decoded, "output in the file")
        if m["outstream"]:
            same(kw["outstream"].getvalue(), decoded, "output in the stream")
        level = m["level"] or logging.INFO
        lines = decoded.split("\n")
        lines = [l.rstrip() for l in (lines[:-1] if lines[-1] == "" else lines)]
        mine = [t for l, t in got if l == level]
        starts = [i for i, t in enumerate(mine) if "Output Starting" in t]
        ends = [i for i, t in enumerate(mine) if "Output Finished" in t]
        same((len(starts) > 0, len(ends) > 0), (True, True), "output is marked in the log")
        same(mine[starts[0] + 2:ends[-1] - 1], lines, "lines of the log")
        expect(any(exe in t for t in mine[:starts[0]]), "the log does not name the command")
        expect(any("Return Code" in t and any(f"{abs(c):x}" in t for c in codes) for t in mine[ends[-1]:]), "the log does not hold the exit code")
    elif not m["capture"]:
        same((os.path.exists(outfile), kw.get("outstream", io.StringIO()).getvalue()), (False, ""), "uncaptured output")
    ctx.nontrivial(len(out.splitlines()) > 1 or decoded is None or " " in exe or any(shlex.quote(a) != a for a in args))
    ctx.label("undecodable" if decoded is None else "decodable", "captured" if m["capture"] else "not captured", "flood" if m["flood"] else "small")


class Full:
    """A stream that fails after some writes."""

    def __init__(self, room, error):
        self.room, self.error = room, error

    def write(self, s):
        self.room -= 1
        if self.room < 0:
            raise self.error


@CHECK.sub("sink", st.tuples(st.sampled_from(["missing folder", "a folder", "full stream", "full stream"]), st.sampled_from([OSError(28, "full"), ValueError("closed"), KeyError("x"), BrokenPipeError(), UnicodeEncodeError("ascii", "x", 0, 1, "no")]), st.integers(0, 3), st.integers(1, 4), st.sampled_from([0, 0, 1, 3]), st.booleans(), st.booleans()), quick=48, thorough=1500, shards=2)
def sink(case, ctx):
    """Output that cannot be kept is an error, whatever the command itself says, and leaves nothing hanging."""
    how, error, room, more, rc, raises, flood = case
    d = ctx.tmp()
    script(os.path.join(d, "tool"), "i=0\nwhile [ $i -lt %d ]; do echo line; i=$((i+1)); done\n%sexit %d\n" % (room + more, "head -c 300000 /dev/zero | tr '\\0' x\n" if flood else "", rc))
    kw = {"outfile": {"missing folder": os.path.join(d, "none", "out.txt"), "a folder": d}[how]} if "folder" in how else {"outstream": Full(room, error)}
    result = None
    with deadline(20, "the command"):
        try:
            result = uf.RunCmd(os.path.join(d, "tool"), "", raise_exception_on_nonzero=raises, **kw)
        except AssertionError:
            raise
        except Exception as e:
            if "folder" in how:
                expect(isinstance(e, OSError), f"{how}: {e!r}")
            else:
                expect(e is error or str(error) in str(e) or (raises and rc), f"{how}: {e!r} instead of {error!r}")
        else:
            fail(f"output that could not be kept ({how}, {error!r}) gave the result {result!r}")
    ctx.nontrivial()
    ctx.label(how)


where = st.sampled_from(["absolute", "current folder", "below the current folder", "on the path", "nowhere"])


@CHECK.sub("python", st.tuples(where, folder, st.sampled_from(["s.py", "my script.py", "a-b.py"]), st.sampled_from(["", '"', "'"]), st.lists(arg, max_size=3), st.sampled_from(["", " "]), st.integers(0, 3), st.booleans(), st.booleans(), st.sampled_from([None, "working folder", "folder of that name", "later on the path"])), quick=64, thorough=1500, shards=8)
def python(case, ctx):
    place, name, file, quote, args, pad, rc, other_dir, raises, decoy = case
    d = ctx.tmp()
    home = os.path.join(d, name)
    elsewhere = os.path.join(d, "else where")
    os.makedirs(os.path.join(home, "sub dir"))
    os.makedirs(elsewhere)
    path = os.path.join(home, "sub dir", file) if place.startswith("below") else os.path.join(home, file)
    with open(path, "w") as f:
        f.write("import sys, os\nopen(%r, 'wb').write(b'\\0'.join(a.encode() for a in [sys.argv[0], os.getcwd()] + sys.argv[1:]))\nprint('caf\\u00e9')\nprint('second', file=sys.stderr)\nsys.exit(%d)\n" % (os.path.join(d, "log"), rc))
    given = {"absolute": path, "current folder": file, "below the current folder": os.path.join("sub dir", file), "on the path": file, "nowhere": "no such " + file}[place]
    work = os.path.join(d, "work here") if other_dir else None
    late = os.path.join(d, "late")
    for p in (late, os.path.join(d, "work here")):
        os.makedirs(p)
    other = os.path.join({"working folder": os.path.join(d, "work here"), "later on the path": late}.get(decoy, d), given)
    if decoy == "folder of that name" and place in ("on the path", "nowhere"):
        os.makedirs(os.path.join(elsewhere if place == "on the path" else home, given))
    elif decoy in ("working folder", "later on the path") and place not in ("absolute", "nowhere"):
        os.makedirs(os.path.dirname(other), exist_ok=True)
        with open(other, "w") as f:
            f.write("print('not the script that was asked for')\n")
    old, oldpath = os.getcwd(), os.environ["PATH"]
    result = error = None
    out = io.StringIO()
    try:
        os.chdir(elsewhere if place in ("absolute", "on the path") else home)
        if place == "on the path":
            os.environ["PATH"] = os.pathsep.join([os.path.join(d, "empty"), home, late, oldpath])
        elif decoy == "later on the path":
            os.environ["PATH"] = os.pathsep.join([late, oldpath])
        now = os.getcwd()
        with deadline(30, "the script"):
            try:
                result = uf.RunPythonScript(quote + given + quote, pad + " ".join(map(shlex.quote, args)) + pad, workingdir=work, outstream=out, raise_exception_on_nonzero=raises, environ=dict(os.environ, PYTHONIOENCODING="utf-8"))
            except AssertionError:
                raise
            except Exception as e:
                error = e
    finally:
        os.chdir(old)
        os.environ["PATH"] = oldpath
    if place == "nowhere":
        expect(error is not None if raises else result not in (0, None), f"a script that is not there gave {result!r} / {error!r}")
        expect(not os.path.exists(os.path.join(d, "log")), "some script ran")
    else:
        if raises and rc:
            expect(error is not None, f"exit code {rc} did not raise")
        else:
            if error is not None:
                raise error
            same(result, rc, f"exit code of {given!r} ({place}); it printed {out.getvalue()[-200:]!r}")
        expect(os.path.exists(os.path.join(d, "log")), f"{given!r} ({place}) did not run; what ran printed {out.getvalue()[-200:]!r}")
        got = slurp(os.path.join(d, "log")).decode().split("\0")
        same(os.path.realpath(os.path.join(work or now, got[0])), os.path.realpath(path), "script that ran")
        same(os.path.realpath(got[1]), os.path.realpath(work or now), "folder it ran in")
        same(got[2:], args, "its arguments")
        same(sorted(out.getvalue().splitlines()), ["caf\u00e9", "second"], "its output")
    ctx.nontrivial(" " in path or bool(quote) or other_dir or bool(args))
    ctx.label(place)


sign = st.fixed_dictionaries({"kind": st.sampled_from(["detached", "detached", "catalogue"]), "tools": folder, "src": st.sampled_from(["in/x.bin", "my in/x y.bin", "x.bin", "/abs/x.bin", "/abs dir/x.bin"]),
                              "out": st.sampled_from(["out/s.p7", "my out/s.p7", "s.p7", "x.bin.p7", "/o/x.bin.p7", "/o/s sig.bin"]), "pfx": st.sampled_from(["k.pfx", "my keys/k.pfx", "/p/k.pfx"]),
                              "password": st.sampled_from([None, None, "pw", "secret123"]), "oid": st.sampled_from([None, "1.2.3"]), "eku": st.sampled_from([None, None, "1.3.6.1.4.1.311.76.9.21.1"]),
                              "rc": st.sampled_from([0, 0, 0, 1, 2]), "makes": st.sampled_from([True, True, True, False]), "stale": st.booleans(), "there": st.sampled_from([True, True, True, True, False])})


@CHECK.sub("sign", sign, quick=120, thorough=4000, shards=2)
def signing(m, ctx):
    d = ctx.tmp()
    work = os.path.join(d, "work")
    os.makedirs(work)
    tool = os.path.join(d, m["tools"], "signtool.exe")
    script(tool, 'L=%s\nprintf "%%s\\n" "$@" > "$L"\npwd -P > "$L.cwd"\nwhile [ $# -gt 1 ]; do [ "$1" = /p7 ] && O="$2"; shift; done\ncat "$1" > "$L.signed" || exit 9\n%s%s\nexit %d\n' % (shlex.quote(os.path.join(d, "log")), '[ -d "$O" ] || exit 8\n' if m["kind"] == "detached" else "", 'echo "signature of $(basename "$1")" > "${O:-.}/$(basename "$1").p7"' if m["makes"] and m["kind"] == "detached" else ":", m["rc"]))

    def place(p):
        return os.path.join(d, p[1:]) if p.startswith("/") else p
    src, out, pfx = place(m["src"]), place(m["out"]), place(m["pfx"])
    old = os.getcwd()
    os.chdir(work)
    result = error = None
    try:
        for p in (src, out, pfx):
            os.makedirs(os.path.dirname(os.path.abspath(p)), exist_ok=True)
        with open(src, "wb") as f:
            f.write(b"to be signed")
        if m["stale"] and m["kind"] == "detached":
            with open(out, "w") as f:
                f.write("stale\n")
        kw = {k: v for k, v in (("PfxPass", m["password"]), ("Oid", m["oid"] if m["kind"] == "detached" else None), ("Eku", m["eku"] if m["kind"] == "detached" else None)) if v}
        name = tool if m["there"] else tool + ".missing"
        before = slurp(src)
        with deadline(20, "signing"):
            try:
                result = uf.DetachedSignWithSignTool(name, src, out, pfx, **kw) if m["kind"] == "detached" else uf.CatalogSignWithSignTool(name, src, pfx, **kw)
            except AssertionError:
                raise
            except Exception as e:
                error = e
        log = os.path.join(d, "log")
        same(slurp(src), before, "file to be signed")
        if not m["there"]:
            expect(error is not None or result not in (0, None), "a missing tool was not reported")
            expect(not os.path.exists(log), "something ran")
        else:
            expect(os.path.exists(log), f"the tool did not run: {error!r}")
            got = slurp(log).decode().splitlines()
            cwd = slurp(log + ".cwd").decode()[:-1]

            def at(p):
                return os.path.realpath(os.path.join(cwd, p))
            paths = {"/f": pfx} | ({"/p7": os.path.dirname(out) or "."} if m["kind"] == "detached" else {})
            words = ["sign", "/fd", "sha256", "/p7ce", "DetachedSignedData", "/p7co", m["oid"] or "1.2.840.113549.1.7.2", "/p7", "", "/f", ""] if m["kind"] == "detached" else ["sign", "/a", "/fd", "SHA256", "/f", ""]
            if kw.get("Eku"):
                words += ["/u", m["eku"]]
            if m["password"]:
                words += ["/p", m["password"]]
            words += ["/debug", "/v"]
            same(len(got), len(words) + 1, f"number of arguments {got}")
            for i, w in enumerate(words):
                if i and words[i - 1] in paths:
                    same(at(got[i] or "."), os.path.realpath(paths[words[i - 1]]), f"argument of {words[i - 1]}")
                else:
                    same(got[i], w, f"argument {i} of {got}")
            same(at(got[-1]), os.path.realpath(src), "file the tool was told to sign")
            same(slurp(log + ".signed"), b"to be signed", "what the tool read")
            if m["rc"]:
                expect(error is not None or result not in (0, None), f"exit code {m['rc']} of the tool was not reported")
            elif m["kind"] == "catalogue":
                same((result, error), (0, None), "result")
            elif not m["makes"]:
                if out.endswith("x.bin.p7") and m["stale"]:
                    pass  # the earlier file has the name the tool would have written
                else:
                    expect(error is not None or result not in (0, None), "a signature that was not made was not reported")
            else:
                if error is not None:
                    raise error
                same(result, 0, "result")
                same(slurp(out).decode(), f"signature of {os.path.basename(src)}\n", "signature where it was requested")
                left = os.path.join(os.path.dirname(out), os.path.basename(src) + ".p7")
                expect(os.path.realpath(left) == os.path.realpath(out) or not os.path.exists(left), "a copy of the signature was left behind")
    finally:
        os.chdir(old)
    ctx.nontrivial(" " in tool + src + out + pfx or bool(m["rc"]) or not m["makes"] or not os.path.isabs(src))
    ctx.label(m["kind"], "ok" if not m["rc"] and m["makes"] else "tool fails")
