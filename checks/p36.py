"""P36: log handlers."""
import copy
import io
import logging
import os
import sys
import re
import subprocess
import threading
from types import SimpleNamespace
from unittest import mock

from edk2toollib.log.ansi_handler import AnsiColor, ColoredFormatter, ColoredStreamHandler, get_ansi_string
from edk2toollib.log.file_handler import FileHandler
from edk2toollib.log.string_handler import StringStreamHandler
from edk2toollib.log import ansi_handler
from checks.hosts import host
from pbt import Check, st
from pbt.core import REPO, expect, same

META = dict(
    title="Every log record reaches each handler once, in order, complete and uncorrupted",
    statement="The file, string and colour handlers write exactly the records that pass their level and filters, once each, in order, also when several threads log. Colours (or Azure markers) only decorate: with stripping on, the text is the same record without any escape sequence, with it off it is the record plus the colours of its level; converting for a Windows console, the text is stripped and every colour is set on the console before the text that follows it. One handler never changes what another writes, even when a record cannot be formatted.",
    over=["inputs", "histories", "schedules"],
    text="every sequence of records, handler set-up, filter and thread schedule",
    why="The tests log single fixed records to one handler; mixed handlers sharing records, records that fail to format, filters and concurrent logging are not tried.",
    files=["edk2toollib/log/ansi_handler.py", "edk2toollib/log/file_handler.py", "edk2toollib/log/string_handler.py"],
    mechanism=[("colour", "ColoredFormatter.format, get_ansi_string"), ("stripping", "ColoredStreamHandler.write_and_convert"), ("console colours", "ColoredStreamHandler.convert_ansi"), ("levels and filters", "handle of each handler")],
    technique="property-based testing: generated logging histories over sets of handlers compared with a model; threaded histories checked for loss, duplication and interleaving",
    note="the Windows console is a stand-in that records the calls",
)
CHECK = Check("P36", "handlers of different kind or level share the records, a record cannot be formatted, or threads log together")

CUSTOM = {21: "STATUS", 22: "PROGRESS", 23: "SECTION", 35: "NOTICE"}
for _n, _s in CUSTOM.items():
    logging.addLevelName(_n, _s)
NAMES = {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR", 50: "CRITICAL", 5: "Level 5"} | CUSTOM
COLOR = {"WARNING": 33, "INFO": 36, "DEBUG": 34, "CRITICAL": 97, "ERROR": 31, "STATUS": 32, "PROGRESS": 32, "SECTION": 36}
AZURE = {"CRITICAL": "##[section]", "ERROR": "##[error]"}
levels = st.sampled_from(sorted(NAMES))
plain = st.one_of(st.sampled_from(["", "message", "caf\u00e9 \u4e2d\U0001f600", "two\nlines", "\x1b[31mred\x1b[0m", "\x1b[1;4mx", "a\x1b[2Kb", "\x1b", "[31m", "\x01\x1b[32m\x02prompt", "\x1b[", "\x1b[;m", "100", "\ttab", "\x1b[31", "m\x1b[39m\x1b[39m"]), st.text(st.sampled_from("ab \x1b[;31m\x01\x02\nK"), max_size=10), st.text(st.characters(exclude_categories=["Cs"], exclude_characters="%\r"), max_size=8))
message = st.one_of(plain.map(lambda s: (s, ())), st.tuples(plain, plain).map(lambda t: (t[0] + " %s", (t[1],))), st.tuples(plain, st.integers()).map(lambda t: (t[0] + " %d%%", (t[1],))), st.sampled_from([("percent 100%", ()), (["a", "list"], ()), (("a", "tuple"), ()), (7, ()), (None, ()), ("%(k)s!", ({"k": "v"},)), ("%s", (["x"],))]))
broken = st.sampled_from([("no place", (1,)), ("%d", ("text",)), ("%s %s", (1,))])
record = st.tuples(levels, st.one_of(message, message, message, message, broken), st.sampled_from(["a", "a", "b", "secret"]), st.sampled_from([False, False, False, True]))
kind = st.sampled_from(["colour", "colour", "file", "string"])
LAYOUTS = ["%(levelname)s - %(message)s", "%(levelname)s - %(message)s", "%(message)s", "%(message)s [%(levelname)s]", "%(name)s:%(levelno)d:%(levelname)-8s%(message)s", "%(levelname)s%(levelname)s %(message)s%(message)s"]
handler = st.fixed_dictionaries({"kind": kind, "level": st.sampled_from([0, 10, 20, 21, 30, 40, 50, 60]), "format": st.sampled_from(["plain", "colour", "colour", "azure"]), "strip": st.booleans(), "filter": st.sampled_from([None, None, "a", "replace"]), "append": st.booleans(), "layout": st.sampled_from(LAYOUTS)})


def strip(s):
    """Remove ESC [ digits/semicolons letter, with the optional prompt marks around it."""
    out, i = "", 0
    while i < len(s):
        j = i + 1 if s[i] == "\x01" else i
        if s[j:j + 2] == "\x1b[":
            k = j + 2
            while k < len(s) and (s[k] == ";" or s[k].isdigit()):
                k += 1
            if k < len(s) and s[k].isascii() and s[k].isalpha():
                i = k + 2 if s[k + 1:k + 2] == "\x02" else k + 1
                continue
        out += s[i]
        i += 1
    return out


def text_of(msg, args):
    """The interpolated message, or None if it cannot be formatted."""
    try:
        m = str(msg)
        return m % (args[0] if len(args) == 1 and isinstance(args[0], dict) else args) if args else m
    except Exception:
        return None


def want(h, level, text, exc, logger):
    name = NAMES[level]
    tail = f"\n{exc}" if exc else ""
    shown = name
    if h["format"] == "colour" and name in COLOR:
        c = f"\x1b[{COLOR[name]}m"
        shown, text = (f"{c}{name}\x1b[39m", text) if level < 30 else (c + name, text + "\x1b[39m")
    elif h["format"] == "azure":
        shown = AZURE.get(name, name)
    out = h["layout"] % {"levelname": shown, "message": text, "name": logger, "levelno": level}
    return out + (tail if not out.endswith("\n") else tail[1:])


class Only(logging.Filter):
    def filter(self, r):
        return r.name == "a"


class Mask(logging.Filter):
    """A filter that hands on a masked copy, as logging allows."""

    def filter(self, r):
        if r.name == "secret":
            r = copy.copy(r)
            r.msg, r.args = "masked", ()
        return r


class Boom(Exception):
    def __str__(self):
        return "boom"


def make(h, path):
    if h["kind"] == "colour":
        o = ColoredStreamHandler(io.StringIO(), strip=h["strip"], convert=False)
    elif h["kind"] == "file":
        o = FileHandler(path, **({"mode": "a"} if h["append"] else {}))
    else:
        o = StringStreamHandler()
    o.setLevel(h["level"])
    o.setFormatter({"plain": lambda: logging.Formatter(h["layout"]), "colour": lambda: ColoredFormatter(h["layout"]), "azure": lambda: ColoredFormatter(h["layout"], True)}[h["format"]]())
    if h["filter"]:
        o.addFilter(Only() if h["filter"] == "a" else Mask())
    return o


def content(h, o, path):
    if h["kind"] == "colour":
        return o.stream.getvalue()
    if h["kind"] == "string":
        o.seek_start()
        return "".join(o.readlines())
    o.flush()
    with open(path, "rb") as f:
        return f.read().decode("utf-8")


@CHECK.sub("history", st.tuples(st.lists(handler, min_size=1, max_size=4), st.lists(st.one_of(record, record, record, st.just("read")), max_size=8), st.sampled_from([0, 20, 30]), st.booleans()), quick=900, thorough=40000)
def history(case, ctx):
    hs, records, root_level, direct = case
    d = ctx.tmp(wild=True)
    log = logging.Logger("root", root_level)
    log.propagate = False
    paths = [os.path.join(d, f"{i}.log") for i in range(len(hs))]
    exp = []
    for h, p in zip(hs, paths):
        with open(p, "w") as f:
            f.write("earlier run\n")
        exp.append("earlier run\n" if h["kind"] == "file" and h["append"] else "")
    outs = [make(h, p) for h, p in zip(hs, paths)]
    seen = []
    witness = logging.Handler()
    witness.emit = lambda r: seen.append({k: v for k, v in vars(r).items() if k not in ("message", "asctime", "exc_text")})
    for o in outs:
        log.addHandler(o)
    log.addHandler(witness)
    failed = False
    try:
        for r in records:
            if r == "read":
                for h, o, p, e in zip(hs, outs, paths, exp):
                    same(content(h, o, p), e, f"{h['kind']} handler so far")
                    if h["kind"] == "string":
                        same(o.readlines(), [], "lines after the last")
                        o.seek_end()
                        o.seek(0, 0)
                        same("".join(o.readlines()), e, "lines after seeking to the start")
                continue
            level, (msg, args), name, exc = r
            info = None
            if exc:
                try:
                    raise Boom()
                except Boom:
                    info = sys.exc_info()
            rec = logging.LogRecord(name, level, "x.py", 1, msg, args, info)
            text = text_of(msg, args)
            failed = failed or text is None
            if direct or level >= root_level:
                n = len(seen)
                asis = {k: v for k, v in vars(rec).items() if k != "exc_text"}
                if direct:
                    for o in outs + [witness]:
                        o.handle(rec)
                else:
                    log.callHandlers(rec)
                same((asis["msg"], asis["levelname"]), (msg, NAMES[level]), "record before")
                same(seen[n:], [asis], "record as the next handler sees it")
                trace = logging.Formatter().formatException(info) if exc else None
                for i, h in enumerate(hs):
                    t = text
                    if level < h["level"] or (h["filter"] == "a" and name != "a"):
                        continue
                    if h["filter"] == "replace" and name == "secret":
                        t = "masked"
                    if t is None:
                        continue
                    w = want(h, level, t, trace, name)
                    exp[i] += (strip(w) if h["kind"] == "colour" and h["strip"] else w) + "\n"
        for h, o, p, e in zip(hs, outs, paths, exp):
            same(content(h, o, p), e, f"{h['kind']} handler")
    finally:
        for o in outs:
            o.close()
    ctx.nontrivial(failed or len({(h["kind"], h["level"]) for h in hs}) > 1)
    ctx.label(*{h["kind"] for h in hs}, "a record cannot be formatted" if failed else "all can be formatted")


@CHECK.sub("threads", st.tuples(st.lists(handler, min_size=1, max_size=3), st.integers(2, 4), st.integers(5, 30), st.sampled_from([1e-6, 1e-4, 0.005])), quick=60, thorough=2500, shards=2)
def threads(case, ctx):
    hs, k, n, switch = case
    d = ctx.tmp(wild=True)
    log = logging.Logger("root", 0)
    paths = [os.path.join(d, f"{i}.log") for i in range(len(hs))]
    outs = [make(dict(h, filter=None, level=0, append=False), p) for h, p in zip(hs, paths)]
    for o in outs:
        log.addHandler(o)
    gate = threading.Barrier(k)

    def work(t):
        gate.wait()
        for i in range(n):
            log.log((20, 40)[i % 2], "thread %d message %d \x1b[31mred\x1b[0m %s", t, i, "x" * (i % 7))
    old = sys.getswitchinterval()
    sys.setswitchinterval(switch)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(k)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    for h, o, p in zip(hs, outs, paths):
        got = content(h, o, p)
        o.close()
        w = {t: [(lambda s: strip(s) if h["kind"] == "colour" and h["strip"] else s)(want(h, (20, 40)[i % 2], f"thread {t} message {i} \x1b[31mred\x1b[0m {'x' * (i % 7)}", None, "root")) for i in range(n)] for t in range(k)}
        expect(got.endswith("\n"), "last line is not complete")
        lines = got[:-1].split("\n")
        same(len(lines), k * n, f"number of lines of the {h['kind']} handler")
        for t in range(k):
            same([l for l in lines if f"thread {t} message" in l], w[t], f"lines of thread {t}")
    ctx.nontrivial(True)
    ctx.label(*{h["kind"] for h in hs})


CHILD = """
import logging, sys
sys.path.insert(0, sys.argv[1])
from edk2toollib.log.file_handler import FileHandler
log = logging.Logger("root", 0)
h = FileHandler(sys.argv[2])
h.setFormatter(logging.Formatter("%(levelname)s - %(message)s"))
log.addHandler(h)
for text in eval(sys.argv[3]):
    log.warning(text)
h.close()
"""


@CHECK.sub("locale", st.tuples(st.lists(st.tuples(plain, st.sampled_from(["", "\u00e9", "\u4e2d\u6587", "\U0001f600"])).map("".join), min_size=1, max_size=6), st.sampled_from(["C", "POSIX", "C.UTF-8"])), quick=6, thorough=80)
def locale_(case, ctx):
    """A log file is written whole whatever characters the locale has."""
    texts, loc = case
    f = os.path.join(ctx.tmp(), "x.log")
    env = {"PATH": os.environ["PATH"], "LC_ALL": loc, "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0", "PYTHONDONTWRITEBYTECODE": "1"}
    r = subprocess.run([sys.executable, "-c", CHILD, REPO, f, ascii(texts)], env=env, capture_output=True, text=True)
    same((r.returncode, r.stderr), (0, ""), f"logging to a file under locale {loc}")
    with open(f, "rb") as fh:
        same(fh.read().decode("utf-8"), "".join(f"WARNING - {t}\n" for t in texts), f"log file under locale {loc}")
    ctx.nontrivial(loc != "C.UTF-8" and not "".join(texts).isascii())
    ctx.label(loc)


CODES = sorted({30, 31, 32, 33, 34, 35, 36, 37, 39, 90, 91, 92, 93, 94, 95, 96, 97, 40, 41, 42, 43, 44, 45, 46, 47, 49, 100, 101, 102, 103, 104, 105, 106, 107})


@CHECK.sub("codes", st.tuples(st.one_of(st.sampled_from(CODES), st.integers(-5, 300), st.none()), plain, st.sampled_from([True, False, None])), quick=400, thorough=10000)
def codes(case, ctx):
    code, text, strip_ = case
    got = get_ansi_string() if code is None else get_ansi_string(code)
    same(got, f"\x1b[{code if code in CODES else AnsiColor.RESET}m", "escape sequence")
    o = ColoredStreamHandler(io.StringIO(), strip=strip_)
    o.write(got + text)
    # a stream that is no terminal is stripped unless told otherwise
    same(o.stream.getvalue(), got + text if strip_ is False else strip(got + text), "what the handler writes")
    ctx.nontrivial(code in CODES)


# ---- a Windows console ----
BASE = {0: 0, 1: 4, 2: 2, 3: 6, 4: 1, 5: 5, 6: 3, 7: 7}  # ANSI colour digit to console colour bits


class Console:
    """The console as a log of text and attribute settings; also the stand-in for the Win32 calls."""

    STDOUT, STDERR = -11, -12

    def __init__(self, default, works, tty):
        self.log, self.default, self.works, self.tty, self.closed = [], default, works, tty, False

    def winapi_test(self):
        return self.works

    def GetConsoleScreenBufferInfo(self, stream_id=-11):
        return SimpleNamespace(wAttributes=self.default)

    def SetConsoleTextAttribute(self, stream_id, attrs):
        self.log.append((stream_id, attrs))
        return True

    def isatty(self):
        return self.tty

    def write(self, s):
        if s:
            self.log.append(s)

    def flush(self):
        pass


def joined(log):
    """Neighbouring texts joined, repeated settings dropped."""
    r = []
    for x in log:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        elif not r or r[-1] != x:
            r.append(x)
    return r


def on_console(text, default, state):
    """The text and settings a console shows for a text with escape sequences."""
    r, at = [], 0
    for m in re.finditer("\x01?\x1b\\[([\\d;]*)([a-zA-Z])\x02?", text):
        r.append(text[at:m.start()])
        at = m.end()
        if m[2] != "m":
            continue
        for n in [int(x) for x in m[1].split(";") if x] or [0]:
            if n not in CODES:
                continue
            back = 40 <= n <= 49 or n >= 100
            light = n >= 90
            digit = n % 10
            value = (default >> (4 if back else 0) & 7) if digit == 9 else BASE[digit]
            state["back" if back else "fore"] = value
            state["lback" if back else "lfore"] = light
            bits = state["fore"] | state["back"] << 4 | (default & 0x88) | (0x08 if state["lfore"] else 0) | (0x80 if state["lback"] else 0)
            r.append((-11, bits))
    r.append(text[at:])
    return [x for x in r if x != ""]


coded = st.lists(st.one_of(st.sampled_from(CODES).map(lambda n: f"\x1b[{n}m"), st.lists(st.one_of(st.sampled_from(CODES), st.sampled_from([0, 1, 4, 38, 48, 99])), max_size=3).map(lambda ns: "\x1b[" + ";".join(map(str, ns)) + "m"), st.sampled_from(["text", "caf\u00e9\n", "\x1b[2K", "\x1b[1;2H", "\x01\x1b[32m\x02p", "\x1b[;m", "\x1b", "[31m"]), plain), max_size=5).map("".join)


@CHECK.sub("console", st.tuples(st.lists(st.tuples(levels, coded), min_size=1, max_size=4), st.sampled_from([7, 0x0F, 0x1F, 0xF0, 0x80, 0, 0x5E]), st.booleans(), st.booleans(), st.sampled_from([None, None, True, False]), st.sampled_from([None, None, True, False]), st.sampled_from(["Windows", "Windows", "Windows", "Linux"])), quick=900, thorough=40000)
def console(case, ctx):
    records, default, works, tty, strip_, convert, system = case
    c = Console(default, works, tty)
    windows = system == "Windows"
    with host(system), mock.patch.object(ansi_handler, "Win32Console", c, create=True):
        o = ColoredStreamHandler(c, strip=strip_, convert=convert)
        o.setFormatter(ColoredFormatter("%(levelname)s - %(message)s"))
        log = logging.Logger("root", 0)
        log.addHandler(o)
        want_log = []
        supported = windows and works
        conv = convert if convert is not None else supported and tty
        stripping = strip_ if strip_ is not None else supported or not tty
        state = {"fore": default & 7, "back": default >> 4 & 7, "lfore": False, "lback": False}
        c.log.clear()
        for level, text in records:
            t = want({"format": "colour", "layout": LAYOUTS[0]}, level, text, None, "n") + "\n"
            if conv and windows:
                want_log += on_console(t, default, state)
            else:
                want_log.append(strip(t) if stripping or conv else t)
            log.log(level, "%s", text)
    same(joined(c.log), joined(want_log), "text and settings of the console")
    ctx.nontrivial(conv and windows and sum(isinstance(x, tuple) for x in want_log) > 1)
    ctx.label("converts" if conv and windows else "strips" if stripping or conv else "plain")
