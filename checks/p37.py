"""P37: JUnit reports."""
import io
import os
import re
import subprocess
import sys
import time
import xml.etree.ElementTree as ET
from unittest import mock
from xml.dom import minidom

from edk2toollib.log.junit_report_format import JunitTestReport
from pbt import Check, st
from pbt.core import REPO, expect, rejects, same

META = dict(
    title="A JUnit report is well-formed and says exactly what was reported",
    statement="Whatever names, messages and logged output the tests have, the report is a well-formed UTF-8 XML file that reads back with every suite and test case in order, each with its own name, class, state, duration, message, type and logged text, and with counts of tests, errors, failures and skipped tests that match. A test case takes exactly one final state and a report with an unfinished test case is refused.",
    over=["inputs", "histories"],
    text="every sequence of suites, test cases, state changes and logged text, including characters XML cannot hold",
    why="The tests compare fixed reports of plain text; markup, control characters, colour codes and line breaks in messages are not tried and no report is read back by a parser.",
    files=["edk2toollib/log/junit_report_format.py"],
    mechanism=[("escaping", "escape() in every constructor and LogStdOut/LogStdError"), ("states", "SetFailed/SetError/SetSuccess/SetSkipped"), ("writing", "Output of test case, suite and report")],
    technique="property-based testing: generated report histories, the file read back by two XML parsers and compared with a model",
    note="white space around texts is not significant; characters XML 1.0 cannot hold may be dropped or replaced",
)
CHECK = Check("P37", "a text holds markup, quotes, line breaks or characters XML cannot hold, or a suite mixes states")

text = st.one_of(st.sampled_from(["", "name", "a<b>&c", '"quoted" \'single\'', "]]>", "<!-- -->", "&amp;", "line one\nline two", "tab\there", "\x1b[31mred\x1b[39m", "nul\0nul", "caf\u00e9 \u4e2d\U0001f600", "\ufffe\uffff", "cr\rlf\r\n", "%s {0}", "\x0b\x0c\x1f", "\x85\u2028", "</system-out>"]),
                 st.text(st.sampled_from("ab<>&\"'\n\t\r ]\x00\x1b\x7f\u00e9"), max_size=10), st.text(max_size=8, alphabet=st.characters(exclude_categories=["Cs"])), st.sampled_from(["\ud800", "a\udfffb"]))
ILLEGAL = re.compile("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
log = st.lists(st.tuples(st.sampled_from(["out", "err"]), text), max_size=3)
case_ = st.tuples(text, text, log, st.sampled_from(["failed", "error", "success", "skipped"]), text, text, log, st.sampled_from(["failed", "error", "success", "skipped"]))
suite = st.tuples(text, text, st.lists(case_, max_size=4))


def loose(s):
    """What a reader must find: the text without its outer white space; characters XML cannot hold match anything (or nothing)."""
    s = s.strip()
    return re.compile("".join(".{0,6}" if ILLEGAL.match(c) else r"\s?" if c in "\n\r" else r"\s" if c == "\t" else re.escape(c) for c in s) + r"\s*", re.S)


def eq(got, want, what, exact=False):
    expect(got is not None, f"{what} is missing")
    w = want.strip()
    if not ILLEGAL.search(w):
        w = w.replace("\r\n", "\n").replace("\r", "\n") if not exact else w
        same(got.replace("\r\n", "\n").replace("\r", "\n").strip() if not exact else got.strip(), w.strip(), what)
    else:
        expect(loose(want).fullmatch(got.strip()), f"{what}: {got!r} for {want!r}")


def lines(got, msgs, what):
    expect(got is not None or not msgs, f"{what} is missing")
    pat = r"\s*" + r"\s+".join(loose(m).pattern for m in msgs) + r"\s*"
    expect(re.fullmatch(pat, (got or "").replace("\r\n", "\n").replace("\r", "\n"), re.S), f"{what}: {got!r} for {msgs!r}")


def change(tc, state, msg, typ):
    {"failed": lambda: tc.SetFailed(msg, typ), "error": lambda: tc.SetError(msg, typ), "success": tc.SetSuccess, "skipped": tc.SetSkipped}[state]()


@CHECK.sub("report", st.tuples(st.lists(suite, max_size=3), st.booleans(), st.lists(st.one_of(st.sampled_from([0, 0.25, 1, 3600, 1e-3]), st.integers(0, 10**6).map(lambda n: n / 64)), min_size=1, max_size=6)), quick=700, thorough=30000)
def report(case, ctx):
    suites, unfinished, gaps = case
    rep, made = JunitTestReport(), []
    special = mixed = False
    clock, took = [1.5e9], []
    tick = lambda n: clock.__setitem__(0, clock[0] + gaps[n % len(gaps)])
    with mock.patch.object(time, "time", lambda: clock[0]), mock.patch.object(time, "perf_counter", lambda: clock[0]), mock.patch.object(time, "monotonic", lambda: clock[0]):
        special, mixed = fill(rep, suites, made, tick, clock, took)
    check_report(rep, suites, unfinished, made, took, ctx)
    ctx.nontrivial(special or mixed)
    ctx.label("special text" if special else "plain text", "mixed states" if mixed else "one state")


def fill(rep, suites, made, tick, clock, took):
    special = mixed = False
    for sname, package, cases in suites:
        ts = rep.create_new_testsuite(sname, package)
        for name, cls, before, state, msg, typ, after, again in cases:
            tc = ts.create_new_testcase(name, cls)
            made.append(tc)
            start = clock[0]
            tick(len(made))
            for k, t in before:
                tc.LogStdOut(t) if k == "out" else tc.LogStdError(t)
            change(tc, state, msg, typ)
            took.append(clock[0] - start)
            tick(len(made) + 1)
            rejects(change, tc, again, "other", "other", what=f"{again} after {state}")
            for k, t in after:
                tc.LogStdOut(t) if k == "out" else tc.LogStdError(t)
            special = special or any(re.search(r"[<>&\"\n\r]", t) or ILLEGAL.search(t) for t in (name, cls, msg, typ, *(t for _, t in before + after)))
        mixed = mixed or len({c[3] for c in cases}) > 1
    return special, mixed


def check_report(rep, suites, unfinished, made, took, ctx):
    took = iter(took)
    path = os.path.join(ctx.tmp(wild=True), "report.xml")
    with open(path, "w") as f:
        f.write("an older and much longer report " * 200)
    rep.Output(path)
    with open(path, "rb") as f:
        raw = f.read()
    try:
        root = ET.fromstring(raw)
        minidom.parseString(raw)
    except Exception as e:
        raise AssertionError(f"the report is not well-formed: {e}") from None
    same(root.tag, "testsuites", "root")
    same([s.tag for s in root], ["testsuite"] * len(suites), "suites")
    for i, (el, (sname, package, cases)) in enumerate(zip(root, suites)):
        what = f"suite {i}"
        eq(el.get("name"), sname, f"name of {what}")
        eq(el.get("package"), package, f"package of {what}")
        same(el.get("id"), str(i), f"id of {what}")
        states = [c[3] for c in cases]
        same([int(el.get(k)) for k in ("tests", "errors", "failures", "skipped")], [len(states)] + [states.count(s) for s in ("error", "failed", "skipped")], f"counts of {what}")
        same([c.tag for c in el], ["testcase"] * len(cases), f"test cases of {what}")
        for j, (tc, (name, cls, before, state, msg, typ, after, _)) in enumerate(zip(el, cases)):
            w = f"test case {j} of {what}"
            eq(tc.get("name"), name, f"name of {w}")
            eq(tc.get("classname"), cls, f"class of {w}")
            t = next(took)
            expect(abs(float(tc.get("time")) - t) < 1e-3, f"time of {w} is {tc.get('time')}, it took {t}")
            out = [t for k, t in before + after if k == "out"]
            err = [t for k, t in before + after if k == "err"]
            kids = [c.tag for c in tc]
            same(sorted(kids), sorted({"failed": ["failure"], "error": ["error"], "success": [], "skipped": ["skipped"]}[state] + ["system-out", "system-err"]), f"content of {w}")
            lines(tc.findtext("system-out"), out, f"output of {w}")
            lines(tc.findtext("system-err"), err, f"error output of {w}")
            if state in ("failed", "error"):
                f = tc.find("failure" if state == "failed" else "error")
                eq(f.get("message"), msg, f"message of {w}")
                eq(f.get("type"), typ, f"type of {w}")
    if made and unfinished:
        rep.create_new_testsuite("s", "p").create_new_testcase("n", "c")
        rejects(rep.Output, os.path.join(ctx.tmp(wild=True), "unfinished.xml"), what="a report with an unfinished test case")


CHILD = """
import sys
sys.path.insert(0, sys.argv[1])
from edk2toollib.log.junit_report_format import JunitTestReport
rep = JunitTestReport()
for sname, package, cases in eval(sys.argv[3]):
    ts = rep.create_new_testsuite(sname, package)
    for name, cls, before, state, msg, typ, after, again in cases:
        tc = ts.create_new_testcase(name, cls)
        for k, t in before + after:
            tc.LogStdOut(t) if k == "out" else tc.LogStdError(t)
        {"failed": lambda: tc.SetFailed(msg, typ), "error": lambda: tc.SetError(msg, typ), "success": tc.SetSuccess, "skipped": tc.SetSkipped}[state]()
rep.Output(sys.argv[2])
"""


@CHECK.sub("locale", st.tuples(st.lists(suite, min_size=1, max_size=3), st.sampled_from(["C", "POSIX"])), quick=6, thorough=80)
def locale_(case, ctx):
    """The report is the same UTF-8 file whatever characters the locale has."""
    suites, loc = case
    raw = []
    for env in ({"LC_ALL": loc, "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, {"PYTHONUTF8": "1"}):
        f = os.path.join(ctx.tmp(), "report.xml")
        r = subprocess.run([sys.executable, "-c", CHILD, REPO, f, ascii(suites)], env={"PATH": os.environ["PATH"], "PYTHONDONTWRITEBYTECODE": "1", **env}, capture_output=True, text=True)
        same((r.returncode, r.stderr), (0, ""), f"writing a report with {env}")
        with open(f, "rb") as fh:
            raw.append(re.sub(rb' time="[^"]*"', b"", fh.read()))
    ET.fromstring(raw[0])
    same(raw[0], raw[1], f"report written under locale {loc}")
    ctx.nontrivial(not raw[0].isascii())
    ctx.label(loc)
