"""P12: target.txt and override annotations."""
import datetime
import os

from checks.edkgen import layout, styles, write
from edk2toollib.uefi.edk2.parsers.override_parser import OverrideParser
from edk2toollib.uefi.edk2.parsers.targettxt_parser import TargetTxtParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, st
from pbt.core import rejects, same

META = dict(
    title="Build settings and override annotations are read exactly or refused",
    statement="For any target.txt, every \"KEY = value\" line is reported with the last value of each key, whatever the spacing, comments and quoting. For any module file, the override annotations are reported with line number, version, path, hash and time in order of appearance; a file without annotations, or one where any annotation has a wrong version, field count or date, is refused with a value error.",
    over=["inputs"],
    text="every arrangement of settings, comments, annotations and other text",
    why="The tests read a few annotations and no settings file at all; position, case, spacing and one damaged annotation among many are not sampled.",
    files=["edk2toollib/uefi/edk2/parsers/targettxt_parser.py", "edk2toollib/uefi/edk2/parsers/override_parser.py"],
    mechanism=[("settings", "TargetTxtParser.ParseFile"), ("annotations", "OverrideParser.get_override_lines, parse_override_line")],
    technique="property-based testing: files generated from a model, compared with the model; single damaged field must be refused",
    note="a setting is the text before the first '=' of a line and the text after it",
)
CHECK = Check("P12", "at least two settings, or at least two annotations among other text, or a damaged annotation")

KEYS = ["ACTIVE_PLATFORM", "TARGET", "TARGET_ARCH", "TOOL_CHAIN_TAG", "BUILD_RULE_CONF", "MAX_CONCURRENT_THREAD_NUMBER", "Target", "product"]
VALS = ["", "DEBUG", "IA32 X64", "Conf/build_rule.txt", '"a # b"', "'#'", "a b  c", "0x10", '"it\'s" x', "C:\\x", "a=b", "-D X=1 -D Y==2", "=", "Dir/v=2/x.txt"]


@CHECK.sub("target", st.tuples(st.lists(st.tuples(st.sampled_from(KEYS), st.sampled_from(VALS), st.sampled_from(["=", " = ", "\t=  ", " ="])), max_size=8), styles, st.booleans(), st.booleans(), st.sampled_from(["abs", "rel"])), quick=800, thorough=40000)
def target(case, ctx):
    items, style, crlf, last, how = case
    root = os.path.realpath(ctx.tmp(wild=True))
    os.mkdir(os.path.join(root, "Conf"))
    f = os.path.join(root, "Conf", "target.txt")
    body = []
    for i, (k, v, s) in enumerate(items):
        body.append(k + s + v)
        if style[0] % 3 == 0:
            body.append(["not a setting", "[x]", "# X = Y"][i % 3])
    write(f, layout(body, style, "\r\n" if crlf else "\n", last))
    p = TargetTxtParser()
    p.SetEdk2Path(Edk2Path(root, []))
    p.ParseFile(f if how == "abs" else "Conf/target.txt")
    same(p.Dict, {k: v for k, v, _ in items}, "settings")
    same((p.Parsed, p.Path), (True, f), "parsed file")
    ctx.nontrivial(len(items) >= 2)


path = st.lists(st.sampled_from(["My", "Pkg", "..", ".", "A b", "x.inf", "C:"]), min_size=1, max_size=5).map("/".join)
hash_ = st.text(st.sampled_from("0123456789abcdefABCDEF"), min_size=1, max_size=32)
when = st.datetimes(datetime.datetime(1970, 1, 1), datetime.datetime(2099, 1, 1)).map(lambda d: (d.year, d.month, d.day, d.hour, d.minute, d.second))
ann = st.tuples(st.just("ann"), st.sampled_from(["#Override", "#OVERRIDE", "#override", "#OverRide"]), st.sampled_from(["00000001", "1", "01"]), path, hash_, when, st.sampled_from([":", " : ", " :"]), st.sampled_from(["|", " | ", " |"]))
text = st.tuples(st.just("text"), st.sampled_from(["", "[Defines]", "  FILE_GUID = x", "# Override : none", "## Overrides", "x #Override : 00000001 | a | b | c", "# page\x0cbreak", "# tab\x0bdown", "#OVER... no", "#"]))
BAD = ["version", "hex", "few", "many", "date", "short", "nocolon", "empty", "real", "exp"]


@CHECK.sub("override", st.tuples(st.lists(st.one_of(ann, ann, text, st.tuples(st.just("again"), st.integers(0, 6), when)), max_size=8), st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 9), st.sampled_from(BAD))), st.booleans(), st.sampled_from(["", "  ", "\t"]), st.booleans(), st.sampled_from(["", " ", "\t "])), quick=1500, thorough=80000)
def override(case, ctx):
    items, damage, as_file, ind, crlf, tail = case
    items = list(items)
    lines, want = [], []
    for i, x in enumerate(items):  # an annotation once more, in full or with another time
        if x[0] == "again":
            y = items[x[1] % i] if i else ("text", "")
            items[i] = y if y[0] == "text" or x[1] % 2 else (*y[:5], x[2], *y[6:])
    anns = [i for i, x in enumerate(items) if x[0] == "ann"]
    hit = anns[damage[0] % len(anns)] if damage and anns else None
    for i, x in enumerate(items):
        if x[0] == "text":
            lines.append(x[1])
            continue
        _, kw, ver, p, h, d, colon, bar = x
        fields = [ver, p, h, "%04d-%02d-%02dT%02d-%02d-%02d" % d]
        if i == hit:
            b = damage[1]
            if b == "version":
                fields[0] = "2"
            elif b == "hex":
                fields[0] = "0000000X"
            elif b == "real":
                fields[0] = "1.0"
            elif b == "exp":
                fields[0] = "1e0"
            elif b == "few":
                del fields[2]
            elif b == "many":
                fields.append("x")
            elif b == "date":
                fields[3] = "2018-13-27T22-36-30"
            elif b == "short":
                fields[3] = fields[3][:10]
            elif b == "nocolon":
                colon = " "
            else:
                fields = [""]
        ln = kw + colon + bar.join(fields)
        lines.append(ind + ln + tail)
        want.append((len(lines), ln, int(ver) if fields[0] else 0, os.path.normpath(p), h, datetime.datetime(*d)))
    txt = ("\r\n" if crlf and as_file else "\n").join(lines)
    if as_file:
        f = os.path.join(ctx.tmp(wild=True), "M.inf")
        write(f, txt)
        kw = {"file_path": f}
    else:
        kw = {"inf_contents": txt}
    for wrong in ({}, {"file_path": f if as_file else __file__, "inf_contents": txt}, {"file_path": os.path.join(ctx.tmp(wild=True), "absent.inf")}, {"file_path": ctx.tmp(wild=True)}):
        rejects(OverrideParser, exc=ValueError, what=f"arguments {sorted(wrong)}", **wrong)
    if hit is not None or not want:
        rejects(OverrideParser, exc=ValueError, what=f"{txt!r}", **kw)
        ctx.nontrivial(hit is not None)
        return
    o = OverrideParser(**kw)
    if as_file:
        same(o.file_path, os.path.abspath(f), "path of the file")
    same([(x["lineno"], x["line"]) for x in o.override_lines], [(a, b) for a, b, *_ in want], "annotation lines")
    same([(x["version"], x["original_path"], x["current_hash"], x["datetime"]) for x in o.overrides], [tuple(w[2:]) for w in want], "annotations")
    ctx.nontrivial(len(want) >= 2 and len(items) > len(want))
