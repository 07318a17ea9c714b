"""P07: comments and macro references in EDK II text files."""
import os
import re

from checks.edkgen import layout, styles, write
from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, st
from pbt.core import expect, same

META = dict(
    title="Comments and macro references in a line are resolved exactly",
    statement="For any line of an EDK II text file, removing the comment drops everything from the first '#' that is outside single or double quotes (a backslash-escaped quote neither opens nor closes one) plus surrounding blanks, and nothing else. Replacing macros substitutes every $(NAME) that is defined by its value, with input variables taking precedence over definitions in the file and booleans spelled TRUE or FALSE, leaves undefined references and all other text alone, and treats a macro defined by itself as empty. A platform description yields exactly the active lines so resolved, in order.",
    over=["inputs"],
    text="every line built from text, quoted strings, escapes, comments and macro references, with any set of definitions and input variables",
    why="The tests strip a dozen fixed lines and replace one or two macros; quoting, escapes, repeated references and precedence combine freely in real files.",
    files=["edk2toollib/uefi/edk2/parsers/base_parser.py", "edk2toollib/uefi/edk2/parsers/dsc_parser.py"],
    mechanism=[("comment scanner", "HashFileParser.StripComment"), ("macro replacement", "BaseParser.ReplaceVariables, _FindReplacementForToken"), ("line resolution", "DscParser.__ParseLine")],
    technique="property-based testing: lines assembled from parts whose resolution is known",
    note="quotes are closed before the comment starts; macro values contain no references except to themselves",
)
CHECK = Check("P07", "the line has a comment and a quoted string or an escape; or at least two references of which one is defined")

plain = st.text(st.sampled_from("aB1 =|,-_.:/(){}*+$\t"), min_size=1, max_size=8)
inq = st.text(st.sampled_from("aB #|='[!"), max_size=6)
dq = inq.map(lambda t: '"' + t + '"')
sq = st.text(st.sampled_from('aB #|="[!'), max_size=6).map(lambda t: "'" + t + "'")
dqe = st.tuples(inq, st.sampled_from(['\\"', "\\\\", "\\n", '\\"#', "\\#"]), inq).map(lambda t: '"' + "".join(t) + '"')
esc = st.sampled_from(['\\"', "\\'", "\\\\", "\\n", '=\\"x y\\"'])
comment = st.text(st.sampled_from("aB #|='\"[!\\"), max_size=8).map(lambda t: "#" + t)
parts = st.lists(st.one_of(st.tuples(st.just("p"), plain), st.tuples(st.just("d"), dq), st.tuples(st.just("s"), sq), st.tuples(st.just("q"), dqe), st.tuples(st.just("e"), esc)), max_size=6)


@CHECK.sub("comment", st.tuples(parts, st.one_of(st.none(), comment), st.sampled_from(["", " ", "\t ", "\n", " \r\n"])), quick=3000, thorough=200000)
def strip(case, ctx):
    ps, com, end = case
    body = "".join(t for _, t in ps)
    got = HashFileParser("").StripComment(body + (com or "") + end)
    same(got, body.strip(), "line without its comment")
    ctx.nontrivial(com is not None and any(k in "dsqe" for k, _ in ps))
    ctx.label(*{k for k, _ in ps})


NAMES = ["A", "AB", "B_1", "ARCH", "true", "x", "BB"]
val = st.sampled_from(["", "1", "0x10", "DEBUG", "true", "False", "TRUE", "a b", "P/$x", "(y)", "a#b", "\\1", "{}"])
ref = st.sampled_from(NAMES).map(lambda n: ("r", n))
mparts = st.lists(st.one_of(ref, ref, st.tuples(st.just("p"), st.text(st.sampled_from("aAB1 =|,-_./\\%"), min_size=1, max_size=6)), st.sampled_from([("p", "$"), ("p", "$A"), ("p", "(A)"), ("p", "$ (A)"), ("p", "$BB")])), max_size=7)
defs = st.dictionaries(st.sampled_from(NAMES), val, max_size=5)
ivs = st.dictionaries(st.sampled_from(NAMES), st.one_of(val, st.booleans(), st.integers(0, 99)), max_size=3)


def norm(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    v = str(v)
    return v.upper() if v.upper() in ("TRUE", "FALSE") else v


def resolve(ps, d, iv):
    return "".join(t if k == "p" else norm(iv[t]) if t in iv else norm(d[t]) if t in d else f"$({t})" for k, t in ps)




@CHECK.sub("macros", st.tuples(mparts, defs, ivs, st.sampled_from([None] + NAMES)), quick=2500, thorough=200000)
def macros(case, ctx):
    ps, d, iv, own = case
    d = dict(d)
    ps = [("p", "-") if k == "p" and t.startswith("(") else (k, t) for k, t in ps]
    exp = dict(d)
    if own in iv and own in d:  # an input variable given by itself
        iv = {**iv, own: f"$({own})"}
        exp[own] = ""
    elif own and own not in iv:
        d[own] = f"p$({own})"
        exp[own] = ""
    p = HashFileParser("")
    p.SetInputVars(dict(iv))
    p.LocalVars = dict(d)
    line = "".join(t if k == "p" else f"$({t})" for k, t in ps)
    same(p.ReplaceVariables(line), resolve(ps, exp, {k: "" if v == f"$({k})" else v for k, v in iv.items()}), f"line {line!r}")
    same(p.LocalVars, d, "definitions")
    refs = [t for k, t in ps if k == "r"]
    ctx.nontrivial(len(refs) >= 2 and any(t in exp or t in iv for t in refs))
    ctx.label(f"refs={min(len(refs), 4)}", "self" if own in refs else "-")


few = st.sampled_from(["A", "AB", "B_1"])
fref = few.map(lambda n: ("r", n))
fparts = st.lists(st.one_of(fref, fref, st.tuples(st.just("p"), st.sampled_from([" ", "/", "=a", "$", "A", "-"]))), min_size=1, max_size=6)
nested = st.dictionaries(few, st.lists(st.one_of(fref, fref, st.tuples(st.just("p"), st.sampled_from(["a", "/", " b", "="]))), max_size=3), min_size=1, max_size=3)


@CHECK.sub("nested", st.tuples(fparts, nested, st.dictionaries(few, st.sampled_from(["1", "in", "$x"]), max_size=1)), quick=1200, thorough=60000)
def nested_(case, ctx):
    """Each reference is replaced where it stands, whatever references the values hold; those may be resolved further."""
    ps, d, iv = case
    ps = [("p", "-") if k == "p" and t.startswith("(") else (k, t) for k, t in ps]
    d = {n: [(k, t) for k, t in v if (k, t) != ("r", n)] for n, v in d.items()}  # no value names itself
    text = lambda v: "".join(t if k == "p" else f"$({t})" for k, t in v)  # noqa: E731

    def full(t, seen=()):
        if t in iv:
            return re.escape(norm(iv[t]))
        if t not in d or t in seen:
            return re.escape(f"$({t})")
        once = re.escape(norm(text(d[t])))
        deep = "".join(re.escape(x) if k == "p" else full(x, (*seen, t)) for k, x in d[t])
        return once if once == deep else f"(?:{once}|{deep})"
    p = HashFileParser("")
    p.SetInputVars(dict(iv))
    p.LocalVars = {n: text(v) for n, v in d.items()}
    got = p.ReplaceVariables(text(ps))
    want = "".join(re.escape(t) if k == "p" else full(t) for k, t in ps)
    expect(re.fullmatch(want, got), f"line {text(ps)!r} with {p.LocalVars!r} and {iv!r} reads {got!r}")
    refs = [t for k, t in ps if k == "r"]
    ctx.nontrivial(len(refs) >= 2 and any(any(k == "r" for k, _ in d.get(t, ())) for t in refs))


lp = st.lists(st.one_of(ref, st.tuples(st.just("p"), st.sampled_from(["a", "b = c", "-D X=1 ", "/Y ", " | ", "x.c"])), st.tuples(st.just("q"), st.one_of(dq, dqe, sq, esc))), min_size=1, max_size=5)


@CHECK.sub("lines", st.tuples(st.lists(lp, min_size=1, max_size=8), st.dictionaries(st.sampled_from(["A", "AB", "B_1", "BB"]), st.sampled_from(["1", "DEBUG", "a b", "x/y", "TRUE"]), max_size=3), ivs, styles, st.booleans()), quick=900, thorough=40000)
def lines(case, ctx):
    body, d, iv, style, crlf = case
    tmp = ctx.tmp(wild=True)
    src, want = [], []
    for ps in body:
        src.append("z " + "".join(t if k != "r" else f"$({t})" for k, t in ps) + " y")
        want.append("z " + resolve([(k if k == "r" else "p", t) for k, t in ps], d, iv) + " y")
    head = ["[Defines]"] + [f"DEFINE {k} = {v}" for k, v in d.items()]
    path = os.path.join(tmp, "P.dsc")
    write(path, layout(head + ["[SkuIds]"] + src, style, "\r\n" if crlf else "\n", tails=True))
    p = DscParser()
    p.SetEdk2Path(Edk2Path(tmp, []))
    p.SetInputVars(dict(iv))
    p.ParseFile(path)
    i = p.Lines.index("[SkuIds]")
    same(p.Lines[i + 1 :], want, "active lines")
    ctx.nontrivial(any(k == "q" for ps in body for k, _ in ps) and any(k == "r" for ps in body for k, _ in ps))
