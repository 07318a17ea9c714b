"""P05: conditional expressions evaluate to their value."""
import re

from checks import condgen as g
from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
from pbt import Check, st
from pbt.core import rejects, same

META = dict(
    title="Conditional expressions evaluate to their defined value",
    statement="Any conditional expression built from decimal and hexadecimal integers, booleans, quoted and bare strings, macros (undefined ones read as 0), comparisons in symbol or word form, 'in' and 'not in', AND/OR/NOT in word or symbol form and parentheses evaluates to its mathematical value: comparisons and NOT bind tighter than AND and OR, which group left to right, and parentheses override. Numbers compare by value whatever their base, text compares exactly and without regard to quoting, and operator spacing and letter case do not matter. Malformed expressions and ordering comparisons of text or booleans are refused with an error instead of being given a value.",
    over=["inputs"],
    text="every expression of the grammar and every assignment of macro values",
    why="The tests list particular two- and three-operand expressions; precedence and conversion errors appear in operator combinations they do not include.",
    files=["edk2toollib/uefi/edk2/parsers/base_parser.py"],
    mechanism=[("tokeniser", "BaseParser._TokenizeConditional"), ("precedence", "BaseParser._ConvertTokensToPostFix / _GetOperatorPrecedence"),
               ("evaluation", "BaseParser.EvaluateConditional / ComputeResult / ConvertToInt"), ("macro replacement", "BaseParser.ReplaceVariables")],
    technique="property-based testing: random expressions against a reference evaluator",
    note="NOT is applied to a literal, another NOT or a parenthesised operand (conventions differ on NOT before a bare comparison); AND/OR operands are conditions or boolean/0/1 literals",
)
CHECK = Check("P05", "the expression has at least two operands joined by AND/OR/NOT, or compares macros")


@CHECK.sub("value", st.tuples(g.expr, g.env_st, st.sampled_from([" ", "", "  ", "\t"]), st.booleans()), quick=4000, thorough=150000, shards=2)
def value(case, ctx):
    e, env, sp, asinput = case
    text = g.render(e, sp)
    if sp == "\t":  # any blank will do between the parts
        text = re.sub(r'("[^"]*")| ', lambda m: m[1] or "\t", text)
    gap = "\t" if sp == "\t" else " "
    p = BaseParser("")
    if asinput:
        p.SetInputVars(dict(env))
        p.LocalVars = {k: "77" for k in env}
    else:
        p.LocalVars = dict(env)
    want = g.value(e, env)
    got = p.EvaluateConditional(p.ReplaceVariables("!if" + gap + text))
    same((type(got), got), (bool, want), text)
    same(p.EvaluateConditional(p.ReplaceVariables("!elseif" + gap + text)), want, "!elseif " + text)
    p.ProcessConditional(p.ReplaceVariables("!if" + gap + text))
    same(p.InActiveCode(), want, "InActiveCode after " + text)
    ctx.nontrivial(g.size(e) >= 2 or "$(" in text)
    ctx.label(f"size={min(g.size(e), 6)}", str(want))


@CHECK.sub("long", st.tuples(st.lists(st.tuples(st.sampled_from(["AND", "OR"]), g.atom), min_size=6, max_size=30), g.env_st), quick=300, thorough=8000)
def long(case, ctx):
    chain, env = case
    e = ("chain", chain)
    p = BaseParser("")
    p.LocalVars = dict(env)
    text = g.render(e)
    same(p.EvaluateConditional(p.ReplaceVariables("!if " + text)), g.value(e, env), text)
    ctx.nontrivial()


def flat(ts):
    return " ".join(ts)


bad = st.one_of(
    st.tuples(st.just("trailing"), g.expr, st.sampled_from(["==", "AND", "OR", "<", ">=", "IN"])),
    st.tuples(st.just("leading"), g.expr, st.sampled_from(["==", "AND", "OR", "<", ">="])),
    st.tuples(st.just("noop"), g.int_op, g.int_op),
    st.tuples(st.just("text"), st.sampled_from(["<", ">", "<=", ">="]), st.sampled_from(g.WORDS), g.int_op),
    st.tuples(st.just("text2"), st.sampled_from(["<", ">", "<=", ">="]), st.sampled_from(g.INTS), st.sampled_from(g.WORDS)),
    st.tuples(st.just("bool"), st.sampled_from(["<", ">", "<=", ">="]), st.sampled_from(["TRUE", "FALSE"]), st.sampled_from(g.INTS)),
    st.tuples(st.just("bool2"), st.sampled_from(["<", ">", "<=", ">="]), st.sampled_from(g.INTS), st.sampled_from(["TRUE", "FALSE", "true"])),
    st.tuples(st.just("unknown"), st.sampled_from(["<>", "=>", "=<", "==="]), st.sampled_from(g.INTS), st.sampled_from(g.INTS)),
    st.tuples(st.just("empty"), st.sampled_from(["", "  "]), st.just("")),
    st.tuples(st.just("noif"), g.expr, st.just("")),
)


@CHECK.sub("malformed", st.tuples(bad, g.env_st), quick=600, thorough=20000)
def malformed(case, ctx):
    b, env = case
    p = BaseParser("")
    p.LocalVars = dict(env)
    k = b[0]
    t = {
        "trailing": lambda: f"({g.render(b[1])}) {b[2]}",
        "leading": lambda: f"{b[2]} ({g.render(b[1])})",
        "noop": lambda: f"{b[1]} {b[2]}",
        "empty": lambda: b[1],
        "noif": lambda: g.render(b[1]),
    }.get(k, lambda: f"{b[2]} {b[1]} {b[3]}")()
    line = t if k == "noif" else "!if " + t
    rejects(lambda: p.EvaluateConditional(p.ReplaceVariables(line)), what=repr(line))
    ctx.label(k)
    ctx.nontrivial()
