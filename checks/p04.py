"""P04: conditional directives select exactly the right lines."""
import os

from checks import condgen as g
from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pbt import Check, st
from pbt.core import same

META = dict(
    title="Conditional directives keep exactly the lines of the branches taken",
    statement="For any well-nested arrangement of !if, !ifdef, !ifndef, !elseif, !else and !endif around lines, definitions and section headers, the lines in effect are exactly those of the first true branch of each block whose enclosing blocks are all in effect, or of its !else branch when none is true. This holds alike for the line-level conditional handling, platform descriptions and flash descriptions, whatever the letter case, indentation and trailing comments of the directives, with input variables taking precedence over definitions in the file, and afterwards no block is left open.",
    over=["programs", "configurations"],
    text="every nesting of conditional blocks with any conditions, definitions inside them, and any input variables",
    why="The tests exercise single blocks with literal conditions; which branch is live depends on the nesting history, which grows without bound.",
    files=["edk2toollib/uefi/edk2/parsers/base_parser.py", "edk2toollib/uefi/edk2/parsers/dsc_parser.py", "edk2toollib/uefi/edk2/parsers/fdf_parser.py"],
    mechanism=[("conditional stack", "BaseParser.ProcessConditional / PushConditional / PopConditional / InActiveCode"),
               ("platform description passes", "DscParser.__ParseLine, __ParseDefineLine"), ("flash description line reader", "FdfParser.GetNextLine")],
    technique="property-based testing: generated conditional programs against a reference interpreter",
    note="expressions are those of P05; platform description definitions are unconditional, because that parser resolves definitions in a first pass",
)
CHECK = Check("P04", "the program has nested or multi-branch blocks, some marker lines are kept and some dropped")

envs = st.tuples(g.env_st, st.one_of(
    st.dictionaries(st.sampled_from(["N0", "N1"]), st.sampled_from(["1", "0", "TRUE", "7"]), max_size=2),
    st.fixed_dictionaries({}, optional={"I_A": st.sampled_from(["1", "7", "0x10"]), "B_A": st.sampled_from(["TRUE", "FALSE"]), "S_A": st.sampled_from(["GCC5", "DEBUG"])}),
))


def inputs(iv):
    """Input variables may be of any type a build front end hands over."""
    out = {}
    for k, v in iv.items():
        out[k] = {"TRUE": True, "7": 7}.get(v, v)
    return out


def note(case, ctx, got, prog, taken):
    n = g.marks(prog)
    ctx.nontrivial(0 < len(got) < n)
    ctx.label(f"taken={min(taken, 5)}", f"kept={min(len(got), 5)}", f"dropped={min(n - len(got), 5)}")


@CHECK.sub("lines", st.tuples(g.program, envs), quick=1500, thorough=60000)
def lines(case, ctx):
    prog, (env, iv) = case
    prog = g.fix(prog)
    p = BaseParser("")
    p.SetInputVars(inputs(iv))
    p.LocalVars = dict(env)
    e = {**env, **iv}
    want = []
    taken = g.run(prog, e, set(iv), want, ["-"])
    got, sec = [], "-"
    for ln in g.text(prog, lambda k: f"mark {k}", lambda a: f"[s.{a}]", lambda a, b: f"DEFINE {a} = {b}"):
        ln = ln.split("#")[0].strip()
        if p.ProcessConditional(p.ReplaceVariables(ln)):
            continue
        if not p.InActiveCode():
            continue
        if ln.startswith("mark"):
            got.append((sec, int(ln.split()[1])))
        elif ln.startswith("["):
            sec = ln[3:-1]
        else:
            _, a, _, b = ln.split()
            p.LocalVars[a] = b
    same(got, want, "lines in effect")
    same(len(p.ConditionalStack), 0, "blocks left open")
    note(case, ctx, got, prog, taken)


@CHECK.sub("dsc", st.tuples(g.program, envs), quick=700, thorough=30000)
def dsc(case, ctx):
    prog, (env, iv) = case
    prog = g.fix(prog, allow_define=False)
    e = {**env, **iv}
    want = []
    taken = g.run(prog, e, set(iv), want, ["X64"])
    tmp = ctx.tmp(wild=True)
    body = ["[Defines]", "SUPPORTED_ARCHITECTURES = IA32|X64"] + [f"DEFINE {k} = {v}" for k, v in env.items()]
    body += ["[Components.X64]"] + g.text(prog, lambda k: f"  Pkg/M{k}/M{k}.inf", lambda a: f"[Components.{a}]", None)
    path = os.path.join(tmp, "P.dsc")
    with open(path, "w") as f:
        f.write("\n".join(body) + "\n")
    p = DscParser()
    p.SetEdk2Path(Edk2Path(tmp, []))
    p.SetInputVars(inputs(iv))
    p.ParseFile(path)

    def mods(sec):
        return [f"Pkg/M{k}/M{k}.inf" for s, k in want if s == sec]

    same(p.SixMods, mods("X64"), "X64 modules")
    same(p.ThreeMods, mods("IA32"), "IA32 modules")
    same([(c[0], c[1]) for c in p.Components], [(f"Pkg/M{k}/M{k}.inf", s.lower()) for s, k in want], "components")
    same(len(p.ConditionalStack), 0, "blocks left open")
    note(case, ctx, want, prog, taken)


@CHECK.sub("fdf", st.tuples(g.program, envs), quick=1000, thorough=40000)
def fdf(case, ctx):
    prog, (env, iv) = case
    prog = g.fix(prog, allow_section=False)
    e = {**env, **iv}
    want = []
    taken = g.run(prog, e, set(iv), want, ["X64"])
    tmp = ctx.tmp(wild=True)
    body = ["[Defines]"] + [f"DEFINE {k} = {v}" for k, v in env.items()]
    body += ["[FV.MAIN]"] + g.text(prog, lambda k: f"  INF Pkg/M{k}/M{k}.inf", None, lambda a, b: f"DEFINE {a} = {b}")
    path = os.path.join(tmp, "P.fdf")
    with open(path, "w") as f:
        f.write("\n".join(body) + "\n")
    p = FdfParser()
    p.SetEdk2Path(Edk2Path(tmp, []))
    p.SetInputVars(inputs(iv))
    p.ParseFile(path)
    got = p.FVs["MAIN"]["Infs"] if "MAIN" in p.FVs else []
    same(got, [f"Pkg/M{k}/M{k}.inf" for _, k in want], "FV modules")
    same(len(p.ConditionalStack), 0, "blocks left open")
    note(case, ctx, want, prog, taken)
