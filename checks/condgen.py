"""Generators and a reference evaluator for conditional expressions and conditional programs (P04, P05)."""
import re

from pbt import st

INTS = ["0", "1", "2", "3", "10", "0x0", "0x1", "0x10", "0xA", "0Xff", "16", "255", "1024", "30", "0x30", "00", "007", "010", "0x0A", "0x00000010"]
WORDS = ["DEBUG", "debug", "Debug", "gcc5", "x64", "RELEASE", "GCC5", "GCC", "VS2022", "X64", "IA32", "a-b", "x.y"]
QUOTED = ['"DEBUG"', '"GCC5"', '"GCC"', '"X64 IA32"', '"X64"', '""', '"a b"', '"10"', '"debug"', '"gcc"', '"x64 ia32"']
BOOLS = ["TRUE", "FALSE", "true", "False", "True"]

# macro -> kind; values are drawn per case
MACROS = {"I_A": "int", "I_B": "int", "S_A": "word", "S_B": "word", "B_A": "bool", "B_B": "bool", "UNDEF": "undef", "EMPTY": "undef"}

values = {"int": st.sampled_from(INTS), "word": st.sampled_from(WORDS), "bool": st.sampled_from(["TRUE", "FALSE"])}

env_st = st.fixed_dictionaries({k: values[v] for k, v in MACROS.items() if v != "undef"})


def macros(kind):
    return st.sampled_from([f"$({k})" for k, v in MACROS.items() if v == kind])


int_op = st.one_of(st.sampled_from(INTS), macros("int"), st.just("$(UNDEF)"))
str_op = st.one_of(st.sampled_from(WORDS + QUOTED), macros("word"))
bool_op = st.one_of(st.sampled_from(BOOLS), macros("bool"))
bin_ = st.tuples

compare = st.one_of(
    bin_(st.just("cmp"), st.sampled_from(["<", ">", "<=", ">="]), int_op, int_op),
    bin_(st.just("cmp"), st.sampled_from(["==", "!=", "EQ", "NE", "eq", "ne"]), int_op, int_op),
    bin_(st.just("cmp"), st.sampled_from(["==", "!=", "EQ", "NE"]), str_op, str_op),
    bin_(st.just("cmp"), st.sampled_from(["==", "!="]), bool_op, bool_op),
    bin_(st.just("cmp"), st.sampled_from(["==", "!="]), bool_op, st.sampled_from(["0", "1"])),
    bin_(st.just("in"), st.sampled_from(["in", "IN", "not in", "NOT IN"]), st.sampled_from(['"GCC"', '"GCC5"', '"X64"', '"DEBUG"', "$(S_A)", '"gcc"', '"debug"']), st.sampled_from(["$(S_A)", "$(S_B)", '"X64 IA32"', '"GCC5"', '"GCC debug"'])),
)
atom = st.one_of(compare, compare, compare, st.tuples(st.just("lit"), st.one_of(bool_op, st.sampled_from(["0", "1", "0x1"]))))
AND = st.sampled_from(["AND", "and", "&&"])
OR = st.sampled_from(["OR", "or", "||"])


def extend(child):
    return st.one_of(
        st.tuples(st.just("chain"), st.lists(st.tuples(st.one_of(AND, OR), child), min_size=2, max_size=4)),
        st.tuples(st.just("chain"), st.lists(st.tuples(st.one_of(AND, OR), child), min_size=2, max_size=3)),
        st.tuples(st.just("not"), st.sampled_from(["NOT ", "not ", "!", "NOT"]), child),
        st.tuples(st.just("par"), child),
    )


expr = st.recursive(atom, extend, max_leaves=7)


def render(e, sp=" "):
    """Expression text; comparisons and NOT bind tighter than AND/OR; the operand of NOT is a literal, another NOT or in parentheses."""
    k = e[0]
    if k == "lit":
        return e[1]
    if k == "cmp":
        s = sp if not e[1].isalpha() and '"' not in e[2] + e[3] else " "
        return f"{e[2]}{s}{e[1]}{s}{e[3]}"
    if k == "in":
        return f"{e[2]} {e[1]} {e[3]}"
    if k == "par":
        return "(" + render(e[1], sp) + ")"
    if k == "not":
        op, c = e[1].strip(), e[2]
        if c[0] == "lit":
            return op + (" " if op.isalpha() else "") + c[1]
        if c[0] == "not":
            return op + " " + render(c, sp)
        return e[1] + "(" + render(c, sp) + ")"
    out = []
    for i, (op, c) in enumerate(e[1]):
        if i:
            out.append(op)
        t = render(c, sp)
        out.append("(" + t + ")" if c[0] == "chain" else t)
    return " ".join(out)


def subst(tok, env):
    def one(m):
        return env.get(m.group(1), "0")

    return re.sub(r"\$\((\w+)\)", one, tok)


def as_val(tok):
    """A literal's value: integers and booleans are numbers, anything else is text without its quotes."""
    t = tok.strip('"')
    if t.upper() == "TRUE":
        return 1
    if t.upper() == "FALSE":
        return 0
    if re.fullmatch(r"0[xX][0-9a-fA-F]+", t):
        return int(t, 16)
    if re.fullmatch(r"[0-9]+", t):
        return int(t)
    return t


def value(e, env):
    k = e[0]
    if k == "lit":
        return bool(as_val(subst(e[1], env)))
    if k == "par":
        return value(e[1], env)
    if k == "not":
        return not value(e[2], env)
    if k == "in":
        a, b = subst(e[2], env).strip('"'), subst(e[3], env).strip('"')
        r = a in b
        return not r if "not" in e[1].lower() else r
    if k == "cmp":
        a, b = as_val(subst(e[2], env)), as_val(subst(e[3], env))
        op = {"EQ": "==", "NE": "!="}.get(e[1].upper(), e[1])
        return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()
    r = None
    for op, c in e[1]:
        v = value(c, env)
        if r is None:
            r = v
        elif op.upper() in ("AND", "&&"):
            r = r and v
        else:
            r = r or v
    return r


def size(e):
    if e[0] in ("lit", "cmp", "in"):
        return 1
    if e[0] == "chain":
        return sum(size(c) for _, c in e[1])
    return 1 + size(e[-1])


# ---- programs: nested conditionals around marker lines

newmacro = st.sampled_from([f"N{i}" for i in range(4)] + ["I_A", "UNDEF", "EMPTY", "N_NEVER"])
small = st.one_of(
    atom,
    st.sampled_from([("lit", "TRUE"), ("lit", "FALSE"), ("lit", "$(B_A)"), ("lit", "$(B_B)")]),
    st.tuples(st.just("not"), st.sampled_from(["NOT ", "!"]), atom),
    st.tuples(st.just("chain"), st.lists(st.tuples(st.one_of(AND, OR), atom), min_size=2, max_size=3)),
)
only_if = st.tuples(st.just("if"), small)
cond = st.one_of(
    only_if,
    only_if,
    st.tuples(st.just("ndef"), st.sampled_from(["ifdef", "ifndef"]), newmacro, st.booleans()),
    st.tuples(st.just("nval"), newmacro, st.sampled_from(["0", "1", "7", "TRUE"])),
)
leaf = st.one_of(
    *[st.just(("mark",))] * 4,
    st.tuples(st.just("section"), st.sampled_from(["X64", "IA32"])),
    st.tuples(st.just("define"), st.sampled_from([f"N{i}" for i in range(4)]), st.sampled_from(["0", "1", "DEBUG", "7", "TRUE"])),
)


@st.composite
def program_(draw):
    """A list of nodes; a block is ("cond", style, ((condition, body), [(condition, body) ...]), else body or None)."""
    left = [draw(st.integers(2, 7))]

    def body(depth, at_least=0):
        out = [("mark",)]  # every branch has something to observe
        for _ in range(draw(st.integers(at_least, 3))):
            if left[0] > 0 and depth < 5 and draw(st.sampled_from([True, True, False])):
                left[0] -= 1
                c0 = (draw(cond), body(depth + 1))
                rest = [(draw(only_if), body(depth + 1)) for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2])))]
                out.append(("cond", draw(st.integers(0, 15)), (c0, rest), body(depth + 1) if draw(st.booleans()) else None))
            else:
                out.append(draw(leaf))
        return out

    return body(0, 1)


@st.composite
def deep_(draw):
    """Blocks nested many levels deep, with long !elseif chains."""
    body = [("mark",)]
    for _ in range(draw(st.integers(3, 10))):
        n = draw(st.sampled_from([1, 1, 2, 3, 5]))
        at = draw(st.integers(0, n - 1))
        truths = draw(st.lists(st.sampled_from(["TRUE", "FALSE"]), min_size=n, max_size=n))
        if draw(st.integers(0, 4)):  # the block inside is reached
            truths = ["FALSE"] * at + ["TRUE"] + truths[at + 1 :]
        bs = [(("if", ("lit", t)), body if i == at else [("mark",)]) for i, t in enumerate(truths)]
        body = [("mark",), ("cond", draw(st.integers(0, 15)), (bs[0], bs[1:]), draw(st.sampled_from([None, [("mark",)]]))), ("mark",)]
    return body


program = st.one_of(program_(), program_(), program_(), deep_())


def fix(prog, allow_section=True, allow_define=True):
    """Numbers the markers and, if asked to, turns sections/defines into markers."""
    n = [0]

    def walk(lst):
        out = []
        for x in lst:
            if x[0] == "mark" or (x[0] == "section" and not allow_section) or (x[0] == "define" and not allow_define):
                out.append(("mark", n[0]))
                n[0] += 1
            elif x[0] == "cond":
                (c0, b0), rest = x[2]
                out.append(("cond", x[1], [(c0, walk(b0))] + [(c, walk(b)) for c, b in rest], None if x[3] is None else walk(x[3])))
            else:
                out.append(x)
        return out

    return walk(prog)


def cond_text(c, word, st_):
    if st_ & 8:  # tabs between the parts
        return re.sub(r'("[^"]*")| ', lambda m: m[1] or "\t", cond_text(c, word, st_ & 7))
    kw = [word, word.upper(), word.capitalize(), word][st_ % 4]
    if c[0] == "if":
        return f"!{kw} {render(c[1])}"
    if c[0] == "nval":
        return f"!{kw} $({c[1]}) == {c[2]}"
    name = c[2] if c[3] else f"$({c[2]})"
    return f"!{['', 'x'][0]}{c[1] if st_ % 4 != 1 else c[1].upper()} {name}"


def text(prog, mark, section, define, depth=0):
    out = []
    for x in prog:
        if x[0] == "mark":
            out.append(mark(x[1]))
        elif x[0] == "section":
            out.append(section(x[1]))
        elif x[0] == "define":
            out.append(define(x[1], x[2]))
        else:
            s = x[1]
            ind = "  " * depth if s & 1 else ""
            tail = "  # note \"x\"" if s & 4 else ""
            for i, (c, b) in enumerate(x[2]):
                out.append(ind + cond_text(c, "if" if i == 0 else "elseif", s) + tail)
                out += text(b, mark, section, define, depth + 1)
            if x[3] is not None:
                out.append(ind + ("!ELSE" if s & 2 else "!else") + tail)
                out += text(x[3], mark, section, define, depth + 1)
            out.append(ind + ("!EndIf" if s & 2 else "!endif") + tail)
    return out


def truth(c, env):
    if c[0] == "if":
        return value(c[1], env)
    if c[0] == "nval":
        return as_val(env.get(c[1], "0")) == as_val(c[2])
    d = c[2] in env
    return d if c[1] == "ifdef" else not d


def run(prog, env, fixed, out, sec):
    """Reference interpreter. env is changed by defines; names in `fixed` (input variables) keep their value."""
    taken = 0
    for x in prog:
        if x[0] == "mark":
            out.append((sec[0], x[1]))
        elif x[0] == "section":
            sec[0] = x[1]
        elif x[0] == "define":
            if x[1] not in fixed:
                env[x[1]] = x[2]
        else:
            for c, b in x[2]:
                if truth(c, env):
                    taken += 1 + run(b, env, fixed, out, sec)
                    break
            else:
                if x[3] is not None:
                    taken += 1 + run(x[3], env, fixed, out, sec)
    return taken


def marks(prog):
    n = 0
    for x in prog:
        if x[0] == "mark":
            n += 1
        elif x[0] == "cond":
            n += sum(marks(b) for _, b in x[2]) + marks(x[3] or [])
    return n
