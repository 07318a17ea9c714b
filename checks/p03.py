"""P03: the ignore-rule matcher against git itself."""
import os
import re
import subprocess

from edk2toollib.gitignore_parser import parse_gitignore_file, parse_gitignore_lines
from pbt import Check, expect, st
from pbt.core import same

META = dict(
    title="Ignore rules decide paths as git does",
    statement="For any ignore file made of comments, blank lines, plain and wildcard patterns, character classes, double-asterisk patterns, anchored, directory-only and negated patterns and escaped leading '#' and '!', a path none of whose parents is ignored is ignored by the matcher exactly when git ignores it. Without negations everything below a directory ignored by a directory-only pattern is ignored too. The answer is the same whether the rules are read from a file or given as lines, and rules apply only relative to their base directory.",
    over=["inputs", "programs"],
    text="every list of supported patterns and every path of the tree, files and directories",
    why="No unit test covers the matcher at all except through its users; pattern interactions (negation order, anchoring, wildcards next to separators) are a product of inputs no sample covers.",
    files=["edk2toollib/gitignore_parser.py"],
    mechanism=[("pattern normalisation", "rule_from_pattern"), ("pattern to regular expression", "fnmatch_pathname_to_regex"), ("negation order", "handle_negation")],
    technique="property-based testing: differential oracle, git check-ignore --no-index over generated patterns and trees",
    note="backslash escapes other than a leading \\# or \\! and trailing escaped spaces, and '^' classes, are outside the generated syntax; whether a path is a directory is taken from git (see DESIGN)",
)

CHECK = Check("P03", "some path is ignored and some is not, and the rules contain a wildcard, a negation, an anchor or a directory-only pattern")

NAMES = ["a", "b", "ab", "abc", "a.c", "a.o", "foo", "foo.o", "bar", "build", "#x", "!y", "A", "a b", "x-y", "a+b", "f(o)", "a]", "]b", "-", "..a", ".a", "...", " a", " #x", " !b"]
ATOMS = ["*", "?", "[ab]", "[!a]", "[a-c]", "[!a-b]", "*.o", "*.c", "a*", "*b", "f?o", "a[bc]", "*.*", "[]a]", "[!]a]", "[]-a]", "[a-]", "[-a]b", "a[]]", "[a.]c", "[", "a[b", "[]"]
piece = st.one_of(st.sampled_from(NAMES), st.sampled_from(ATOMS), st.tuples(st.sampled_from(["a", "f", "*", "?", "[ab]", "[!x]", ".", "b", "[]ab]"]), st.sampled_from(["b", "*", "o", "?", "c", "[!o]", "[]b]", ""]), st.sampled_from(["", "*", "c", ".o"])).map("".join))


def plain(p):
    """False for a class that holds a slash or a range that runs backwards, and for a '**' that follows text and precedes a slash: the rules do not give these a meaning."""
    for c in re.findall(r"\[!?(\]?[^]]*)\]", p):
        if "/" in c or any(a > b for a, b in re.findall(r"(?=(.)-(.))", c)):
            return False
    return not re.search(r"[^/]\*\*+/", p.lstrip("!/"))


@st.composite
def pattern_(draw):
    parts = draw(st.lists(st.one_of(piece, piece, piece, st.just("**")), min_size=1, max_size=4))
    if draw(st.integers(0, 5)) == 0:
        parts = [draw(piece), "**", draw(st.sampled_from(NAMES))]
    p = "/".join(parts)
    if draw(st.integers(0, 3)) == 0:
        p = "/" + p
    if draw(st.integers(0, 3)) == 0:
        p += "/"
    if p[0] in "#!":
        p = "\\" + p
    if draw(st.integers(0, 3)) == 0:
        p = "!" + p
    if draw(st.integers(0, 9)) == 0:
        p += " " * draw(st.integers(1, 2))
    return p


def pattern():
    return pattern_().filter(plain)


line = st.one_of(*[pattern()] * 8, st.sampled_from(["**", "a**", "**b", "a**b", "/**", "**/", "!**", "**/*.o"]), st.sampled_from(["", "# comment", "#", "   ", "/", "#a"]), st.sampled_from([" #x", " #*", " a", "/ #x", " !b", "!/ a"]))
path = st.lists(st.sampled_from(NAMES + ["d", "sub"]), min_size=1, max_size=4).map("/".join)


def cases():
    return st.fixed_dictionaries({"lines": st.lists(line, min_size=1, max_size=6), "paths": st.lists(path, min_size=1, max_size=10), "nl": st.booleans(), "derived": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 1000)), min_size=1, max_size=10), "how": st.sampled_from(["file", "file", "relative", "based"])})


def instance(pat, n):
    """A path made after a pattern: every wildcard is replaced by something it may stand for."""
    p = pat.rstrip().lstrip("!").lstrip("/").replace("\\", "")
    out = []
    for part in p.split("/"):
        if part == "**":
            part = ["", "a", "d/b", "sub/a/b"][n % 4]
        else:
            part = re.sub(r"\[!?\]?[^]]*\]|\*+|\?", lambda m, n=n: ["a", "b", "c", "x"][(n + m.start()) % 4] if m.group()[0] != "*" else ["", "ab", ".o", "x"][(n + m.start()) % 4], part)
        out.append(part)
        n //= 2
    p = "/".join(x for x in out + ["", "a", "", "d"][n % 4 : n % 4 + 1] if x)
    p = "/".join(x for x in (["", "", "a/", "d/"][n // 4 % 4] + p).split("/") if x)
    return None if not p or "[" in p or any(x in (".", "..", ".git") for x in p.split("/")) else p


def git_ignored(repo, paths):
    """What git says about each path: (the path is ignored by the rules, the rule that decided)."""
    p = subprocess.run(["git", "-c", "core.quotePath=false", "check-ignore", "--no-index", "--stdin", "-z", "-v", "-n"], cwd=repo,
                       input=b"".join(x.encode() + b"\0" for x in paths), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode not in (0, 1):
        raise RuntimeError("git: " + p.stderr.decode())
    f = p.stdout.split(b"\0")[:-1]
    out = {}
    for k in range(0, len(f), 4):
        src, num, pat, name = f[k : k + 4]
        out[name.decode()] = (bool(src) and not pat.startswith(b"!"), num, pat.startswith(b"!"))
    return out


def mkrepo(tmp):
    os.makedirs(os.path.join(tmp, ".git", "objects"))
    os.makedirs(os.path.join(tmp, ".git", "refs"))
    with open(os.path.join(tmp, ".git", "HEAD"), "w") as f:
        f.write("ref: refs/heads/master\n")


@CHECK.sub("git", cases(), quick=450, thorough=20000, shards=4)
def git(case, ctx):
    tmp = os.path.realpath(ctx.tmp(wild=True))
    dirs, leaves = set(), set()
    paths = case["paths"] + [q for q in (instance(case["lines"][i % len(case["lines"])], n) for i, n in case["derived"]) if q]
    for p in paths:
        parts = p.split("/")
        for k in range(1, len(parts)):
            dirs.add("/".join(parts[:k]))
    leaves = set(paths) - dirs
    text = "\n".join(case["lines"]) + ("\n" if case["nl"] else "")
    answers = []
    for form in ("files", "dirs"):
        r = os.path.join(tmp, form)
        mkrepo(r)
        with open(os.path.join(r, ".gitignore"), "w") as f:
            f.write(text)
        for d in dirs:
            os.makedirs(os.path.join(r, d), exist_ok=True)
        for p in leaves:
            if form == "dirs":
                os.makedirs(os.path.join(r, p), exist_ok=True)
            else:
                open(os.path.join(r, p), "w").close()
        answers.append(git_ignored(r, sorted(dirs | leaves)))
    r = os.path.join(tmp, "files")
    if case["how"] == "file":
        m = parse_gitignore_file(os.path.join(r, ".gitignore"))
    elif case["how"] == "relative":
        os.chdir(r)
        m = parse_gitignore_file(".gitignore")
        os.chdir(tmp)
    else:  # the rules lie elsewhere
        with open(os.path.join(tmp, "rules"), "w") as f:
            f.write(text)
        m = parse_gitignore_file(os.path.join(tmp, "rules"), r)
    m2 = parse_gitignore_lines([x + "\n" for x in case["lines"]], os.path.join(r, ".gitignore"), r)
    negs = any(x.startswith("!") for x in case["lines"])
    dironly = any(x.rstrip().endswith("/") and not x.startswith("!") for x in case["lines"])
    hit = miss = 0
    for p in sorted(dirs | leaves):
        parts = p.split("/")
        if any(answers[0]["/".join(parts[:k])][0] for k in range(1, len(parts))):
            continue  # below an ignored directory: git never asks about it
        if dironly and any(answers[0]["/".join(parts[:k])][2] for k in range(1, len(parts))):
            ctx.label("excluded: below a re-included directory (known finding)")
            continue
        a = answers[0][p][0]
        if p in leaves and answers[0][p] != answers[1][p]:
            ctx.label("directory-only rule names a file")
            continue
        full = os.path.join(r, p)
        if p in dirs:
            got = bool(m(full + "/"))
            same(got, a, f"{case['lines']!r} on {p + '/'!r}")
        if p in dirs and negs and any(x.startswith("!") and x.rstrip().endswith("/") for x in case["lines"]):
            full += "/"  # documented: a trailing slash tells a negated directory-only rule that this is a directory
        got = bool(m(full))
        same(got, a, f"{case['lines']!r} on {p!r} ({'dir' if p in dirs else 'file'})")
        same(bool(m2(full)), got, f"lines and file disagree on {p!r}")
        hit += a
        miss += not a
    if not negs:
        for p in sorted(d for d in dirs if answers[0][d][0]):
            only = git_only_dir_rules(case["lines"], tmp, p)
            if only:
                expect(m(os.path.join(r, p, "deep", "er")), f"{case['lines']!r}: below {p!r}, ignored by a directory-only rule")
                ctx.label("below ignored directory")
    syn = any(any(c in x for c in "*?[!/") for x in case["lines"] if not x.startswith("#"))
    ctx.nontrivial(bool(hit and miss and syn))
    ctx.label(*(["neg"] if negs else []), f"hit={min(hit, 3)}")


def git_only_dir_rules(lines, tmp, p):
    only = [x for x in lines if x.endswith("/") and x.strip() and not x.startswith("#")]
    if not only:
        return False
    r = os.path.join(tmp, "dironly")
    if not os.path.isdir(r):
        mkrepo(r)
    with open(os.path.join(r, ".gitignore"), "w") as f:
        f.write("\n".join(only) + "\n")
    os.makedirs(os.path.join(r, p), exist_ok=True)
    return git_ignored(r, [p])[p][0]


@CHECK.sub("base", st.tuples(st.lists(pattern().filter(lambda p: not p.startswith("!")), min_size=1, max_size=4), st.one_of(path, st.tuples(st.integers(0, 3), st.integers(0, 1000))), st.sampled_from(["sub", "sub/deep", "link", "link/in"])), quick=300, thorough=10000)
def base(case, ctx):
    """Moving the base directory and the path together changes nothing."""
    lines, p, move = case
    if not isinstance(p, str):
        p = instance(lines[p[0] % len(lines)], p[1]) or "a"
    tmp = os.path.realpath(ctx.tmp(wild=True))
    if move.startswith("link"):  # reached through a symbolic link
        os.makedirs(os.path.join(tmp, "real", "in"))
        os.symlink(os.path.join(tmp, "real"), os.path.join(tmp, "link"))
    a = parse_gitignore_lines(lines, os.path.join(tmp, "x"), tmp)
    b = parse_gitignore_lines(lines, os.path.join(tmp, move, "x"), os.path.join(tmp, move))
    ra, rb = bool(a(os.path.join(tmp, p))), bool(b(os.path.join(tmp, move, p)))
    same(ra, rb, f"{lines} on {p} moved to {move}")
    for out in (p, move + "x/" + p, os.path.join("other", move, p)):
        if not (out + "/").startswith(move + "/"):
            expect(not b(os.path.join(tmp, out)), f"{lines} with the base {move!r} matches {out!r} outside it")
    ctx.nontrivial(ra)


@CHECK.finding("P03-reincluded")
def reincluded():
    m = parse_gitignore_lines(["/a/", "!/a/"], "/nowhere/.gitignore", "/nowhere")
    return "rules ['/a/', '!/a/']: a/b is reported ignored although its directory is re-included" if m("/nowhere/a/b") else None
