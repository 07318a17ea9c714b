#!/opt/venv/bin/python
"""mutate.py gen|tests|checks OUT [N] [FILES...]: development aid, measures what the checks notice.

gen    draws up to N single-point mutations per file of the original (not repaired) lines into OUT/mutants.json
tests  runs the repository's tests on every mutant in scratch copies, keeps those that pass them
checks runs the checks anchored in the mutated file on every mutant the tests accept
"""
import ast, collections, concurrent.futures as cf, glob, importlib, json, os, queue, random, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = "/repo"
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "+"), ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.FloorDiv: ("//", "*"), ast.Mod: ("%", "*"), ast.Div: ("/", "*")}
DROP = {"strip", "lower", "upper", "lstrip", "rstrip", "casefold", "resolve", "absolute", "copy"}
LOGS = {"debug", "info", "warning", "error", "critical", "warn", "print", "exception"}


def changed_lines(f):
    log = subprocess.run(["git", "-C", REPO, "log", "--format=%H", "--grep=^fix:"], capture_output=True, text=True).stdout.split()
    mine = set(log)
    out = set()
    for line in subprocess.run(["git", "-C", REPO, "blame", "-p", f], capture_output=True, text=True).stdout.splitlines():
        p = line.split(" ")
        if len(p[0]) == 40 and p[0] in mine:
            out.add(int(p[2]))
    return out


def muts(f):
    src = open(os.path.join(REPO, f)).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    raw = [l.encode() for l in lines]
    offs = [0]
    for l in raw:
        offs.append(offs[-1] + len(l))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: b[slice(*pos(n))].decode()
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and (getattr(n.func, "attr", None) or getattr(n.func, "id", None)) in LOGS:
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef,)):
            for a in [n.returns, *[x.annotation for x in n.args.args]]:
                if a is not None:
                    skip |= {id(x) for x in ast.walk(a)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__",):
            skip |= {id(x) for x in ast.walk(n)}

    def add(n, new, kind):
        s, e = pos(n)
        out.append((n.lineno, s, e, new, kind))

    def addop(left, right, old, new, kind):
        s, e = pos(left)[1], pos(right)[0]
        gap = b[s:e].decode()
        if gap.count(old) >= 1:
            i = gap.index(old)
            out.append((right.lineno, s, e, gap[:i] + new + gap[i + len(old):], kind))

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            addop(n.left, n.comparators[0], CMPS[t], CMP[t], "cmp")
            if t in (ast.Lt, ast.Gt):
                addop(n.left, n.comparators[0], CMPS[t], ">" if t is ast.Lt else "<", "cmp")
        elif isinstance(n, ast.BoolOp):
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            addop(n.values[0], n.values[1], o, w, "bool")
            add(n, text(n.values[0]), "boolfirst")
            add(n, text(n.values[-1]), "boollast")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            addop(n.left, n.right, *BIN[type(n.op)], "bin")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({text(n.operand)})", "not")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n.test, (ast.Compare,)):
                add(n.test, f"not ({text(n.test)})", "ifnot")
            add(n.test, "False" if isinstance(n, ast.While) else "True", "iftrue")
            if not isinstance(n, ast.While):
                add(n.test, "False", "iffalse")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "const")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v:
                    add(n, str(v - 1), "const")
            elif isinstance(v, str) and v and len(v) < 40:
                if v[0] in "<=>@" and len(v) > 1:
                    sw = {"H": "h", "h": "H", "I": "i", "i": "I", "L": "l", "Q": "q", "B": "b", "b": "B"}
                    for i, c in enumerate(v):
                        if c in sw:
                            add(n, json.dumps(v[:i] + sw[c] + v[i + 1:]), "struct")
                    add(n, json.dumps(">" + v[1:]), "struct")
                else:
                    add(n, json.dumps(v + "x"), "str")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in DROP:
                add(n, text(n.func.value), "drop")
            if n.func.attr == "strip":
                add(n, text(n).replace(".strip(", ".lstrip(") if text(n).count(".strip(") == 1 else text(n), "strip")
            if n.func.attr in ("startswith", "endswith"):
                add(n, text(n.func.value) + ".__contains__(" + ", ".join(text(a) for a in n.args) + ")", "affix")
            if n.func.attr in ("find", "index", "split", "partition"):
                w = {"find": "rfind", "index": "rindex", "split": "rsplit", "partition": "rpartition"}[n.func.attr]
                s, e = pos(n.func)
                add(n.func, text(n.func)[: -len(n.func.attr)] + w, "rev")
        elif isinstance(n, ast.Break):
            add(n, "continue", "loop")
        elif isinstance(n, ast.Continue):
            add(n, "break", "loop")
            add(n, "pass", "loop")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and id(n.value) not in skip:
            add(n, "pass", "delcall")
        if isinstance(n, (ast.AugAssign,)):
            add(n, "pass", "delaug")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "delassign")
        if isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None and not isinstance(x, ast.Constant):
                    add(x, f"({text(x)}) + 1", "slice")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
    mine = changed_lines(f)
    res = []
    for ln, s, e, new, kind in out:
        nb = b[:s] + new.encode() + b[e:]
        if ln in mine or nb == b:
            continue
        try:
            ast.parse(nb)
        except SyntaxError:
            continue
        res.append(dict(file=f, line=ln, s=s, e=e, new=new, kind=kind, old=b[s:e].decode()))
    uniq = {}
    for m in res:
        uniq.setdefault((m["s"], m["e"], m["new"]), m)
    return list(uniq.values())


def apply(m, wt):
    p = os.path.join(wt, m["file"])
    b = open(os.path.join(REPO, m["file"]), "rb").read()
    open(p, "wb").write(b[: m["s"]] + m["new"].encode() + b[m["e"]:])


def restore(m, wt):
    shutil.copyfile(os.path.join(REPO, m["file"]), os.path.join(wt, m["file"]))


def pool(n):
    q = queue.Queue()
    root = tempfile.mkdtemp(prefix="mut")
    for i in range(n):
        wt = os.path.join(root, f"r{i}")
        subprocess.run(["cp", "-a", REPO, wt], check=True)
        q.put(wt)
    return root, q


def tests(m, q):
    wt = q.get()
    try:
        apply(m, wt)
        env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1", HOME=wt)
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--ignore=tests.unit/database/test_package_table.py"], cwd=wt, env=env, capture_output=True, text=True, timeout=90)
            last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
            return r.returncode == 0 and "passed" in last
        except subprocess.TimeoutExpired:
            return False
    finally:
        restore(m, wt)
        subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."])
        q.put(wt)


def props():
    sys.path[:0] = [V]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.path.append(REPO)
    d = collections.defaultdict(list)
    for p in sorted(glob.glob(os.path.join(V, "checks", "p*.py"))):
        i = os.path.basename(p)[:-3]
        for f in importlib.import_module(f"checks.{i}").META["files"]:
            d[f].append(i.upper())
    return d


def check(m, q, ps, jobs):
    wt = q.get()
    try:
        apply(m, wt)
        for p in ps:
            env = dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_NOEVIDENCE="1")
            try:
                r = subprocess.run([os.path.join(V, "check.sh"), p, "--jobs", str(jobs)], env=env, capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                return [p, "timeout"]
            if r.returncode:
                v = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" in l]
                return [p, "caught" if v else "error", (v or r.stdout.splitlines()[-1:] or [""])[0][:200]]
        return None
    finally:
        restore(m, wt)
        q.put(wt)


def main():
    mode, out = sys.argv[1:3]
    os.makedirs(out, exist_ok=True)
    f1, f2, f3 = (os.path.join(out, x) for x in ("mutants.json", "alive.json", "result.jsonl"))
    if mode == "gen":
        n, files = int(sys.argv[3]), sys.argv[4:] or sorted(props())
        allm = []
        for f in files:
            ms = muts(f)
            random.Random(int(os.environ.get("MSEED", "7"))).shuffle(ms)
            print(f, len(ms))
            allm += ms[:n]
        json.dump(allm, open(f1, "w"))
        print(len(allm))
    elif mode == "tests":
        root, q = pool(8)
        ms = json.load(open(f1))
        with cf.ThreadPoolExecutor(8) as ex:
            alive = [m for m, ok in zip(ms, ex.map(lambda m: tests(m, q), ms)) if ok]
        json.dump(alive, open(f2, "w"))
        print(len(ms), "->", len(alive))
        shutil.rmtree(root)
    elif mode == "checks":
        root, q = pool(3)
        ps = props()
        ms = json.load(open(f2))
        done = sum(1 for _ in open(f3)) if os.path.exists(f3) else 0
        with cf.ThreadPoolExecutor(3) as ex, open(f3, "a") as o:
            for m, r in zip(ms[done:], ex.map(lambda m: check(m, q, ps[m["file"]], 3), ms[done:])):
                o.write(json.dumps(dict(m, result=r)) + "\n")
                o.flush()
        shutil.rmtree(root)


main()
