"""P14: the in-memory DSC model."""
from checks import dscobj as o
from edk2toollib.uefi.edk2.build_objects import dsc as d
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="The platform description model holds each definition once, latest wins",
    statement="Over any sequence of additions, every set and section of a platform description model holds exactly one object per identity, the latest added, and never loses another one; a SKU replaces every SKU sharing its id or its name. Objects are equal exactly when they define the same thing, equal objects are interchangeable as keys and set members, and sections differ when any part of their scope differs. Objects of a wrong kind and repeated sections are refused without effect, and models are equal when built from the same additions and differ when one defines something more.",
    over=["histories", "inputs"],
    text="every sequence of additions, lookups and refused operations on the model, and every pair of objects",
    why="The tests add two libraries and one definition; identity rules involve letter case, defaults and colliding hashes over any history.",
    files=["edk2toollib/uefi/edk2/build_objects/dsc.py"],
    mechanism=[("containers", "dsc_set.add, dsc_dict.__setitem__, __missing__"), ("identity", "__eq__ and __hash__ of the model classes"), ("model equality", "dsc.__eq__")],
    technique="stateful model-based testing against dictionaries keyed by identity; pairwise equality and hash contract",
    note="the set update operators of Python are not part of the guarantee, only add",
)
CHECK = Check("P14", "at least one addition replaces an earlier one, or the pair is equal but spelled differently")

anyobj = st.one_of(o.define, o.sku, o.libc, o.lib, o.pcd, o.pcdt, o.pcdv, o.bopt, o.store, o.comp, o.sec, o.bsec, o.psec, st.tuples(st.just("csec"), st.sampled_from(o.PCDT + ["DYNAMIC", "Dynamic"])))


def related(case):
    """The second object is the first one with one of its fields from elsewhere."""
    a, b, i = case
    i %= len(a)
    if i == 0 or a[0] != b[0]:
        return a, b
    c = a[:i] + (b[i],) + a[i + 1 :]
    bad = c[0] == "psec" and c[4] and not o.up(c[1]).endswith("HII")  # only HII sections have a store
    return (a, b) if bad else (a, c)


samekind = st.one_of(*[st.tuples(s, s, st.integers(0, 59)).map(related) for s in (o.define, o.sku, o.libc, o.lib, st.one_of(o.pcd, o.pcdt, o.pcdv), o.bopt, o.store, o.comp, o.secd, o.bsecd, o.psec)])


@CHECK.sub("contract", st.one_of(samekind, samekind, samekind, st.tuples(anyobj, anyobj)), quick=3000, thorough=200000)
def contract(case, ctx):
    a, b = case
    x, y = o.make(a), o.make(b)
    if hasattr(y, "source_info"):  # where it was said is no part of what is said
        y.source_info = d.source_info("a.dsc", 7)
    eq = o.equal(a, b)
    same(x == y, eq, f"{x!r} == {y!r}")
    same(y == x, eq, f"{y!r} == {x!r}")
    same(x != y, not eq, f"{x!r} != {y!r}")
    same(x == o.make(a), True, "object equals its copy")
    if eq:
        same(hash(x), hash(y), f"hash of the equal {x!r} and {y!r}")
    same(len({x, y}), 1 if eq else 2, "distinct objects")
    same(x == None, False, "object equals None")  # noqa: E711
    ctx.nontrivial(eq and a != b)
    ctx.label(a[0] if a[0] == b[0] else "mixed", "equal" if eq else "different")


SECTIONED = {"library_classes": (o.secd, st.one_of(o.libc, o.libc, o.define)), "components": (o.csec, st.one_of(o.comp, o.comp, o.define)), "libraries": (o.sec, st.one_of(o.lib, o.define)), "build_options": (o.bsecd, st.one_of(o.bopt, o.bopt, o.define)),
             "pcds": (o.psec, st.one_of(o.pcd, o.pcdt, o.pcdv))}
SETS = {"skus": st.one_of(o.sku, o.sku, o.define), "defines": o.define, "default_stores": st.one_of(o.store, o.define)}
WRONG = {"library_classes": ("comp", "A.inf", None), "components": ("libc", "A", "a.inf"), "libraries": ("libc", "A", "a.inf"), "build_options": ("pcd", "g", "P", "1"), "pcds": ("define", "A", "1", False), "skus": ("libc", "A", "a"), "defines": ("sku", 0, "A", "B"), "default_stores": ("bopt", "CC", "FLAGS", "", "*", "*", "*", None, False)}
WRONGSEC = {"library_classes": ("bsec", "X64", "EDK", "PEIM"), "components": ("psec", "FEATUREFLAG", "X64", "DEFAULT", None), "libraries": ("csec", "FEATUREFLAG"), "build_options": ("sec", "X64", "PEIM"), "pcds": ("csec", "FEATUREFLAG")}
op = st.one_of(
    *[st.tuples(st.just("add"), st.just(k), s, v) for k, (s, v) in SECTIONED.items()],
    *[st.tuples(st.just("add"), st.just(k), s, v) for k, (s, v) in SECTIONED.items()],
    *[st.tuples(st.just("put"), st.just(k), v) for k, v in SETS.items()],
    *[st.tuples(st.just("put"), st.just(k), v) for k, v in SETS.items()],
    *[st.tuples(st.just("new"), st.just(k), s, st.sampled_from(["set", "dsc_set"])) for k, (s, v) in SECTIONED.items()],
    *[st.tuples(st.just("badadd"), st.just(k), s) for k, (s, v) in SECTIONED.items()],
    *[st.tuples(st.just("badsec"), st.just(k)) for k in SECTIONED],
    *[st.tuples(st.just("badput"), st.just(k)) for k in SETS],
)


def model_put(lst, item):
    n = len(lst)
    lst[:] = [x for x in lst if not o.equal(x, item)] + [item]
    return len(lst) <= n


def compare(real, want, what):
    same(sorted(map(o.attrs, real)), sorted(o.attrs(o.make(x)) for x in want), what)


def apply(m, op_, state):
    """Runs one operation on the model and the reference; returns whether something was replaced."""
    kind, name = op_[0], op_[1]
    real = getattr(m, name)
    ref = state.setdefault(name, [] if name in SETS else {})
    if kind == "add":
        real[o.make(op_[2])].add(o.make(op_[3]))
        k = o.key(op_[2])
        return model_put(ref.setdefault(k, []), op_[3])
    if kind == "put":
        real.add(o.make(op_[2]))
        return model_put(ref, op_[2])
    if kind == "new":
        k = o.key(op_[2])
        v = set() if op_[3] == "set" else d.dsc_set(real._allowed_value_classes)
        if k in ref:
            rejects(real.__setitem__, o.make(op_[2]), v, exc=ValueError, what="a section that exists")
        else:
            real[o.make(op_[2])] = v
            ref[k] = []
    elif kind == "badadd":
        k = o.key(op_[2])
        ref.setdefault(k, [])
        rejects(real[o.make(op_[2])].add, o.make(WRONG[name]), exc=ValueError, what="an object of the wrong kind")
    elif kind == "badsec":
        rejects(real.__setitem__, o.make(WRONGSEC[name]), set(), exc=ValueError, what="a section of the wrong kind")
    else:
        rejects(real.add, o.make(WRONG[name]), exc=ValueError, what="an object of the wrong kind")
    return False


def check_all(m, state, lookups):
    for name, ref in state.items():
        real = getattr(m, name)
        if name in SETS:
            compare(real, ref, name)
            continue
        same(len(real), len(ref), f"sections of {name}")
        same(len(list(real.items())), len(ref), f"sections iterated in {name}")
        compare([v for s in real.values() for v in s], [v for s in ref.values() for v in s], f"all of {name}")
    for name, s in lookups:
        ref = state[name]
        k = o.make(s)
        same(k in getattr(m, name), o.key(s) in ref, f"section {k!r} of {name}")
        if o.key(s) in ref:
            compare(getattr(m, name)[k], ref[o.key(s)], f"section {k!r} of {name}")


@CHECK.sub("history", st.lists(op, min_size=1, max_size=16), quick=1500, thorough=80000, shards=2)
def history(case, ctx):
    m, state = d.dsc(), {}
    replaced = 0
    for x in case:
        replaced += bool(apply(m, x, state))
        check_all(m, {x[1]: state[x[1]]}, [(y[1], y[2]) for y in case if y[0] == "add" and y[1] == x[1]])
    check_all(m, state, [])
    n, state2 = d.dsc(), {}
    for x in case:
        if x[0] in ("add", "put"):
            apply(n, x, state2)
        elif x[0] in ("new", "badadd") and o.key(x[2]) not in state2.get(x[1], {}):
            getattr(n, x[1])[o.make(x[2])] = set()
            state2.setdefault(x[1], {})[o.key(x[2])] = []
    expect(m == n and n == m, "models built from the same additions differ")
    expect(not (m != n), "models built from the same additions differ")
    if any(state.values()):
        expect(not (m == d.dsc()), "a filled model equals an empty one")
    last = case[-1]
    before = {k: len(v) for k, v in state2.items()}, {k: sum(map(len, v.values())) for k, v in state2.items() if k in SECTIONED}
    part, state3 = d.dsc(), {}
    for x in case[:-1]:
        if x[0] in ("add", "put"):
            apply(part, x, state3)
        elif x[0] in ("new", "badadd") and o.key(x[2]) not in state3.get(x[1], {}):
            getattr(part, x[1])[o.make(x[2])] = set()
            state3.setdefault(x[1], {})[o.key(x[2])] = []
    after = {k: len(v) for k, v in state3.items()}, {k: sum(map(len, v.values())) for k, v in state3.items() if k in SECTIONED}
    if last[0] in ("add", "put", "new", "badadd") and any(n != b.get(k, 0) for a, b in zip(before, after) for k, n in a.items()):
        expect(not (m == part) and not (part == m), f"a model with something more in {last[1]} equals the one without")
    same(m == 5, False, "model equals a number")
    ctx.nontrivial(replaced > 0)
    ctx.label(f"replaced={min(replaced, 3)}")


@CHECK.sub("skus", st.lists(o.sku, min_size=2, max_size=7), quick=600, thorough=30000)
def skus(case, ctx):
    m, ref, done = d.dsc(), [], 0
    for x in case:
        m.skus.add(o.make(x))
        done += model_put(ref, x)
        compare(m.skus, ref, "SKUs")
    ctx.nontrivial(done > 0)


def plain(x):
    """The fields of an object, from what it was made of."""
    k = x[0]
    if k == "define":
        return dict(name=x[1], value=x[2], local=x[3])
    if k == "sku":
        return dict(id=x[1], name=x[2], parent=x[3])
    if k == "libc":
        return dict(libraryclass=x[1], inf=x[2])
    if k in ("lib", "comp"):
        return dict(inf=x[1])
    if k == "pcd":
        return dict(namespace=x[1], name=x[2], value=x[3])
    if k == "pcdt":
        return dict(namespace=x[1], name=x[2], value=x[3], datum_type=x[4], max_size=int(x[5]))
    if k == "pcdv":
        a = x[7].split(",") if isinstance(x[7], str) else x[7] or []
        return dict(namespace=x[1], name=x[2], var_name=x[3], var_guid=x[4], var_offset=x[5], default=x[6], attributes=[y.strip().upper() for y in a])
    if k == "bopt":
        return dict(tool_code=x[1], attribute=x[2], data=x[3], target=x[4], tagname=x[5], arch=x[6], family=x[7], replace=x[8])
    if k == "store":
        return dict(index=int(x[1]), value=x[2])
    if k == "sec":
        return dict(arch=o.up(x[1]), module_type=o.up(x[2]))
    if k == "bsec":
        return dict(arch=o.up(x[1]), codebase=o.up(x[2]), module_type=o.up(x[3]))
    if k == "psec":
        return dict(pcd_type=o.up(x[1]), arch=o.up(x[2]), sku=x[3].upper(), default_store=x[4] and x[4].strip())
    return dict(pcd_type=o.up(x[1]))


BAD = {"sec": (2, "PEI"), "bsec": (2, "EDK2"), "psec": (1, "Static"), "csec": (1, "Static"), "pcdv": (7, "NV,XX")}


@CHECK.sub("fields", anyobj, quick=1200, thorough=60000)
def fields(x, ctx):
    obj, want = o.make(x), plain(x)
    same({k: getattr(obj, k) for k in want}, want, f"fields of {obj!r}")
    same(obj.default if x[0] == "pcdv" else None, x[6] if x[0] == "pcdv" else None, "default")
    if x[0] in BAD:  # a scope or an attribute that does not exist
        i, v = BAD[x[0]]
        rejects(o.make, x[:i] + (v,) + x[i + 1 :], exc=ValueError, what=f"{x[0]} with {v}")
    if x[0] == "psec" and not o.up(x[1]).endswith("HII"):
        rejects(o.make, x[:4] + ("Standard",), exc=ValueError, what="a store for PCDs that are in none")
    ctx.nontrivial(x[0] in ("pcdv", "psec", "bsec", "sec", "store"))
    ctx.label(x[0])


CLASSES = {"define": d.definition, "sku": d.sku_id, "libc": d.library_class, "lib": d.library, "pcd": d.pcd, "pcdt": d.pcd_typed, "pcdv": d.pcd_variable, "bopt": d.build_option, "store": d.default_store, "comp": d.component, "sec": d.dsc_section_type, "bsec": d.dsc_buildoption_section_type, "psec": d.dsc_pcd_section_type, "csec": d.dsc_pcd_component_type}
kinds = st.one_of(st.none(), st.lists(st.sampled_from(sorted(CLASSES)), max_size=3, unique=True))


@CHECK.sub("containers", st.tuples(kinds, kinds, st.lists(st.one_of(st.tuples(st.just("add"), anyobj), st.tuples(st.just("put"), anyobj, st.one_of(st.sampled_from(["set", "same", "other", "full"]), anyobj)), st.tuples(st.just("get"), anyobj)), min_size=1, max_size=10)), quick=1500, thorough=60000)
def containers(case, ctx):
    a, b, ops = case
    kw = [None if x is None else [CLASSES[k] for k in x] for x in (a, b)]
    s = d.dsc_set() if a is None else d.dsc_set(kw[0])
    t = d.dsc_dict(*([] if a is b is None else [kw[0]] if b is None else kw))
    items, pairs, done = [], [], 0
    for x in ops:
        obj = o.make(x[1])
        found = [v for k, v in pairs if o.equal(k, x[1])]
        if x[0] == "add":
            if a and x[1][0] not in a:
                rejects(s.add, obj, exc=ValueError, what=f"{obj!r} in a set of {a}")
            else:
                s.add(obj)
                done += model_put(items, x[1])
        elif x[0] == "get":
            if found:
                same(t[obj] is found[0], True, "the value of a known key")
            elif not b:
                rejects(t.__getitem__, obj, exc=KeyError, what=f"unknown key {obj!r} where no kind of value is set")
            elif a and x[1][0] not in a:
                rejects(t.__getitem__, obj, exc=ValueError, what=f"key {obj!r} among {a}")
            else:
                v = t[obj]
                pairs.append((x[1], v))
                same((type(v), len(v), v is t[obj]), (d.dsc_set, 0, True), "the new section")
                good, bad = [y for y in SAMPLE if y[0] in b], [y for y in SAMPLE if y[0] not in b]
                rejects(v.add, o.make(bad[len(pairs) % len(bad)]), exc=ValueError, what="a value of another kind")
                v.add(o.make(good[0]))
                same(len(v), 1, "values")
        else:
            w = x[2]
            val = o.make(w) if isinstance(w, tuple) else set() if w == "set" else {o.make(SAMPLE[0])} if w == "full" else d.dsc_set(kw[1] if w == "same" else [d.source_info])
            ok = (not a or x[1][0] in a) and (not b or (w[0] in b if isinstance(w, tuple) else w in ("set", "same"))) and not found
            if b and w == "other":
                # an empty section of any description becomes one of the right kind
                ok = (not a or x[1][0] in a) and not found
            if ok:
                t[obj] = val
                done += 1
                pairs.append((x[1], t[obj]))
                if b and not isinstance(w, tuple):
                    same((type(t[obj]), len(t[obj])), (d.dsc_set, 0), "the new section")
                    rejects(t[obj].add, o.make(next(y for y in SAMPLE if y[0] not in b)), exc=ValueError, what="a value of another kind")
                else:
                    same(t[obj] is val, True, "the value that was set")
            else:
                rejects(t.__setitem__, obj, val, exc=ValueError, what=f"{obj!r}: {val!r} in a dictionary of {a} to {b}, known={bool(found)}")
        compare(s, items, "the set")
        same(len(t), len(pairs), "keys")
        same([k == o.make(w) and v is y for (k, v), (w, y) in zip(t.items(), pairs)], [True] * len(pairs), "the dictionary, in order")
    ctx.nontrivial(done > 0)
    ctx.label("typed keys" if a else "any key", "typed values" if b else "any value")


SAMPLE = [("define", "A", "1", False), ("sku", 0, "A", "B"), ("libc", "A", "a"), ("lib", "a"), ("pcd", "g", "P", "1"), ("bopt", "CC", "FLAGS", "", "*", "*", "*", None, False), ("store", 1, "a"), ("comp", "A.inf", None), ("sec", "X64", "PEIM"), ("bsec", "X64", "EDK", "PEIM"), ("psec", "FEATUREFLAG", "X64", "DEFAULT", None), ("csec", "DYNAMIC"), ("pcdt", "g", "P", "1", "UINT8", 1), ("pcdv", "g", "P", "a", "g", "0", None, None)]
