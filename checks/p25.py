"""P25: editing the variable store inside a ROM image."""
import os
import struct

from checks.p24 import STORE, b_var, c_var, guid, o_var, pad, u, var
from edk2toollib.uefi.edk2.variablestore_manulipulations import VariableStore
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Editing a variable store changes that store and nothing else",
    statement="Over any sequence of additions, removals, changes, flushes and re-openings of the variable store of a ROM image, opening lists exactly the variables stored up to the terminator or the end of the store, and a flush writes the current list followed by a terminator, so that the next opening lists the same variables in the same order. No byte outside the variable store ever changes, and when the variables do not fit the flush is refused and the image stays as it was. Images whose base, size, signatures or state do not match are refused and left unchanged.",
    over=["histories", "inputs"],
    text="every sequence of edits, flushes and re-openings, store size, position and content of the image",
    why="No test opens a variable store; off-by-header size checks only show when the store is nearly full.",
    files=["edk2toollib/uefi/edk2/variablestore_manulipulations.py", "edk2toollib/uefi/edk2/variable_format.py"],
    mechanism=[("reading to the end of the store", "VariableStore.__init__"), ("size check and writing", "VariableStore.flush_to_file")],
    technique="stateful property-based testing: edit histories against a list model and a byte-level image model",
    note="images are regular files that nothing else writes; stores without a terminator end where the store ends",
)
CHECK = Check("P25", "at least one successful and one refused flush, or a flush that leaves the store with less than one header of free space")

FVGUID = "8d2bf1ff9676 8b4c a9852747075b4f50".replace(" ", "")
small = var.map(lambda m: dict(m, name=m["name"][:4]))
op = st.one_of(
    st.tuples(st.just("add"), small, st.just(0)),
    st.tuples(st.just("add"), small, st.just(0)),
    st.tuples(st.just("remove"), st.integers(0, 99), st.just(0)),
    st.tuples(st.just("data"), st.integers(0, 99), st.binary(max_size=40)),
    st.tuples(st.just("rename"), st.integers(0, 99), st.sampled_from(["", "A", "Longer"])),
    st.tuples(st.just("move"), st.integers(0, 99), st.integers(0, 99)),
    st.tuples(st.just("flush"), st.just(0), st.just(0)),
    st.tuples(st.just("flush"), st.just(0), st.just(0)),
    st.tuples(st.just("reopen"), st.booleans(), st.just(0)),
    st.tuples(st.just("fill"), st.integers(-6, 10), st.just(0)),
)
image = st.fixed_dictionaries({
    "auth": st.booleans(), "before": st.binary(max_size=50), "after": st.one_of(st.binary(max_size=90), st.sampled_from([b"\xff" * 70, struct.pack("<HBB", 0x55AA, 0x3F, 0) + bytes(80), b"\xaa\x55"])),
    "vars": st.lists(small, max_size=3), "free": st.integers(0, 260), "fill": st.sampled_from([b"\xff", b"\0", b"\x55"]), "spare": st.integers(0, 40), "blocks": st.integers(0, 2), "extra": st.tuples(u(16), u(32), guid, u(32)),
})


def hdr(auth):
    return 60 if auth else 32


def build(im):
    """Image bytes, base, FV size, offset of the variables in the image, size of the store after its header."""
    vs = b"".join(pad(b_var(dict(m, auth=im["auth"]))) for m in im["vars"])
    free = im["free"] - im["free"] % 4
    body = vs + (b"\xff" * min(free, hdr(im["auth"]))) + im["fill"] * max(0, free - hdr(im["auth"]))
    res0, res1, zero, attrs = im["extra"]
    store = struct.pack("<16sLBBHL", STORE["AuthVar" if im["auth"] else "Var"].bytes_le, 28 + len(body), 0x5A, 0xFE, res0, res1) + body
    hl = 56 + 16 + 8 * im["blocks"]
    fvlen = hl + len(store) + im["spare"]
    fv = struct.pack("<16s16sQ4sLHHHBBQQ", zero, bytes.fromhex(FVGUID), fvlen, b"_FVH", attrs, hl, 0, 0, 0, 2, 1, 4096) + b"\x11" * (8 * im["blocks"])
    data = im["before"] + fv + store + b"\x77" * im["spare"] + im["after"]
    return data, len(im["before"]), fvlen, len(im["before"]) + hl + 28, len(body)


def raw(p):
    with open(p, "rb") as f:
        return f.read()


def listed(s, model):
    same(len(s.variables), len(model), "number of variables")
    for o, m in zip(s.variables, model):
        c_var(o, m)


@CHECK.sub("edits", st.tuples(image, st.lists(op, min_size=1, max_size=12)), quick=900, thorough=40000, shards=2)
def edits(case, ctx):
    im, ops = case
    im = dict(im, vars=[dict(m, auth=im["auth"]) for m in im["vars"]])
    data, base, size, at, room = build(im)
    p = os.path.join(ctx.tmp(wild=True), "rom.bin")
    with open(p, "wb") as f:
        f.write(data)
    s = VariableStore(p, base, size)
    model = list(im["vars"])
    stored = list(model)
    listed(s, model)
    now = data
    good = bad = tight = 0
    for k, a, b in ops + [("flush", 0, 0), ("reopen", True, 0)]:
        i = a % len(model) if model and k in ("remove", "data", "rename", "move") else None
        if k == "add":
            m = dict(a, auth=im["auth"])
            s.add_variable(o_var(m))
            model.append(m)
        elif k == "fill":
            # one more variable that leaves just about room for the terminator
            left = room - sum(len(pad(b_var(m))) for m in model) - 2 * hdr(im["auth"]) - 4 + 4 * a
            if left < 0:
                continue
            m = dict(auth=im["auth"], state=0x3F, attrs=7, guid=bytes(16), name="F", data=b"d" * left, mono=0, time=bytes(16), pk=0)
            s.add_variable(o_var(m))
            model.append(m)
        elif k == "flush":
            w = b"".join(pad(b_var(m)) for m in model) + b"\xff" * hdr(im["auth"])
            if len(w) <= room:
                s.flush_to_file()
                now = now[:at] + w + now[at + len(w):]
                stored = list(model)
                good += 1
                tight += room - len(w) < hdr(im["auth"])
            else:
                rejects(s.flush_to_file, what=f"{len(w)} bytes in a store with room for {room}")
                bad += 1
            got = raw(p)
            same(len(got), len(now), "image size")
            same(got, now, "image")
        elif k == "reopen":
            if a:
                s = None
            s = VariableStore(p, base, size)
            same(raw(p), now, "image after opening it")
            model = list(stored)
            listed(s, model)
        elif i is None:
            continue
        elif k == "remove":
            del s.variables[i]
            del model[i]
        elif k == "data":
            s.variables[i].set_data(b)
            model[i] = dict(model[i], data=b)
        elif k == "rename":
            s.variables[i].set_name(b)
            model[i] = dict(model[i], name=b)
        elif k == "move":
            s.variables.insert(b % len(model), s.variables.pop(i))
            model.insert(b % len(model), model.pop(i))
        listed(s, model)
    ctx.nontrivial((good > 0 and bad > 0) or tight > 0)
    ctx.label("auth" if im["auth"] else "plain", f"refused {min(bad, 2)}", f"tight {min(tight, 1)}", "no terminator" if im["free"] < 4 else "terminated")


@CHECK.sub("refused", st.tuples(image, st.sampled_from(["fvguid", "fvsig", "size", "store", "format", "state", "base", "short", "cut"]), st.integers(0, 9999)), quick=400, thorough=20000)
def refused(case, ctx):
    im, how, n = case
    data, base, size, at, room = build(im)
    d = bytearray(data)
    if how == "fvguid":
        d[base + 16 + n % 16] ^= 1 + n % 255
    elif how == "fvsig":
        d[base + 40 + n % 4] ^= 1 + n % 255
    elif how == "size":
        size += (-1, 1, 8, -8)[n % 4]
    elif how == "store":
        d[at - 28 + n % 16] ^= 1 + n % 255
    elif how == "format":
        d[at - 28 + 20] ^= 1 + n % 255
    elif how == "state":
        d[at - 28 + 21] ^= 1 + n % 255
    elif how == "base":
        base += (1, 2, 3, 8)[n % 4]
    elif how == "short":
        d = d[: base + size - 1 - n % 8]
    elif how == "cut":
        # the last variable claims more than the store holds
        if not im["vars"]:
            return
        last = at + sum(len(pad(b_var(dict(m, auth=im["auth"])))) for m in im["vars"][:-1])
        struct.pack_into("<L", d, last + hdr(im["auth"]) - 20, room + 1 + n)
    p = os.path.join(ctx.tmp(wild=True), "rom.bin")
    with open(p, "wb") as f:
        f.write(d)
    rejects(VariableStore, p, base, size, what=f"image with a wrong {how}")
    same(raw(p), bytes(d), "refused image")
    rejects(VariableStore, p + ".none", base, size, what="an image that does not exist")
    expect(not os.path.exists(p + ".none"), "no image is created")
    ctx.nontrivial(True)
    ctx.label(how)
