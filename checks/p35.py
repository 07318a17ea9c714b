"""P35: hexdump, C array export, version comparison."""
import io
import os
import re
import subprocess
import warnings

from edk2toollib import utility_functions as uf
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Hex dumps and exported C arrays hold exactly the bytes; versions order correctly",
    statement="A hex dump read back gives exactly the bytes, offsets and printable characters of the data in aligned columns for every combination of its options, and an exported C array compiles to exactly the remaining bytes of its source under the requested name, type, length and layout. Comparing two dotted versions gives the order of their numbers, trailing zero parts ignored, which is a consistent total order.",
    over=["inputs"],
    text="every byte string and option combination; every pair and triple of versions",
    why="The tests compare six dumps and arrays with the default options; no array is ever compiled and versions are not compared at all.",
    files=["edk2toollib/utility_functions.py"],
    mechanism=[("dump", "hexdump, PrintByteList"), ("C array", "export_c_type_array"), ("versions", "version_compare")],
    technique="property-based testing: independent readers of dumps and C initialisers plus the C compiler as a differential oracle; order laws of version comparison",
    note="comments ending in a backslash continue onto the next line in gcc and clang (known finding), not in ISO C",
)
CHECK = Check("P35", "the data has a partial last line or row, or the compared versions differ in length")

data = st.one_of(st.binary(max_size=70), st.lists(st.sampled_from(b"\x00\x1f\x20\x41\x5c\x7e\x7f\x80\xff/*?"), max_size=70).map(bytes), st.integers(0, 5).flatmap(lambda n: st.binary(min_size=16 * n, max_size=16 * n)))
offset = st.one_of(st.just(0), st.sampled_from([1, 8, 15, 16, 0xF0, 0x40000000, 0xFFFFFFFFFFFFFFF0]), st.integers(0, 1 << 40))


def printable(b):
    return "".join(chr(x) if 0x20 <= x <= 0x7E else "." for x in b)


def compare_dump(text, b, start, asc, off, sep):
    if not b:
        same(text.strip(), "", "dump of nothing")
        return
    expect(text.endswith("\n"), "the dump does not end its last line")
    lines = text[:-1].split("\n")
    same(len(lines), (len(b) + 15) // 16, "number of lines")
    for n, l in enumerate(lines):
        row = b[16 * n:16 * n + 16]
        what = f"line {n} {l!r}"
        if off:
            m = re.match(r"(0x[0-9a-f]+) -", l)
            expect(m, f"no offset in {what}")
            same(int(m[1], 16), start + 16 * n, f"offset of {what}")
            l = l[m.end():]
        body = ""
        for i, x in enumerate(row):
            if i == 8 and sep:
                body += " -"
            body += f" 0x{x:02x}"
        same(l[:len(body)], body, f"bytes of {what}")
        rest = l[len(body):]
        if asc:
            width = 16 * 5 + (2 if sep else 0)
            same(rest, " " * (width - len(body)) + " " + printable(row) + " ", f"characters of {what}")
        else:
            same(rest.strip(), "", f"end of {what}")


@CHECK.sub("hexdump", st.tuples(data, offset, st.sampled_from([None, True, False]), st.sampled_from([None, True, False]), st.sampled_from([None, True, False]), st.sampled_from([bytes, bytearray, list])), quick=1500, thorough=60000)
def dump(case, ctx):
    b, start, asc, off, sep, kind = case
    kw = {k: v for k, v in (("include_ascii", asc), ("include_offset", off), ("include_hex_sep", sep)) if v is not None}
    out = io.StringIO()
    uf.hexdump(kind(b), offset_start=start, outfs=out, **kw)
    asc, off, sep = asc is not False, off is not False, sep is not False
    compare_dump(out.getvalue(), b, start, asc, off, sep)
    old = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        uf.PrintByteList(kind(b), asc, off, sep, start, outfs=old)
    same(old.getvalue(), out.getvalue(), "PrintByteList against hexdump")
    ctx.nontrivial(len(b) % 16 != 0)
    ctx.label("partial line" if len(b) % 16 else "full lines", f"ascii={asc} offset={off} separator={sep}")


ident = st.from_regex(r"[A-Za-z_][A-Za-z0-9_]{0,9}", fullmatch=True).filter(lambda s: s not in ("do", "if", "int", "for", "asm", "auto", "char", "long", "goto", "case", "else", "enum", "void", "float", "short", "while", "break", "const", "union", "double", "extern", "inline", "return", "signed", "sizeof", "static", "struct", "switch", "typeof", "default", "typedef", "unix", "linux", "main", "volatile", "register", "restrict", "continue", "unsigned", "UINT8", "UINTN", "CHAR8"))
opts = st.fixed_dictionaries({}, optional={"data_type": st.sampled_from(["UINT8", "CHAR8", "STATIC CONST UINT8"]), "length_data_type": st.sampled_from(["UINTN", "UINT32"]), "bytes_per_row": st.one_of(st.integers(1, 20), st.sampled_from([16, 8, 100])), "indent": st.sampled_from(["", " ", "\t", "  ", "        "]), "include_ascii": st.booleans(), "include_length": st.booleans(), "length_variable_name": st.one_of(st.none(), ident)})
TYPES = "#include <stddef.h>\ntypedef unsigned char UINT8; typedef char CHAR8; typedef size_t UINTN; typedef unsigned UINT32;\n#define STATIC static\n#define CONST const\n"


def lex_comments(text):
    """Phase 2 and 3 of ISO C: splice lines, drop // comments."""
    text = text.replace("\\\n", "")
    return "\n".join(l.split("//")[0] for l in text.split("\n"))


def export(b, skip, name, kw):
    src = io.BytesIO(b)
    src.seek(skip)
    out = io.StringIO()
    out.write("/* head */\n")
    uf.export_c_type_array(src, name, out, **kw)
    text = out.getvalue()
    expect(text.startswith("/* head */\n"), "text already in the stream was changed")
    return text[len("/* head */\n"):]


@CHECK.sub("array", st.tuples(data, st.integers(0, 20), ident, opts), quick=1200, thorough=50000)
def array(case, ctx):
    b, skip, name, kw = case
    skip = min(skip, len(b))
    rest = b[skip:]
    if not rest:
        rejects(export, b, skip, name, kw, exc=ValueError, what="an empty source")
        ctx.nontrivial(False)
        return
    text = export(b, skip, name, kw)
    per = kw.get("bytes_per_row", 16)
    n = str(len(rest)) if kw.get("include_length", True) else ""
    lines = text.split("\n")
    same(lines[0], f"{kw.get('data_type', 'UINT8')} {name}[{n}] = {{", "declaration")
    rows = [rest[i:i + per] for i in range(0, len(rest), per)]
    body = lines[1:1 + len(rows)]
    columns = set()
    for i, (l, row) in enumerate(zip(body, rows)):
        ind = kw.get("indent", "    ")
        want = ind + ", ".join(f"0x{x:02x}" for x in row) + ("," if i + 1 < len(rows) else "")
        same(l[:len(want)], want, f"row {i}")
        tail = l[len(want):]
        if kw.get("include_ascii", True):
            m = re.match(r" +// ", tail)
            expect(m, f"no comment in {l!r}")
            same(tail[m.end():], printable(row) + " ", f"comment of row {i}")
            columns.add(len(want) + m.end())
        else:
            same(tail.strip(), "", f"end of row {i}")
    # The comment column is the same in every full row but the very first bytes_per_row of a partial last row is padded by the tool's own width.
    same(lines[1 + len(rows)], "};", "end of the array")
    after = [l for l in lines[2 + len(rows):] if l]
    lv = kw.get("length_variable_name")
    same(after, [f"{kw.get('length_data_type', 'UINTN')} {lv} = sizeof {name};"] if lv else [], "what follows the array")
    expect(text.endswith("\n\n"), "no blank line after the array")
    got = re.fullmatch(r"\s*[\w ]+\[(\d*)\] = \{([^}]*)\};.*", lex_comments(text), re.S)
    expect(got, "the array does not read as C")
    same(bytes(int(x, 16) for x in got[2].replace(" ", "").split(",") for x in [x.strip()]), rest, "bytes of the array as C reads it")
    if len(rest) % per == 0:
        expect(len(columns) <= 1, f"comments start in columns {columns}")
    ctx.nontrivial(len(rest) % per != 0)
    ctx.label("partial row" if len(rest) % per else "full rows", "ascii" if kw.get("include_ascii", True) else "no ascii")


def build(ctx, texts, cc="gcc"):
    """Compile the declarations and print every array and length; returns the bytes or raises AssertionError with the compiler's words."""
    d = ctx.tmp(wild=True) if hasattr(ctx, "tmp") else ctx
    src = TYPES + "#include <stdio.h>\n" + "".join(t for t, _, _ in texts) + "int main(void) {\n" + "".join(f"fwrite(&{v}, 1, sizeof {v}, stdout);\n" + (f"{{ unsigned long long x = {lv}; fwrite(&x, 1, 8, stdout); }}\n" if lv else "") for _, v, lv in texts) + "return 0; }\n"
    c, exe = os.path.join(d, "a.c"), os.path.join(d, "a.out")
    with open(c, "w") as f:
        f.write(src)
    r = subprocess.run([cc, "-w", "-o", exe, c], capture_output=True, text=True)
    expect(r.returncode == 0, f"{cc} refuses the array: {r.stderr[:300]}")
    return subprocess.run([exe], capture_output=True).stdout


@CHECK.sub("compiled", st.tuples(st.lists(st.tuples(st.one_of(st.binary(min_size=1, max_size=300), data.filter(len)), opts), min_size=1, max_size=12), st.sampled_from(["gcc", "clang"])), quick=24, thorough=800, shards=8)
def compiled(case, ctx):
    arrays, cc = case
    texts, want = [], b""
    for i, (b, kw) in enumerate(arrays):
        kw = dict(kw)
        if kw.get("include_ascii", True):  # known finding: a row ending in a backslash swallows the next line
            per = kw.get("bytes_per_row", 16)
            b = b"".join(re.sub(rb"\\( *)\Z", rb"/\1", b[j:j + per]) for j in range(0, len(b), per))
        lv = f"len{i}" if kw.get("length_variable_name") else None
        if lv:
            kw["length_variable_name"] = lv
        texts.append((export(b, 0, f"array{i}", kw), f"array{i}", lv))
        want += b + (len(b).to_bytes(8, "little") if lv else b"")
    same(build(ctx, texts, cc), want, "bytes in the compiled arrays")
    ctx.nontrivial(any(len(b) % kw.get("bytes_per_row", 16) for b, kw in arrays))
    ctx.label(cc)


@CHECK.finding("P35-continuation")
def continuation():
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        try:
            got = build(d, [(export(b"ab\\cdef", 0, "a", {"bytes_per_row": 3}), "a", None)])
        except AssertionError as e:
            return f"bytes 'ab\\\\cdef' three per row do not compile with gcc: {str(e)[:80]!r}"
        return None if got == b"ab\\cdef" else f"gcc compiles 'ab\\\\cdef' to {got!r}"


part = st.tuples(st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 11, 99, 100, 2**31, 2**64])), st.sampled_from(["", "", "0", "00"])).map(lambda t: (t[1] + str(t[0])))
version = st.one_of(st.lists(part, min_size=1, max_size=5), st.lists(st.sampled_from(["0", "1", "10", "00"]), min_size=1, max_size=5)).map(".".join)


def sign(a, b):
    x, y = ([int(p) for p in v.split(".")] for v in (a, b))
    n = max(len(x), len(y))
    x, y = x + [0] * (n - len(x)), y + [0] * (n - len(y))
    return (x > y) - (x < y)


@CHECK.sub("version", st.tuples(version, version, version, st.integers(0, 3)), quick=2500, thorough=100000)
def versions(case, ctx):
    a, b, c, zeros = case
    for x in (a, b, c):
        for y in (a, b, c):
            same(uf.version_compare(x, y), sign(x, y), f"version_compare({x!r}, {y!r})")
    same(uf.version_compare(a, a + ".0" * zeros), 0, f"{a} with {zeros} zero parts appended")
    s = [uf.version_compare(p, q) for p, q in ((a, b), (b, c), (a, c))]
    same(uf.version_compare(b, a), -s[0], "antisymmetry")
    if s[0] == s[1]:
        same(s[2], s[0], f"transitivity over {a}, {b}, {c}")
    ctx.nontrivial(a.count(".") != b.count("."))
