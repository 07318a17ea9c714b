"""P31: bitmap files."""
import io
import logging
import struct

from edk2toollib.uefi.bmp_object import BmpColorMap, BmpObject
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="Bitmap files are read field by field and written back byte for byte",
    statement="Reading a bitmap file from any stream position gives exactly its header fields, colour map, gap before the pixels and pixel data, whatever the object held before, and writing the object reproduces the file byte for byte; a newly created empty bitmap can be written and read again. The printed form shows those values. A file shorter or longer than the size it states, or whose parts do not fit in that size, is refused.",
    over=["inputs", "histories"],
    text="every header, palette, gap and pixel data, every truncation and extension",
    why="The tests read two fixed pictures without padding and never write one.",
    files=["edk2toollib/uefi/bmp_object.py"],
    mechanism=[("reading", "BmpObject.PopulateFromFileStream, BmpColorMap.PopulateFromFileStream"), ("writing", "BmpObject.Write, BmpColorMap.Write"), ("creating", "BmpObject.__init__")],
    technique="property-based testing: independent byte-level encoder, round trip, damage generation, reuse of one object",
    note="the pixel data starts after the headers",
)
CHECK = Check("P31", "the bitmap has a colour map, a gap before its pixels, or is read by an object that held another bitmap")


def u(bits):
    return st.one_of(st.sampled_from([0, 1, (1 << bits) - 1, 1 << (bits - 1)]), st.integers(0, (1 << bits) - 1))


bmp = st.fixed_dictionaries({
    "magic": st.one_of(st.just(b"BM"), st.binary(min_size=2, max_size=2)), "rsvd": st.tuples(u(16), u(16)), "hsize": st.sampled_from([40, 40, 40, 52, 56, 108, 124]), "dims": st.tuples(u(32), u(32)), "planes": u(16),
    "bpp": st.one_of(st.sampled_from([1, 4, 8, 24, 16, 32, 0]), u(16)), "rest": st.tuples(u(32), u(32), u(32), u(32)), "ncol": st.one_of(st.just(0), st.integers(1, 20), u(32)), "imp": u(32),
    "pal": st.binary(min_size=32, max_size=32), "nogap": st.booleans(), "gap": st.binary(max_size=70), "pix": st.binary(max_size=40), "lead": st.integers(0, 5),
})


def colours(m):
    full = {1: 2, 4: 16, 8: 256}.get(m["bpp"], 0)
    if not full:
        return 0
    return full if m["ncol"] == 0 else m["ncol"]


def parts(m):
    """(file, colour map entries, gap, pixels)"""
    m = dict(m)
    if colours(m) > 600:
        m["ncol"] = 7
    gap = b"" if m["nogap"] else m["gap"]
    pal = (m["pal"] * 80)[:4 * colours(m)]
    if m["nogap"] and m["ncol"] == 3:
        pal = b""  # the pixels follow the headers at once: no colour map at all
    off = 54 + len(pal) + len(gap)
    size = off + len(m["pix"])
    if size < m["hsize"]:
        m["hsize"] = 40
    b = m["magic"] + struct.pack("<IHHI", size, *m["rsvd"], off) + struct.pack("<IIIHHIIIIII", m["hsize"], *m["dims"], m["planes"], m["bpp"], *m["rest"], m["ncol"], m["imp"]) + pal + gap + m["pix"]
    assert len(b) == size
    return b, [tuple(pal[i:i + 4]) for i in range(0, len(pal), 4)], gap, m["pix"], m, off


def load(b, lead=0, o=None):
    f = io.BytesIO(b"#" * lead + b)
    f.seek(lead)
    if o is None:
        return BmpObject(f)
    o.PopulateFromFileStream(f)
    return o


def written(o, lead=b""):
    f = io.BytesIO()
    f.write(lead)
    o.Write(f)
    return f.getvalue()[len(lead):]


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


def printed(o, *a):
    log, h = logging.getLogger("edk2toollib.uefi.bmp_object"), Lines()
    level, disabled, log.disabled = log.level, logging.root.manager.disable, False
    logging.disable(logging.NOTSET)
    log.addHandler(h)
    log.setLevel(logging.INFO)
    try:
        o.Print(*a)
    finally:
        log.removeHandler(h)
        log.setLevel(level)
        logging.disable(disabled)
    return h.lines


def dumped(lines, title):
    """The bytes listed after the title line."""
    out, it = [], iter(lines)
    for l in it:
        if l.strip().startswith(title):
            break
    else:
        return None
    for l in it:
        t = l.split()
        if l and not t[0].startswith("0x") and not (len(t[0]) == 2 and l.startswith(" ") and not l.startswith("  ")):
            break
        out += [x for x in t if len(x) == 2]
    return bytes.fromhex("".join(out))


@CHECK.sub("files", st.tuples(bmp, bmp, st.integers(0, 9999)), quick=1500, thorough=60000)
def files(case, ctx):
    first, m, n = case
    b, cols, gap, pix, m, off = parts(m)
    for o in (None, load(parts(first)[0]), BmpObject()):
        o = load(b, m["lead"], o)
        same((o.CharB + o.CharM, o.Size, o.Rsvd16_1, o.Rsvd16_2, o.ImageOffset), (m["magic"], len(b), *m["rsvd"], off), "file header")
        same((o.HeaderSize, o.PixelWidth, o.PixelHeight, o.Planes, o.BitPerPixel, o.CompressionType, o.ImageSize, o.XPixelsPerMeter, o.YPixelsPerMeter, o.NumberOfColors, o.ImportantColors), (m["hsize"], *m["dims"], m["planes"], m["bpp"], *m["rest"], m["ncol"], m["imp"]), "image header")
        same([(c.Blue, c.Green, c.Red, c.Reserved) for c in o.ColorMapList], cols, "colour map")
        same(bytes(o.ImageData), pix, "pixels")
        same(written(o, b"x" * (n % 3)), b, "written")
        same(written(load(written(o))), b, "written again")
        check_print(o, m, b, off, cols, gap, pix)
    for x in {0, 1, 13, 14, 53, 54, off - 1, off, len(b) - 1, len(b) - 2, n % (len(b) + 1)}:
        if 0 <= x < len(b):
            rejects(load, b[:x], what=f"bitmap cut to {x} of {len(b)} bytes")
    rejects(load, b + b"\0" * (1 + n % 5), what="bitmap with data after its end")
    for at, v in ((2, len(b) + 1 + n % 9), (2, len(b) - 1 - n % 9), (2, 0), (2, 0xFFFFFFFF), (10, len(b) + 1 + n % 9), (10, 0xFFFFFFFF)):
        d = bytearray(b)
        struct.pack_into("<I", d, at, v)
        rejects(load, bytes(d), what=f"bitmap of {len(b)} bytes with {v} at offset {at}")
    if len(cols) > 1:
        d = bytearray(b)
        struct.pack_into("<I", d, 10, 54 + 4 * len(cols) - 1)
        rejects(load, bytes(d), what="bitmap whose colour map overlaps its pixels")
    ctx.nontrivial(bool(cols or gap) or parts(first)[0] != b)
    ctx.label("gap" if gap else "no gap", f"{len(cols) if len(cols) in (0, 2, 16, 256) else 'other'} colours")


def check_print(o, m, b, off, cols, gap, pix):
    for image, cmap in ((False, False), (True, True)):
        lines = printed(o, image, cmap)
        want = ["CharB: %s" % m["magic"][:1], "CharM: %s" % m["magic"][1:], "Size: 0x%X (%d bytes)" % (len(b), len(b)), "ImageOffset: 0x%X (%d)" % (off, off), "HeaderSize: 0x%X" % m["hsize"], "PixelWidth: 0x%X (%d)" % (m["dims"][0], m["dims"][0]), "PixelHeight: 0x%X (%d)" % (m["dims"][1], m["dims"][1]), "Planes: 0x%X" % m["planes"], "BitPerPixel: %d" % m["bpp"], "CompressionType: 0x%X" % m["rest"][0],
                "ImageSize: 0x%X" % m["rest"][1], "XPixelsPerMeter: %d" % m["rest"][2], "YPixelsPerMeter: %d" % m["rest"][3], "NumberOfColors: %d" % m["ncol"], "ImportantColors: %d" % m["imp"]]
        if cmap:
            for c in cols:
                want += [f"{k}: 0x%X" % v for k, v in zip(("Blue", "Green", "Red", "Reserved"), c)]
        flat = [" ".join(l.split()) for l in lines]
        at = 0
        for w in want:
            i = next((i for i in range(at, len(flat)) if flat[i].startswith(w)), None)
            expect(i is not None, lambda: f"{w!r} missing, or out of order, in {flat!r}")
            at = i + 1
        if gap:
            same(dumped(lines, "BMP Padding (0x%X bytes)" % len(gap)), gap, "printed gap")
        same(dumped(lines, "Bmp Image Data"), pix if image else None, "printed pixels")


@CHECK.sub("created", st.tuples(u(32), u(32), st.sampled_from([1, 4, 8, 24]), st.binary(max_size=30), st.lists(st.tuples(u(8), u(8), u(8), u(8)), max_size=3)), quick=400, thorough=20000)
def created(case, ctx):
    w, h, bpp, pix, cols = case
    o = BmpObject()
    b = written(o)
    same(len(b), 54, "size of an empty bitmap")
    same(b, b"BM" + struct.pack("<IHHI", 54, 0, 0, 54) + struct.pack("<IIIHHIIIIII", 40, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0), "empty bitmap")
    load(b)
    o.PixelWidth, o.PixelHeight, o.BitPerPixel, o.ImageData = w, h, bpp, pix
    same(o.ExpectedColorMapEntires(), {1: 2, 4: 16, 8: 256, 24: 0}[bpp], "expected colour map entries")
    entries = []
    for c in cols:
        e = BmpColorMap()
        same((e.Blue, e.Green, e.Red, e.Reserved), (0, 0, 0, 0), "new colour")
        e.Blue, e.Green, e.Red, e.Reserved = c
        f = io.BytesIO()
        e.Write(f)
        same(f.getvalue(), bytes(c), "colour")
        entries.append(e)
        for n in range(4):
            rejects(BmpColorMap, io.BytesIO(bytes(n)), what=f"colour of {n} bytes")
    if bpp != 24:
        o.ColorMapList, o.NumberOfColors = entries, len(entries)
    o.ImageOffset = 54 + 4 * len(o.ColorMapList)
    o.Size = o.ImageOffset + len(pix)
    b = written(o)
    same(b, b"BM" + struct.pack("<IHHI", o.Size, 0, 0, o.ImageOffset) + struct.pack("<IIIHHIIIIII", 40, w, h, 1, bpp, 0, 0, 0, 0, len(o.ColorMapList), 0) + b"".join(map(bytes, cols if bpp != 24 else [])) + pix, "filled in bitmap")
    d = load(b)
    same(([(c.Blue, c.Green, c.Red, c.Reserved) for c in d.ColorMapList], bytes(d.ImageData), d.PixelWidth), (cols if bpp != 24 else [], pix, w), "read again")
    ctx.nontrivial(bool(o.ColorMapList))
    ctx.label(f"{bpp} bpp")
