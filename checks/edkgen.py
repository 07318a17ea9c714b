"""Shared generators for EDK II text files: layouts (comments, blanks, indentation, line endings) and names."""
import uuid

from pbt import st

ident = st.sampled_from(["Base", "Debug", "Uefi", "Memory", "Pcd", "Io", "Timer", "Net", "Usb", "Pci", "Hob", "Sources", "LibraryClasses", "Resources", "Defines"])
word = st.tuples(ident, st.sampled_from(["Lib", "Core", "Dxe", "Pei", "Null", "X64", "2", ""])).map("".join)
guid = st.one_of(st.sampled_from([b"\x01" * 16, bytes(range(1, 17))]), st.binary(min_size=16, max_size=16)).map(lambda b: str(uuid.UUID(bytes=b)))
guid = st.one_of(guid, guid, st.sampled_from(["00000000-0000-0000-0000-000000000000", "00000001-0002-0003-0004-000000000005", "0abcdef0-00ff-0f0f-0001-0a0b0c0d0e0f", "ffffffff-ffff-ffff-ffff-ffffffffffff"]))
styles = st.lists(st.integers(0, 255), min_size=1, max_size=12)

COMMENTS = ["# note", "#", "## CONSUMES", "# [Sources]", "# a | b = c", "# don't \"stop\"", "#!include x", "# !if TRUE", "# } {", "#---------#"]


def layout(lines, style, newline="\n", last=True, noise=True, tails=True):
    """Lays out logical lines; noise adds blank and comment lines, style drives every choice."""
    out = []
    n = 0
    for ln in lines:
        s = style[n % len(style)] * 7 + n
        n += 1
        if noise and s % 5 == 0:
            out.append(["", "   ", "\t", "# full line comment", "  # [Packages]", "##", "#"][s % 7])
        ind = ["", "  ", "\t", "    "][s % 4]
        tail = ["", "", " ", "\t", "  " + COMMENTS[s % len(COMMENTS)], " " + COMMENTS[(s // 3) % len(COMMENTS)]][(s // 4) % 6]
        out.append(ind + ln + (tail if tails else ""))
    if noise and style[0] % 3 == 0:
        out.append("# the end")
    return newline.join(out) + (newline if last else "")


def c_guid(g, style=0):
    u = uuid.UUID(g)
    f = u.fields
    b = [f[3], f[4]] + list(f[5].to_bytes(6, "big"))
    X = ["0x", "0X"][(style >> 0) & 1]
    up = (style >> 1) & 1
    pad = (style >> 2) & 1
    sp = ["", " ", "  ", "\t"][(style >> 3) & 3]

    def h(v, w):
        t = f"{v:0{w}x}" if not pad else f"{v:x}"
        return X + (t.upper() if up else t)

    c = ["", sp or " "][(style >> 5) & 1] + "," + sp
    return "{" + sp + h(f[0], 8) + c + h(f[1], 4) + c + h(f[2], 4) + c + "{" + sp + c.join(h(x, 2) for x in b) + sp + "}" + sp + "}"


def write(path, text):
    with open(path, "w", newline="") as f:
        f.write(text)
