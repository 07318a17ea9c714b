"""Generators for the DSC data model, with identity keys (P14, P15)."""
from edk2toollib.uefi.edk2.build_objects import dsc as d
from pbt import st

ARCH = ["COMMON", "common", "X64", "x64", "IA32", " X64 "]
MT = ["COMMON", "PEIM", "DXE_DRIVER", "peim", "BASE", "USER_DEFINED"]
CB = ["COMMON", "EDKII", "edkii", "EDK"]
INF = ["A/A.inf", "B/B.inf", "C/C.inf", "a/a.inf"]
NS = ["gATokenSpaceGuid", "gBTokenSpaceGuid", "gaTokenSpaceGuid"]
PN = ["PcdA", "PcdB", "PcdC", "Pcda"]
PCDT = ["FeatureFlag", "FIXEDATBUILD", " FixedAtBuild ", "PatchableInModule", "DynamicDefault", "DYNAMICEX"]


def up(s):
    return s.upper().strip()


def t(tag, *a):
    return st.tuples(st.just(tag), *a)


sf = st.sampled_from
define = t("define", sf(["NAME", "FLAG", "PLATFORM_NAME", "name"]), sf(["TEST", "1", "a b", "x|y"]), st.booleans())
sku = t("sku", st.integers(0, 3), sf(["DEFAULT", "S1", "S2", "S3"]), sf(["DEFAULT", "S1"]))
libc = t("libc", sf(["BaseLib", "BASELIB", "IoLib", "NULL", "null", "Null"]), sf(INF))
lib = t("lib", sf(INF))
pcd = t("pcd", sf(NS), sf(PN), sf(["TRUE", "0x10", 'L"a"', "{0x1}"]))
pcdt = t("pcdt", sf(NS), sf(PN), sf(["5", '"x"']), sf(["UINT32", "VOID*"]), sf([0, 1, 2, 4, "16", 255, 4096]))
pcdv = t("pcdv", sf(NS), sf(PN), sf(['L"Var"', 'L"V2"']), sf(["gGuidA", "gGuidB"]), sf(["0x0", "8"]), sf([None, "0x1", "TRUE"]), sf([None, "NV,BS", ["nv", "RT"], "RO", "NV", ["RT", "BS", "NV"], "RT, nv"]))
bopt = t("bopt", sf(["CC", "DLINK"]), sf(["FLAGS", "PATH"]), sf(["/X", "-O2 -g", ""]), sf(["*", "DEBUG"]), sf(["*", "GCC5"]), sf(["*", "X64"]), sf([None, "GCC", "MSFT"]), st.booleans())
store = t("store", sf([0, 1, 2, "1", "2"]), sf(["Standard", "Manufacturing"]))
overrides = st.fixed_dictionaries({"libc": st.lists(libc, max_size=3), "pcds": st.lists(st.tuples(sf(PCDT), st.lists(st.one_of(pcd, pcdt), min_size=1, max_size=2)), max_size=2, unique_by=lambda x: up(x[0])), "define": st.lists(t("define", sf(["FILE_GUID", "X"]), sf(["1234", "y"]), st.booleans()), max_size=1), "bopt": st.lists(bopt, max_size=1)})
comp = t("comp", sf(INF), st.one_of(st.none(), overrides))
sec = t("sec", sf(ARCH), sf(MT))
secd = t("sec", sf(ARCH + ["DEFAULT", "default"]), sf(MT))  # DEFAULT is COMMON
bsecd = t("bsec", sf(ARCH + ["DEFAULT", "default"]), sf(CB), sf(MT))
csec = t("sec", sf(["COMMON", "common", "X64", "x64", "IA32", "AARCH64"]), sf(["COMMON", "common"]))
bsec = t("bsec", sf(ARCH), sf(CB), sf(MT))
psec = st.one_of(t("psec", sf(PCDT), sf(ARCH), sf(["DEFAULT", "SKU1", "default"]), st.none()), t("psec", sf(["DynamicHii", "DYNAMICEXHII", "dynamichii\t"]), sf(ARCH), sf(["DEFAULT", "SKU1"]), sf([None, "Standard", " Standard ", "Manu"])))


def make(x):
    k = x[0]
    if k == "define":
        return d.definition(x[1], x[2], x[3])
    if k == "sku":
        return d.sku_id(x[1], x[2], x[3])
    if k == "libc":
        return d.library_class(x[1], x[2])
    if k == "lib":
        return d.library(x[1])
    if k == "pcd":
        return d.pcd(*x[1:])
    if k == "pcdt":
        return d.pcd_typed(*x[1:])
    if k == "pcdv":
        return d.pcd_variable(*x[1:])
    if k == "bopt":
        return d.build_option(x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8])
    if k == "store":
        return d.default_store(x[1], x[2])
    if k == "sec":
        return d.dsc_section_type(x[1], x[2])
    if k == "bsec":
        return d.dsc_buildoption_section_type(x[1], x[2], x[3])
    if k == "psec":
        return d.dsc_pcd_section_type(*x[1:])
    if k == "csec":
        return d.dsc_pcd_component_type(x[1])
    c = d.component(x[1])
    if x[2]:
        for e in x[2]["libc"]:
            c.library_classes.add(make(e))
        for ty, ps in x[2]["pcds"]:
            s = set()
            for p in ps:
                s.add(make(p))
            c.pcds[d.dsc_pcd_component_type(ty)] = s
        for e in x[2]["define"]:
            c.defines.add(make(e))
        for e in x[2]["bopt"]:
            c.build_options.add(make(e))
    return c


def star(a):
    a = up(a)
    return "*" if a in ("COMMON", "DEFAULT") else a


def key(x):
    """What identifies an object: two with the same key define the same thing."""
    k = x[0]
    if k == "store":
        return (k, int(x[1]))
    if k in ("define", "lib", "comp"):
        return (k, x[1])
    if k == "libc":
        return (k, "null", x[2]) if x[1].lower() == "null" else (k, x[1].lower())
    if k.startswith("pcd"):
        return ("pcd", x[1], x[2])
    if k == "bopt":
        return (k, x[1], x[2], x[4], x[5], x[6], x[7])
    if k == "sec":
        return (k, star(x[1]), up(x[2]))
    if k == "bsec":
        return (k, star(x[1]), up(x[2]), up(x[3]))
    if k == "psec":
        return (k, up(x[1]), up(x[2]), x[3].upper(), x[4] and x[4].strip())
    if k == "csec":
        return (k, up(x[1]))
    return x


def equal(a, b):
    if a[0] == b[0] == "sku":
        return a[1] == b[1] or a[2] == b[2]
    return key(a) == key(b)


def attrs(o):
    """The plain data of a model object."""
    return (type(o).__name__, tuple(sorted((k, repr(v)) for k, v in vars(o).items() if k not in ("source_info", "library_classes", "pcds", "defines", "build_options"))))
