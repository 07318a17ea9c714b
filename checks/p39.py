"""P39: names of TPM and UEFI codes."""
from checks.tpmcodes import COMMANDS, FORMAT0, FORMAT1, WARNINGS
from edk2toollib.tpm import tpm2_simulator
from edk2toollib.tpm.tpm2_defs import CommandCode, ResponseCode
from edk2toollib.uefi.status_codes import UefiStatusCode
from pbt import Check, st
from pbt.core import expect, rejects, same

META = dict(
    title="TPM and UEFI code numbers and names agree with their specifications",
    statement="Every TPM 2.0 command code and its name map to each other and nothing else does; every TPM response code is classified as the specification's bit fields say, with the number and name of what it concerns; and every 32-bit or 64-bit UEFI status, as a number or as hexadecimal text, gives the name of that error or warning, or says that it is undefined. Every command of the TPM simulator protocol has its number.",
    over=["inputs"],
    text="every command code, response code and status value",
    why="The tests look up a handful of codes; the bit fields of response codes are not exercised at all.",
    files=["edk2toollib/tpm/tpm2_defs.py", "edk2toollib/uefi/status_codes.py", "edk2toollib/tpm/tpm2_simulator.py"],
    mechanism=[("TPM codes", "CommandCode.get_code / get_string, ResponseCode.parse_code / get_simple_string"), ("UEFI status", "UefiStatusCode.Convert32BitToString / Convert64BitToString / ConvertHexString32ToString / ConvertHexString64ToString")],
    technique="property-based testing against tables transcribed from the specifications; the response codes are enumerated in the thorough tier",
    note="response codes that the tables do not assign may be refused or left without a name",
)
CHECK = Check("P39", "the code is one the specification assigns")

ERRORS = "NOT VALID|Load Error|Invalid Parameter|Unsupported|Bad BufferSize|Buffer Too Small|Not Ready|Device Error|Write Protected|Out of Resources|Volume Corrupt|Volume Full|No Media|Media Changed|Not Found|Access Denied|No Response|No Mapping|Time Out|Not Started|Already Started|Aborted|ICMP Error|TFTP Error|Protocol Error|Incompatible Error|Security Violation|CRC Error|End of Media|Reserved(29)|Reserved(30)|End of File|Invalid Language|Compromised Data|IP Address Conflict|HTTP Error".split("|")
OTHERS = "Success|Unknown Glyph|Delete Failure|Write Failure|Buffer Too Small|Stale Data|File System|Reset Required".split("|")
NAMES = {v: k for k, v in COMMANDS.items()}
code = st.one_of(st.sampled_from(sorted(NAMES)), st.integers(0x100, 0x1A0), st.integers(-5, 0xFFFFFFFF))
name = st.one_of(st.sampled_from(sorted(COMMANDS)), st.sampled_from(["", "Clear", "tpm_cc_clear", "TPM_CC_FIRST", "TPM_CC_LAST", "TPM_CC_Size", "TPM_RC_FAILURE", None]), st.text(max_size=5))
rc = st.one_of(st.integers(0, 0xFFF), st.sampled_from(sorted(FORMAT0)).map(lambda c: 0x100 | c), st.sampled_from(sorted(WARNINGS)).map(lambda c: 0x900 | c), st.tuples(st.sampled_from(sorted(FORMAT1)), st.integers(0, 7)).map(lambda t: 0x80 | t[0] | t[1] << 8))


@CHECK.sub("commands", st.tuples(code, name), quick=1500, thorough=50000)
def commands(case, ctx):
    c, n = case
    same(CommandCode.get_string(c), NAMES.get(c), f"name of {c:#x}")
    same(CommandCode.get_code(n), COMMANDS.get(n), f"code of {n!r}")
    ctx.nontrivial(c in NAMES or n in COMMANDS)
    ctx.label("command" if c in NAMES else "other number")


@CHECK.sub("responses", rc, quick=3000, thorough=60000)
def responses(c, ctx):
    known, kind = response(c)
    ctx.nontrivial(known)
    ctx.label(kind)


@CHECK.sub("all responses", st.integers(0, 15), quick=64, thorough=64)
def all_responses(block, ctx):
    ctx.nontrivial(sum(response(c)[0] for c in range(block << 8, (block + 1) << 8)) > 20)


def response(c):
    """Checks one response code; returns whether it is assigned and of which kind it is."""
    simple = FORMAT0.get(c & 0x7F) if c & ~0x7F == 0x100 else None
    same(ResponseCode.get_simple_string(c), simple, f"simple name of {c:#x}")
    low = c & 0x7F
    known = True
    if c == 0:
        want = ("Success", "None", 0, "TPM_RC_SUCCESS", "NA")
    elif c & 0x180 == 0:
        want = ("Tpm1.2 Response", "None", 0, 0, "NA")
    elif c & 0x80 == 0 and c & 0x400:
        want = ("Vendor Defined Code", "None", 0, 0, "NA")
    elif c & 0x80 == 0 and c & 0x800:
        want, known = ("Warning", "None", 0, WARNINGS.get(low), "NA"), low in WARNINGS
    elif c & 0x80 == 0:
        want, known = ("Error", "None", 0, low, FORMAT0.get(low)), low in FORMAT0
    elif c & 0x40:
        want = ("Error", "Parameter", c >> 8 & 15, c & 0x3F, "NA")
    elif c & 0x800:
        want = ("Error", "Session", c >> 8 & 7, c & 0x3F, "NA")
    else:
        want, known = ("Error", "Handle", c >> 8 & 7, c & 0x3F, FORMAT1.get(c & 0x3F)), c & 0x3F in FORMAT1
    if known:
        same(ResponseCode.parse_code(c), want, f"response {c:#x}")
    else:
        try:
            got = ResponseCode.parse_code(c)
        except Exception:
            got = None
        expect(got is None or not any(isinstance(x, str) and x.startswith("TPM_RC") for x in got), f"unassigned response {c:#x} has a name: {got!r}")
    return known, want[0] + " " + want[1]


SIGNALS = dict(zip("POWER_ON POWER_OFF PHYS_PRES_ON PHYS_PRES_OFF HASH_START HASH_DATA HASH_END".split(), range(1, 8))) | {"CANCEL_ON": 9, "CANCEL_OFF": 10, "NV_ON": 11, "NV_OFF": 12, "KEY_CACHE_ON": 13, "KEY_CACHE_OFF": 14, "RESET": 17}
PLATFORM = {"TPM_SIGNAL_" + k: v for k, v in SIGNALS.items()} | {"TPM_SEND_COMMAND": 8, "TPM_REMOTE_HANDSHAKE": 15, "TPM_SET_ALTERNATIVE_RESULT": 16, "TPM_SESSION_END": 20, "TPM_STOP": 21, "TPM_GET_COMMAND_RESPONSE_SIZES": 25, "TPM_TEST_FAILURE_MODE": 30}


@CHECK.sub("signals", st.sampled_from(sorted(PLATFORM)), quick=60, thorough=60)
def signals(n, ctx):
    """The commands of the simulator protocol (TpmTcpProtocol.h)."""
    same(tpm2_simulator.PLAT_COMMANDS.get(n), PLATFORM[n], f"number of {n}")
    expect(list(tpm2_simulator.PLAT_COMMANDS.values()).count(PLATFORM[n]) == 1, f"number of {n} is used twice")
    ctx.nontrivial()


def spellings(v):
    return ["%x" % v, "0x%x" % v, "0X%X" % v, "%016x" % v, "0x%016X" % v, " 0x%x\n" % v]


@CHECK.sub("status", st.tuples(st.one_of(st.integers(0, 40), st.integers(0, 0x7FFFFFFF), st.integers(0, 2**63 - 1), st.tuples(st.integers(0, 62), st.integers(0, 40)).map(lambda t: 1 << t[0] | t[1]), st.sampled_from([7, 8, 35, 36])), st.integers(0, 5), st.sampled_from(["", "0x", "g", "0x8000000G", "Success", "1 2"])), quick=2000, thorough=60000)
def status(case, ctx):
    n, i, bad = case
    o = UefiStatusCode()
    for bits, num, text in ((32, o.Convert32BitToString, o.ConvertHexString32ToString), (64, o.Convert64BitToString, o.ConvertHexString64ToString)):
        v = n & ((1 << bits - 1) - 1)
        for value, table in ((v, OTHERS), (v | 1 << bits - 1, ERRORS)):
            want = table[v] if v < len(table) else "Undefined StatusCode"
            same(num(value), want, f"{bits}-bit status {value:#x}")
            same(text(spellings(value)[i]), want, f"{bits}-bit status {spellings(value)[i]!r}")
        rejects(text, bad, exc=ValueError, what=f"status {bad!r}")
    ctx.nontrivial(n < len(ERRORS))
    ctx.label("assigned" if n < len(ERRORS) else "undefined")
