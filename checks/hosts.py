"""A stand-in for the machine the library believes it runs on, set below any of the library's own names."""
import platform
from collections import namedtuple
from unittest import mock

Uname = namedtuple("Uname", "system node release version machine processor")
MACHINE = {("x86", "64"): "AMD64", ("x86", "32"): "x86_32", ("ARM", "64"): "ARM64", ("ARM", "32"): "ARM32"}


def host(system, arch="x86", bit="64"):
    u = Uname(system, "node", "10", "10.0", MACHINE[arch, bit], "")
    return mock.patch.object(platform, "uname", lambda: u)
