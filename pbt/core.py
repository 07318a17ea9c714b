"""Harness: declares generated checks, runs them with Hypothesis, counts, shrinks and replays."""
import ast
import contextlib
import hashlib
import io
import logging
import os
import re
import resource
import shutil
import signal
import sqlite3
import struct
import sys
import tempfile
import time
import traceback
import warnings
import zipfile
import zlib
from collections import Counter

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st  # noqa: F401
from hypothesis.errors import Flaky, HypothesisException, StopTest, UnsatisfiedAssumption

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
CUT_DIR = os.path.join(REPO, "edk2toollib") + os.sep


# what a case body runs into when the code under test left something else than it should have (a value of another
# shape, a file that is not there or does not parse); running out of memory or disk is not among them
SHAPE_ERRORS = (TypeError, AttributeError, LookupError, ValueError, StopIteration, struct.error, ArithmeticError,
                FileNotFoundError, FileExistsError, NotADirectoryError, IsADirectoryError, EOFError, SyntaxError,
                sqlite3.DatabaseError, zipfile.BadZipFile)


class Hang(BaseException):
    """A single case used far more CPU time than it ever does on the unchanged tree."""


class Rejected(Exception):
    """Raised by rejects() helpers when the code accepted what it must refuse."""


def fail(msg):
    raise AssertionError(msg)


def expect(cond, msg="expectation failed"):
    if not cond:
        raise AssertionError(msg() if callable(msg) else msg)


def same(got, want, what=""):
    if got != want:
        raise AssertionError(f"{what}: got {got!r}, expected {want!r}")


def rejects(fn, *a, exc=Exception, what="input", **k):
    """fn must raise one of exc; anything returned is a violation."""
    try:
        r = fn(*a, **k)
    except exc:
        return None
    raise AssertionError(f"{what} was accepted, result {r!r}")


# Names of the folder everything happens in: nothing may depend on where a workspace or file lies.
PLAIN = ["", "", "", "ws", "Build", "Pkg", "PkgA", "a.inf", "B.dec", "Conf", "caf\u00e9", "a.b", "src", "Build/Build", "Pkg/Pkg"]
WILD = PLAIN + ["my dir", "Program Files (x86)", "[ab]", "x*", "$(X)", "a#b", "-x", "%s {0}", "!x", "it's"]


class Ctx:
    """Given to every check body, one per case."""

    def __init__(self, scratch, case=None):
        self._scratch = scratch
        self._pick = zlib.crc32(re.sub(r"0x[0-9a-f]+", "", repr(case)).encode("utf-8", "replace"))
        self._folder = ""
        self.is_nontrivial = False
        self.labels = []
        self._dirs = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.extend(names)

    def tmp(self, wild=False):
        """A new folder; wild: also with a name that would not do in a command or an EDK2 file."""
        names = WILD if wild else PLAIN
        self._folder = names[self._pick % len(names)]
        d = tempfile.mkdtemp(dir=self._scratch)
        self._dirs.append(d)
        d = os.path.join(d, self._folder) if self._folder else d
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


class Sub:
    def __init__(self, name, strategy, body, quick, thorough, shards, cpu_limit, budget, level):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.cpu_limit, self.budget = cpu_limit, budget
        self.level = level


class Check:
    def __init__(self, prop, rule, level="exploration", assumptions=()):
        self.prop, self.rule, self.level = prop, rule, level
        self.assumptions = list(assumptions)
        self.subs = {}
        self.known = []  # list of (finding id, description, probe)

    def sub(self, name, strategy, quick=300, thorough=20000, shards=1, cpu_limit=20, budget=(75, 900), level=None):
        def deco(body):
            assert name not in self.subs
            self.subs[name] = Sub(name, strategy, body, quick, thorough, shards, cpu_limit, budget, level)
            return body

        return deco

    def finding(self, fid):
        """Register the probe of a finding listed in known_findings.txt: it returns a message while the defect is there, else None."""

        def deco(probe):
            self.known.append((fid, probe))
            return probe

        return deco


def in_cut(tb):
    """Does the traceback pass through the code under test?"""
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(CUT_DIR):
            return True
        tb = tb.tb_next
    return False


@contextlib.contextmanager
def quiet():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield


def _alarm(signum, frame):
    raise Hang()


def run_case(sub, case, scratch):
    """Runs one case. Returns (ctx, None) or (ctx, (kind, message)). Hypothesis control flow passes through."""
    ctx = Ctx(scratch, case)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu_limit)
    try:
        with quiet():
            sub.body(case, ctx)
        return ctx, None
    except (UnsatisfiedAssumption, StopTest):
        raise
    except HypothesisException:
        raise
    except Hang:
        return ctx, ("hang", f"did not finish within {sub.cpu_limit}s of CPU time")
    except AssertionError as e:
        tb = e.__traceback__
        txt = "".join(traceback.format_exception(type(e), e, tb)[-3:])
        return ctx, ("violation", f"{e}\nin folder {ctx._folder!r}\n{txt}")
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa: B036
        tb = e.__traceback__
        txt = "".join(traceback.format_exception(type(e), e, tb)[-5:])
        if in_cut(tb):
            return ctx, ("violation", f"unexpected {type(e).__name__}: {e}\nin folder {ctx._folder!r}\n{txt}")
        if isinstance(e, SHAPE_ERRORS):
            # the body tripped over what the code returned (None, a wrong type, a missing entry ...)
            return ctx, ("violation", f"result has an unexpected shape, {type(e).__name__}: {e}\n{txt}")
        return ctx, ("error", f"harness error {type(e).__name__}: {e}\n{txt}")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        ctx.close()
        logging.disable(logging.NOTSET)


class _CaseFailed(Exception):
    pass


class _Stop(BaseException):
    pass


def literal(case):
    r = repr(case)
    try:
        if ast.literal_eval(r) == case:
            return r
    except Exception:
        pass
    return None


def run_sub(check, sub, tier, seed, shard, scratch):
    """Runs one sub-check shard; returns a JSON-able result."""
    warnings.simplefilter("ignore")
    soft = 8 << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    n = sub.quick if tier == "quick" else sub.thorough
    budget = sub.budget[0] if tier == "quick" else sub.budget[1]
    s = zlib.crc32(f"{seed}/{check.prop}/{sub.name}/{shard}".encode())
    t0 = time.monotonic()
    st_ = {"evals": 0, "skipped": 0, "fail": None, "hashes": set(), "labels": Counter(), "samples": [], "failing": False}

    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = 40
    eng.MAX_SHRINKS = 400

    @hypothesis.seed(s)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
    )
    @given(sub.strategy)
    def test(case):
        if not st_["failing"] and time.monotonic() - t0 > budget:
            st_["skipped"] += 1
            return
        ctx, res = run_case(sub, case, scratch)
        if not st_["failing"]:
            st_["evals"] += 1
            for lab in ctx.labels:
                st_["labels"][lab] += 1
            if ctx.is_nontrivial:
                h = hashlib.blake2b(repr(case).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
                if h not in st_["hashes"]:
                    st_["hashes"].add(h)
                    k = len(st_["hashes"])
                    if k in (1, 7, 41) or (k & (k - 1) == 0 and k > 64 and len(st_["samples"]) < 6):
                        st_["samples"].append(repr(case)[:1500])
        if res is not None:
            st_["failing"] = True
            st_["fail"] = {"kind": res[0], "message": res[1], "case": literal(case), "repr": repr(case)[:20000]}
            if res[0] != "violation":
                raise _Stop()
            raise _CaseFailed(res[1][:300])

    err = None
    try:
        test()
    except (_CaseFailed, _Stop):
        pass
    except Flaky:
        case = ast.literal_eval(st_["fail"]["case"]) if st_["fail"] and st_["fail"]["case"] else None
        again = 0
        if case is not None:
            for _ in range(5):
                _, res = run_case(sub, case, scratch)
                again += res is not None
        if not again:
            err = "flaky: a failing case did not fail again: " + str(st_["fail"])
            st_["fail"] = None
    except BaseException as e:  # noqa: B036
        err = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
    f = st_["fail"]
    if f and f["kind"] == "error":
        err, f = f["message"] + "\ncase: " + f["repr"][:2000], None
    return {
        "sub": sub.name,
        "shard": shard,
        "evals": st_["evals"],
        "skipped": st_["skipped"],
        "hashes": sorted(st_["hashes"]),
        "labels": dict(st_["labels"]),
        "samples": st_["samples"],
        "fail": f,
        "error": err,
        "wall": time.monotonic() - t0,
    }
