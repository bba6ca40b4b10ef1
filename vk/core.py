"""Framework: generated-input checks with shrinking, sharding, replay and evidence.

A property module defines SUBS, a list of Sub(...).  Each Sub couples a Hypothesis
strategy producing a plain JSON-able case with an oracle `check(case)` that raises
Violation (through the helpers below) when the code under test breaks the property.
"""
import sys

REPO = "/repo"
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)  # hypothesis lives here; appended so it shadows nothing

import collections
import contextlib
import hashlib
import json
import math
import os
import shutil
import signal
import tempfile
import time
import traceback
import warnings

warnings.filterwarnings("ignore")

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings  # noqa: E402
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The machinery itself cannot do its job."""


class CaseTimeout(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, nontrivial=None, rule="", workers=None,
                 warm=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.nontrivial = nontrivial or (lambda case: True)
        self.rule = rule
        self.warm = warm  # run once per worker, outside the cases
        self.workers = workers  # how many workers run this sub (default: all)


# ---------------------------------------------------------------- helpers
LABELS = collections.Counter()


def note(label, n=1):
    LABELS[label] += n


def fail(msg):
    raise Violation(msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def sut(what):
    """Run code under test on valid input: an exception is a violation.

    It has the stack that a user's script has: Hypothesis raises the recursion limit.
    """
    limit, frame, depth = sys.getrecursionlimit(), sys._getframe(), 0
    while frame is not None:
        frame, depth = frame.f_back, depth + 1
    try:
        sys.setrecursionlimit(depth + 990)
        yield
    except (Violation, HarnessError):
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        loc = ""
        for fr in reversed(tb):
            if fr.filename.startswith(REPO):
                loc = " at %s:%s" % (os.path.relpath(fr.filename, REPO), fr.name)
                break
        raise Violation("%s raised %s: %s%s" % (what, type(e).__name__, str(e)[:300], loc)) from e
    finally:
        sys.setrecursionlimit(limit)


@contextlib.contextmanager
def scratch():
    base = os.environ.get("VK_SCRATCH") or None
    d = tempfile.mkdtemp(prefix="vk_", dir=base)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def isnull(x):
    if x is None:
        return True
    try:
        import pandas as pd

        r = pd.isna(x)
        return bool(r) if isinstance(r, bool) or getattr(r, "shape", None) == () else False
    except (TypeError, ValueError):
        return False


def close(a, b, rel=1e-9, abs_=1e-9):
    """Numeric closeness; null equals null."""
    if isnull(a) or isnull(b):
        return isnull(a) and isnull(b)
    a = float(a)
    b = float(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), ensure_ascii=True)


def chash(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- running
CASE_TIMEOUT = 90


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """Evaluate one case.  Violation for a broken property, HarnessError for ours."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        sub.check(case)
    except (Violation, HarnessError):
        raise
    except (OSError, MemoryError) as e:
        raise HarnessError("environment: %r\n%s" % (e, traceback.format_exc())) from e
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as e:  # the output does not even have the promised shape
        raise Violation(
            "result does not have the promised form (%s: %s)\n%s"
            % (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
        ) from e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def derive(seed, name, shard):
    h = hashlib.sha256(("%s|%s|%s" % (seed, name, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_sub(sub, n, seed, shard, deadline, shrink_s=45):
    """Returns dict(evaluations, hashes, samples, violation|None, error|None)."""
    st = dict(
        evaluations=0, hashes=set(), samples=[], violation=None, error=None,
        truncated=0, first=None,
    )
    if n <= 0:
        return st
    last = {}
    _engine.MAX_SHRINKING_SECONDS = shrink_s
    skip = [n < 100 and shard > 0]  # the first case of every search is the simplest one: once is enough

    def body(case):
        if skip[0]:
            skip[0] = False
            return
        if time.time() > deadline and "first" not in last:
            st["truncated"] += 1
            return
        searching = "first" not in last
        if searching:
            st["evaluations"] += 1
            if sub.nontrivial(case):
                h = chash(case)
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    if len(st["samples"]) < 2:
                        st["samples"].append(case)
        try:
            run_case(sub, case)
        except Violation as e:
            cc = json.loads(canon(case))
            if searching:
                last["first"] = (cc, str(e))
            last["min"] = (cc, str(e))
            raise
        except CaseTimeout:
            last["timeout"] = (json.loads(canon(case)), "did not finish within %d s" % CASE_TIMEOUT)
            raise

    f = given(sub.strategy)(body)
    f = settings(
        max_examples=n + skip[0], database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink], print_blob=False,
        backend="hypothesis",
    )(f)
    f = hseed(derive(seed, sub.name, shard))(f)
    try:
        f()
    except Violation:
        pass
    except CaseTimeout:
        pass
    except HarnessError as e:
        st["error"] = str(e)
    except BaseException as e:  # noqa: BLE001
        if "min" not in last:
            st["error"] = traceback.format_exc()
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
    if "timeout" in last and "min" not in last:
        st["violation"] = last["timeout"]
    elif "min" in last:
        # the minimal case must fail by itself, outside the library
        for cand in (last["min"], last["first"]):
            got = None
            for _ in range(2):
                try:
                    run_case(sub, cand[0])
                except Violation as e:
                    got = (cand[0], str(e))
                    break
                except CaseTimeout:
                    got = (cand[0], "did not finish")
                    break
                except HarnessError as e:
                    st["error"] = str(e)
                    break
            if got:
                st["violation"] = got
                break
        if st["violation"] is None and st["error"] is None:
            # it failed during the search: report the case as seen there
            st["violation"] = (last["first"][0], last["first"][1] + " (not failing on every replay)")
    return st
