import os
import shutil

from hypothesis import strategies as st

from vk import gen, projgen
from vk.core import Sub, fail, note, require, scratch, sut
from vk.props.c19 import compare, read

ASSUMPTIONS = ["a clear error is a ValueError; logs are gzip files named <executable>.<processor>.log.gz"]
SMALL = ["bproc", "eproc", "create", "bidle", "eidle", "uev"]


@st.composite
def dir_case(draw):
    case = draw(projgen.directory(kinds=SMALL, sizes=(0, 2, 6), huge=st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(9, 13))))
    case["num"] = draw(st.sampled_from([None, 1, 2, 3, 5]))
    case["extra"] = draw(st.lists(st.sampled_from(["notes.txt", "x.sum", "run.projrc", "other.0.log.gz", "+next"]), max_size=2, unique=True))
    case["cct"] = draw(st.booleans())
    return case


def extras(case, path):
    for x in case["extra"]:
        nm = "%s.%d.log.gz" % (case["exe"], case["pes"]) if x == "+next" else x
        with open(os.path.join(path, nm), "w") as f:
            f.write("not a log\n")


def check_read(case):
    with scratch() as d:
        path = os.path.join(d, "run")
        exp = projgen.write(case, path)
        extras(case, path)
        kw = {} if case["num"] is None else {"num_processes": case["num"]}
        if case["cct"]:
            kw["create_cct"] = True
        with sut("reading a Projections directory"):
            tr = read(path, **kw)
    compare(tr.events, exp)
    require(not case["cct"] or tr.cct is not None, "no calling context tree although one was asked for")
    note("pes:%d" % case["pes"])


@st.composite
def bad_case(draw):
    case = draw(dir_case())
    case["bad"] = draw(st.sampled_from(["missing", "missing", "missing", "no-sts", "two-sts", "file", "absent", "more"]))
    case["which"] = draw(st.lists(st.integers(0, case["pes"] - 1), min_size=1, max_size=2, unique=True))
    case["more"] = draw(st.integers(1, 3))
    return case


def check_bad(case):
    bad = case["bad"]
    with scratch() as d:
        path = os.path.join(d, "run")
        projgen.write(case, path, skip=case["which"] if bad == "missing" else (), pes=case["pes"] + case["more"] if bad == "more" else None)
        if bad != "more":
            extras(case, path)
        if bad == "no-sts":
            os.remove(os.path.join(path, case["exe"] + ".sts"))
        elif bad == "two-sts":
            shutil.copy(os.path.join(path, case["exe"] + ".sts"), os.path.join(path, "second.sts"))
        elif bad == "file":
            shutil.rmtree(path)
            open(path, "w").close()
        elif bad == "absent":
            shutil.rmtree(path)
        if bad == "missing" and any("%s.%d.log.gz" % (case["exe"], w) in os.listdir(path) for w in case["which"]):
            return
        kw = {} if case["num"] is None else {"num_processes": case["num"]}
        note("bad:" + bad)
        try:
            tr = read(path, **kw)
        except ValueError:
            return
        except Exception as e:  # noqa: BLE001
            fail("a Projections path with %s (%r) fails with %s: %s instead of being rejected" % (bad, case["which"], type(e).__name__, e))
        fail("a Projections path with %s (%r of %d logs) is read: %s" % (bad, case["which"], case["pes"], type(tr).__name__))


SUBS = [
    Sub("read", dir_case(), check_read, 700, nontrivial=lambda c: c["pes"] > 2,
        rule="complete directories with up to 13 logs; non-trivial: more than two processors"),
    Sub("reject", bad_case(), check_bad, 1400, nontrivial=lambda c: c["pes"] > 1,
        rule="directories with a missing log, no, several or too large a symbol file, or no directory; non-trivial: several processors"),
    gen.grown("reject-crowd", bad_case(), projgen.crowded, check_bad, lambda c: c["pes"] > 1, (5, 20), 80, "directories of up to a hundred logs, with a mistake"),
    gen.grown("crowd", dir_case(), projgen.crowded, check_read, lambda c: c["pes"] > 2, (20, 70), 24, "directories of up to several hundred logs"),
]
