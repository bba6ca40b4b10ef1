import json
import os

from hypothesis import strategies as st

from vk import gen, otf2gen, projgen
from vk.core import Sub, isnull, note, require, scratch, sut
from vk.props import c15, c19
from vk.util import same_base, snapshot, val

ASSUMPTIONS = [
    "attributes are mappings of texts, whole numbers of 64 bits, floating-point numbers, truth values, lists and such mappings, or missing",
    "whole microseconds means the time rounded down; before zero and beyond 10^15 ns the neighbouring microsecond is accepted",
    "a record of a trace that has attributes may leave them out or show null where an event has none",
]
LEAF = st.one_of(st.integers(-100, 10**6), gen.FNAMES, st.booleans(), st.sampled_from([0.5, -2.25, 1e300, 1 / 3, 0.1234567890123456, -1e-12, 123456.7890625, 2**40, 2**63 - 1, -2**63, ""]), st.none())
VALUE = st.one_of(LEAF, LEAF, st.lists(LEAF, max_size=3), st.dictionaries(gen.FNAMES, LEAF, max_size=2))


@st.composite
def chrome_case(draw, lost=True, file=st.sampled_from([None, None, "trace.json", "out"]), **kw):
    case = draw(gen.table(metrics=None, lost=lost, **kw, loops=False, sizes=(6, 6, 14, 14, 30, 0)))
    if draw(st.integers(0, 2)):
        at = draw(st.lists(st.one_of(st.none(), st.dictionaries(gen.FNAMES, VALUE, max_size=3)), min_size=1, max_size=4))
        case["attrs"] = [at[i % len(at)] for i in range(len(case["rows"]))]
    case["file"] = draw(file)
    case["before"] = draw(st.sampled_from(["none", "none", "exc", "cct"]))
    return case


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    b = val(b)
    if isinstance(b, float) and not isinstance(a, bool) and isinstance(a, (int, float)):
        return abs(a - b) <= 1e-9 * max(1, abs(b))
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def compare(recs, df):
    require(isinstance(recs, list), "the export is no list of records")
    require(len(recs) == len(df), "%d records for %d events", len(recs), len(df))
    th = df["Thread"].tolist() if "Thread" in df.columns else None
    at = df["Attributes"].tolist() if "Attributes" in df.columns else None
    ph = {"Enter": "B", "Leave": "E", "Instant": "i"}
    for i, (r, t, et, nm, p) in enumerate(zip(recs, df["Timestamp (ns)"].tolist(), df["Event Type"].tolist(), df["Name"].tolist(), df["Process"].tolist())):
        require(isinstance(r, dict) and {"name", "ph", "ts", "pid"} <= set(r), "record %d is %r", i, r)
        require(r["name"] == nm, "record %d is named %r, the event %r", i, r["name"], nm)
        require(r["ph"] == ph[et], "record %d has phase %r, the event is %s", i, r["ph"], et)
        require(isinstance(r["ts"], int) and (r["ts"] == t // 1000 or not 0 <= t <= 1e15 and abs(r["ts"] - t // 1000) <= 1), "record %d has time %r us, the event %r ns", i, r["ts"], t)
        require(type(r["pid"]) in (int, float) and r["pid"] == p, "record %d has process %r, the event %r", i, r["pid"], p)
        if th is None:
            require("tid" not in r, "record %d has thread %r in a trace without threads", i, r.get("tid"))
        elif isnull(th[i]):
            require("tid" in r and r["tid"] is None, "record %d has thread %r, the event has none", i, r.get("tid"))
        else:
            require(type(r.get("tid")) in (int, float) and r["tid"] == th[i], "record %d has thread %r, the event %r", i, r.get("tid"), th[i])
        if at is None:
            require("args" not in r, "record %d has attributes %r in a trace without any", i, r.get("args"))
        elif isinstance(at[i], dict):
            require(same(r.get("args"), at[i]), "record %d has attributes %r, the event %r", i, r.get("args"), at[i])
        else:
            require(r.get("args") is None, "record %d has attributes %r, the event none", i, r.get("args"))


def strict(text):
    def bad(x):
        raise ValueError("%s is no JSON" % x)

    return json.loads(text, parse_constant=bad)


def export(tr, case):
    before = snapshot(tr.events)
    with scratch() as d:
        with sut("exporting to Chrome format"):
            if case["file"] is None:
                text = tr.to_chrome()
                require(os.listdir(d) == [] and isinstance(text, str), "without a file name the text is returned")
            else:
                p = os.path.join(d, case["file"])
                tr.to_chrome(p)
                require(os.path.exists(p), "no file %r was written", case["file"])
                text = open(p, encoding="utf-8").read()
    with sut("parsing the export"):
        recs = strict(text)
    same_base(before, tr.events, "exporting")
    require(set(tr.events.columns) == set(before[0]), "exporting added columns")
    compare(recs, tr.events)


def check(case):
    gen.labels(case, note)
    tr = gen.build(case)
    if case["before"] == "exc" and case["rows"]:
        tr.calc_exc_metrics(["Timestamp (ns)"])
    elif case["before"] == "cct" and case["rows"]:
        tr.create_cct()
    export(tr, case)
    note("attributes" if "attrs" in case else "no-attributes")
    note("file" if case["file"] else "text")


@st.composite
def read_case(draw):
    kind = draw(st.sampled_from(["otf2", "projections"]))
    src = draw(otf2gen.archive(sizes=(4, 10)) if kind == "otf2" else projgen.directory(sizes=(4, 12)))
    return {"kind": kind, "src": src, "file": draw(st.sampled_from([None, "t.json"]))}


def check_read(case):
    with scratch() as d:
        p = os.path.join(d, "a")
        if case["kind"] == "otf2":
            if not otf2gen.write(case["src"], p).rows:
                return
            tr = c15.read(case["src"], p, num_processes=1)
        else:
            projgen.write(case["src"], p)
            tr = c19.read(p, num_processes=1)
    export(tr, case)
    note("read:" + case["kind"])


SUBS = [
    Sub("export", chrome_case(), check, 3600, nontrivial=lambda c: "attrs" in c and len(c["rows"]) > 4,
        rule="random tables with attributes; non-trivial: more than four events and attributes"),
    Sub("read", read_case(), check_read, 500, rule="traces read from OTF2 and Projections"),
    gen.multiplied(chrome_case(lost="often", threads=True, file=st.sampled_from(["big.json", "big.json", "b", None])), check, lambda c: "attrs" in c and len(c["rows"]) > 4, "rows", (5000, 40000, 40000), 24),
    gen.multiplied(chrome_case(), check, lambda c: "attrs" in c and len(c["rows"]) > 4, "procs", (43, 300), 16),
]
