from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, close, note, require, sut
from vk.model import M
from vk.props.c04 import with_columns
from vk.util import column, expect_column, same_base, snapshot

ASSUMPTIONS = ["event tables are in time order per location and indexed 0..n-1, as every reader produces them"]


def exc_name(col):
    return ("time" if col == "Timestamp (ns)" else col) + ".exc"


def check(case):
    gen.labels(case, note)
    with sut("exclusive metrics"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        if case["how"] == "stepwise":
            for c in case["columns"]:
                tr.calc_exc_metrics([c])
            tr.calc_exc_metrics(case["columns"])
        else:
            tr.calc_exc_metrics(case["columns"])
    same_base(before, tr.events, "computing exclusive metrics")
    m = M(case)
    cols = case["columns"] or ["Timestamp (ns)"] + sorted(case.get("cols", {}))
    for c in cols:
        expect_column(tr.events, exc_name(c), m.exc(c), "exclusive")
        expect_column(tr.events, ("time" if c == "Timestamp (ns)" else c) + ".inc", m.inc(c), "inclusive alongside exclusive")


def check_slices(case):
    """Independent oracle for nested traces: time slices of the innermost open call."""
    gen.labels(case, note)
    with sut("exclusive metrics"):
        tr = gen.build(case)
        tr.calc_exc_metrics(["Timestamp (ns)"])
    m = M(case)
    want = {e: 0 for e in m.calls}
    got = column(tr.events, "time.exc")
    inc = column(tr.events, "time.inc")
    for loc, segs in m.innermost().items():
        for a, b, e in segs:
            want[e] += b - a
    covered, exc_sum = {}, {}
    for e in m.calls:
        require(got[e] is not None and close(got[e], want[e]), "call at row %d %r: exclusive time %r, innermost for %r",
                e, case["rows"][e], got[e], want[e])
        require(got[e] >= 0, "negative exclusive time %r at row %d of a nested trace", got[e], e)
        l = case["rows"][e][3]
        exc_sum[l] = exc_sum.get(l, 0) + got[e]
        if m.parent[e] is None:
            covered[l] = covered.get(l, 0) + inc[e]
    for l in exc_sum:
        require(close(exc_sum[l], covered[l]), "location %r: exclusive times sum to %r, outermost calls to %r",
                case["locs"][l], exc_sum[l], covered[l])


def nontrivial(case):
    m = M(case)
    return any(len(c) >= 1 for c in m.children.values())


SUBS = [
    Sub("exc", with_columns(), check, 2800, nontrivial=nontrivial,
        rule="random tables with 0-2 extra numeric columns; non-trivial: some call has a callee"),
    Sub("slices", gen.table(mode="nested", metrics=0), check_slices, 1600, nontrivial=nontrivial,
        rule="properly nested tables against time slices of the innermost open call; same rule"),
    Sub("long", with_columns(sizes=(60, 100), reps=(4, 10)), check, 160, nontrivial=nontrivial, rule="long tables; same rule"),
    Sub("units", gen.rescaled(with_columns(epoch=False)), check, 500, nontrivial=nontrivial, rule="times in other units; same rule"),
    Sub("units-nested", gen.rescaled(gen.table(mode="nested", metrics=0, epoch=False)), check_slices, 300, nontrivial=nontrivial,
        rule="nested tables in other units of time; same rule"),
    gen.multiplied(with_columns(mode="nested", close=True, sizes=(6, 14, 30), reps=(1,), epoch=False), check, nontrivial, "rows", (33000, 66000), 8),
]
