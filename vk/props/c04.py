from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, note, require, sut
from vk.model import M
from vk.util import expect_column, same_base, snapshot

ASSUMPTIONS = ["event tables are in time order per location and indexed 0..n-1, as every reader produces them"]


def metric_name(col):
    return ("time" if col == "Timestamp (ns)" else col) + ".inc"


@st.composite
def with_columns(draw, **kw):
    case = draw(gen.table(**kw))
    all_cols = ["Timestamp (ns)"] + sorted(case.get("cols", {}))
    how = draw(st.sampled_from(["all", "some", "stepwise"]))
    case["how"] = how
    case["columns"] = None if how == "all" else draw(st.permutations(all_cols))[: draw(st.integers(1, len(all_cols)))]
    for k, col in case.get("cols", {}).items():
        # columns of other widths, where they hold the values exactly
        if draw(st.integers(0, 20)) % 3 == 1 and col and all(v is not None and abs(v) < 2**22 for v in col):
            whole = all(isinstance(v, int) for v in col)
            case.setdefault("types", {})[k] = ("int32", "float32", "Int64")[draw(st.integers(0, 20)) % 3] if whole else "float32"
    return case


def check(case):
    gen.labels(case, note)
    with sut("inclusive metrics"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        if case["how"] == "stepwise":
            for c in case["columns"]:
                tr.calc_inc_metrics([c])
            tr.calc_inc_metrics(case["columns"])
        else:
            tr.calc_inc_metrics(case["columns"])
    same_base(before, tr.events, "computing inclusive metrics")
    m = M(case)
    cols = case["columns"] or ["Timestamp (ns)"] + sorted(case.get("cols", {}))
    for c in cols:
        expect_column(tr.events, metric_name(c), m.inc(c), "inclusive")
    note("metrics:%d" % len(case.get("cols", {})))


def nontrivial(case):
    return len(M(case).calls) >= 2


SUBS = [
    Sub("inc", with_columns(), check, 3600, nontrivial=nontrivial,
        rule="random tables with 0-2 extra numeric columns (also decreasing, negative, missing values); non-trivial: at least two completed calls"),
    Sub("long", with_columns(sizes=(60, 100), reps=(4, 10)), check, 160, nontrivial=nontrivial, rule="long tables; same rule"),
    gen.multiplied(with_columns(mode="nested", close=True, sizes=(6, 14, 30), reps=(1,), epoch=False), check, nontrivial, "rows", (33000, 66000), 8),
]
