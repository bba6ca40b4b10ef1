from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, close, note, require, sut
from vk.model import M
from vk.props.c06 import metric_values
from vk.util import same_base, snapshot, val

ASSUMPTIONS = ["columns of groups that no trace called may appear without values, as pandas categories do"]


@st.composite
def runs_case(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.lists(gen.FNAMES, min_size=1, max_size=6, unique=True))
    cols = draw(st.integers(0, 1))
    thread = draw(st.booleans())
    traces = []
    for _ in range(n):
        sub = draw(st.lists(st.sampled_from(names), min_size=1, max_size=6, unique=True))
        traces.append(draw(gen.table(names=sub, metrics=cols, threads=thread, max_procs=4,
                                     min_procs=draw(st.sampled_from([1, 2, 3])), sizes=(2, 6, 14, 30), reps=(1, 1, 2))))
    case = {"traces": traces}
    case["metric"] = draw(st.sampled_from([None, "Timestamp (ns)"] + (["PAPI_TOT_INS"] if cols else [])))
    case["groupby"] = draw(st.sampled_from([None, None, "Name", "Name", "Process", "Event Type"] + (["Thread"] * 2 if thread and all(l[1] is not None for t in traces for l in t["locs"]) else [])))
    return case


def expected(case, tc):
    m = M(tc)
    metric = "time.exc" if case["metric"] in (None, "Timestamp (ns)") else case["metric"] + ".exc"
    g = case["groupby"] or "Name"
    key = {"Name": m.name, "Process": m.proc, "Event Type": lambda e: "Enter"}.get(g, lambda e: tc["locs"][tc["rows"][e][3]][1])
    sums = m.group(metric_values(m, metric), lambda e: (key(e), m.proc(e)))
    by = {}
    for (k, p), v in sums.items():
        by.setdefault(k, []).append(v)
    return {k: sum(v) / len(v) for k, v in by.items()}, len(m.processes())


def check(case):
    from pipit import Trace

    with sut("multi-run analysis"):
        trs = [gen.build(t) for t in case["traces"]]
        before = [snapshot(t.events) for t in trs]
        kw = {}
        if case["metric"] is not None:
            kw["metric_column"] = case["metric"]
        if case["groupby"] is not None:
            kw["groupby_column"] = case["groupby"]
        df = Trace.multirun_analysis(list(trs), **kw)
    for b, t in zip(before, trs):
        same_base(b, t.events, "multi-run analysis")
    want = [expected(case, t) for t in case["traces"]]
    require(len(df) == len(trs), "%d rows for %d traces", len(df), len(trs))
    idx = [val(x) for x in df.index.tolist()]
    require(idx == [w[1] for w in want], "rows are labelled %r, process counts are %r", idx, [w[1] for w in want])
    cols = [val(c) for c in df.columns.tolist()]
    require(len(cols) == len(set(cols)), "a group has two columns: %r", cols)
    allg = {k for w, _ in want for k in w}
    for k in allg:
        require(k in cols, "group %r is missing", k)
    sums = []
    vals = df.values.tolist()
    for j, c in enumerate(cols):
        tot = 0
        for i, (w, _) in enumerate(want):
            g = val(vals[i][j])
            if c in w:
                require(g is not None and close(g, w[c], abs_=1e-6), "run %d, group %r: %r, expected %r", i, c, g, w[c])
                tot += w[c]
            else:
                require(g is None, "run %d never called %r but has value %r", i, c, g)
        if c in allg:
            sums.append(tot)
    for a, b in zip(sums, sums[1:]):
        require(a >= b or close(a, b, abs_=1e-5), "columns are not in descending order of their totals: %r", sums)
    note("runs:%d" % len(trs))
    if len(set(idx)) < len(idx):
        note("equal-process-counts")
    if any(set(w) != allg for w, _ in want):
        note("missing-groups")


def crowded(case, k):
    own = [dict(of=t, how="procs", n=max(1, k * (i + 1) // 2), gap=0) for i, t in enumerate(case["traces"])]
    return dict(case, traces=[gen.expand(c) for c in own])


def nontrivial(case):
    ws = [expected(case, t) for t in case["traces"]]
    return len(ws) > 1 and any(set(w) != set(ws[0][0]) for w, _ in ws)


SUBS = [
    Sub("runs", runs_case(), check, 1400, nontrivial=nontrivial,
        rule="lists of 1-4 random traces over overlapping function sets; non-trivial: several runs with different functions"),
    gen.grown("crowd", runs_case(), crowded, check, nontrivial, (20, 60), 16, "traces of hundreds of processes and functions"),
]
