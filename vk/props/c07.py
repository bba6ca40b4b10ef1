from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, close, note, require, sut
from vk.model import M
from vk.props.c06 import metric_values
from vk.util import same_base, snapshot, val


@st.composite
def imb_case(draw, **kw):
    case = draw(gen.table(max_procs=5, min_procs=draw(st.sampled_from([1, 2, 2, 3])), **kw))
    cols = ["time"] + sorted(case.get("cols", {}))
    case["metric"] = draw(st.sampled_from([c + k for c in cols for k in (".inc", ".exc")]))
    case["k"] = draw(st.integers(1, 7))
    case["default"] = draw(st.integers(0, 5)) == 0
    return case


def check(case):
    gen.labels(case, note)
    m = M(case)
    metric = "time.exc" if case["default"] else case["metric"]
    k = 1 if case["default"] else case["k"]
    with sut("load imbalance"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        if not metric.startswith("time."):
            tr.calc_exc_metrics([metric[:-4]])
        df = tr.load_imbalance() if case["default"] else tr.load_imbalance(metric=metric, num_processes=k)
    same_base(before, tr.events, "load imbalance")
    sums = m.group(metric_values(m, metric), lambda e: (m.name(e), m.proc(e)))
    by = {}
    for (n, p), v in sums.items():
        by.setdefault(n, {})[p] = v
    cols = [metric + ".imbalance", "Top processes", metric + ".mean"]
    for c in cols:
        require(c in df.columns, "no column %r", c)
    idx = [val(x) for x in df.index.tolist()]
    require(len(idx) == len(set(idx)), "a function is listed twice: %r", idx)
    require(set(idx) == set(by), "functions listed %r, called %r", sorted(map(str, idx)), sorted(by))
    means = [val(x) for x in df[metric + ".mean"].tolist()]
    imbs = [val(x) for x in df[metric + ".imbalance"].tolist()]
    tops = df["Top processes"].tolist()
    for n, mean, imb, top in zip(idx, means, imbs, tops):
        vs = by[n]
        wm = sum(vs.values()) / len(vs)
        require(mean is not None and close(mean, wm, abs_=1e-6), "mean of %r is %r, expected %r", n, mean, wm)
        if abs(wm) > 1e-9:
            require(imb is not None and close(imb, max(vs.values()) / wm, rel=1e-6), "imbalance of %r is %r, expected %r",
                    n, imb, max(vs.values()) / wm)
        top = [val(x) for x in top]
        want_len = min(k, len(vs))
        require(len(top) == want_len and len(set(top)) == want_len, "top processes of %r are %r, expected %d of them",
                n, top, want_len)
        require(all(p in vs for p in top), "top processes of %r are %r but only %r called it", n, top, sorted(vs))
        got = [vs[p] for p in top]
        want = sorted(vs.values(), reverse=True)[:want_len]
        require(got == want, "top processes of %r have totals %r, expected %r", n, got, want)
        if len(vs) > 1:
            note("several-callers")
    for a, b in zip(means, means[1:]):
        require(a >= b or close(a, b), "functions are not in descending order of the mean: %r", means)


def nontrivial(case):
    m = M(case)
    by = {}
    for e in m.calls:
        by.setdefault(m.name(e), set()).add(m.proc(e))
    return len(by) >= 2 and any(len(v) > 1 for v in by.values())


SUBS = [
    Sub("imbalance", imb_case(), check, 2800, nontrivial=nontrivial,
        rule="random tables on up to five processes, any metric and display count; non-trivial: two functions, one of them called by several processes"),
    gen.multiplied(imb_case(), check, nontrivial, "procs", (43, 130, 300), 24),
]
