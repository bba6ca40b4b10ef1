from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, close, fail, note, require, sut
from vk.model import M
from vk.util import same_base, snapshot, val

ASSUMPTIONS = [
    "grouping columns are columns of the event table in which no event lacks a value",
    "groups that no process ever called may appear as rows without values (all-missing), as pandas categories do",
]


def metric_values(m, metric):
    kind = metric[-3:]
    col = metric[:-4]
    col = "Timestamp (ns)" if col == "time" else col
    return m.inc(col) if kind == "inc" else m.exc(col)


@st.composite
def profile_case(draw, **kw):
    case = draw(gen.table(min_procs=draw(st.sampled_from([1, 2, 2])), **kw))
    cols = ["time"] + sorted(case.get("cols", {}))
    ms = [c + k for c in cols for k in (".inc", ".exc")]
    case["metrics"] = draw(st.permutations(ms))[: draw(st.integers(1, len(ms)))]
    case["as_list"] = draw(st.booleans()) if len(case["metrics"]) == 1 else True
    if draw(st.booleans()):
        ph = draw(st.lists(st.sampled_from(["init", "solve", "io"]), min_size=1, max_size=4))
        case["extra"] = {"Phase": [ph[(i * i) % len(ph)] for i in range(len(case["rows"]))]}
    groups = ["Name"] + (["Thread"] if case["thread"] and all(l[1] is not None for l in case["locs"]) else []) + (["Phase"] if "extra" in case else []) + ["Process", "Event Type"][: draw(st.sampled_from([0, 0, 1, 1, 2]))]
    g = draw(st.one_of(st.just("Name"), st.sampled_from(groups),
                       st.permutations(groups).flatmap(lambda p: st.integers(1, len(p)).map(lambda k: list(p[:k])))))
    case["groupby"] = g
    case["per_process"] = draw(st.booleans())
    case["default"] = draw(st.integers(0, 4)) == 0
    return case


def expected(case, m, metrics, groups, per_process):
    rows = case["rows"]

    def key(e):
        k = []
        for g in groups:
            if g == "Name":
                k.append(rows[e][2])
            elif g == "Thread":
                k.append(case["locs"][rows[e][3]][1])
            elif g == "Process":
                k.append(m.proc(e))
            elif g == "Event Type":
                k.append("Enter")
            else:
                k.append(case["extra"][g][e])
        return tuple(k)

    out = {}
    for met in metrics:
        sums = m.group(metric_values(m, met), lambda e: (key(e), m.proc(e)))
        if per_process:
            for (k, p), v in sums.items():
                out.setdefault(k + (p,), {})[met] = v
        else:
            byk = {}
            for (k, p), v in sums.items():
                byk.setdefault(k, []).append(v)
            for k, vs in byk.items():
                out.setdefault(k, {})[met] = sum(vs) / len(vs)
    return out


def compare(fp, want, metrics, what):
    require(list(fp.columns) == list(metrics), "%s: columns are %r, expected %r", what, list(fp.columns), list(metrics))
    seen = set()
    for idx, row in zip(fp.index.tolist(), fp.values.tolist()):
        k = tuple(val(x) for x in idx) if isinstance(idx, tuple) else (val(idx),)
        require(k not in seen, "%s: group %r appears twice", what, k)
        seen.add(k)
        if k not in want:
            if any(val(x) is not None for x in row):
                fail("%s: group %r was never called but has values %r" % (what, k, row))
            continue
        for met, g in zip(metrics, row):
            w = want[k][met]
            require(val(g) is not None and close(g, w, abs_=1e-6), "%s: %s of %r is %r, expected %r", what, met, k, g, w)
    for k in want:
        require(k in seen, "%s: group %r is missing", what, k)


def check(case):
    gen.labels(case, note)
    m = M(case)
    with sut("flat profile"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        if case["default"]:
            metrics, groups, pp = ["time.exc"], ["Name"], False
            fp = tr.flat_profile()
        else:
            metrics, pp = case["metrics"], case["per_process"]
            groups = case["groupby"] if isinstance(case["groupby"], list) else [case["groupby"]]
            extra = [x[:-4] for x in metrics if not x.startswith("time.")]
            for c in extra:
                tr.calc_exc_metrics([c])
            arg = list(metrics) if case["as_list"] else metrics[0]
            gb = list(case["groupby"]) if isinstance(case["groupby"], list) else case["groupby"]
            fp = tr.flat_profile(metrics=arg, groupby_column=gb, per_process=pp)
            require(arg == (list(metrics) if case["as_list"] else metrics[0]) and gb == case["groupby"],
                    "flat profile changed its arguments")
    same_base(before, tr.events, "the flat profile")
    compare(fp, expected(case, m, metrics, groups, pp), metrics, "flat profile")
    note("groupby:%d" % len(groups))
    note("metrics:%d" % len(metrics))
    note("per_process" if pp else "mean")
    if len(m.processes()) > 1:
        note("several-processes")


def nontrivial(case):
    m = M(case)
    return len(m.processes()) >= 2 and len(m.calls) >= 3


SUBS = [
    Sub("profile", profile_case(), check, 3600, nontrivial=nontrivial,
        rule="random tables, metric lists, grouping columns and per-process flag; non-trivial: at least two processes and three completed calls"),
    gen.multiplied(profile_case(sizes=(2, 6, 14), reps=(1,)), check, nontrivial, "procs", (43, 130, 300), 24),
]
