from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, close, note, require, sut
from vk.util import same_base, snapshot

ASSUMPTIONS = ["the trace has positive duration", "bins are half-open except the last, as NumPy documents"]


@st.composite
def hist_case(draw, **kw):
    case = draw(gen.msg_table(max_procs=4, **kw))
    case["bins"] = draw(st.one_of(st.none(), st.integers(1, 12), st.sampled_from([1, 2, 5, 20, 50, 64, 300, 1025])))
    span = case["rows"][-1][0] - case["rows"][0][0]
    divs = [d for d in range(2, 60) if span > 0 and span % d == 0]
    if divs and draw(st.booleans()):
        case["bins"] = draw(st.sampled_from(divs))
    case["output"] = draw(st.sampled_from([None, "size", "count"]))
    case["mtype"] = draw(st.sampled_from([None, "send", "receive"]))
    return case


def place(edges, x):
    n = len(edges) - 1
    if x == edges[-1]:
        return n - 1
    for i in range(n):
        if edges[i] <= x < edges[i + 1]:
            return i
    return None


def msgs(case, kinds):
    return [(r[0], a["msg_length"]) for r, a in zip(case["rows"], case["attrs"]) if r[1] == "I" and r[2] in kinds]


def even(edges, lo, hi, n, what):
    require(len(edges) == n + 1, "%s has %d edges for %d bins", what, len(edges), n)
    span = hi - lo
    for i, e in enumerate(edges):
        require(abs(e - (lo + span * i / n)) <= 1e-9 * max(abs(hi), abs(lo), 1), "%s: edge %d is %r, expected %r", what, i,
                e, lo + span * i / n)
    require(edges[0] == lo and edges[-1] == hi, "%s covers [%r, %r], expected [%r, %r]", what, edges[0], edges[-1], lo, hi)


def check_time(case):
    gen.labels(case, note)
    t0, t1 = case["rows"][0][0], case["rows"][-1][0]
    kw = {}
    for k, a in (("bins", "bins"), ("output", "output"), ("mtype", "message_type")):
        if case[k] is not None:
            kw[a] = case[k]
    if not t1 > t0:
        return
    with sut("communication over time"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        hist, edges = tr.comm_over_time(**kw)
    same_base(before, tr.events, "communication over time")
    n = 50 if case["bins"] is None else case["bins"]
    edges = [float(e) for e in edges]
    even(edges, t0, t1, n, "communication over time")
    require(len(hist) == n, "%d bins returned, %d asked for", len(hist), n)
    want = [0] * n
    for t, size in msgs(case, gen.RECV if case["mtype"] == "receive" else gen.SEND):
        want[place(edges, t)] += 1 if case["output"] == "count" else size
        if t in edges[1:]:
            note("edge-hit")
    for i in range(n):
        require(close(hist[i], want[i], rel=1e-9), "bin %d [%r, %r] holds %r, expected %r", i, edges[i], edges[i + 1], hist[i], want[i])
    note("type:%s/%s" % (case["mtype"], case["output"]))


def check_sizes(case):
    gen.labels(case, note)
    kw = {} if case["bins"] is None else {"bins": case["bins"]}
    n = 20 if case["bins"] is None else case["bins"]
    with sut("message histogram"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        hist, edges = tr.message_histogram(**kw)
    same_base(before, tr.events, "the message histogram")
    sizes = [s for _, s in msgs(case, gen.SEND)]
    edges = [float(e) for e in edges]
    require(len(hist) == n, "%d bins returned, %d asked for", len(hist), n)
    require(sum(int(h) for h in hist) == len(sizes), "%r messages counted, %d sent", sum(hist), len(sizes))
    if sizes and max(sizes) > min(sizes):
        even(edges, min(sizes), max(sizes), n, "message histogram")
    want = [0] * n
    for s in sizes:
        k = place(edges, s)
        require(k is not None, "message size %r lies in no bin of %r", s, edges)
        want[k] += 1
    require([int(h) for h in hist] == want, "bins hold %r, expected %r", [int(h) for h in hist], want)


def nontrivial(case):
    return len(msgs(case, gen.SEND)) >= 2 and case["bins"] != 1


SUBS = [
    Sub("time", hist_case(), check_time, 3600, nontrivial=nontrivial,
        rule="random message tables, bins often dividing the span; non-trivial: two or more sends and more than one bin"),
    Sub("sizes", hist_case(), check_sizes, 2400, nontrivial=nontrivial, rule="same tables; same rule"),
    gen.multiplied(hist_case(), check_time, nontrivial, "procs", (43, 130), 40),
]
