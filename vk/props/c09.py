from collections import defaultdict
from fractions import Fraction

from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, note, require, sut
from vk.model import M
from vk.util import same_base, snapshot, val

ASSUMPTIONS = [
    "calls are properly nested per location and the trace has positive duration",
    "the idle column is decided for traces with one location per process and at least one call, over processes that enter a function",
    "amounts below 0.01 ns may be shown as zero; values are compared with a tolerance of 1e-9 of the interval length",
]


@st.composite
def tp_case(draw, divide=False, late=False, **kw):
    case = draw(gen.table(mode="nested", metrics=0, positive_span=True, epoch=False, **kw))
    if late:
        # milliseconds, counted in nanoseconds since 1970: floats there are 256 ns apart
        t0 = case["rows"][0][0] if case["rows"] else 0
        case["rows"] = [[gen.EPOCH + (r[0] - t0) * 10**6] + list(r[1:]) for r in case["rows"]]
        case["late"] = True
    case["bins"] = draw(st.one_of(st.integers(1, 12), st.sampled_from([1, 2, 3, 10, 37, 50, 129])))
    if divide:
        span = int(case["rows"][-1][0] - case["rows"][0][0])
        divs = [d for d in range(2, 41) if span > 0 and span % d == 0]
        if divs:
            case["bins"] = draw(st.sampled_from(divs))
    case["normalized"] = draw(st.booleans())
    case["default"] = draw(st.integers(0, 12)) == 0
    return case


def expected(m, edges):
    """Exact time per (bin, name) from the slices of the innermost open call."""
    n = len(edges) - 1
    out = [defaultdict(Fraction) for _ in range(n)]
    for segs in m.innermost().values():
        for a, b, e in segs:
            a, b = Fraction(a), Fraction(b)
            for i in range(n):
                lo, hi = max(a, edges[i]), min(b, edges[i + 1])
                if hi > lo:
                    out[i][m.name(e)] += hi - lo
    return out


def check(case):
    rows = case["rows"]
    t0, t1 = rows[0][0], rows[-1][0]
    if not t1 > t0:
        note("skipped:zero-span")
        return
    gen.labels(case, note)
    m = M(case)
    bins = 50 if case["default"] else case["bins"]
    norm = False if case["default"] else case["normalized"]
    with sut("time profile"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        df = tr.time_profile() if case["default"] else tr.time_profile(num_bins=bins, normalized=norm)
    same_base(before, tr.events, "the time profile")
    require(len(df) == bins, "time profile has %d rows for %d intervals", len(df), bins)
    span = Fraction(t1) - Fraction(t0)
    edges = [Fraction(t0) + span * i / bins for i in range(bins + 1)]
    tol_edge = float(span) * 1e-9 + max(abs(float(t0)), abs(float(t1))) * (1e-15 if case.get("late") else 1e-12)
    starts, ends = df["bin_start"].tolist(), df["bin_end"].tolist()
    for i in range(bins):
        require(abs(starts[i] - float(edges[i])) <= tol_edge and abs(ends[i] - float(edges[i + 1])) <= tol_edge,
                "interval %d is [%r, %r], expected [%r, %r]", i, starts[i], ends[i], float(edges[i]), float(edges[i + 1]))
    want = expected(m, edges)
    names = {m.name(e) for e in m.enters}
    cols = [c for c in df.columns if c not in ("bin_start", "bin_end", "idle_time")]
    require(len(cols) == len(set(cols)) and set(cols) == names, "function columns are %r, functions entered %r", sorted(cols), sorted(names))
    bin_size = float(span) / bins
    nproc = len({m.proc(e) for e in m.enters})
    total = bin_size * nproc
    # rounding of interval edges and of sums over long traces
    tol = 0.0101 + bin_size * 1e-9 + max(abs(float(t0)), abs(float(t1))) * 1e-12 * (4 + len(m.calls))
    if case.get("late"):
        tol = 1024.0 * (4 + len(m.calls))
    scale = total if norm else 1.0
    for c in cols:
        got = [0.0 if val(x) is None else float(x) * scale for x in df[c].tolist()]
        for i in range(bins):
            w = float(want[i].get(c, 0))
            require(abs(got[i] - w) <= tol, "interval %d [%r, %r]: %r is given %r%s, expected %r", i, float(edges[i]),
                    float(edges[i + 1]), c, got[i], " (after undoing the normalisation)" if norm else "", w)
    locs_used = {tuple(case["locs"][r[3]]) for r in rows}
    if nproc and len(locs_used) == len({l[0] for l in locs_used}):
        note("idle-checked")
        require("idle_time" in df.columns, "no idle column")
        for i, g in enumerate(df["idle_time"].tolist()):
            w = total - float(sum(want[i].values()))
            require(val(g) is not None and abs(float(g) * scale - w) <= tol * 2, "interval %d: idle time is %r, expected %r", i,
                    g * scale, w)
    if norm:
        note("normalized")
    if any(len(b) > 1 for b in want):
        note("shared-interval")
    if any((Fraction(m.ts(e)) in edges[1:-1]) or (Fraction(m.ts(m.match[e])) in edges[1:-1]) for e in m.calls):
        note("edge-hit")


def nontrivial(case):
    m = M(case)
    return any(m.children.values()) and case["bins"] > 1


SUBS = [
    Sub("profile", tp_case(), check, 1200, nontrivial=nontrivial,
        rule="properly nested tables of positive duration, 1-50 intervals; non-trivial: a call with callees and several intervals"),
    # small integer times: interval edges coincide with events
    Sub("edges", tp_case(divide=True, sizes=(2, 6, 14), reps=(1, 1, 2), float_ts=False, dts=st.integers(0, 3), max_procs=2),
        check, 800, nontrivial=nontrivial, rule="small integer times and interval counts that divide the span; same rule"),
    Sub("late", tp_case(late=True, sizes=(2, 6, 14), reps=(1, 1, 2), float_ts=False), check, 300, nontrivial=nontrivial,
        rule="milliseconds, counted in nanoseconds since 1970; same rule"),
    gen.multiplied(tp_case(sizes=(2, 6), reps=(1,), max_procs=2), check, nontrivial, "procs", (43, 130), 16),
]
