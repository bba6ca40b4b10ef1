from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, note, require, sut
from vk.model import M
from vk.util import same_base, snapshot, val

ASSUMPTIONS = [
    "the reference motif search is stumpy's own matrix profile and motif functions, given the sequence of metric values the model extracts; cases it rejects itself (windows below three calls) are outside the property",
    "the start event is called and completed on the chosen process",
]


def warmup():
    """Compile the numerical kernels once, outside the cases."""
    import numpy as np
    import stumpy

    y = np.array([3.0, 1, 4, 1, 5, 9, 2, 6, 5, 3, 1, 4, 1, 5, 9, 2, 6, 5])
    for v in (y, np.tile(y[:4], 5)):
        mp = stumpy.stump(v, 3)
        stumpy.motifs(v, mp[:, 0], max_matches=3)


@st.composite
def loop_case(draw):
    use_thread, locs = draw(gen.locations(3))
    names = draw(st.lists(gen.FNAMES, min_size=1, max_size=5, unique=True))
    start = draw(st.sampled_from(["loop", "main", names[0]]))
    nproc = len(locs)
    t = draw(st.sampled_from([0, 0, 5, 10**6]))
    rows = []
    # per location: a body of calls, repeated, with occasional deviations
    bodies = []
    for _ in locs:
        bodies.append(draw(st.lists(
            st.tuples(st.integers(0, len(names) - 1), st.one_of(gen.DT1, gen.DT1, st.just(0)), st.sampled_from([0, 0, 1, 2]), st.integers(0, 3)),
            min_size=2, max_size=7)))
    iters = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 40)))
    wrap = draw(st.booleans())
    # the enclosing call may be of the event itself
    outer = draw(st.sampled_from(["main0", "main0", "main0", start]))
    tie = draw(st.booleans())
    skip = draw(st.lists(st.integers(0, iters), max_size=2))
    jitter = draw(st.lists(st.sampled_from([0, 0, 0, 1, 5]), min_size=1, max_size=6))
    # further rounds of the body outside the event, before and after it
    lead = [draw(st.sampled_from([0, 0, 0, 1, 2])) for _ in locs]
    tail = [draw(st.sampled_from([0, 0, 0, 1, 3])) for _ in locs]
    lines = []
    for li in range(len(locs)):
        tt, ev, k = t, [], 0
        if wrap:
            ev.append((tt, "E", outer, li))
            tt += 1
        for it in range(-lead[li], iters + tail[li]):
            inside = 0 <= it < iters
            if inside:
                ev.append((tt, "E", start, li))
            tt += 2
            for (ni, d, nest, gap) in bodies[li]:
                k += 1
                d += jitter[k % len(jitter)] if it in skip else 0
                nm = names[ni] if names[ni] != start else names[ni] + "_"
                ev.append((tt, "E", nm, li))
                for q in range(nest):
                    tt += 1 if d else 0
                    ev.append((tt, "E", "in%d" % q, li))
                    tt += d % 5 + 1 if d else 0
                    ev.append((tt, "L", "in%d" % q, li))
                tt += d
                ev.append((tt, "L", nm, li))
                tt += gap
            if it in skip:
                ev.append((tt, "I", "mark", li))
            if inside:
                ev.append((tt, "L", start, li))
            tt += 0 if tie else 3
        if wrap:
            ev.append((tt, "L", outer, li))
        lines.append(ev)
    order = [(e[0], li, k) for li, ev in enumerate(lines) for k, e in enumerate(ev)]
    order.sort()
    rows = [list(lines[li][k]) for _, li, k in order]
    case = {"thread": use_thread, "locs": locs, "rows": rows, "mode": "nested", "start": start}
    case["pre"] = draw(gen.PRES)
    case["proc"] = draw(st.sampled_from([l[0] for l in locs]))
    case["window"] = draw(st.one_of(st.none(), st.none(), st.integers(3, 8)))
    case["iters"] = draw(st.one_of(st.none(), st.none(), st.integers(1, iters + 2)))
    case["metric"] = draw(st.sampled_from(["time.exc", "time.exc", "time.inc"]))
    case["default"] = draw(st.booleans())
    return case


def reference(case):
    """(calls in the stretch, window, expected start positions) or None outside the domain."""
    import numpy as np
    import stumpy

    m = M(case)
    rows = case["rows"]
    mine = [i for i in range(len(rows)) if m.proc(i) == case["proc"]]
    ent = [i for i in mine if rows[i][1] == "E" and rows[i][2] == case["start"]]
    lea = [i for i in mine if rows[i][1] == "L" and rows[i][2] == case["start"]]
    if not ent or not lea or lea[-1] < ent[0]:
        return None
    vals = m.exc() if case["metric"] == "time.exc" else m.inc()
    calls = [i for i in mine if ent[0] < i < lea[-1] and vals.get(i) is not None]
    iters = case["iters"] if case["iters"] is not None else len(ent)
    w = case["window"] if case["window"] is not None else int(len(calls) / iters)
    if w < 3 or len(calls) < w + 1:
        return None
    y = np.array([float(vals[i]) for i in calls])
    try:
        mp = stumpy.stump(y, w)
        _, idx = stumpy.motifs(y, mp[:, 0], max_matches=iters)
        want = [int(k) for k in idx[0]]
    except Exception:  # noqa: BLE001  outside the library's domain
        return None
    return m, calls, w, iters, want


def check(case):
    ref = reference(case)
    if ref is None:
        note("skipped:outside-domain")
        return
    m, calls, w, iters, want = ref
    rows = case["rows"]
    with sut("pattern detection"):
        tr = gen.build(case)
        if case["metric"] == "time.inc":
            tr.calc_inc_metrics(["Timestamp (ns)"])
        before = snapshot(tr.events)
        kw = {}
        if case["iters"] is not None:
            kw["iterations"] = case["iters"]
        if case["window"] is not None:
            kw["window_size"] = case["window"]
        if not (case["default"] and case["proc"] == 0):
            kw["process"] = case["proc"]
        if not (case["default"] and case["metric"] == "time.exc"):
            kw["metric"] = case["metric"]
        got = tr.detect_pattern(case["start"], **kw)
    same_base(before, tr.events, "pattern detection")
    require(len(got) <= iters, "%d occurrences reported, at most %d were asked for", len(got), iters)
    pos = {c: k for k, c in enumerate(calls)}
    found = []
    for df in got:
        idx = list(df.index)
        require(len(idx) == w, "an occurrence has %d rows, the window is %d calls: %r", len(idx), w, idx)
        for i in idx:
            require(i in pos, "row %d %r is no completed call of process %r inside the stretch", i, rows[i], case["proc"])
        ks = [pos[i] for i in idx]
        require(ks == list(range(ks[0], ks[0] + w)), "an occurrence is not a run of consecutive calls: %r", idx)
        for col, want_v in (("Name", [rows[i][2] for i in idx]), ("Timestamp (ns)", [rows[i][0] for i in idx]),
                            ("Process", [case["proc"]] * w), ("Event Type", ["Enter"] * w)):
            require([val(v) for v in df[col].tolist()] == want_v, "an occurrence has other %s than its calls", col)
        found.append(ks[0])
    require(found == want or sorted(found) == sorted(want), "occurrences start at calls %r, the motif search finds %r", found, want)
    note("occurrences:%d" % min(len(found), 6))
    note("locations:%d" % len(case["locs"]))


def nontrivial(case):
    r = reference(case)
    return r is not None and len(r[4]) >= 2 and len({l[0] for l in case["locs"]}) > 1


SUBS = [
    Sub("motifs", loop_case(), check, 1600, nontrivial=nontrivial, workers=5, warm=warmup,
        rule="loops with repeated bodies and deviations on several locations; non-trivial: at least two occurrences and several processes"),
]
