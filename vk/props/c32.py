import os

from hypothesis import strategies as st

from vk import hpcgen, nsysgen, otf2gen, projgen
from vk.core import Sub, close, isnull, note, require, scratch, sut
from vk.model import M
from vk.props import c14, c15, c19, c21, c23
from vk.props.c03 import check_tree
from vk.util import column, expect_column, same_base, snapshot, val

ASSUMPTIONS = [
    "the event table itself is taken as read (its agreement with the file is decided by C14 to C23)",
    "events without a thread form one location of their process",
]


def as_case(df):
    """The event table as a case of the reference model."""
    kind = {"Enter": "E", "Leave": "L"}
    pr = [val(x) for x in df["Process"].tolist()]
    th = [val(x) for x in df["Thread"].tolist()] if "Thread" in df.columns else [0] * len(df)
    locs = sorted(set(zip(pr, th)), key=repr)
    at = {l: i for i, l in enumerate(locs)}
    rows = [[t, kind.get(e, "I"), n, at[(p, x)]] for t, e, n, p, x in zip(
        [val(x) for x in df["Timestamp (ns)"].tolist()], df["Event Type"].tolist(), [val(x) for x in df["Name"].tolist()], pr, th)]
    return {"thread": "Thread" in df.columns, "locs": [list(l) for l in locs], "rows": rows, "cols": {}}


def numeric(df):
    return [c for c in df.columns if df[c].dtype.kind in "iuf" and c != "Timestamp (ns)"]


def analyse(case, get):
    with sut("reading the file"):
        tr = get()
    if tr is None or len(tr.events) == 0:
        note("skipped:no-events")
        return
    t = as_case(tr.events)
    for c in numeric(tr.events):
        t["cols"][c] = column(tr.events, c)
    m = M(t)
    before = snapshot(tr.events)
    own = tr.cct
    steps = case["steps"]
    for s in steps:
        with sut("%s of the trace" % s):
            STEPS[s](tr, m, t, case)
    same_base(({c: v for c, v in before[0].items() if c != "Graph_Node"}, before[1]), tr.events, "analysing the trace")
    if own is not None and "tree" not in steps:
        require(tr.cct is own, "the calling context tree was replaced")
    if m.calls:
        note("completed calls")
    if len(m.calls) < len(m.enters):
        note("unfinished calls")
    if any(l[1] is None for l in t["locs"]):
        note("thread missing")
    if t["cols"]:
        note("numeric columns")
    if not m.nested():
        note("overlapping")


def do_match(tr, m, t, case):
    tr._match_events()
    got = column(tr.events, "_matching_event")
    for i in range(len(t["rows"])):
        require(got[i] == m.match[i], "row %d %r: partner row is %r, expected %r", i, t["rows"][i], got[i], m.match[i])


def do_nesting(tr, m, t, case):
    tr._match_caller_callee()
    par, dep = column(tr.events, "_parent"), column(tr.events, "_depth")
    for i in range(len(t["rows"])):
        require(par[i] == m.parent.get(i) and dep[i] == m.depth.get(i), "row %d %r: caller row is %r at depth %r, expected %r, %r",
                i, t["rows"][i], par[i], dep[i], m.parent.get(i), m.depth.get(i))


def label(c):
    return "time" if c == "Timestamp (ns)" else c


def do_metrics(tr, m, t, case):
    """Inclusive and exclusive values of all numeric columns."""
    tr.calc_exc_metrics()
    for c in ["Timestamp (ns)"] + sorted(t["cols"]):
        expect_column(tr.events, label(c) + ".inc", m.inc(c), "inclusive values")
        expect_column(tr.events, label(c) + ".exc", m.exc(c), "exclusive values")


def do_tree(tr, m, t, case):
    tr.create_cct()
    check_tree(tr, t)


def totals(m, values):
    return m.group(values, lambda e: (m.name(e), m.proc(e)))


def do_profile(tr, m, t, case):
    fp = tr.flat_profile(metrics=["time.inc", "time.exc"], per_process=True)
    got = {(val(k[0]), val(k[1])): [val(x) for x in r] for k, r in zip(fp.index.tolist(), fp.values.tolist())}
    inc, exc = totals(m, m.inc()), totals(m, m.exc())
    require(set(got) == set(inc), "the profile has entries %r, expected %r", sorted(got, key=repr), sorted(inc, key=repr))
    for k in inc:
        require(close(got[k][0], inc[k]) and close(got[k][1], exc[k]), "the profile of %r is %r, expected %r, %r", k, got[k], inc[k], exc[k])


def do_imbalance(tr, m, t, case):
    exc = totals(m, m.exc())
    df = tr.load_imbalance(num_processes=case["k"])
    by = {}
    for (n, p), v in exc.items():
        by.setdefault(n, {})[p] = v
    got = [val(x) for x in df.index.tolist()]
    require(sorted(got, key=repr) == sorted(by, key=repr), "load imbalance has functions %r, expected %r", got, sorted(by, key=repr))
    for n, mean, top in zip(got, df["time.exc.mean"].tolist(), df["Top processes"].tolist()):
        vs = by[n]
        require(close(mean, sum(vs.values()) / len(vs)), "mean of %r is %r, expected %r", n, mean, sum(vs.values()) / len(vs))
        require({val(p) for p in top} <= set(vs) and len(top) == min(case["k"], len(vs)), "top processes of %r are %r of %r", n, top, sorted(vs))


def do_idle(tr, m, t, case):
    fs = sorted({r[2] for r in t["rows"] if r[1] == "E" and r[2] is not None})[: case["k"]]
    it = tr.idle_time(idle_functions=list(fs))
    inc = totals(m, m.inc())
    require(sorted(val(p) for p in it["Process"].tolist()) == sorted(m.processes()), "idle times of the processes %r, expected %r",
            it["Process"].tolist(), sorted(m.processes()))
    for p, v in zip(it["Process"].tolist(), it["Idle Time"].tolist()):
        w = sum(inc.get((f, val(p)), 0) for f in fs)
        require(close(v, w), "time of process %r in %r is %r, expected %r", p, fs, v, w)


def do_time(tr, m, t, case):
    """The time profile attributes every completed call's own time, when calls nest."""
    ts = [r[0] for r in t["rows"]]
    if not m.enters or max(ts) <= min(ts) or not m.nested():
        return
    df = tr.time_profile(num_bins=case["k"])
    exc = {}
    for e, v in m.exc().items():
        exc[m.name(e)] = exc.get(m.name(e), 0) + v
    for n, w in exc.items():
        require(n in df.columns, "the time profile has no column %r", n)
        g = sum(0 if isnull(x) else x for x in df[n].tolist())
        # values below 0.01 are shown as zero
        require(abs(g - w) <= 0.01 * case["k"] + 1e-6 * (abs(w) + max(ts) - min(ts)) + 1e-12 * max(abs(x) for x in ts), "time profile of %r sums to %r, expected %r", n, g, w)


def do_export(tr, m, t, case):
    import json

    recs = json.loads(tr.to_chrome())
    require(len(recs) == len(t["rows"]), "%d records for %d events", len(recs), len(t["rows"]))
    for i, (r, row) in enumerate(zip(recs, t["rows"])):
        loc = t["locs"][row[3]]
        require(r["name"] == row[2] and r["pid"] == loc[0] and (not t["thread"] or r["tid"] == loc[1]), "record %d is %r, the event %r of %r", i, r, row, loc)


STEPS = {"matching": do_match, "nesting": do_nesting, "metrics": do_metrics, "tree": do_tree, "profile": do_profile, "imbalance": do_imbalance,
         "idle": do_idle, "time profile": do_time, "export": do_export}


# ------------------------------------------------------------ formats
def check_csv(case):
    from pipit import Trace

    with scratch() as d:
        p = os.path.join(d, "x.csv")
        c14.write(case["data"], p)
        analyse(case, lambda: Trace.from_csv(p))


def check_otf2(case):
    with scratch() as d:
        p = os.path.join(d, "a")
        otf2gen.write(case["data"], p)
        analyse(case, lambda: c15.read(case["data"], p, **case["cct"]))


def check_projections(case):
    with scratch() as d:
        p = os.path.join(d, "run")
        projgen.write(case["data"], p)
        analyse(case, lambda: c19.read(p, num_processes=case["k"], **case["cct"]))


def check_hpctoolkit(case):
    with scratch() as d:
        m = hpcgen.Model(case["data"])
        ranks = {ln["id"]["RANK"] is None for li, ln in enumerate(case["data"]["lines"]) if m.line_events(li)}
        if len(ranks) != 1:
            note("skipped:no-events" if not ranks else "skipped:ranks-on-some-lines")
            return
        hpcgen.write(case["data"], d)
        analyse(case, lambda: c21.read(d))


def check_nsight(case):
    with scratch() as d:
        p = os.path.join(d, "report.csv")
        nsysgen.write(case["data"], p)
        analyse(case, lambda: c23.read(p, **case["cct"]))


@st.composite
def steps_case(draw, data):
    return {"data": draw(data), "k": draw(st.integers(1, 4)), "cct": draw(st.sampled_from([{}, {}, {"create_cct": True}])),
            "steps": draw(st.lists(st.sampled_from(sorted(STEPS)), min_size=2, max_size=6, unique=True))}


def nontrivial(case):
    return len(case["steps"]) >= 3


RULE = "files of every kind the format's own check generates, then two to six analyses in any order; non-trivial: at least three analyses"
SUBS = [
    Sub("csv", steps_case(c14.csv_case()), check_csv, 500, nontrivial=nontrivial, rule=RULE),
    Sub("otf2", steps_case(otf2gen.archive(sizes=(6, 14, 30))), check_otf2, 240, nontrivial=nontrivial, rule=RULE),
    Sub("projections", steps_case(projgen.directory()), check_projections, 240, nontrivial=nontrivial, rule=RULE),
    Sub("hpctoolkit", steps_case(hpcgen.database()), check_hpctoolkit, 700, nontrivial=nontrivial, rule=RULE),
    Sub("nsight", steps_case(st.booleans().flatmap(lambda n: nsysgen.report(nested=n))), check_nsight, 400, nontrivial=nontrivial, rule=RULE),
]
