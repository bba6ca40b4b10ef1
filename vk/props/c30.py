from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, close, note, require, sut
from vk.util import val

ASSUMPTIONS = ["calls are properly nested per location; amounts below 0.01 ns per interval and function may be missing from the time profile"]


@st.composite
def call_case(draw):
    case = draw(gen.table(mode="nested", positive_span=True, epoch=False, metrics=draw(st.sampled_from([0, 0, 1])), min_procs=draw(st.sampled_from([1, 2, 2]))))
    case["bins"] = draw(st.lists(st.integers(1, 20), min_size=2, max_size=2, unique=True))
    case["shared"] = draw(st.booleans())
    case["n"] = draw(st.integers(1, 4))
    return case


def check_calls(case):
    gen.labels(case, note)
    if not any(r[1] == "E" for r in case["rows"]):
        note("skipped:no-calls")
        return
    shared = gen.build(case)

    def tr():
        return shared if case["shared"] else gen.build(case)

    with sut("analysing one trace in every way"):
        t = tr()
        t.calc_inc_metrics()
        t.calc_exc_metrics()
        ev = t.events
        pp = tr().flat_profile(metrics=["time.exc", "time.inc"], per_process=True)
        mean = tr().flat_profile(metrics=["time.exc", "time.inc"])
        imb = {m: tr().load_imbalance(metric=m, num_processes=case["n"]) for m in ("time.exc", "time.inc")}
        multi = type(t).multirun_analysis([tr(), gen.build(case)])
        profs = [tr().time_profile(num_bins=b) for b in case["bins"]] if case["rows"][-1][0] > case["rows"][0][0] else []
        cols = {c: (c if c != "Timestamp (ns)" else "time") for c in t.numeric_cols if c not in ("Process", "Thread")}
    # exclusive and inclusive totals
    depth = [val(x) for x in ev["_depth"].tolist()]
    proc = [val(x) for x in ev["Process"].tolist()]
    total = {}
    for c, m in cols.items():
        inc, exc = [val(x) for x in ev[m + ".inc"].tolist()], [val(x) for x in ev[m + ".exc"].tolist()]
        if any(i is None and d is not None for i, d in zip(inc, depth)):
            continue  # a counter that is missing somewhere
        for p in sorted(set(proc)):
            se = sum(e for e, q in zip(exc, proc) if e is not None and q == p)
            si = sum(i for i, d, q in zip(inc, depth, proc) if d == 0 and q == p)
            require(close(se, si, abs_=1e-3), "process %r: exclusive %s adds up to %r, the outermost calls to %r", p, m, se, si)
            total.setdefault(m, {})[p] = si
    sums = {}
    for (n, p), row in zip(pp.index.tolist(), pp.values.tolist()):
        sums[(n, val(p))] = row
    for p, w in total["time"].items():
        g = sum(row[0] for (n, q), row in sums.items() if q == p)
        require(close(g, w, abs_=1e-3), "process %r: the flat profile adds up to %r, the outermost calls last %r", p, g, w)
    grand = sum(total["time"].values())
    for b, df in zip(case["bins"], profs):
        fs = [c for c in df.columns if c not in ("bin_start", "bin_end", "idle_time")]
        g = float(df[fs].fillna(0).to_numpy().sum()) if fs else 0.0
        tol = 0.0101 * b * (len(fs) + 1) + 1e-9 * abs(grand) + 1e-11 * max(abs(case["rows"][-1][0]), abs(case["rows"][0][0])) * (b + len(depth))
        require(abs(g - grand) <= tol, "the time profile over %d intervals adds up to %r, the outermost calls last %r", b, g, grand)
        for f in fs:
            w = sum(row[0] for (n, q), row in sums.items() if n == f)
            g = float(df[f].fillna(0).sum())
            require(abs(g - w) <= tol, "%r has %r in the time profile over %d intervals and %r in the flat profile", f, g, b, w)
    # the same function and process
    names = sorted({n for n, _ in sums})
    means = {n: row for n, row in zip(mean.index.tolist(), mean.values.tolist())}
    require({n for n, r in means.items() if val(r[0]) is not None} == set(names), "mean profile has functions %r, per process %r", sorted(means), names)
    for n in names:
        rows = [r for (k, _), r in sums.items() if k == n]
        for j, m in enumerate(("time.exc", "time.inc")):
            w = sum(r[j] for r in rows) / len(rows)
            require(close(means[n][j], w, abs_=1e-5), "mean %s of %r is %r in the profile, %r per process", m, n, means[n][j], w)
            x = imb[m].loc[n]
            require(close(x[m + ".mean"], w, abs_=1e-5), "mean %s of %r is %r in load imbalance, %r in the profile", m, n, x[m + ".mean"], w)
            top = [val(p) for p in x["Top processes"]]
            best = max(r[j] for r in rows)
            require(all((n, p) in sums for p in top) and close(sums[(n, top[0])][j], best, abs_=1e-6), "first process of %r is %r, the largest %s is %r", n, top, m, best)
            if w:
                require(close(x[m + ".imbalance"], best / w, rel=1e-6), "imbalance of %r is %r, max over mean is %r", n, x[m + ".imbalance"], best / w)
        for g in multi[n].tolist():
            require(close(g, means[n][0], abs_=1e-5), "%r has %r in the multi-run comparison and %r in the profile", n, g, means[n][0])
        with sut("idle time"):
            it = tr().idle_time(idle_functions=[n])
        for p, g in zip(it["Process"].tolist(), it["Idle Time"].tolist()):
            w = sums.get((n, val(p)), [0, 0])[1]
            require(close(g, w, abs_=1e-5), "time of %r on process %r is %r as idle time and %r in the profile", n, p, g, w)
    require(multi.index.tolist() == [len(set(proc))] * 2, "multi-run rows are labelled %r for %d processes", multi.index.tolist(), len(set(proc)))


@st.composite
def comm_case(draw):
    case = draw(gen.msg_table(max_procs=5))
    case["bins"] = draw(st.integers(1, 25))
    case["shared"] = draw(st.booleans())
    return case


def check_comm(case):
    shared = gen.build(case)

    def tr():
        return shared if case["shared"] else gen.build(case)

    if case["rows"][-1][0] <= case["rows"][0][0]:
        note("skipped:zero-span")
        return
    with sut("analysing messages in every way"):
        hist = tr().message_histogram(bins=case["bins"])[0]
        for out in ("count", "size"):
            m = tr().comm_matrix(output=out)
            by = tr().comm_by_process(output=out)
            ot = tr().comm_over_time(output=out, message_type="send", bins=case["bins"])[0]
            w = float(m.sum())
            for g, what in ((float(by["Sent"].sum()), "sent per process"), (float(by["Received"].sum()), "received per process"), (float(ot.sum()), "over time")):
                require(close(g, w), "%s of messages is %r in the matrix and %r %s", out, w, g, what)
            for p in range(case["nproc"]):
                require(close(by["Sent"].tolist()[p], m[p].sum()) and close(by["Received"].tolist()[p], m[:, p].sum()), "process %d: totals differ from the matrix", p)
            if out == "count":
                require(int(hist.sum()) == w, "%d messages in the size histogram, %r in the matrix", int(hist.sum()), w)
    note("messages:%d" % min(5, int(hist.sum())))


def nontrivial(case):
    return len({r[3] for r in case["rows"]}) > 1 and len({r[2] for r in case["rows"]}) > 1 and len(case["rows"]) > 8


SUBS = [
    Sub("calls", call_case(), check_calls, 1100, nontrivial=nontrivial,
        rule="properly nested tables analysed in every way, on one trace or on fresh ones; non-trivial: several locations and functions, more than eight rows"),
    Sub("messages", comm_case(), check_comm, 1300, nontrivial=nontrivial, rule="tables with messages; same rule"),
]
