from collections import defaultdict

from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, close, fail, note, require, sut
from vk.ops import same, tree_answer
from vk.util import val

ASSUMPTIONS = [
    "the order of events on each location stays the same; only events of different locations change their relative order",
    "timestamps are shifted and stretched exactly (whole numbers or halves)",
    "the order among processes with equal totals and among functions with equal means is not part of the promise",
]


def order_by_time(case, rows):
    """Rows in time order, keeping the order of each location."""
    idx = sorted(range(len(rows)), key=lambda i: rows[i][0])
    return idx


def pick(case, keep, rows=None):
    """Sub-case of the given rows (indices into case rows, in the new order), with optional new row contents."""
    src = case["rows"] if rows is None else rows
    out = {"thread": case["thread"], "locs": [list(l) for l in case["locs"]], "mode": case["mode"], "rows": [list(src[i]) for i in keep]}
    if "cols" in case:
        out["cols"] = {k: [v[i] for i in keep] for k, v in case["cols"].items()}
    if "attrs" in case:
        out["attrs"] = [case["attrs"][i] for i in keep]
    return out


def per_call(case, what):
    """Every per-row analysis result, rows given by position."""
    out = {}
    with sut(what):
        tr = gen.build(case)
        tr._match_caller_callee()
        tr.calc_inc_metrics()
        tr.calc_exc_metrics()
        for c in tr.events.columns:
            if c.startswith("_") or c.endswith(".inc") or c.endswith(".exc"):
                out[c] = [[val(y) for y in x] if isinstance(x, list) else val(x) for x in tr.events[c].tolist()]
        out["path"] = paths(tr) if case["rows"] else []
    return out


def paths(tr):
    tr.create_cct()
    out = []
    names = {}
    col = tr.events["Graph_Node"].tolist()
    for g, n in zip(col, tr.events["Name"].tolist()):
        if hasattr(g, "_pipit_nid"):
            names[id(g)] = n
    for g in col:
        if not hasattr(g, "_pipit_nid"):
            out.append(None)
            continue
        p, k = [], g
        while k is not None:
            p.append(names.get(id(k)))
            k = k.parent
        out.append(p[::-1])
    return out


def compare_calls(big, small, where, what, factor=1, shift=0):
    """big row where[i] corresponds to small row i."""
    back = {b: i for i, b in enumerate(where)}
    cols = set(big) & set(small)
    require(set(big) == set(small) or not where, "%s: result columns are %r and %r", what, sorted(big), sorted(small))
    for c in sorted(cols):
        for i, b in enumerate(where):
            x, y = big[c][b], small[c][i]
            if c in ("_matching_event", "_parent"):
                x = None if x is None else back.get(int(x), ("another location", x))
            elif c == "_children":
                x = None if x is None else [back.get(int(k), ("another location", k)) for k in x]
            elif c == "_matching_timestamp" and x is not None:
                x = x * factor + shift
            elif c in ("time.inc", "time.exc") and x is not None:
                x = x * factor
            if not same(x, y):
                fail("%s: %s of row %d is %r, %r in the changed trace (row %d)" % (what, c, b, x, y, i))


def profiles(case, metrics=("time.exc", "time.inc")):
    """Per-process answers: (process, function, metric) -> total; idle times; imbalance."""
    tr = gen.build(case)
    prof = {}
    fp = tr.flat_profile(metrics=list(metrics), per_process=True)
    for (n, p), row in zip(fp.index.tolist(), fp.values.tolist()):
        for m, v in zip(metrics, row):
            prof[(val(p), n, m)] = val(v)
    it = tr.idle_time(idle_functions=["Idle", "foo", "MPI_Wait"], mpi_events=True)
    idle = {val(p): val(v) for p, v in zip(it["Process"].tolist(), it["Idle Time"].tolist())}
    imb = {}
    for metric in metrics:
        li = tr.load_imbalance(metric=metric, num_processes=3)
        for n, row in zip(li.index.tolist(), li.to_dict("records")):
            imb[(n, metric)] = [val(row[metric + ".imbalance"]), val(row[metric + ".mean"]), [val(p) for p in row["Top processes"]]]
    return prof, idle, imb


# ------------------------------------------------------------ one location alone
@st.composite
def alone_case(draw):
    case = {"trace": draw(gen.table(max_procs=4, min_procs=draw(st.sampled_from([2, 2, 3])))),
            "which": draw(st.integers(0, 8)), "whole": draw(st.booleans())}
    return case


def check_alone(case):
    t = case["trace"]
    li = case["which"] % len(t["locs"])
    if case["whole"]:
        keep = [i for i, r in enumerate(t["rows"]) if t["locs"][r[3]][0] == t["locs"][li][0]]
    else:
        keep = [i for i, r in enumerate(t["rows"]) if r[3] == li]
    if not keep:
        note("skipped:empty-location")
        return
    small = pick(t, keep)
    what = "%s %r alone" % ("process" if case["whole"] else "location", t["locs"][li])
    compare_calls(per_call(t, "analysing the trace"), per_call(small, "analysing " + what), keep, what)
    if case["whole"] or not t["thread"]:
        p = t["locs"][li][0]
        with sut("profiles"):
            a, ia, _ = profiles(t)
            b, ib, _ = profiles(small)
        a = {k: v for k, v in a.items() if k[0] == p}
        require(set(a) == set(b), "%s: profile entries are %r, in the whole trace %r", what, sorted(b), sorted(a))
        for k in a:
            require(close(a[k], b[k], abs_=1e-6), "%s: %r is %r, in the whole trace %r", what, k, b[k], a[k])
        require(set(ib) == {p} and close(ia.get(p), ib[p], abs_=1e-6), "%s: idle time is %r, in the whole trace %r", what, ib, ia)
        note("profiles")
    note("whole-process" if case["whole"] else "location")


# ------------------------------------------------------------ other interleavings
@st.composite
def mix_case(draw):
    t = draw(gen.table(max_procs=4, min_procs=2, sizes=(6, 14, 30)))
    n = len(t["locs"])
    return {"trace": t, "off": draw(st.lists(st.sampled_from([0, 0, 1, 3, 40, 10**6, -2, -50]), min_size=n, max_size=n)),
            "mul": draw(st.lists(st.sampled_from([1, 1, 2, 5]), min_size=n, max_size=n)), "rev": draw(st.booleans()),
            "locperm": draw(st.permutations(range(n)))}


def check_mix(case):
    t = case["trace"]
    if not t["rows"]:
        return
    mul = [case["mul"][0]] * len(t["locs"])  # one factor, so that durations can be compared
    lo = min(case["off"])
    rows = [[r[0] * mul[r[3]] + case["off"][r[3]] - lo] + list(r[1:]) for r in t["rows"]]
    # time order; ties between locations in another order of locations, each location in its own order
    rank = {l: k for k, l in enumerate(case["locperm"])}
    order = sorted(range(len(rows)), key=lambda i: (rows[i][0], rank[rows[i][3]], i))
    new = pick(t, order, rows)
    big = per_call(t, "analysing the trace")
    if "_matching_timestamp" in big:
        big["_matching_timestamp"] = [None if v is None else v + (case["off"][t["rows"][i][3]] - lo) / mul[0] for i, v in enumerate(big["_matching_timestamp"])]
    compare_calls(big, per_call(new, "analysing the interleaved trace"), order, "another interleaving", factor=mul[0])
    with sut("profiles"):
        compare_profiles(profiles(t), profiles(new), {p: p for p, _ in t["locs"]}, mul[0], "another interleaving")
    note("changed-order" if order != list(range(len(rows))) else "same-order")


def compare_profiles(a, b, ren, factor, what):
    pa, ia, ma = a
    pb, ib, mb = b
    wa = {(ren[k[0]], k[1], k[2]): v * factor for k, v in pa.items()}
    require(set(wa) == set(pb), "%s: profile entries are %r, expected %r", what, sorted(pb), sorted(wa))
    for k in wa:
        require(close(wa[k], pb[k], abs_=1e-5), "%s: %r is %r, expected %r", what, k, pb[k], wa[k])
    wi = {ren[p]: v * factor for p, v in ia.items()}
    require(set(wi) == set(ib), "%s: idle times of %r, expected of %r", what, sorted(ib), sorted(wi))
    for p in wi:
        require(close(wi[p], ib[p], abs_=1e-5), "%s: idle time of process %r is %r, expected %r", what, p, ib[p], wi[p])
    require(set(ma) == set(mb), "%s: load imbalance of %r, expected of %r", what, sorted(mb), sorted(ma))
    for (n, m), (imb, mean, top) in ma.items():
        gi, gm, gt = mb[(n, m)]
        require(close(gi, imb, rel=1e-6) and close(gm, mean * factor, abs_=1e-5), "%s: load imbalance of %r %s is %r, %r, expected %r, %r",
                what, n, m, gi, gm, imb, mean * factor)
        # the processes carry the same totals, whatever the order among equals
        x = [wa[(ren[p], n, m)] for p in top]
        y = [pb[(p, n, m)] for p in gt]
        require(len(set(gt)) == len(gt) and len(x) == len(y) and all(close(u, v, abs_=1e-5) for u, v in zip(x, y)),
                "%s: top processes of %r %s are %r, expected %r", what, n, m, gt, [ren[p] for p in top])


# ------------------------------------------------------------ renaming processes
@st.composite
def rename_case(draw):
    comm = draw(st.booleans())
    t = draw(gen.msg_table() if comm else gen.table(max_procs=4, min_procs=2))
    ps = sorted({p for p, _ in t["locs"]})
    new = draw(st.permutations(ps)) if comm or draw(st.booleans()) else draw(st.lists(st.integers(0, 99), min_size=len(ps), max_size=len(ps), unique=True))
    return {"trace": t, "ren": [[a, b] for a, b in zip(ps, new)], "comm": comm}


def check_rename(case):
    t, ren = case["trace"], dict(map(tuple, case["ren"]))
    if not t["rows"]:
        return
    new = pick(t, range(len(t["rows"])))
    new["locs"] = [[ren[p], h] for p, h in t["locs"]]
    if case["comm"]:
        new["attrs"] = [None if a is None else {k: ren[v] if k in ("sender", "receiver") else v for k, v in a.items()} for a in t["attrs"]]
    compare_calls(per_call(t, "analysing the trace"), per_call(new, "analysing the renamed trace"), list(range(len(t["rows"]))), "renaming processes")
    with sut("profiles"):
        compare_profiles(profiles(t), profiles(new), ren, 1, "renaming processes")
        ma = gen.build(t).flat_profile(metrics=["time.exc", "time.inc"])
        mb = gen.build(new).flat_profile(metrics=["time.exc", "time.inc"])
        x = {n: r for n, r in zip(ma.index.tolist(), ma.values.tolist())}
        y = {n: r for n, r in zip(mb.index.tolist(), mb.values.tolist())}
    require(set(x) == set(y), "renaming processes: functions in the profile change")
    for n in x:
        require(same(x[n], y[n]), "renaming processes: mean profile of %r is %r, was %r", n, y[n], x[n])
    if case["comm"]:
        for out in ("size", "count"):
            with sut("communication matrix"):
                a, b = gen.build(t).comm_matrix(output=out), gen.build(new).comm_matrix(output=out)
            for s in ren:
                for r in ren:
                    require(close(a[s, r], b[ren[s], ren[r]]), "renaming processes: %s sent by %r to %r is %r, expected %r", out, ren[s], ren[r],
                            b[ren[s], ren[r]], a[s, r])
    note("communication" if case["comm"] else "calls")


# ------------------------------------------------------------ shifting and stretching
@st.composite
def affine_case(draw):
    return {"trace": draw(gen.table(mode=draw(st.sampled_from(["nested", "nested", "messy"])), positive_span=True, max_procs=3, epoch=False)),
            "factor": draw(st.sampled_from([1, 1, 2, 3, 10, 1000, 0.5])), "shift": draw(st.sampled_from([0, 1, 17, 10**6, 10**12, gen.EPOCH, 0.5, -1, -25, -10**6])),
            "bins": draw(st.integers(1, 12)),
            "tiny": draw(st.integers(0, 40)) % 4}


def check_affine(case):
    t, f, s = case["trace"], case["factor"], case["shift"]
    if not t["rows"]:
        return
    if case["tiny"] == 3:
        # a far finer unit: the same numbers up to a power of two
        f = 2.0 ** -(10 + 5 * (case["bins"] % 5))
        rows = [[float(r[0])] + list(r[1:]) for r in t["rows"]]
        t = pick(t, range(len(rows)), rows)
        new = pick(t, range(len(rows)), [[r[0] * f] + r[1:] for r in rows])
        what = "stretching by %r" % f
        small = per_call(new, "analysing the changed trace")
        for c in ("time.inc", "time.exc", "_matching_timestamp"):
            if c in small:
                small[c] = [None if v is None else v / f for v in small[c]]
        compare_calls(per_call(t, "analysing the trace"), small, list(range(len(rows))), what)
        with sut("profiles"):
            a, (pb, ib, mb) = profiles(t), profiles(new)
        pb, ib = {k: v / f for k, v in pb.items()}, {k: v / f for k, v in ib.items()}
        mb = {k: [v[0], None if v[1] is None else v[1] / f, v[2]] for k, v in mb.items()}
        compare_profiles(a, (pb, ib, mb), {p: p for p, _ in t["locs"]}, 1, what)
        note("fine unit")
        return
    # floats near the nanoseconds since 1970 are 256 ns apart: only whole numbers are moved there
    if s == gen.EPOCH and (f == 0.5 or isinstance(t["rows"][0][0], float)):
        s = 10**12
    if not isinstance(t["rows"][0][0], float) and (f == 0.5 or s == 0.5):
        rows = [[r[0] * f + s] + list(r[1:]) for r in t["rows"]]
        rows = [[float(r[0])] + r[1:] for r in rows]
    else:
        rows = [[r[0] * f + s] + list(r[1:]) for r in t["rows"]]
    new = pick(t, range(len(rows)), rows)
    what = "shifting by %r and stretching by %r" % (s, f)
    compare_calls(per_call(t, "analysing the trace"), per_call(new, "analysing the changed trace"), list(range(len(rows))), what, factor=f, shift=s)
    with sut("profiles"):
        compare_profiles(profiles(t), profiles(new), {p: p for p, _ in t["locs"]}, f, what)
    if t["mode"] != "nested" or s == gen.EPOCH or not t["rows"][-1][0] > t["rows"][0][0]:
        return
    with sut("time profile"):
        a = gen.build(t).time_profile(num_bins=case["bins"])
        b = gen.build(new).time_profile(num_bins=case["bins"])
    require(set(a.columns) == set(b.columns), "%s: time profile has columns %r, was %r", what, list(b.columns), list(a.columns))
    size = (t["rows"][-1][0] - t["rows"][0][0]) * f
    tol = 0.011 * (1 + f) + size * 1e-9 + (max(abs(t["rows"][-1][0]), abs(t["rows"][0][0])) * max(f, 1) + abs(s)) * 1e-11 * (4 + len(rows))
    for c in a.columns:
        add = s if c in ("bin_start", "bin_end") else 0
        for i, (x, y) in enumerate(zip(a[c].tolist(), b[c].tolist())):
            x, y = (0 if val(x) is None else x), (0 if val(y) is None else y)
            require(abs(x * f + add - y) <= tol, "%s: time profile of %r in interval %d is %r, expected %r", what, c, i, y, x * f + add)
    note("time-profile")


def many(key):
    return lambda c: len({r[3] for r in c[key]["rows"]}) > 1 and sum(1 for r in c[key]["rows"] if r[1] == "E") > 3


SUBS = [
    Sub("alone", alone_case(), check_alone, 900, nontrivial=many("trace"),
        rule="one process or location taken out of a random trace; non-trivial: several locations and more than three enters"),
    Sub("interleave", mix_case(), check_mix, 800, nontrivial=many("trace"), rule="locations shifted against each other and ties reordered; same rule"),
    Sub("rename", rename_case(), check_rename, 700, nontrivial=many("trace"), rule="processes renamed, with their messages; same rule"),
    Sub("affine", affine_case(), check_affine, 700, nontrivial=lambda c: sum(1 for r in c["trace"]["rows"] if r[1] == "E") > 3,
        rule="all times shifted and stretched; non-trivial: more than three enters"),
]
assert tree_answer and defaultdict
