import os

from hypothesis import strategies as st

from vk import hpcgen, nsysgen, otf2gen, projgen
from vk.core import Sub, close, note, require, scratch, sut
from vk.props import c15, c19, c21, c23
from vk.props.c03 import walk
from vk.props.c14 import cell
from vk.util import val

ASSUMPTIONS = [
    "every process has one thread and one outermost call named Computation, events of a process have increasing whole microseconds",
    "entry methods of the Projections log belong to one chare; a chare's name in front of the entry's is not significant",
]
NAMES = ["main", "foo", "bar", "Idle", "MPI_Wait", "MPI_Recv", "foo->bar", "solve(double*)", "a b", "Unpack", "x"]
ROOT = "Computation"


@st.composite
def run_case(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    start = draw(st.sampled_from([0, 3, 10**6]))
    dt = st.one_of(st.sampled_from([1, 1, 2, 10]), st.integers(1, 3000))
    procs = []
    for p in range(n):
        k = draw(st.sampled_from([2, 8, 8, 20]))
        prog = draw(st.lists(st.tuples(st.sampled_from("EEELL"), st.integers(0, len(names) - 1), dt), min_size=k // 2, max_size=k))
        rep = draw(st.sampled_from([1, 1, 3]))
        t = start + draw(st.sampled_from([0, 0, 5]))
        ev, stack = [[t, "E", ROOT]], []
        for (o, ni, d) in prog * rep:
            t += d
            if o == "L" and not stack:
                o = "E"
            if o == "E":
                stack.append(names[ni])
                ev.append([t, "E", names[ni]])
            else:
                ev.append([t, "L", stack.pop()])
        while stack:
            t += 1
            ev.append([t, "L", stack.pop()])
        ev.append([t + draw(dt), "L", ROOT])
        procs.append(ev)
    return {"names": names, "procs": procs, "pids": draw(st.lists(nsysgen.IDS, min_size=n, max_size=n, unique=True)), "sec": draw(st.booleans()),
            "res": draw(st.sampled_from([10**6, 10**9, 10**7])), "num": draw(st.integers(1, 3)), "bins": draw(st.integers(1, 8)),
            "early": draw(st.booleans()), "idle_kind": draw(st.booleans()), "formats": draw(st.permutations(["csv", "otf2", "projections", "hpctoolkit", "nsight"])),
            "fset": draw(st.lists(st.sampled_from(names + ["Idle"]), min_size=1, max_size=3, unique=True)), "mpi": draw(st.booleans())}


# ------------------------------------------------------------ one writer per format; returns (trace, process map)
def make_csv(case, d):
    from pipit import Trace

    ev = sorted(((t, p, k, o, n) for p, es in enumerate(case["procs"]) for k, (t, o, n) in enumerate(es)), key=lambda x: x[:3])
    p = os.path.join(d, "run.csv")
    with open(p, "w") as f:
        f.write("Timestamp (%s), Event Type, Name, Process\n" % ("s" if case["sec"] else "ns"))
        for t, pr, _, o, n in ev:
            ts = repr(t / 10**6) if case["sec"] else str(t * 1000)
            f.write("%s, %s, %s, %d\n" % (ts, "Enter" if o == "E" else "Leave", cell(n), pr))
    return lambda: Trace.from_csv(p), None


def make_otf2(case, d):
    regs = [ROOT] + case["names"]
    n = len(case["procs"])
    ev = sorted(((t, p, k, o, nm) for p, es in enumerate(case["procs"]) for k, (t, o, nm) in enumerate(es)), key=lambda x: x[:3])
    f = case["res"] // 10**6
    src = {"res": case["res"], "base": 0, "groups": [["CPU_THREAD"]] * n, "loc_order": list(range(n)), "regions": regs, "pad": 0, "members": [],
           "classes": [], "mpad": 0, "rich": False, "parallel": None, "events": [[p, t * f, o, regs.index(nm)] for t, p, _, o, nm in ev]}
    p = os.path.join(d, "otf2")
    otf2gen.write(src, p)
    return lambda: c15.read(src, p, num_processes=case["num"], **({"create_cct": True} if case["early"] else {})), None


def make_projections(case, d):
    names = case["names"]
    logs = []
    for es in case["procs"]:
        recs = []
        for k, (t, o, nm) in enumerate(es):
            if nm == ROOT:
                recs.append(["bcomp" if o == "E" else "ecomp", t, 0, 0])
            elif nm in ("Idle", "Unpack") and case["idle_kind"]:
                recs.append([("b" if o == "E" else "e") + {"Idle": "idle", "Unpack": "unp"}[nm], t, 0, 0])
            else:
                recs.append(["bproc" if o == "E" else "eproc", t, names.index(nm), k % 7])
        logs.append(recs)
    src = {"exe": "run", "pes": len(logs), "chares": [["C", 0]], "entries": [[i, nm, 0] for i, nm in enumerate(names)], "events": ["e"], "evoff": 0,
           "stats": ["s"], "papi": 0, "logs": logs, "sts_blank": False}
    p = os.path.join(d, "projections")
    projgen.write(src, p)
    return lambda: c19.read(p, num_processes=case["num"], **({"create_cct": True} if case["early"] else {})), None


def make_hpctoolkit(case, d):
    names = case["names"]
    ctx, byp = [{"p": -1, "t": -1, "name": ROOT}], {(): 0}
    lines = []
    for p, es in enumerate(case["procs"]):
        el, path = [], []
        for (t, o, nm) in es:
            if nm == ROOT:
                el.append([t * 1000, 0 if o == "E" else -1])
                continue
            if o == "E":
                k = tuple(path)
                path.append(nm)
                if tuple(path) not in byp:
                    byp[tuple(path)] = len(ctx)
                    ctx.append({"p": byp[k], "t": 0, "f": names.index(nm), "s": None, "m": None})
            else:
                path.pop()
            el.append([t * 1000, byp[tuple(path)]])
        lines.append({"el": el, "id": {"NODE": 5, "RANK": p, "THREAD": 0, "CORE": None}})
    src = {"files": ["a.c"], "mods": ["exe"], "funcs": [[n, 0, i, 0] for i, n in enumerate(names)], "ctx": ctx, "ids": [i + 1 for i in range(len(ctx))],
           "lines": lines, "base": 10**9, "tail": 0, "prof_perm": False, "summary": True}
    p = os.path.join(d, "hpctoolkit")
    hpcgen.write(src, p)
    return lambda: c21.read(p), None


def make_nsight(case, d):
    rs = []
    for p, es in enumerate(case["procs"]):
        stack = []
        for (t, o, nm) in es:
            if o == "E":
                stack.append((nm, t))
            else:
                nm2, s = stack.pop()
                rs.append([nm2, s * 1000, t * 1000, case["pids"][p], case["pids"][p]])
    p = os.path.join(d, "report.csv")
    nsysgen.write({"ranges": rs, "cols": ["Start (ns)", "End (ns)", "Name", "PID", "TID", "RangeId"], "rid": 0}, p)
    return lambda: c23.read(p, **({"create_cct": True} if case["early"] else {})), case["pids"]


MAKE = {"csv": make_csv, "otf2": make_otf2, "projections": make_projections, "hpctoolkit": make_hpctoolkit, "nsight": make_nsight}


# ------------------------------------------------------------ the expected answers
def model(case):
    """calls: process -> [(name, start, duration, depth, parent ordinal)] in order of entry."""
    t0 = min(es[0][0] for es in case["procs"])
    calls, inc, exc, paths = {}, {}, {}, set()
    for p, es in enumerate(case["procs"]):
        out, stack = [], []
        for t, o, nm in es:
            if o == "E":
                stack.append(len(out))
                out.append([nm, (t - t0) * 1000, None, len(stack) - 1, stack[-2] if len(stack) > 1 else None])
                paths.add(tuple(out[k][0] for k in stack))
            else:
                k = stack.pop()
                out[k][2] = (t - t0) * 1000 - out[k][1]
        ex = [c[2] for c in out]
        for c in out:
            if c[4] is not None:
                ex[c[4]] -= c[2]
        calls[p] = out
        for c, e in zip(out, ex):
            inc[(c[0], p)] = inc.get((c[0], p), 0) + c[2]
            exc[(c[0], p)] = exc.get((c[0], p), 0) + e
    return calls, inc, exc, paths


def short(n):
    return n[3:] if isinstance(n, str) and n.startswith("C::") else n


def check(case):
    calls, inc, exc, paths = model(case)
    nproc = len(case["procs"])
    profiles = {}
    traces = []
    tolr = 1e-6 if case["sec"] else 1e-9
    with scratch() as d:
        for f in case["formats"]:
            get, pids = MAKE[f](case, d)
            with sut("reading the run in %s form" % f):
                tr = get()
            pmap = {p: p for p in range(nproc)}
            if pids is not None:
                pmap = {val(a): pids.index(val(b)) for a, b in zip(tr.events["Process"].tolist(), tr.events["PID"].tolist())}
            traces.append((f, tr))
            one(case, f, tr, pmap, calls, inc, exc, paths)
            with sut("time profile of the %s trace" % f):
                profiles[f] = tr.time_profile(num_bins=case["bins"])
    first = case["formats"][0]
    a = {short(c): [0 if val(x) is None else float(x) for x in profiles[first][c].tolist()] for c in profiles[first].columns if not c.startswith("bin_")}
    for f in case["formats"][1:]:
        b = {short(c): [0 if val(x) is None else float(x) for x in profiles[f][c].tolist()] for c in profiles[f].columns if not c.startswith("bin_")}
        require(set(a) == set(b), "time profile has columns %r for %s and %r for %s", sorted(b), f, sorted(a), first)
        span = max(es[-1][0] for es in case["procs"]) * 1000
        for c in a:
            for i, (x, y) in enumerate(zip(a[c], b[c])):
                require(abs(x - y) <= 0.03 + 1e-8 * span, "time profile of %r in interval %d is %r for %s and %r for %s", c, i, y, f, x, first)
    # all runs side by side
    use = [(f, t) for f, t in traces if f != "projections"]
    with sut("multi-run analysis of all formats"):
        df = type(use[0][1]).multirun_analysis([t for _, t in use])
    require([val(x) for x in df.index.tolist()] == [nproc] * len(use), "multi-run rows are labelled %r for %d processes", df.index.tolist(), nproc)
    mean = {}
    for (n, p), v in exc.items():
        mean.setdefault(n, []).append(v)
    for c in df.columns:
        for (f, _), g in zip(use, df[c].tolist()):
            w = sum(mean[c]) / len(mean[c]) if c in mean else None
            require(close(g, w, rel=tolr, abs_=1e-2), "multi-run entry of %r for %s is %r, expected %r", c, f, g, w)
    note("processes:%d" % nproc)


def one(case, f, tr, pmap, calls, inc, exc, paths):
    near = dict(rel=1e-6 if case["sec"] else 1e-9, abs_=1e-2)
    with sut("analysing the %s trace" % f):
        tr.calc_exc_metrics(["Timestamp (ns)"])
        if tr.cct is None:
            tr.create_cct()
    df = tr.events
    ts, et, nm, pr = (df[c].tolist() for c in ("Timestamp (ns)", "Event Type", "Name", "Process"))
    ti, te, dp, pa = ([val(x) for x in df[c].tolist()] for c in ("time.inc", "time.exc", "_depth", "_parent"))
    t0 = min(ts)
    ordinal, count = {}, {}
    for i in range(len(df)):
        if et[i] != "Enter":
            continue
        require(val(pr[i]) in pmap, "%s: event on process %r", f, pr[i])
        p = pmap[val(pr[i])]
        k = count.get(p, 0)
        count[p] = k + 1
        ordinal[i] = k
        require(k < len(calls[p]), "%s: process %d has more than its %d calls", f, p, len(calls[p]))
        n, s, du, de, par = calls[p][k]
        require(short(nm[i]) == n and close(ts[i] - t0, s, **near), "%s: call %d of process %d is %r at %r, expected %r at %r", f, k, p, nm[i], ts[i] - t0, n, s)
        require(ti[i] is not None and close(ti[i], du, **near), "%s: call %d (%r) of process %d lasts %r, expected %r", f, k, n, p, ti[i], du)
        require(dp[i] == de and (pa[i] is None if par is None else ordinal.get(pa[i]) == par and pmap[val(pr[pa[i]])] == p),
                "%s: call %d (%r) of process %d has depth %r, caller row %r, expected %r, call %r", f, k, n, p, dp[i], pa[i], de, par)
    for p in calls:
        require(count.get(p) == len(calls[p]), "%s: process %d has %r calls, expected %d", f, p, count.get(p), len(calls[p]))
    require(len(df) == 2 * sum(map(len, calls.values())), "%s: %d events for %d calls", f, len(df), sum(map(len, calls.values())))
    with sut("profiles of the %s trace" % f):
        fp = tr.flat_profile(metrics=["time.inc", "time.exc"], per_process=True)
        it = tr.idle_time(idle_functions=[n for n in case["fset"]], mpi_events=case["mpi"])
        it0 = tr.idle_time()
        li = tr.load_imbalance(num_processes=2)
    got = {(short(n), pmap[val(p)]): row for (n, p), row in zip(fp.index.tolist(), fp.values.tolist())}
    require(set(got) == set(inc), "%s: profile has %r, expected %r", f, sorted(got), sorted(inc))
    for k in inc:
        require(close(got[k][0], inc[k], **near) and close(got[k][1], exc[k], **near), "%s: profile of %r is %r, expected %r, %r", f, k, got[k], inc[k], exc[k])
    if f != "projections" or case["idle_kind"]:
        for table, fs in ((it, set(case["fset"]) | ({"MPI_Wait", "MPI_Waitall", "MPI_Recv"} if case["mpi"] else set())), (it0, {"Idle"})):
            if f == "projections" and not fs <= {"Idle"}:
                continue
            for p, v in zip(table["Process"].tolist(), table["Idle Time"].tolist()):
                w = sum(inc.get((n, pmap[val(p)]), 0) for n in fs)
                require(close(v, w, **near), "%s: idle time of process %r in %r is %r, expected %r", f, pmap[val(p)], sorted(fs), v, w)
            require(sorted(pmap[val(p)] for p in table["Process"].tolist()) == sorted(calls), "%s: idle times of processes %r", f, table["Process"].tolist())
    by = {}
    for (n, p), v in exc.items():
        by.setdefault(n, {})[p] = v
    require({short(n) for n in li.index.tolist()} == set(by) and len(li) == len(by), "%s: load imbalance of %r, expected %r", f, li.index.tolist(), sorted(by))
    for n, row in zip(li.index.tolist(), li.to_dict("records")):
        t = by[short(n)]
        mean = sum(t.values()) / len(t)
        require(close(row["time.exc.mean"], mean, **near), "%s: mean of %r is %r, expected %r", f, n, row["time.exc.mean"], mean)
        if mean > 0:
            require(close(row["time.exc.imbalance"], max(t.values()) / mean, rel=1e-5), "%s: imbalance of %r is %r, expected %r", f, n,
                    row["time.exc.imbalance"], max(t.values()) / mean)
        top = [t.get(pmap[val(p)]) for p in row["Top processes"]]
        require(len(top) == min(2, len(t)) and all(close(x, y, **near) for x, y in zip(top, sorted(t.values(), reverse=True))),
                "%s: top processes of %r are %r with %r, totals are %r", f, n, row["Top processes"], top, t)
    # the calling context tree
    nodes = walk(tr.cct)
    col = df["Node" if "Graph_Node" not in df.columns else "Graph_Node"].tolist()
    name = {}
    for i, g in enumerate(col):
        if et[i] == "Enter":
            require(hasattr(g, "_pipit_nid"), "%s: enter row %d refers to no tree node", f, i)
            name.setdefault(id(g), short(nm[i]))
    have = []
    for n, _ in nodes:
        p, k = [], n
        while k is not None:
            p.append(name.get(id(k)))
            k = k.parent
        have.append(tuple(p[::-1]))
    require(len(have) == len(set(have)) and set(have) == paths, "%s: the calling context tree has paths %r, expected %r", f, sorted(map(str, have)), sorted(map(str, paths)))
    note("format:" + f)


SUBS = [
    Sub("formats", run_case(), check, 480, nontrivial=lambda c: len(c["procs"]) > 1 and max(len(e) for e in c["procs"]) > 8,
        rule="random programs written in all five formats; non-trivial: several processes and more than four calls"),
]
