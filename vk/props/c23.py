import os

from vk import gen, nsysgen
from vk.core import Sub, note, require, scratch, sut
from vk.props.c03 import check_tree
from vk.util import val

ASSUMPTIONS = [
    "ranges of one thread are nested or disjoint, as the push/pop report lists them, where nesting is compared; ranges that coincide exactly may nest either way",
    "a report in which every range has equal process and thread identifiers has one thread per process",
]


def read(path, **kw):
    from pipit import Trace

    return Trace.from_nsight(path, **kw)


def columns(df):
    return {c: [val(v) for v in df[c].tolist()] for c in df.columns}


def check(case):
    cells = nsysgen.cells(case)
    threads = any(c["PID"] != c["TID"] for c in cells)
    with scratch() as d:
        p = os.path.join(d, "report.csv")
        nsysgen.write(case, p)
        with sut("reading an Nsight report"):
            tr = read(p, create_cct=True) if case["cct"] else read(p)
    df = tr.events
    n = len(cells)
    for c in ["Timestamp (ns)", "Event Type", "Name", "Process"] + (["Thread"] if threads else []):
        require(c in df.columns, "no column %r", c)
    require(threads or "Thread" not in df.columns, "a thread column although every process is its own only thread")
    for c in case["cols"]:
        require(c in df.columns or c in ("Start (ns)", "End (ns)"), "column %r of the report is lost", c)
    require(list(df.index) == list(range(len(df))), "rows are not numbered from zero")
    require(len(df) == 2 * n, "%d rows for %d ranges", len(df), n)
    col = columns(df)
    ts = col["Timestamp (ns)"]
    for a, b in zip(ts, ts[1:]):
        require(a <= b, "events are not in time order: %r after %r", b, a)
    where = {}
    for i in range(len(df)):
        r = col["RangeId"][i]
        require(isinstance(r, (int, float)) and 0 <= r - case["rid"] < n, "row %d has range %r, which the report does not list", i, r)
        k = int(r) - case["rid"]
        et = col["Event Type"][i]
        require((k, et) not in where and et in ("Enter", "Leave"), "range %d has a second %r row", k, et)
        where[(k, et)] = i
        c = cells[k]
        t = c["Start (ns)"] if et == "Enter" else c["End (ns)"]
        require(ts[i] == t, "the %s of range %d is at %r, the report says %r", et, k, ts[i], t)
        for x in case["cols"]:
            if x in ("Start (ns)", "End (ns)"):
                continue
            g, w = col[x][i], c[x]
            require(g == w or (x in ("Name", "RangeStack") and str(g) == w), "the %s of range %d has %s %r, the report says %r", et, k, x, g, w)
    # numbering
    pmap, tmap = {}, {}
    for (k, et), i in where.items():
        c = cells[k]
        require(pmap.setdefault(c["PID"], col["Process"][i]) == col["Process"][i], "process %r is numbered %r and %r", c["PID"], pmap[c["PID"]], col["Process"][i])
        if threads:
            key = (c["PID"], c["TID"])
            require(tmap.setdefault(key, col["Thread"][i]) == col["Thread"][i], "thread %r is numbered %r and %r", key, tmap[key], col["Thread"][i])
    require(sorted(pmap.values()) == list(range(len(pmap))), "process identifiers %r become %r", list(pmap), list(pmap.values()))
    for p in pmap:
        ns = [v for (q, _), v in tmap.items() if q == p]
        require(sorted(ns) == list(range(len(ns))), "threads of process %r become %r", p, {k: v for k, v in tmap.items() if k[0] == p})
    note("threads" if threads else "no-threads")
    note("processes:%d" % len(pmap))
    if case["cct"]:
        rows = [[ts[i], "E" if col["Event Type"][i] == "Enter" else "L", str(col["Name"][i]), i] for i in range(2 * n)]
        locs = [[col["Process"][i], col["Thread"][i] if threads else 0] for i in range(2 * n)]
        check_tree(tr, {"rows": rows, "locs": locs, "thread": threads})
    if not case["nested"]:
        return
    with sut("nesting of a report's ranges"):
        tr._match_caller_callee()
    ev = tr.events
    match = [val(v) for v in ev["_matching_event"].tolist()]
    depth = [val(v) for v in ev["_depth"].tolist()]
    parent = [val(v) for v in ev["_parent"].tolist()]
    loc = [(c["PID"], c["TID"]) for c in cells]
    rng = [(c["Start (ns)"], c["End (ns)"]) for c in cells]
    for k in range(n):
        e, l = where[(k, "Enter")], where[(k, "Leave")]
        require(match[e] == l and match[l] == e, "range %d %r (rows %d, %d) is paired with rows %r and %r", k, case["ranges"][k], e, l, match[e], match[l])
        s, t = rng[k]
        # unambiguous only if no range coincides and no empty range touches a boundary
        out, amb = [], False
        for j in range(n):
            if j == k or loc[j] != loc[k]:
                continue
            a, b = rng[j]
            if (a, b) == (s, t) or (s == t and (a == s or b == s)):
                amb = True
            elif a <= s and t <= b:
                out.append(j)
        if amb or len({rng[i] for i in out}) < len(out):
            note("ambiguous")
            continue
        require(depth[e] == len(out), "range %d %r has depth %r, %d ranges enclose it", k, case["ranges"][k], depth[e], len(out))
        w = min(out, key=lambda j: rng[j][1] - rng[j][0]) if out else None
        g = parent[e]
        require((g is None) if w is None else (g == where[(w, "Enter")]), "range %d %r lies in row %r, expected range %r", k, case["ranges"][k], g, w)


def signatures(groups):
    """{process: {thread: [event]}} -> what is left when the numbers are forgotten."""
    return sorted(sorted(sorted(evs) for evs in ths.values()) for ths in groups.values())


def check_anonymous(case):
    """Without identifiers the ranges are compared as multisets per process and thread."""
    cells = nsysgen.cells(case)
    if not cells:
        return
    threads = any(c["PID"] != c["TID"] for c in cells)
    with scratch() as d:
        p = os.path.join(d, "report.csv")
        nsysgen.write(case, p)
        with sut("reading an Nsight report"):
            df = read(p).events
    require(len(df) == 2 * len(cells), "%d rows for %d ranges", len(df), len(cells))
    col = columns(df)
    keep = [c for c in case["cols"] if c in ("Name", "PID", "TID", "Lvl", "Duration (ns)")]
    for c in keep:
        require(c in col, "column %r of the report is lost", c)
    got, want = {}, {}
    for i in range(len(df)):
        key = col["Thread"][i] if threads else 0
        got.setdefault(col["Process"][i], {}).setdefault(key, []).append(
            (col["Timestamp (ns)"][i], col["Event Type"][i]) + tuple(str(col[c][i]) for c in keep))
    for c in cells:
        evs = want.setdefault(c["PID"], {}).setdefault(c["TID"], [])
        evs.append((c["Start (ns)"], "Enter") + tuple(str(c[x]) for x in keep))
        evs.append((c["End (ns)"], "Leave") + tuple(str(c[x]) for x in keep))
    require(sorted(got) == list(range(len(want))), "the %d processes are numbered %r", len(want), sorted(got))
    for p, ths in got.items():
        require(sorted(ths) == list(range(len(ths))), "the threads of process %r are numbered %r", p, sorted(ths))
    g, w = signatures(got), signatures(want)
    require(g == w, "the events by process and thread are %.300r, the report says %.300r", g, w)
    rs = [tuple(r) for r in case["ranges"]]
    if len(set(rs)) < len(rs):
        note("identical-ranges")


def nontrivial(case):
    r = case["ranges"]
    at = {(b[1], b[3], b[4]) for b in r if b[1] != b[2]}
    return len({(x[3], x[4]) for x in r}) > 1 and len(r) > 3 and any((a[2], a[3], a[4]) in at for a in r)


SUBS = [
    Sub("nested", nsysgen.report(), check, 2600, nontrivial=nontrivial,
        rule="push/pop ranges of random nested programs; non-trivial: more than three ranges on several threads, some of one thread touching"),
    Sub("free", nsysgen.report(nested=False), check, 900, nontrivial=lambda c: len(c["ranges"]) > 5,
        rule="arbitrary ranges, rows and numbering only; non-trivial: more than five ranges"),
    Sub("anonymous", nsysgen.anonymous(), check_anonymous, 900, nontrivial=lambda c: len({tuple(r) for r in c["ranges"]}) < len(c["ranges"]),
        rule="reports without range identifiers, some ranges listed twice; non-trivial: identical ranges"),
    gen.grown("large", nsysgen.report(nested=False), nsysgen.longer, check, lambda c: len(c["ranges"]) > 5, (5000, 20000), 16, "reports of thousands of ranges"),
    gen.grown("crowd", nsysgen.report(nested=False), nsysgen.crowded, check, lambda c: len(c["ranges"]) > 5, (43, 300), 40, "reports of hundreds of processes and threads"),
]
