import os
from collections import defaultdict

from vk import gen, hpcgen
from vk.core import Sub, note, require, scratch, sut
from vk.util import val

ASSUMPTIONS = [
    "loops are shown with their own loop enter and leave types; a column that would be empty throughout may be missing",
    "two trace lines that share all their identifiers are compared together, line by line in the order of the file",
]


def read(path):
    from pipit import Trace

    return Trace.from_hpctoolkit(path)


def cells(df, name):
    return [val(v) for v in df[name].tolist()] if name in df.columns else [None] * len(df)


def rows_of(df):
    cols = {"t": "Timestamp (ns)", "et": "Event Type", "name": "Name", "RANK": "Process", "THREAD": "Thread", "CORE": "Core",
            "NODE": "Host", "ctx": "Calling Context ID", "file": "Source File Name", "line": "Source File Line Number"}
    d = {k: cells(df, c) for k, c in cols.items()}
    d["node"] = df["Node"].tolist() if "Node" in df.columns else [None] * len(df)
    return [dict(zip(d, v)) for v in zip(*d.values())]


def check(case):
    m = hpcgen.Model(case)
    want = defaultdict(list)
    events = [m.line_events(li) for li in range(len(case["lines"]))]
    norank = all(ln["id"]["RANK"] is None for ln, ev in zip(case["lines"], events) if ev)
    for ln, ev in zip(case["lines"], events):
        ident = tuple(0 if norank and k == "RANK" and ev else ln["id"][k] for k in ("RANK", "THREAD", "CORE", "NODE"))
        want[ident].append(ev)
    total = sum(len(x) for v in want.values() for x in v)
    if total == 0:
        note("skipped:no-events")
        return
    with scratch() as d:
        hpcgen.write(case, d)
        with sut("reading an HPCToolkit database"):
            tr = read(d)
    got = rows_of(tr.events)
    require(list(tr.events.index) == list(range(len(got))), "rows are not numbered from zero")
    for a, b in zip(got, got[1:]):
        require(a["t"] <= b["t"], "events are not in time order: %r after %r", b["t"], a["t"])
    require(len(got) == total, "%d events, the samples imply %d", len(got), total)
    per = defaultdict(list)
    for r in got:
        per[(r["RANK"], r["THREAD"], r["CORE"], r["NODE"])].append(r)
    require(set(per) <= set(want), "events on (process, thread, core, host) %r, trace lines are %r", sorted(map(str, per)), sorted(map(str, want)))
    for ident, ls in want.items():
        # lines with one identity: merged by time, ties in file order
        seq = sorted((e for l in ls for e in l), key=lambda e: e[0])
        have = per.get(ident, [])
        require(len(have) == len(seq), "location %r has %d events, its samples imply %d", ident, len(have), len(seq))
        for i, (g, (t, et, c)) in enumerate(zip(have, seq)):
            loop = case["ctx"][c]["t"] == 1
            w = ("Loop " if loop else "") + et
            require(g["t"] == t and g["et"] == w and g["ctx"] == case["ids"][c] and g["name"] == m.name(c),
                    "event %d of location %r is %s %r (context %r) at %r, the samples imply %s %r (context %r) at %r",
                    i, ident, g["et"], g["name"], g["ctx"], g["t"], w, m.name(c), case["ids"][c], t)
    if norank:
        note("without-ranks")
    note("lines:%d" % len(case["lines"]))
    if any(e[1] < 0 for l in case["lines"] for e in l["el"]):
        note("idle-samples")


def nontrivial(case):
    m = hpcgen.Model(case)
    for ln in case["lines"]:
        for (_, a), (_, b) in zip(ln["el"], ln["el"][1:]):
            if a >= 0 and b >= 0 and a != b:
                x, y = m.chain(a), m.chain(b)
                if x[0] == y[0] and x != y and len(x) > 1 and len(y) > 1:
                    return True
    return False


SUBS = [
    Sub("samples", hpcgen.database(samples=(2, 4, 8, 20, 40)), check, 4000, nontrivial=nontrivial,
        rule="random context trees and sample lines; non-trivial: a step between two contexts that share some but not all open contexts"),
    gen.grown("large", hpcgen.database(samples=(8, 20)), hpcgen.longer, check, nontrivial, (3000, 12000), 16, "trace lines of thousands of samples"),
    gen.grown("crowd", hpcgen.database(samples=(3, 8), full_ids=True), hpcgen.crowded, check, nontrivial, (43, 130, 400), 24, "hundreds of trace lines, thousands of contexts"),
]
