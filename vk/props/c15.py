import os
from collections import defaultdict

from vk import gen, otf2gen
from vk.core import Sub, note, require, scratch, sut
from vk.util import val

ASSUMPTIONS = [
    "the threads of a process are its CPU-thread locations in order of their numbers; the archive is written by the otf2 library itself",
]


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def rows_of(df, extra=()):
    cols = ["Timestamp (ns)", "Event Type", "Name", "Process", "Thread", "Attributes"]
    for c in cols:
        require(c in df.columns, "no column %r: %r", c, list(df.columns))
    data = [[val(v) if c != "Attributes" else v for v in df[c].tolist()] for c in cols]
    return [dict(zip(("ns", "type", "name", "proc", "thread", "attrs"), r)) for r in zip(*data)]


def near(a, b):
    return a is not None and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def compare_events(df, w):
    got = rows_of(df)
    require(len(got) == len(w.rows), "%d rows for %d recorded events", len(got), len(w.rows))
    require(list(df.index) == list(range(len(got))), "rows are not numbered from zero")
    for a, b in zip(got, got[1:]):
        require(a["ns"] <= b["ns"], "rows are not in time order: %r after %r", b["ns"], a["ns"])
    gl, wl = defaultdict(list), defaultdict(list)
    for i, r in enumerate(got):
        gl[(r["proc"], r["thread"])].append((i, r))
    for r in w.rows:
        wl[(r["proc"], r["thread"])].append(r)
    require(set(gl) == set(wl), "events lie on the locations %r, expected %r", sorted(gl), sorted(wl))
    pairs = []
    for loc, ws in wl.items():
        gs = gl[loc]
        require(len(gs) == len(ws), "location %r has %d events, expected %d", loc, len(gs), len(ws))
        for k, ((i, g), x) in enumerate(zip(gs, ws)):
            for f in ("type", "name"):
                require(g[f] == x[f], "event %d of location %r has %s %r, expected %r", k, loc, f, g[f], x[f])
            require(near(g["ns"], x["ns"]), "event %d of location %r is at %r ns, expected %r", k, loc, g["ns"], x["ns"])
            ga = None if not isinstance(g["attrs"], dict) else norm(g["attrs"])
            require(ga == norm(x["attrs"]), "event %d of location %r has attributes %r, expected %r", k, loc, g["attrs"], x["attrs"])
            pairs.append((i, x))
    return pairs


def read(case, path, **kw):
    from pipit import Trace

    if case["parallel"] is not None and "num_processes" not in kw:
        kw["num_processes"] = case["parallel"]
    return Trace.from_otf2(path, **kw)


def check(case):
    with scratch() as d:
        path = os.path.join(d, "a")
        w = otf2gen.write(case, path)
        with sut("reading OTF2"):
            tr = read(case, path)
    if not w.rows:
        note("no-events")
    compare_events(tr.events, w)
    note("locations:%d" % len({(r["proc"], r["thread"]) for r in w.rows}))
    note("resolution:%d" % case["res"])
    if any(x is None for x in w.loc):
        note("non-cpu-locations")
    if len(set(w.times)) < len(w.times):
        note("ties")


def nontrivial(case):
    ts = [e[1] for e in case["events"]]
    return sum(len(g) for g in case["groups"]) > 1 and len(set(ts)) < len(ts) and any(e[2] not in "EL" for e in case["events"])


SUBS = [
    Sub("events", otf2gen.archive(), check, 900, nontrivial=nontrivial,
        rule="random archives with message, thread, parameter and call events; non-trivial: several locations, equal times and instant events"),
    gen.grown("large", otf2gen.archive(sizes=(10, 30)), otf2gen.longer, check, nontrivial, (3000, 12000), 16, "archives of thousands of events"),
    gen.grown("crowd", otf2gen.archive(sizes=(3, 10)), otf2gen.crowded, check, nontrivial, (20, 70, 150), 24, "archives of up to several hundred locations and regions"),
]
