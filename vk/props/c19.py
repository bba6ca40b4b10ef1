import os

from vk import gen, projgen
from vk.core import Sub, note, require, scratch, sut
from vk.util import val

ASSUMPTIONS = [
    "entry methods, user events and statistics that a record refers to are declared in the symbol file; names hold no quotes or runs of blanks",
    "entry names may be shown with or without their chare's name; surrounding blanks of user-given names are not significant",
    "user supplied values carry no time in the log; their place in the time order is not part of the promise",
]


def words(x):
    return str(x).replace('"', " ").split()


def detail_ok(want, got):
    if want == "any":
        return True
    if want is None:
        return got is None or got == {}
    if not isinstance(got, dict):
        return False
    for k, w in want.items():
        if k.endswith("*"):
            ks = [x for x in got if x.startswith(k[:-1])]
            if len(ks) != 1 or list(got[ks[0]]) != w:
                return False
            continue
        if k not in got:
            return False
        g = got[k]
        if isinstance(w, list) and w and w[0] == "words":
            if words(g) != w[1]:
                return False
        elif isinstance(w, tuple):
            if g not in w:
                return False
        elif isinstance(w, list):
            if list(g) != w:
                return False
        elif g != w:
            return False
    return True


def compare(df, exp):
    for c in ("Timestamp (ns)", "Event Type", "Name", "Process", "Attributes"):
        require(c in df.columns, "no column %r", c)
    ts = [val(v) for v in df["Timestamp (ns)"].tolist()]
    for a, b in zip(ts, ts[1:]):
        require(a <= b, "events are not in time order: %r after %r", b, a)
    require(list(df.index) == list(range(len(ts))), "rows are not numbered from zero")
    got = {p: [] for p in range(len(exp))}
    for t, et, nm, p, at in zip(ts, df["Event Type"].tolist(), df["Name"].tolist(), df["Process"].tolist(), df["Attributes"].tolist()):
        require(p in got, "event %r on process %r, which has no log", nm, p)
        got[p].append((t, et, nm, at if isinstance(at, dict) else None))
    for p, want in enumerate(exp):
        untimed = [e for e in want if e[0] is None]
        want = sorted([e for e in want if e[0] is not None], key=lambda e: e[0])
        free = [g for g in got[p] if g[2] == "User Supplied" and g[1] == "Instant"]
        have = [g for g in got[p] if not (g[2] == "User Supplied" and g[1] == "Instant")]
        require(len(free) == len(untimed), "process %d has %d user supplied values, the log %d", p, len(free), len(untimed))
        for g, w in zip(free, untimed):
            require(detail_ok(w[3], g[3]), "user supplied value of process %d has %r, expected %r", p, g[3], w[3])
        for i, (g, w) in enumerate(zip(have, want)):
            require(g[0] == w[0] and g[1] == w[1] and g[2].strip() in w[2],
                    "event %d of process %d is %r at %r ns (%s), the log says %r at %r ns (%s)", i, p, g[2], g[0], g[1], w[2][0], w[0], w[1])
            require(detail_ok(w[3], g[3]), "event %d of process %d (%r) has details %r, the log says %r", i, p, g[2], g[3], w[3])
        require(len(have) == len(want), "process %d has %d events, its log stands for %d: %r", p, len(have), len(want),
                (have[len(want):] or want[len(have):])[:2])


def read(path, **kw):
    from pipit import Trace

    return Trace.from_projections(path, **kw)


def check(case):
    with scratch() as d:
        path = os.path.join(d, "run")
        exp = projgen.write(case, path)
        kw = {"num_processes": 1} if len(case["logs"][0]) % 2 else {}
        with sut("reading Projections logs"):
            tr = read(path, **kw)
    compare(tr.events, exp)
    for k in {r[0] for log in case["logs"] for r in log}:
        note("record:" + k)
    if any(log and log[-1][0] != "ecomp" for log in case["logs"]):
        note("unfinished-log")


def nontrivial(case):
    return len({r[0] for log in case["logs"] for r in log}) >= 6


SUBS = [
    Sub("records", projgen.directory(), check, 2200, nontrivial=nontrivial,
        rule="random logs over all 28 record kinds, unknown and header lines; non-trivial: at least six kinds of records"),
    gen.grown("large", projgen.directory(sizes=(6, 15)), projgen.longer, check, nontrivial, (3000, 12000), 16, "logs of thousands of records and hundreds of entry methods"),
]
