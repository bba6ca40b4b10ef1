from vk import gen
from vk.core import Sub, note, require, sut
from vk.model import M
from vk.util import column, same_base, snapshot

ASSUMPTIONS = ["event tables are in time order per location and indexed 0..n-1, as every reader produces them"]


def check(case):
    gen.labels(case, note)
    with sut("matching events"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        tr._match_events()
        df = tr.events
    m = M(case)
    require("_matching_event" in df.columns and "_matching_timestamp" in df.columns, "matching columns missing")
    same_base(before, df, "matching events")
    ev, ts = column(df, "_matching_event"), column(df, "_matching_timestamp")
    for i in range(len(case["rows"])):
        w = m.match[i]
        require(ev[i] == w, "row %d %r: partner row is %r, expected %r", i, case["rows"][i], ev[i], w)
        wt = None if w is None else m.ts(w)
        require(ts[i] == wt, "row %d %r: partner timestamp is %r, expected %r", i, case["rows"][i], ts[i], wt)
    if any(m.match[i] is None for i in range(len(case["rows"])) if case["rows"][i][1] in "EL"):
        note("has-unmatched")
    if not m.nested():
        note("overlapping")


def nontrivial(case):
    m = M(case)
    return len(m.calls) >= 2


SUBS = [
    Sub("match", gen.table(metrics=0, max_procs=4), check, 3200, nontrivial=nontrivial,
        rule="random per-location enter/leave/instant programs (nested and messy); non-trivial: at least two completed calls"),
    Sub("long", gen.table(metrics=0, sizes=(60, 100), reps=(5, 12)), check, 160, nontrivial=nontrivial,
        rule="long repeated programs; same rule"),
    gen.multiplied(gen.table(metrics=0, mode="nested", close=True, sizes=(6, 14, 30), reps=(1,), epoch=False), check, nontrivial, "rows", (33000, 66000), 8),
    gen.multiplied(gen.table(metrics=0, sizes=(2, 6, 14), reps=(1,), epoch=False, pre=False), check, nontrivial, "procs", (43, 130, 300), 24),
]
