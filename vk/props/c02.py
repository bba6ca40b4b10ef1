from vk import gen
from vk.core import Sub, note, require, sut
from vk.model import M
from vk.util import column, same_base, snapshot

ASSUMPTIONS = ["event tables are in time order per location and indexed 0..n-1, as every reader produces them"]


def check(case):
    gen.labels(case, note)
    with sut("matching callers and callees"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        tr._match_caller_callee()
        df = tr.events
    m = M(case)
    same_base(before, df, "matching callers and callees")
    par, dep, ch = column(df, "_parent"), column(df, "_depth"), df["_children"].tolist()
    for i, r in enumerate(case["rows"]):
        if i in m.parent:
            require(par[i] == m.parent[i], "row %d %r: parent is %r, expected %r", i, r, par[i], m.parent[i])
            require(dep[i] == m.depth[i], "row %d %r: depth is %r, expected %r", i, r, dep[i], m.depth[i])
            got = [int(x) for x in ch[i]] if isinstance(ch[i], (list, tuple)) else []
            require(got == m.children[i], "row %d %r: children are %r, expected %r", i, r, got, m.children[i])
        else:
            require(par[i] is None and dep[i] is None, "row %d %r is no completed call but has parent %r, depth %r",
                    i, r, par[i], dep[i])
            require(not (isinstance(ch[i], (list, tuple)) and len(ch[i])), "row %d %r has children %r", i, r, ch[i])
    if m.depth and max(m.depth.values()) >= 3:
        note("deep>=3")
    if not m.nested():
        note("overlapping")


def nontrivial(case):
    m = M(case)
    return any(m.children.values())


SUBS = [
    Sub("callers", gen.table(metrics=0, max_procs=4), check, 3200, nontrivial=nontrivial,
        rule="random per-location programs (nested and messy); non-trivial: some call has a callee"),
    Sub("long", gen.table(metrics=0, sizes=(60, 100), reps=(5, 12)), check, 160, nontrivial=nontrivial,
        rule="long repeated programs; same rule"),
    gen.multiplied(gen.table(metrics=0, mode="nested", close=True, sizes=(6, 14, 30), reps=(1,), epoch=False), check, nontrivial, "rows", (33000, 66000), 8),
    gen.multiplied(gen.table(metrics=0, sizes=(2, 6, 14), reps=(1,), epoch=False, pre=False), check, nontrivial, "procs", (43, 130, 300), 24),
]
