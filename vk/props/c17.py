import os

from vk import gen, otf2gen
from vk.core import Sub, note, require, scratch, sut
from vk.props.c15 import compare_events, read
from vk.util import column

ASSUMPTIONS = [
    "counters are synchronous: recorded directly before their enter or leave event at the same time on the same thread; their values are below 2^53",
    "a counter that no event carries may have no column",
]


def check(case):
    with scratch() as d:
        path = os.path.join(d, "a")
        w = otf2gen.write(case, path)
        if not w.rows:
            note("skipped:no-events")
            return
        with sut("reading OTF2"):
            tr = read(case, path)
    df = tr.events
    pairs = compare_events(df, w)
    names = ["CTR_%d" % j for j in range(len(case["members"]))]
    for nm in names:
        used = any(nm in x["metrics"] for _, x in pairs)
        if nm not in df.columns:
            require(not used, "no column for counter %r", nm)
            continue
        got = column(df, nm)
        for i, x in pairs:
            want = x["metrics"].get(nm)
            require(got[i] == want and (got[i] is None) == (want is None),
                    "row %d (%s %r of %d/%d): counter %s is %r, recorded was %r", i, x["type"], x["name"], x["proc"], x["thread"], nm, got[i], want)
    extra = set(df.columns) - set(names) - {"Timestamp (ns)", "Event Type", "Name", "Thread", "Process", "Attributes"}
    require(not extra, "unexpected columns %r", extra)
    note("counters:%d" % len(names))
    note("classes:%d" % len(case["classes"]))


def nontrivial(case):
    ev = [e for e in case["events"] if len(e) > 4]
    return any(e[4] for e in ev) and any(not e[4] for e in ev) and sum(len(g) for g in case["groups"]) > 1


from hypothesis import strategies as st  # noqa: E402

MET = st.sampled_from([1, 2, 3, 4]).flatmap(lambda n: otf2gen.archive(metrics=n, sizes=(6, 14, 30)))
SUBS = [
    Sub("counters", MET, check, 900, nontrivial=nontrivial,
        rule="archives with one or two counter classes; non-trivial: events with and without counters, several locations"),
    gen.grown("large", MET, otf2gen.longer, check, nontrivial, (3000, 12000), 16, "archives of thousands of events"),
    gen.grown("crowd", MET, otf2gen.crowded, check, nontrivial, (20, 70), 16, "archives of up to several hundred locations and regions"),
]
