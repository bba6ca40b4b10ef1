import os

from vk import gen, otf2gen
from vk.core import Sub, isnull, note, require, scratch, sut
from vk.props.c15 import compare_events, read

ASSUMPTIONS = [
    "the archive's content is what the otf2 library wrote and reports; a definition with a single field is shown as that field's value",
]


def plain(x):
    """Values as shown: numbers, strings, containers; other objects by their text."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


def check(case):
    with scratch() as d:
        path = os.path.join(d, "a")
        w = otf2gen.write(case, path)
        if not w.rows:
            note("no-events")
        want = otf2gen.expected_definitions(path)
        with sut("reading OTF2"):
            tr = read(case, path)
    df = tr.definitions
    for c in ("Definition Type", "ID", "Attributes"):
        require(c in df.columns, "no column %r in the definitions", c)
    got = {}
    n = 0
    noid = {}
    for k, i, a in zip(df["Definition Type"].tolist(), df["ID"].tolist(), df["Attributes"].tolist()):
        n += 1
        if isnull(i):
            noid.setdefault(k, []).append(plain(a))
        else:
            require(int(i) == i and (k, int(i)) not in got, "definition %s %r appears twice", k, i)
            got[(k, int(i))] = plain(a)
    require(len(noid.get("ClockProperties", [])) == 1, "clock properties: %r", noid.get("ClockProperties"))
    wnoid = {}
    for k, i, a in want:
        if i is None:
            wnoid.setdefault(k, []).append(plain(a))
            continue
        require((k, i) in got, "definition %s %d is missing", k, i)
        require(got[(k, i)] == plain(a), "definition %s %d has fields %r, expected %r", k, i, got[(k, i)], plain(a))
    require(n == len(want), "%d definitions in the table, %d in the archive: kinds %r", n, len(want), sorted(set(got) - {(k, i) for k, i, _ in want})[:5])
    require({k: sorted(map(str, v)) for k, v in noid.items()} == {k: sorted(map(str, v)) for k, v in wnoid.items()},
            "definitions without identifier are %r, expected %r", noid, wnoid)
    clock = noid["ClockProperties"][0]
    require(clock["timer_resolution"] == case["res"] and clock["global_offset"] == w.offset, "clock properties are %r", clock)
    # the definitions this case made, by meaning
    for i, nm in enumerate(case["regions"]):
        hit = [a for (k, _), a in got.items() if k == "Region" and a["name"] == nm and a["begin_line_number"] == i + 1]
        require(len(hit) == 1, "region %r of line %d appears %d times", nm, i + 1, len(hit))
    # the references of every event are those recorded with it
    compare_events(tr.events, w)
    # references in events resolve to what was recorded
    ev = tr.events
    for et, nm, p, at in zip(ev["Event Type"].tolist(), ev["Name"].tolist(), ev["Process"].tolist(), ev["Attributes"].tolist()):
        require(("LocationGroup", int(p)) in got, "process %r is no location group", p)
        if isinstance(at, dict):
            for key, v in at.items():
                refs = [v] if key != "attributes" else list(v) + [x for x in v.values() if isinstance(x, str) and x.startswith("Region ")]
                for r in refs:
                    kind = str(r).split(" ")[0]
                    if key in ("region", "communicator", "parameter", "attributes"):
                        require(kind in ("Region", "Comm", "Parameter", "Attribute") and (kind, int(r.split(" ")[1])) in got,
                                "event %r refers to %r, which is not in the table", nm, r)
            if et == "Enter":
                i = int(at["region"].split(" ")[1])
                require(got[("Region", i)]["name"] == nm, "event %r refers to region %r", nm, got[("Region", i)])
    note("definitions:%d" % (10 * (n // 10)))
    for k in sorted({k for k, _, _ in want}):
        note("kind:" + k)


def nontrivial(case):
    return case["rich"] and len(case["groups"]) > 1


SUBS = [
    Sub("defs", otf2gen.archive(sizes=(3, 8), max_groups=4), check, 800, nontrivial=nontrivial,
        rule="random archives with up to 25 kinds of definitions; non-trivial: several processes and all the rarer kinds"),
    gen.grown("crowd", otf2gen.archive(sizes=(3, 8)), otf2gen.crowded, check, nontrivial, (20, 70, 150), 24, "archives of up to several hundred locations and regions"),
]
