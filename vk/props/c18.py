import os
from collections import defaultdict

from hypothesis import strategies as st

from vk import gen, otf2gen, projgen
from vk.core import Sub, isnull, note, require, scratch, sut
from vk.props import c19
from vk.props.c15 import norm, read
from vk.props.c16 import plain
from vk.util import val

ASSUMPTIONS = ["the order of events of different locations at exactly equal times is not part of the promise"]


def content(tr):
    """Per location: list of rows with every column; plus the definitions table."""
    df = tr.events
    cols = [c for c in df.columns if c not in ("Process", "Thread")]
    vals = {}
    for c in cols:
        vals[c] = [norm(v) if isinstance(v, dict) else val(v) for v in df[c].tolist()]
    out = defaultdict(list)
    for i, (p, t) in enumerate(zip(df["Process"].tolist(), df["Thread"].tolist())):
        out[(int(p), int(t))].append({c: vals[c][i] for c in cols})
    d = tr.definitions
    defs = [(k, None if isnull(i) else int(i), plain(a)) for k, i, a in zip(d["Definition Type"].tolist(), d["ID"].tolist(), d["Attributes"].tolist())]
    return out, defs, sorted(set(cols)), df["Timestamp (ns)"].tolist()


def check(case):
    with scratch() as d:
        path = os.path.join(d, "a")
        w = otf2gen.write(case, path)
        if not w.rows:
            note("skipped:no-events")
            return
        with sut("reading OTF2 with one process"):
            one = content(read(case, path, num_processes=1))
        require(sum(len(v) for v in one[0].values()) == len(w.rows), "%d rows read, %d recorded", sum(len(v) for v in one[0].values()), len(w.rows))
        for n in case["ns"]:
            with sut("reading OTF2 with num_processes=%r" % (n,)):
                k = content(read(case, path, num_processes=n))
            require(k[1] == one[1], "definitions differ when read with %r processes", n)
            require(k[2] == one[2], "columns are %r with %r processes and %r with one", k[2], n, one[2])
            require(set(k[0]) == set(one[0]), "locations are %r with %r processes and %r with one", sorted(k[0]), n, sorted(one[0]))
            for loc in one[0]:
                a, b = one[0][loc], k[0][loc]
                require(len(a) == len(b), "location %r has %d events with %r processes and %d with one", loc, len(b), n, len(a))
                for i, (x, y) in enumerate(zip(a, b)):
                    require(x == y, "event %d of location %r is %r with %r processes and %r with one", i, loc, y, n, x)
            require(k[3] == sorted(k[3]), "rows are not in time order when read with %r processes", n)
            note("n:%s" % ("default" if n is None else "invalid" if n < 1 else n if n < 9 else "many"))
    note("locations:%d" % sum(len(g) for g in case["groups"]))


@st.composite
def par_case(draw):
    case = draw(otf2gen.archive(sizes=(6, 20, 40)))
    case["ns"] = draw(st.lists(st.one_of(st.integers(2, 8), st.sampled_from([None, 0, -1, 9, 64, 1000])), min_size=2, max_size=3, unique=True))
    return case


def nontrivial(case):
    return sum(len(g) for g in case["groups"]) > 2 and any(n is not None and 1 < n < sum(len(g) for g in case["groups"]) for n in case["ns"])


@st.composite
def proj_case(draw):
    case = draw(projgen.directory(max_pes=9, sizes=(0, 4, 10)))
    case["ns"] = draw(st.lists(st.one_of(st.integers(2, 8), st.sampled_from([None, 0, -1, 9, 64, 1000])), min_size=2, max_size=3, unique=True))
    return case


def proj_content(tr):
    df = tr.events
    cols = [c for c in df.columns if c != "Process"]
    vals = {c: [v if isinstance(v, dict) else val(v) for v in df[c].tolist()] for c in cols}
    out = defaultdict(list)
    for i, p in enumerate(df["Process"].tolist()):
        out[int(p)].append({c: vals[c][i] for c in cols})
    return out, sorted(cols), df["Timestamp (ns)"].tolist(), list(df.index)


def check_proj(case):
    with scratch() as d:
        path = os.path.join(d, "run")
        exp = projgen.write(case, path)
        with sut("reading Projections with one process"):
            one = c19.read(path, num_processes=1)
        c19.compare(one.events, exp)
        one = proj_content(one)
        for n in case["ns"]:
            with sut("reading Projections with num_processes=%r" % (n,)):
                k = proj_content(c19.read(path, num_processes=n))
            require(k[1] == one[1], "columns are %r with %r processes and %r with one", k[1], n, one[1])
            require(set(k[0]) == set(one[0]), "processes are %r with %r readers and %r with one", sorted(k[0]), n, sorted(one[0]))
            for p, a in one[0].items():
                b = k[0][p]
                require(len(a) == len(b), "process %r has %d events with %r readers and %d with one", p, len(b), n, len(a))
                for i, (x, y) in enumerate(zip(a, b)):
                    require(x == y, "event %d of process %r is %r with %r readers and %r with one", i, p, y, n, x)
            require(k[2] == sorted(k[2]), "rows are not in time order when read with %r readers", n)
            require(k[3] == list(range(len(k[3]))), "rows are not numbered from zero when read with %r readers", n)
            note("projections n:%s" % ("default" if n is None else "invalid" if n < 1 else n if n < 9 else "many"))


SUBS = [
    Sub("workers", par_case(), check, 450, nontrivial=nontrivial,
        rule="archives read with one and with other numbers of reader processes; non-trivial: fewer processes than locations, uneven shares included"),
    Sub("projections", proj_case(), check_proj, 350, nontrivial=lambda c: any(n is not None and 1 < n < c["pes"] for n in c["ns"]),
        rule="Projections directories of up to 9 logs read with one and with other numbers of readers; non-trivial: fewer readers than logs"),
    gen.grown("crowd", par_case(), otf2gen.crowded, check, nontrivial, (20, 40), 8, "archives of up to several hundred locations and regions"),
]
