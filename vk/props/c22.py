import os

from hypothesis import strategies as st

from vk import gen, hpcgen
from vk.core import Sub, fail, note, require, scratch, sut
from vk.props.c03 import walk
from vk.props.c21 import read, rows_of

ASSUMPTIONS = [
    "a function context directly below an entry point is shown at its function's own place; any other context at its own stored place or, lacking one, at that of its parent",
]


def check(case):
    m = hpcgen.Model(case)
    if not any(m.line_events(li) for li in range(len(case["lines"]))):
        note("skipped:no-events")
        return
    with scratch() as d:
        hpcgen.write(case, d)
        with sut("reading an HPCToolkit database"):
            tr = read(d)
    got = rows_of(tr.events)
    ctx = case["ctx"]
    byid = {v: i for i, v in enumerate(case["ids"])}
    # the tree has one node per entry point, function and loop, nested as stored
    kids = {}
    for i, c in enumerate(ctx):
        if c["t"] in (-1, 0, 1):
            kids.setdefault(m.parent[i], []).append(i)

    canon = {}  # the shapes of the subtrees of a node -> number of this shape

    def number(below):
        return canon.setdefault(tuple(sorted(below)), len(canon))

    shape = {}
    for i in sorted((i for ks in kids.values() for i in ks), reverse=True):
        shape[i] = number([shape[k] for k in kids.get(i, [])])
    graph = tr.cct
    require(graph is not None, "the trace has no calling context tree")
    nodes = walk(graph)
    want_n = sum(1 for c in ctx if c["t"] in (-1, 0, 1))
    require(len(nodes) == want_n, "the tree has %d nodes, the database %d contexts that own one", len(nodes), want_n)
    require(len({n._pipit_nid for n, _ in nodes}) == want_n, "node identifiers are not unique")
    nshape = {}
    for n, _ in reversed(nodes):
        nshape[id(n)] = number([nshape[id(k)] for k in n.children])
    require(sorted(nshape[id(r)] for r in graph.roots) == sorted(shape[i] for i in kids[None]), "the tree is not nested as the database stores it")
    for n, par in nodes:
        require(n.parent is par and n.get_level() == (0 if par is None else par.get_level() + 1), "node %s: parent or level is wrong", n)
    member = {id(n) for n, _ in nodes}
    owner = {}
    for i, r in enumerate(got):
        require(r["ctx"] in byid, "row %d has context %r, which the database does not have", i, r["ctx"])
        c = byid[r["ctx"]]
        n = r["node"]
        require(n is not None and id(n) in member, "row %d refers to a node outside the tree", i)
        require(owner.setdefault(id(n), c) == c, "one node stands for the contexts %d and %d", owner[id(n)], c)
        k, p = n, c
        while k is not None and p is not None:
            require(owner.setdefault(id(k), p) == p, "one node stands for the contexts %d and %d", owner[id(k)], p)
            k, p = k.parent, m.parent[p]
        require(k is None and p is None, "row %d: node of context %r has another depth than the database says", i, r["ctx"])
        require(r["name"] == m.name(c), "row %d: context %r is named %r, the database says %r", i, r["ctx"], r["name"], m.name(c))
        f, l = m.place(c)
        require((r["file"] or "") == f, "row %d: context %r is in file %r, the database says %r", i, r["ctx"], r["file"], f)
        gl = None if r["line"] in (None, -1, "-1", "") else int(r["line"])
        require(gl == l, "row %d: context %r is at line %r, the database says %r", i, r["ctx"], r["line"], l)
    require(len(set(owner.values())) == len(owner), "two nodes stand for one context: %r", owner)
    for c in ctx:
        note("context:%d" % c["t"])


@st.composite
def bad_case(draw):
    case = draw(hpcgen.database(samples=(1, 3)))
    case["file"] = draw(st.sampled_from(["meta.db", "profile.db", "trace.db"]))
    case["how"] = draw(st.sampled_from(["magic", "magic", "format", "format", "swap", "empty", "missing", "text"]))
    case["at"] = draw(st.integers(0, 13))
    case["byte"] = draw(st.integers(1, 255))
    case["other"] = draw(st.sampled_from([1, 2]))
    return case


def check_bad(case):
    files = ["meta.db", "profile.db", "trace.db"]
    how = case["how"]
    with scratch() as d:
        hpcgen.write(case, d)
        p = os.path.join(d, case["file"])
        data = bytearray(open(p, "rb").read())
        if how == "magic":
            i = case["at"] % 10
            data[i] = (data[i] + case["byte"]) % 256
        elif how == "format":
            i = 10 + case["at"] % 4
            data[i] = (data[i] + case["byte"]) % 256
        elif how == "swap":
            q = files[(files.index(case["file"]) + case["other"]) % 3]
            data = bytearray(open(os.path.join(d, q), "rb").read())
        elif how == "empty":
            data = bytearray()
        elif how == "text":
            data = bytearray(b"this is not a database\n" * 40)
        if how == "missing":
            os.remove(p)
        else:
            with open(p, "wb") as f:
                f.write(bytes(data))
        note("bad:" + how)
        try:
            read(d)
        except Exception:  # noqa: BLE001  refused
            return
        fail("an HPCToolkit database whose %s is damaged (%s at byte %d) is read without complaint" % (case["file"], how, case["at"]))


SUBS = [
    Sub("contexts", hpcgen.database(samples=(3, 8, 20)), check, 3500,
        nontrivial=lambda c: any(x["t"] in (2, 3) for x in c["ctx"]) and len(c["ctx"]) > 6,
        rule="random context trees with functions, loops, lines and instructions; non-trivial: more than six contexts, some of them lines or instructions"),
    Sub("refuse", bad_case(), check_bad, 1200, rule="databases with a damaged, exchanged, missing or empty file"),
    Sub("functions", st.tuples(hpcgen.database(samples=(3, 8)), st.sampled_from([65530, 65536, 70000])).map(lambda x: dict(x[0], fpad=x[1])), check, 16,
        nontrivial=lambda c: len(c["ctx"]) > 6, rule="databases with tens of thousands of functions; non-trivial: more than six contexts"),
    gen.grown("crowd", hpcgen.database(samples=(3, 8)), hpcgen.crowded, check, lambda c: len(c["ctx"]) > 6, (43, 130, 400), 24, "hundreds of trace lines, thousands of contexts"),
]
