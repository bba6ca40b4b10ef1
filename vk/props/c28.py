import os

from hypothesis import strategies as st

from vk import gen, hpcgen
from vk.core import Sub, note, require, scratch, sut
from vk.props import c21
from vk.props.c03 import walk

ASSUMPTIONS = ["node identifiers are unique in a tree, as every construction in pipit makes them; identifiers below zero do not occur"]


@st.composite
def tree_case(draw):
    n = draw(st.sampled_from([2, 3, 5, 9, 20, 40] * 20 + [300, 300, 1500]))
    n = draw(st.integers(max(1, n // 2), n))
    shape = draw(st.sampled_from(["any", "any", "deep", "bushy"]))
    par = []
    for i in range(n):
        # (trees with more than a few nodes are two long branches)
        k = i - 2 if n > 300 else draw(st.integers(-1, i - 1)) if shape == "any" else draw(st.sampled_from([i - 1, i - 1, i - 1, -1])) if shape == "deep" else draw(st.integers(-1, min(i - 1, 2)))
        par.append(k)
    if draw(st.booleans()):
        par = [p if p >= 0 or i == 0 else 0 for i, p in enumerate(par)]
    ids = draw(st.sampled_from(["seq", "perm", "sparse", "big"]))
    ids = list(range(n)) if ids == "seq" else list(draw(st.permutations(range(n)))) if ids == "perm" else [7 * i + 3 for i in range(n)] if ids == "sparse" else [2**31 - 5 + 3 * i for i in range(n)]
    return {"par": par, "ids": ids, "levels": draw(st.booleans()), "min": draw(st.integers(-3, 8)),
            "pairs": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=4, max_size=30))}


def build(case):
    from pipit.graph import Graph, Node

    g, nodes, lev = Graph(), [], []
    for i, p in enumerate(case["par"]):
        lev.append(0 if p < 0 else lev[p] + 1)
        par = None if p < 0 else nodes[p]
        n = Node(case["ids"][i], par, lev[i]) if case["levels"] else Node(case["ids"][i], par)
        nodes.append(n)
        if par is None:
            g.add_root(n)
        else:
            par.add_child(n)
    return g, nodes


def verify(nodes, par, pairs, mins):
    """nodes[i] is the real node of tree position i with parent par[i]."""
    def chain(i):
        out = []
        while i >= 0:
            out.append(i)
            i = par[i]
        return out

    for i, n in enumerate(nodes):
        with sut("level"):
            lv = n.get_level()
        require(lv == len(chain(i)) - 1, "level of node %d is %r, it is %d steps below its root", i, lv, len(chain(i)) - 1)
    for a, b in pairs:
        ca, cb = chain(a), set(chain(b))
        want = next((x for x in ca if x in cb), None)
        with sut("intersection of two nodes"):
            g1, g2 = nodes[a].get_intersection(nodes[b]), nodes[b].get_intersection(nodes[a])
        for g, txt in ((g1, (a, b)), (g2, (b, a))):
            if want is None:
                require(g is None, "intersection of nodes %r in different trees is %s", txt, g)
            else:
                require(g is not None and g == nodes[want] and g.get_level() == nodes[want].get_level(),
                        "intersection of nodes %r is %s, expected %s", txt, g, nodes[want])
        note("other-tree" if want is None else "self" if a == b else "ancestor" if want in (a, b) else "proper")
    for i, m in mins:
        with sut("node list"):
            got = nodes[i].get_node_list(m)
        want = [nodes[k] for k in chain(i) if len(chain(k)) - 1 > m]
        require(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "node list of node %d above level %d is %s, expected %s", i, m,
                [str(x) for x in got], [str(x) for x in want])
    for a in range(len(nodes)):
        require(nodes[a] == nodes[a] and not any(nodes[a] == nodes[b] for b in range(len(nodes)) if a != b), "node %d equals another node", a)


def check(case):
    with sut("building a tree"):
        g, nodes = build(case)
    n = len(nodes)
    require([r._pipit_nid for r in g.roots] == [case["ids"][i] for i, p in enumerate(case["par"]) if p < 0], "the roots are %s", g)
    for i, x in enumerate(nodes):
        kids = [nodes[k] for k, p in enumerate(case["par"]) if p == i]
        require(len(x.children) == len(kids) and all(u is v for u, v in zip(x.children, kids)), "children of node %d are %s", i, [str(c) for c in x.children])
        require(x.parent is (None if case["par"][i] < 0 else nodes[case["par"][i]]), "parent of node %d is %s", i, x.parent)
    pairs = [(a % n, b % n) for a, b in case["pairs"]]
    verify(nodes, case["par"], pairs, [(a, (b + case["min"]) % 10 - 2) for a, b in pairs])


@st.composite
def trace_case(draw):
    if draw(st.integers(0, 2)):
        return {"kind": "table", "src": draw(gen.table(metrics=0, max_procs=3, sizes=(6, 14, 30))), "pairs": draw(PAIRS)}
    return {"kind": "hpctoolkit", "src": draw(hpcgen.database(samples=(3, 8))), "pairs": draw(PAIRS)}


PAIRS = st.lists(st.tuples(st.integers(0, 200), st.integers(0, 200)), min_size=6, max_size=25)


def check_trace(case):
    if case["kind"] == "table":
        with sut("building the calling context tree"):
            tr = gen.build(case["src"])
            tr.create_cct()
    else:
        m = hpcgen.Model(case["src"])
        if not any(m.line_events(i) for i in range(len(case["src"]["lines"]))):
            return
        with scratch() as d:
            p = os.path.join(d, "db")
            hpcgen.write(case["src"], p)
            with sut("reading an HPCToolkit database"):
                tr = c21.read(p)
    order = walk(tr.cct)
    if not order:
        return
    pos = {id(n): i for i, (n, _) in enumerate(order)}
    par = [-1 if p is None else pos[id(p)] for _, p in order]
    nodes = [n for n, _ in order]
    pairs = [(a % len(nodes), b % len(nodes)) for a, b in case["pairs"]]
    verify(nodes, par, pairs, [(a, b % 7 - 1) for a, b in pairs])
    note("tree:" + case["kind"])


SUBS = [
    Sub("trees", tree_case(), check, 9000, nontrivial=lambda c: len(c["par"]) > 4 and max(c["par"]) > 0,
        rule="random forests with random identifiers, built node by node; non-trivial: more than four nodes, some below the second level"),
    Sub("traces", trace_case(), check_trace, 1200, rule="the trees of random traces and HPCToolkit databases"),
]
