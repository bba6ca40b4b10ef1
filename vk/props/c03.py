from vk import gen
from vk.core import Sub, note, require, sut
from vk.model import M
from vk.util import same_base, snapshot

ASSUMPTIONS = ["event tables are in time order per location and indexed 0..n-1, as every reader produces them"]


def walk(graph):
    """All nodes, visited from the roots; fails on cycles and shared nodes."""
    seen, order = {}, []
    stack = [(r, None) for r in graph.roots]
    while stack:
        node, par = stack.pop()
        require(id(node) not in seen, "node %s is reached twice in the tree", node)
        seen[id(node)] = node
        order.append((node, par))
        for c in node.children:
            stack.append((c, node))
    return order


def check_tree(tr, case):
    """The tree and the node references of tr agree with the call paths of the case."""
    m = M(case)
    graph = tr.cct
    require(graph is not None, "no calling context tree was built")
    nodes = walk(graph)
    ids = [n._pipit_nid for n, _ in nodes]
    require(len(set(ids)) == len(ids), "node identifiers are not unique: %r", sorted(ids))
    col = tr.events["Graph_Node"].tolist()
    bypath, bynode = {}, {}
    for i, r in enumerate(case["rows"]):
        g = col[i]
        if i not in m.path:
            require(g is None or g != g, "row %d %r is no enter but refers to node %s", i, r, g)
            continue
        require(g is not None and hasattr(g, "children"), "enter row %d %r refers to no node (%r)", i, r, g)
        p = m.path[i]
        require(bypath.setdefault(p, g) is g, "two nodes for the call path %r", p)
        require(bynode.setdefault(id(g), p) == p, "one node for the call paths %r and %r", bynode[id(g)], p)
    require(len(nodes) == len(bypath), "tree has %d nodes for %d distinct call paths", len(nodes), len(bypath))
    for node, par in nodes:
        require(id(node) in bynode, "tree node %s belongs to no call", node)
        p = bynode[id(node)]
        require(node.parent is par, "node of %r: parent pointer and child list disagree", p)
        require(node.get_level() == len(p) - 1 == node.level, "node of %r has level %r", p, node.get_level())
        want = bypath.get(p[:-1])
        require(par is want, "node of %r hangs below %r", p, None if par is None else bynode[id(par)])
    return m


def check(case):
    gen.labels(case, note)
    with sut("building the calling context tree"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        tr.create_cct()
    same_base(before, tr.events, "building the calling context tree")
    m = check_tree(tr, case)
    if not m.nested():
        note("overlapping")
    if len(set(case["rows"][i][3] for i in m.enters)) > 1:
        note("several-locations")


def check_after(case):
    """The tree is the same when other analyses ran first."""
    with sut("building the calling context tree after other analyses"):
        tr = gen.build(case)
        tr.calc_exc_metrics(["Timestamp (ns)"])
        tr.create_cct()
    check_tree(tr, case)


def nontrivial(case):
    m = M(case)
    return len(set(m.path.values())) >= 3 and len(m.enters) > len(set(m.path.values()))


SUBS = [
    Sub("tree", gen.table(metrics=0, max_procs=4), check, 4000, nontrivial=nontrivial,
        rule="random per-location programs; non-trivial: at least three distinct call paths and some path entered more than once"),
    Sub("after", gen.table(metrics=0), check_after, 400, nontrivial=nontrivial, rule="as tree, after exclusive metrics were computed"),
    gen.multiplied(gen.table(metrics=0, mode="nested", close=True, sizes=(6, 14, 30), reps=(1,), epoch=False), check, nontrivial, "rows", (33000, 66000), 8),
    gen.multiplied(gen.table(metrics=0, sizes=(2, 6, 14), reps=(1,), epoch=False, pre=False), check, nontrivial, "procs", (43, 130, 300), 24),
]
