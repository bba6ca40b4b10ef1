"""Nsight range reports (CSV): generator, writer and reading helper."""
from hypothesis import strategies as st

from vk import gen
from vk.model import M
from vk.props.c14 import CSV_NAMES, cell

IDS = st.one_of(st.integers(0, 5), st.integers(1, 60), st.integers(1000, 70000), st.integers(10**6, 2**31))


def to_ranges(case):
    """[name, start, end, loc] of the completed calls of a nested table."""
    m = M(case)
    return [[case["rows"][e][2], case["rows"][e][0], case["rows"][m.match[e]][0], case["rows"][e][3]] for e in m.calls]


def touch(rs, case, every):
    """Let ranges last until the next range of the same caller starts."""
    m = M(case)
    nxt, last = {}, {}
    for k, e in enumerate(m.calls):
        key = (rs[k][3], m.parent[e])
        if key in last:
            nxt[last[key]] = k
        last[key] = k
    for k, j in nxt.items():
        if k % every == 0:
            rs[k][2] = rs[j][1]
    return rs


@st.composite
def report(draw, nested=True, max_procs=4):
    if nested:
        names = draw(st.lists(CSV_NAMES, min_size=1, max_size=5, unique=True))
        dts = draw(st.sampled_from([st.sampled_from([0, 1, 1, 2]), st.sampled_from([0, 0, 1, 2]), None, st.integers(1, 50)]))
        t = draw(gen.table(mode="nested", max_procs=max_procs, metrics=0, instants=False, float_ts=False, dense=True, names=names,
                           close=True, min_procs=draw(st.sampled_from([1, 2, 2, 3])), sizes=(6, 14, 14, 30), reps=(1, 1, 2, 4), dts=dts, lost=False))
        t["rows"] = [[int(r[0])] + r[1:] for r in t["rows"]]
        rs, locs = to_ranges(t), t["locs"]
        every = draw(st.sampled_from([0, 1, 1, 2, 3]))
        if every:
            rs = touch(rs, t, every)
    else:
        _, locs = draw(gen.locations(max_procs, None, True, lost=False))
        names = draw(st.lists(CSV_NAMES, min_size=1, max_size=5, unique=True))
        raw = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 40), st.integers(0, 20), st.integers(0, 9)), min_size=1, max_size=25))
        rs = [[names[a % len(names)], s, s + d, li % len(locs)] for a, s, d, li in raw]
    np_ = len({l[0] for l in locs})
    pids = draw(st.lists(IDS, min_size=np_, max_size=np_, unique=True))
    style = draw(st.sampled_from(["same", "main", "free", "free", "swap"]))
    # a thread identifier per location: unique within its process only
    tids = []
    for p, t in locs:
        if (style == "same" and t == 0 and all(x[1] == 0 for x in locs)) or (style == "main" and t == 0):
            tids.append(pids[p])
        else:
            # thread numbers may be those of other processes
            k = pids[(p + 1 + t) % np_] if style == "swap" else draw(IDS)
            while any(k == tids[j] for j in range(len(tids)) if locs[j][0] == p):
                k += 1
            tids.append(k)
    order = draw(st.sampled_from(["asis", "start", "end", "perm"]))
    idx = list(range(len(rs)))
    if order == "start":
        idx.sort(key=lambda i: rs[i][1])
    elif order == "end":
        idx.sort(key=lambda i: rs[i][2])
    elif order == "perm":
        a = draw(st.lists(st.integers(0, 10**6), min_size=len(rs), max_size=len(rs)))
        idx.sort(key=lambda i: a[i])
    rows = [[rs[i][0], rs[i][1], rs[i][2], pids[locs[rs[i][3]][0]], tids[rs[i][3]]] for i in idx]
    rid = draw(st.sampled_from([0, 1, 1000]))
    cols = ["Start (ns)", "End (ns)", "Name", "PID", "TID", "RangeId"]
    extra = draw(st.lists(st.sampled_from(["Duration (ns)", "Lvl", "NumChild", "ParentId", "RangeStack"]), max_size=4, unique=True))
    perm = draw(st.booleans())
    cols = draw(st.permutations(cols + extra)) if perm else cols[:2] + extra + cols[2:]
    return {"ranges": rows, "cols": list(cols), "rid": rid, "nested": nested, "cct": draw(st.booleans())}


@st.composite
def anonymous(draw):
    """Reports without range identifiers, in which ranges may be listed several times."""
    case = draw(report(nested=draw(st.booleans())))
    case["cols"] = [c for c in case["cols"] if c not in ("RangeId", "ParentId", "RangeStack", "NumChild")]
    rs = case["ranges"]
    if rs:
        for k in draw(st.lists(st.integers(0, len(rs) - 1), max_size=4)):
            rs.insert(k, list(rs[k]))
    return case


def longer(case, n):
    """The ranges of a report over and over again, about n of them."""
    rs = case["ranges"]
    if not rs:
        return case
    step = max(r[2] for r in rs) - min(r[1] for r in rs) + 1
    return dict(case, nested=False, cct=False,
                ranges=[[r[0], r[1] + j * step, r[2] + j * step] + list(r[3:]) for j in range(max(1, n // len(rs))) for r in rs])


def crowded(case, k):
    """The ranges of a report in k times as many processes, the first ones with more threads."""
    rs = case["ranges"]
    top = max([x for r in rs for x in r[3:]], default=0) + 1
    out = []
    for j in range(k):
        for nm, s, e, p, t in rs:
            q = p if j < k // 2 else p + j * top
            out.append([nm, s, e, q, q + t - p if j >= k // 2 else t + (j * top if t != p or j else 0)])
    return dict(case, nested=False, cct=False, ranges=out)


def cells(case):
    out = []
    for i, (nm, s, e, p, t) in enumerate(case["ranges"]):
        out.append({"Start (ns)": s, "End (ns)": e, "Name": nm, "PID": p, "TID": t, "RangeId": case["rid"] + i, "Duration (ns)": e - s,
                    "Lvl": s % 4, "NumChild": i % 3, "ParentId": None if i % 3 == 0 else i - 1, "RangeStack": ":%d:%d" % (i, i + 1)})
    return out


def write(case, path):
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(",".join(case["cols"]) + "\n")
        for c in cells(case):
            f.write(",".join(cell(c[k]) for k in case["cols"]) + "\n")
