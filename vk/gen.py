"""Generators of event tables (cases are plain JSON-able dicts) and their builders."""
from vk.core import Sub, note
from hypothesis import strategies as st

NAN = None

POOL = [
    "main", "foo", "bar", "baz", "foo->bar", "operator->", "->", "Foo", "foo ", "fo",
    "MPI_Wait", "MPI_Waitall", "MPI_Recv", "MPI_Send", "Idle", "a", "b", "a->b", "\u00e9t\u00e9",
    "int main(int, char**)", "x,y", "0", "Enter", "Leave", "MpiSend2", 'q"u', "f::g<h>", "loop",
    "Idle(x)", "Idle()", "idle", "MPI_Waitany", "MPI_Wait(req)", "PMPI_Recv", "MPI_Recv_init", "main()", "foo ()", "FOO", "nan", "None",
]
# names as long as those of template instances, differing at one end only
LONG = ["std::vector<" + "pair<int, " * 30 + ">" * 30 + x for x in ("::push_back", "::reserve")] + ["b" + "_" * 300 + "x", "a" + "_" * 300 + "x"]
POOL += LONG
KIN = [lambda x: x + " ", lambda x: x + "  ", str.upper, str.lower, str.swapcase, lambda x: x + "()", lambda x: x + "(int)", lambda x: x + ".0",
       lambda x: x + x, lambda x: x[:-1] or "z", lambda x: x + "\u0301", lambda x: x + "_" * 1100 + "x", lambda x: x + "_" * 1100 + "y",
       lambda x: x + " [2]", lambda x: "_" + x, lambda x: x + "_", lambda x: x + "@@GLIBC", lambda x: x.replace(" ", "_") + "<>"]
FNAMES = st.one_of(
    st.sampled_from(POOL), st.sampled_from(POOL),
    st.text(alphabet=st.characters(min_codepoint=33, max_codepoint=0x2FF, exclude_categories=("C", "Z")),
            min_size=1, max_size=6),
)

DTS = st.one_of(
    st.sampled_from([0, 0, 1, 1, 2, 3, 5, 10]),
    st.integers(0, 20),
    st.integers(0, 2000),
    st.integers(0, 10**9),
)
DT1 = st.one_of(st.sampled_from([1, 1, 2, 3, 5, 10]), st.integers(1, 30), st.integers(1, 2000), st.integers(1, 10**7))

OPS_NESTED = ["E", "E", "E", "L", "L", "I", "D", "E", "E", "E", "L", "L", "I", "D", "P", "Q"]
OPS_MESSY = ["E", "E", "E", "L", "L", "X", "X", "I", "D", "E", "E", "E", "L", "L", "X", "X", "I", "D", "P", "Q"]
PRE = ["match", "callers", "inc", "exc", "exc", "cct", "profile", "idle"]


# mostly small numbers, sometimes ones that do not fit 8, 16 or 32 bits
PROCNO = st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(0, 40),
                   st.sampled_from([100, 127, 128, 129, 255, 256, 1000, 32767, 32768, 40000, 65535, 65536, 70000, 2**31 - 1, 2**31, 2**33]))


@st.composite
def locations(draw, max_procs=4, threads=None, dense=None, min_procs=1, lost=True):
    n = draw(st.integers(min_procs, max_procs))
    dense = draw(st.booleans()) if dense is None else dense
    if dense:
        procs = list(range(n))
        if draw(st.booleans()):
            procs = draw(st.permutations(procs))
    else:
        procs = draw(st.lists(PROCNO, min_size=n, max_size=n, unique=True))
    use_thread = draw(st.booleans()) if threads is None else threads
    locs = []
    for p in procs:
        if use_thread:
            nt = draw(st.sampled_from([1, 1, 2, 3]))
            off = draw(st.sampled_from([0, 0, 0, 0, 0, 1, 1, 200, 70000]))
            for t in range(nt):
                locs.append([p, t + off])
        else:
            locs.append([p, 0])
    if use_thread and lost and draw(st.integers(0, 1 if lost == "often" else 7)) == 0:
        # some events have no thread (as those of HPCToolkit's GPU streams)
        k = draw(st.integers(0, 3))
        locs = [[p, None if t == (k if k < 3 else locs[-1][1]) else t] for p, t in locs]
    return use_thread, locs


PRES = st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(PRE), max_size=3))
DEEP = st.sampled_from([0] * 87 + [140, 300, 1100])
WIDE = st.sampled_from([0] * 78 + [300, 1300])


EPOCH = 1_700_000_000_123_456_789  # nanoseconds since 1970: more digits than a float has


@st.composite
def table(draw, mode=None, max_procs=3, threads=None, dense=None, zero_dt=True, metrics=None,
          close=None, instants=True, names=None, sizes=(2, 6, 14, 30, 60), reps=(1, 1, 1, 1, 2, 4, 10),
          float_ts=None, mpi=False, min_procs=1, positive_span=False, dts=None, pre=True, loops=True, lost=True,
          epoch=True):
    """An event table.  Rows: [ts, 'E'|'L'|'I', name, loc]."""
    use_thread, locs = draw(locations(max_procs, threads, dense, min_procs, lost))
    mode = draw(st.sampled_from(["nested", "messy"])) if mode is None else mode
    if names is None:
        names = draw(st.lists(FNAMES, min_size=1, max_size=6, unique=True))
        if draw(st.integers(0, 35)) % 9 == 4:
            # different names that are easily taken for the same
            kin = [f(names[0]) for f in KIN]
            k = draw(st.integers(0, 99))
            names = list(dict.fromkeys([names[0], kin[k % len(kin)], kin[k * 7 % len(kin)]] + names[1:3]))
    ops = OPS_NESTED if mode == "nested" else OPS_MESSY
    if not loops:
        ops = [o for o in ops if o not in "PQ"]
    if not instants:
        ops = [o for o in ops if o not in "IPQ"]
    n = draw(st.sampled_from(list(sizes)))
    item = st.tuples(
        st.integers(0, len(locs) - 1), st.sampled_from(ops), st.integers(0, len(names) - 1),
        dts if dts is not None else DTS if zero_dt else DT1,
    )
    prog = draw(st.lists(item, min_size=max(0, n // 2), max_size=n))
    rep = draw(st.sampled_from(list(reps)))
    close = draw(st.sampled_from([True, True, True, False])) if close is None else close
    if zero_dt and dts is None and 1 < len(locs) < 5 and rep == 1 and len(prog) < 16 and draw(st.integers(0, 40)) % 8 == 3:
        # all locations do the same at the same times
        prog = [(j, op, ni, dt if j == 0 else 0) for _, op, ni, dt in prog for j in range(len(locs))]
    unit = "int"
    if float_ts is None:
        unit = draw(st.sampled_from(["int", "int", "half", "flt"]))
    elif float_ts:
        unit = "half"
    base = draw(st.sampled_from([0, 0, 0, 0, 7, 10**6, 10**12, -9, -10**6] + [EPOCH] * (epoch and unit == "int")))
    stacks = [[] for _ in locs]
    rows = []
    t = base
    deep = draw(DEEP)
    if deep and prog:
        # one location starts inside very many open calls
        li, _, ni, dt = prog[len(prog) // 2]
        if dt % 2 == 0:
            rows.append([t, "E", names[ni - 1], li])
            stacks[li].append(names[ni - 1])
        for k in range(deep):
            nm = names[(ni + (k if dt % 2 else 0)) % len(names)]
            rows.append([t, "E", nm, li])
            stacks[li].append(nm)
            t += 1 if dt < 50 or not zero_dt else 0
        if dt % 2 == 0 and mode == "messy":
            # the outermost of them ends first
            s = stacks[li]
            rows.append([t, "L", names[ni - 1], li])
            del s[max(k for k in range(len(s)) if s[k] == names[ni - 1])]
    wide = draw(WIDE)
    if wide and prog:
        # one call has very many direct callees
        li, _, ni, dt = prog[len(prog) // 3]
        rows.append([t, "E", names[ni], li])
        stacks[li].append(names[ni])
        for k in range(wide):
            nm = names[(ni + k * (dt % 3)) % len(names)]
            t += (k % 3) if zero_dt else 1
            rows.append([t, "E", nm, li])
            t += 1
            rows.append([t, "L", nm, li])
        t += 1
    for r in range(rep):
        for (li, op, ni, dt) in prog:
            t += dt
            if op == "L" and not stacks[li]:
                op = "E"
            if op == "E":
                rows.append([t, "E", names[ni], li])
                stacks[li].append(names[ni])
            elif op == "D":
                for _ in range(2 + ni * 3):
                    rows.append([t, "E", names[ni], li])
                    stacks[li].append(names[ni])
                    t += dt if dt < 50 else 1
            elif op == "L":
                rows.append([t, "L", stacks[li].pop(), li])
            elif op in "IPQ":
                rows.append([t, op, names[ni], li])
            elif op == "X":
                rows.append([t, "L", names[ni], li])
                s = stacks[li]
                for k in range(len(s) - 1, -1, -1):
                    if s[k] == names[ni]:
                        del s[k]
                        break
        if close or (mode == "nested" and r < rep - 1):
            order = list(range(len(locs)))
            if len(order) > 1 and prog:
                k = prog[0][0] % len(order)
                order = order[k:] + order[:k]
            for li in order:
                while stacks[li]:
                    t += 1 + (len(stacks[li]) % 3)
                    rows.append([t, "L", stacks[li].pop(), li])
    if unit == "half":
        rows = [[x[0] * 0.5] + x[1:] for x in rows]
    elif unit == "flt":
        rows = [[float(x[0])] + x[1:] for x in rows]
    if positive_span:
        if not rows or rows[-1][0] <= rows[0][0]:
            last = rows[-1][0] if rows else t
            rows.append([last + 3, "E", names[0], 0])
            rows.append([last + 8, "L", names[0], 0])
            if len(rows) == 2:
                pass
    case = {"thread": use_thread, "locs": locs, "rows": rows, "mode": mode}
    if pre:
        case["pre"] = draw(PRES)
    nm = draw(st.integers(0, 2)) if metrics is None else metrics
    if nm:
        case["cols"] = {}
        for k in range(nm):
            vals = draw(st.lists(st.integers(-50, 1000), min_size=1, max_size=7))
            kind = draw(st.sampled_from(["cum", "cum", "late", "raw", "nan", "float"]))
            nanp = draw(st.integers(2, 9))
            # counters run on from before the program
            col, acc = [], 10**17 + 1 if kind == "late" else 0
            for i in range(len(rows)):
                v = vals[(i * (k + 1)) % len(vals)]
                acc += v
                x = acc if kind != "raw" else v
                if kind == "float":
                    x = x * 0.25
                if kind == "nan" and i % nanp == 1:
                    x = None
                col.append(x)
            case["cols"]["PAPI_%s" % ("TOT_INS" if k == 0 else "L2_TCM")] = col
    return case


ET = {"E": "Enter", "L": "Leave", "I": "Instant", "P": "Loop Enter", "Q": "Loop Leave"}


def frame(case, perm_cols=False):
    """The events DataFrame of a case, with the dtypes pipit's readers produce."""
    import numpy as np
    import pandas as pd

    rows = case["rows"]
    locs = case["locs"]
    d = {
        "Timestamp (ns)": [r[0] for r in rows],
        "Event Type": [ET[r[1]] for r in rows],
        "Name": [r[2] for r in rows],
    }
    if case.get("thread"):
        d["Thread"] = [locs[r[3]][1] for r in rows]
    d["Process"] = [locs[r[3]][0] for r in rows]
    if "attrs" in case:
        d["Attributes"] = [a for a in case["attrs"]]
    df = pd.DataFrame(d)
    if not rows:
        df["Timestamp (ns)"] = df["Timestamp (ns)"].astype("int64")
    if "Attributes" in df:
        df["Attributes"] = df["Attributes"].astype(object)
    for c in ("Event Type", "Name", "Process") + (("Thread",) if case.get("thread") else ()):
        df[c] = df[c].astype("category")
    for name, col in case.get("cols", {}).items():
        if any(v is None for v in col):
            df[name] = np.array([float("nan") if v is None else float(v) for v in col], dtype=float)
        else:
            df[name] = np.array(col) if col else np.array([], dtype=float)
            if name in case.get("types", {}):
                df[name] = df[name].astype(case["types"][name])
    for name, col in case.get("extra", {}).items():
        import pandas as pd

        df[name] = pd.Series(list(col), dtype=object if col and isinstance(col[0], str) else None)
        if col and isinstance(col[0], str):
            df[name] = df[name].astype("category")
    return df


def build(case):
    """A trace of the case on which the analyses named in case["pre"] have been run already."""
    from pipit import Trace

    tr = Trace(None, frame(case))
    for op in case.get("pre", ()):
        if op == "match":
            tr._match_events()
        elif op == "callers":
            tr._match_caller_callee()
        elif op == "inc":
            tr.calc_inc_metrics()
        elif op == "exc":
            tr.calc_exc_metrics()
        elif op == "cct":
            tr.create_cct()
        elif op == "profile":
            tr.flat_profile(metrics=["time.inc"])
        elif op == "idle":
            tr.idle_time(["main", "Idle"], mpi_events=True)
    return tr


BASE_COLS = ["Timestamp (ns)", "Event Type", "Name", "Process"]


def labels(case, note):
    from collections import Counter

    rows = case["rows"]
    note("mode:%s" % case.get("mode"))
    note("thread" if case.get("thread") else "nothread")
    if any(l[1] is None for l in case["locs"]):
        note("thread missing")
    note("locs:%d" % len(case["locs"]))
    n = len(rows)
    note("rows:" + ("0" if n == 0 else "1-9" if n < 10 else "10-49" if n < 50 else "50-199" if n < 200 else "200+"))
    if any(a[0] == b[0] for a, b in zip(rows, rows[1:])):
        note("has-ties")
    c = Counter(r[1] for r in rows)
    if c["I"] or c["P"] or c["Q"]:
        note("has-instant")


# ------------------------------------------------------------------ messages
SEND = ["MpiSend", "MpiIsend"]
RECV = ["MpiRecv", "MpiIrecv"]
DECOYS = ["MpiSendSync", "MpiSsend", "MpiSendx", "MpiIsendComplete", "MpiIsend2", "MpiRecvx", "MpiIrecvRequest", "mpisend", "RmaSend", "Send", "Recv"]
SIZES = st.one_of(st.integers(0, 10), st.sampled_from([0, 1, 8, 1024, 4096]), st.integers(0, 10**6), st.integers(0, 2**31), st.sampled_from([2**31, 2**32, 2**40]))


@st.composite
def msg_table(draw, max_procs=4, threads=None, sizes=(2, 6, 14, 30, 60), nested=True, zero_dt=True, pre=True):
    """A table on processes 0..n-1 with message instants carrying attributes."""
    nproc = draw(st.integers(1, max_procs))
    use_thread = draw(st.booleans()) if threads is None else threads
    locs = []
    for p in range(nproc):
        for t in range(draw(st.sampled_from([1, 2])) if use_thread else 1):
            locs.append([p, t])
    n = draw(st.sampled_from(list(sizes)))
    names = ["main", "MPI_Send", "MPI_Recv", "MpiSendx", "compute"]
    kinds = ["MpiSend", "MpiSend", "MpiIsend", "MpiRecv", "MpiIrecv", "MpiIsendComplete", "MpiIrecvRequest",
             "decoy", "ThreadFork", "E", "E", "L", "L"]
    item = st.tuples(st.integers(0, len(locs) - 1), st.sampled_from(kinds), st.integers(0, nproc - 1),
                     SIZES, DTS if zero_dt else DT1)
    prog = draw(st.lists(item, min_size=max(0, n // 2), max_size=n))
    base = draw(st.sampled_from([0, 0, 0, 5, 10**6, -20]))
    flt = draw(st.booleans())
    # every process occurs in the trace
    t = base
    rows, attrs = [], []
    for li in range(len(locs)):
        rows.append([t, "E", "main", li])
        attrs.append({"region": "Region 0"})
        t += draw(st.sampled_from([0, 1, 3]))
    stacks = [["main"] for _ in locs]
    for (li, k, peer, size, dt) in prog:
        t += dt
        if k == "L" and len(stacks[li]) < 2:
            k = "E"
        if k == "E":
            nm = names[1 + peer % 4]
            stacks[li].append(nm)
            rows.append([t, "E", nm, li])
            attrs.append({"region": "Region 1"})
        elif k == "L":
            rows.append([t, "L", stacks[li].pop(), li])
            attrs.append(None)
        else:
            if k == "decoy":
                # another kind of event that carries the same fields as a message
                nm = DECOYS[(size + peer) % len(DECOYS)]
                rows.append([t, "I", nm, li])
                attrs.append({"receiver": peer, "sender": peer, "msg_tag": 0, "msg_length": size, "request_id": size})
                continue
            rows.append([t, "I", k, li])
            if k in SEND:
                attrs.append({"receiver": peer, "communicator": "Comm 0", "msg_tag": size % 7, "msg_length": size})
            elif k in RECV:
                attrs.append({"sender": peer, "communicator": "Comm 0", "msg_tag": size % 7, "msg_length": size})
            elif k == "ThreadFork":
                attrs.append({"model": "Paradigm.OPENMP", "number_of_requested_threads": 4})
            else:
                attrs.append({"request_id": size})
    for li in range(len(locs)):
        while stacks[li]:
            t += 1
            rows.append([t, "L", stacks[li].pop(), li])
            attrs.append(None)
    if flt:
        rows = [[r[0] * 0.5] + r[1:] for r in rows]
    case = {"thread": use_thread, "locs": locs, "rows": rows, "attrs": attrs, "mode": "nested", "nproc": nproc}
    if pre:
        case["pre"] = draw(PRES)
    return case


# ------------------------------------------------------------------ size
@st.composite
def scaled(draw, base, how, copies):
    """A small case and how to multiply it: {"of": case, "how": "rows"|"procs", "n": ..., "gap": ...}.

    rows: the table over and over again, up to about n rows (apart: one location after the other); procs: n copies of it on processes of
    their own, at the same time, every second one with function names of its own."""
    return {"of": draw(base), "how": how, "n": draw(st.sampled_from(list(copies))), "gap": draw(st.sampled_from([0, 1, 7, 10**6])),
            "apart": draw(st.integers(0, 2)) > 0}


def expand(c):
    """The table that a case of scaled() describes."""
    small = c["of"]
    rows, locs = small["rows"], small["locs"]
    case = dict(small)
    if not rows:
        return case
    out, order = [], range(len(rows))
    if c["how"] == "rows":
        k = max(1, c["n"] // len(rows))
        step = rows[-1][0] - rows[0][0] + c["gap"]
        parts = [[i for i in order if rows[i][3] == l] for l in range(len(locs))] if c["apart"] else [list(order)]
        src, j = [], 0
        for part in parts:
            for _ in range(k):
                src += part
                out += [[rows[i][0] + j * step] + list(rows[i][1:]) for i in part]
                j += 1
        shift = [0] * len(src)
    else:
        k = min(c["n"], max(43, 40000 // max(1, len(rows))))
        rank = {p: i for i, p in enumerate(sorted({p for p, _ in locs}))}
        case["locs"] = [[j * len(rank) + rank[p], t] for j in range(k) for p, t in locs]
        tagged = []
        for j in range(k):
            tag = "_%d" % j if j % 2 and c.get("own", True) else ""
            d = j * c["gap"]
            tagged += [(r[0] + d, j, i, [r[0] + d, r[1], r[2] + (tag if r[1] in "EL" else ""), r[3] + j * len(locs)] + list(r[4:]))
                       for i, r in enumerate(rows)]
        tagged.sort(key=lambda x: x[:3])
        out, src = [x[3] for x in tagged], [x[2] for x in tagged]
        shift = [x[1] * len(rank) for x in tagged]
        if "nproc" in small:
            case["nproc"] = small["nproc"] * k
    case["rows"] = out
    for part in ("cols", "extra"):
        if part in small:
            case[part] = {n: [v[i] for i in src] for n, v in small[part].items()}
    if "attrs" in small:
        def moved(a, d):
            return a if a is None or not d else {x: v + d if x in ("sender", "receiver") else v for x, v in a.items()}

        case["attrs"] = [moved(small["attrs"][i], d) for i, d in zip(src, shift)]
    return case


@st.composite
def rescaled(draw, base):
    """Tables in a finer or coarser unit of time (exactly: by powers of two, or whole numbers)."""
    c = draw(base)
    f = (2.0**-8, 2.0**-12, 2.0**-16, 2.0**-20, 1_000_003, 987_654_321)[draw(st.integers(0, 59)) % 6]
    hi = max([abs(r[0]) for r in c["rows"]] or [1])
    if f > 1 and hi * f > 2**52:
        f = 2.0**-12
    return dict(c, rows=[[r[0] * f] + list(r[1:]) for r in c["rows"]], unit=f)


def multiplied(base, check, nontrivial, how, copies, n, own=True):
    """A sub-check of the same property over large tables."""
    strategy = scaled(base, how, copies) if own else scaled(base, how, copies).map(lambda c: dict(c, own=False))

    def run(c):
        note("copies:%d" % c["n"])
        check(expand(c))

    return Sub("large" if how == "rows" else "crowd", strategy, run, n, nontrivial=lambda c: nontrivial(c["of"]),
               rule="tables multiplied to %s; non-trivial: as before multiplying" % ("tens of thousands of rows" if how == "rows" else "hundreds of processes and functions"))


def grown(name, base, grow, check, nontrivial, copies, n, rule):
    """A sub-check over datasets that grow(small case, k) makes large."""
    strategy = st.fixed_dictionaries({"of": base, "n": st.sampled_from(list(copies))})

    def run(c):
        note("copies:%d" % c["n"])
        check(grow(c["of"], c["n"]))

    return Sub(name, strategy, run, n, nontrivial=lambda c: nontrivial(c["of"]), rule=rule + "; non-trivial: as before multiplying")
