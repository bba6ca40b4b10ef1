"""Every public analysis as a named operation with a comparable answer."""
from hypothesis import strategies as st

from vk import gen
from vk.core import close, isnull
from vk.util import val


def frame_answer(df, sort_rows=False, sort_cols=False):
    cols = [val(c) if not isinstance(c, tuple) else tuple(map(val, c)) for c in df.columns]
    order = sorted(range(len(cols)), key=lambda k: str(cols[k])) if sort_cols else range(len(cols))
    idx = [val(i) if not isinstance(i, tuple) else tuple(map(val, i)) for i in df.index.tolist()]
    data = [df.iloc[:, k].tolist() for k in range(len(cols))]
    rows = [(idx[r], [value(data[k][r]) for k in order]) for r in range(len(idx))]
    if sort_rows:
        rows.sort(key=lambda x: str(x[0]))
    return [[cols[k] for k in order], rows]


def value(x):
    if hasattr(x, "_pipit_nid"):
        return ("node", x._pipit_nid)
    if isinstance(x, (list, tuple)):
        return [value(v) for v in x]
    if isinstance(x, dict):
        return x
    return val(x)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isnull(a) or isnull(b):
        return isnull(a) and isnull(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return close(a, b, abs_=1e-6)
    return a == b


def columns_answer(tr, names):
    return [[n, [value(v) for v in tr.events[n].tolist()]] for n in names]


def tree_answer(tr):
    """The tree, as seen from the events: per row the first row of its node, the level and the parent's first row."""
    name = "Graph_Node" if "Graph_Node" in tr.events.columns else "Node"
    col = tr.events[name].tolist()
    first = {}
    for i, g in enumerate(col):
        if hasattr(g, "_pipit_nid"):
            first.setdefault(id(g), i)
    rows = []
    for g in col:
        if not hasattr(g, "_pipit_nid"):
            rows.append(None)
        else:
            rows.append([first[id(g)], g.get_level(), None if g.parent is None else first.get(id(g.parent), -1)])
    return [len(tr.cct.roots), sum(1 for _ in descend(tr.cct)), rows]


def descend(graph):
    todo = list(graph.roots)
    while todo:
        n = todo.pop()
        yield n
        todo.extend(n.children)


COLS = {"time": "Timestamp (ns)"}


def run(tr, op, others=()):
    """Returns (comparable answer, raw answer)."""
    k, a = op["op"], op
    if k == "match":
        tr._match_events()
        return columns_answer(tr, ["_matching_event", "_matching_timestamp"]), None
    if k == "callers":
        tr._match_caller_callee()
        return columns_answer(tr, ["_depth", "_parent", "_children"]), None
    if k in ("inc", "exc"):
        f = tr.calc_inc_metrics if k == "inc" else tr.calc_exc_metrics
        if a["cols"] is None:
            f()
            return columns_answer(tr, [("time" if c == "Timestamp (ns)" else c) + "." + k for c in a.get("all", ["Timestamp (ns)"])]), None
        arg = list(a["cols"])
        f(arg)
        assert arg == a["cols"]
        return columns_answer(tr, [("time" if c == "Timestamp (ns)" else c) + "." + k for c in a["cols"]]), None
    if k == "profile":
        for m in a["metrics"]:
            if not m.startswith("time."):
                (tr.calc_inc_metrics if m.endswith(".inc") else tr.calc_exc_metrics)([m[:-4]])
        df = tr.flat_profile(metrics=list(a["metrics"]), groupby_column=a["by"], per_process=a["pp"])
        return frame_answer(df, sort_rows=True), df
    if k == "imbalance":
        df = tr.load_imbalance(metric=a["metric"], num_processes=a["n"])
        return frame_answer(df, sort_rows=True), df
    if k == "idle":
        arg = None if a["fs"] is None else list(a["fs"])
        df = tr.idle_time(mpi_events=a["mpi"]) if arg is None else tr.idle_time(idle_functions=arg, mpi_events=a["mpi"])
        return frame_answer(df.set_index("Process"), sort_rows=True), df
    if k == "timeprofile":
        df = tr.time_profile(num_bins=a["bins"], normalized=a["norm"])
        return frame_answer(df, sort_cols=True), df
    if k == "matrix":
        x = tr.comm_matrix(output=a["out"])
        return x.tolist(), x
    if k == "byproc":
        df = tr.comm_by_process(output=a["out"])
        return frame_answer(df), df
    if k == "msghist":
        h, e = tr.message_histogram(bins=a["bins"])
        return [h.tolist(), e.tolist()], h
    if k == "overtime":
        h, e = tr.comm_over_time(output=a["out"], message_type=a["mt"], bins=a["bins"])
        return [h.tolist(), e.tolist()], h
    if k == "multirun":
        df = type(tr).multirun_analysis([tr] + list(others))
        return frame_answer(df, sort_cols=True), df
    if k == "cct":
        tr.create_cct()
        return tree_answer(tr), None
    if k == "chrome":
        return tr.to_chrome(), None
    if k == "pattern":
        r = tr.detect_pattern(a["start"], iterations=a["iters"], window_size=a["window"], process=a["proc"])
        base = ["Timestamp (ns)", "Event Type", "Name", "Process"]
        return [[x.index.tolist(), frame_answer(x[base])] for x in r], None if not r else r[0]
    raise AssertionError(k)


def op(metrics=(), names=("main",), thread=False, comm=True, matrix=True, pattern=False, procs=(0,)):
    ts = ["Timestamp (ns)"]
    allc = ts + list(metrics)
    mets = [c + k for c in ["time"] + list(metrics) for k in (".inc", ".exc")]
    by = ["Name"] + (["Thread", ["Name", "Thread"]] if thread else []) + [["Name"]]
    fs = st.lists(st.sampled_from(list(names) + ["Idle", "MPI_Wait"]), max_size=3, unique=True)
    lst = st.lists(st.sampled_from(allc), min_size=1, max_size=len(allc), unique=True)
    out = [
        st.fixed_dictionaries({"op": st.sampled_from(["inc", "exc"]), "cols": st.one_of(st.none(), lst, lst), "all": st.just(allc)}),
        st.fixed_dictionaries({"op": st.just("profile"), "metrics": st.lists(st.sampled_from(mets), min_size=1, max_size=3, unique=True),
                               "by": st.sampled_from(by), "pp": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("imbalance"), "metric": st.sampled_from(["time.exc", "time.inc"]), "n": st.integers(1, 5)}),
        st.fixed_dictionaries({"op": st.just("idle"), "fs": st.one_of(st.none(), fs), "mpi": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("timeprofile"), "bins": st.sampled_from([1, 2, 3, 7, 10]), "norm": st.booleans()}),
        st.just({"op": "multirun"}),
        st.sampled_from([{"op": "match"}, {"op": "callers"}, {"op": "chrome"}]), st.just({"op": "cct"}),
    ]
    if comm:
        outs = st.sampled_from(["size", "count"])
        out += [st.fixed_dictionaries({"op": st.just("msghist"), "bins": st.integers(1, 8)}),
                st.fixed_dictionaries({"op": st.just("overtime"), "out": outs, "mt": st.sampled_from(["send", "receive"]), "bins": st.integers(1, 8)})]
        if matrix:
            out.append(st.fixed_dictionaries({"op": st.sampled_from(["matrix", "byproc"]), "out": outs}))
    if pattern:
        out.append(st.fixed_dictionaries({"op": st.just("pattern"), "start": st.sampled_from(list(names)), "iters": st.integers(1, 3),
                                          "window": st.integers(3, 4), "proc": st.sampled_from(list(procs))}))
    return st.one_of(*out)


def scribble(x):
    """What a user may do to a result: overwrite its numbers."""
    try:
        if hasattr(x, "columns"):
            for k in range(x.shape[1]):
                if x.dtypes.iloc[k].kind in "if":
                    x.iloc[:, k] = -12345
        elif x is not None:
            x[...] = -12345
    except Exception:  # noqa: BLE001  a read-only result is fine
        pass


assert gen
