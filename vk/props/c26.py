import os

from hypothesis import strategies as st

from vk import gen, hpcgen, nsysgen, ops, otf2gen, projgen
from vk.core import Sub, fail, note, require, scratch, sut
from vk.props import c13, c14, c15, c19, c21, c23
from vk.util import same_base, snapshot

ASSUMPTIONS = [
    "an analysis that a freshly loaded trace refuses has to be refused at every point of the history",
    "metric columns a profile asks for are computed in the same step; results handed out may be overwritten by the user",
]


@st.composite
def base(draw):
    if draw(st.booleans()):
        case = draw(gen.msg_table(sizes=(6, 14, 30), pre=False))
        n = len(case["rows"])
        v = draw(st.lists(st.integers(0, 50), min_size=1, max_size=5))
        case["cols"] = {"PAPI_TOT_INS": [i * 7 + v[i % len(v)] for i in range(n)]} if draw(st.booleans()) else {}
        return case
    case = draw(gen.table(dense=True, sizes=(6, 14, 30), reps=(1, 1, 2), pre=False))
    procs = sorted({case["locs"][r[3]][0] for r in case["rows"]})
    case["attrs"] = []
    for i, r in enumerate(case["rows"]):
        if r[1] not in "EL" and i % 3:
            r[2] = ["MpiSend", "MpiIsend", "MpiRecv", "MpiIrecv"][i % 4]
            case["attrs"].append({"receiver" if i % 4 < 2 else "sender": procs[i % len(procs)], "msg_length": i % 11})
        else:
            case["attrs"].append(None)
    return case


@st.composite
def history_case(draw):
    case = {"trace": draw(base()), "other": draw(gen.table(sizes=(6,), metrics=0, pre=False))}
    t = case["trace"]
    names = sorted({r[2] for r in t["rows"] if r[1] in "EL"}) or ["main"]
    o = ops.op(metrics=sorted(t.get("cols", {})), names=names, thread=t["thread"])
    hist = draw(st.lists(st.tuples(o, st.booleans()), min_size=3, max_size=7))
    rep = draw(st.lists(st.integers(0, 6), max_size=2))
    case["ops"] = [list(x) for x in hist] + [list(hist[k % len(hist)]) for k in rep]
    return case


def run_history(fresh, tr, hist, others, tag):
    """fresh: () -> a newly loaded trace."""
    before = snapshot(tr.events)
    cols0 = list(tr.events.columns)
    done = []
    for op, scribble in hist:
        try:
            ref = fresh()
            want, _ = ops.run(ref, op, others())
        except Exception as e:  # noqa: BLE001  refused: it has to be refused here as well
            note("refused:" + op["op"])
            try:
                ops.run(tr, op, others())
            except Exception:  # noqa: BLE001
                same_base(before, tr.events, "%r" % (op,))
                continue
            fail("%r is answered after %r, a freshly loaded trace refuses it with %r" % (op, done, e))
        with sut("%s after %r on the same trace" % (op, done)):
            had = set(tr.events.columns)
            got, raw = ops.run(tr, op, others())
        if not ops.same(got, want):
            fail("%r gives another answer after %r than on a freshly loaded trace: %s" % (op, done, diff(got, want)))
        same_base(before, tr.events, "%r" % (op,))
        new = set(tr.events.columns) - had - set(ref.events.columns)
        require(not new, "%r adds the columns %r after %r, but not on a freshly loaded trace", op, sorted(new), done)
        require([c for c in tr.events.columns if c in cols0] == cols0, "%r reordered the columns", op)
        if scribble:
            ops.scribble(raw)
        done.append(op["op"])
        note(tag + op["op"])
    return done


def diff(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%d entries instead of %d: %.200r, not %.200r" % (len(a), len(b), a, b)
        for x, y in zip(a, b):
            if not ops.same(x, y):
                return diff(x, y)
    return "%.300r, not %.300r" % (a, b)


def check(case):
    gen.labels(case["trace"], note)
    run_history(lambda: gen.build(case["trace"]), gen.build(case["trace"]), case["ops"], lambda: [gen.build(case["other"])], "step:")


# ------------------------------------------------------ traces as the readers load them
FORMATS = ["csv", "otf2", "projections", "hpctoolkit", "nsight"]


@st.composite
def file_case(draw):
    f = draw(st.sampled_from(FORMATS))
    if f == "csv":
        src = draw(c14.csv_case())
    elif f == "otf2":
        src = draw(otf2gen.archive(sizes=(6, 14)))
    elif f == "projections":
        src = draw(projgen.directory(sizes=(4, 12), kinds=["bproc", "bproc", "eproc", "eproc", "create", "bidle", "eidle", "bpack", "epack", "uev"]))
    elif f == "hpctoolkit":
        src = draw(hpcgen.database(samples=(3, 8), full_ids=True))
    else:
        src = draw(nsysgen.report())
    o = ops.op(names=["main", "Computation", "foo", "MPI_Recv", "loop"], thread=f in ("otf2", "hpctoolkit"), comm=f == "otf2")
    return {"format": f, "src": src, "ops": [list(x) for x in draw(st.lists(st.tuples(o, st.booleans()), min_size=3, max_size=6))],
            "num": draw(st.sampled_from([1, 1, 2]))}


def load(case, d):
    """Writes the case's files and returns () -> newly read trace, or None."""
    f, src = case["format"], case["src"]
    p = os.path.join(d, "t")
    if f == "csv":
        c14.write(src, p)
        return lambda: c14_read(p)
    if f == "otf2":
        if not otf2gen.write(src, p).rows:
            return None
        return lambda: c15.read(src, p, num_processes=case["num"])
    if f == "projections":
        projgen.write(src, p)
        return lambda: c19.read(p, num_processes=case["num"])
    if f == "hpctoolkit":
        m = hpcgen.Model(src)
        if not any(m.line_events(i) for i in range(len(src["lines"]))):
            return None
        hpcgen.write(src, p)
        return lambda: c21.read(p)
    nsysgen.write(src, p)
    return lambda: c23.read(p)


def c14_read(p):
    from pipit import Trace

    return Trace.from_csv(p)


def copy(tr):
    from pipit import Trace

    return Trace(tr.definitions, tr.events.copy(), tr.cct)


def check_file(case):
    with scratch() as d:
        get = load(case, d)
        if get is None:
            note("skipped:no-events")
            return
        first, second = get(), get()
    done = run_history(lambda: copy(second), first, case["ops"], lambda: [copy(second)], case["format"] + ":")
    if done:
        note("format:" + case["format"])


# ------------------------------------------------------ with pattern detection
@st.composite
def pattern_case(draw):
    t = draw(c13.loop_case())
    names = sorted({r[2] for r in t["rows"] if r[1] in "EL"})
    o = ops.op(names=names, thread=t["thread"], comm=False)
    p = st.fixed_dictionaries({"op": st.just("pattern"), "start": st.just(t["start"]), "iters": st.integers(1, 3), "window": st.integers(3, 4),
                               "proc": st.just(t["proc"])})
    seq = draw(st.lists(st.one_of(p, o, o), min_size=1, max_size=4)) + [draw(p)] + draw(st.lists(o, max_size=2))
    return {"trace": {k: t[k] for k in ("thread", "locs", "rows", "mode")}, "ops": [[x, draw(st.booleans())] for x in seq]}


def check_pattern(case):
    run_history(lambda: gen.build(case["trace"]), gen.build(case["trace"]), case["ops"], lambda: [], "pattern-history:")


def nontrivial(case):
    return len({o[0]["op"] for o in case["ops"]}) >= 3


SUBS = [
    Sub("pattern", pattern_case(), check_pattern, 160, nontrivial=nontrivial, workers=2, warm=c13.warmup, rule="histories with pattern detection"),
    Sub("history", history_case(), check, 900, nontrivial=nontrivial,
        rule="histories of 3-9 analyses with random arguments, each compared with a fresh trace, results overwritten at random; non-trivial: three different analyses"),
    Sub("files", file_case(), check_file, 360, nontrivial=nontrivial, rule="the same on traces read from files of all five formats"),
]
