from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, close, note, require, sut
from vk.model import M
from vk.util import same_base, snapshot, val

IDLE = ["Idle", "MPI_Wait", "MPI_Waitall", "MPI_Recv", "foo", "main", "a->b", "idle", "MPI_Waitany", "Idle(x)", "MPI_Wait(r)", "MPI_Recv_"]
MPI = {"MPI_Wait", "MPI_Waitall", "MPI_Recv"}


@st.composite
def idle_case(draw):
    names = draw(st.lists(st.sampled_from(IDLE + ["bar", "Idle2"]), min_size=1, max_size=7, unique=True))
    case = draw(gen.table(max_procs=4, names=names))
    call = st.fixed_dictionaries({
        "funcs": st.one_of(st.none(), st.lists(st.sampled_from(IDLE), max_size=4, unique=True)),
        "mpi": st.one_of(st.none(), st.booleans()),
    })
    case["calls"] = draw(st.lists(call, min_size=1, max_size=5))
    return case


def expected(m, funcs, mpi):
    want = set(funcs) | (MPI if mpi else set())
    out = {p: 0 for p in m.processes()}
    for e, d in m.inc().items():
        if m.name(e) in want:
            out[m.proc(e)] += d
    return out


def check(case):
    gen.labels(case, note)
    m = M(case)
    with sut("idle time"):
        tr = gen.build(case)
        before = snapshot(tr.events)
    for k, c in enumerate(case["calls"]):
        kw = {}
        funcs = ["Idle"] if c["funcs"] is None else list(c["funcs"])
        if c["funcs"] is not None:
            kw["idle_functions"] = list(c["funcs"])
        if c["mpi"] is not None:
            kw["mpi_events"] = c["mpi"]
        with sut("idle time (call %d)" % (k + 1)):
            df = tr.idle_time(**kw)
        if "idle_functions" in kw:
            require(kw["idle_functions"] == c["funcs"], "idle time changed the caller's list to %r", kw["idle_functions"])
        want = expected(m, funcs, c["mpi"])
        procs = [val(x) for x in df["Process"].tolist()]
        vals = [val(x) for x in df["Idle Time"].tolist()]
        require(len(procs) == len(set(procs)) and set(procs) == set(want), "processes listed %r, present %r", procs, sorted(want))
        for p, v in zip(procs, vals):
            require(v is not None and close(v, want[p]), "call %d %r: idle time of process %r is %r, expected %r", k + 1, c, p, v, want[p])
        if any(want.values()):
            note("nonzero")
        note("mpi" if c["mpi"] else "nompi")
    same_base(before, tr.events, "idle time")


def nontrivial(case):
    m = M(case)
    return any(any(expected(m, c["funcs"] or ["Idle"], c["mpi"]).values()) for c in case["calls"]) and len(case["calls"]) > 1


SUBS = [
    Sub("idle", idle_case(), check, 3000, nontrivial=nontrivial,
        rule="random tables and sequences of idle-time calls on one trace; non-trivial: several calls, some with non-zero idle time"),
    gen.multiplied(idle_case(), check, nontrivial, "procs", (43, 130, 300), 24, own=False),
]
