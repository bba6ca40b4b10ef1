from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, close, note, require, sut
from vk.util import same_base, snapshot, val

ASSUMPTIONS = ["processes are numbered 0..n-1, each has at least one event, and receivers are existing processes"]


@st.composite
def comm_case(draw):
    case = draw(gen.msg_table(max_procs=5))
    case["output"] = draw(st.sampled_from([None, "size", "count"]))
    return case


def matrix(case, output):
    n = case["nproc"]
    mat = [[0] * n for _ in range(n)]
    for r, a in zip(case["rows"], case["attrs"]):
        if r[1] == "I" and r[2] in gen.SEND:
            s = case["locs"][r[3]][0]
            mat[s][a["receiver"]] += 1 if output == "count" else a["msg_length"]
    return mat


def check(case):
    gen.labels(case, note)
    kw = {} if case["output"] is None else {"output": case["output"]}
    with sut("communication matrix"):
        tr = gen.build(case)
        before = snapshot(tr.events)
        got = tr.comm_matrix(**kw)
        by = gen.build(case).comm_by_process(**kw)
    same_base(before, tr.events, "the communication matrix")
    n = case["nproc"]
    want = matrix(case, case["output"])
    require(tuple(got.shape) == (n, n), "matrix has shape %r for %d processes", got.shape, n)
    for s in range(n):
        for r in range(n):
            require(close(got[s, r], want[s][r]), "entry (%d, %d) is %r, expected %r", s, r, got[s, r], want[s][r])
    idx = [val(x) for x in by.index.tolist()]
    require(idx == list(range(n)), "per-process totals are indexed %r for %d processes", idx, n)
    for p in range(n):
        ws, wr = sum(want[p]), sum(want[s][p] for s in range(n))
        require(close(by.loc[p]["Sent"], ws), "process %d sent %r, expected %r", p, by.loc[p]["Sent"], ws)
        require(close(by.loc[p]["Received"], wr), "process %d received %r, expected %r", p, by.loc[p]["Received"], wr)
    note("procs:%d" % n)
    if any(want[s][s] for s in range(n)):
        note("self-message")
    if want != [list(x) for x in zip(*want)]:
        note("asymmetric")


def nontrivial(case):
    w = matrix(case, "count")
    return w != [list(x) for x in zip(*w)]


SUBS = [
    Sub("matrix", comm_case(), check, 5000, nontrivial=nontrivial,
        rule="random tables with sends, receives, other instants and calls on 1-5 processes; non-trivial: asymmetric message matrix"),
    gen.multiplied(comm_case(), check, nontrivial, "rows", (33000, 66000), 12),
    gen.multiplied(comm_case(), check, nontrivial, "procs", (43, 130, 300), 40),
]
