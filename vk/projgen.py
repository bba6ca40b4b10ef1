"""Projections directories: generator of cases, writer and expected events."""
import gzip
import os

from hypothesis import strategies as st

KINDS = ["bproc", "eproc"] * 4 + ["create", "mcast", "enq", "deq", "recv", "bint", "eint", "btr", "etr", "uev", "bidle",
         "eidle", "bpack", "epack", "bunp", "eunp", "usup", "mem", "note", "bnote", "buep", "euep", "uep", "ustat",
         "unknown", "blank", "junk"]
ENTRIES = ["main()", "foo(int a, int b)", "dummy_thread_ep", "run", "Computation2", "a->b", "0", "MPI_Wait", "recv(Msg* m)",
           "Idle", "Overhead [x]", "f"]
EVENTS = ["my event", "step", "a b c", "0", "Trace x", "x"]
FREE = ["log", "it's 3", "a b  c", "0 1 2", "z"]
UNKNOWN = [22, 23, 24, 25, 30, 31, 33, 97, 101, 999]


@st.composite
def directory(draw, max_pes=4, sizes=(2, 6, 15, 30), kinds=None, huge=None, finish=None):
    n = draw(st.integers(1, max_pes)) if huge is None else draw(huge)
    chares = [[nm, draw(st.integers(0, 4))] for nm in draw(st.lists(st.sampled_from(["Main", "Arr<int, 2>", "X", "Group of y"]),
                                                                  min_size=1, max_size=3, unique=draw(st.integers(0, 20)) % 3 > 0))]
    names = draw(st.lists(st.sampled_from(ENTRIES), min_size=1, max_size=5, unique=True))
    off = draw(st.sampled_from([0, 0, 7]))
    case = {"exe": draw(st.sampled_from(["pingpong", "a.out", "my-exe.v2", "x.sts.prj", "1"])), "pes": n, "chares": chares,
            "entries": [[off + i, nm, draw(st.integers(0, len(chares) - 1))] for i, nm in enumerate(names)],
            "events": draw(st.lists(st.sampled_from(EVENTS), min_size=1, max_size=3, unique=True)),
            "evoff": draw(st.sampled_from([0, 5, 1000])),
            "stats": draw(st.lists(st.sampled_from(EVENTS), min_size=1, max_size=2, unique=True)),
            "papi": draw(st.integers(0, 2))}
    logs = []
    item = st.tuples(st.sampled_from(kinds or KINDS), st.sampled_from([0, 0, 1, 1, 2, 10, 1000, 10**7]),
                     st.integers(0, 60), st.integers(0, 60))
    base = draw(st.sampled_from([0, 0, 5, 10**6]))
    for p in range(n):
        k = draw(st.sampled_from(list(sizes)))
        body = draw(st.lists(item, min_size=0, max_size=k))
        t, recs = base, [["bcomp", base, 0, 0]]
        stack = []
        for (kd, dt, a, b) in body:
            t += dt
            if kd == "bproc":
                stack.append(a)
            if kd == "eproc":
                if not stack:
                    continue
                a = stack.pop()
            recs.append([kd, t, a, b])
        if draw(st.integers(0, 3)) == 0 and stack:
            while stack:
                t += 1
                recs.append(["eproc", t, stack.pop(), 0])
        shape = draw(st.integers(0, 11))
        if finish is None and shape == 0 and p > 0:
            logs.append([])
            continue
        if finish is None and shape == 1 and any(r[0] not in ("usup", "unknown", "blank", "junk") for r in recs[1:]):
            recs = recs[1:]
        f = draw(st.sampled_from(["end", "end", "end", "open", "open"])) if finish is None else finish
        if f == "end":
            recs.append(["ecomp", t + 1, 0, 0])
        logs.append(recs)
    case["logs"] = logs
    case["sts_blank"] = draw(st.booleans())
    return case


def longer(case, n):
    """The logs over and over again, about n records each, with 300 entry methods and more."""
    logs = []
    for log in case["logs"]:
        body = [r for r in log if r[0] not in ("bcomp", "ecomp")]
        if not body:
            logs.append(log)
            continue
        t0 = min(r[1] for r in log)
        step = max(r[1] for r in log) - t0
        out = [r for r in log if r[0] == "bcomp"]
        k = max(1, n // len(body))
        out += [[kd, t + j * step, a + (j % 60 * len(case["entries"]) if kd in ENTRYKINDS else 0), b] for j in range(k) for kd, t, a, b in body]
        logs.append(out + [[r[0], r[1] + (k - 1) * step] + r[2:] for r in log if r[0] == "ecomp"])
    last = max(e[0] for e in case["entries"]) + 1
    more = [[last + i, "%s_%d" % (nm, i), ch] for i, (_, nm, ch) in enumerate(case["entries"] * 59)]
    return dict(case, logs=logs, entries=case["entries"] + more)


def crowded(case, k):
    """The logs of the processors k times."""
    return dict(case, pes=case["pes"] * k, logs=case["logs"] * k)


ENTRYKINDS = ("bproc", "eproc", "create", "mcast")


def sts_text(case, pes=None):
    L = ['VERSION 10.0', 'MACHINE "linux"', "PROCESSORS %d" % (case["pes"] if pes is None else pes), "SMPMODE 1 1",
         'COMMANDLINE "./%s"' % case["exe"], "TIMESTAMP 2023-01-01T00:00:00Z", "TOTAL_CHARES %d" % len(case["chares"]),
         "TOTAL_EPS %d" % len(case["entries"]), "TOTAL_MSGS 1", "TOTAL_PSEUDOS 0", "TOTAL_EVENTS %d" % len(case["events"])]
    if case["sts_blank"]:
        L.append("")
    for i, (nm, dim) in enumerate(case["chares"]):
        L.append('CHARE %d "%s" %d' % (i, nm, dim))
    for i, nm, ch in case["entries"]:
        L.append('ENTRY CHARE %d "%s" %d 0' % (i, nm, ch))
    L.append("MESSAGE 0 64")
    for i, nm in enumerate(case["events"]):
        L.append("EVENT %d %s" % (case["evoff"] + i, nm))
    L.append("TOTAL_STATS %d" % len(case["stats"]))
    for i, nm in enumerate(case["stats"]):
        L.append("STAT %d %s" % (i, nm))
    if case["papi"]:
        L.append("TOTAL_PAPI_EVENTS %d" % case["papi"])
        for i in range(case["papi"]):
            L.append("PAPI_EVENT %d PAPI_%d" % (i, i))
    L.append("END")
    return "\n".join(L) + "\n"


def log_lines(case, pe):
    """(text lines, expected events [(ns or None, type, names, details or None)])."""
    lines, out = ["PROJECTIONS-RECORD %d" % len(case["logs"][pe])], []
    for kd, t, a, b in case["logs"][pe]:
        eid, ename, ch = case["entries"][a % len(case["entries"])]
        cname, dim = case["chares"][ch]
        names = (ename, cname + "::" + ename)
        ui = a % len(case["events"])
        uid, un = case["evoff"] + ui, case["events"][ui]
        frm = b % max(1, case["pes"])
        ns = t * 1000
        perf = list(range(b, b + case["papi"]))

        def emit(text, *evs):
            lines.append(text)
            out.extend(evs)

        if kd == "bcomp":
            emit("6 %d" % t, (ns, "Enter", ("Computation",), None))
        elif kd == "ecomp":
            emit("7 %d" % t, (ns, "Leave", ("Computation",), None))
        elif kd == "bproc":
            ids = [b + i for i in range(dim)]
            emit("2 %d %d %d %d %d %d %d %s" % (b % 4, eid, t, a, frm, 64 + b, t // 2, " ".join(map(str, ids + [b * 3] + perf))),
                 (ns, "Enter", names, {"From PE": frm, "Message Type": b % 4, "Entry Type": "Processing", "Event ID": a,
                                       "Message Length": 64 + b, "Receive Time": (t // 2, t // 2 * 1000), "ID List": ids,
                                       "CPU Start Time": (b * 3, b * 3000), "perf counts list": perf}))
        elif kd == "eproc":
            emit("3 %d %d %d %d %d %d %d %s" % (b % 4, eid, t, a, frm, 64 + b, b * 3, " ".join(map(str, perf))),
                 (ns, "Leave", names, "any"))
        elif kd == "create":
            emit("1 %d %d %d %d %d %d %d" % (b % 4, eid, t, a, frm, 100 + b, b),
                 (ns, "Instant", names, {"From PE": frm, "MType": b % 4, "Entry Type": "Create", "Message Length": 100 + b,
                                         "Event ID": a, "Send Time": b * 1000}))
        elif kd == "mcast":
            dst = [(a + i) % 5 for i in range(b % 4)]
            emit("21 %d %d %d %d %d %d %d %d %s" % (b % 4, eid, t, a, frm, 100 + b, b, len(dst), " ".join(map(str, dst))),
                 (ns, "Instant", names, {"From PE": frm, "Message Type": b % 4, "Entry Type": "Multicast", "Message Length": 100 + b,
                                         "Event ID": a, "Send Time": b * 1000, "Destinat*": dst}))
        elif kd == "enq":
            emit("4 %d %d %d %d" % (b % 4, t, a, frm), (ns, "Instant", ("Enque",), {"From PE": frm, "Message Type": b % 4, "Event ID": a}))
        elif kd == "deq":
            emit("5 %d %d %d %d" % (b % 4, t, a, frm), (ns, "Instant", ("Deque",), {"From PE": frm, "Message Type": b % 4, "Event ID": a}))
        elif kd == "recv":
            emit("10 %d %d %d %d %d" % (b % 4, t, a, frm, 77 + b),
                 (ns, "Instant", ("Message Receive",), {"From PE": frm, "Message Type": b % 4, "Event ID": a, "Message Length": 77 + b}))
        elif kd in ("bint", "eint"):
            emit("%d %d %d %d" % (8 if kd == "bint" else 9, t, a, frm),
                 (ns, "Enter" if kd == "bint" else "Leave", ("Interrupt",), {"From PE": frm, "Event ID": a}))
        elif kd in ("btr", "etr"):
            emit("%d %d" % (11 if kd == "btr" else 12, t), (ns, "Enter" if kd == "btr" else "Leave", ("Trace",), None))
        elif kd in ("bidle", "eidle", "bpack", "epack", "bunp", "eunp"):
            code = {"bidle": 14, "eidle": 15, "bpack": 16, "epack": 17, "bunp": 18, "eunp": 19}[kd]
            nm = {"idle": "Idle", "pack": "Pack", "unp": "Unpack"}[kd[1:]]
            emit("%d %d %d" % (code, t, frm), (ns, "Enter" if kd[0] == "b" else "Leave", (nm,), {"From PE": frm}))
        elif kd == "usup":
            emit("26 %d" % a, (None, "Instant", ("User Supplied",), {"User Supplied": (str(a), a)}))
        elif kd == "mem":
            emit("27 %d %d" % (1000 + a, t), (ns, "Instant", ("Memory Usage",), {"Memory Usage": 1000 + a}))
        elif kd == "note":
            emit("28 %d %s" % (t, FREE[a % 5]), (ns, "Instant", ("User Supplied Note",), {"Note": ["words", FREE[a % 5].split()]}))
        elif kd == "bnote":
            d = {"Event ID": uid, "Event Name": ["words", un.split()], "Note": ["words", FREE[b % 5].split()]}
            emit("29 %d %d %d %s" % (t, t + b, uid, FREE[b % 5]),
                 (ns, "Enter", ("User Supplied Bracketed Note",), d), (ns + b * 1000, "Leave", ("User Supplied Bracketed Note",), d))
        elif kd == "uev":
            emit("13 %d %d %d %d" % (uid, t, a, frm),
                 (ns, "Instant", (un,), {"From PE": frm, "Event ID": a, "Event Type": "User Event"}))
        elif kd == "uep":
            emit("100 %d %d %d %d %d" % (uid, t, a, frm, b),
                 (ns, "Instant", (un,), {"From PE": frm, "Event ID": a, "Nested ID": b, "Event Type": "User Event Pair"}))
        elif kd in ("buep", "euep"):
            emit("%d %d %d %d %d %d" % (98 if kd == "buep" else 99, uid, t, a, frm, b),
                 (ns, "Enter" if kd == "buep" else "Leave", ("User Event Pair",),
                  {"From PE": frm, "Event ID": a, "Nested ID": b, "User Event Name": ["words", un.split()]}))
        elif kd == "ustat":
            si = a % len(case["stats"])
            emit("32 %d %d %s %d %d" % (t, b, a * 0.5, frm, si),
                 (ns, "Instant", (case["stats"][si],), {"From PE": frm, "User Time": b * 1000, "Stat": a * 0.5, "Event Type": "User Stat"}))
        elif kd == "unknown":
            emit("%d %d %d %d %d" % (UNKNOWN[a % len(UNKNOWN)], t, b, a, frm))
        elif kd == "blank":
            emit("")
        elif kd == "junk":
            emit(["END", "PROJECTIONS-RECORD", "x 1 2 3", "- 4"][a % 4])
        else:
            raise KeyError(kd)
    timed = [e[0] for e in out if e[0] is not None]
    if out and not (out[-1][1] == "Leave" and out[-1][2] == ("Computation",)):
        out.append((max(timed), "Leave", ("Computation",), "any"))
    return lines, out


def write(case, path, skip=(), pes=None):
    """Write the directory; returns the expected events per processor."""
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, case["exe"] + ".sts"), "w") as f:
        f.write(sts_text(case, pes))
    exp = []
    for p in range(case["pes"]):
        lines, out = log_lines(case, p)
        exp.append(out)
        if p in skip:
            continue
        with open(os.path.join(path, "%s.%d.log.gz" % (case["exe"], p)), "wb") as f:
            f.write(gzip.compress(("\n".join(lines) + "\n").encode(), compresslevel=1))
    return exp
